/*
* Two real M2MLink endpoints on a simulated byte transport.
* The transport, clock, RNG and the applications at either end are simulated;
* everything from M2MLink::send() to the message callback is the real code.
*/
#pragma once
#include "engine.h"
#include "platform.h"
#include <deque>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <string.h>
#include "M2MLink/M2MLink.h"

namespace m2m {
using namespace sim;
typedef std::vector<uint8_t> Bytes;

// An independent reading of one frame, as it was handed to the transport.
struct Frame {
  bool ok = false;
  uint8_t code = 0, flags = 0;
  uint32_t len = 0, id = 0;
  bool reply() const {  return flags & 2;  }
  bool expects() const {  return flags & 1;  }
};
inline Frame parse(const Bytes& b) {
  Frame f;
  if (b.size() < 4) return f;
  f.code = b[0];  f.flags = b[1];
  unsigned ll = (b[1] >> 4) & 3, il = (b[1] >> 6) & 3;
  if (b.size() < 3 + ll + il) return f;
  unsigned p = 2;
  for (unsigned i = 0; i < ll; i++) f.len = (f.len << 8) | b[p++];
  for (unsigned i = 0; i < il; i++) f.id = (f.id << 8) | b[p++];
  uint8_t chk = (uint8_t) (f.flags + f.len + f.code + 1);
  f.ok = (ll > 0) && (chk == b[p]) && (f.len == b.size());
  return f;
}

struct World;
struct Port : public BufferAccepter {
  World* w = nullptr;  int n = 0;
  int8_t pushBuffer(StringBuilder* b) override;
  int32_t bufferAvailable() override {  return 65536;  }
};

struct Node {
  M2MLink* link = nullptr;
  Port port;
  std::vector<M2MLinkState> cb_states;    // Targets seen by the state callback.
  uint32_t state_cbs = 0;
  uint32_t rejected = 0;                  // Frames refused by the transport.
  int reject_next = 0;                    // Transport refuses this many frames.
  bool reject_all = false;
  int part_next = 0;                      // Of this many of the frames, the transport takes only a part at once.
  uint32_t parts = 0;
  Bytes rest;  Bytes frame;               // What it has yet to be offered of such a frame.
};

struct World {
  Ctx& c;
  Node node[2];
  std::deque<Bytes> wire[2];              // wire[n]: frames sent by node n, in flight.
  size_t off[2] = {0, 0};                 // Bytes of wire[n].front() already delivered.
  std::function<void(int, const Bytes&, const Frame&)> on_tx;
  std::function<void(int, const Bytes&, const Frame&)> on_refused;
  std::function<void(int, M2MMsg*)> on_msg;
  std::function<void(int, M2MLink*)> on_state;
  uint64_t tx_bytes[2] = {0, 0}, tx_frames[2] = {0, 0};
  int in_poll = -1;
  std::set<uint32_t> used_ids;
  uint32_t id_mask = 0x00FFFFFF;

  static World*& cur() {  static World* w = nullptr;  return w;  }
  World(Ctx& ctx) : c(ctx) {
    cur() = this;
    for (int i = 0; i < 2; i++) {  node[i].port.w = this;  node[i].port.n = i;  }
    on_random = [this]() -> uint32_t {
      for (int k = 0; k < 1000; k++) {
        uint32_t v = (uint32_t) (c.salt() >> 13);
        uint32_t id = (k < 40) ? (v & id_mask) : (v & 0xFFFFFF);
        if (id && used_ids.insert(id).second) return id;
      }
      return 1;
    };
  }
  ~World() {
    on_random = nullptr;
    kill(0);  kill(1);
    cur() = nullptr;
  }
  void kill(int n) {  delete node[n].link;  node[n].link = nullptr;  node[n].rest.clear();  }

  static void mcb0(uint32_t, M2MMsg* m) {  if (cur()->on_msg) cur()->on_msg(0, m);  }
  static void mcb1(uint32_t, M2MMsg* m) {  if (cur()->on_msg) cur()->on_msg(1, m);  }
  static void scb0(M2MLink* l) {  cur()->state_cb(0, l);  }
  static void scb1(M2MLink* l) {  cur()->state_cb(1, l);  }
  void state_cb(int n, M2MLink* l) {
    node[n].state_cbs++;
    if (on_state) on_state(n, l);
  }
  void make(int n, M2MLinkOpts& o) {
    node[n].link = new M2MLink(&o);
    node[n].link->setEfferant(&node[n].port);
    node[n].link->setCallback(n ? (M2MMsgCB) mcb1 : (M2MMsgCB) mcb0);
    node[n].link->setCallback(n ? (M2MLinkCB) scb1 : (M2MLinkCB) scb0);
  }
  M2MLinkState st(int n) {  return node[n].link->currentState();  }
  int8_t poll(int n) {
    in_poll = n;
    M2MLinkState before = st(n);
    int8_t r = node[n].link->poll();
    in_poll = -1;
    c.step();
    if (st(n) != before && (st(n) == M2MLinkState::HUNGUP || st(n) == M2MLinkState::PENDING_SETUP)) node[n].rest.clear();   // The session is over.
    if (st(n) != before) c.ev("%c: %s -> %s", 'A' + n, M2MLink::sessionStateStr(before), M2MLink::sessionStateStr(st(n)));
    c.state(hash64(((uint64_t) st(0) << 8) | (uint64_t) st(1), (std::min<size_t>(wire[0].size(), 5) << 4) | std::min<size_t>(wire[1].size(), 5) | (node[0].link->linkIdle() << 8) | (node[1].link->linkIdle() << 9)));
    return r;
  }
  size_t in_flight(int n) {
    size_t t = 0;
    for (auto& f : wire[n]) t += f.size();
    return t - off[n];
  }
  // Move up to k bytes of node n's output into the peer, as one push.
  size_t deliver(int n, size_t k) {
    M2MLink* dst = node[1 - n].link;
    Bytes b;
    while (b.size() < k && !wire[n].empty()) {
      Bytes& f = wire[n].front();
      size_t take = std::min(k - b.size(), f.size() - off[n]);
      b.insert(b.end(), f.begin() + off[n], f.begin() + off[n] + take);
      off[n] += take;
      if (off[n] == f.size()) {  wire[n].pop_front();  off[n] = 0;  }
    }
    if (b.empty()) return 0;
    if (dst) push(1 - n, b);
    return b.size();
  }
  int8_t push(int n, const Bytes& b) {
    StringBuilder sb;
    sb.concat((uint8_t*) b.data(), (int) b.size());
    c.step();
    return node[n].link->pushBuffer(&sb);
  }
  void clear_wires() {  for (int i = 0; i < 2; i++) {  wire[i].clear();  off[i] = 0;  }  }

  // Fair, fault-free progress: both poll, everything in flight arrives.
  void round(uint32_t ms) {
    for (int n = 0; n < 2; n++) {
      if (node[1-n].link) deliver(n, in_flight(n));
      else {  wire[n].clear();  off[n] = 0;  }
    }
    for (int n = 0; n < 2; n++) if (node[n].link) poll(n);
    c.advance(1000ull * ms);
  }
  bool both_idle() {
    return node[0].link && node[1].link && node[0].link->linkIdle() && node[1].link->linkIdle() && wire[0].empty() && wire[1].empty();
  }
  // Some runs begin shortly ahead of the instant where millis() wraps.
  void start_clock() {
    uint64_t s = 5000000ull;
    switch (c.draw(4)) {
      case 1:  s = (0x100000000ull - c.range(1, 4000)) * 1000ull;  break;
      case 2:  s = (0x80000000ull - c.range(1, 4000)) * 1000ull;  break;
      default: break;
    }
    set_clock(s);
  }
  bool until_idle(uint32_t rounds, uint32_t ms) {
    for (uint32_t i = 0; i < rounds && !c.failed(); i++) {
      if (both_idle()) return true;
      round(ms);
    }
    return both_idle();
  }
};

inline int8_t Port::pushBuffer(StringBuilder* b) {
  Node& nd = w->node[n];
  Bytes x;
  int len = b->length();
  uint8_t* p = b->string();
  x.assign(p, p + len);
  const bool CONTINUES = !nd.rest.empty();
  Frame f = parse(CONTINUES ? nd.frame : x);
  if (CONTINUES && (x != nd.rest)) {
    // The transport keeps the order of what it is given. Anything else ruins the frame that it was given first.
    w->c.fail("frame-torn", "%c: the transport took all but %zu bytes of a frame of %zu; %zu others were offered next", 'A' + n, nd.rest.size(), nd.frame.size(), x.size());
    return -1;
  }
  if (nd.reject_all || (nd.reject_next > 0)) {
    if (nd.reject_next > 0) nd.reject_next--;
    nd.rejected++;
    w->c.ev("%c: transport refuses code=%u id=%u%s", 'A' + n, f.code, f.id, CONTINUES ? " (rest)" : "");
    if (!CONTINUES && w->on_refused) w->on_refused(n, x, f);
    return -1;
  }
  size_t take = len;
  if ((nd.part_next > 0) && (len > 1)) {
    nd.part_next--;  nd.parts++;
    take = 1 + w->c.draw(len - 1);
    b->cull((int) take);
  }
  else b->clear();
  w->tx_bytes[n] += take;
  if (!CONTINUES) w->tx_frames[n]++;
  w->c.ev("%c: tx code=%u %s%sid=%u %zu of %u%s", 'A' + n, f.code, f.reply() ? "reply " : "", f.expects() ? "expects-reply " : "", f.id, take, (unsigned) len, CONTINUES ? " (rest)" : "");
  w->wire[n].push_back(Bytes(x.begin(), x.begin() + take));
  if (!CONTINUES) nd.frame = x;
  nd.rest.assign(x.begin() + take, x.end());
  if (!CONTINUES && w->on_tx) w->on_tx(n, x, f);
  return (take < (size_t) len) ? 0 : 1;
}

// ---- Application payloads ---------------------------------------------------
// A payload is described by (seq, kind, size) and can be rebuilt for comparison.
struct Pl {  uint32_t seq = 0;  uint32_t kind = 0;  uint32_t size = 0;  };
inline std::string text_for(const Pl& p) {
  std::string s;
  uint64_t x = hash64(p.seq, p.size);
  for (uint32_t i = 0; i < p.size; i++) {  x = hash64(x, i);  s.push_back((char) ('!' + (x % 90)));  }
  return s;
}
// Strings are passed by pointer, so `hold` must outlive the KVP.
inline KeyValuePair* build(const Pl& p, std::string& hold) {
  hold = text_for(p);
  KeyValuePair* k = new KeyValuePair("n", (uint32_t) p.seq);
  k->reapContainer(true);
  switch (p.kind) {
    case 0:  break;
    case 1:  k->append((const char*) hold.c_str(), "s");  break;
    case 2:  k->append((uint8_t*) hold.data(), (uint32_t) hold.size(), "b");  break;
    case 3:  k->append((int32_t) -((int32_t) (p.seq * 7919)), "i");
             k->append((const char*) hold.c_str(), "s");
             k->append((bool) (p.seq & 1), "t");  break;
  }
  return k;
}
// "" if the received payload is exactly p.
inline std::string compare(KeyValuePair* k, const Pl& p) {
  char b[160];
  if (!k) return "no payload";
  uint32_t n = 0;
  KeyValuePair* nv = k->valueWithKey("n");
  if (!nv) return "key 'n' missing";
  int8_t ok_n = -1;
  n = nv->get_as_uint(&ok_n);
  if (n != p.seq) {  snprintf(b, sizeof(b), "sequence %u where %u was sent", n, p.seq);  return b;  }
  std::string want = text_for(p);
  StringBuilder keys;
  int nk = k->collectKeys(&keys);
  int want_k = (p.kind == 0) ? 1 : ((p.kind == 3) ? 4 : 2);
  if (nk != want_k) {  snprintf(b, sizeof(b), "%d keys where %d were sent", nk, want_k);  return b;  }
  if (p.kind == 1 || p.kind == 3) {
    char* s = nullptr;
    if (0 != k->valueWithKey("s", &s) || !s) return "key 's' missing";
    if (want != s) {  snprintf(b, sizeof(b), "string of %u differs (got %u)", (unsigned) want.size(), (unsigned) strlen(s));  return b;  }
  }
  if (p.kind == 2) {
    KeyValuePair* v = k->valueWithKey("b");
    if (!v) return "key 'b' missing";
    uint8_t* d = nullptr;  uint32_t l = 0;
    if (0 != v->get_as(&d, &l)) return "binary value unreadable";
    if (l != want.size() || memcmp(d, want.data(), l)) {  snprintf(b, sizeof(b), "blob of %u differs (got %u)", (unsigned) want.size(), l);  return b;  }
  }
  if (p.kind == 3) {
    KeyValuePair* iv = k->valueWithKey("i");
    if (!iv) return "key 'i' missing";
    int8_t okay = -1;
    int32_t i = iv->get_as_int(&okay);
    if (i != -((int32_t) (p.seq * 7919))) return "integer differs";
    bool t = false;
    if (0 != k->valueWithKey("t", &t)) return "key 't' missing";
    if (t != (bool) (p.seq & 1)) return "boolean differs";
  }
  return "";
}
inline Pl draw_pl(Ctx& c, uint32_t seq, uint32_t max_size) {
  Pl p;  p.seq = seq;
  p.kind = c.pick({0u, 1u, 3u});
  switch (c.draw(4)) {
    case 0:  p.size = c.draw(12);  break;
    case 1:  p.size = c.draw(120);  break;
    case 2:  p.size = 230 + c.draw(30);  break;    // Around the 1 -> 2 byte length field.
    default: p.size = c.draw(max_size);  break;
  }
  if (p.size > max_size) p.size = max_size;
  if (p.kind == 0) p.size = 0;
  if (p.kind == 2 && p.size == 0) p.size = 1;
  return p;
}
}  // namespace m2m
