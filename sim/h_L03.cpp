/* L03: whatever bytes arrive, a link neither faults nor grows without bound, and once the
*  transport behaves again the two ends find each other and exchange messages intact. */
#include "m2m.h"
using namespace m2m;

namespace {
enum {  F_LOSS, F_FLIP, F_NOISE, F_FORGE, F_DUP, F_TRUNC, F_SWAP, F_REJECT, F_DELAY, F_STALL, F_PART  };
enum {  P_RESYNC, P_HUNGUP, P_MIDMSG, P_RECOVERED, P_BADPAYLOAD, P_LOG  };

struct Run {
  Ctx& c;  World w;
  uint32_t seq = 1, ka, mtu;
  size_t heap0 = 0;
  bool tail = false;
  Pl probe_pl[2];  uint32_t probe_got[2] = {0, 0};  bool probing = false;
  uint64_t fed[2] = {0, 0};
  Run(Ctx& ctx) : c(ctx), w(ctx) {}

  void on_msg(int n, M2MMsg* m) {
    KeyValuePair* k = nullptr;
    m->getPayload(&k);
    if (probing && k) {
      for (int s = 0; s < 2; s++) if (s != n) {
        std::string d = compare(k, probe_pl[s]);
        int8_t ok = -1;
        KeyValuePair* nv = k->valueWithKey("n");
        if (nv && nv->get_as_uint(&ok) == probe_pl[s].seq) {
          probe_got[s]++;
          if (d.size()) c.fail("payload-after-recovery", "%c: message n=%u after recovery: %s", 'A' + n, probe_pl[s].seq, d.c_str());
        }
      }
    }
    if (k) {
      StringBuilder s;  k->collectKeys(&s);
      KeyValuePair* v = k->valueWithKey("s");
      if (v) {  char* x = nullptr;  v->get_as(&x);  if (x) s.concat(x);  }
    }
    else c.probe(P_BADPAYLOAD);
    c.ev("%c: callback id=%u%s%s", 'A' + n, m->uniqueId(), m->isReply() ? " reply" : "", k ? "" : " no payload");
    delete k;
    if (m->expectsReply() && (tail || !c.chance(1, 5))) {
      Pl p = draw_pl(c, seq++, 60);
      if (c.chance(1, 2)) {  m->ack();  return;  }
      std::string hold;
      KeyValuePair* r = build(p, hold);
      m->reply(r, !tail && c.chance(1, 5));
      delete r;
    }
  }

  void chunk(int n, const Bytes& b) {
    if (w.node[n].link) {  fed[n] += b.size();  w.push(n, b);  }
  }
  Bytes noise() {
    Bytes b;
    uint32_t k = 1 + c.draw(c.pick({4u, 16u, 200u}));
    uint64_t x = hash64(c.draw(1 << 16), k);
    for (uint32_t i = 0; i < k; i++) {  x = hash64(x, i);  b.push_back((uint8_t) x);  }
    return b;
  }
  // A frame whose header passes every check, with arbitrary content.
  Bytes forge() {
    Bytes b;
    uint8_t ll = 1 + c.draw(3), il = c.draw(4);
    uint8_t code = c.draw(3) ? c.pick({(uint8_t) 1, (uint8_t) 2, (uint8_t) 5, (uint8_t) 8, (uint8_t) 9, (uint8_t) 15, (uint8_t) 0x10, (uint8_t) 0x13}) : (uint8_t) c.draw(256);
    uint8_t flags = (uint8_t) (c.draw(4) | (ll << 4) | (il << 6));
    uint32_t pl = c.draw(4) ? c.draw(40) : c.draw(ll == 1 ? 240 : mtu + 200);
    uint32_t len = 3 + ll + il + pl;
    if (ll == 1) len &= 0xFF;
    if (ll == 2) len &= 0xFFFF;
    b.push_back(code);  b.push_back(flags);
    for (int i = ll - 1; i >= 0; i--) b.push_back((uint8_t) (len >> (8 * i)));
    uint32_t id = c.draw(1 << 24);
    for (int i = il - 1; i >= 0; i--) b.push_back((uint8_t) (id >> (8 * i)));
    b.push_back((uint8_t) (flags + len + code + 1));
    uint32_t body = c.draw(5) ? pl : c.draw(pl + 1);        // Sometimes short of what it claims.
    switch (c.draw(3)) {
      case 0:  for (uint32_t i = 0; i < body; i++) b.push_back((uint8_t) hash64(id, i));  break;
      case 1: {                                            // Valid CBOR, then damaged.
        std::string hold;  Pl p = draw_pl(c, seq++, 40);
        KeyValuePair* k = build(p, hold);
        StringBuilder s;  k->serialize(&s, TCode::CBOR);  delete k;
        for (int i = 0; i < s.length() && (uint32_t) i < body; i++) b.push_back(s.string()[i]);
        break;
      }
      default: {                                           // CBOR-like: biased to type bytes.
        uint64_t x = hash64(id, 77);
        for (uint32_t i = 0; i < body; i++) {
          x = hash64(x, i);
          static const uint8_t t[] = {0xA1, 0xA2, 0xBF, 0xFF, 0x61, 0x6E, 0x41, 0x18, 0x19, 0x1A, 0x1B, 0x5A, 0x7A, 0x9F, 0x82, 0xC4, 0xD8, 0xF5, 0xFA, 0xFB, 0x00, 0x63};
          b.push_back((x & 0x300) ? t[(x >> 16) % sizeof(t)] : (uint8_t) x);
        }
      }
    }
    return b;
  }
  // Deliver up to k bytes from n, possibly damaging them on the way.
  void faulty(int n, uint32_t k) {
    if (w.wire[n].empty()) return;
    Bytes& f = w.wire[n].front();
    size_t left = f.size() - w.off[n];
    switch (c.draw(9)) {
      case 0:  {  size_t d = std::min<size_t>(left, 1 + c.draw(6));  w.off[n] += d;  c.fault(F_LOSS);  c.ev("%c: %zu bytes lost", 'A' + n, d);  break;  }
      case 1:  {  size_t at = w.off[n] + c.draw(left);  uint8_t x = 1u << c.draw(8);  f[at] ^= x;  c.fault(F_FLIP);  c.ev("%c: byte %zu of the frame flipped by %02x", 'A' + n, at, x);  break;  }
      case 2:  {  size_t keep = c.draw(left + 1);  f.resize(w.off[n] + keep);  c.fault(F_TRUNC);  c.ev("%c: frame cut to %zu", 'A' + n, keep);  break;  }
      case 3:  {  Bytes d(f.begin() + w.off[n], f.end());  w.wire[n].insert(w.wire[n].begin() + 1, d);  c.fault(F_DUP);  c.ev("%c: frame duplicated", 'A' + n);  break;  }
      case 4:  if (w.wire[n].size() > 1 && w.off[n] == 0) {  std::swap(w.wire[n][0], w.wire[n][1]);  c.fault(F_SWAP);  c.ev("%c: frames swapped", 'A' + n);  }  break;
      default:  break;
    }
    if (w.wire[n].front().size() <= w.off[n]) {  w.wire[n].pop_front();  w.off[n] = 0;  return;  }
    size_t got = w.deliver(n, k);
    fed[1-n] += got;
  }
  void check_bounds(int n) {
    M2MLink* l = w.node[n].link;
    (void) l;
    if (w.st(n) == M2MLinkState::SYNC_RESYNC) c.probe(P_RESYNC);
  }
  void app(int n) {
    M2MLink* l = w.node[n].link;
    if (w.st(n) == M2MLinkState::HUNGUP) {  c.probe(P_HUNGUP);  l->reset();  c.ev("%c: reset()", 'A' + n);  }
  }
  void submit(int n, uint32_t cap, bool expects) {
    Pl p = draw_pl(c, seq++, cap);
    std::string hold;
    KeyValuePair* k = build(p, hold);
    int r = w.node[n].link->send(k, expects);
    delete k;
    c.ev("%c: send(n=%u size=%u%s) = %s", 'A' + n, p.seq, p.size, expects ? " need_reply" : "", r < 0 ? "refused" : "ok");
  }

  void run() {
    ka = c.pick({20u, 100u});
    mtu = c.pick({256u, 1024u});
    uint32_t timeout = c.pick({40u, 200u});
    bool log_ok = c.chance(1, 2);
    w.start_clock();
    for (int n = 0; n < 2; n++) {
      M2MLinkOpts o(timeout, ka, mtu, TCode::CBOR, (c.chance(1, 2) ? M2MLINK_FLAG_SEND_KA : 0) | (log_ok ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0));
      w.make(n, o);
    }
    w.on_msg = [&](int n, M2MMsg* m) {  on_msg(n, m);  };
    if (c.chance(2, 3)) {  for (int i = 0; i < 40; i++) w.round(5);  }
    heap0 = heap_in_use();
    c.plan_ops(20 + c.draw(160));
    while (c.next_op() && !c.failed()) {
      int n = c.draw(2);
      switch (c.draw(13)) {
        case 0: case 1:  submit(n, 200, c.chance(1, 2));  break;
        case 2: case 3: case 4:  faulty(n, 1 + c.draw(c.pick({3u, 8u, 400u})));  break;
        case 5:  {  uint32_t k = 1 + c.draw(8);  for (uint32_t i = 0; i < k; i++) w.deliver(n, c.pick({1u, 4u, 64u, 100000u}));  break;  }
        case 6:  {  Bytes b = noise();  c.fault(F_NOISE);  c.ev("%c: receives %zu bytes of noise", 'A' + n, b.size());  chunk(n, b);  break;  }
        case 7:  {  Bytes b = forge();  c.fault(F_FORGE);  c.ev("%c: receives a forged frame, code %u, %zu bytes", 'A' + n, b[0], b.size());  chunk(n, b);  break;  }
        case 8:  w.poll(n);  break;
        case 9:  {  uint32_t k = 1 + c.draw(10);  for (uint32_t i = 0; i < k; i++) {  w.poll(n);  w.poll(1-n);  c.advance(1000 * c.draw(8));  }  break;  }
        case 10: {  uint32_t ms = c.draw(4) ? c.draw(40) : c.draw(2000);  c.advance(1000ull * ms);  c.fault(F_DELAY);  break;  }
        case 11: w.node[n].reject_next = c.draw(5);  if (w.node[n].reject_next) c.fault(F_REJECT);  if (c.chance(1, 3)) {  w.node[n].part_next = 1 + c.draw(4);  c.fault(F_PART);  }  break;
        case 12: {
          StringBuilder s("remote log");
          if (c.draw(2)) {  int r = w.node[n].link->writeRemoteLog(&s, c.draw(2));  c.ev("%c: writeRemoteLog() = %d", 'A' + n, r);  c.probe(P_LOG);  }
          else {  uint32_t k = 1 + c.draw(6);  for (uint32_t i = 0; i < k; i++) w.poll(n);  c.fault(F_STALL);  }
          break;
        }
      }
      app(n);
      check_bounds(n);
    }
    c.begin_tail();
    tail = true;
    for (int n = 0; n < 2; n++) w.node[n].reject_next = w.node[n].part_next = 0;
    // The wires hold whatever they hold. From here the transport is reliable and the ends keep talking.
    int calm = 0;
    uint32_t busy[2] = {0, 0};
    uint32_t i = 0;
    const uint32_t BOUND = 4000;
    for (; i < BOUND && calm < 4 && !c.failed(); i++) {
      w.round(ka + 1);
      for (int j = 0; j < 3; j++) for (int n = 0; n < 2; n++) w.poll(n);
      for (int n = 0; n < 2; n++) {
        app(n);
        busy[n] = w.node[n].link->linkIdle() ? 0 : busy[n] + 1;
        if (w.st(n) == M2MLinkState::LIVE && busy[1-n] > 3 && (i % 3) == 0) submit(n, 24, false);
        if (w.st(n) == M2MLinkState::LIVE && w.st(1-n) == M2MLinkState::LIVE && !w.node[n].link->linkIdle()) c.probe(P_MIDMSG);
      }
      calm = (!busy[0] && !busy[1]) ? calm + 1 : 0;
    }
    if (c.failed()) return;
    if (calm < 4) {
      c.fail("no-recovery", "%u ms of reliable transport did not bring both ends to an idle session (A %s, B %s)", BOUND * (ka + 1), M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));
      return;
    }
    probing = true;
    for (int n = 0; n < 2; n++) {
      probe_pl[n] = draw_pl(c, 900000 + n, 100);
      std::string hold;
      KeyValuePair* k = build(probe_pl[n], hold);
      int r = w.node[n].link->send(k, false);
      delete k;
      if (r) c.fail("send-after-recovery", "%c: send() on a recovered idle link returned %d", 'A' + n, r);
    }
    for (int j = 0; j < 12; j++) w.round(1);
    for (int n = 0; n < 2 && !c.failed(); n++) if (probe_got[n] != 1) c.fail("lost-after-recovery", "a message sent by %c on the recovered session was delivered %u times", 'A' + n, probe_got[n]);
    if (!c.failed()) {  c.probe(P_RECOVERED);  c.nontrivial();  }
  }
};
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  delete r;  }
}

Harness g_harness = {
  "L03",
  "One run: two real links, connected or still connecting, have their byte streams damaged by seed, then the transport becomes reliable. Non-trivial: "
  "the session recovered and carried a message each way. Distinct by event log.",
  run,
  {"bytes lost", "bits flipped", "noise inserted", "forged frame", "frame duplicated", "frame truncated", "frames swapped", "transport refuses a frame", "delay / clock advance", "peer stalled", "transport takes part of a frame"},
  {"in RESYNC", "hung up by a forged frame, reset", "live but stuck inside a message", "recovered", "undecodable payload", "remote log"},
  {"M2MLink", "M2MMsg", "M2MMsgHdr", "StateMachine", "KeyValuePair", "C3PValue", "cbor-cpp", "StringBuilder", "PriorityQueue"},
  {"transport (bytes)", "clock", "random source", "applications at both ends"},
  "pair of link states x frames in flight x idle flags, consecutive pairs",
  {}, 6000, 200000
};
