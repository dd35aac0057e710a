/* L05: a link gives back what it takes. Whatever the session went through, an idle link holds what
*  an idle link held before, and a destroyed link leaves nothing behind. */
#include "m2m.h"
using namespace m2m;

namespace {
enum {  F_LOSS, F_FLIP, F_NOISE, F_DUP, F_REJECT, F_DELAY, F_CRASH, F_TRUNC, F_FORGE, F_PART  };
enum {  P_IDLE, P_LOADED, P_REQUESTS, P_NEVER, P_LOG, P_HANGUP, P_GIVEUP, P_KEPT  };
typedef M2MLinkState S;

struct Run {
  Ctx& c;  World* wp;
  uint32_t seq = 1, timeout, ka;
  int reply_mode[2];                    // 0: always, 1: sometimes, 2: never
  size_t idle_heap = 0;
  M2MLinkOpts* opts = nullptr;
  Run(Ctx& ctx) : c(ctx), wp(nullptr) {}

  void on_msg(int n, M2MMsg* msg) {
    KeyValuePair* k = nullptr;
    if (c.draw(4)) msg->getPayload(&k);         // The application might not care for it.
    if (c.draw(6) == 0) {  KeyValuePair* k2 = nullptr;  msg->getPayload(&k2);  if (k && k2) c.probe(P_KEPT);  if (k2 != k) delete k2;  }
    if (msg->expectsReply() && (reply_mode[n] == 0 || (reply_mode[n] == 1 && c.chance(1, 2)))) {
      if (c.chance(1, 2)) msg->ack();
      else {
        std::string hold;
        KeyValuePair* r = build(draw_pl(c, seq++, 80), hold);
        msg->reply(r, c.chance(1, 3));
        delete r;
      }
    }
    delete k;
  }
  void submit(int n, bool expects) {
    std::string hold;
    Pl p = draw_pl(c, seq++, 200);
    KeyValuePair* k = c.chance(1, 8) ? nullptr : build(p, hold);
    int r = wp->node[n].link->send(k, expects);
    delete k;
    c.ev("%c: send(n=%u size=%u%s) = %s", 'A' + n, p.seq, p.size, expects ? " need_reply" : "", r < 0 ? "refused" : "ok");
    if (expects && r >= 0) c.probe(P_REQUESTS);
  }
  void damage(int n) {
    World& w = *wp;
    bool empty = w.wire[n].empty();
    Bytes none;
    Bytes& f = empty ? none : w.wire[n].front();
    size_t left = f.size() - w.off[n];
    uint32_t how = empty ? c.pick({3u, 5u, 6u}) : c.draw(7);
    switch (how) {
      case 0:  w.wire[n].pop_front();  w.off[n] = 0;  c.fault(F_LOSS);  c.ev("%c: frame lost", 'A' + n);  break;
      case 1:  {  size_t at = w.off[n] + c.draw(left);  f[at] ^= 1u << c.draw(8);  c.fault(F_FLIP);  c.ev("%c: byte %zu flipped", 'A' + n, at);  break;  }
      case 2:  w.wire[n].push_back(f);  c.fault(F_DUP);  c.ev("%c: frame repeated later", 'A' + n);  break;
      case 5:  {     // Checksum right, all else arbitrary.
        Bytes b;  uint8_t fl = (uint8_t) (c.draw(16) | 0x10 | (c.draw(4) << 6));
        uint32_t il = fl >> 6, pl = c.draw(12);
        uint8_t code = (uint8_t) c.pick({1u, 2u, 9u, 15u, 8u, 0x1Bu});
        b.push_back(code);  b.push_back(fl);  b.push_back((uint8_t) (4 + il + pl));
        for (uint32_t i = 0; i < il; i++) b.push_back((uint8_t) c.draw(3));
        b.push_back((uint8_t) (fl + b[2] + code + 1));
        for (uint32_t i = 0; i < pl; i++) b.push_back((uint8_t) hash64(pl, i));
        w.push(1 - n, b);  c.fault(F_FORGE);  c.ev("%c: forged frame code=%u flags=%02x len=%zu", 'B' - n, code, fl, b.size());
        break;
      }
      case 3:  {  Bytes b;  uint32_t k = 1 + c.draw(40);  for (uint32_t i = 0; i < k; i++) b.push_back((uint8_t) hash64(k, i));  w.push(1 - n, b);  c.fault(F_NOISE);  c.ev("%c: %u bytes of noise", 'B' - n, k);  break;  }
      case 4:  f.resize(w.off[n] + c.draw(left));  c.fault(F_TRUNC);  if (f.size() <= w.off[n]) {  w.wire[n].pop_front();  w.off[n] = 0;  }  c.ev("%c: frame truncated", 'A' + n);  break;
      default: break;
    }
  }
  void spawn(int n) {
    wp->make(n, *opts);
  }
  void tick(uint32_t ms) {  World& w = *wp;  w.round(ms);  }
  // Bring both ends to rest. Nothing but real time passes on a good transport.
  bool rest() {
    World& w = *wp;
    int calm = 0;
    uint32_t busy[2] = {0, 0};
    for (int n = 0; n < 2; n++) w.node[n].reject_next = w.node[n].part_next = 0;
    for (uint32_t i = 0; i < 4000 && calm < 4 && !c.failed(); i++) {
      w.round(std::max<uint32_t>(ka + 1, (i > 40) ? timeout / 20 : 0));
      for (int j = 0; j < 3; j++) for (int n = 0; n < 2; n++) w.poll(n);
      bool idle = true;
      for (int n = 0; n < 2; n++) {
        if (w.st(n) == S::HUNGUP) w.node[n].link->reset();
        busy[n] = w.node[n].link->linkIdle() ? 0 : busy[n] + 1;
        if (w.st(n) == S::LIVE && busy[1-n] > 3 && (i % 3) == 0) submit(n, false);   // Traffic completes a half-received message.
        idle &= (busy[n] == 0);
      }
      calm = idle ? calm + 1 : 0;
    }
    return calm >= 4;
  }
  void settle_and_check(const char* when) {
    World& w = *wp;
    if (!rest()) return;                           // Recovery is L03's concern.
    for (int i = 0; i < 200 && !(w.wire[0].empty() && w.wire[1].empty() && w.both_idle()); i++) {
      for (int n = 0; n < 2; n++) w.deliver(n, 1000000);
      for (int n = 0; n < 2; n++) w.poll(n);
    }
    if (!w.both_idle()) return;
    std::deque<Bytes>().swap(w.wire[0]);  std::deque<Bytes>().swap(w.wire[1]);
    for (int n = 0; n < 2; n++) {  Bytes().swap(w.node[n].rest);  Bytes().swap(w.node[n].frame);  }
    std::set<uint32_t>().swap(w.used_ids);
    size_t h = heap_in_use();
    c.ev("idle %s: both links at rest", when);
    c.probe(P_IDLE);
    if (!idle_heap) idle_heap = h;
    else if (h != idle_heap) c.fail("idle-heap", "two idle links hold %zd bytes more than when they were first idle (%s)", (ssize_t) (h - idle_heap), when);
    else c.nontrivial();
  }

  void session() {
    World& w = *wp;
    reply_mode[0] = c.draw(3);  reply_mode[1] = c.draw(3);
    c.plan_ops(10 + c.draw(80));
    bool quiet = c.chance(1, 3);                 // No damage: still loads the queues.
    while (c.next_op() && !c.failed()) {
      int n = c.draw(2);
      switch (c.draw(14)) {
        case 0: case 1: case 2:  submit(n, c.chance(2, 3));  break;
        case 3: case 4:  w.deliver(n, c.pick({1u, 5u, 60u, 100000u}));  break;
        case 5: case 6:  {  uint32_t k = 1 + c.draw(8);  for (uint32_t i = 0; i < k; i++) tick(c.draw(10));  break;  }
        case 7:  w.poll(n);  if (!quiet) damage(n);  break;
        case 8:  if (!quiet) damage(n);  break;
        case 9:  w.node[n].reject_next = c.draw(6);  if (w.node[n].reject_next) c.fault(F_REJECT);  if (c.chance(1, 3)) {  w.node[n].part_next = 1 + c.draw(4);  c.fault(F_PART);  }  break;
        case 10: {  uint32_t ms = c.draw(3 * timeout);  c.advance(1000ull * ms);  c.fault(F_DELAY);  if (ms > timeout) c.probe(P_GIVEUP);  break;  }
        case 11: {
          StringBuilder s("a line of remote log");
          int r = w.node[n].link->writeRemoteLog(&s, c.chance(1, 2));
          c.ev("%c: writeRemoteLog() = %d", 'A' + n, r);
          if (r == 0) c.probe(P_LOG);
          break;
        }
        case 12: {
          if (c.draw(3)) break;
          bool g = c.chance(1, 2);
          int r = w.node[n].link->hangup(g);
          c.ev("%c: hangup(%s) = %d", 'A' + n, g ? "graceful" : "forced", r);
          c.probe(P_HANGUP);
          break;
        }
        case 13: {
          if (c.draw(3)) break;
          c.fault(F_CRASH);
          c.ev("%c: destroyed in %s, and replaced", 'A' + n, M2MLink::sessionStateStr(w.st(n)));
          w.kill(n);  spawn(n);
          break;
        }
      }
      for (int k = 0; k < 2; k++) if (w.st(k) == S::HUNGUP && c.chance(1, 2)) w.node[k].link->reset();
    }
  }
  void build_world() {
    wp = new World(c);
    wp->on_msg = [this](int n, M2MMsg* m) {  on_msg(n, m);  };
    for (int n = 0; n < 2; n++) spawn(n);
  }
  void run() {
    timeout = c.pick({30u, 150u});
    ka = c.pick({20u, 100u});
    bool log_ok = c.chance(1, 2);
    set_clock(5000000ull);
    opts = new M2MLinkOpts(timeout, ka, 1024, TCode::CBOR, (c.chance(1, 2) ? M2MLINK_FLAG_SEND_KA : 0) | (log_ok ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0));
    // One throw-away session brings statics into existence.
    build_world();
    rest();
    delete wp;
    size_t before = heap_in_use();
    build_world();
    if (c.chance(4, 5)) settle_and_check("at first");
    else c.probe(P_NEVER);
    session();
    bool idle_first = c.chance(1, 2);
    if (!c.failed() && idle_first) {
      c.begin_tail();
      reply_mode[0] = reply_mode[1] = 0;
      settle_and_check("after the session");
    }
    else if (!c.failed()) {
      World& w = *wp;
      for (int n = 0; n < 2; n++) if (!w.node[n].link->linkIdle()) c.probe(P_LOADED);
    }
    delete wp;  wp = nullptr;
    if (c.failed()) return;
    size_t after = heap_in_use();
    if (after != before) c.fail("leak", "%zd bytes remain after both links were destroyed%s", (ssize_t) (after - before), idle_first ? "" : " with work in hand");
    else c.nontrivial();
  }
  ~Run() {  delete wp;  delete opts;  }
};
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  delete r;  }
}

Harness g_harness = {
  "L05",
  "One run: a session with losses, damage, refusals, hangups, requests that are answered late or never, remote logs, and links destroyed and replaced with work in hand. "
  "Non-trivial: memory was compared at two idle points, or before creation and after destruction. Distinct by event log.",
  run,
  {"frame lost", "bits flipped", "noise inserted", "frame repeated", "transport refuses a frame", "delay / clock advance", "link destroyed and replaced", "frame truncated", "forged frame", "transport takes part of a frame"},
  {"idle point compared", "destroyed with work in hand", "request sent", "no idle baseline", "remote log", "hangup", "timeout passed", "payload taken twice"},
  {"M2MLink", "M2MMsg", "StateMachine", "KeyValuePair", "C3PValue", "cbor-cpp", "StringBuilder", "PriorityQueue", "LinkedList"},
  {"transport (frames)", "clock", "random source", "applications at both ends", "allocator accounting (ASan)"},
  "pair of link states x frames in flight x idle flags, consecutive pairs",
  {}, 6000, 150000
};
