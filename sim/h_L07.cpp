/* L07: a link whose memory is refused now and then. It says so, or drops what it was handling; it
*  doesn't emit half of a frame, deliver what was not sent, keep the memory, or stay out of order. */
#include "m2m.h"
using namespace m2m;

namespace {
enum {  F_SEND, F_PEER, F_POLL, F_PUSH, F_APP, F_STICKY, F_FRAG  };
enum {  P_REFUSED, P_KEPT, P_LOST, P_RECOVERED, P_BIG, P_REPLY, P_LOG  };
typedef M2MLinkState S;

// The allocator is arranged to refuse for as long as one of these is in scope.
struct Pinch {
  bool on;  uint32_t before;
  Pinch(Ctx& c, bool arm, int deep, bool sticky) : on(arm), before(g_malloc_failed) {
    if (on) {  g_malloc_fail_sticky = sticky;  g_malloc_fail_in = deep;  }
  }
  uint32_t done() {  if (on) {  g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  on = false;  }  return g_malloc_failed - before;  }
  ~Pinch() {  done();  }
};
// What the application and the transport do of their own isn't pinched.
struct Relief {
  int32_t in;  bool sticky;
  Relief() : in(g_malloc_fail_in), sticky(g_malloc_fail_sticky) {  g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  }
  ~Relief() {  g_malloc_fail_in = in;  g_malloc_fail_sticky = sticky;  }
};

struct Sent {  Pl pl;  uint32_t id = 0;  bool expects = false, replied = false, dead = false;  uint32_t got = 0;  uint64_t at = 0;  };

struct Run {
  Ctx& c;  World w;
  M2MLinkOpts* opts = nullptr;
  uint32_t where = 0;              // Which activities meet refusals.
  uint32_t seq = 1, fails = 0;
  bool tail = false, lossy = false;
  std::vector<Sent> sent[2];
  size_t next[2] = {0, 0};         // The order of what is delivered.
  std::vector<std::string*> holds;
  Run(Ctx& ctx) : c(ctx), w(ctx) {}
  ~Run() {  delete opts;  }

  bool arm(uint32_t what) {  return !tail && (where & (1u << what)) && c.chance(1, 3);  }
  // Where within the activity. Most activities ask for memory only a few times.
  int deep() {  return c.chance(3, 4) ? (int) c.draw(8) : (int) c.draw(60);  }
  void count(uint32_t what, uint32_t n) {
    if (!n) return;
    c.fault(what, n);  fails += n;
    c.ev("   %u allocations refused", n);
    if (what == F_POLL || what == F_PUSH || what == F_APP) lossy = true;
  }
  void poll(int n) {
    Pinch p(c, arm(F_POLL), deep(), c.chance(1, 3));
    if (p.on && g_malloc_fail_sticky) c.fault(F_STICKY);
    w.poll(n);
    count(F_POLL, p.done());
  }
  void deliver(int n, size_t k) {
    // In fragments, as a driver might give it.
    if (w.wire[n].empty()) return;
    if (c.chance(1, 3)) {
      size_t all = w.in_flight(n);
      if (all > 1) {  c.fault(F_FRAG);  k = 1 + c.draw((uint32_t) all);  }
    }
    Bytes b;
    while (b.size() < k && !w.wire[n].empty()) {
      Bytes& f = w.wire[n].front();
      size_t take = std::min(k - b.size(), f.size() - w.off[n]);
      b.insert(b.end(), f.begin() + w.off[n], f.begin() + w.off[n] + take);
      w.off[n] += take;
      if (w.off[n] == f.size()) {  w.wire[n].pop_front();  w.off[n] = 0;  }
    }
    if (b.empty()) return;
    StringBuilder sb;
    sb.concat((uint8_t*) b.data(), (int) b.size());
    Pinch p(c, arm(F_PUSH), deep(), c.chance(1, 3));
    w.node[1-n].link->pushBuffer(&sb);
    count(F_PUSH, p.done());
    c.step();
    c.ev("%c: %zu bytes arrive", 'B' - n, b.size());
  }
  void submit(int n, uint32_t max) {
    Sent s;
    s.pl = draw_pl(c, seq++, max);
    if (s.pl.size > 200) c.probe(P_BIG);
    s.expects = c.chance(1, 3);
    std::string* hold = new std::string();
    KeyValuePair* k = build(s.pl, *hold);
    S st = w.st(n);
    Pinch p(c, arm(F_SEND), deep(), c.chance(1, 3));
    int r = w.node[n].link->send(k, s.expects);
    uint32_t f = p.done();
    delete k;  delete hold;
    c.ev("%c: send(n=%u kind=%u size=%u%s) in %s = %s", 'A' + n, s.pl.seq, s.pl.kind, s.pl.size, s.expects ? " need_reply" : "", M2MLink::sessionStateStr(st), r < 0 ? "refused" : "ok");
    count(F_SEND, f);
    if (r < 0) {
      if (f) c.probe(P_REFUSED);
      else if (r == -2 || r == -1) c.fail("send-code", "%c: send() returned %d with memory to be had", 'A' + n, r);
      return;
    }
    if (f) c.probe(P_KEPT);
    s.id = (uint32_t) r;
    s.at = c.now_us;
    s.dead = (st != S::LIVE);           // The other end might not be listening yet.
    sent[n].push_back(s);
  }
  // Something for the log of the other end.
  void remark(int n) {
    std::string t = text_for(Pl{seq++, 1, 1 + c.draw(90)});
    StringBuilder sb;
    for (size_t i = 0; i < t.size(); i += 24) sb.concat((uint8_t*) t.data() + i, (int) std::min<size_t>(24, t.size() - i));
    const bool EXPECTS = c.chance(1, 3);
    Pinch p(c, arm(F_SEND), deep(), c.chance(1, 3));
    int r = w.node[n].link->writeRemoteLog(&sb, EXPECTS);
    uint32_t f = p.done();
    c.ev("%c: writeRemoteLog(%u bytes%s) = %s", 'A' + n, (unsigned) t.size(), EXPECTS ? " need_reply" : "", r ? "refused" : "ok");
    count(F_SEND, f);
    if (!f && (r == -3 || r == -4)) c.fail("send-code", "%c: writeRemoteLog() returned %d with memory to be had", 'A' + n, r);
    if (r == 0) c.probe(P_LOG);
  }
  void on_tx(int n, const Bytes& x, const Frame& f) {
    if (!f.ok) {
      c.fail("frame-malformed", "%c emitted %zu bytes that aren't a frame (code %u, claims %u): %s", 'A' + n, x.size(), f.code, f.len, hex(x.data(), std::min<size_t>(x.size(), 24)).c_str());
    }
  }
  void on_msg(int n, M2MMsg* msg) {
    Relief r;
    int p = 1 - n;
    uint32_t id = msg->uniqueId();
    KeyValuePair* k = nullptr;
    uint32_t f = 0;
    {  Pinch q(c, arm(F_APP), deep(), c.chance(1, 3));  msg->getPayload(&k);  f = q.done();  count(F_APP, f);  }
    c.ev("%c: callback id=%u%s %s", 'A' + n, id, msg->isReply() ? " reply" : "", k ? "with payload" : "without");
    if (msg->isReply()) {
      // To something that this end sent, once.
      Sent* s = nullptr;
      for (Sent& t : sent[n]) if (t.expects && t.id == id) s = &t;
      if (!s) c.fail("unsent-delivery", "%c received a reply to id %u, which asked for none", 'A' + n, id);
      else if (s->replied && !resent(*s)) c.fail("repeated-delivery", "%c received the reply to id %u twice", 'A' + n, id);
      else {  s->replied = true;  c.probe(P_REPLY);  }
      if (k && !c.failed()) c.fail("payload", "%c: a reply that was sent without a payload came with one", 'A' + n);
    }
    else {
      // Something the other end sent: in its order, once, and whole.
      size_t at = sent[p].size();
      int8_t okay = -1;
      KeyValuePair* nv = k ? k->valueWithKey("n") : nullptr;
      uint32_t sq = nv ? nv->get_as_uint(&okay) : 0;
      for (size_t i = 0; i < sent[p].size(); i++) {
        if (msg->expectsReply() ? (sent[p][i].expects && sent[p][i].id == id) : (k ? (sent[p][i].pl.seq == sq) : false)) at = i;
      }
      if (at < sent[p].size()) {
        Sent& s = sent[p][at];
        if (s.got++ && !resent(s)) c.fail("repeated-delivery", "%c received n=%u %u times", 'A' + n, s.pl.seq, s.got);
        else if (at < next[p] && !resent(s)) c.fail("order", "%c received n=%u after something that was sent later", 'A' + n, s.pl.seq);
        next[p] = std::max(next[p], at + 1);
        if (k) {
          std::string d = compare(k, s.pl);
          if (d.size()) c.fail("payload", "%c: n=%u (kind %u, size %u): %s", 'A' + n, s.pl.seq, s.pl.kind, s.pl.size, d.c_str());
        }
        else if (!lossy && !fails) c.fail("payload", "%c: n=%u: no payload, and no memory was refused", 'A' + n, s.pl.seq);
        else if (!f && !lossy) c.fail("payload", "%c: n=%u: no payload, and the receiver wasn't refused memory", 'A' + n, s.pl.seq);
      }
      else if (k) c.fail("unsent-delivery", "%c received a payload (n=%u%s) that was not sent", 'A' + n, sq, nv ? "" : " missing");
      else if (!lossy) c.fail("unsent-delivery", "%c received a message without a payload; none was sent", 'A' + n);
    }
    {  Pinch q(c, arm(F_APP), deep(), c.chance(1, 3));  delete k;  q.done();  }
    if (msg->expectsReply() && !c.failed()) {
      Pinch q(c, arm(F_PEER), deep(), c.chance(1, 3));
      int a = msg->ack();
      uint32_t g = q.done();
      count(F_PEER, g);
      if (a && !g) c.fail("ack", "%c: ack() returned %d with memory to be had", 'A' + n, a);
      // The application may try that again.
      if (a && g) {  a = msg->ack();  if (a) c.fail("ack", "%c: ack() returned %d when it was repeated with memory to be had", 'A' + n, a);  }
    }
  }
  void world() {
    w.start_clock();
    opts = new M2MLinkOpts(60000, 100, 1024, TCode::CBOR, c.chance(1, 2) ? M2MLINK_FLAG_SEND_KA : 0);
    where = c.pick({1u << F_SEND, 1u << F_POLL, 1u << F_PUSH, 1u << F_APP, (1u << F_SEND) | (1u << F_PEER), 31u, 31u});
    w.on_tx = [&](int n, const Bytes& x, const Frame& f) {  Relief r;  on_tx(n, x, f);  };
    w.on_msg = [&](int n, M2MMsg* m) {  on_msg(n, m);  };
    for (int n = 0; n < 2; n++) w.make(n, *opts);
    if (c.chance(1, 4)) for (int n = 0; n < 2; n++) w.node[n].link->verbosity(7);     // It has much to say.
    if (c.chance(3, 4)) {
      tail = true;
      for (int i = 0; i < 24; i++) {  for (int n = 0; n < 2; n++) w.deliver(n, 100000);  for (int n = 0; n < 2; n++) poll(n);  c.advance(3000);  }
      tail = false;
      for (int n = 0; n < 2; n++) if (w.st(n) != S::LIVE) c.fail("no-session", "%c is %s", 'A' + n, M2MLink::sessionStateStr(w.st(n)));
    }
    c.plan_ops(6 + c.draw(50));
    while (c.next_op() && !c.failed()) {
      int n = c.draw(2);
      switch (c.draw(7)) {
        case 0: case 1:  submit(n, 700);  break;
        case 6:  remark(n);  break;
        case 2: deliver(n, 100000);  break;
        case 3: {  uint32_t k = 1 + c.draw(4);  for (uint32_t i = 0; i < k && !c.failed(); i++) poll(n);  break;  }
        default: {
          uint32_t k = 1 + c.draw(6);
          for (uint32_t i = 0; i < k && !c.failed(); i++) {
            for (int j = 0; j < 2; j++) deliver(j, 100000);
            for (int j = 0; j < 2; j++) poll(j);
            c.advance(1000 * c.draw(4));
          }
          break;
        }
      }
    }
    if (c.failed()) return;
    // Memory is to be had again.
    c.begin_tail();
    tail = true;
    int calm = 0;  uint32_t i = 0;
    const uint32_t BOUND = 3000;
    for (; i < BOUND && calm < 4 && !c.failed(); i++) {
      for (int n = 0; n < 2; n++) w.deliver(n, 1000000);
      for (int j = 0; j < 3; j++) for (int n = 0; n < 2 && !c.failed(); n++) poll(n);
      c.advance((i < 60) ? 3000 : 1000ull * 121);
      bool idle = true;
      for (int n = 0; n < 2; n++) {
        if (w.st(n) == S::HUNGUP) w.node[n].link->reset();
        idle &= w.node[n].link->linkIdle();
      }
      if (i == 60 && !lossy) {
        // The receiver was never refused memory: everything accepted has arrived.
        for (int n = 0; n < 2 && !c.failed(); n++) for (Sent& s : sent[n]) if (!s.got && !s.dead) {
          c.fail("lost", "n=%u was accepted by %c, and never arrived (A is %s, B is %s)", s.pl.seq, 'A' + n, M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));
          return;
        }
      }
      // What nothing else is sent after might wait for the rest of a message forever.
      if (!idle && i > 60 && (i % 20) == 0) for (int n = 0; n < 2; n++) if (w.st(n) == S::LIVE) nudge(n);
      calm = idle ? calm + 1 : 0;
    }
    if (c.failed()) return;
    if (calm < 4) {  c.fail("no-recovery", "after %u rounds with memory A is %s and B is %s", BOUND, M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));  return;  }
    if (!lossy) for (int n = 0; n < 2; n++) for (Sent& s : sent[n]) if (!s.got && !s.dead) {
      c.fail("lost", "n=%u was accepted by %c, and never arrived", s.pl.seq, 'A' + n);
      return;
    }
    else for (int n = 0; n < 2; n++) for (Sent& s : sent[n]) if (!s.got) c.probe(P_LOST);
    // And it is a working link.
    size_t mark[2];
    for (int n = 0; n < 2; n++) {  mark[n] = sent[n].size();  submit(n, 300);  if (sent[n].size() == mark[n]) c.fail("send-after-recovery", "%c: an idle link refused to send", 'A' + n);  }
    for (int j = 0; j < 14 && !c.failed(); j++) {
      for (int n = 0; n < 2; n++) w.deliver(n, 1000000);
      for (int n = 0; n < 2; n++) poll(n);
      c.advance(1000);
    }
    for (int n = 0; n < 2 && !c.failed(); n++) if (sent[n][mark[n]].got != 1) c.fail("lost-after-recovery", "%c: n=%u was sent with memory to be had, and delivered %u times", 'A' + n, sent[n][mark[n]].pl.seq, sent[n][mark[n]].got);
    if (!c.failed() && fails) {  c.probe(P_RECOVERED);  c.nontrivial();  }
  }
  // What goes unanswered is sent again. (A reply is discarded if it finds the outbound queue full.)
  bool resent(const Sent& s) {  return s.expects && ((c.now_us - s.at) > 55000000ull);  }
  void nudge(int n) {
    Sent s;  s.pl.seq = seq++;  s.pl.kind = 0;
    std::string hold;
    KeyValuePair* k = build(s.pl, hold);
    int r = w.node[n].link->send(k, false);
    delete k;
    if (r >= 0) {  s.dead = true;  s.id = (uint32_t) r;  sent[n].push_back(s);  }
  }
};
void run(Ctx& c) {
  const size_t before = heap_in_use();
  {  Run* r = new Run(c);  r->world();  delete r;  }
  if (!c.failed() && heap_in_use() > before) c.fail("leak", "%u bytes were not released", (unsigned) (heap_in_use() - before));
}
}

Harness g_harness = {
  "L07",
  "One run: two real links over a reliable transport, whose allocator refuses requests at drawn points within send(), within the application's reading and answering of messages, "
  "within poll(), or as bytes arrive, once or for as long as the call lasts; then memory is to be had again. Non-trivial: something was refused, and the links came back. Distinct by event log.",
  run,
  {"allocation refused within send()", "allocation refused within ack()", "allocation refused within poll()", "allocation refused as bytes arrive", "allocation refused as a payload is read", "refused until the call ended", "bytes arrive in parts"},
  {"send() refused for want of memory", "send() succeeded in spite of a refusal", "a message lost at the receiver for want of memory", "recovered", "payload beyond 200 bytes", "reply received", "remark sent for the log"},
  {"M2MLink", "M2MMsg", "StateMachine", "KeyValuePair", "C3PValue", "cbor-cpp", "StringBuilder", "PriorityQueue"},
  {"transport (frames)", "clock", "random source", "allocator", "applications at both ends"},
  "pair of link states x frames in flight x idle flags, consecutive pairs",
  {}, 6000, 200000
};
