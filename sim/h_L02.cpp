/* L02: acknowledged messages over a transport that loses, delays and duplicates whole
*  frames: transmissions, retries, timeouts and the bounded queue are accounted for exactly. */
#include "m2m.h"
using namespace m2m;

namespace {
enum {  F_DROP, F_DUP, F_DELAY, F_REJECT, F_SILENT, F_REORDER  };
enum {  P_RETX, P_GIVEUP, P_FULL, P_DIALOG, P_LATE, P_DUPREQ, P_REPLYDROP  };
constexpr int RETRIES = 3;
constexpr unsigned DEPTH = 8;

struct Msg {
  int n;  Pl pl;  bool bare = false, expects = false, reply = false;
  uint32_t id = 0;
  uint32_t tx = 0, attempts = 0;       // Frames on the wire, and retransmissions tried.
  uint64_t last_tx = 0;                // us
  bool acked = false;
  Bytes bytes;
  uint32_t idle_polls = 0;             // Consecutive polls while overdue with nothing emitted.
};

struct Run {
  Ctx& c;  World w;
  std::vector<Msg> all;
  std::deque<int> unsent[2];
  std::vector<int> waiting[2];          // Sent, expecting, not acked (may have been given up).
  std::map<Bytes, int> by_bytes[2];
  std::deque<int> expect_cb[2];         // Frames delivered to node n, in order.
  std::set<uint32_t> seen_req[2];
  uint32_t seq = 1, timeout = 100;
  bool settled = false, quiet = false, emitted = false;
  uint32_t max_size = 60;
  bool lossy_seen = false;

  Run(Ctx& ctx) : c(ctx), w(ctx) {}

  // Has the link certainly (lo) / possibly (hi) let go of this message?
  bool maybe_gone(const Msg& m) {  return m.attempts >= RETRIES && (c.now_us / 1000 - m.last_tx / 1000) > timeout;  }
  void size_bounds(int n, unsigned& lo, unsigned& hi) {
    lo = hi = unsent[n].size();
    for (int i : waiting[n]) {
      if (all[i].acked) continue;
      hi++;
      if (!maybe_gone(all[i])) lo++;
    }
  }

  void accept(int n, Msg& m) {
    m.n = n;
    all.push_back(m);
    unsent[n].push_back((int) all.size() - 1);
  }

  void submit(int n, bool expects) {
    unsigned lo, hi;
    size_bounds(n, lo, hi);
    Msg m;
    m.pl = draw_pl(c, seq++, max_size);
    m.expects = expects;
    m.bare = c.chance(1, 8);
    std::string hold;
    KeyValuePair* k = m.bare ? nullptr : build(m.pl, hold);
    int r = w.node[n].link->send(k, expects);
    delete k;
    c.ev("%c: send(n=%u%s) = %d", 'A' + n, m.pl.seq, expects ? " need_reply" : "", r < 0 ? r : (r > 0));
    if (r >= 0) {
      if (lo >= DEPTH) c.fail("unbounded-queue", "%c: send() accepted a message with %u already queued (limit %u)", 'A' + n, lo, DEPTH);
      if (expects != (r > 0)) c.fail("send-id", "%c: send(need_reply=%d) returned %d", 'A' + n, expects, r);
      m.id = (uint32_t) r;
      accept(n, m);
    }
    else if (r == -3) {
      c.probe(P_FULL);
      if (hi < DEPTH) c.fail("refused-early", "%c: send() refused with at most %u of %u queue slots in use", 'A' + n, hi, DEPTH);
    }
    else c.fail("send-code", "%c: send() returned %d on a live link", 'A' + n, r);
  }

  void on_wire(int n, const Bytes& b, const Frame& f, bool refused) {
    if (!settled) return;
    if (!f.ok) {  c.fail("bad-frame", "%c emitted a malformed frame", 'A' + n);  return;  }
    if (f.code != (uint8_t) M2MMsgCode::APPLICATION) {
      if (f.code != (uint8_t) M2MMsgCode::SYNC_KEEPALIVE) c.fail("stray-frame", "%c emitted code %u on a settled session", 'A' + n, f.code);
      return;
    }
    emitted = true;
    // A first transmission has to be the oldest accepted message.
    if (unsent[n].size()) {
      Msg& m = all[unsent[n].front()];
      if (m.id == f.id && m.reply == f.reply() && m.expects == f.expects() && m.tx == 0) {
        if (refused) return;
        m.tx = 1;  m.last_tx = c.now_us;  m.bytes = b;
        by_bytes[n][b] = unsent[n].front();
        if (m.expects) waiting[n].push_back(unsent[n].front());
        unsent[n].pop_front();
        return;
      }
    }
    for (int i : waiting[n]) {
      Msg& m = all[i];
      if (m.id != f.id || m.reply != f.reply() || !f.expects()) continue;
      if (m.acked) {  c.fail("retransmit-after-reply", "%c sent message id %u again after its reply had been received", 'A' + n, m.id);  return;  }
      uint64_t gap = c.now_us / 1000 - m.last_tx / 1000;
      if (gap <= timeout) {  c.fail("early-retransmit", "%c sent message id %u again after %u ms (timeout is %u ms)", 'A' + n, m.id, (unsigned) gap, timeout);  return;  }
      if (b != m.bytes) {  c.fail("altered-retransmit", "%c retransmitted message id %u with different content", 'A' + n, m.id);  return;  }
      m.attempts++;
      if (m.attempts > RETRIES) {  c.fail("too-many-retries", "%c tried message id %u again %u times (limit %d)", 'A' + n, m.id, m.attempts, RETRIES);  return;  }
      if (!refused) {  m.tx++;  m.last_tx = c.now_us;  c.probe(P_RETX);  }
      return;
    }
    c.fail("unexpected-frame", "%c emitted an application frame (id %u reply %d expects %d) which is neither the next accepted message nor one awaiting a reply", 'A' + n, f.id, f.reply(), f.expects());
  }

  void on_msg(int n, M2MMsg* m) {
    if (expect_cb[n].empty()) {  c.fail("unexpected-callback", "%c: callback for id %u with no frame delivered", 'A' + n, m->uniqueId());  return;  }
    int idx = expect_cb[n].front();
    expect_cb[n].pop_front();
    Msg s = all[idx];
    if (m->uniqueId() != s.id || m->isReply() != s.reply || m->expectsReply() != s.expects) {
      c.fail("wrong-message", "%c: callback for id %u, but the delivered frame had id %u", 'A' + n, m->uniqueId(), s.id);
      return;
    }
    KeyValuePair* k = nullptr;
    m->getPayload(&k);
    if (!s.bare) {
      std::string d = compare(k, s.pl);
      if (d.size()) c.fail("payload", "%c: message n=%u: %s", 'A' + n, s.pl.seq, d.c_str());
    }
    else if (k) c.fail("payload", "%c: bare ACK with a payload", 'A' + n);
    delete k;
    c.ev("%c: received n=%u id=%u%s", 'A' + n, s.pl.seq, s.id, s.reply ? " (reply)" : "");
    if (s.reply) {
      bool hit = false;
      for (int i : waiting[n]) {
        Msg& q = all[i];
        if (q.id == s.id && !q.acked && q.tx) {
          if (maybe_gone(q)) {  c.probe(P_LATE);  late_replies[n]++;  continue;  }
          q.acked = true;  hit = true;  c.nontrivial();
        }
      }
      (void) hit;
    }
    if (s.expects) {
      bool first = seen_req[n].insert(s.id * 2 + s.reply).second;
      if (!first) c.probe(P_DUPREQ);
      unsigned lo, hi;
      size_bounds(n, lo, hi);
      if (lo < DEPTH && hi >= DEPTH) return;                  // Not decidable from here. Stay silent.
      if (!quiet && c.chance(1, 4)) {  c.fault(F_SILENT);  return;  }   // The application never answers.
      Msg r;
      r.reply = true;  r.id = s.id;
      int ret, kind = first ? (quiet ? c.draw(2) : c.draw(3)) : 0;
      if (s.reply && kind == 2) kind = 1;                     // Dialogs of at most three messages.
      if (kind == 0) {  r.bare = true;  ret = m->ack();  }
      else {
        r.pl = draw_pl(c, seq++, max_size);
        r.expects = (kind == 2);
        std::string hold;
        KeyValuePair* rk = build(r.pl, hold);
        ret = m->reply(rk, r.expects);
        delete rk;
        if (r.expects) c.probe(P_DIALOG);
      }
      if (ret) c.fail("reply-refused", "%c: reply() returned %d", 'A' + n, ret);
      if (lo < DEPTH) accept(n, r);
      else c.probe(P_REPLYDROP);
    }
  }

  void deliver_front(int n, bool keep) {
    if (w.wire[n].empty()) return;
    Bytes b = w.wire[n].front();
    if (!keep) w.wire[n].pop_front();
    give(n, b);
  }
  void give(int n, const Bytes& b) {
    Frame f = parse(b);
    if (f.code == (uint8_t) M2MMsgCode::APPLICATION) {
      auto it = by_bytes[n].find(b);
      if (it != by_bytes[n].end()) expect_cb[1-n].push_back(it->second);
    }
    if (c.draw(3) == 0 && b.size() > 1) {        // Fragmented, but whole.
      size_t k = 1 + c.draw(b.size() - 1);
      w.push(1-n, Bytes(b.begin(), b.begin() + k));
      if (c.draw(2)) poll(1-n);
      w.push(1-n, Bytes(b.begin() + k, b.end()));
    }
    else w.push(1-n, b);
  }
  void poll(int n) {
    emitted = false;
    bool refusing = w.node[n].reject_all || w.node[n].reject_next;
    w.poll(n);
    for (int i : waiting[n]) {
      Msg& m = all[i];
      if (m.acked || m.attempts >= RETRIES || emitted || refusing || unsent[n].size()) {  m.idle_polls = 0;  continue;  }
      if (c.now_us / 1000 - m.last_tx / 1000 > timeout) m.idle_polls++;
      else m.idle_polls = 0;
      if (m.idle_polls > 24) c.fail("retry-starved", "%c never retried message id %u, overdue through %u idle polls", 'A' + n, m.id, m.idle_polls);
    }
    if (unsent[n].size() && !emitted && !refusing && settled) c.fail("send-starved", "%c: a poll emitted nothing with %zu messages unsent", 'A' + n, unsent[n].size());
  }
  void finish_delivery() {
    for (int n = 0; n < 2; n++) while (!w.wire[n].empty() && !c.failed()) deliver_front(n, false);
  }

  void run() {
    timeout = c.pick({20u, 60u, 250u});
    uint32_t ka = c.pick({30u, 500u, 4000u});
    w.id_mask = c.pick({0xFFFFFFu, 0xFFFFu, 0xFFu});
    bool ka_on = c.chance(1, 3);
    w.start_clock();
    for (int n = 0; n < 2; n++) {
      M2MLinkOpts o(timeout, ka, 4096, TCode::CBOR, ka_on ? M2MLINK_FLAG_SEND_KA : 0);
      w.make(n, o);
    }
    w.until_idle(4000, 5);
    for (int i = 0; i < 3; i++) w.round(1);
    if (!w.until_idle(2000, 5)) {  c.fail("no-session", "endpoints did not settle");  return;  }
    uint16_t t0[2] = {w.node[0].link->replyTimeouts(), w.node[1].link->replyTimeouts()};
    settled = true;
    w.on_msg = [&](int n, M2MMsg* m) {  on_msg(n, m);  };
    w.on_tx = [&](int n, const Bytes& b, const Frame& f) {  on_wire(n, b, f, false);  };
    w.on_refused = [&](int n, const Bytes& b, const Frame& f) {  on_wire(n, b, f, true);  };
    uint32_t loss = c.pick({0u, 10u, 30u, 70u});
    c.plan_ops(20 + c.draw(120));
    while (c.next_op() && !c.failed()) {
      int n = c.draw(2);
      switch (c.draw(12)) {
        case 0: case 1:  submit(n, c.chance(2, 3));  break;
        case 2:  {  uint32_t k = 1 + c.draw(10);  for (uint32_t i = 0; i < k; i++) submit(n, c.chance(1, 2));  }  break;
        case 3: case 4: case 5:
          if (w.wire[n].size()) {
            if (c.chance(loss, 100)) {  c.ev("%c: frame lost", 'A' + n);  w.wire[n].pop_front();  c.fault(F_DROP);  }
            else if (c.chance(1, 14)) {  c.ev("%c: frame duplicated", 'A' + n);  deliver_front(n, true);  c.fault(F_DUP);  }
            else if (w.wire[n].size() > 1 && c.chance(1, 14)) {
              std::swap(w.wire[n][0], w.wire[n][1]);  c.fault(F_REORDER);  c.ev("%c: frames reordered", 'A' + n);
              deliver_front(n, false);
            }
            else deliver_front(n, false);
          }
          break;
        case 6: case 7: case 8: poll(n);  break;
        case 9:  {  uint32_t k = 1 + c.draw(12);  for (uint32_t i = 0; i < k; i++) {  poll(n);  if (c.draw(2)) c.advance(1000 * c.draw(4));  }  }  break;
        case 10: {  uint32_t ms = c.draw(3) ? c.range(1, 30) : timeout + c.draw(3);  c.advance(1000ull * ms);  c.fault(F_DELAY);  break;  }
        case 11:
          w.node[n].reject_next = 1 + c.draw(3);
          for (int i = 0; i < 3; i++) poll(n);
          if (w.node[n].rejected) {  c.fault(F_REJECT, w.node[n].rejected);  w.node[n].rejected = 0;  }
          w.node[n].reject_next = 0;
          break;
      }
    }
    c.begin_tail();
    quiet = true;
    uint32_t bound = (timeout * 6) / 3 + 300;
    for (uint32_t i = 0; i < bound && !c.failed(); i++) {
      finish_delivery();
      poll(0);  poll(1);
      c.advance(3000);
      if (w.both_idle() && unsent[0].empty() && unsent[1].empty()) break;
    }
    for (int i = 0; i < 12 && !c.failed(); i++) {  finish_delivery();  poll(0);  poll(1);  }
    if (c.failed()) return;
    for (int n = 0; n < 2; n++) {
      M2MLink* l = w.node[n].link;
      if (w.st(n) != M2MLinkState::LIVE) {  c.fail("session-lost", "%c left LIVE", 'A' + n);  return;  }
      if (!l->linkIdle()) {  c.fail("not-idle", "%c still holds messages %u ms after the last fault", 'A' + n, bound * 3);  return;  }
      if (expect_cb[n].size()) {  c.fail("lost-delivery", "%c: %zu delivered frames were not passed to the application", 'A' + n, expect_cb[n].size());  return;  }
      uint32_t sure = 0, late = 0;
      for (int i : waiting[n]) {
        Msg& m = all[i];
        if (m.acked) continue;
        if (m.attempts < RETRIES) {  c.fail("gave-up-early", "%c gave up on message id %u after %u of %d retries", 'A' + n, m.id, m.attempts, RETRIES);  return;  }
        sure++;
      }
      (void) late;
      if (sure) c.probe(P_GIVEUP, sure);
      // A reply that came in after the last timeout may or may not have been in time.
      uint32_t got = (uint16_t) (l->replyTimeouts() - t0[n]);
      if (got > sure) {  c.fail("timeout-count", "%c counts %u reply timeouts; %u messages went unanswered", 'A' + n, got, sure);  return;  }
      uint32_t maybe = late_replies[n];
      if (got + maybe < sure) {  c.fail("timeout-count", "%c counts %u reply timeouts; %u messages went unanswered", 'A' + n, got, sure);  return;  }
    }
  }
  uint32_t late_replies[2] = {0, 0};
};
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  delete r;  }
}

Harness g_harness = {
  "L02",
  "One run: two established links exchange messages and dialogs over a transport that drops, duplicates, swaps, delays and refuses whole frames "
  "by seed, with applications that sometimes never answer. Non-trivial: a message awaiting a reply was satisfied. Distinct by event log.",
  run,
  {"frame dropped", "frame duplicated", "delay / clock advance", "transport refuses a frame", "application never answers", "frames reordered"},
  {"retransmission", "message given up", "send() refused, queue full", "dialog", "reply after the final timeout", "duplicate request", "reply dropped, queue full"},
  {"M2MLink", "M2MMsg", "M2MMsgHdr", "StateMachine", "KeyValuePair", "cbor-cpp", "StringBuilder", "PriorityQueue"},
  {"transport (whole frames)", "clock", "random source", "applications at both ends"},
  "pair of link states x frames in flight x idle flags, consecutive pairs",
  {}, 6000, 200000
};
