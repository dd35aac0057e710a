/* L01: a lossless transport, however it fragments and delays, delivers every
*  accepted message exactly once, in order, intact, and satisfies every reply. */
#include "m2m.h"
using namespace m2m;

namespace {
enum {  F_FRAG, F_DELAY, F_STARVE, F_REJECT, F_PART  };
enum {  P_KA, P_DIALOG, P_BIG, P_CBSEND, P_FULL, P_CROSS  };

struct Sent {  Pl pl;  bool expects = false;  bool reply = false;  bool ack = false;  uint32_t id = 0;  uint32_t depth = 0;  };
struct App {
  std::deque<Sent> q;                    // Accepted by this node's link, not yet delivered to the peer.
  std::map<uint32_t, uint32_t> waiting;  // id -> outstanding (awaiting a reply)
  uint32_t delivered = 0, accepted = 0, unsent_cap = 0;
};

struct Run {
  Ctx& c;  World w;
  App app[2];
  uint32_t seq = 1;
  uint32_t max_size;
  bool quiet = false;      // No new traffic (drain).
  Run(Ctx& ctx) : c(ctx), w(ctx) {}

  bool submit(int n, bool expects, uint32_t size_cap) {
    Sent s;
    s.pl = draw_pl(c, seq++, size_cap);
    s.expects = expects;
    if (s.pl.size > 250) c.probe(P_BIG);
    std::string hold;
    KeyValuePair* k = build(s.pl, hold);
    int r = w.node[n].link->send(k, expects);
    delete k;
    c.ev("%c: send(n=%u kind=%u size=%u%s) = %s", 'A' + n, s.pl.seq, s.pl.kind, s.pl.size, expects ? " need_reply" : "", (r < 0) ? "refused" : (r ? "id" : "ok"));
    if (r < 0) {
      if (r == -3) c.probe(P_FULL);
      else c.fail("send-refused", "%c: send() returned %d on a live link", 'A' + n, r);
      return false;
    }
    if (expects && (r == 0)) c.fail("send-id", "%c: a message needing a reply was accepted without an ID", 'A' + n);
    s.id = (uint32_t) r;
    app[n].q.push_back(s);
    app[n].accepted++;
    if (expects) app[n].waiting[s.id]++;
    return true;
  }

  void on_msg(int n, M2MMsg* m) {          // Node n received m.
    int from = 1 - n;
    if (w.in_poll != n) c.fail("callback-context", "%c: message callback outside of poll()", 'A' + n);
    if (app[from].q.empty()) {  c.fail("duplicate-delivery", "%c received a message (id %u) nobody sent, or a second time", 'A' + n, m->uniqueId());  return;  }
    Sent s = app[from].q.front();
    app[from].q.pop_front();
    app[from].delivered++;
    if (m->uniqueId() != s.id || m->isReply() != s.reply || m->expectsReply() != s.expects) {
      c.fail("wrong-message", "%c received id=%u reply=%d expects=%d; next in order is n=%u id=%u reply=%d expects=%d", 'A' + n, m->uniqueId(), m->isReply(), m->expectsReply(), s.pl.seq, s.id, s.reply, s.expects);
      return;
    }
    KeyValuePair* k = nullptr;
    m->getPayload(&k);
    if (s.ack) {
      if (k) c.fail("payload", "%c: a bare ACK (id %u) carried a payload", 'A' + n, s.id);
    }
    else {
      std::string d = compare(k, s.pl);
      if (d.size()) c.fail("payload", "%c: message n=%u (kind %u size %u): %s", 'A' + n, s.pl.seq, s.pl.kind, s.pl.size, d.c_str());
    }
    delete k;
    c.ev("%c: received n=%u id=%u%s", 'A' + n, s.pl.seq, s.id, s.reply ? " (reply)" : "");
    if (s.reply) {
      auto it = app[n].waiting.find(s.id);
      if (it == app[n].waiting.end()) {  c.fail("unsolicited-reply", "%c got a reply to id %u, which is not waiting", 'A' + n, s.id);  return;  }
      app[n].waiting.erase(it);
    }
    if (s.expects) {
      // The application answers inside of the callback: ACK, reply, or go on with the dialog.
      if (!quiet && c.chance(1, 6) && (app[n].q.size() < 2)) {
        c.probe(P_CBSEND);
        submit(n, false, 40);
      }
      Sent r;
      r.reply = true;  r.id = s.id;  r.depth = s.depth + 1;
      int kind = (s.depth >= 3) ? c.draw(2) : c.draw(3);
      int ret;
      if (kind == 0) {  r.ack = true;  ret = m->ack();  }
      else {
        r.pl = draw_pl(c, seq++, max_size);
        r.expects = (kind == 2);
        std::string hold;
        KeyValuePair* rk = build(r.pl, hold);
        ret = m->reply(rk, r.expects);
        delete rk;
        if (r.expects) c.probe(P_DIALOG);
      }
      if (ret != 0) c.fail("reply-refused", "%c: reply() returned %d", 'A' + n, ret);
      app[n].q.push_back(r);
      if (r.expects) app[n].waiting[r.id]++;
      c.nontrivial();
    }
  }

  void run() {
    uint32_t ka = c.pick({40u, 150u, 900u, 5000u});
    bool ka_on[2] = { c.chance(1, 2), c.chance(1, 2) };
    max_size = c.pick({60u, 300u, 900u});
    w.id_mask = c.pick({0xFFFFFFu, 0xFFFFu, 0xFFu});
    uint32_t mtu = 4096;
    w.start_clock();
    for (int n = 0; n < 2; n++) {
      M2MLinkOpts o(1000000, ka, mtu, TCode::CBOR, ka_on[n] ? M2MLINK_FLAG_SEND_KA : 0);
      w.make(n, o);
    }
    w.on_msg = [&](int n, M2MMsg* m) {  on_msg(n, m);  };
    // Session setup, with its own fragmentation.
    for (int i = 0; i < 600 && !w.both_idle() && !c.failed(); i++) {
      if (i < 60) {
        for (int n = 0; n < 2; n++) {
          size_t k = w.in_flight(n);
          if (k) {  size_t x = c.draw(4) ? k : c.draw(k + 1);  w.deliver(n, x);  if (x < k) c.fault(F_FRAG);  }
        }
        int who = c.draw(4);
        if (who != 1) w.poll(0);
        if (who != 2) w.poll(1);
        c.advance(1000 * (1 + c.draw(30)));
      }
      else w.round(20);
    }
    for (int i = 0; i < 80 && !w.both_idle() && !c.failed(); i++) w.round((i & 1) ? 150000 : 10);
    if (!w.both_idle()) {  c.fail("no-session", "two fresh endpoints did not reach an idle session (%s / %s)", M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));  return;  }
    c.ev("session up");
    c.plan_ops(20 + c.draw(100));
    uint64_t t_live = c.now_us;
    while (c.next_op() && !c.failed()) {
      int n = c.draw(2);
      switch (c.draw(10)) {
        case 0: case 1:
          if (app[n].q.size() + app[n].waiting.size() + app[1-n].waiting.size() < 6) {
            if (app[0].waiting.size() && app[1].waiting.size()) c.probe(P_CROSS);
            submit(n, c.chance(1, 2), max_size);
          }
          break;
        case 2: case 3: case 4: {
          size_t k = w.in_flight(n);
          if (k) {
            size_t x = (c.draw(3) == 0) ? (1 + c.draw(5)) : (1 + c.draw((uint32_t) k));
            if (x < k) c.fault(F_FRAG);
            if ((int32_t) x <= w.node[1-n].link->bufferAvailable()) {
              w.deliver(n, x);
              c.ev("%zu bytes %c->%c", x, 'A' + n, 'B' - n);
            }
          }
          break;
        }
        case 5: case 6: case 7:  w.poll(n);  break;
        case 8:  c.advance(1000 * c.range(1, 40));  c.fault(F_DELAY);  break;
        case 9:
          if (c.draw(2)) {   // One side stalls while the other goes on.
            uint32_t k = 1 + c.draw(6);
            for (uint32_t i = 0; i < k && !c.failed(); i++) {  w.deliver(1-n, w.in_flight(1-n));  w.poll(n);  }
            c.fault(F_STARVE);
          }
          else if (c.draw(2)) {             // The transport pushes back.
            w.node[n].reject_next = 1;
            w.poll(n);
            if (w.node[n].reject_next == 0) c.fault(F_REJECT);
            w.node[n].reject_next = 0;
          }
          else {             // The transport has little room, perhaps for a while.
            uint32_t k = 1 + c.draw(4), had = w.node[n].parts;
            w.node[n].part_next = k;
            for (uint32_t i = 0; i < k && !c.failed(); i++) {
              w.poll(n);
              if (c.draw(3) == 0) {  w.node[n].reject_next = 1;  w.poll(n);  w.node[n].reject_next = 0;  }
            }
            w.node[n].part_next = 0;
            if (w.node[n].parts != had) c.fault(F_PART, w.node[n].parts - had);
          }
          break;
      }
    }
    c.begin_tail();
    quiet = true;
    for (int i = 0; i < 900 && !c.failed(); i++) {
      if (w.both_idle() && app[0].q.empty() && app[1].q.empty()) break;
      w.round(3);
    }
    if (c.failed()) return;
    for (int n = 0; n < 2; n++) {
      if (w.st(n) != M2MLinkState::LIVE) c.fail("session-lost", "%c left LIVE (%s) though the transport was perfect", 'A' + n, M2MLink::sessionStateStr(w.st(n)));
      if (app[n].q.size()) c.fail("lost-message", "%zu of %u messages accepted from %c never arrived (next n=%u id=%u)", app[n].q.size(), app[n].accepted, 'A' + n, app[n].q.front().pl.seq, app[n].q.front().id);
      if (app[n].waiting.size()) c.fail("lost-reply", "%c still waits for %zu replies", 'A' + n, app[n].waiting.size());
      if (w.node[n].link->replyTimeouts()) c.fail("reply-timeout", "%c counted %u reply timeouts", 'A' + n, w.node[n].link->replyTimeouts());
    }
    if (!w.both_idle()) c.fail("not-idle", "the link did not go idle after all messages were delivered");
    (void) t_live;
    if (ka_on[0] || ka_on[1]) c.probe(P_KA);
  }
};

void run(Ctx& c) {  Run* r = new Run(c);  r->run();  delete r;  }
}

Harness g_harness = {
  "L01",
  "One run: two fresh links handshake, then a seeded mix of sends (with and without replies), replies and multi-step dialogs "
  "made inside of callbacks, partial deliveries of 1..n bytes, polls and clock advances. Non-trivial: at least one message that "
  "needed a reply was answered. Runs are distinct when their event logs differ.",
  run,
  {"fragmented delivery", "delayed delivery", "stalled endpoint", "transport refuses a frame", "transport takes part of a frame"},
  {"keepalives enabled", "dialog continued by a reply", "payload over 250 bytes", "send() inside of a callback", "send() refused, queue full", "both sides await replies"},
  {"M2MLink", "M2MMsg", "M2MMsgHdr", "StateMachine", "KeyValuePair", "cbor-cpp", "StringBuilder", "PriorityQueue", "RingBuffer"},
  {"transport (ordered byte stream)", "clock", "random source", "applications at both ends"},
  "pair of link states x bytes in flight x idle flags, consecutive pairs",
  {}, 6000, 200000
};
