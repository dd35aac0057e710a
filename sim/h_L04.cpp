/* L04: session lifecycle. Hangups conclude, a hung-up link stays silent until reset, what was
*  accepted ahead of a graceful hangup is delivered, and ends that crash, restart, or hang up at
*  any point come back to a working session. */
#include "m2m.h"
using namespace m2m;

namespace {
enum {  F_LOSS, F_DUP, F_CRASH, F_REJECT, F_DELAY, F_STALL, F_PART  };
enum {  P_GRACE, P_FORCE, P_CBHANG, P_EARLY, P_RESET, P_RECOVERED, P_CLEAN, P_HALF, P_AFRESH  };
typedef M2MLinkState S;

struct NodeM {
  bool ever = false;
  bool forced_late = false;
  bool planned = false;                  // A hangup was accepted, and has yet to conclude.
  int forced_polls = -1;                 // Polls since an accepted forced hangup.
  uint64_t grace_at = 0;  bool grace = false;   // Accepted graceful hangup while LIVE.
  uint32_t grace_polls = 0;
  uint32_t entries = 0;      // Entries to states that the callback announces.
  bool reset_called = false;
  S last = S::UNINIT;
  uint32_t rejected = 0;
};
struct Acc {  Pl pl;  bool reply;  uint32_t id;  };

struct Run {
  Ctx& c;  World w;
  NodeM m[2];
  bool clean = false, tail = false, in_tail_probe = false, afresh = false;
  uint32_t seq = 1, timeout, ka;
  uint32_t await[2] = {0, 0};
  bool asked[2] = {false, false};        // Has sent a HANGUP.
  bool parted[2] = {false, false};       // Frames lie on this wire in parts. Whole frames are what is lost or repeated.
  std::deque<Acc> acc[2];                // Clean runs: accepted by node n, not yet delivered.
  Pl probe_pl[2];  uint32_t probe_got[2] = {0, 0};
  M2MLinkOpts* opts = nullptr;
  Run(Ctx& ctx) : c(ctx), w(ctx) {}
  ~Run() {  delete opts;  }

  void spawn(int n) {
    m[n] = NodeM();
    w.node[n].cb_states.clear();
    w.node[n].state_cbs = 0;
    w.node[n].reject_next = w.node[n].part_next = 0;
    w.make(n, *opts);
  }
  void hang(int n, bool graceful, bool in_cb) {
    M2MLink* l = w.node[n].link;
    S s = w.st(n);
    int r = l->hangup(graceful);
    c.ev("%c: hangup(%s) in %s%s = %d", 'A' + n, graceful ? "graceful" : "forced", M2MLink::sessionStateStr(s), in_cb ? " (callback)" : "", r);
    int want;
    bool early = (s == S::SYNC_RESYNC || s == S::SYNC_TENTATIVE);
    if (early || s == S::LIVE) want = 0;
    else if (s == S::PENDING_HANGUP || s == S::HUNGUP) want = graceful ? -2 : 0;
    else want = -1;
    if (graceful && want == 0) {
      if (m[n].planned) want = -2;                                 // A hangup is already in progress.
      else if (r == -2 && asked[1-n]) want = -2;            // The other end asked first.
    }
    if (r != want) c.fail("hangup-code", "%c: hangup(%s) in %s returned %d; %d expected", 'A' + n, graceful ? "graceful" : "forced", M2MLink::sessionStateStr(s), r, want);
    if (r == 0) {
      if (s != S::HUNGUP) m[n].planned = true;
      if (early) c.probe(P_EARLY);
      if (in_cb) c.probe(P_CBHANG);
      if (!graceful) {  c.probe(P_FORCE);  if (s != S::HUNGUP && m[n].forced_polls < 0) {  m[n].forced_polls = 0;  m[n].forced_late = (s == S::PENDING_HANGUP);  }  }
      else {  c.probe(P_GRACE);  if (s == S::LIVE && !m[n].grace) {  m[n].grace = true;  m[n].grace_at = c.now_us;  m[n].grace_polls = 0;  }  }
    }
  }
  bool submit(int n, bool expects) {
    Acc a;
    a.pl = draw_pl(c, seq++, 60);  a.reply = false;
    std::string hold;
    KeyValuePair* k = build(a.pl, hold);
    S s = w.st(n);
    // A reply that finds the outbound queue full is discarded; leave room for it.
    if (clean && (acc[0].size() + acc[1].size() + await[0] + await[1] > 4)) {  delete k;  return false;  }
    if (clean && (s == S::PENDING_SETUP || s == S::SYNC_RESYNC || s == S::SYNC_TENTATIVE)) {  delete k;  return false;  }   // Not yet a session.
    int r = w.node[n].link->send(k, expects);
    delete k;
    c.ev("%c: send(n=%u%s) in %s = %s", 'A' + n, a.pl.seq, expects ? " need_reply" : "", M2MLink::sessionStateStr(s), r < 0 ? (r == -3 ? "full" : "refused") : "ok");
    bool refuse = (s == S::UNINIT || s == S::PENDING_HANGUP || s == S::HUNGUP);
    if (refuse ? (r != -4) : (r < 0 && r != -3)) c.fail("send-code", "%c: send() in %s returned %d", 'A' + n, M2MLink::sessionStateStr(s), r);
    if (r >= 0) {  a.id = r;  acc[n].push_back(a);  if (expects) await[n]++;  }
    return r >= 0;
  }
  void reset(int n) {
    S s = w.st(n);
    int r = w.node[n].link->reset();
    c.ev("%c: reset() in %s = %d", 'A' + n, M2MLink::sessionStateStr(s), r);
    if (r != ((s == S::HUNGUP) ? 0 : -1)) c.fail("reset-code", "%c: reset() in %s returned %d", 'A' + n, M2MLink::sessionStateStr(s), r);
    if (r == 0) {  m[n].reset_called = true;  c.probe(P_RESET);  }
  }
  void on_msg(int n, M2MMsg* msg) {
    if (m[n].last == S::HUNGUP) c.fail("callback-when-hungup", "%c: message callback on a hung-up link", 'A' + n);
    KeyValuePair* k = nullptr;
    msg->getPayload(&k);
    if (clean && !in_tail_probe) {
      int p = 1 - n;
      if (acc[p].empty()) c.fail("unsent-delivery", "%c received a message (id %u) that was not sent, or for a second time", 'A' + n, msg->uniqueId());
      else {
        Acc a = acc[p].front();  acc[p].pop_front();
        if (a.reply) await[n]--;
        if (a.reply != msg->isReply() || a.id != msg->uniqueId()) c.fail("wrong-message", "%c received id %u where id %u was next", 'A' + n, msg->uniqueId(), a.id);
        else if (!a.reply) {  std::string d = compare(k, a.pl);  if (d.size()) c.fail("payload", "%c: n=%u: %s", 'A' + n, a.pl.seq, d.c_str());  }
      }
    }
    if (afresh) c.fail("former-session", "%c: something (id %u) was delivered on a new session on which nothing was sent", 'A' + n, msg->uniqueId());
    if (in_tail_probe && k) {
      int8_t ok = -1;
      KeyValuePair* nv = k->valueWithKey("n");
      if (nv && nv->get_as_uint(&ok) == probe_pl[1-n].seq && !compare(k, probe_pl[1-n]).size()) probe_got[1-n]++;
    }
    delete k;
    c.ev("%c: callback id=%u%s", 'A' + n, msg->uniqueId(), msg->isReply() ? " reply" : "");
    if (msg->expectsReply()) {
      uint32_t id = msg->uniqueId();
      if (msg->ack()) c.fail("ack", "%c: ack() failed", 'A' + n);
      if (clean) {  Acc a;  a.reply = true;  a.id = id;  acc[n].push_back(a);  }
    }
    if (!tail && c.chance(1, 12)) hang(n, clean || c.chance(1, 2), true);
  }
  void poll(int n) {
    S before = w.st(n);
    uint64_t tx = w.tx_frames[n];
    w.poll(n);
    S after = w.st(n);
    m[n].last = after;
    if (before == S::HUNGUP && w.tx_frames[n] != tx) c.fail("emission-when-hungup", "%c emitted a frame while hung up", 'A' + n);
    if (before != after) {
      bool legal = false;
      switch (before) {
        case S::UNINIT:          legal = (after == S::PENDING_SETUP);  break;
        case S::PENDING_SETUP:   legal = (after == S::SYNC_RESYNC);  break;
        case S::SYNC_RESYNC:     legal = (after == S::SYNC_TENTATIVE || after == S::HUNGUP);  break;
        case S::SYNC_TENTATIVE:  legal = (after == S::LIVE || after == S::PENDING_HANGUP || after == S::HUNGUP);  break;
        case S::LIVE:            legal = (after == S::PENDING_HANGUP || after == S::HUNGUP);  break;
        case S::PENDING_HANGUP:  legal = (after == S::HUNGUP);  break;
        case S::HUNGUP:          legal = (after == S::PENDING_SETUP) && m[n].reset_called;  break;
        default: break;
      }
      // Faults in the handshake, or a peer that restarts, can cost the link its sync.
      if (!clean && !afresh && after == S::SYNC_RESYNC && (before == S::SYNC_TENTATIVE || before == S::LIVE)) legal = true;
      if (!legal) c.fail("illegal-transition", "%c: %s -> %s%s", 'A' + n, M2MLink::sessionStateStr(before), M2MLink::sessionStateStr(after), before == S::HUNGUP ? " without reset()" : "");
      if (after == S::LIVE || after == S::HUNGUP) m[n].entries++;
      if (after == S::HUNGUP) {  m[n].forced_polls = -1;  if (m[n].grace) {  m[n].grace = false;  c.nontrivial();  }  m[n].planned = false;  }
      if (before == S::HUNGUP) m[n].reset_called = false;
      if (after == S::LIVE) m[n].ever = true;
    }
    if (m[n].entries != w.node[n].state_cbs) c.fail("state-callback", "%c: %u entries to announced states, %u state callbacks", 'A' + n, m[n].entries, w.node[n].state_cbs);
    // While PENDING_HANGUP, a late request from the peer might still be answered.
    if (m[n].forced_polls >= 0 && m[n].forced_late && w.node[n].rejected != m[n].rejected) {  m[n].rejected = w.node[n].rejected;  m[n].forced_polls = 0;  }
    if (m[n].forced_polls >= 0 && ++m[n].forced_polls > (m[n].forced_late ? 12 : 2)) c.fail("forced-hangup", "%c: still %s, %d polls after an accepted forced hangup", 'A' + n, M2MLink::sessionStateStr(after), m[n].forced_polls - 1);
    if (m[n].grace) {
      m[n].grace_polls++;
      if (w.node[n].rejected != m[n].rejected) {  m[n].rejected = w.node[n].rejected;  m[n].grace_at = c.now_us;  m[n].grace_polls = 0;  }
      if (m[n].grace_polls > 150 && (c.now_us - m[n].grace_at) > 14000ull * timeout)
        c.fail("graceful-hangup", "%c: still %s, %u ms and %u polls after an accepted graceful hangup", 'A' + n, M2MLink::sessionStateStr(after), (unsigned) ((c.now_us - m[n].grace_at) / 1000), m[n].grace_polls);
    }
  }
  void crash(int n) {
    c.fault(F_CRASH);
    c.ev("%c: crash in %s, and restart", 'A' + n, M2MLink::sessionStateStr(w.st(n)));
    w.kill(n);
    if (c.chance(1, 2)) {  w.wire[n].clear();  w.off[n] = 0;  }    // What it had not yet put on the wire.
    spawn(n);
  }
  void transport(int n) {
    if (w.wire[n].empty()) return;
    switch (clean ? 9 : c.draw(10)) {
      case 0: if (w.off[n] == 0 && !parted[n]) {  w.wire[n].pop_front();  c.fault(F_LOSS);  c.ev("%c: frame lost", 'A' + n);  return;  }  break;
      case 1: if (w.off[n] == 0 && !parted[n]) {  w.wire[n].push_front(w.wire[n].front());  c.fault(F_DUP);  c.ev("%c: frame duplicated", 'A' + n);  }  break;
      default: break;
    }
    uint32_t k = c.pick({100000u, 100000u, 64u, 8u, 3u});
    size_t d = w.deliver(n, k);
    if (d) c.ev("%c: %zu bytes arrive", 'B' - n, d);
  }
  void run() {
    clean = c.chance(1, 3);
    timeout = clean ? 60000 : c.pick({30u, 120u, 400u});
    ka = c.pick({20u, 100u});
    opts = new M2MLinkOpts(timeout, ka, 1024, TCode::CBOR, c.chance(1, 2) ? M2MLINK_FLAG_SEND_KA : 0);
    w.start_clock();
    w.on_tx = [&](int n, const Bytes&, const Frame& f) {  if (f.code == 5) asked[n] = true;  };
    w.on_msg = [&](int n, M2MMsg* msg) {  on_msg(n, msg);  };
    w.on_state = [&](int n, M2MLink*) {
      c.ev("%c: state callback", 'A' + n);
      if (m[n].last == S::HUNGUP) c.fail("callback-when-hungup", "%c: state callback on a hung-up link", 'A' + n);
      if (!tail && c.chance(1, 14)) hang(n, clean || c.chance(1, 2), true);
    };
    for (int n = 0; n < 2; n++) spawn(n);
    bool warm = c.chance(3, 4);
    if (warm) for (int i = 0; i < 24 && !c.failed(); i++) {
      for (int n = 0; n < 2; n++) w.deliver(n, 100000);
      for (int n = 0; n < 2; n++) poll(n);
      c.advance(3000);
    }
    c.plan_ops(10 + c.draw(80));
    while (c.next_op() && !c.failed()) {
      int n = c.draw(2);
      switch (c.draw(16)) {
        case 0: case 1: case 2:  submit(n, c.chance(1, 2));  break;
        case 3: case 4:  transport(n);  break;
        case 5: case 6:  {  uint32_t k = 1 + c.draw(6);  for (uint32_t i = 0; i < k && !c.failed(); i++) poll(n);  break;  }
        case 7: case 8: case 9:  {
          uint32_t k = 1 + c.draw(8);
          for (uint32_t i = 0; i < k && !c.failed(); i++) {  transport(0);  transport(1);  poll(0);  poll(1);  c.advance(1000 * c.draw(6));  }
          break;
        }
        case 10: hang(n, clean || c.chance(2, 3), false);  if (c.chance(1, 5)) hang(1 - n, true, false);  break;
        case 11: if (!clean) crash(n);  break;
        case 12: if (!clean) {  w.node[n].reject_next = c.draw(5);  if (w.node[n].reject_next) c.fault(F_REJECT);  }  if ((!clean || w.st(n) == S::LIVE) && c.chance(1, 2)) {  w.node[n].part_next = 1 + c.draw(4);  parted[n] = true;  c.fault(F_PART);  }  break;
        case 13: {  uint32_t ms = c.draw(3) ? c.draw(40) : c.draw(clean ? 2000 : 3 * timeout);  c.advance(1000ull * ms);  c.fault(F_DELAY);  break;  }
        case 14: if (clean) break;  reset(n);  break;
        case 15: {  uint32_t k = 1 + c.draw(20);  for (uint32_t i = 0; i < k && !c.failed(); i++) {  poll(n);  c.advance(1000);  }  c.fault(F_STALL);  break;  }
      }
    }
    if (c.failed()) return;
    c.begin_tail();
    tail = true;
    for (int n = 0; n < 2; n++) w.node[n].reject_next = w.node[n].part_next = 0;
    if (clean) {
      // Nothing was lost, nobody gave up: all that was accepted arrives before the session ends.
      for (int i = 0; i < 400 && !c.failed(); i++) {
        for (int n = 0; n < 2; n++) w.deliver(n, 100000);
        for (int n = 0; n < 2; n++) poll(n);
        c.advance(3000);
      }
      if (c.failed()) return;
      for (int n = 0; n < 2; n++) if (!acc[n].empty()) {
        c.fail("lost-at-hangup", "%zu accepted messages of %c were never delivered (next: id %u); A %s, B %s", acc[n].size(), 'A' + n, acc[n].front().id, M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));
        return;
      }
      if (w.st(0) != w.st(1) && w.st(0) != S::PENDING_HANGUP && w.st(1) != S::PENDING_HANGUP) {  c.fail("disagreement", "A is %s and B is %s on a quiet lossless transport", M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));  return;  }
      c.probe(P_CLEAN);
    }
    // The applications reset what hung up, and the transport behaves.
    int calm = 0;
    const uint32_t BOUND = 3000;
    for (uint32_t i = 0; i < BOUND && calm < 4 && !c.failed(); i++) {
      for (int n = 0; n < 2; n++) w.deliver(n, 1000000);
      for (int j = 0; j < 3; j++) for (int n = 0; n < 2 && !c.failed(); n++) poll(n);
      // Simultaneous hangups cross on the wire, and conclude only by timeout.
      c.advance(1000ull * std::max(ka + 1, (i > 40) ? timeout / 40 : 0));
      bool idle = true;
      for (int n = 0; n < 2; n++) {
        if (w.st(n) == S::HUNGUP) reset(n);
        idle &= w.node[n].link->linkIdle();
      }
      calm = idle ? calm + 1 : 0;
    }
    if (c.failed()) return;
    if (calm < 4) {  c.fail("no-recovery", "after %u rounds of reliable transport A is %s and B is %s", BOUND, M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));  return;  }
    probe("recovered");
    if (!c.failed()) {  c.probe(P_RECOVERED);  c.nontrivial();  }
    // End that session in the midst of whatever it was doing, and the transport with it. The next starts from nothing.
    if (c.failed() || !c.chance(1, 2)) return;
    for (int n = 0; n < 2; n++) {
      Pl p = draw_pl(c, 950000 + n, 300);
      std::string hold;
      KeyValuePair* k = build(p, hold);
      if (w.node[n].link->send(k, c.chance(1, 2)) < 0) c.fail("send-after-recovery", "%c: send() on a recovered idle link was refused", 'A' + n);
      delete k;
      for (uint32_t j = c.draw(4); j > 0; j--) poll(n);
      if (w.deliver(n, c.draw(1 + (uint32_t) w.in_flight(n))) && w.in_flight(n)) c.probe(P_HALF);
    }
    for (uint32_t j = c.draw(3); j > 0 && !c.failed(); j--) for (int n = 0; n < 2; n++) poll(n);
    for (int n = 0; n < 2 && !c.failed(); n++) hang(n, false, false);
    for (int j = 0; j < 3 && !c.failed(); j++) for (int n = 0; n < 2; n++) poll(n);
    w.clear_wires();
    for (int n = 0; n < 2 && !c.failed(); n++) {
      if (w.st(n) != S::HUNGUP) c.fail("forced-hangup", "%c is %s after an accepted forced hangup", 'A' + n, M2MLink::sessionStateStr(w.st(n)));
      else if (w.node[n].link->linkIdle()) c.fail("forced-hangup", "%c: idle while hung up", 'A' + n);
      else reset(n);
    }
    afresh = true;
    calm = 0;
    for (uint32_t i = 0; i < 60 && calm < 2 && !c.failed(); i++) {
      for (int n = 0; n < 2; n++) w.deliver(n, 1000000);
      for (int n = 0; n < 2 && !c.failed(); n++) poll(n);
      c.advance(1000ull * std::max(ka / 4, 1u));
      calm = (w.node[0].link->linkIdle() && w.node[1].link->linkIdle()) ? calm + 1 : 0;
    }
    if (c.failed()) return;
    if (calm < 2) {  c.fail("no-reconnection", "a new session on a reliable transport did not come about: A is %s and B is %s", M2MLink::sessionStateStr(w.st(0)), M2MLink::sessionStateStr(w.st(1)));  return;  }
    afresh = false;
    probe("new");
    if (!c.failed()) c.probe(P_AFRESH);
  }
  /* One message either way. */
  void probe(const char* what) {
    in_tail_probe = true;
    for (int n = 0; n < 2; n++) {
      probe_pl[n] = draw_pl(c, (what[0] == 'n' ? 910000 : 900000) + n, 100);
      probe_got[n] = 0;
      std::string hold;
      KeyValuePair* k = build(probe_pl[n], hold);
      int r = w.node[n].link->send(k, false);
      delete k;
      if (r < 0) c.fail("send-after-recovery", "%c: send() on a %s idle link returned %d", 'A' + n, what, r);
    }
    for (int j = 0; j < 12 && !c.failed(); j++) {
      for (int n = 0; n < 2; n++) w.deliver(n, 1000000);
      for (int n = 0; n < 2; n++) poll(n);
      c.advance(1000);
    }
    for (int n = 0; n < 2 && !c.failed(); n++) if (probe_got[n] != 1) c.fail("lost-after-recovery", "a message sent by %c on a %s session was delivered %u times", 'A' + n, what, probe_got[n]);
  }
};
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  delete r;  }
}

Harness g_harness = {
  "L04",
  "One run: two real links whose applications send, hang up (gracefully, by force, from callbacks), reset, crash and restart, over a transport that loses, duplicates, "
  "delays or refuses frames; a third of runs inject no fault and check delivery ahead of the hangup. Non-trivial: a hangup concluded, or both ends came back live. Distinct by event log.",
  run,
  {"frame lost", "frame duplicated", "crash and restart", "transport refuses a frame", "delay / clock advance", "one end stalled", "transport takes part of a frame"},
  {"graceful hangup", "forced hangup", "hangup from a callback", "hangup while connecting", "reset", "recovered", "clean run checked", "a session ended with half a frame received", "session begun afresh"},
  {"M2MLink", "M2MMsg", "StateMachine", "KeyValuePair", "C3PValue", "cbor-cpp", "StringBuilder", "PriorityQueue"},
  {"transport (frames)", "clock", "random source", "applications at both ends"},
  "pair of link states x frames in flight x idle flags, consecutive pairs",
  {}, 6000, 200000
};
