/* S03: the sequencer. Steps run only when asked for and only after what they depend upon has passed. */
#include "engine.h"
#include "platform.h"
#include "AsyncSequencer.h"
#include <memory>
#include <cstring>
using namespace sim;

namespace {
enum {  F_RETRY, F_FAIL, F_STALL, F_RESET_IN, F_RESTART, F_CYCLE  };
enum {  P_DISPATCH, P_POLL, P_PASS, P_FAILED, P_REQ_IN, P_BLOCKED, P_RERUN, P_ALL  };

struct Run {
  Ctx& c;
  uint32_t n = 0, dep[32], clos[32];
  uint32_t req = 0, running = 0, complete = 0, passed = 0, cleared = 0;   // cleared: dependencies have passed at some time since the last reset.
  bool cyclic = false, in_poll = false, quiet = false;
  int inside = -1;
  uint32_t called_d = 0, called_p = 0, acted = 0;
  std::unique_ptr<AsyncSequencer> seq;
  StepSequenceList* list = nullptr;
  Run(Ctx& x) : c(x) {}

  uint32_t closure(uint32_t m) {
    uint32_t r = 0;
    for (uint32_t i = 0; i < n; i++) if (m & (1u << i)) r |= clos[i];
    return r;
  }
  // Where dependencies are circular, which steps are implied is not promised, beyond those that were named.
  void requested(uint32_t m) {
    uint32_t full = closure(m), got = 0;
    if (cyclic) {
      seq->getState(&got, nullptr, nullptr, nullptr, nullptr);
      if (((req | m) & ~got) || (got & ~(req | full))) c.fail("requested", "a request for %x was taken as %x", m, got);
      req = got;
    }
    else req |= full;
  }
  void note_cleared() {  for (uint32_t i = 0; i < n; i++) if ((dep[i] & passed) == dep[i]) cleared |= (1u << i);  }
  void reset(uint32_t m) {  req &= ~m;  running &= ~m;  complete &= ~m;  passed &= ~m;  cleared &= ~m;  }
  void meddle() {            // What the application does from within a step.
    if (quiet) return;
    switch (c.draw(8)) {
      case 0: {
        uint32_t m = 1u << c.draw(n);
        seq->requestSteps(m);  requested(m);
        c.probe(P_REQ_IN);  c.ev("    requested %x", m);
        break;
      }
      case 1: {
        uint32_t m = (1u << c.draw(n)) | (1u << c.draw(n));
        m &= ~(1u << inside);
        seq->resetSteps(m);  reset(m);
        c.fault(F_RESET_IN);  c.ev("    reset %x", m);
        break;
      }
      default: break;
    }
  }
  int dispatch(int i) {
    uint32_t b = 1u << i;
    int was = inside;
    inside = i;
    c.probe(P_DISPATCH);
    if (!in_poll) c.fail("when", "step %d was dispatched outside of poll()", i);
    else if (!(req & b)) c.fail("unrequested", "step %d was dispatched, but nobody asked for it", i);
    else if (running & b) c.fail("redispatch", "step %d was dispatched while it ran", i);
    else if (complete & b) c.fail("rerun", "step %d was dispatched again after it completed", i);
    else if (!(cleared & b)) c.fail("dependency", "step %d was dispatched before its dependencies passed (needs %x, passed %x)", i, dep[i], passed);
    else if (called_d & b) c.fail("twice", "step %d was dispatched twice in one poll()", i);
    called_d |= b;
    meddle();
    int r = quiet ? 1 : c.pick({1, 1, 1, 0, -1, 7});
    if (c.failed()) r = 1;
    c.ev("  dispatch %d = %d", i, r);
    if (r == 1) running |= b;
    else if (r == 0) c.fault(F_RETRY);
    else {  complete |= b;  passed &= ~b;  c.fault(F_FAIL);  }
    acted |= b;
    inside = was;
    return r;
  }
  int poll(int i) {
    uint32_t b = 1u << i;
    int was = inside;
    inside = i;
    c.probe(P_POLL);
    if (!in_poll) c.fail("when", "step %d was polled outside of poll()", i);
    else if (!(running & b)) c.fail("polled-idle", "step %d was polled, but is not running", i);
    else if (called_p & b) c.fail("twice", "step %d was polled twice in one poll()", i);
    called_p |= b;
    meddle();
    int r = quiet ? 1 : c.pick({1, 1, 0, 0, -1, 2});
    c.ev("  poll %d = %d", i, r);
    if (r == 1) {  running &= ~b;  complete |= b;  passed |= b;  c.probe(P_PASS);  c.nontrivial();  note_cleared();  }
    else if (r == 0) c.fault(F_STALL);
    else {  running &= ~b;  complete |= b;  passed &= ~b;  c.fault(F_FAIL);  c.probe(P_FAILED);  }
    inside = was;
    return r;
  }
  void do_poll() {
    uint32_t a[5], z[5];
    get(a);
    in_poll = true;  called_d = called_p = acted = 0;
    note_cleared();
    uint32_t f0 = c._shm->faults[F_RESET_IN];
    int r = seq->poll();
    bool x = (f0 != c._shm->faults[F_RESET_IN]);
    in_poll = false;
    c.step();
    get(z);
    if (c.failed()) return;
    uint32_t diff = __builtin_popcount(a[2] ^ z[2]) + __builtin_popcount(a[3] ^ z[3]) + __builtin_popcount((a[1] & ~a[2] & ~a[3]) ^ (z[1] & ~z[2] & ~z[3]));
    if (r != (int) diff) c.fail("poll-return", "poll() reported %d transitions; the state shows %u", r, diff);
    // Everything that ran before this poll was polled in it.
    if (!x) {
      uint32_t missed = a[2] & ~called_p;
      if (missed) c.fail("not-polled", "running steps %x were not polled", missed);
    }
  }
  void get(uint32_t* s) {  seq->getState(&s[0], &s[1], &s[2], &s[3], &s[4]);  }
  void check() {
    uint32_t s[5];
    get(s);
    if (s[0] != req) c.fail("requested", "requested %x; %x expected", s[0], req);
    else if (s[2] != running) c.fail("running", "running %x; %x expected", s[2], running);
    else if (s[3] != complete) c.fail("complete", "complete %x; %x expected", s[3], complete);
    else if ((s[4] & complete) != passed) c.fail("passed", "passed %x; %x expected", s[4], passed);
    else if (s[1] & ~req) c.fail("runnable", "steps %x may run, but nobody asked for them", s[1] & ~req);
    else if (s[1] & ~cleared) {
      note_cleared();
      if (s[1] & ~cleared) c.fail("runnable", "steps %x may run, but their dependencies never passed", s[1] & ~cleared);
    }
    uint32_t m = c.draw(2) ? (n < 32 ? (1u << n) - 1 : 0xFFFFFFFFu) : (1u << c.draw(n)), un = req & ~complete;
    if (c.failed()) return;
    if (seq->steps_running() != (running != 0)) c.fail("q", "steps_running() is wrong");
    else if (seq->request_completed() != (un == 0)) c.fail("q", "request_completed() is wrong");
    else if (seq->request_fulfilled() != ((req & ~passed) == 0)) c.fail("q", "request_fulfilled() is wrong");
    else if (seq->all_steps_have_run() != ((s[1] & ~complete) == 0)) c.fail("q", "all_steps_have_run() is wrong");
    else if (seq->all_steps_have_run(m) != ((m & ~complete) == 0)) c.fail("q", "all_steps_have_run(%x) is wrong", m);
    else if (seq->all_steps_have_passed() != ((s[1] & ~passed) == 0)) c.fail("q", "all_steps_have_passed() is wrong");
    else if (seq->all_steps_have_passed(m) != ((m & ~passed) == 0)) c.fail("q", "all_steps_have_passed(%x) is wrong", m);
    else if (seq->all_steps_still_running(m) != ((m & ~running) == 0)) c.fail("q", "all_steps_still_running(%x) is wrong", m);
    else if (seq->failed_steps(false) != (complete & ~passed)) c.fail("q", "failed_steps() is %x; %x expected", seq->failed_steps(false), complete & ~passed);
    else if (seq->failed_steps(true) != (s[1] & ~passed)) c.fail("q", "failed_steps(true) is %x; %x expected", seq->failed_steps(true), s[1] & ~passed);
  }

  void run() {
    n = 1 + c.draw(c.pick({4u, 10u, 32u}));
    bool cyc = cyclic = c.chance(1, 6);
    // Dependencies point at any step that precedes in some shuffled order, so that list order proves nothing.
    uint32_t order[32];
    for (uint32_t i = 0; i < n; i++) order[i] = i;
    bool shuffled = c.chance(1, 2);
    if (shuffled) for (uint32_t i = n - 1; i > 0; i--) {  uint32_t j = c.draw(i + 1);  uint32_t t = order[i];  order[i] = order[j];  order[j] = t;  }
    uint32_t dense = c.draw(5);
    bool chain = (dense == 4);
    for (uint32_t i = 0; i < n; i++) {
      dep[order[i]] = 0;
      if (chain) {  if (i > 0) dep[order[i]] = 1u << order[i - 1 - (c.chance(1, 20) ? c.draw(i) : 0)];  }
      else for (uint32_t k = 0; k < dense && i > 0; k++) dep[order[i]] |= 1u << order[c.draw(i)];
    }
    if (cyc) {  for (uint32_t k = 0; k < 1 + dense; k++) dep[c.draw(n)] |= 1u << c.draw(n);  c.fault(F_CYCLE);  }
    for (uint32_t i = 0; i < n; i++) clos[i] = dep[i] | (1u << i);
    for (uint32_t k = 0; k < n; k++) for (uint32_t i = 0; i < n; i++) {  uint32_t r = clos[i];  for (uint32_t j = 0; j < n; j++) if (clos[i] & (1u << j)) r |= clos[j];  clos[i] = r;  }
    list = (StepSequenceList*) calloc(n, sizeof(StepSequenceList));
    // The steps may be listed in another order than that of their flags.
    std::vector<uint32_t> place(n);
    for (uint32_t i = 0; i < n; i++) place[i] = i;
    if (c.chance(1, 2)) for (uint32_t i = n; i > 1; i--) std::swap(place[i - 1], place[c.draw(i)]);
    for (uint32_t i = 0; i < n; i++) new (&list[place[i]]) StepSequenceList{1u << i, "s", dep[i], [this, i]() {  return dispatch(i);  }, [this, i]() {  return poll(i);  }};
    seq.reset(new AsyncSequencer(list, n));
    seq->resetSequencer();
    c.ev("%u steps, dependencies up to %u each%s", n, dense, cyc ? ", circular" : "");
    c.plan_ops(8 + c.draw(60));
    while (c.next_op() && !c.failed()) {
      switch (c.draw(8)) {
        case 0: {
          uint32_t m = c.chance(1, 4) ? (c.draw(65536) << 16 | c.draw(65536)) : (1u << c.draw(n));
          seq->requestSteps(m);
          requested(n < 32 ? m & ((1u << n) - 1) : m);
          c.ev("request %x", m);
          break;
        }
        case 1: if (c.chance(1, 2)) {
          uint32_t m = c.chance(1, 3) ? (n < 32 ? (1u << n) - 1 : 0xFFFFFFFFu) : (1u << c.draw(n));
          if (passed & m) c.probe(P_RERUN);
          seq->resetSteps(m);  reset(m);  c.ev("reset %x", m);
        }
        break;
        case 2: if (c.chance(1, 4)) {  seq->resetSequencer();  reset(0xFFFFFFFFu);  c.ev("reset all");  }  break;
        case 3: if (c.chance(1, 3)) {      // Restarts from the state that it gave up.
          uint32_t s[5];
          get(s);
          seq.reset(new AsyncSequencer(list, n));
          seq->resetSequencer();
          seq->setState(s[0], s[1], s[2], s[3], s[4]);
          uint32_t b[5];
          get(b);
          if (memcmp(s, b, sizeof(s))) c.fail("restore", "a restored sequencer is not in the state that it was given");
          c.fault(F_RESTART);  c.ev("restarted");
        }
        break;
        default: do_poll();  break;
      }
      if (!c.failed()) check();
      c.state(hash64((uint64_t) running << 32 | complete, (uint64_t) passed << 32 | req));
    }
    if (c.failed()) return;
    c.begin_tail();  quiet = true;
    for (uint32_t i = 0; i < 2 * n + 2 && !c.failed(); i++) do_poll();
    if (c.failed()) return;
    check();
    // What was requested and can run has run. What cannot depends upon something that failed, was not requested, or upon itself.
    for (uint32_t i = 0; i < n && !c.failed(); i++) {
      uint32_t b = 1u << i;
      if (!(req & b) || (complete & b)) continue;
      if (running & b) c.fail("stuck", "step %u never finished", i);
      else if ((dep[i] & passed) == dep[i]) c.fail("starved", "step %u was requested, and its dependencies passed, but it was not run", i);
      else c.probe(P_BLOCKED);
    }
    if (!c.failed() && (req & ~passed) == 0 && req) c.probe(P_ALL);
  }
};
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  }
}

Harness g_harness = {
  "S03",
  "One run: 1 to 32 steps with a random dependency graph (circular in one run of six), polled through requests, resets, retries, failures, stalls, and restarts from saved state, with requests and resets "
  "also made from within steps. Non-trivial: a step passed. Distinct by event log.",
  run,
  {"dispatch to be retried", "step failed", "step not yet done", "reset from within a step", "restart from saved state", "circular dependency"},
  {"dispatch", "poll", "pass", "failure when polled", "request from within a step", "blocked at the end", "reset after passing", "request fulfilled"},
  {"AsyncSequencer", "FlagContainer"},
  {"the steps' functions"},
  "requested, running, complete and passed masks, consecutive pairs",
  {}, 20000, 400000
};
