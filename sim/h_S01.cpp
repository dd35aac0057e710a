/* S01: the scheduler. A schedule runs once per period, never early, as often as it was asked to, in
*  the order that schedules came due, and not while it is disabled. */
#include "engine.h"
#include "platform.h"
#include "TimerTools/C3PScheduler.h"
#include <deque>
#include <vector>
using namespace sim;

namespace {
enum {  F_ISR_EXEC, F_ISR_READ, F_LATE, F_WRAP, F_SLOW  };
enum {  P_EXEC, P_ONESHOT, P_DONE, P_DISABLED_OWED, P_FULL, P_DELAY, P_FOREVER, P_JITTER  };

struct M {
  C3PSchedule* s = nullptr;
  bool added = false, enabled = false, executing = false, touching = false, shifted = false;
  int32_t rec = 0;
  uint32_t period = 0, due = 0, runs = 0;
};
struct Q {  int i;  bool may_wait;  };

struct Run;
struct Poller : public C3PPollable {
  Run* r;  int i;
  PollResult poll() override;
};

struct JProbe : public C3PScheduledJitterProbe {
  Run* r;  int i;
  JProbe(Run* run, int idx, uint32_t p, int32_t rec, bool on) : C3PScheduledJitterProbe("j", p, rec, on, nullptr), r(run), i(idx) {}
  int8_t _execute() override;
};

struct Run {
  Ctx& c;
  C3PScheduler* sch;
  std::vector<M> m;
  std::deque<Q> q;
  std::deque<Poller> pollers;
  bool in_service = false, in_cb = false, isr = false, ticked = false;
  int running = -1;
  uint32_t svc_start = 0, cb_at = 0, exec_lo = 0;   // exec_lo: the earliest that the running schedule can have started.
  bool quiet = false;
  Run(Ctx& ctx) : c(ctx) {  m.reserve(16);  }
  uint32_t now() {  return (uint32_t) c.now_us;  }
  static bool past(uint32_t now, uint32_t due) {  return (uint32_t) (now - due) < 0x7FFFFFFFu;  }

  bool queued(int i) {  for (auto& e : q) if (e.i == i) return true;  return false;  }
  void model_tick(bool may_wait) {
    for (int i = 0; i < (int) m.size(); i++) {
      if (!m[i].added || m[i].executing || queued(i)) continue;
      bool on = m[i].enabled;  uint32_t due = m[i].due;
      if (m[i].touching) {  on = m[i].s->enabled();  due = m[i].s->nextExec();  }   // Interrupted part-way.
      if (on && past(now(), due)) q.push_back(Q{i, may_wait});
    }
    ticked = true;
  }
  void tick(bool may_wait) {  uint32_t cost = c.read_cost_us;  c.read_cost_us = 0;  model_tick(may_wait);  sch->advanceScheduler();  c.read_cost_us = cost;  c.step();  }

  void finish() {        // The running schedule has returned to the scheduler.
    if (running < 0) return;
    M& k = m[running];
    if (k.enabled) {
      if (k.rec > 0) k.rec--;
      if (k.rec == 0) {  k.enabled = false;  c.probe(P_DONE);  }
      uint32_t at = k.s->lastExec();
      if ((uint32_t) (at - exec_lo) > (uint32_t) (cb_at - exec_lo)) c.fail("last-exec", "schedule %d says it last ran at %u; it ran between %u and %u", running, at, exec_lo, cb_at);
      k.due = at + k.period;
    }
    k.executing = false;  k.shifted = false;
    running = -1;
  }
  void check(const char* when) {
    for (int i = 0; i < (int) m.size() && !c.failed(); i++) {
      M& k = m[i];
      if (k.executing) continue;
      bool again = k.enabled && (k.rec > 0 || k.rec == -1);
      if (k.s->enabled() != k.enabled) c.fail("enabled", "schedule %d is %sabled %s", i, k.enabled ? "dis" : "en", when);
      else if (k.s->recurrence() != k.rec) c.fail("recurrence", "schedule %d has %d recurrences left %s; %d expected", i, k.s->recurrence(), when, k.rec);
      else if (k.s->willRunAgain() != again) c.fail("will-run", "schedule %d: willRunAgain() is %d %s", i, !again, when);
      else if (again && k.added && k.s->nextExec() != k.due) c.fail("next-exec", "schedule %d is next due at %u %s; %u expected", i, k.s->nextExec(), when, k.due);
      else if (sch->containsSchedule(k.s) != k.added) c.fail("contains", "containsSchedule(%d) is wrong", i);
    }
  }
  void executed(int i) {
    finish();
    M& k = m[i];
    if (c.failed()) return;
    c.ev("schedule %d runs at %u (due %u)", i, now(), k.due);
    while (!q.empty() && !m[q.front().i].enabled) {  c.probe(P_DISABLED_OWED);  q.pop_front();  }
    if (!k.enabled) c.fail("ran-disabled", "schedule %d ran while disabled", i);
    else if (!in_service) c.fail("outside-service", "schedule %d ran outside of serviceSchedules()", i);
    else if (!past(now(), k.due) && !k.shifted) c.fail("early", "schedule %d ran at %u, %u us ahead of its time", i, now(), k.due - now());
    else if (q.empty()) c.fail("unowed", "schedule %d ran, but no tick had found it due", i);
    else if (q.front().i != i) c.fail("order", "schedule %d ran ahead of %d, which came due first", i, q.front().i);
    if (c.failed()) return;
    q.pop_front();
    k.executing = true;  k.runs++;  running = i;
    cb_at = now();  exec_lo = svc_start;
    c.probe(P_EXEC);  if (k.rec == -1) c.probe(P_FOREVER);  if (k.rec == 0 || k.rec == 1) c.probe(P_ONESHOT);
    if (k.runs > 2) c.nontrivial();
    // What the application does from inside its schedule.
    in_cb = true;
    uint32_t n = quiet ? 0 : c.draw(3);
    for (uint32_t j = 0; j < n && !c.failed(); j++) {
      switch (c.draw(6)) {
        case 0: tick(false);  c.fault(F_ISR_EXEC);  c.ev("  tick during execution");  break;
        case 1: {  uint32_t us = c.draw(3000);  c.advance(us);  c.fault(F_SLOW);  break;  }
        case 2: {  if (m.size() > 1) touch(c.draw((uint32_t) m.size()));  break;  }
        case 3: touch(i);  break;
        case 4: if (c.chance(1, 4)) add();  break;
        default: break;
      }
    }
    in_cb = false;  svc_start = now();
  }
  void touch(int i) {
    M& k = m[i];
    switch (c.draw(6)) {
      case 0: {  k.s->enabled(false);  k.enabled = false;  c.ev("  schedule %d disabled", i);  break;  }
      case 1: {
        k.touching = true;  uint32_t us = c.draw(c.pick({10u, 5000u, 60000u}));
        uint32_t before = now();
        k.s->delay(us);
        k.touching = false;
        if (!k.executing) {
          if (!k.enabled) {  k.due = before + us + (k.s->nextExec() - (before + us) <= (uint32_t) (now() - before) ? k.s->nextExec() - (before + us) : 0);  k.enabled = true;  }
          else k.due += us;
          if (queued(i)) k.shifted = true;
        }
        c.probe(P_DELAY);  c.ev("  schedule %d delayed by %u", i, us);
        break;
      }
      case 2: case 3: {
        k.touching = true;
        uint32_t before = now();
        k.s->delay();
        k.touching = false;
        if (!k.executing) {
          k.due = before + k.period;
          if ((uint32_t) (k.s->nextExec() - k.due) <= (uint32_t) (now() - before)) k.due = k.s->nextExec();   // The clock moved meanwhile.
          k.enabled = true;
          if (queued(i)) k.shifted = true;
        }
        c.probe(P_DELAY);  c.ev("  schedule %d set to run in %u", i, k.period);
        break;
      }
      case 4: {  uint32_t p = 1 + c.draw(c.pick({100u, 20000u, 2000000u}));  k.s->period(p);  k.period = p;  c.ev("  schedule %d period %u", i, p);  break;  }
      case 5: {  int32_t r = c.pick({-1, 0, 1, 2, 7});  k.s->recurrence(r);  k.rec = r;  c.ev("  schedule %d recurrences %d", i, r);  break;  }
    }
  }
  void add() {
    if (m.size() >= 12) return;
    M k;
    k.period = 1 + c.draw(c.pick({200u, 20000u, 500000u}));
    k.rec = c.pick({-1, -1, 0, 1, 2, 5});
    k.enabled = c.chance(4, 5);
    int i = (int) m.size();
    if (c.chance(1, 3)) {
      pollers.push_back(Poller());  pollers.back().r = this;  pollers.back().i = i;
      k.s = new C3PScheduledPolling("p", k.period, k.rec, k.enabled, &pollers.back());
    }
    else if (c.chance(1, 4)) k.s = new JProbe(this, i, k.period, k.rec, k.enabled);
    else k.s = new C3PScheduledLambda("l", k.period, k.rec, k.enabled, [this, i]() -> int8_t {  executed(i);  return 0;  });
    m.push_back(k);
    m[i].touching = true;
    uint32_t before = now();
    bool room = (sch->scheduleCount() < 8);
    int r = sch->addSchedule(k.s);
    m[i].touching = false;
    c.ev("%sschedule %d added: period %u, recurrences %d, %sabled = %d", in_cb ? "  " : "", i, k.period, k.rec, k.enabled ? "en" : "dis", r);
    if (r != (room ? 0 : -1)) {  c.fail("add", "addSchedule() returned %d with %s", r, room ? "room to spare" : "no room");  return;  }
    if (r != 0) {  c.probe(P_FULL);  return;  }
    m[i].added = true;
    if (k.enabled) {
      m[i].due = before + k.period;
      if ((uint32_t) (k.s->nextExec() - m[i].due) <= (uint32_t) (now() - before)) m[i].due = k.s->nextExec();
    }
    if (c.chance(1, 6)) {
      r = sch->addSchedule(k.s);
      if (r == 0) c.fail("add-twice", "the same schedule was accepted twice");
    }
  }
  void service() {
    bool had_tick = ticked;
    in_service = true;
    svc_start = now();
    sch->serviceSchedules();
    in_service = false;
    finish();
    c.step();
    if (c.failed() || !had_tick) return;
    while (!q.empty() && !m[q.front().i].enabled) q.pop_front();
    for (auto& e : q) if (!e.may_wait && m[e.i].enabled) {  c.fail("not-run", "schedule %d was due when serviceSchedules() was called, and did not run", e.i);  return;  }
    // A disabled schedule behind one that waits has either been dropped already, or will be.
  }
  void run() {
    // Shortly ahead of the 32-bit microsecond wrap, or not.
    uint64_t s = 5000000ull;
    if (c.chance(1, 2)) {  s = 0x100000000ull - c.draw(400000);  c.fault(F_WRAP);  }
    else if (c.chance(1, 3)) s = 0x80000000ull - c.draw(400000);
    set_clock(s);
    c.read_cost_us = c.pick({0u, 0u, 1u, 40u});
    sch = C3PScheduler::getInstance();
    bool isr_reads = c.chance(1, 2);
    uint32_t budget = 0;
    c.on_clock_read = [&]() {
      if (!isr_reads || budget == 0 || isr) return;
      // During service, ticks arrive only within executions: nothing else tells the model where service has got to.
      if (in_service || in_cb) return;
      if (!c.chance(1, 6)) return;
      budget--;
      isr = true;
      tick(in_service);
      isr = false;
      c.fault(F_ISR_READ);
      c.ev("tick interrupts at %u", now());
    };
    uint32_t first = 1 + c.draw(5);
    for (uint32_t i = 0; i < first && !c.failed(); i++) add();
    c.plan_ops(10 + c.draw(100));
    while (c.next_op() && !c.failed()) {
      budget = 3;
      switch (c.draw(10)) {
        case 0: add();  break;
        case 1: case 2: {  uint32_t us = c.draw(c.pick({30u, 3000u, 100000u}));  c.advance(us);  break;  }
        case 3: tick(false);  c.ev("tick at %u", now());  break;
        case 4: service();  break;
        case 5: if (m.size()) touch(c.draw((uint32_t) m.size()));  break;
        case 6: case 7: case 8: {
          uint32_t n = 1 + c.draw(12), us = c.pick({50u, 1000u, 10000u});
          for (uint32_t i = 0; i < n && !c.failed(); i++) {  c.advance(c.draw(us));  tick(false);  if (!c.chance(1, 5)) service();  }
          break;
        }
        case 9: {  c.advance(c.draw(c.pick({3000000u, 3000000u, 0x7C000000u})));  c.fault(F_LATE);  tick(false);  service();  break;  }
      }
      if (!c.failed()) check("after an operation");
      uint64_t h = q.size();
      for (auto& k : m) h = h * 5 + (k.enabled ? 1 : 0) + (k.rec > 0 ? 2 : 0);
      c.state(h);
    }
    if (c.failed()) return;
    c.begin_tail();  quiet = true;
    isr_reads = false;
    // Every enabled schedule runs within one period plus one tick.
    service();
    for (int i = 0; i < (int) m.size() && !c.failed(); i++) {
      M& k = m[i];
      if (!k.added || !k.enabled) continue;
      uint32_t r = k.runs;
      uint32_t wait = past(now(), k.due) ? 0 : k.due - now();
      c.advance(wait);
      tick(false);  service();
      if (!c.failed() && k.runs == r && k.enabled) c.fail("starved", "schedule %d did not run in the tick after it came due", i);
    }
  }
  ~Run() {  c.on_clock_read = nullptr;  }
};
int8_t JProbe::_execute() {
  Ctx& c = r->c;
  r->executed(i);
  if (c.failed()) return 0;
  const uint32_t had = jitter.totalSamples(), t0 = r->now() - r->m[i].due;
  const bool on = jitter.initialized();
  const int8_t ret = C3PScheduledJitterProbe::_execute();
  const uint32_t spent = r->now() - r->m[i].due - t0;
  if (!jitter.initialized()) {  c.fail("jitter", "a probe has no memory");  return ret;  }
  if (jitter.totalSamples() != had + (on ? 1 : 0)) {  c.fail("jitter", "a probe that ran %s took %u samples", on ? "again" : "for the first time", jitter.totalSamples() - had);  return ret;  }
  if (!on) return ret;
  const uint32_t got = jitter.memPtr()[(jitter.lastIndex() + 99) % 100];
  // How far it was from its time, whichever side of the counter's wrap each lies.
  bool ok = false;
  for (uint32_t d = 0; d <= spent && !ok; d++) {  const int32_t off = (int32_t) (t0 + d);  ok = got == (uint32_t) (off < 0 ? -(int64_t) off : off);  }
  c.ev("  probe %d: %u us from its time", i, got);
  if (!ok) c.fail("jitter", "a probe which ran %d us after its time says %u", (int32_t) t0, got);
  c.probe(P_JITTER);
  return ret;
}
PollResult Poller::poll() {  r->executed(i);  return PollResult::NO_ACTION;  }
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  c.on_clock_read = nullptr;  }
}

Harness g_harness = {
  "S01",
  "One run: up to 12 schedules on the real scheduler; simulated clock, ticks from a simulated interrupt (between calls, inside a schedule, and at clock reads), service calls, and "
  "changes to schedules from outside and inside their own execution. Non-trivial: some schedule ran three times. Distinct by event log.",
  run,
  {"tick during a schedule", "tick at a clock read", "service stalled for up to half the range of the clock", "32-bit clock wrap in the run", "slow schedule"},
  {"execution", "last execution of a finite schedule", "recurrences exhausted", "disabled while queued", "scheduler full", "delay()", "recurs forever", "jitter measured"},
  {"C3PScheduler", "C3PSchedule", "C3PScheduledLambda", "C3PScheduledPolling", "C3PScheduledJitterProbe", "RingBuffer", "StopWatch"},
  {"clock", "tick interrupt"},
  "queue length x per-schedule enabled and remaining, consecutive pairs",
  {}, 20000, 400000
};
