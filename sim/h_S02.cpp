/* S02: timeouts and stopwatches tell the truth about elapsed time, wherever the clock stands, however
*  it wraps, and however much time passes between the reads that one call makes. */
#include "engine.h"
#include "platform.h"
#include "TimerTools/TimerTools.h"
using namespace sim;

namespace {
enum {  F_PREEMPT, F_WRAP_US, F_WRAP_MS, F_LONG  };
enum {  P_EXPIRED, P_PENDING, P_EDGE, P_TRIGGER, P_PERIOD0, P_STRADDLE, P_LAP, P_UNSTARTED, P_ADD, P_PERIOD_CHANGE  };

// A simulated mark lies somewhere in [lo, hi], as the code may have read the clock anywhere in the call.
struct T {
  PeriodicTimeout* t = nullptr;  bool ms = false, marked = false;
  uint32_t lo = 0, hi = 0, period = 0;
};
struct W {
  StopWatch* w = nullptr;
  bool started = false, unknown = false;   // Unknown: reset() while running.
  uint32_t lo = 0, hi = 0;
  // Known exactly from the code's own lastTime(), each of which is checked on its own.
  uint32_t n = 0, best = 0xFFFFFFFF, worst = 0, last = 0;
  uint64_t total = 0;
};

struct Run {
  Ctx& c;
  T t[6];  W w[4];
  uint32_t nt = 0, nw = 0;
  uint32_t preempt = 0;
  bool straddled = false;
  Run(Ctx& x) : c(x) {}
  uint32_t now(bool ms) {  return (uint32_t) (ms ? c.now_us / 1000 : c.now_us);  }

  void timer(T& k) {
    uint32_t a = now(k.ms), b;
    switch (c.draw(8)) {
      case 0: {
        if (c.chance(1, 2)) {  uint32_t p = c.pick({0u, 1u, 2u, 50u, 100000u, 0x40000000u});  if (p > 2) p += c.draw(100);  k.t->reset(p);  k.period = p;  }
        else k.t->reset();
        b = now(k.ms);
        k.lo = a;  k.hi = b;  k.marked = true;
        c.ev("timer %d reset, period %u, at %u", (int) (&k - t), k.period, a);
        break;
      }
      case 1: {
        k.t->trigger();
        b = now(k.ms);
        k.lo = a - (k.period + 1);  k.hi = b - k.period;  k.marked = true;
        c.probe(P_TRIGGER);  c.ev("timer %d triggered", (int) (&k - t));
        if (!k.t->expired()) c.fail("trigger", "a triggered timeout has not expired");
        break;
      }
      case 2: {
        uint32_t p = c.pick({0u, 1u, 60u, 250000u});  k.t->period(p);  k.period = p;
        c.probe(P_PERIOD_CHANGE);  c.ev("timer %d period %u", (int) (&k - t), p);
        if (k.t->period() != p || k.t->enabled() != (p > 0)) c.fail("period", "period() or enabled() is wrong");
        break;
      }
      case 3: {     // Move to the edge of the timeout.
        if (!k.marked || k.period == 0 || k.period > 10000000) break;
        uint32_t el = now(k.ms) - k.lo;
        if (el + 2 < k.period) {  c.advance((uint64_t) (k.period - el - c.draw(3)) * (k.ms ? 1000 : 1));  c.probe(P_EDGE);  }
        break;
      }
      default: {
        if (!k.marked) break;
        bool ask_exp = c.chance(1, 2);
        uint32_t mx = 0;  bool e = false;
        preempt = c.chance(1, 3) ? 1 + c.draw(2) : 0;
        uint32_t el0 = a - k.hi;
        if ((int32_t) el0 < 0 && (uint32_t) (k.hi - k.lo) >= (uint32_t) (0 - el0)) el0 = 0;
        if (ask_exp) e = k.t->expired();  else mx = k.t->remaining();
        preempt = 0;
        uint32_t el1 = now(k.ms) - k.lo;
        if (el1 < el0) {  k.marked = false;  break;  }   // More than the counter's range has gone by.
        bool may_exp = (el1 >= k.period), may_pend = (el0 < k.period);
        if (may_exp && may_pend) {  c.probe(P_STRADDLE);  straddled = true;  }
        if (ask_exp) {
          c.ev("timer %d expired() = %d (elapsed %u..%u of %u)", (int) (&k - t), e, el0, el1, k.period);
          if (e && !may_exp) c.fail("expired-early", "a timeout of %u says it expired after at most %u", k.period, el1);
          if (!e && !may_pend) c.fail("expired-late", "a timeout of %u has not expired after at least %u", k.period, el0);
          c.probe(e ? P_EXPIRED : P_PENDING);
        }
        else {
          uint32_t most = may_pend ? k.period - el0 : 0, least = (el1 < k.period) ? k.period - el1 : 0;
          c.ev("timer %d remaining() = %u (elapsed %u..%u of %u)", (int) (&k - t), mx, el0, el1, k.period);
          if (mx > most || mx < least) c.fail("remaining", "a timeout of %u says %u remain, after between %u and %u", k.period, mx, el0, el1);
        }
        if (k.period == 0) c.probe(P_PERIOD0);
        c.nontrivial();
      }
    }
  }
  void lap(W& k, uint32_t least, uint32_t most) {
    uint32_t l = k.w->lastTime();
    c.ev("watch %d measured %u (%u..%u)", (int) (&k - w), l, least, most);
    if (l < least || l > most) {  c.fail("lap", "a lap of between %u and %u was measured as %u", least, most, l);  return;  }
    k.n++;  k.total += l;  k.last = l;
    if (l < k.best) k.best = l;
    if (l > k.worst) k.worst = l;
    k.started = false;
    c.nontrivial();
  }
  void watch(W& k) {
    uint32_t a = now(false);
    switch (c.draw(6)) {
      case 0: case 1: k.w->markStart();  k.lo = a;  k.hi = now(false);  k.started = true;  break;
      case 2: case 3: {
        bool r = k.w->markStop();
        if (r != k.started && !k.unknown) {  c.fail("stop", "markStop() of a watch that was %sstarted returned %d", k.started ? "" : "not ", r);  return;  }
        uint32_t least = a - k.hi, most = now(false) - k.lo;
        // A start at zero may be nudged by one, since zero is how a watch knows that it was not started.
        if (k.hi < k.lo || k.lo == 0) {  if (least) least--;  most++;  }
        if (r && least <= most) lap(k, least, most);
        else if (r) {  k.n++;  k.total = k.w->totalTime();  k.best = k.w->bestTime();  k.worst = k.w->worstTime();  k.last = k.w->lastTime();  }   // Longer than the counter.
        else c.probe(P_UNSTARTED);
        c.probe(P_LAP, r);
        k.started = k.unknown = false;
        break;
      }
      case 4: {
        uint32_t s = c.pick({1u, 1000u, 0xFFFFFFF0u, 0x7FFFFFFFu}) + c.draw(16), d = c.pick({0u, 1u, 100u, 4000000000u}) + c.draw(3);
        if (!k.w->addRuntime(s, s + d)) c.fail("add", "addRuntime() failed");
        else lap(k, d, d);
        if (k.started) k.unknown = true;
        k.started = false;
        c.probe(P_ADD);
        break;
      }
      case 5: if (c.chance(1, 4)) {
        k.w->reset();  k.n = 0;  k.total = 0;  k.best = 0xFFFFFFFF;  k.worst = 0;  k.last = 0;
        if (k.started) k.unknown = true;
        c.ev("watch %d reset", (int) (&k - w));
      }
      break;
    }
    if (c.failed()) return;
    StopWatch* x = k.w;
    if (x->executions() != k.n) c.fail("count", "%u laps counted; %u made", x->executions(), k.n);
    else if (x->totalTime() != (uint32_t) k.total) c.fail("total", "total of %u; %u expected", x->totalTime(), (uint32_t) k.total);
    else if (k.n && (x->bestTime() != k.best || x->worstTime() != k.worst)) c.fail("extremes", "best %u worst %u; %u and %u expected", x->bestTime(), x->worstTime(), k.best, k.worst);
    else if (x->lastTime() != k.last) c.fail("last", "last lap of %u; %u expected", x->lastTime(), k.last);
    else if (!k.n && (x->worstTime() || x->meanTime())) c.fail("no-laps", "a watch without laps reports a worst of %u and a mean of %u", x->worstTime(), x->meanTime());
    else if (k.n && k.total <= 0xFFFFFFFFull && x->meanTime() != (uint32_t) (k.total / k.n)) c.fail("mean", "mean of %u; %u expected", x->meanTime(), (uint32_t) (k.total / k.n));
  }

  void run() {
    uint64_t s = 5000000ull;
    switch (c.draw(4)) {
      case 1: s = 0x100000000ull * (1 + c.draw(3)) - c.draw(c.pick({5u, 400000u}));  c.fault(F_WRAP_US);  break;
      case 2: s = 0x100000000ull * 1000 - c.draw(c.pick({5000u, 400000000u}));  c.fault(F_WRAP_MS);  break;
      case 3: s = 0x80000000ull - c.draw(400000);  break;
    }
    set_clock(s);
    c.read_cost_us = c.pick({0u, 0u, 1u, 40u, 700u});
    c.on_clock_read = [&]() {
      if (preempt) {  preempt--;  c.advance(c.draw(c.pick({3u, 3000u, 200000u})));  c.fault(F_PREEMPT);  }
    };
    nt = 1 + c.draw(6);  nw = 1 + c.draw(4);
    for (uint32_t i = 0; i < nt; i++) {
      t[i].ms = c.chance(1, 2);  t[i].period = c.pick({0u, 1u, 3u, 500u, 1000000u});
      t[i].t = t[i].ms ? (PeriodicTimeout*) new MillisTimeout(t[i].period) : (PeriodicTimeout*) new MicrosTimeout(t[i].period);
      if (t[i].t->period() != t[i].period || t[i].t->enabled() != (t[i].period > 0)) {  c.fail("period", "period() or enabled() is wrong from the start");  return;  }
    }
    for (uint32_t i = 0; i < nw; i++) {
      w[i].w = new StopWatch(i);
      if (w[i].w->tag() != i) c.fail("tag", "tag() is wrong");
    }
    c.plan_ops(10 + c.draw(80));
    while (c.next_op() && !c.failed()) {
      c.step();
      switch (c.draw(4)) {
        case 0: {
          uint32_t us = c.draw(c.pick({3u, 3000u, 100000u, 100000000u}));
          if (c.chance(1, 30)) {  us = 1000000000u + c.draw(2000000000u);  c.fault(F_LONG);  }
          c.advance(us);
          break;
        }
        case 1: case 2: timer(t[c.draw(nt)]);  break;
        case 3: preempt = c.chance(1, 4) ? 1 : 0;  watch(w[c.draw(nw)]);  preempt = 0;  break;
      }
      uint64_t h = 0;
      for (uint32_t i = 0; i < nt; i++) {  uint32_t el = now(t[i].ms) - t[i].hi;  h = h * 4 + (!t[i].marked ? 0 : el < t[i].period ? 1 : el == t[i].period ? 2 : 3);  }
      for (uint32_t i = 0; i < nw; i++) h = h * 2 + w[i].started;
      c.state(h);
    }
    c.begin_tail();
    for (uint32_t i = 0; i < nt; i++) delete t[i].t;
    for (uint32_t i = 0; i < nw; i++) delete w[i].w;
  }
};
void run(Ctx& c) {  Run r(c);  r.run();  c.on_clock_read = nullptr;  }
}

Harness g_harness = {
  "S02",
  "One run: up to 6 timeouts and 4 stopwatches on the simulated clock, which starts near a wrap of the microsecond or millisecond counter in half of runs, costs time to read, and may leap "
  "(preemption) at any read. Non-trivial: a question was asked of an armed timeout, or a lap was measured. Distinct by event log.",
  run,
  {"preempted at a clock read", "microsecond counter near wrap", "millisecond counter near wrap", "idle for over a thousand seconds"},
  {"expired", "pending", "moved to the edge of a timeout", "triggered", "period of zero", "timeout straddled by one call", "lap", "stop without a start", "runtime added", "period changed"},
  {"PeriodicTimeout", "MillisTimeout", "MicrosTimeout", "StopWatch", "millis_since() and kin"},
  {"clock"},
  "per-timer phase and per-watch running state, consecutive pairs",
  {}, 20000, 400000
};
