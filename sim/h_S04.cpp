/* S04: the state machine. States are entered one at a time, in the order planned; what is refused leaves no trace. */
#include "engine.h"
#include "platform.h"
#include "FiniteStateMachine.h"
#include <deque>
using namespace sim;

namespace {
enum {  F_REFUSE, F_BAD, F_OVERFLOW, F_WRAP, F_REROUTE  };
enum {  P_ENTER, P_LOCKED, P_TRUNC, P_PREPEND, P_RESET, P_FULL, P_SLOW, P_EMPTY  };
enum class S : uint8_t {  A = 0, B, C, D, E, F, G, BAD = 100, INVALID = 255  };
const EnumDef<S> DEFS[] = {
  {S::A, "A"}, {S::B, "B"}, {S::C, "C"}, {S::D, "D"}, {S::E, "E"}, {S::F, "F"}, {S::G, "G"},
  {S::INVALID, "INVALID", (ENUM_FLAG_MASK_INVALID_CATCHALL)}
};
const EnumDefList<S> LIST(&DEFS[0], sizeof(DEFS) / sizeof(DEFS[0]), "S");

struct Run;
struct Fsm : public StateMachine<S> {
  Run* r;
  Fsm(Run* x, uint32_t depth) : StateMachine<S>("f", &LIST, S::A, depth), r(x) {}
  int8_t _fsm_poll() override {  return _fsm_advance();  }
  int8_t _fsm_set_position(S) override;
  using StateMachine<S>::_fsm_set_route;     using StateMachine<S>::_fsm_append_route;  using StateMachine<S>::_fsm_append_state;
  using StateMachine<S>::_fsm_prepend_state; using StateMachine<S>::_fsm_advance;       using StateMachine<S>::_fsm_reset;
  using StateMachine<S>::_fsm_lockout;       using StateMachine<S>::_fsm_is_waiting;    using StateMachine<S>::_fsm_pos_next;
  using StateMachine<S>::_fsm_is_next_pos;   using StateMachine<S>::_fsm_is_stable;     using StateMachine<S>::_fsm_slowdown;
  using StateMachine<S>::_fsm_state_planned; using StateMachine<S>::_fsm_mark_current_state;
};

struct Run {
  Ctx& c;
  Fsm* f = nullptr;
  uint32_t depth = 0, slow = 0, calls = 0;
  std::deque<uint8_t> q;
  uint8_t cur = 0, prior = 0, entering = 0;
  bool in_entry = false, quiet = false, may_wait = false;   // may_wait: after a reset, whether it waits is not promised.
  uint32_t lock_at = 0, lock_p = 0;
  int8_t want = 0;
  Run(Ctx& x) : c(x) {}
  uint32_t ms() {  return (uint32_t) (c.now_us / 1000);  }
  uint32_t remaining() {  uint32_t e = ms() - lock_at;  return e < lock_p ? lock_p - e : 0;  }
  uint8_t state() {  return c.chance(1, 12) ? (uint8_t) c.pick({S::BAD, S::INVALID}) : (uint8_t) c.draw(7);  }
  static bool valid(uint8_t s) {  return s < 7;  }
  void lockout(uint32_t x) {  f->_fsm_lockout(x);  lock_at = ms();  lock_p = x;  may_wait = false;  }

  void route(bool append) {
    uint32_t n = c.draw(10);
    uint8_t s[10];
    for (uint32_t i = 0; i < n; i++) s[i] = state();
    if (in_entry && n > 0 && s[0] == entering) s[0] = (s[0] + 1) % 7;
    // A route is truncated to the room there is.
    uint32_t room = append ? depth - (uint32_t) q.size() : depth, k = n < room ? n : room;
    bool bad = false;
    for (uint32_t i = 0; i < k; i++) bad |= !valid(s[i]);
    for (uint32_t i = n; i < 10; i++) s[i] = 0;
    int8_t r;
    #define ARGS (S) s[0], (S) s[1], (S) s[2], (S) s[3], (S) s[4], (S) s[5], (S) s[6], (S) s[7], (S) s[8], (S) s[9]
    if (append) r = f->_fsm_append_route((int) n, ARGS);
    else r = f->_fsm_set_route((int) n, ARGS);
    c.ev("%s%s of %u: %d %d %d.. = %d", in_entry ? "  " : "", append ? "append" : "set", n, s[0], s[1], s[2], r);
    int8_t e = (k == 0) ? -1 : bad ? -2 : 0;
    if (r != e) c.fail("route-return", "a route of %u, with room for %u,%s returned %d", n, room, bad ? " containing an invalid state," : "", r);
    if (bad) c.fault(F_BAD);
    if (k < n) {  c.fault(F_OVERFLOW);  c.probe(P_TRUNC);  }
    if (e == 0) {  if (!append) q.clear();  for (uint32_t i = 0; i < k; i++) q.push_back(s[i]);  }
    if (in_entry && !append && e == 0) c.fault(F_REROUTE);
  }
  void single(bool front) {
    uint8_t s = state();
    int8_t r = front ? f->_fsm_prepend_state((S) s) : f->_fsm_append_state((S) s);
    int8_t e = !valid(s) ? -1 : q.size() >= depth ? -2 : 0;
    c.ev("%s%s %d = %d", in_entry ? "  " : "", front ? "prepend" : "append", s, r);
    if ((r == 0) != (e == 0)) c.fail("single-return", "%s of state %d with %u of %u planned returned %d", front ? "prepend" : "append", s, (unsigned) q.size(), depth, r);
    if (e == -2) c.probe(P_FULL);
    if (e == -1) c.fault(F_BAD);
    if (e == 0) {  if (front) {  q.push_front(s);  c.probe(P_PREPEND);  } else q.push_back(s);  }
  }
  int8_t entry(S s) {
    calls++;
    c.ev("  entry to %d", (int) s);
    if (q.empty() || q.front() != (uint8_t) s) {  c.fail("order", "entered %d; %d was next", (int) s, q.empty() ? -1 : q.front());  return 0;  }
    if ((uint8_t) f->currentState() != cur) c.fail("premature", "the state changed ahead of its entry");
    int8_t r = (!quiet && c.chance(1, 4)) ? (int8_t) c.pick({-1, 1}) : 0;
    if (r != 0) {  c.fault(F_REFUSE);  return r;  }
    q.pop_front();       // What is planned from here on follows this state.
    entering = (uint8_t) s;
    if (!quiet) {
      // The machine is still at the head of its own plan, so appending has one less place until this returns.
      switch (c.draw(6)) {
        case 0: {  in_entry = true;  route(false);  in_entry = false;  break;  }
        case 1: lockout(c.draw(500));  break;
        default: break;
      }
    }
    return 0;
  }
  void advance() {
    bool any = !q.empty();
    uint8_t nx = any ? q.front() : 0;
    size_t before = q.size();
    calls = 0;
    want = 0;
    uint32_t f0 = c._shm->faults[F_REFUSE];
    int8_t r = f->_fsm_advance();
    bool refused = (f0 != c._shm->faults[F_REFUSE]);
    if (c.failed()) return;
    c.step();
    c.ev("advance = %d", r);
    if (calls != (any ? 1u : 0u)) c.fail("entries", "one advance made %u state entries", calls);
    else if ((r == 0) != (any && !refused)) c.fail("advance-return", "advance returned %d", r);
    if (!any) c.probe(P_EMPTY);
    if (any && !refused) {
      prior = cur;  cur = nx;
      c.probe(P_ENTER);  c.nontrivial();
      if (slow) {
        uint32_t rem = remaining();
        if (may_wait) {  if (f->_fsm_lockout() > rem) rem = f->_fsm_lockout();  }   // Adopted below, within bounds.
        lock_p = slow > rem ? slow : rem;  lock_at = ms();  may_wait = false;  c.probe(P_SLOW);
      }
    }
    (void) before;
  }
  void check() {
    if ((uint8_t) f->currentState() != cur) c.fail("current", "the state is %d; %d expected", (int) f->currentState(), cur);
    else if ((uint8_t) f->priorState() != prior) c.fail("prior", "the prior state is %d; %d expected", (int) f->priorState(), prior);
    else if (f->_fsm_is_stable() != q.empty()) c.fail("stable", "is_stable() is %d with %u states planned", !q.empty(), (unsigned) q.size());
    else if (!q.empty() && (uint8_t) f->_fsm_pos_next() != q.front()) c.fail("next", "the next state is %d; %d expected", (int) f->_fsm_pos_next(), q.front());
    for (int s = 0; s < 7 && !c.failed(); s++) {
      bool p = false;
      for (auto x : q) p |= (x == s);
      if (f->_fsm_state_planned((S) s) != p) c.fail("planned", "state %d is %splanned", s, p ? "" : "not ");
      if (f->_fsm_is_next_pos((S) s) != (!q.empty() && q.front() == s)) c.fail("is-next", "is_next_pos(%d) is wrong", s);
    }
    if (c.failed()) return;
    uint32_t rem = remaining();
    uint32_t got = f->_fsm_lockout();
    if (may_wait) {  if (got > lock_p) c.fail("lockout", "locked for %u after a reset; the lockout was %u", got, lock_p);  }
    else if (got != rem) c.fail("lockout", "locked for another %u ms; %u expected", got, rem);
    else if (f->_fsm_is_waiting() != (rem > 0)) c.fail("waiting", "is_waiting() is wrong with %u ms remaining", rem);
    if (rem) c.probe(P_LOCKED);
  }
  void run() {
    uint64_t s = 5000000ull;
    if (c.chance(1, 3)) {  s = 0x100000000ull * 1000 - c.draw(3000000);  c.fault(F_WRAP);  }
    set_clock(s);
    depth = 1 + c.draw(c.pick({3u, 8u, 12u}));
    f = new Fsm(this, depth);
    c.plan_ops(8 + c.draw(60));
    while (c.next_op() && !c.failed()) {
      switch (c.draw(12)) {
        case 0: route(false);  break;
        case 1: route(true);  break;
        case 2: single(false);  break;
        case 3: single(true);  break;
        case 4: if (c.chance(1, 3)) {
          uint8_t n = (uint8_t) c.draw(7);
          f->_fsm_reset((S) n);
          prior = cur;  cur = n;  q.clear();  may_wait = true;
          c.probe(P_RESET);  c.ev("reset to %d", n);
        }
        break;
        case 5: {  slow = c.pick({0u, 0u, 10u, 400u});  f->_fsm_slowdown(slow);  if (f->_fsm_slowdown() != slow) c.fail("slowdown", "slowdown() is wrong");  c.ev("slowdown %u", slow);  break;  }
        case 6: lockout(c.draw(c.pick({20u, 1000u})));  break;
        case 7: c.advance(c.draw(c.pick({2000u, 50000u, 800000u})));  break;
        case 8: if (c.chance(1, 6)) {  uint8_t n = (uint8_t) c.draw(7);  f->_fsm_mark_current_state((S) n);  prior = cur;  cur = n;  c.ev("marked at %d", n);  }  break;
        default: advance();  break;
      }
      if (!c.failed()) check();
      c.state(q.size() | cur << 8 | (remaining() > 0) << 16 | (uint64_t) (q.empty() ? 9 : q.front()) << 20);
    }
    if (c.failed()) return;
    c.begin_tail();  quiet = true;
    // The plan is followed to its end.
    while (!q.empty() && !c.failed()) {  advance();  if (!c.failed()) check();  }
    if (!c.failed()) {  advance();  check();  }
    delete f;
  }
};
int8_t Fsm::_fsm_set_position(S s) {  return r->entry(s);  }
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  }
}

Harness g_harness = {
  "S04",
  "One run: a machine of seven states and a plan of 1 to 12 entries, driven through routes set, appended and prepended (some too long, some with invalid states), entries that refuse, entries that plan anew, "
  "lockouts, slowdowns, resets and clock advances. Non-trivial: a state was entered. Distinct by event log.",
  run,
  {"state entry refused", "invalid state", "route too long for the plan", "millisecond counter wraps", "route set during a state entry"},
  {"entry", "locked out", "route truncated", "prepend", "reset", "plan full", "slowdown", "nothing planned"},
  {"StateMachine", "EnumDefList", "RingBuffer", "MillisTimeout"},
  {"clock", "the extending class"},
  "plan length, current and next state, lockout, consecutive pairs",
  {}, 20000, 400000
};
