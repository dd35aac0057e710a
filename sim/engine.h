/*
* Deterministic simulation engine.
*
* One run = one forked process executing a harness against the real CppPotpourri
* code. Every choice the run makes (operations, schedule, clock advance, fault
* placement, payloads) comes from Ctx::draw(). In generation mode draw() is fed
* by one PRNG seeded from (VERIF_SEED, property, run index). Draws are recorded
* as <prefix | op 0 | op 1 | ... | tail> so that a failing run is minimised by
* deleting whole operations and shrinking values, and replayed from the file.
*/
#pragma once
// What /repo's headers may come to use, and the sources that include them there happen to supply.
#include <ctype.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

constexpr unsigned MAX_FAULTS = 24;
constexpr unsigned MAX_PROBES = 64;
constexpr unsigned MAX_STATES = 4096;
constexpr unsigned MAX_CHOICES = 1u << 19;
constexpr unsigned MAX_OPS = 1u << 15;

struct Shm {                         // One per worker, written by the child.
  volatile int32_t status;           // 0 = running, 1 = finished, 2 = violation
  char     cls[64];
  char     msg[1024];
  uint64_t hash;                     // Hash over the event log.
  uint64_t sim_us;
  uint32_t steps;
  uint32_t ops;
  uint32_t nontrivial;
  uint32_t faults[MAX_FAULTS];
  uint32_t probes[MAX_PROBES];
  uint32_t nstates;
  uint64_t states[MAX_STATES];
  uint32_t n_choices;
  uint32_t n_ops;                    // Number of op starts.
  uint32_t tail_at;                  // Index of first tail choice (or ~0).
  uint32_t op_start[MAX_OPS];
  uint32_t choices[MAX_CHOICES];
};

struct Choices {
  std::vector<uint32_t> prefix;
  std::vector<std::vector<uint32_t>> ops;
  std::vector<uint32_t> tail;
};

class Ctx {
  public:
    // ---- choices -----------------------------------------------------------
    uint32_t draw(uint32_t n);                   // [0, n). n==0 -> 0
    bool     chance(uint32_t num, uint32_t den); // recorded as 0/1, 0 = no.
    uint32_t range(uint32_t lo, uint32_t hi) {  return lo + draw(hi - lo + 1);  }
    template <class T> T pick(std::initializer_list<T> l) {
      return *(l.begin() + draw((uint32_t) l.size()));
    }
    uint64_t salt();                             // Not recorded: pure function of the run config.
    bool     next_op();                          // Begin another operation?
    void     begin_tail();                       // Draws after this are for drain.
    void     plan_ops(uint32_t n) {  _planned = n;  }

    // ---- reporting ---------------------------------------------------------
    void ev(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    bool failed() const {  return _failed;  }
    void fault(unsigned kind, uint32_t n = 1);
    void probe(unsigned id, uint32_t n = 1);
    void state(uint64_t h);                      // Abstract state; transitions are counted.
    void step() {  _shm->steps++;  }
    void nontrivial() {  _shm->nontrivial = 1;  }
    bool tracing() const {  return _tracefd >= 0;  }

    // ---- simulated clock ---------------------------------------------------
    uint64_t now_us       = 0;   // Absolute simulated time.
    uint32_t read_cost_us = 0;   // Time consumed by each clock read.
    void advance(uint64_t us) {  now_us += us;  }
    std::function<void()> on_clock_read;         // Interrupt injection point.

    // internal
    Shm*  _shm = nullptr;
    bool  _replay = false;
    Choices _rc;
    int  _tracefd = -1;
    uint64_t _s[4];
    uint32_t _planned = 40;
    bool _failed = false;
    int  _section = 0;     // 0 prefix, 1 op, 2 tail
    size_t _cur_op = 0, _pos = 0;
    uint64_t _start_us = 0, _last_state = 0;
    uint64_t _salt = 0;
    uint32_t raw();
};

struct Harness {
  const char* property;
  const char* rule;                     // What a case is, and what makes one non-trivial.
  void (*run)(Ctx&);
  std::vector<const char*> faults;
  std::vector<const char*> probes;
  std::vector<const char*> real_components;
  std::vector<const char*> stub_components;
  const char* state_measure;
  // Scripted demonstrations of known findings; each returns true if still present.
  struct Finding { const char* id; const char* text; bool (*reproduces)(); };
  std::vector<Finding> findings;
  uint32_t quick_runs;
  uint32_t thorough_runs;
};

extern Ctx* g;                          // The running context (platform stubs use it).
extern bool g_in_harness_alloc;

// Allocator faults (through --wrap=malloc); counted down while armed.
extern int32_t g_malloc_fail_in;        // -1 = disarmed; 0 = fail the next one.
extern uint32_t g_malloc_failed;        // How many were failed.
extern bool     g_malloc_fail_sticky;
extern size_t   g_malloc_limit;         // If not 0, no allocation may be larger.
size_t heap_in_use();                   // ASan allocator's live bytes.

uint64_t hash64(uint64_t a, uint64_t b);
int engine_main(int argc, char** argv, Harness& h);
std::string hex(const uint8_t* b, size_t n, size_t max = 48);
}

// Harness files define exactly one of these.
extern sim::Harness g_harness;
