/* N01: the pseudo-random source is repeatable, is the one it says it is, and fills what it was given. */
#include "sb.h"
#include <memory>
#include "CppPotpourri.h"
using namespace sim;

namespace {
enum {  F_STUCK, F_REBOOT, F_WRAP  };
enum {  P_SEEDED, P_TIMED, P_TIMED_SAME, P_TIMED_APART, P_REPEAT, P_TAIL, P_EMPTY, P_WORDS, P_LARGE, P_BOOL, P_SINGLES  };

// As published: https://www.pcg-random.org
struct Pcg {
  uint64_t state = 0, inc = 0;
  uint32_t next() {
    uint64_t old = state;
    state = old * 6364136223846793005ULL + inc;
    uint32_t x = (uint32_t) (((old >> 18) ^ old) >> 27), r = (uint32_t) (old >> 59);
    return r ? (x >> r) | (x << (32 - r)) : x;
  }
  void seed(uint64_t s, uint64_t seq) {  state = 0;  inc = seq << 1 | 1;  next();  state += s;  next();  }
};

struct Gen {
  C3P_pRNG rng;
};

struct Run {
  Ctx& c;
  Gen g[3];
  Run(Ctx& x) : c(x) {}

  // LEN bytes, in a place that is exactly as long.
  std::string fill(Gen& n, uint32_t len) {
    std::unique_ptr<uint8_t[]> b(new uint8_t[len + 1]);
    // Starts at any alignment; ends where the allocation does.
    memset(b.get(), 0xA5, len + 1);
    bool off = c.chance(1, 2);
    std::unique_ptr<uint8_t[]> exact(off ? nullptr : new uint8_t[len ? len : 1]);
    uint8_t* p = off ? b.get() + 1 : exact.get();
    int8_t r = n.rng.fill(p, len);
    if (r != 0) c.fail("random-code", "fill() of %u returned %d", len, r);
    if (off && b[0] != 0xA5) c.fail("random-bounds", "fill() of %u wrote ahead of what it was given", len);
    return std::string((const char*) p, len);
  }
  // The words of the reference. Whether one more is drawn after a whole number of them is nobody's
  // business; until that shows, the reference is in either of two places.
  void match(int i, const std::string& s, const char* what) {
    if (c.failed()) return;
    std::vector<Pcg> left;
    for (Pcg p : at[i]) {
      std::string want;
      while (want.size() < s.size()) {  uint32_t w = p.next();  for (int k = 0; k < 4 && want.size() < s.size(); k++) want += (char) (w >> (8 * k));  }
      if (want != s) continue;
      bool dup = false;
      for (Pcg& q : left) dup |= q.state == p.state;
      if (!dup) left.push_back(p);
      if (s.size() % 4) continue;
      p.next();
      left.push_back(p);
    }
    if (left.empty()) return c.fail("random-stream", "%s of generator %d is [%s], which is not what its seed gives", what, i, sb::show(s).c_str());
    if (left.size() > 8) {  left.clear();  seed(i, 77);  return;  }
    at[i] = left;
  }
  std::vector<Pcg> at[3];
  void seed(int i, uint64_t s) {
    g[i].rng.init(s);
    Pcg p;
    p.seed(s, 7);
    at[i] = {p};
  }
  void go() {
    c.read_cost_us = c.pick({0u, 0u, 1u, 3u});
    if (c.chance(1, 4)) {  set_clock(0xFFFFFFFFull - c.draw(4000));  c.fault(F_WRAP);  }
    for (int i = 0; i < 3; i++) seed(i, 1 + c.draw(5));
    c.plan_ops(40);
    while (c.next_op() && !c.failed()) {
      int i = (int) c.draw(3);
      uint32_t kind = c.draw(9);
      switch (kind) {
        case 0: {
          uint64_t s = c.chance(1, 2) ? 1 + c.draw(4) : ((uint64_t) c.draw(0xFFFFFFFFu) << 32 | c.draw(0xFFFFFFFFu)) | 1;
          seed(i, s);
          c.ev("seed %d with %llx", i, (unsigned long long) s);
          c.probe(P_SEEDED);
          break;
        }
        case 1: {                        // Two that are seeded by the clock.
          int j = (i + 1) % 3;
          bool stuck = c.chance(1, 4);
          uint64_t at = c.now_us;
          g[i].rng.init();
          uint64_t apart = stuck ? 0 : c.pick({0u, 1u, 2u, 50u, 1000u, 100000u});
          if (stuck) {  c.fault(F_STUCK);  set_clock(at);  }
          else c.advance(apart);
          g[j].rng.init(0);
          std::string a = fill(g[i], 16), b = fill(g[j], 16);
          c.ev("seeded by the clock: %s %s", sb::show(a).c_str(), sb::show(b).c_str());
          c.probe(P_TIMED);
          if (stuck) {                   // The same times: the same program.
            c.probe(P_TIMED_SAME);
            if (a != b) c.fail("random-repeat", "with the same clock, two generators began differently");
          }
          else if (a == b) c.fail("random-apart", "generators that were seeded at different times began alike");
          else c.probe(P_TIMED_APART);
          seed(i, 3);  seed(j, 4);
          break;
        }
        case 2: {                        // A restart repeats it all.
          uint64_t s = 1 + c.draw(1000);
          c.fault(F_REBOOT);
          std::string a, b;
          uint32_t n = 1 + c.draw(6), sizes[8];
          Gen x, y;
          x.rng.init(s);  y.rng.init(s);
          for (uint32_t k = 0; k < n; k++) {  sizes[k] = c.draw(30);  a += fill(x, sizes[k]);  }
          for (uint32_t k = 0; k < n; k++) b += fill(y, sizes[k]);
          c.probe(P_REPEAT);
          c.ev("repeat %llu: %u bytes", (unsigned long long) s, (unsigned) a.size());
          if (a != b) c.fail("random-repeat", "the same seed and the same requests gave different bytes");
          break;
        }
        case 3: {
          std::string s;
          switch (c.draw(4)) {
            case 0: {  uint8_t v = g[i].rng.randomUInt8();  s.assign((char*) &v, 1);  break;  }
            case 1: {  uint16_t v = g[i].rng.randomUInt16();  s.assign((char*) &v, 2);  break;  }
            case 2: {  uint32_t v = g[i].rng.randomUInt32();  s.assign((char*) &v, 4);  break;  }
            default: {  uint64_t v = g[i].rng.randomUInt64();  s.assign((char*) &v, 8);  break;  }
          }
          c.probe(P_SINGLES);
          c.ev("draw %s", sb::show(s).c_str());
          match(i, s, "a number");
          break;
        }
        case 4: {                        // A fair coin, more or less.
          int n = 0;
          for (int k = 0; k < 400; k++) n += g[i].rng.randomBool();
          c.probe(P_BOOL);
          c.ev("coin %d", n);
          if (n < 100 || n > 300) c.fail("random-coin", "a coin came up %d times in 400", n);
          seed(i, 1 + c.draw(9));
          break;
        }
        default: {
          uint32_t len = c.pick({0u, 1u, 2u, 3u, 4u, 5u, 7u, 8u, 16u, 33u, 256u, 1003u});
          if (len == 0) c.probe(P_EMPTY);
          if (len % 4) c.probe(P_TAIL);
          else if (len) c.probe(P_WORDS);
          if (len > 255) c.probe(P_LARGE);
          std::string s = fill(g[i], len);
          c.ev("fill %d with %u: %s", i, len, sb::show(s.substr(0, 8)).c_str());
          match(i, s, "a fill");
          break;
        }
      }
      c.step();
      c.state(hash64(kind, at[0].size() + 16 * at[1].size() + 256 * at[2].size()) ^ c.now_us % 7);
    }
    c.nontrivial();
  }
};

void run(Ctx& c) {
  size_t before = heap_in_use();
  {
    Run r(c);
    r.go();
  }
  if (!c.failed() && heap_in_use() != before) c.fail("random-leak", "something remains");
}
}  // namespace

sim::Harness g_harness = {
  "N01",
  "Generators are seeded, by number and by a clock (that runs, wraps, or is stuck), restarted, and asked for fills of any length and alignment and for numbers of every width; every byte is compared with the published algorithm. Non-trivial: every run. Distinct by event log.",
  run,
  {"stuck clock", "restart", "clock at its wrap"},
  {"seeded by number", "seeded by the clock", "seeded at the same time", "seeded at different times", "repeated", "odd bytes", "nothing asked", "whole words", "large fill", "coin", "single numbers"},
  {"CppPotpourri.cpp (C3PRandom, C3P_pRNG)"},
  {"platform (clock)"},
  "operation and what each generator may have drawn in advance",
  {}, 12000, 400000
};
