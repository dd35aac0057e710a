/* S05: calendar time, as text, names the second that it should. */
#include "sb.h"
#include <memory>
#include "CppPotpourri.h"
using namespace sim;

namespace {
enum {  F_JUMP, F_BACK, F_DAMAGE  };
enum {  P_LEAP_DAY, P_MARCH_LEAP, P_JANUARY, P_YEAR_END, P_CENTURY, P_EPOCH, P_LAST, P_REFUSED, P_OTHER, P_NEXT, P_TRAILING  };

const uint64_t LAST = 4102444799ull;     // 2099-12-31T23:59:59Z

bool leap(int y) {  return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;  }
int days_in(int y, int m) {  static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};  return D[m - 1] + (m == 2 && leap(y));  }
struct When {  int y = 1970, mo = 1, d = 1, h = 0, mi = 0, s = 0;  };

// Counted out, year by year and month by month.
When civil(uint64_t t) {
  When w;
  w.s = (int) (t % 60);  t /= 60;
  w.mi = (int) (t % 60);  t /= 60;
  w.h = (int) (t % 24);  t /= 24;
  while (t >= (uint64_t) (365 + leap(w.y))) t -= 365 + leap(w.y++);
  while (t >= (uint64_t) days_in(w.y, w.mo)) t -= days_in(w.y, w.mo++);
  w.d = (int) t + 1;
  return w;
}
uint64_t seconds(const When& w) {
  uint64_t d = 0;
  for (int y = 1970; y < w.y; y++) d += 365 + leap(y);
  for (int m = 1; m < w.mo; m++) d += days_in(w.y, m);
  return ((d + w.d - 1) * 24 + w.h) * 3600 + w.mi * 60 + w.s;
}
std::string iso(const When& w) {
  char b[40];
  snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", w.y, w.mo, w.d, w.h, w.mi, w.s);
  return b;
}
// Exactly the bytes that it is entitled to.
uint64_t parse(Ctx& c, const std::string& s, bool more) {
  std::unique_ptr<char[]> b(new char[more ? 60 : 20]);
  if (more) memset(b.get(), '9', 60);
  memcpy(b.get(), s.data(), 20);
  std::string before(b.get(), 20);
  uint64_t t = stringToTimestamp(b.get());
  if (before != std::string(b.get(), 20)) c.fail("time-input", "[%s] was changed", before.c_str());
  return t;
}

void run(Ctx& c) {
  size_t heap = heap_in_use();
  {
    uint64_t now = 0;
    auto anywhere = [&]() -> uint64_t {
      switch (c.draw(5)) {
        case 0: return (uint64_t) c.draw(0xFFFFFFFFu) % (LAST + 1);
        case 1: {  When w;  w.y = 1970 + (int) c.draw(130);  w.mo = (int) c.pick({1, 2, 2, 3, 12});  w.d = c.chance(1, 2) ? 1 : days_in(w.y, w.mo);  if (c.chance(1, 2)) {  w.h = 23;  w.mi = w.s = 59;  }  return seconds(w);  }
        case 2: {  When w;  w.y = 1970 + (int) c.draw(130);  w.mo = 1 + (int) c.draw(12);  w.d = 1 + (int) c.draw(days_in(w.y, w.mo));  w.h = (int) c.draw(24);  w.mi = (int) c.draw(60);  w.s = (int) c.draw(60);  return seconds(w);  }
        case 3: return c.pick({(uint64_t) 0, (uint64_t) 1, LAST, LAST - 86399, (uint64_t) 951782400, (uint64_t) 951868800, (uint64_t) 0x7FFFFFFF, (uint64_t) 0x80000000});
        default: return now;
      }
    };
    now = anywhere();
    c.plan_ops(40);
    while (c.next_op() && !c.failed()) {
      switch (c.draw(6)) {               // The wall clock runs, and is set.
        case 0: now = anywhere();  c.fault(F_JUMP);  break;
        case 1: {  uint64_t back = c.draw(200000);  now -= back < now ? back : now;  c.fault(F_BACK);  break;  }
        case 2: now += 86400;  break;
        case 3: now += 1 + c.draw(86400u * 31);  break;
        default: now++;  c.probe(P_NEXT);  break;
      }
      if (now > LAST) now = LAST;
      When w = civil(now);
      if (w.mo == 2 && w.d == 29) c.probe(P_LEAP_DAY);
      if (leap(w.y) && w.mo > 2) c.probe(P_MARCH_LEAP);
      if (w.mo == 1) c.probe(P_JANUARY);
      if (w.mo == 12 && w.d == 31) c.probe(P_YEAR_END);
      if (w.y == 2000) c.probe(P_CENTURY);
      if (now == 0) c.probe(P_EPOCH);
      if (now == LAST) c.probe(P_LAST);
      std::string s = iso(w);
      bool more = c.chance(1, 4);
      if (more) c.probe(P_TRAILING);
      if (seconds(w) != now) {  c.fail("harness", "the reference disagrees with itself about %s", s.c_str());  break;  }
      uint64_t got = parse(c, s, more);
      c.ev("%s %llu", s.c_str(), (unsigned long long) got);
      if (got != now) {  c.fail("time-value", "%s is %llu rather than %llu", s.c_str(), (unsigned long long) got, (unsigned long long) now);  break;  }
      if (c.chance(1, 2)) {              // The text is damaged on its way.
        c.fault(F_DAMAGE);
        std::string d = s;
        When x = w;
        bool bad = true;
        auto set = [&](int at, int n, int v) {  char b[16];  snprintf(b, sizeof b, n == 4 ? "%04d" : "%02d", v);  for (int i = 0; i < n; i++) d[at + i] = b[i];  };
        switch (c.draw(8)) {
          case 0: set(5, 2, c.pick({0, 13, 50, 99}));  break;
          case 1: set(8, 2, c.pick({0, 32, 99}));  break;
          case 2: set(11, 2, c.pick({24, 25, 99}));  break;
          case 3: set(14, 2, c.pick({60, 99}));  break;
          case 4: set(17, 2, c.pick({60, 61, 99}));  break;
          case 5: set(0, 4, c.pick({0, 1582, 1969}));  break;
          case 6: {  int at = (int) c.pick({8, 11, 14, 17});  d[at] = '-';  d[at + 1] = (char) ('1' + c.draw(9));  break;  }    // A sign, in place of a digit.
          default: {                     // Another valid time.
            bad = false;
            x.h = (int) c.draw(24);  x.mi = (int) c.draw(60);  x.s = (int) c.draw(60);
            d = iso(x);
            // Separators do not matter.
            for (int at : {4, 7, 10, 13, 16, 19}) if (c.chance(1, 3)) d[at] = (char) (1 + c.draw(255));
            break;
          }
        }
        uint64_t got2 = parse(c, d, c.chance(1, 4));
        c.ev("damaged: %s %llu", sb::show(d).c_str(), (unsigned long long) got2);
        if (bad && got2 != 0) c.fail("time-refused", "%s was taken to be %llu", d.c_str(), (unsigned long long) got2);
        if (!bad && got2 != seconds(x)) c.fail("time-value", "%s, with other separators, is %llu rather than %llu", iso(x).c_str(), (unsigned long long) got2, (unsigned long long) seconds(x));
        c.probe(bad ? P_REFUSED : P_OTHER);
      }
      c.step();
      c.state(hash64((uint64_t) w.y, (uint64_t) w.mo));
    }
    c.nontrivial();
  }
  if (!c.failed() && heap_in_use() != heap) c.fail("time-leak", "something remains");
}
}  // namespace

sim::Harness g_harness = {
  "S05",
  "A wall clock runs through 1970 to 2099, and is set forward and back, and to the edges of days, months, leap years and centuries; each reading of it, as ISO-8601 text, must convert to the second that a reference, which counts out the calendar, says it is; damaged text must be refused. Non-trivial: every run. Distinct by event log.",
  run,
  {"wall clock set elsewhere", "wall clock set back", "damaged text"},
  {"leap day", "after the leap day of a leap year", "January", "last day of a year", "year 2000", "epoch", "last second", "out of range refused", "another time, other separators", "next second", "text that goes on"},
  {"CppPotpourri.cpp (stringToTimestamp)"},
  {"the wall clock"},
  "year and month",
  {}, 20000, 400000
};
