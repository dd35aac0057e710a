/* R02: a series of samples or a stopwatch, sent as CBOR and read elsewhere, is the one that was sent; and goes on as it would have. */
#include "sb.h"
#include <memory>
#include <deque>
#include <algorithm>
#include "TimeSeries/TimeSeries.h"
#include "TimerTools/TimerTools.h"
#include "C3PValue/KeyValuePair.h"
#include "Image/ImageUtils.h"
using namespace sim;

namespace {
enum {  F_CUT, F_ALLOC, F_DAMAGE, F_FOREIGN, F_HOSTILE, F_MEMORY_OUT  };
enum {  P_SERIES, P_WATCH, P_FULL, P_PARTIAL, P_WRAPPED, P_SET, P_LISTENER, P_ORDER, P_UPDATE, P_REWINDOW, P_WENT_ON, P_REFUSED, P_NO_MEMORY, P_NAMED, P_WIDE, P_CATCHER, P_HUGE, P_LONG, P_UNITS  };

const TCode TYPES[] = {TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64, TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::FLOAT, TCode::DOUBLE};

#define BY_TYPE(tc, X) switch (tc) { \
  case TCode::UINT8: X(uint8_t) break; case TCode::UINT16: X(uint16_t) break; case TCode::UINT32: X(uint32_t) break; case TCode::UINT64: X(uint64_t) break; \
  case TCode::INT8: X(int8_t) break; case TCode::INT16: X(int16_t) break; case TCode::INT32: X(int32_t) break; case TCode::INT64: X(int64_t) break; \
  case TCode::FLOAT: X(float) break; default: X(double) break; }

template <class T> T from_bits(uint64_t b) {  T t;  memcpy(&t, &b, sizeof t);  return t;  }
template <class T> uint64_t to_bits(T t) {  uint64_t b = 0;  memcpy(&b, &t, sizeof t);  return b;  }
unsigned width(TCode tc) {  unsigned n = 0;
  #define X(T) n = sizeof(T);
  BY_TYPE(tc, X)
  #undef X
  return n;
}
TimeSeriesBase* make(TCode tc, uint32_t win) {  TimeSeriesBase* p = nullptr;
  #define X(T) p = new TimeSeries<T>(win);
  BY_TYPE(tc, X)
  #undef X
  return p;
}
int8_t feed(TimeSeriesBase* p, uint64_t b) {  int8_t r = 0;
  #define X(T) r = ((TimeSeries<T>*) p)->feedSeries(from_bits<T>(b));
  BY_TYPE(p->tcode(), X)
  #undef X
  return r;
}
uint64_t latest(TimeSeriesBase* p) {  uint64_t r = 0;
  #define X(T) r = to_bits<T>(((TimeSeries<T>*) p)->value());
  BY_TYPE(p->tcode(), X)
  #undef X
  return r;
}
/* The newest n samples, oldest first. */
bool newest(TimeSeriesBase* p, uint32_t n, std::vector<uint64_t>& out) {
  bool ok = false;
  out.clear();
  #define X(T) {  std::vector<T> b(n + 1);  ok = 0 == ((TimeSeries<T>*) p)->copyValues(b.data(), n, false);  if (ok) for (uint32_t i = 0; i < n; i++) out.push_back(to_bits<T>(b[i]));  }
  BY_TYPE(p->tcode(), X)
  #undef X
  return ok;
}
void extremes(TimeSeriesBase* p, uint64_t& lo, uint64_t& hi, uint64_t& mid) {
  #define X(T) {  TimeSeries<T>* s = (TimeSeries<T>*) p;  lo = to_bits<T>(s->minValue());  hi = to_bits<T>(s->maxValue());  mid = to_bits<T>(s->median());  }
  BY_TYPE(p->tcode(), X)
  #undef X
}

/* CBOR, by the book. */
void head(std::string& o, int major, uint64_t n) {
  major <<= 5;
  if (n < 24) o += (char) (major | n);
  else {
    int w = n < 0x100 ? 0 : n < 0x10000 ? 1 : n < 0x100000000ULL ? 2 : 3;
    o += (char) (major | (24 + w));
    for (int i = (1 << w) - 1; i >= 0; i--) o += (char) (n >> (8 * i));
  }
}
void word(std::string& o, const std::string& s) {  head(o, 3, s.size());  o += s;  }
std::string integer(int64_t v) {  std::string o;  if (v < 0) head(o, 1, ~(uint64_t) v);  else head(o, 0, v);  return o;  }
std::string natural(uint64_t v) {  std::string o;  head(o, 0, v);  return o;  }
std::string number(TCode tc, uint64_t b) {
  std::string o;
  switch (tc) {
    case TCode::FLOAT:  o += (char) 0xfa;  for (int i = 3; i >= 0; i--) o += (char) (b >> (8 * i));  return o;
    case TCode::DOUBLE: o += (char) 0xfb;  for (int i = 7; i >= 0; i--) o += (char) (b >> (8 * i));  return o;
    case TCode::INT8:   return integer(from_bits<int8_t>(b));
    case TCode::INT16:  return integer(from_bits<int16_t>(b));
    case TCode::INT32:  return integer(from_bits<int32_t>(b));
    case TCode::INT64:  return integer(from_bits<int64_t>(b));
    default:            return natural(b);
  }
}
std::string tagged(TCode tc) {  std::string o;  head(o, 6, C3P_CBOR_VENDOR_CODE | TcodeToInt(tc));  return o;  }
typedef std::vector<std::pair<std::string, std::string>> Pairs;
std::string map_of(const Pairs& p) {
  std::string o;
  head(o, 5, p.size());
  for (auto& e : p) {  word(o, e.first);  o += e.second;  }
  return o;
}

struct Item {
  bool watch = false;
  TimeSeriesBase* ts = nullptr;
  std::unique_ptr<StopWatch> sw;
  uint32_t win = 0, total = 0;          // The model of a series...
  std::vector<uint64_t> last;           // ...with its newest samples, up to the window.
  std::string name, units;
  uint32_t w[7] = {0, 0, 0xffffffff, 0, 0, 0, 0};   // ...and of a stopwatch: tag, last, best, worst, mean, total, executions.
  ~Item() {  delete ts;  }
  TCode tc() const {  return ts->tcode();  }
  bool full() const {  return total >= win;  }
};

struct Run {
  Ctx& c;
  std::vector<std::unique_ptr<Item>> items;
  Run(Ctx& x) : c(x) {}

  std::string text(uint32_t n) {  std::string s;  while (n--) s += (char) ('a' + c.draw(26));  return s;  }
  uint64_t sample(TCode tc) {
    if (tc == TCode::FLOAT) {
      float f = c.pick({0.0f, -0.0f, 1.5f, -3.25e10f, 1e-40f, 3.4028234e38f, 0.1f, -255.0f});
      if (c.chance(1, 2)) f = ((int32_t) c.draw(2000000) - 1000000) / 1000.0f;
      return to_bits(f);
    }
    if (tc == TCode::DOUBLE) {
      if (c.chance(1, 3)) return c.pick({0ULL, 0x8000000000000000ULL, 0x3ff8000000000000ULL, 0x54b249ad2594c37dULL, 0x123ULL, 0x3fd5555555555555ULL, 0x7fefffffffffffffULL});
      return to_bits<double>(((int32_t) c.draw(2000000) - 1000000) / (double) 1000);
    }
    static const uint64_t edge[] = {0, 1, 22, 23, 24, 25, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL};
    uint64_t v = edge[c.draw(sizeof edge / sizeof *edge)];
    if (c.chance(1, 3)) v = (((uint64_t) c.draw(0xffffffff) << 32) | c.draw(0xffffffff)) >> c.draw(64);
    if (c.chance(1, 3)) v = -v;
    unsigned n = width(tc);
    if (n == 8 && v >> 32) c.probe(P_WIDE);
    return n < 8 ? v & ((1ULL << (8 * n)) - 1) : v;
  }
  void put(Item& i, uint64_t v) {
    int8_t r = feed(i.ts, v);
    i.total++;
    i.last.push_back(v);
    if (i.last.size() > i.win) i.last.erase(i.last.begin());
    if (r != (i.full() ? 1 : 0)) c.fail("feed", "feeding sample %u to a window of %u returned %d", (unsigned) i.total, (unsigned) i.win, r);
  }
  void time_one(Item& i, uint32_t from, uint32_t took) {
    i.sw->addRuntime(from, from + took);
    i.w[6]++;  i.w[5] += took;  i.w[1] = took;
    i.w[2] = std::min(i.w[2], took);  i.w[3] = std::max(i.w[3], took);
    i.w[4] = i.w[5] / i.w[6];
  }
  void create() {
    Item* p = new Item();
    items.emplace_back(p);
    p->watch = c.chance(1, 3);
    if (p->watch) {
      p->w[0] = c.chance(1, 2) ? 0 : c.pick({1u, 23u, 24u, 255u, 256u, 65535u, 65536u, 0xffffffffu, 0x80000000u});
      p->sw.reset(new StopWatch(p->w[0]));
      uint32_t n = c.draw(6);
      while (n--) time_one(*p, c.draw(0xffffffff), c.chance(1, 4) ? c.pick({0u, 23u, 24u, 255u, 256u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) : c.draw(100000));
      c.probe(P_WATCH);
    }
    else {
      TCode tc = TYPES[c.draw(10)];
      p->win = c.chance(1, 10) ? c.pick({23, 24, 25, 255, 256, 300}) : 1 + c.draw(12);
      p->ts = make(tc, p->win);
      if (p->ts->init() != 0) {  c.fail("init", "a series of %u would not start", (unsigned) p->win);  return;  }
      uint32_t n = c.chance(1, 5) ? c.draw(p->win) : p->win + c.draw(2 * p->win + 2);
      while (n-- && !c.failed()) put(*p, sample(tc));
      if (c.chance(1, 2)) {  p->name = text(c.chance(1, 8) ? c.pick({23, 24, 60, 256}) : 1 + c.draw(8));  p->ts->name((char*) p->name.c_str());  c.probe(P_NAMED);  }
      if (c.chance(1, 3)) {
        p->units = text(1 + c.draw(4));
        if (c.chance(1, 2)) {      // In the grammar of units, well-formed or not.
          static const uint8_t G[] = {0x01, 0x02, 0x42, 0xc0, 0xf0, 0xf1, 0xf2, 0xf3, 0xf8, 0xfb, 0xfc, 0xfd, 0xff, 0xfd, 3, 6};
          p->units = c.chance(3, 4) ? "\xf7" : "";
          for (uint32_t k = 1 + c.draw(5); k; k--) p->units += (char) G[c.draw(sizeof G)];
          c.probe(P_UNITS);
        }
        p->ts->units((SIUnit*) p->units.c_str());  }
      if (p->full() && c.chance(1, 8)) {      // It has been running for a long time.
        p->total = c.pick({65536u, 0x10000000u, 0x7fffffffu, 0x80000000u, 0xfffff000u}) + c.draw(1000);
        std::string b = map_of(pairs(*p));
        StringBuilder in((uint8_t*) b.data(), b.size());
        C3PValueDecoder d(&in);
        std::unique_ptr<C3PValue> k(d.next(false));
        if (!k || getTypeHelper(TCode::TIMESERIES)->construct(&p->ts, (KeyValuePair*) k.get()) != 0) {  c.fail("update", "a series of many samples was not read");  return;  }
        c.probe(P_LONG);
      }
      if (p->total > p->win && p->total % p->win) c.probe(P_WRAPPED);
      c.probe(p->full() ? P_FULL : P_PARTIAL);
      c.probe(P_SERIES);
    }
  }

  /* What the item is, apart from its tag. The order of the keys of a map has no meaning. */
  Pairs pairs(const Item& i) {
    Pairs p;
    if (i.watch) {
      static const char* const K[] = {"g", "l", "b", "w", "a", "t", "e"};
      for (int n = 0; n < 7; n++) if (n || i.w[0]) p.emplace_back(K[n], natural(i.w[n]));
      return p;
    }
    p.emplace_back("tc", natural(TcodeToInt(i.tc())));
    p.emplace_back("win", natural(i.win));
    p.emplace_back("ttl", natural(i.total));
    if (i.name.size()) {  std::string o;  word(o, i.name);  p.emplace_back("n", o);  }
    if (i.units.size()) {  std::string o;  word(o, i.units);  p.emplace_back("u", o);  }
    if (i.full()) {
      p.emplace_back("idx", natural(i.total - i.win));
      std::string o;
      head(o, 4, i.win);
      for (uint64_t v : i.last) o += number(i.tc(), v);
      p.emplace_back("dat", o);
    }
    return p;
  }
  void shuffle(Pairs& p) {  for (size_t n = p.size(); n > 1; n--) std::swap(p[n - 1], p[c.draw(n)]);  }

  bool same_watch(const char* how, const Item& i, StopWatch* s) {
    const uint32_t w[7] = {s->tag(), s->lastTime(), s->bestTime(), s->worstTime(), s->meanTime(), s->totalTime(), s->executions()};
    static const char* const K[] = {"tag", "last time", "best time", "worst time", "mean time", "total time", "executions"};
    for (int n = 0; n < 7; n++) if (w[n] != i.w[n]) {  c.fail("stopwatch", "a stopwatch read %s has the %s %u rather than %u", how, K[n], (unsigned) w[n], (unsigned) i.w[n]);  return false;  }
    return true;
  }
  bool same_series(const char* how, const Item& i, TimeSeriesBase* s) {
    if (s->tcode() != i.tc()) {  c.fail("type", "a series read %s is of %s rather than %s", how, typecodeToStr(s->tcode()), typecodeToStr(i.tc()));  return false;  }
    if (!s->initialized() || s->windowSize() != i.win) {  c.fail("window", "a series read %s has a window of %u rather than %u", how, (unsigned) s->windowSize(), (unsigned) i.win);  return false;  }
    if (s->totalSamples() != i.total) {  c.fail("total", "a series read %s had %u samples rather than %u", how, (unsigned) s->totalSamples(), (unsigned) i.total);  return false;  }
    if (s->windowFull() != i.full()) {  c.fail("window", "a series read %s has a window that is %sfull", how, s->windowFull() ? "" : "not ");  return false;  }
    if (i.name != s->name() || i.units != (char*) s->units()) {  c.fail("name", "a series read %s is [%s][%s] rather than [%s][%s]", how, s->name(), (char*) s->units(), i.name.c_str(), i.units.c_str());  return false;  }
    if (i.full()) {
      std::vector<uint64_t> got;
      if (!newest(s, i.win, got)) {  c.fail("samples", "a series read %s gives none of its samples", how);  return false;  }
      for (uint32_t n = 0; n < i.win; n++) if (got[n] != i.last[n]) {  c.fail("samples", "of a series read %s, sample %u of the window's %u is %llx rather than %llx", how, (unsigned) n, (unsigned) i.win, (unsigned long long) got[n], (unsigned long long) i.last[n]);  return false;  }
      if (latest(s) != i.last.back()) {  c.fail("samples", "a series read %s says %llx for its latest sample rather than %llx", how, (unsigned long long) latest(s), (unsigned long long) i.last.back());  return false;  }
      for (uint32_t m = 0; m < i.win; m++) {
        const uint32_t which = s->indexIsWhichSample(m);
        if (which < i.total - i.win || which >= i.total) {  c.fail("index", "a series read %s takes place %u for sample %u of %u", how, (unsigned) m, (unsigned) which, (unsigned) i.total);  return false;  }
      }
    }
    return true;
  }
  bool same(const char* how, Item& i, C3PValue* v) {
    if (i.watch) {
      StopWatch* s = nullptr;
      if (v->tcode() != TCode::STOPWATCH || v->get_as(&s) < 0 || !s) {  c.fail("type", "a stopwatch read %s came back as %s", how, typecodeToStr(v->tcode()));  return false;  }
      if (!same_watch(how, i, s)) return false;
      if (c.chance(1, 3)) {      // Both go on.
        uint32_t from = c.draw(0xffffffff), took = c.draw(200000);
        time_one(i, from, took);
        s->addRuntime(from, from + took);
        c.probe(P_WENT_ON);
        return same_watch("and then used", i, s);
      }
      return true;
    }
    TimeSeriesBase* s = nullptr;
    if (v->tcode() != TCode::TIMESERIES || v->get_as(&s) < 0 || !s) {  c.fail("type", "a series read %s came back as %s", how, typecodeToStr(v->tcode()));  return false;  }
    return same_series(how, i, s) && goes_on(i, s);
  }
  bool goes_on(Item& i, TimeSeriesBase* s) {
    if (i.full()) {
      uint64_t a[3], b[3];
      extremes(i.ts, a[0], a[1], a[2]);
      extremes(s, b[0], b[1], b[2]);
      for (int n = 0; n < 3; n++) if (a[n] != b[n]) {  c.fail("statistics", "a series that was read has the %s %llx rather than %llx", n == 0 ? "minimum" : n == 1 ? "maximum" : "median", (unsigned long long) b[n], (unsigned long long) a[n]);  return false;  }
    }
    if (!i.full() || !c.chance(1, 2)) return true;
    c.probe(P_WENT_ON);
    uint32_t n = 1 + c.draw(i.win + 2);
    while (n-- && !c.failed()) {
      uint64_t v = sample(i.tc());
      put(i, v);
      feed(s, v);
    }
    if (c.failed() || !same_series("and then fed", i, s)) return false;
    StringBuilder x, y;
    const int rx = i.ts->serialize(&x, TCode::CBOR), ry = s->serialize(&y, TCode::CBOR);
    if (rx != 0 || ry != 0) {  c.fail("serialize", "a series would not be serialized: %d, and its copy: %d", rx, ry);  return false;  }
    if (x.length() != y.length() || memcmp(x.string(), y.string(), x.length())) {  c.fail("copy", "a series and its copy are serialized differently");  return false;  }
    return true;
  }

  /* The bytes arrive in pieces, and are read with or without enough memory. */
  C3PValue* read(const std::string& b, bool alloc, bool& hurt, uint32_t& left) {
    StringBuilder in;
    C3PValueDecoder d(&in);
    C3PValue* v = nullptr;
    hurt = false;
    size_t at = 0;
    const bool cut = c.chance(1, 2);
    while (at < b.size()) {
      size_t n = cut ? 1 + c.draw(c.chance(1, 2) ? 6 : b.size()) : b.size();
      n = std::min(n, b.size() - at);
      in.concat((uint8_t*) b.data() + at, n);
      at += n;
      if (at < b.size()) {
        if (b.size() > 2000 && !c.chance(1, 8)) continue;
        c.fault(F_CUT);
        if (d.next(false)) {  c.fail("early", "a value was read from %u of its %u bytes", (unsigned) at, (unsigned) b.size());  return nullptr;  }
        if ((size_t) in.length() != at) {  c.fail("early", "%u bytes of an incomplete value were consumed", (unsigned) (at - in.length()));  return nullptr;  }
      }
    }
    if (alloc) {  g_malloc_fail_in = c.draw(c.chance(1, 2) ? 12 : 60 + b.size());  g_malloc_fail_sticky = c.chance(1, 3);  g_malloc_failed = 0;  }
    v = d.next(false);
    hurt = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (hurt) {
      c.fault(F_ALLOC);
      c.probe(P_NO_MEMORY);
      if (!v) {
        c.probe(P_REFUSED);
        if ((size_t) in.length() != b.size()) {  c.fail("lost", "for want of memory, a value was not read, but %u of its %u bytes were consumed", (unsigned) (b.size() - in.length()), (unsigned) b.size());  return nullptr;  }
        v = d.next(false);
      }
    }
    left = in.length();
    return v;
  }
  // Written without memory it is whole, or refused and not there at all.
  void arm() {  g_malloc_failed = 0;  g_malloc_fail_in = c.draw(c.chance(1, 2) ? 10 : 200);  g_malloc_fail_sticky = c.chance(1, 2);  }
  template <class F> void starved(const std::string& whole, F write) {
    StringBuilder o;
    const bool lead = c.chance(1, 3);
    if (lead) o.concat((uint8_t*) "lead", 4);
    const int r = write(&o);
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
    const bool hit = g_malloc_failed > 0;
    g_malloc_failed = 0;
    if (hit) c.fault(F_MEMORY_OUT);
    std::string got = o.isEmpty() ? std::string() : std::string((char*) o.string(), o.length());
    if (lead) {
      if (got.substr(0, 4) != "lead") {  c.fail("serialize", "what was in the buffer ahead of the value is not there");  return;  }
      got.erase(0, 4);
    }
    if (r == 0 ? got != whole : !got.empty()) c.fail("serialize", "without memory, serializing %u bytes returned %d and wrote %u", (unsigned) whole.size(), r, (unsigned) got.size());
    else if (r != 0 && !hit) c.fail("serialize", "serializing again returned %d", r);
  }
  void bare(Item& i) {
    StringBuilder out;
    const bool foreign = c.chance(1, 3);
    std::string b;
    if (foreign) {
      Pairs p = pairs(i);
      shuffle(p);
      c.fault(F_FOREIGN);
      c.probe(P_ORDER);
      b = tagged(i.watch ? TCode::STOPWATCH : TCode::TIMESERIES) + map_of(p);
    }
    else {
      int r;
      if (i.watch) {
        C3PValue v(i.sw.get());
        r = v.serialize(&out, TCode::CBOR);
      }
      else if (c.chance(1, 2)) r = i.ts->serialize(&out, TCode::CBOR);
      else {
        C3PValue v(i.ts);
        r = v.serialize(&out, TCode::CBOR);
      }
      if (r == 0 && c.chance(1, 4)) starved(std::string((char*) out.string(), out.length()), [&](StringBuilder* o) {
        if (!i.watch && c.chance(1, 2)) {  arm();  return (int) i.ts->serialize(o, TCode::CBOR);  }
        if (i.watch) {  C3PValue v(i.sw.get());  arm();  return (int) v.serialize(o, TCode::CBOR);  }
        C3PValue v(i.ts);
        arm();
        return (int) v.serialize(o, TCode::CBOR);
      });
      if (r != 0) {  c.fail("serialize", "serializing a %s returned %d", i.watch ? "stopwatch" : i.full() ? "series" : "series that is not full", r);  return;  }
      b.assign((char*) out.string(), out.length());
    }
    c.ev("%s %s of %u bytes", foreign ? "foreign" : "own", i.watch ? "stopwatch" : "series", (unsigned) b.size());
    c.state(hash64(hash64(b.size(), i.win), i.total * 4 + i.watch * 2 + foreign));
    c.nontrivial();
    bool hurt = false;
    uint32_t left = 0;
    C3PValue* v = read(b, c.chance(1, 4), hurt, left);
    if (c.failed()) {  delete v;  return;  }
    if (!v) {  c.fail("lost", "%s was not read back from its %u bytes", i.watch ? "a stopwatch" : "a series", (unsigned) b.size());  return;  }
    if (left) c.fail("lost", "%u bytes were left behind a value", (unsigned) left);
    else same(hurt ? "with little memory" : foreign ? "from another's hand" : "back", i, v);
    delete v;
  }

  /* An object that is already there is brought to the state of the one that was sent. */
  void update(Item& i) {
    if (i.watch || !i.full()) return;
    Pairs p = pairs(i);
    if (c.chance(1, 2)) shuffle(p);
    std::string b = map_of(p);
    StringBuilder in((uint8_t*) b.data(), b.size());
    C3PValueDecoder d(&in);
    std::unique_ptr<KeyValuePair> kvp((KeyValuePair*) d.next(false));
    if (!kvp || !kvp->has_key()) {  c.fail("lost", "a map of %u bytes was not read back", (unsigned) b.size());  return;  }
    const bool rewin = c.chance(1, 3);
    std::unique_ptr<TimeSeriesBase> own(make(i.tc(), rewin ? 1 + c.draw(20) : i.win));
    own->init();
    for (uint32_t n = c.draw(3 * own->windowSize() + 1); n--; ) feed(own.get(), sample(i.tc()));
    if (i.name.empty() ? false : c.chance(1, 2)) own->name((char*) "before");
    TimeSeriesBase* q = own.get();
    c.probe(P_UPDATE);
    if (rewin) c.probe(P_REWINDOW);
    int8_t r = getTypeHelper(TCode::TIMESERIES)->construct(&q, kvp.get());
    c.ev("update of a series of %u: %d", (unsigned) i.win, r);
    if (r != 0 || q != own.get()) {  c.fail("update", "bringing a series up to date returned %d", r);  return;  }
    if (same_series("over another", i, q)) goes_on(i, q);
  }

  void set() {
    struct Plain {  std::string key;  int kind;  uint64_t u;  std::string s;  };
    std::deque<Plain> plain;      // What the set refers to stays where it is.
    std::deque<std::string> keys;
    std::vector<std::unique_ptr<KeyValuePair>> top;
    KeyValuePair* first = nullptr;
    auto add = [&](KeyValuePair* k) {  k->reapContainer(true);  if (first) first->link(k);  else {  first = k;  top.emplace_back(k);  }  };
    bool arrays = false;
    for (size_t n = 0; n <= items.size(); n++) {
      for (uint32_t m = c.draw(3); m--; ) {
        plain.emplace_back();
        Plain& q = plain.back();
        q.key = "p" + std::to_string(plain.size() - 1);
        q.kind = c.draw(3);
        if (q.kind == 0) {  q.u = sample(TCode::UINT32);  add(new KeyValuePair((char*) q.key.c_str(), (uint32_t) q.u));  }
        else {
          q.s = text(c.draw(10));
          if (q.kind == 1) add(new KeyValuePair((char*) q.key.c_str(), (char*) q.s.c_str()));
          else {
            uint8_t* m = (uint8_t*) malloc(q.s.size() + 1);
            memcpy(m, q.s.data(), q.s.size());
            KeyValuePair* k = new KeyValuePair((char*) q.key.c_str(), m, q.s.size());
            k->reapValue(true);
            add(k);
          }
        }
      }
      if (n == items.size()) break;
      keys.push_back("i" + std::to_string(n));
      Item& i = *items[n];
      if (i.watch) add(new KeyValuePair((char*) keys.back().c_str(), i.sw.get()));
      else {
        KeyValuePair* k = new KeyValuePair(TCode::TIMESERIES, (char*) keys.back().c_str(), 0);
        if (k->set(i.ts) < 0) {  c.fail("set", "a set would not take a series");  delete k;  return;  }
        add(k);
        arrays |= i.full();
      }
    }
    StringBuilder out;
    int8_t r = first->serialize(&out, TCode::CBOR);
    if (r != 0) {  c.fail("serialize", "serializing a set returned %d", r);  return;  }
    if (c.chance(1, 4)) starved(std::string((char*) out.string(), out.length()), [&](StringBuilder* o) {  arm();  return (int) first->serialize(o, TCode::CBOR);  });
    if (c.failed()) return;
    std::string b((char*) out.string(), out.length());
    c.ev("set of %u items and %u others, %u bytes", (unsigned) items.size(), (unsigned) plain.size(), (unsigned) b.size());
    c.probe(P_SET);
    c.nontrivial();
    auto check_plain = [&](const char* by, KeyValuePair* k) {
      for (Plain& q : plain) {
        KeyValuePair* e = k->valueWithKey(q.key.c_str());
        if (!e) {  c.fail("set", "read %s, the set has no [%s]", by, q.key.c_str());  return;  }
        bool ok = false;
        if (q.kind == 0) {  uint32_t x = 0;  ok = e->get_as(&x) >= 0 && x == q.u;  }
        else if (q.kind == 1) {  char* x = nullptr;  ok = e->tcode() == TCode::STR && e->get_as(&x) >= 0 && x && q.s == x;  }
        else {  uint8_t* x = nullptr;  uint32_t l = 0;  ok = e->tcode() == TCode::BINARY && e->get_as(&x, &l) >= 0 && l == q.s.size() && !memcmp(x, q.s.data(), l);  }
        if (!ok) {  c.fail("set", "read %s, [%s] of the set is another value, of type %s", by, q.key.c_str(), typecodeToStr(e->tcode()));  return;  }
      }
    };
    if (!arrays) {
      std::unique_ptr<uint8_t[]> copy(new uint8_t[b.size()]);
      memcpy(copy.get(), b.data(), b.size());
      std::unique_ptr<KeyValuePair> k(KeyValuePair::unserialize(copy.get(), b.size(), TCode::CBOR));
      if (!k) {  c.fail("set", "a set was not read by the listener");  return;  }
      c.probe(P_LISTENER);
      check_plain("by the listener", k.get());
      if (c.failed()) return;
      for (size_t n = 0; n < items.size(); n++) {
        KeyValuePair* e = k->valueWithKey(keys[n].c_str());
        KeyValuePair* in = (e && e->tcode() == TCode::KVP) ? e->get_as_kvp() : nullptr;
        if (in) {       // The listener tells of these by their parts.
          Pairs p = pairs(*items[n]);
          for (auto& x : p) {
            C3PValue* y = in->valueWithKey(x.first.c_str());
            StringBuilder z;
            if (!y) {  c.fail("set", "read by the listener, [%s] of [%s] is missing", x.first.c_str(), keys[n].c_str());  return;  }
            if (x.first == "n" || x.first == "u") continue;
            uint32_t u = 0;
            if (y->get_as(&u) < 0 || natural(u) != x.second) {  c.fail("set", "read by the listener, [%s] of [%s] is %u", x.first.c_str(), keys[n].c_str(), (unsigned) u);  return;  }
          }
        }
        else if (!e || (e->tcode() != TCode::STOPWATCH && e->tcode() != TCode::TIMESERIES)) {  c.fail("set", "read by the listener, [%s] is missing from the set", keys[n].c_str());  return;  }
        else if (!same("by the listener", *items[n], e)) return;
      }
    }
    bool hurt = false;
    uint32_t left = 0;
    std::unique_ptr<C3PValue> v(read(b, c.chance(1, 5), hurt, left));
    if (c.failed()) return;
    if (!v || !v->has_key()) {  c.fail("set", "a set of %u bytes was not read back", (unsigned) b.size());  return;  }
    KeyValuePair* k = (KeyValuePair*) v.get();
    check_plain("by the decoder", k);
    for (size_t n = 0; n < items.size() && !c.failed(); n++) {
      KeyValuePair* e = k->valueWithKey(keys[n].c_str());
      if (!e) {  c.fail("set", "read by the decoder, the set has no [%s]", keys[n].c_str());  return;  }
      same("from a set", *items[n], e);
    }
  }

  /* What was sent is not what arrives: it need only do no harm. */
  std::string odd() {
    std::string o;
    switch (c.draw(9)) {
      case 0: return natural(c.pick({0ULL, 1ULL, 255ULL, 65536ULL, 0xffffffffULL, 0x100000000ULL, 0xffffffffffffffffULL, 0x4141414141414141ULL}));
      case 1: return integer(-1 - (int64_t) c.draw(70000));
      case 2: word(o, text(c.draw(40)));  return o;
      case 3: head(o, 2, 5);  return o + "bytes";
      case 4: return number(TCode::DOUBLE, sample(TCode::DOUBLE));
      case 5: return number(TCode::FLOAT, sample(TCode::FLOAT));
      case 6: return std::string(1, (char) c.pick({0xf4, 0xf5, 0xf6, 0xf7}));
      case 7: head(o, 5, 1);  word(o, "x");  return o + natural(5);
      default: {  uint32_t n = 1 + c.draw(5);  head(o, 4, n);  while (n--) o += integer((int) c.draw(600) - 300);  return o;  }
    }
  }
  void harm(Item& i) {
    Pairs p = pairs(i);
    std::string b;
    g_malloc_limit = 1 << 20;
    if (c.chance(1, 2)) {
      c.fault(F_HOSTILE);
      uint32_t n = 1 + c.draw(3);
      while (n--) {
        std::pair<std::string, std::string>& e = p[c.draw(p.size())];
        if (e.first == "win" && c.chance(1, 2)) {
          // As many samples as make a size that wraps around.
          e.second = natural((0x100000000ULL / c.pick({1, 2, 4, 8})) + c.draw(4));
          c.probe(P_HUGE);
        }
        else e.second = odd();
      }
      if (c.chance(1, 3)) p.erase(p.begin() + c.draw(p.size()));
      shuffle(p);
      if (p.empty()) p.emplace_back("x", odd());
      b = map_of(p);
      if (c.chance(3, 4)) b = tagged(c.chance(1, 8) ? (TCode) c.draw(256) : i.watch ? TCode::STOPWATCH : TCode::TIMESERIES) + b;
    }
    else {
      c.fault(F_DAMAGE);
      b = tagged(i.watch ? TCode::STOPWATCH : TCode::TIMESERIES) + map_of(p);
      for (uint32_t n = 1 + c.draw(3); n--; ) {
        size_t at = c.draw(b.size());
        switch (c.draw(3)) {
          case 0: b[at] = (char) c.draw(256);  break;
          case 1: b.erase(at, 1 + c.draw(4));  break;
          default: b.insert(at, 1, (char) c.draw(256));  break;
        }
        if (b.empty()) b += 'x';
      }
    }
    StringBuilder in((uint8_t*) b.data(), b.size());
    C3PValueDecoder d(&in);
    c.ev("harm: %s", hex((const uint8_t*) b.data(), b.size(), 200).c_str());
    for (int n = 0; n < 8 && in.length() > 0; n++) {
      C3PValue* v = d.next(c.chance(1, 2));
      if (v && v->tcode() == TCode::TIMESERIES) {
        TimeSeriesBase* s = nullptr;
        v->get_as(&s);
        if (s && s->windowSize() * width(s->tcode()) <= g_malloc_limit) {
          feed(s, 1);
          latest(s);
          StringBuilder o;
          if (s->windowSize() < 2000) {
            s->serialize(&o, TCode::CBOR);
            s->printSeries(&o);       // The median of many takes very long.
          }
        }
      }
      else if (v && v->tcode() == TCode::STOPWATCH) {
        StopWatch* s = nullptr;
        v->get_as(&s);
        StringBuilder o;
        if (s) s->printDebug("x", &o);
      }
      else if (v && v->has_key()) {
        KeyValuePair* k = (KeyValuePair*) v;
        if (!i.watch) {
          std::unique_ptr<TimeSeriesBase> own(make(i.tc(), 1 + c.draw(6)));
          own->init();
          TimeSeriesBase* q = own.get();
          getTypeHelper(TCode::TIMESERIES)->construct(&q, k);
          feed(q, 1);
          latest(q);
        }
        else {
          StopWatch own;
          StopWatch* q = &own;
          getTypeHelper(TCode::STOPWATCH)->construct(&q, k);
          q->addRuntime(1, 2);
        }
      }
      delete v;
    }
    g_malloc_limit = 0;
    g_malloc_failed = 0;
    c.nontrivial();
  }
  /* One who waits for pictures looks for the name of the sender in a set from whomever. */
  void catcher() {
    ImageCatcher k;
    uint32_t known = 0;
    for (uint32_t n = 1 + c.draw(4); n-- && !c.failed(); ) {
      Pairs p;
      const bool wide = c.chance(1, 3);
      uint32_t id = c.chance(1, 5) ? 0 : c.chance(1, 2) && known ? known : c.pick({1u, 200u, 300u, 70000u, 0xffffffffu});
      for (uint32_t m = c.draw(3); m--; ) p.emplace_back(text(3), odd());
      p.emplace_back("id", wide ? odd() : natural(id));
      std::string b = map_of(p);
      StringBuilder in((uint8_t*) b.data(), b.size());
      C3PValueDecoder d(&in);
      std::unique_ptr<C3PValue> v(d.next(false));
      if (!v || !v->has_key()) {  if (!wide && p.size() == 1) c.fail("lost", "a map was not read");  continue;  }
      int8_t r = k.apply((KeyValuePair*) v.get());
      c.ev("catcher: %s", hex((const uint8_t*) b.data(), b.size(), 60).c_str());
      c.probe(P_CATCHER);
      if (wide) {  if (r == 0) return;  continue;  }       // Whatever that was, it has been taken for a name.
      bool expect = id && (!known || known == id);
      if (expect && !known) known = id;
      if ((r == 0) != expect) c.fail("catcher", "one who waits for %u returned %d to a picture from %u", (unsigned) known, r, (unsigned) id);
    }
  }
  void said(Item& i) {
    StringBuilder o;
    std::string t;
    if (i.watch) {
      i.sw->printDebug("label", &o);
      t.assign((char*) o.string(), o.length());
      char l[32] = "";
      unsigned w[6] = {0};
      int n = sscanf(t.c_str(), "%31s %u %u %u %u %u %u", l, w, w + 1, w + 2, w + 3, w + 4, w + 5);
      const uint32_t e[6] = {i.w[6], i.w[5], i.w[4], i.w[3], i.w[2], i.w[1]};
      if (i.w[6]) {
        if (n != 7 || strcmp(l, "label")) {  c.fail("text", "a stopwatch describes itself as [%s]", t.c_str());  return;  }
        for (int m = 0; m < 6; m++) if (w[m] != e[m]) {  c.fail("text", "column %d of the text of a stopwatch is %u rather than %u", m, w[m], (unsigned) e[m]);  return;  }
      }
      else if (t.find("NO DATA") == std::string::npos) c.fail("text", "a stopwatch that never ran describes itself as [%s]", t.c_str());
    }
    else {
      i.ts->printSeries(&o);
      t.assign((char*) o.string(), o.length());
      char b[64];
      snprintf(b, sizeof b, "Total samples: %u\n", (unsigned) i.total);
      if (t.find(b) == std::string::npos) {  c.fail("text", "the text of a series of %u samples does not say so", (unsigned) i.total);  return;  }
      snprintf(b, sizeof b, "[%u]", (unsigned) i.win);
      if (t.find(b) == std::string::npos || t.find(i.name) == std::string::npos) c.fail("text", "the text of a series names neither it nor its window");
    }
  }
};

void run(Ctx& c) {
  const size_t before = heap_in_use();
  {
    Run r(c);
    uint32_t n = 1 + c.draw(4);
    for (uint32_t i = 0; i < n && !c.failed(); i++) r.create();
    c.plan_ops(2 + c.draw(8));
    while (!c.failed() && c.next_op()) {
      c.step();
      Item& i = *r.items[c.draw(r.items.size())];
      switch (c.draw(12)) {
        case 0: case 1: case 2: case 3: r.bare(i);  break;
        case 4: case 5: r.update(i);  break;
        case 6: case 7: r.set();  break;
        case 8: case 9: r.harm(i);  break;
        case 10: r.catcher();  break;
        default: r.said(i);  break;
      }
    }
  }
  if (!c.failed() && heap_in_use() != before) c.fail("leak", "%lld bytes remain allocated", (long long) heap_in_use() - (long long) before);
}
}

Harness g_harness = {
  "R02",
  "Series of every numeric type, before and after they are full, and stopwatches, are written as CBOR, alone and in sets; by this library, and by the book with the pairs in any order; and read in pieces, with and without memory, into new objects and over old ones; then both are used further. Non-trivial: something was read.",
  run,
  {"bytes arrive in pieces", "allocation failure while reading", "damaged bytes", "written by another, pairs in any order", "values of unexpected type or size", "allocation failure while writing"},
  {"series", "stopwatch", "full window", "window not full", "window begins anywhere in memory", "set with other values", "read by the listener", "pairs reordered", "read over another series", "window resized by reading", "used further after reading", "refused for want of memory", "no memory", "named", "samples wider than 32 bits", "image catcher", "size that wraps around", "series of very many samples", "units in their grammar"},
  {"TimeSeries", "StopWatch", "C3PValueDecoder", "C3PValue", "KeyValuePair", "CBORArgListener", "C3PType", "cbor::encoder", "ImageCatcher", "StringBuilder"},
  {"allocator (failing, or with little to give)"},
  "length, window and total of each item written",
  {},
  20000, 400000
};
