/* D04: a window of samples holds the newest ones fed to it, and its statistics are those of what it holds. */
#include "sb.h"
#include <math.h>
#include <algorithm>
#include <type_traits>
#include <vector>
#include "TimeSeries/TimeSeries.h"
#include "TimeSeries/SensorFilter.h"
using namespace sim;

namespace {
enum {  F_ALLOC  };
enum {  P_FULL, P_WRAP, P_STALE, P_RESIZE, P_NO_MEMORY, P_RECOVERED, P_EMPTY, P_BULK, P_PURGE, P_NEWEST, P_ROUNDTRIP, P_STATIC, P_STRATEGY, P_ONE, P_EXTREME, P_MEDIAN, P_UNINIT, P_AVERAGE  };
typedef long double Big;

/* ---- values ------------------------------------------------------------------------------------------------------------------ */
template <class T> struct Gen {
  int kind;  T base;
  Gen(Ctx& c) : kind((int) c.draw(5)), base(one(c, 0)) {}
  static T one(Ctx& c, int kind) {
    if (std::is_floating_point<T>::value) {
      switch (kind) {
        case 1:  return T(int(c.range(0, 200)) - 100);
        case 2: {  T v = T(int(c.range(0, 2000000)) - 1000000);  int e = int(c.range(0, sizeof(T) == 4 ? 24 : 200)) - (sizeof(T) == 4 ? 12 : 100);  return T(v * pow(10.0, e));  }
        default: return T((double(c.range(0, 2000000)) - 1000000.0) / 512.0);
      }
    }
    switch (kind) {
      case 1:  return T(c.range(0, 40)) - T(std::is_signed<T>::value ? 20 : 0);
      case 2:  return c.pick({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::min() + 1), T(0), T(std::numeric_limits<T>::max() / 2)});
      default: return T(((uint64_t) c.draw(0x10000) << 48) ^ ((uint64_t) c.draw(0x10000) << 32) ^ ((uint64_t) c.draw(0x10000) << 16) ^ c.draw(0x10000));
    }
  }
  T next(Ctx& c) {
    if (kind == 2) c.probe(P_EXTREME);
    switch (kind) {
      case 3:  return base;                                            // A flat line...
      case 4:  return c.chance(1, 4) ? one(c, 1) : base;               // ...with the odd spike.
      default: return one(c, kind);
    }
  }
};

template <class T> bool near(Big want, Big got, Big scale) {  return fabsl(want - got) <= (scale * 1e-9L);  }
struct Stats {  Big mn, mx, mean, rms, stdev, med, scale;  };
template <class T> Stats stats_of(const std::vector<T>& m) {
  Stats s = {(Big) m[0], (Big) m[0], 0, 0, 0, 0, 0};
  std::vector<Big> v;
  for (T x : m) {
    Big b = (Big) x;
    v.push_back(b);
    s.mn = std::min(s.mn, b);  s.mx = std::max(s.mx, b);  s.mean += b;  s.rms += b * b;  s.scale = std::max(s.scale, fabsl(b));
  }
  s.mean /= m.size();
  s.rms = sqrtl(s.rms / m.size());
  for (Big b : v) s.stdev += (b - s.mean) * (b - s.mean);
  s.stdev = sqrtl(s.stdev / m.size());
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  s.med = (n & 1) ? v[n / 2] : (v[n / 2 - 1] / 2 + v[n / 2] / 2);
  return s;
}
/* Half way between two integers may be rounded either way; between two reals it may be off by their precision. */
template <class T> bool median_ok(const Stats& s, T got) {
  if (std::is_floating_point<T>::value) return fabsl((Big) got - s.med) <= s.scale * (sizeof(T) == 4 ? 1e-6L : 1e-12L);
  return fabsl((Big) got - s.med) <= ((sizeof(T) == 8) ? 1.0L : 0.5L);
}

uint32_t window(Ctx& c) {  return c.chance(1, 12) ? 1 : c.range(2, c.chance(1, 6) ? 70 : 9);  }
bool no_memory(Ctx& c) {
  if (!c.chance(1, 6)) return false;
  g_malloc_failed = 0;  g_malloc_fail_sticky = true;  g_malloc_fail_in = 0;
  return true;
}
bool memory_back(Ctx& c) {
  g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
  const bool f = g_malloc_failed > 0;
  g_malloc_failed = 0;
  if (f) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
  return f;
}

/* ---- TimeSeries -------------------------------------------------------------------------------------------------------------- */
template <class T> struct Model {
  bool initd = false;
  uint32_t asked = 0;         // The size it was last asked to have.
  std::vector<T> mem;         // As laid out in memory.
  uint32_t idx = 0;
  uint64_t total = 0;
  bool full() const {  return initd && total >= mem.size();  }
  void reset(uint32_t w) {  mem.assign(w, T(0));  idx = 0;  total = 0;  initd = w > 0;  }
};

template <class T> bool check_ts(Ctx& c, TimeSeries<T>& s, const Model<T>& m, const char* when) {
  if (s.initialized() != m.initd) {  c.fail("state", "%s: initialized() is %d", when, s.initialized());  return false;  }
  if (s.windowSize() != (m.initd ? m.mem.size() : 0)) {  c.fail("window", "%s: windowSize() is %u, expected %u", when, s.windowSize(), (uint32_t) m.mem.size());  return false;  }
  if (s.windowFull() != m.full()) {  c.fail("full", "%s: windowFull() is %d after %u of %u", when, s.windowFull(), (uint32_t) m.total, (uint32_t) m.mem.size());  return false;  }
  if (m.initd && s.totalSamples() != m.total) {  c.fail("total", "%s: totalSamples() is %u, expected %u", when, s.totalSamples(), (uint32_t) m.total);  return false;  }
  if (m.full()) {    // Each place knows how many samples came before what it holds.
    const uint32_t W = m.mem.size();
    for (uint32_t back = 0; back < W; back++) {
      const uint32_t at = (m.idx + W - 1 - back) % W, want = (uint32_t) (m.total - 1 - back);
      if (s.indexIsWhichSample(at) != want) {  c.fail("which", "%s: place %u of %u holds sample %u; indexIsWhichSample() says %u", when, at, W, want, s.indexIsWhichSample(at));  return false;  }
    }
  }
  else if (!m.initd && s.indexIsWhichSample(0)) {  c.fail("which", "%s: a series without memory says where its samples came from", when);  return false;  }
  if (m.initd && s.lastIndex() != m.idx) {  c.fail("index", "%s: lastIndex() is %u, expected %u", when, s.lastIndex(), m.idx);  return false;  }
  return true;
}

template <class T> bool query_ts(Ctx& c, TimeSeries<T>& s, const Model<T>& m, int what) {
  const bool F = m.full();
  Stats w = {0, 0, 0, 0, 0, 0, 0};
  if (F) w = stats_of(m.mem);
  const bool one = m.mem.size() == 1;
  if (one && F) c.probe(P_ONE);
  bool ok = true;
  Big got = 0, want = 0;
  const char* n = "";
  switch (what) {
    case 0:  n = "minValue";  got = s.minValue();  want = w.mn;  ok = got == want;  break;
    case 1:  n = "maxValue";  got = s.maxValue();  want = w.mx;  ok = got == want;  break;
    case 2:  n = "mean";  got = s.mean();  want = w.mean;  ok = near<T>(want, got, w.scale);  break;
    case 3:  if (one) return true;  n = "rms";  got = s.rms();  want = w.rms;  ok = near<T>(want, got, w.scale);  break;
    case 4:  if (one) return true;  n = "stdev";  got = s.stdev();  want = w.stdev;  ok = near<T>(want, got, w.scale);  break;
    case 5:  if (one) return true;  n = "median";  c.probe(P_MEDIAN);  got = s.median();  want = w.med;  ok = median_ok<T>(w, s.median());  break;
    case 6:
      if (one) return true;
      n = "snr";  got = s.snr();
      if (!F) ok = got == 0;
      else if (w.stdev > w.scale * 1e-2L) {  want = (w.mean * w.mean) / (w.stdev * w.stdev);  ok = fabsl(got - want) <= 1e-5L * fabsl(want) + 1e-5L;  }
      break;
    default: {
      const T v = s.value();
      n = "value";  got = v;
      want = F ? (Big) m.mem[(m.idx + m.mem.size() - 1) % m.mem.size()] : 0;
      ok = got == want;
      if (ok && F && s.dirty()) {  c.fail("dirty", "still dirty after the newest value was read");  return false;  }
    }
  }
  c.ev("%s() = %Lg", n, got);
  if (!ok) c.fail(n, "%s() is %.15Lg, expected %.15Lg (window of %u %s, %u fed)", n, got, want, (uint32_t) m.mem.size(), typecodeToStr(s.tcode()), (uint32_t) m.total);
  return ok;
}

template <class T> bool copy_ts(Ctx& c, TimeSeries<T>& s, const Model<T>& m, uint32_t count, uint32_t off, bool abs) {
  std::vector<T> buf(count + 1, T(77));
  const int8_t r = s.copyValueRange(buf.data(), count, off, abs);
  const uint32_t W = m.initd ? m.mem.size() : 0;
  const bool can = W >= count && count > 0 && m.total >= (uint64_t) count + off;
  c.ev("copyValueRange(%u, %u, %s) = %d", count, off, abs ? "abs" : "newest", r);
  if (can != (0 == r)) {  c.fail("copy", "copyValueRange(%u, %u, %d) returned %d with a window of %u and %u fed", count, off, abs, r, W, (uint32_t) m.total);  return false;  }
  for (uint32_t i = 0; i < count; i++) {
    const T want = can ? m.mem[abs ? ((off + i) % W) : ((m.idx + W - count + i) % W)] : T(77);
    if (buf[i] != want) {  c.fail("copy", "copyValueRange(%u, %u, %s): sample %u is %.15Lg, expected %.15Lg", count, off, abs ? "abs" : "newest", i, (Big) buf[i], (Big) want);  return false;  }
  }
  if (buf[count] != T(77)) {  c.fail("copy", "wrote past the %u values asked for", count);  return false;  }
  if (can && !abs) c.probe(P_NEWEST);
  if (can && s.dirty()) {  c.fail("dirty", "still dirty after a copy");  return false;  }
  return true;
}

template <class T> void run_ts(Ctx& c) {
  Gen<T> g(c);
  const bool stat = c.chance(1, 4);
  const uint32_t w0 = c.chance(1, 10) ? 0 : window(c);
  std::vector<T> ext(std::max(w0, 1u) + 2, T(55));
  {
  TimeSeries<T> s(stat ? ext.data() + 1 : nullptr, w0);
  Model<T> m;
  m.asked = w0;
  std::string nm;
  if (stat) c.probe(P_STATIC);
  c.ev("TimeSeries<%s> of %u, %s", typecodeToStr(s.tcode()), w0, stat ? "external" : "own memory");
  if (c.chance(9, 10)) {
    if (!stat) no_memory(c);
    const int8_t r = s.init();
    const bool f = memory_back(c);
    c.ev("init() = %d%s", r, f ? " (no memory)" : "");
    if (w0 > 0 && !f) m.reset(w0);
    if ((0 == r) != m.initd) {  c.fail("init", "init() of %u returned %d", w0, r);  return;  }
  }
  else c.probe(P_UNINIT);
  uint32_t fed = 0;
  c.plan_ops(10 + c.draw(120));
  while (c.next_op() && !c.failed()) {
    c.step();
    switch (c.draw(20)) {
      default: {
        const int n = (int) c.range(1, c.chance(1, 4) ? m.mem.size() + 3 : 2);
        for (int i = 0; i < n; i++) {
          const T v = g.next(c);
          const int8_t r = s.feedSeries(v);
          if (m.initd) {
            m.mem[m.idx] = v;  m.idx = (m.idx + 1) % m.mem.size();  m.total++;  fed++;
            if (m.total > m.mem.size()) c.probe(P_WRAP);
            if (m.full()) {  c.probe(P_FULL);  c.nontrivial();  }
          }
          const int8_t want = m.initd ? (m.full() ? 1 : 0) : -1;
          if (r != want) {  c.fail("feed", "feedSeries() returned %d, expected %d", r, want);  return;  }
          if (m.initd && !s.dirty()) {  c.fail("dirty", "not dirty after a sample was fed");  return;  }
        }
        c.ev("fed %d", n);
        break;
      }
      case 0: {    // Filled from outside.
        if (m.initd && m.idx) break;
        if (m.initd) for (auto& x : m.mem) x = g.next(c);
        if (m.initd) memcpy(s.memPtr(), m.mem.data(), m.mem.size() * sizeof(T));
        const int8_t r = s.feedSeries();
        c.ev("bulk feed = %d", r);
        if ((r == 1) != m.initd) {  c.fail("feed", "feedSeries() returned %d", r);  return;  }
        if (m.initd) {  m.total += m.mem.size();  c.probe(P_BULK);  }
        break;
      }
      case 1: {
        const int8_t r = s.purge();
        c.ev("purge() = %d", r);
        if (m.initd && r != 0) {  c.fail("purge", "purge() returned %d", r);  return;  }
        if (m.initd) {  m.reset(m.mem.size());  c.probe(P_PURGE);  if (s.dirty()) {  c.fail("dirty", "dirty after a purge");  return;  }  }
        break;
      }
      case 2: case 3: {
        const uint32_t w = c.chance(1, 3) ? m.asked : (c.chance(1, 8) ? 0 : window(c));
        const bool try_f = !stat && no_memory(c);
        const int8_t r = s.windowSize(w);
        const bool f = memory_back(c);
        c.ev("windowSize(%u) = %d%s", w, r, f ? " (no memory)" : "");
        if (stat) {
          if (w != m.asked) {  if (0 == r) {  c.fail("resize", "an external buffer of %u became %u", m.asked, w);  return;  }  }
          else if (m.initd) {  if (0 != r) {  c.fail("resize", "windowSize() of its own size returned %d", r);  return;  }  m.reset(w);  }
          else if (0 == r) {    // Initialized by being told its size.
            m.reset(w);
          }
        }
        else {
          if (w == 0 && m.asked == 0 && !m.initd) {  break;  }     // Nothing to say about emptying what is empty.
          if (f) {
            if (0 == r) {  c.fail("resize", "windowSize(%u) succeeded without memory", w);  return;  }
            m.reset(0);
          }
          else {
            if (0 != r) {  c.fail("resize", "windowSize(%u) returned %d", w, r);  return;  }
            if (!m.initd && w) c.probe(P_RECOVERED);
            m.reset(w);
            if (w) c.probe(P_RESIZE);
            else c.probe(P_EMPTY);
          }
          m.asked = w;
        }
        (void) try_f;
        break;
      }
      case 4: {
        if (!c.chance(1, 3)) break;
        const bool was = m.initd;
        if (!stat) no_memory(c);
        const int8_t r = s.init();
        const bool f = memory_back(c);
        c.ev("init() again = %d%s", r, f ? " (no memory)" : "");
        m.reset(f ? 0 : m.asked);
        if ((0 == r) != m.initd) {  c.fail("init", "init() of %u returned %d", m.asked, r);  return;  }
        if (m.initd && !was) c.probe(P_RECOVERED);
        break;
      }
      case 5: case 6: case 7: case 8: case 9: case 10:
        if (fed > 1) c.probe(P_STALE);
        if (!query_ts(c, s, m, (int) c.draw(8))) return;
        break;
      case 11:
        for (int q = 0; q < 8; q++) if (!query_ts(c, s, m, q)) return;
        break;
      case 12: case 13:
        if (!copy_ts(c, s, m, c.range(0, m.mem.size() + 1), c.chance(1, 2) ? 0 : c.range(0, m.mem.size() + 1), true)) return;
        break;
      case 14:
        if (!copy_ts(c, s, m, c.range(0, m.mem.size() + 1), 0, false)) return;
        break;
      case 15: {
        char b[20];
        snprintf(b, sizeof(b), "s%u", c.draw(100000));
        if (0 != s.name(b)) {  c.fail("name", "name() refused");  return;  }
        nm = b;
        break;
      }
      case 16: {   // Sent to somewhere else.
        if (!m.full()) break;
        StringBuilder out;
        const int8_t r = s.serialize(&out, TCode::CBOR);
        if (0 != r) {  c.fail("serialize", "serialize() returned %d", r);  return;  }
        C3PValue* val = C3PValue::deserialize(&out, TCode::CBOR);
        if (!val) {  c.fail("serialize", "what was serialized does not parse");  return;  }
        TimeSeriesBase* base = nullptr;
        Model<T> m2;
        const int8_t r2 = val->get_as(&base);
        c.ev("round trip: %d", r2);
        if (0 != r2 || !base) {  c.fail("deserialize", "get_as() returned %d", r2);  return;  }
        if (base->tcode() != s.tcode()) {  c.fail("deserialize", "a series of %s came back as one of %s", typecodeToStr(s.tcode()), typecodeToStr(base->tcode()));  return;  }
        TimeSeries<T>* t = (TimeSeries<T>*) base;
        if (nm != t->name()) {  c.fail("deserialize", "the name came back as '%s', was '%s'", t->name(), nm.c_str());  return;  }
        m2 = m;
        std::rotate(m2.mem.begin(), m2.mem.begin() + m2.idx, m2.mem.end());   // Oldest first...
        if (t->lastIndex() >= m2.mem.size() || t->windowSize() != m2.mem.size()) {  c.fail("deserialize", "window of %u came back as %u with index %u", (uint32_t) m2.mem.size(), t->windowSize(), t->lastIndex());  return;  }
        m2.idx = t->lastIndex();                                              // ...wherever it chose to begin.
        std::rotate(m2.mem.begin(), m2.mem.begin() + (m2.mem.size() - m2.idx) % m2.mem.size(), m2.mem.end());
        bool ok = check_ts(c, *t, m2, "after a round trip");
        for (int q = 0; ok && q < 8; q++) ok = query_ts(c, *t, m2, q);
        if (ok) ok = copy_ts(c, *t, m2, m2.mem.size(), 0, true) && copy_ts(c, *t, m2, m2.mem.size(), 0, false);
        const int n = (int) c.range(0, m2.mem.size());
        for (int i = 0; ok && i < n; i++) {
          const T v = g.next(c);
          t->feedSeries(v);
          m2.mem[m2.idx] = v;  m2.idx = (m2.idx + 1) % m2.mem.size();  m2.total++;
        }
        if (ok) for (int q = 0; ok && q < 8; q++) ok = query_ts(c, *t, m2, q);
        delete val;    // It owns the series.
        if (!ok) return;
        c.probe(P_ROUNDTRIP);
        break;
      }
    }
    if (!c.failed()) check_ts(c, s, m, "after an operation");
    c.state(hash64(7, m.mem.size() * 131 + m.idx * 7 + (m.full() ? 1 : 0) + (m.total > 2 * m.mem.size() ? 2 : 0) + (sizeof(T) << 20) + (stat ? 1u << 30 : 0)));
  }
  if (stat && (ext[0] != T(55) || ext[w0 + 1] != T(55))) {  c.fail("bounds", "wrote outside the external buffer");  return;  }
  if (!c.failed()) for (int q = 0; q < 8; q++) if (!query_ts(c, s, m, q)) return;
  }
}

/* ---- SensorFilter ------------------------------------------------------------------------------------------------------------ */
const FilteringStrategy STRATS[] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_AVG, FilteringStrategy::MOVING_MED};

struct FModel {
  bool initd = false, full = false, must_dirty = false;
  uint32_t asked = 0, idx = 0;
  uint64_t total = 0;
  FilteringStrategy strat;
  bool last_known = true;
  void reset(uint32_t w) {  full = false;  idx = 0;  total = 0;  initd = w > 0;  last_known = w > 0;  must_dirty = false;  }
};
bool check_f(Ctx& c, SensorFilterBase& s, const FModel& m, uint32_t W, const char* when) {
  if (s.initialized() != m.initd) {  c.fail("state", "%s: initialized() is %d", when, s.initialized());  return false;  }
  if (s.windowSize() != (m.initd ? W : 0)) {  c.fail("window", "%s: windowSize() is %u, expected %u", when, s.windowSize(), W);  return false;  }
  if (!m.initd) return true;
  if ((s.windowFull() != 0) != m.full) {  c.fail("full", "%s: windowFull() is %d after %u of %u", when, s.windowFull(), (uint32_t) m.total, W);  return false;  }
  if (s.lastIndex() != m.idx) {  c.fail("index", "%s: lastIndex() is %u, expected %u", when, s.lastIndex(), m.idx);  return false;  }
  if (s.totalSamples() != m.total) {  c.fail("total", "%s: totalSamples() is %u, expected %u", when, s.totalSamples(), (uint32_t) m.total);  return false;  }
  if (m.must_dirty && !s.dirty()) {  c.fail("dirty", "%s: not dirty with a result that nobody has read", when);  return false;  }
  return true;
}

/* The parts that differ between a scalar and a vector filter. */
template <class T> struct Scalar {
  typedef SensorFilter<T> Filter;  typedef T V;
  static const char* name() {  return typecodeToStr(tcodeForType(T(0)));  }
  static const bool EXTERNAL = true;
  static Filter* make(V* b, uint32_t w, FilteringStrategy s) {  return b ? new Filter(b, w, s) : new Filter(w, s);  }
  static V zero() {  return T(0);  }
  struct G {  Gen<T> g;  G(Ctx& c) : g(c) {}  V next(Ctx& c) {  return g.next(c);  }  };
  static int8_t feed(Filter& f, V v) {  return f.feedFilter(v);  }
  static bool value_is(Filter& f, V want) {  return f.value() == want;  }
  static const int REAL = std::is_floating_point<T>::value ? 1 : 0;      // Axes whose running average can be told.
  static void axes(const V& v, Big* o) {  o[0] = (Big) v;  }
  static void read(Filter& f, Big* o) {  o[0] = (Big) f.value();  }
  static bool value_is_median(Ctx&, Filter& f, const std::vector<V>& mem) {  return median_ok<T>(stats_of(mem), f.value());  }
  static bool query(Ctx& c, Filter& s, const std::vector<V>& mem, bool full, int what) {
    Stats w = {0, 0, 0, 0, 0, 0, 0};
    if (full) w = stats_of(mem);
    Big got = 0, want = 0;
    bool ok = true;
    const bool one = mem.size() == 1;
    const char* n = "";
    switch (what) {
      case 0:  n = "minValue";  got = s.minValue();  want = w.mn;  ok = got == want;  break;
      case 1:  n = "maxValue";  got = s.maxValue();  want = w.mx;  ok = got == want;  break;
      case 2:  n = "mean";  got = s.mean();  want = w.mean;  ok = near<T>(want, got, w.scale);  break;
      case 3:  n = "rms";  got = s.rms();  if (one) break;  want = w.rms;  ok = near<T>(want, got, w.scale);  break;
      case 4:  n = "stdev";  got = s.stdev();  want = w.stdev;  ok = near<T>(want, got, w.scale);  break;
      case 5:  n = "median";  c.probe(P_MEDIAN);  got = s.median();  if (!full) break;  want = w.med;  ok = median_ok<T>(w, s.median());  break;
      default:
        n = "snr";  got = s.snr();
        if (full && w.stdev > w.scale * 1e-2L) {  want = w.mean / w.stdev;  ok = fabsl(got - want) <= 1e-5L * fabsl(want) + 1e-5L;  }
        break;
    }
    c.ev("%s() = %Lg", n, got);
    if (!ok) c.fail(n, "%s() is %.15Lg, expected %.15Lg (window of %u %s%s)", n, got, want, (uint32_t) mem.size(), name(), full ? "" : ", not full");
    return ok;
  }
};
struct Vec {  float a[3];  bool operator==(const Vec& o) const {  return a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2];  }  };
struct Vector {
  typedef SensorFilter3<float> Filter;  typedef Vec V;
  static const char* name() {  return "VECT_3_FLOAT";  }
  static const bool EXTERNAL = false;      // It is declared, but does not compile.
  static Filter* make(V*, uint32_t w, FilteringStrategy s) {  return new Filter(w, s);  }
  static V zero() {  return Vec{{0, 0, 0}};  }
  struct G {  Gen<float> x, y, z;  G(Ctx& c) : x(c), y(c), z(c) {}  V next(Ctx& c) {  return Vec{{x.next(c), y.next(c), z.next(c)}};  }  };
  static int8_t feed(Filter& f, V v) {
    if (v.a[0] > v.a[1]) {  Vector3<float> q(v.a[0], v.a[1], v.a[2]);  return f.feedFilter(&q);  }
    return f.feedFilter(v.a[0], v.a[1], v.a[2]);
  }
  static bool value_is(Filter& f, V want) {  Vector3<float>* q = f.value();  return Vec{{q->x, q->y, q->z}} == want;  }
  static const int REAL = 3;
  static void axes(const V& v, Big* o) {  for (int k = 0; k < 3; k++) o[k] = v.a[k];  }
  static void read(Filter& f, Big* o) {  Vector3<float>* q = f.value();  o[0] = q->x;  o[1] = q->y;  o[2] = q->z;  }
  static std::vector<float> axis(const std::vector<V>& mem, int k) {  std::vector<float> r;  for (auto& v : mem) r.push_back(v.a[k]);  return r;  }
  static bool value_is_median(Ctx&, Filter& f, const std::vector<V>& mem) {
    Vector3<float>* q = f.value();
    return median_ok<float>(stats_of(axis(mem, 0)), q->x) && median_ok<float>(stats_of(axis(mem, 1)), q->y) && median_ok<float>(stats_of(axis(mem, 2)), q->z);
  }
  static Big len(const Vec& v) {  return sqrtl((Big) v.a[0] * v.a[0] + (Big) v.a[1] * v.a[1] + (Big) v.a[2] * v.a[2]);  }
  static bool query(Ctx& c, Filter& s, const std::vector<V>& mem, bool full, int what) {
    if (what < 2) {    // The shortest and the longest.
      Vector3<float>* q = what ? s.maxValue() : s.minValue();
      Vec v = {{q->x, q->y, q->z}};
      const char* n = what ? "maxValue" : "minValue";
      c.ev("%s() = (%g, %g, %g)", n, v.a[0], v.a[1], v.a[2]);
      if (!full) {  if (!(v == zero())) {  c.fail(n, "%s() is (%g, %g, %g) before the window is full", n, v.a[0], v.a[1], v.a[2]);  return false;  }  return true;  }
      bool in = false;
      Big best = len(mem[0]);
      for (auto& m : mem) {  in = in || m == v;  best = what ? std::max(best, len(m)) : std::min(best, len(m));  }
      if (!in || fabsl(len(v) - best) > 1e-5L * best) {  c.fail(n, "%s() is (%g, %g, %g), %s: length %Lg, expected %Lg", n, v.a[0], v.a[1], v.a[2], in ? "in the window" : "which was never fed", len(v), best);  return false;  }
      return true;
    }
    if (what > 4) return true;
    Vector3f64* q = (what == 2) ? s.mean() : ((what == 3) ? s.rms() : s.stdev());
    const char* n = (what == 2) ? "mean" : ((what == 3) ? "rms" : "stdev");
    const double got[3] = {q->x, q->y, q->z};
    c.ev("%s() = (%g, %g, %g)", n, got[0], got[1], got[2]);
    for (int k = 0; k < 3; k++) {
      Stats w = {0, 0, 0, 0, 0, 0, 0};
      if (full) w = stats_of(axis(mem, k));
      const Big want = (what == 2) ? w.mean : ((what == 3) ? w.rms : w.stdev);
      if (!near<float>(want, got[k], w.scale)) {  c.fail(n, "%s() axis %d is %.15g, expected %.15Lg (window of %u%s)", n, k, got[k], want, (uint32_t) mem.size(), full ? "" : ", not full");  return false;  }
    }
    return true;
  }
};

template <class A> void run_filter(Ctx& c) {
  typedef typename A::Filter Filter;
  typedef typename A::V V;
  typename A::G g(c);
  const uint32_t w0 = c.chance(1, 10) ? 0 : window(c);
  FModel m;
  std::vector<V> mem;
  V last = A::zero();
  // A moving average goes 1/W of the way to each sample.
  Big avg[3] = {0, 0, 0}, reach = 0;
  bool avg_known = true;
  auto avg_reset = [&]() {  avg[0] = avg[1] = avg[2] = reach = 0;  avg_known = true;  };
  m.asked = w0;
  m.strat = c.pick({STRATS[0], STRATS[1], STRATS[2], STRATS[2]});
  {
  const bool stat = A::EXTERNAL && c.chance(1, 5);
  std::vector<V> ext(w0 + 2, A::zero());
  Filter* sp = A::make(stat ? ext.data() + 1 : nullptr, w0, m.strat);
  Filter& s = *sp;
  struct Reap {  Filter* f;  ~Reap() {  delete f;  }  } reap = {sp};
  if (stat) c.probe(P_STATIC);
  c.ev("SensorFilter<%s> of %u, %s, %s", A::name(), w0, getFilterStr(m.strat), stat ? "external" : "own memory");
  auto reset = [&](uint32_t w) {  m.reset(w);  mem.assign(w, A::zero());  last = A::zero();  avg_reset();  };
  if (c.chance(9, 10)) {
    if (!stat) no_memory(c);
    const int8_t r = s.init();
    const bool f = memory_back(c);
    c.ev("init() = %d%s", r, f ? " (no memory)" : "");
    if (w0 > 0 && !f) reset(w0);
    if ((0 == r) != m.initd) {  c.fail("init", "init() of %u returned %d", w0, r);  return;  }
  }
  else c.probe(P_UNINIT);
  uint32_t fed = 0;
  c.plan_ops(10 + c.draw(120));
  while (c.next_op() && !c.failed()) {
    c.step();
    const uint32_t W = mem.size();
    switch (c.draw(18)) {
      default: {
        const int n = (int) c.range(1, c.chance(1, 4) ? W + 3 : 2);
        for (int i = 0; i < n; i++) {
          const V v = g.next(c);
          const int8_t r = A::feed(s, v);
          if (m.initd) {
            mem[m.idx] = v;  m.idx = (m.idx + 1) % W;  m.total++;  fed++;
            if (!m.idx) m.full = true;
            if (m.total > W) c.probe(P_WRAP);
            if (m.full) {  c.probe(P_FULL);  c.nontrivial();  m.must_dirty = true;  if (W == 1) c.probe(P_ONE);  }
            last = v;
            if (m.strat == FilteringStrategy::MOVING_AVG && A::REAL) {
              Big x[3] = {0, 0, 0};
              A::axes(v, x);
              for (int k = 0; k < A::REAL; k++) {  avg[k] += (x[k] - avg[k]) / W;  reach = std::max(reach, fabsl(x[k]));  }
            }
            m.last_known = W == 1 || m.strat == FilteringStrategy::RAW || (m.full && m.strat == FilteringStrategy::MOVING_MED);
          }
          const int8_t want = m.initd ? (m.full ? 1 : 0) : -1;
          if (r != want) {  c.fail("feed", "feedFilter() returned %d, expected %d (window of %u)", r, want, W);  return;  }
        }
        c.ev("fed %d", n);
        break;
      }
      case 0: {
        for (auto& x : mem) x = g.next(c);
        if (m.initd) memcpy((void*) s.memPtr(), mem.data(), W * sizeof(V));
        const int8_t r = s.feedFilter();
        c.ev("bulk feed = %d", r);
        if ((r == 0) != m.initd) {  c.fail("feed", "feedFilter() returned %d", r);  return;  }
        if (m.initd) {  m.total += W;  m.full = true;  m.idx = 0;  m.last_known = avg_known = false;  m.must_dirty = false;  c.probe(P_BULK);  }
        break;
      }
      case 1: {
        const int8_t r = s.purge();
        c.ev("purge() = %d", r);
        if (m.initd && r != 0) {  c.fail("purge", "purge() returned %d", r);  return;  }
        if (m.initd) {  reset(W);  c.probe(P_PURGE);  }
        break;
      }
      case 2: case 3: {
        const uint32_t w = c.chance(1, 3) ? m.asked : (c.chance(1, 8) ? 0 : window(c));
        if (w == 0 && m.asked == 0 && !m.initd) break;
        if (stat && w == m.asked && !m.initd) break;
        if (!stat) no_memory(c);
        const int8_t r = s.windowSize(w);
        const bool f = memory_back(c);
        c.ev("windowSize(%u) = %d%s", w, r, f ? " (no memory)" : "");
        if (stat && w != m.asked) {
          if (0 == r) {  c.fail("resize", "an external buffer of %u became %u", m.asked, w);  return;  }
          break;
        }
        if ((0 == r) == f) {  c.fail("resize", "windowSize(%u) returned %d%s", w, r, f ? " without memory" : "");  return;  }
        if (!f && !m.initd && w) c.probe(P_RECOVERED);
        reset(f ? 0 : w);
        if (!f) c.probe(w ? P_RESIZE : P_EMPTY);
        m.asked = w;
        break;
      }
      case 4: {
        if (stat || !c.chance(1, 3)) break;
        const bool was = m.initd;
        no_memory(c);
        const int8_t r = s.init();
        const bool f = memory_back(c);
        c.ev("init() again = %d%s", r, f ? " (no memory)" : "");
        reset(f ? 0 : m.asked);
        if ((0 == r) != m.initd) {  c.fail("init", "init() of %u returned %d", m.asked, r);  return;  }
        if (m.initd && !was) c.probe(P_RECOVERED);
        break;
      }
      case 5: {
        const FilteringStrategy t = c.pick({STRATS[0], STRATS[1], STRATS[2]});
        const int8_t r = s.setStrategy(t);
        c.ev("setStrategy(%s) = %d", getFilterStr(t), r);
        if ((0 == r) != (t != m.strat)) {  c.fail("strategy", "setStrategy(%s) returned %d", getFilterStr(t), r);  return;  }
        if (0 == r) {  m.strat = t;  last = A::zero();  m.last_known = true;  avg_reset();  c.probe(P_STRATEGY);  }
        if (s.strategy() != m.strat) {  c.fail("strategy", "strategy() is %s", getFilterStr(s.strategy()));  return;  }
        break;
      }
      case 6: case 7: case 8: case 9: {
        if (fed > 1) c.probe(P_STALE);
        if (!A::query(c, s, mem, m.full && m.initd, (int) c.draw(7))) return;
        break;
      }
      case 10:
        for (int q = 0; q < 7; q++) if (!A::query(c, s, mem, m.full && m.initd, q)) return;
        break;
      case 11: case 12: {
        bool ok = true;
        const bool med = m.initd && W > 1 && m.full && m.strat == FilteringStrategy::MOVING_MED && m.last_known && fed && !(last == A::zero());
        if (m.last_known && m.initd) {
          if (med) ok = A::value_is_median(c, s, mem);
          else ok = A::value_is(s, last) || (m.strat == FilteringStrategy::MOVING_MED && W > 1);
        }
        else if (m.initd && m.strat == FilteringStrategy::MOVING_AVG && A::REAL && avg_known) {
          Big got[3];
          A::read(s, got);
          for (int k = 0; k < A::REAL; k++) if (fabsl(got[k] - avg[k]) > reach * 1e-4L) {
            c.fail("average", "the running average (axis %d) is %.9Lg; %.9Lg expected (window of %u, %u fed)", k, got[k], avg[k], W, (uint32_t) m.total);
            return;
          }
          c.probe(P_AVERAGE);
        }
        else s.value();
        c.ev("value()%s", m.last_known ? "" : " (not predicted)");
        if (!ok) {  c.fail("value", "value() is not %s (window of %u, %s)", med ? "the median of the window" : "the newest sample", W, getFilterStr(m.strat));  return;  }
        if (s.dirty()) {  c.fail("dirty", "still dirty after its value was read");  return;  }
        m.must_dirty = false;
        break;
      }
    }
    if (!c.failed()) check_f(c, s, m, mem.size(), "after an operation");
    c.state(hash64(7, mem.size() * 131 + m.idx * 7 + (m.full ? 1 : 0) + ((int) m.strat << 8) + (sizeof(V) << 20) + (1u << 29)));
  }
  if (!(ext[0] == A::zero()) || !(ext[w0 + 1] == A::zero())) {  c.fail("bounds", "wrote outside the external buffer");  return;  }
  if (!c.failed()) for (int q = 0; q < 7; q++) if (!A::query(c, s, mem, m.full && m.initd, q)) return;
  }
}

void one(Ctx& c) {
  switch (c.draw(22)) {
    case 0:  run_ts<int8_t>(c);  break;
    case 1:  run_ts<int16_t>(c);  break;
    case 2:  run_ts<int32_t>(c);  break;
    case 3:  run_ts<int64_t>(c);  break;
    case 4:  run_ts<uint8_t>(c);  break;
    case 5:  run_ts<uint16_t>(c);  break;
    case 6:  run_ts<uint32_t>(c);  break;
    case 7:  run_ts<uint64_t>(c);  break;
    case 8:  run_ts<float>(c);  break;
    case 9:  run_ts<double>(c);  break;
    case 10: run_filter<Scalar<int8_t>>(c);  break;
    case 11: run_filter<Scalar<int16_t>>(c);  break;
    case 12: run_filter<Scalar<int32_t>>(c);  break;
    case 13: run_filter<Scalar<uint8_t>>(c);  break;
    case 14: run_filter<Scalar<uint16_t>>(c);  break;
    case 15: run_filter<Scalar<uint32_t>>(c);  break;
    case 16: run_filter<Scalar<float>>(c);  break;
    case 17: run_filter<Scalar<double>>(c);  break;
    default: run_filter<Vector>(c);  break;
  }
}
void run(Ctx& c) {
  const size_t before = heap_in_use();
  one(c);
  if (!c.failed() && heap_in_use() > before) c.fail("leak", "%u bytes were not released", (unsigned) (heap_in_use() - before));
}
}  // namespace

sim::Harness g_harness = {
  "D04",
  "One series or filter of a random element type under a random history of feeding, reading, purging, resizing and sending; compared with a model after each. Non-trivial: its window was filled.",
  run,
  {"failed_resize_allocation"},
  {"window_full", "window_wrapped", "stat_after_change", "resized", "no_memory", "recovered_from_no_window", "window_of_none", "bulk_fed", "purged", "newest_copied", "round_trip", "external_buffer", "strategy_changed", "window_of_one", "extreme_values", "median_read", "used_uninitialized", "running_average_read"},
  {"TimeSeries<T>", "SensorFilter<T>", "SensorFilter3<float>", "C3PValue CBOR codec", "Vector3"},
  {"allocator (failing)"},
  "distinct (kind, window size, write index, fullness) of the window",
  {},
  20000, 400000
};
