/* S06: a trace keeps the latest points, where and when they were left, and what its pathways cost. */
#include "sb.h"
#include "TimerTools/C3PTrace.h"
#include <map>
#include <algorithm>
#include <memory>
using namespace sim;

namespace {
enum {  F_ALLOC, F_WRAP, F_LONG, F_OFF, F_EXACT  };
enum {  P_POINT, P_OVERWRITTEN, P_LAP, P_STOP_IDLE, P_START_TWICE, P_TWO_ENDS, P_TWO_PATHS, P_OFF, P_RESET, P_DENIED, P_SHARED, P_LONE, P_PRINTED, P_MOVED, P_POINT_MOVED  };

struct End {  uint32_t n = 0, total = 0, worst = 0, best = 0xFFFFFFFFu, last = 0;  };
struct Path {  bool started = false;  uint32_t t0 = 0, w0 = 0;  std::map<uint32_t, End> ends;  };
struct Point {  uint32_t w, ts;  };

uint32_t word(uint32_t line, uint32_t file, uint32_t path, TraceAction a) {
  return ((line << C3P_TRACE_WORD_LINE_OFFSET) & C3P_TRACE_WORD_LINE_MASK) | ((file << C3P_TRACE_WORD_FILE_OFFSET) & C3P_TRACE_WORD_FILE_MASK)
    | ((path << C3P_TRACE_WORD_PATH_OFFSET) & C3P_TRACE_WORD_PATH_MASK) | (((uint32_t) a << C3P_TRACE_WORD_ACTN_OFFSET) & C3P_TRACE_WORD_ACTN_MASK);
}
const uint32_t SPATIAL = (1u << (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS)) - 1;
std::string row(uint32_t file, uint32_t line, const End& e) {
  char b[160];
  snprintf(b, sizeof b, "F%u L%u: %u laps, total %u, mean %u, worst %u, best %u, last %u", file, line, e.n, e.total, e.n ? e.total / e.n : 0, e.worst, e.best, e.last);
  return b;
}
uint32_t line_of(uint32_t w) {  return w & ((1u << CONFIG_C3P_TRACE_WORD_LINE_BITS) - 1);  }
uint32_t file_of(uint32_t w) {  return (w >> CONFIG_C3P_TRACE_WORD_LINE_BITS) & ((1u << CONFIG_C3P_TRACE_WORD_FILE_BITS) - 1);  }
std::string block(uint32_t w0, std::vector<std::string> rows) {
  std::sort(rows.begin(), rows.end());
  std::string s = "from F" + std::to_string(file_of(w0)) + " L" + std::to_string(line_of(w0));
  for (auto& r : rows) s += " | " + r;
  return s;
}
std::string block(const Path& p) {
  std::vector<std::string> rows;
  for (auto& e : p.ends) rows.push_back(row(file_of(e.first), line_of(e.first), e.second));
  return block(p.w0, rows);
}
void lap(Path& p, uint32_t w, uint32_t ts) {
  End& e = p.ends[w];
  uint32_t d = ts - p.t0;
  e.n++;  e.total += d;  e.last = d;
  if (d > e.worst) e.worst = d;
  if (d < e.best) e.best = d;
}
uint32_t now(Ctx& c) {
  if (0 == (uint32_t) c.now_us) c.advance(1);            // Zero stands for no time at all.
  return (uint32_t) c.now_us;
}
// Lets time pass, by the drawing of the schedule.
void pass(Ctx& c) {
  switch (c.draw(4)) {
    case 0:  break;
    case 1:  c.advance(c.draw(50));  break;
    case 2:  c.advance(c.draw(300000));  break;
    default:
      if (c.chance(1, 6)) {  c.advance(1000000000ull + c.draw(2000000000u));  c.fault(F_LONG);  }
      else c.advance(c.draw(4000));
  }
}

int64_t held = 0;        // Memory the trace has taken and not given back.
#define REAL(X) do {  size_t b4_ = heap_in_use();  X;  held += (int64_t) heap_in_use() - (int64_t) b4_;  } while (0)

struct Run {
  Ctx& c;
  C3PTrace* t = nullptr;
  bool shared = false, on = false;
  uint32_t cap = 0;
  std::vector<Point> pts;
  std::map<uint8_t, Path> paths;
  uint32_t lines[5], files[3], ids[4];
  Run(Ctx& x) : c(x) {}

  void arm() {  if (c.chance(1, 8)) {  g_malloc_fail_in = 0;  g_malloc_fail_sticky = true;  }  }
  bool disarm() {
    bool d = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (d) {  c.fault(F_ALLOC);  c.probe(P_DENIED);  }
    return d;
  }
  void trace() {
    uint32_t line = lines[c.draw(5)], file = files[c.draw(3)], id = ids[c.draw(c.pick({1u, 4u}))];
    TraceAction a = (TraceAction) c.draw(3);
    uint32_t w = word(line, file, id, a), sp = w & SPATIAL;
    c.ev("trace F%u L%u path %u action %d%s", file, line, id, (int) a, on ? "" : " (off)");
    arm();
    uint32_t ts = now(c);
    REAL(t->leave_trace(w));
    bool denied = disarm();
    if (!on) {  c.fault(F_OFF);  c.probe(P_OFF);  return;  }
    c.nontrivial();
    c.probe(P_POINT);
    if (pts.size() == cap) {  pts.erase(pts.begin());  c.probe(P_OVERWRITTEN);  }
    pts.push_back({sp, ts});
    if (a == TraceAction::POI) return;
    if (!paths.count(id) && denied) return;
    Path& p = paths[id];
    if (paths.size() > 1) c.probe(P_TWO_PATHS);
    if (a == TraceAction::PATH_START) {
      if (p.started) {  c.probe(P_START_TWICE);  return;  }
      p.started = true;  p.t0 = ts;  p.w0 = sp;
      return;
    }
    if (!p.started) {  c.probe(P_STOP_IDLE);  return;  }
    p.started = false;
    if (!p.ends.count(sp) && denied) return;
    lap(p, sp, ts);
    c.probe(P_LAP);
    if (p.ends.size() > 1) c.probe(P_TWO_ENDS);
  }
  void print() {
    StringBuilder o;
    t->serialize(&o, TCode::STR);
    std::string s((const char*) o.string(), o.length());
    std::vector<Point> got;
    std::vector<std::string> blocks, rows;
    uint32_t w0 = 0;
    bool in = false;
    size_t at = 0;
    while (at < s.size()) {
      size_t e = s.find('\n', at);
      if (e == std::string::npos) e = s.size();
      std::string l = s.substr(at, e - at);
      at = e + 1;
      unsigned f, n, ts, q[6];
      const char* from = strstr(l.c_str(), "TracePath from ");
      if (from && 2 == sscanf(from, "TracePath from F%u-L%u", &f, &n)) {
        if (in) blocks.push_back(block(w0, rows));
        in = true;  w0 = word(n, f, 0, TraceAction::POI);  rows.clear();
      }
      else if (in) {
        if (8 == sscanf(l.c_str(), " F%u-L%u %u %u %u %u %u %u", &f, &n, q, q + 1, q + 2, q + 3, q + 4, q + 5)) {
          End x;  x.n = q[0];  x.total = q[1];  x.worst = q[3];  x.best = q[4];  x.last = q[5];
          if (q[2] != (q[0] ? q[1] / q[0] : 0)) {  c.fail("mean", "a pathway's mean is given as %u, with %u us in %u laps", q[2], q[1], q[0]);  return;  }
          rows.push_back(row(f, n, x));
        }
      }
      else if (3 == sscanf(l.c_str(), "F%u-L%u:\t%u", &f, &n, &ts)) got.push_back({word(n, f, 0, TraceAction::POI), ts});
      else if (!l.empty()) {  c.fail("print", "no sense can be made of [%s]", l.c_str());  return;  }
    }
    if (in) blocks.push_back(block(w0, rows));
    if (got.size() != pts.size()) {  c.fail("points", "the trace holds %zu points, of the %zu that it should", got.size(), pts.size());  return;  }
    for (size_t i = 0; i < pts.size(); i++) {
      if (got[i].w != pts[i].w || got[i].ts != pts[i].ts) {
        c.fail("points", "point %zu is F%u L%u at %u, not F%u L%u at %u", i, file_of(got[i].w), line_of(got[i].w), got[i].ts, file_of(pts[i].w), line_of(pts[i].w), pts[i].ts);
        return;
      }
    }
    // Pathways that have been timed. Of those that haven't, nothing is asked.
    std::vector<std::string> want, have;
    for (auto& p : paths) if (!p.second.ends.empty()) want.push_back(block(p.second));
    for (auto& b : blocks) if (b.find('|') != std::string::npos) have.push_back(b);
    std::sort(want.begin(), want.end());  std::sort(have.begin(), have.end());
    if (want != have) {
      std::string a, b;
      for (auto& x : want) a += "\n    " + x;
      for (auto& x : have) b += "\n    " + x;
      c.fail("pathways", "the trace tells of these pathways:%s\n  It should of these:%s", b.c_str(), a.c_str());
      return;
    }
    c.probe(P_PRINTED);
  }
  void run() {
    for (auto& x : lines) x = c.pick({1u, 2u, 257u, 258u, 0u, (1u << CONFIG_C3P_TRACE_WORD_LINE_BITS) - 1, c.draw(1u << CONFIG_C3P_TRACE_WORD_LINE_BITS), c.draw(400)});
    for (auto& x : files) x = c.pick({0u, 1u, (1u << CONFIG_C3P_TRACE_WORD_FILE_BITS) - 1, c.draw(1u << CONFIG_C3P_TRACE_WORD_FILE_BITS)});
    for (auto& x : ids) x = c.pick({0u, 1u, (1u << CONFIG_C3P_TRACE_WORD_PATH_BITS) - 1, c.draw(1u << CONFIG_C3P_TRACE_WORD_PATH_BITS)});
    shared = c.chance(1, 6);
    if (shared) {  t = C3PTrace::tracerTool;  cap = CONFIG_C3P_TRACE_MAX_POINTS;  c.probe(P_SHARED);  }
    else {  cap = c.pick({1u, 2u, 3u, 5u, 12u});  REAL(t = new C3PTrace(cap));  }
    if (t->recording()) {  c.fail("recording", "a trace is recording before it has been told to");  }
    if (c.chance(9, 10)) {  REAL(t->recording(true));  on = true;  }
    c.plan_ops(shared ? 150 + c.draw(150) : 10 + c.draw(60));
    while (c.next_op() && !c.failed()) {
      c.step();
      pass(c);
      switch (c.draw(shared ? 60 : 12)) {
        case 0:
          if (c.chance(1, 2)) {
            bool en = c.chance(3, 4);
            // Recording may begin or end at the very moment the counter wraps.
            uint64_t wrap = (c.now_us | 0xFFFFFFFFull) + 1;
            if (wrap - c.now_us <= 400000 && c.chance(1, 2)) {  c.advance(wrap - c.now_us);  c.fault(F_EXACT);  }
            arm();
            REAL(t->recording(en));
            bool denied = disarm();
            c.ev("recording(%d)%s", en, denied ? " without memory" : "");
            if (!denied) on = en;
            if (t->recording() != on) {  c.fail("recording", "recording(%d) left recording() as %d", en, t->recording());  }
          }
          else if (c.chance(1, 3)) {
            c.ev("reset");
            REAL(t->reset());
            c.probe(P_RESET);
            pts.clear();
            for (auto& p : paths) p.second = Path();
          }
          break;
        case 1:  print();  break;
        default:  trace();
      }
      uint64_t h = pts.size() * 2 + on;
      for (auto& p : paths) h = h * 8 + p.second.started * 4 + std::min<size_t>(p.second.ends.size(), 3);
      c.state(h);
    }
    c.begin_tail();
    if (!c.failed()) print();
    if (!shared && !c.failed()) {
      REAL(delete t);
      if (held) c.fail("leak", "a trace that is gone left %lld bytes behind", (long long) held);
    }
  }
};

// --- Pathways by themselves, and as CBOR ---------------------------------------
struct Cbor {
  const uint8_t* p;  size_t n, at = 0;  bool bad = false;
  uint64_t head(int* major) {
    if (at >= n) {  bad = true;  *major = -1;  return 0;  }
    uint8_t b = p[at++];
    *major = b >> 5;
    int m = b & 31;
    if (m < 24) return m;
    if (m > 27) {  bad = true;  return 0;  }
    uint64_t v = 0;
    for (int i = 0; i < (1 << (m - 24)); i++) {  if (at >= n) {  bad = true;  return 0;  }  v = v << 8 | p[at++];  }
    return v;
  }
  uint64_t want(int major) {
    int m;
    uint64_t v = head(&m);
    if (m != major) bad = true;
    return v;
  }
  std::string str() {
    uint64_t l = want(3);
    if (bad || l > n - at) {  bad = true;  return "";  }
    std::string s((const char*) p + at, l);
    at += l;
    return s;
  }
};
void lone(Ctx& c) {
  c.probe(P_LONE);
  uint8_t id = c.draw(256);
  std::unique_ptr<TracePath> own(new TracePath(id));
  TracePath& tp = *own;
  Path m;
  uint32_t spots[4];
  for (auto& x : spots) x = c.draw(SPATIAL + 1);
  c.plan_ops(5 + c.draw(40));
  while (c.next_op() && !c.failed()) {
    c.step();
    pass(c);
    uint32_t w = spots[c.draw(4)], ts = now(c);
    TracePoint p(ts, w);
    uint32_t kind = c.draw(10);
    if (p.lineID() != line_of(w) || p.fileID() != file_of(w)) {  c.fail("fields", "a point at %08x is on line %u of file %u", w, p.lineID(), p.fileID());  return;  }
    if (c.chance(1, 10)) {
      StringBuilder o;
      if (0 != p.serialize(&o, TCode::CBOR)) {  c.fail("cbor", "a point was not serialized");  return;  }
      Cbor d {o.string(), (size_t) o.length()};
      uint64_t f = ~0ull, l = ~0ull, t = ~0ull;
      for (uint64_t n = d.want(5); n > 0 && !d.bad; n--) {
        std::string key = d.str();
        uint64_t v = d.want(0);
        if (key == "F") f = v;  else if (key == "L") l = v;  else if (key == "T") t = v;
      }
      if (d.bad || d.at != d.n || f != file_of(w) || l != line_of(w) || t != ts) {  c.fail("cbor", "a point at %08x, %u, is told as %s", w, ts, hex(o.string(), o.length()).c_str());  return;  }
      c.probe(P_POINT_MOVED);
    }
    if (kind < 4) {
      bool r;
      REAL(r = tp.recordStart(w, &p));
      c.ev("start %06x", w);
      if (r == m.started) {  c.fail("start", "recordStart() says %d, and the pathway was%s started", r, m.started ? "" : "n't");  return;  }
      if (!m.started) {  m.started = true;  m.t0 = ts;  m.w0 = w;  }
      else c.probe(P_START_TWICE);
    }
    else if (kind < 8) {
      bool fault = c.chance(1, 8);
      if (fault) {  g_malloc_fail_in = 0;  g_malloc_fail_sticky = true;  }
      bool r;
      REAL(r = tp.recordStop(w, &p));
      bool denied = g_malloc_failed > 0;
      g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
      if (denied) {  c.fault(F_ALLOC);  c.probe(P_DENIED);  }
      c.ev("stop %06x%s", w, denied ? " without memory" : "");
      bool counts = m.started && !(denied && !m.ends.count(w));
      if (r != counts) {  c.fail("stop", "recordStop() says %d", r);  return;  }
      if (!m.started) c.probe(P_STOP_IDLE);
      if (counts) {  lap(m, w, ts);  c.probe(P_LAP);  c.nontrivial();  if (m.ends.size() > 1) c.probe(P_TWO_ENDS);  }
      m.started = false;
    }
    else if (kind < 9) {
      if (m.ends.empty()) continue;
      StringBuilder o;
      if (0 != tp.serialize(&o, TCode::CBOR)) {  c.fail("cbor", "a pathway that has been timed was not serialized");  return;  }
      Cbor d {o.string(), (size_t) o.length()};
      std::vector<std::string> rows;
      uint64_t k = d.want(5), w0 = 0;
      for (uint64_t i = 0; i < k && !d.bad; i++) {
        std::string key = d.str();
        if (key == "start") w0 = d.want(0);
        else if (key == "stops") {
          uint64_t ends = d.want(4);
          for (uint64_t j = 0; j < ends && !d.bad; j++) {
            uint64_t pairs = d.want(5), at = 0;
            End e;
            uint32_t mean = 0;
            for (uint64_t q = 0; q < pairs && !d.bad; q++) {
              key = d.str();
              if (key == "pnt") at = d.want(0);
              else if (key == "prof") {
                d.want(6);
                uint64_t facts = d.want(5);
                for (uint64_t f = 0; f < facts && !d.bad; f++) {
                  key = d.str();
                  uint32_t v = (uint32_t) d.want(0);
                  if (key == "e") e.n = v;  else if (key == "t") e.total = v;  else if (key == "a") mean = v;  else if (key == "w") e.worst = v;
                  else if (key == "b") e.best = v;  else if (key == "l") e.last = v;
                }
              }
              else d.bad = true;
            }
            if (mean != (e.n ? e.total / e.n : 0)) {  c.fail("mean", "a pathway's mean is given as %u, with %u us in %u laps", mean, e.total, e.n);  return;  }
            rows.push_back(row(file_of(at), line_of(at), e));
          }
        }
        else d.bad = true;
      }
      if (d.bad || d.at != d.n) {  c.fail("cbor", "a pathway's CBOR makes no sense: %s", hex(o.string(), o.length()).c_str());  return;  }
      if (block(w0, rows) != block(m)) {  c.fail("cbor", "a pathway's CBOR tells %s\n  It should tell %s", block(w0, rows).c_str(), block(m).c_str());  return;  }
      c.probe(P_MOVED);
    }
    else if (c.chance(1, 4)) {  c.ev("reset");  REAL(tp.reset());  m = Path();  c.probe(P_RESET);  }
    c.state(1000 + m.started * 8 + m.ends.size());
  }
  c.begin_tail();
  REAL(tp.reset());
  if (!c.failed() && held) c.fail("leak", "a pathway that was reset holds %lld bytes", (long long) held);
}
void run(Ctx& c) {
  uint64_t s = 1 + c.draw(1000000);
  if (c.chance(1, 2)) {  s = 0x100000000ull * (1 + c.draw(3)) - c.draw(c.pick({5u, 40000u, 400000u}));  c.fault(F_WRAP);  }
  set_clock(s);
  c.read_cost_us = 0;
  bool alone = c.chance(1, 4);
  held = 0;
  if (alone) lone(c);
  else {  Run r(c);  r.run();  }
}
}

Harness g_harness = {
  "S06",
  "One run: a trace with room for 1 to 12 points (or the library's own, with 180), or one pathway by itself, on the simulated clock, which starts near the wrap of the microsecond counter in half of runs. Points of interest, starts "
  "and stops of up to 4 pathways are left at up to 15 places, recording is turned on and off, and the trace is reset and printed. Memory may run out in any of these. Non-trivial: a point was recorded, or a lap timed. Distinct by event log.",
  run,
  {"allocation refused", "microsecond counter near wrap", "idle for over a thousand seconds", "traced while not recording", "recording switched as the counter wraps"},
  {"point recorded", "oldest point overwritten", "lap of a pathway", "stop without a start", "start while started", "pathway with two ends", "two pathways", "not recording", "reset", "memory denied", "the library's own trace", "pathway by itself", "printed", "pathway as CBOR", "point as CBOR"},
  {"C3PTrace", "TracePath", "TracePoint", "RingBuffer", "PriorityQueue", "StopWatch", "StringBuilder"},
  {"clock"},
  "points held, recording, and the phase and ends of each pathway, consecutive pairs",
  {}, 20000, 400000
};
