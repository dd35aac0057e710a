/* P07: a log line, once accepted, comes out once, whole and in order. */
#include "sb.h"
#include "sink.h"
#include <memory>
#include "AbstractPlatform.h"
#include "C3PLogger.h"
using namespace sim;

namespace {
enum {  F_REFUSE, F_PARTIAL, F_UNPLUG, F_ALLOC, F_CLOCK  };
enum {  P_FILTERED, P_FORWARDED, P_STORED, P_BACKLOG_FLUSHED, P_BACKLOG_PART, P_LINE_PART, P_FETCHED, P_LONG_TAG, P_WIDER, P_NARROW_AGAIN, P_FRAGMENTS, P_EMPTY, P_FORMATTED, P_SUBSET, P_SWITCHED, P_LONG  };

const char* SEV[] = {"EMERGENCY ", "ALERT     ", "CRITICAL  ", "ERROR     ", "WARNING   ", "NOTICE    ", "INFO      ", "DEBUG     "};

struct Run {
  Ctx& c;
  std::unique_ptr<C3PLogger> log;
  std::unique_ptr<Sink> sinks[2];
  int attached = -1;
  std::string expected, delivered;      // All that was accepted; and all that came out.
  bool with_time, with_sev, with_tag;
  uint8_t limit = LOG_LEV_DEBUG;
  size_t width = 1;
  std::string longest;
  int8_t last = 0;
  Run(Ctx& x) : c(x) {}

  void arrived(const char* how, const std::string& s) {
    delivered += s;
    if (c.failed()) return;
    if (delivered.size() > expected.size() || expected.compare(0, delivered.size(), delivered) != 0) {
      size_t i = 0;
      while (i < delivered.size() && i < expected.size() && delivered[i] == expected[i]) i++;
      c.fail("log-stream", "%s, at byte %u, is [%s] where [%s] was due", how, (unsigned) i, sb::show(delivered.substr(i, 40)).c_str(), sb::show(expected.substr(i, 40)).c_str());
    }
  }
  std::string content() {
    uint32_t n = c.pick({0u, 1u, 5u, 20u, 60u, 200u, 700u});
    if (n > 5) n = 1 + c.draw(n);
    if (n == 0) c.probe(P_EMPTY);
    if (n > 200) c.probe(P_LONG);
    std::string s;
    for (uint32_t i = 0; i < n; i++) s += (char) ("ab %s\n%n.{}xyz0123"[(i * 5 + n) % 18]);
    return s;
  }
  std::string tag() {
    uint32_t n = c.pick({0u, 1u, 3u, 8u, 23u, 24u, 25u, 60u, 256u, 300u});
    if (n > 3 && n < 23) n = 1 + c.draw(n);
    if (n > 24) c.probe(P_LONG_TAG);
    std::string s;
    for (uint32_t i = 0; i < n; i++) s += (char) ("Tag%s::fxn()"[i % 12]);
    return s;
  }
  std::string head(int part, uint8_t sev, const std::string& t) {
    char b[64];
    switch (part) {
      case 0: if (!with_time) return "";  snprintf(b, sizeof b, "%10u ", (unsigned) millis());  return b;
      case 1: if (!with_sev) return "";  return SEV[sev > 7 ? 7 : sev];
      default: {
        if (!with_tag) return "";
        std::string s = t.substr(0, LOG_TAG_MAX_LEN);
        if (s.size() > width) {  width = s.size();  c.probe(P_WIDER);  }
        else if (s.size() < width) c.probe(P_NARROW_AGAIN);
        return std::string(width - s.size(), ' ') + s + " ";
      }
    }
  }
  void settle(const char* when) {       // A willing sink has it all.
    if (c.failed() || attached < 0) return;
    Sink& s = *sinks[attached];
    if (!s.refuse && !s.part && s.room > 4096 && delivered.size() != expected.size()) c.fail("log-held", "%s, %u bytes were kept from a willing sink", when, (unsigned) (expected.size() - delivered.size()));
  }
  void print() {
    uint8_t sev = (uint8_t) c.pick({0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 200u});
    std::string t = tag(), m = content();
    const bool accepts = sev <= limit;
    const size_t before = delivered.size(), due = expected.size();
    std::string line;
    if (accepts) {
      for (int i = 0; i < 3; i++) line += head(i, sev, t);
      line += m + "\n";
      expected += line;
    }
    else c.probe(P_FILTERED);
    const uint32_t refused = attached >= 0 ? sinks[attached]->refused : 0, partial = attached >= 0 ? sinks[attached]->partial : 0;
    std::unique_ptr<char[]> z(new char[t.size() + 1]);
    memcpy(z.get(), t.c_str(), t.size() + 1);
    last = 99;
    if (c.chance(1, 4)) {               // By way of the formatted face of the log.
      c3p_log(sev, z.get(), "%s", m.c_str());
      c.probe(P_FORMATTED);
      if (last != (accepts ? 0 : -1) && !(m.empty() && last == 99)) c.fail("log-code", "print() of severity %u returned %d with a limit of %u", sev, last, limit);
      else if (last == 99) {  c.fail("log-lost", "an empty line never reached the logger");  }
    }
    else {
      StringBuilder b;
      size_t at = 0;
      int frags = 0;
      while (at < m.size()) {
        size_t n = c.chance(1, 3) ? 1 + c.draw((uint32_t) (m.size() - at)) : m.size() - at;
        b.concat((uint8_t*) &m[at], (int) n);
        at += n;
        frags++;
      }
      if (frags > 1) c.probe(P_FRAGMENTS);
      int8_t r = log->print(sev, z.get(), &b);
      if (r != (accepts ? 0 : -1)) c.fail("log-code", "print() of severity %u returned %d with a limit of %u", sev, r, limit);
      else if (b.length() != (accepts ? 0 : (int) m.size())) c.fail("log-taken", "%d bytes are left of a line of %u that was %s", b.length(), (unsigned) m.size(), accepts ? "accepted" : "not wanted");
      else if (!accepts && std::string((const char*) b.string(), b.length()) != m) c.fail("log-taken", "a line that was not wanted was changed");
    }
    z.reset();
    c.ev("print sev=%u tag=%u len=%u -> pending %u", sev, (unsigned) t.size(), (unsigned) m.size(), (unsigned) (expected.size() - delivered.size()));
    if (!accepts && delivered.size() != before) c.fail("log-code", "a line that was not wanted moved the log");
    if (accepts) {
      if (delivered.size() == expected.size()) c.probe(before < due ? P_BACKLOG_FLUSHED : P_FORWARDED);
      else c.probe(P_STORED);
      if (attached >= 0) {
        if (sinks[attached]->refused != refused) c.fault(F_REFUSE);
        if (sinks[attached]->partial != partial) {  c.fault(F_PARTIAL);  c.probe(delivered.size() < due ? P_BACKLOG_PART : P_LINE_PART);  }
      }
      settle("after a line");
    }
  }
  std::string fetch() {
    StringBuilder b;
    std::string pre = c.chance(1, 3) ? "before" : "";
    if (pre.size()) b.concat((uint8_t*) pre.data(), (int) pre.size());
    log->fetchLog(&b);
    std::string s((const char*) b.string(), b.length());
    if (s.compare(0, pre.size(), pre) != 0) {  c.fail("log-fetch", "fetchLog() changed what was in the container");  return "";  }
    return s.substr(pre.size());
  }
  // Memory is refused at any point of a line. The message may lose its trimmings; it is not lost.
  void starved() {
    if (attached >= 0) {  arrived("what was fetched", fetch());  log->setSink(nullptr);  attached = -1;  }
    else arrived("what was fetched", fetch());
    if (delivered.size() != expected.size()) return c.fail("log-held", "fetchLog() left %u bytes", (unsigned) (expected.size() - delivered.size()));
    uint8_t sev = (uint8_t) c.draw(limit + 1);
    std::string t = tag().substr(0, 24), m = content();
    StringBuilder b;
    if (m.size()) b.concat((uint8_t*) m.data(), (int) m.size());
    std::string p[5];
    size_t w = width;
    for (int i = 0; i < 3; i++) p[i] = head(i, sev, t);
    p[3] = m;  p[4] = "\n";
    (void) w;
    int32_t at = (int32_t) c.draw(8);
    g_malloc_fail_in = at;  g_malloc_failed = 0;
    g_malloc_fail_sticky = c.chance(1, 3);
    log->print(sev, t.c_str(), &b);
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
    if (g_malloc_failed) c.fault(F_ALLOC, g_malloc_failed);
    std::string got = fetch();
    c.ev("starved print: %u of %u bytes", (unsigned) got.size(), (unsigned) (p[0] + p[1] + p[2] + p[3] + p[4]).size());
    bool ok = false;
    for (int mask = 0; mask < 32 && !ok; mask++) {
      if (!(mask & 8)) continue;        // The message itself.
      std::string s;
      for (int i = 0; i < 5; i++) if (mask & (1 << i)) s += p[i];
      ok = s == got;
      if (ok && mask != 31 && g_malloc_failed == 0) ok = false;
      if (ok && s.size() < (p[0] + p[1] + p[2] + p[3] + p[4]).size()) c.probe(P_SUBSET);
    }
    if (!ok) c.fail("log-starved", "a line that lost memory came out as [%s]", sb::show(got).c_str());
  }
  void go() {
    with_time = c.chance(1, 2);  with_sev = c.chance(1, 2);  with_tag = c.chance(2, 3);
    uint8_t f = (with_time ? LOGGER_FLAG_PRINT_TIME : 0) | (with_sev ? LOGGER_FLAG_PRINT_LEVEL : 0) | (with_tag ? LOGGER_FLAG_PRINT_TAG : 0);
    for (auto& s : sinks) {
      s.reset(new Sink());
      s->on_take = [this](const std::string& x) {  arrived("what the sink took", x);  };
    }
    if (c.chance(2, 3)) attached = 0;
    if (c.chance(1, 3)) {  set_clock((uint64_t) 0xFFFFFFFFull * 1000 - c.draw(2000000));  c.fault(F_CLOCK);  }
    log.reset(new C3PLogger(f, attached >= 0 ? sinks[0].get() : nullptr));
    on_log = [this](uint8_t sev, const char* t, StringBuilder* b) {  last = log->print(sev, t, b);  };
    c.plan_ops(40);
    while (c.next_op() && !c.failed()) {
      uint32_t kind = c.draw(12);
      switch (kind) {
        default: print();  break;
        case 5:
          for (auto& s : sinks) {
            s->refuse = c.chance(1, 3);
            s->part = c.chance(1, 3);
            s->room = c.pick({1 << 20, 1 << 20, 0, 1, 10, 40, 300});
            s->unknown = c.chance(1, 4);
          }
          c.ev("appetites %d/%d %d/%d", sinks[0]->refuse, sinks[0]->room, sinks[1]->refuse, sinks[1]->room);
          break;
        case 6: {
          int to = (int) c.draw(3) - 1;
          if (to != attached) {  if (to < 0) c.fault(F_UNPLUG);  else c.probe(P_SWITCHED);  }
          attached = to;
          log->setSink(to < 0 ? nullptr : sinks[to].get());
          c.ev("sink %d", to);
          break;
        }
        case 7: {
          std::string s = fetch();
          c.ev("fetch %u", (unsigned) s.size());
          if (s.size()) c.probe(P_FETCHED);
          arrived("what was fetched", s);
          if (!c.failed() && delivered.size() != expected.size()) c.fail("log-held", "fetchLog() left %u bytes", (unsigned) (expected.size() - delivered.size()));
          log->fetchLog(nullptr);
          break;
        }
        case 8:
          limit = (uint8_t) c.pick({0u, 3u, 6u, 7u, 255u});
          log->verbosity(limit);
          c.ev("limit %u", limit);
          if (log->verbosity() != limit) c.fail("log-limit", "verbosity() is %u", log->verbosity());
          break;
        case 9: {
          bool on = c.chance(1, 2);
          switch (c.draw(3)) {
            case 0: with_time = on;  log->printTime(on);  break;
            case 1: with_sev = on;  log->printSeverity(on);  break;
            case 2: with_tag = on;  log->printTag(on);  break;
          }
          c.ev("flags %d%d%d", with_time, with_sev, with_tag);
          if (log->printTime() != with_time || log->printSeverity() != with_sev || log->printTag() != with_tag) c.fail("log-flags", "the flags are %d%d%d", log->printTime(), log->printSeverity(), log->printTag());
          break;
        }
        case 10: c.advance(c.pick({0u, 999u, 1000u, 77777u, 60000000u}));  break;
        case 11: if (limit < 8 && c.chance(1, 2)) {  expected = delivered = pend();  starved();  }  break;
      }
      c.step();
      if (expected.size() > 20000) {  size_t d = delivered.size();  expected.erase(0, d);  delivered.clear();  }
      c.state(hash64(kind, attached + 1) ^ hash64(expected.size() == delivered.size(), attached >= 0 ? sinks[attached]->refuse * 2 + (sinks[attached]->room < 400) : 9));
    }
    if (c.failed()) return;
    c.begin_tail();                     // The sink behaves. One more line brings everything.
    sinks[0]->refuse = sinks[0]->part = false;  sinks[0]->room = 1 << 20;
    log->setSink(sinks[0].get());  attached = 0;
    limit = 255;  log->verbosity(limit);
    print();
    if (!c.failed() && delivered.size() != expected.size()) c.fail("log-held", "at last, %u bytes were kept from a willing sink", (unsigned) (expected.size() - delivered.size()));
  }
  // Forgets what has come out.
  std::string pend() {
    arrived("what was fetched", fetch());
    if (!c.failed() && delivered.size() != expected.size()) c.fail("log-held", "fetchLog() left %u bytes", (unsigned) (expected.size() - delivered.size()));
    return "";
  }
};

void run(Ctx& c) {
  size_t before = heap_in_use();
  {
    Run r(c);
    r.go();
    on_log = nullptr;
  }
  c.nontrivial();
  if (!c.failed() && heap_in_use() != before) c.fail("log-leak", "%d bytes remain after the logger is gone", (int) (heap_in_use() - before));
}
}  // namespace

sim::Harness g_harness = {
  "P07",
  "Lines are logged, directly and by the formatted face, under changing options, to sinks that are refusing, take part, or are unplugged and exchanged, while the log is fetched and memory is refused; what comes out, by sinks and fetches together, must at all times be the start of what was accepted. Non-trivial: every run. Distinct by event log.",
  run,
  {"sink refuses", "sink takes part", "sink unplugged", "allocation failure", "clock at its wrap"},
  {"line filtered by severity", "forwarded at once", "stored", "backlog flushed ahead of a line", "backlog taken in part", "line taken in part", "fetched", "tag longer than the column may be", "column widened", "column kept for a shorter tag", "message in fragments", "empty message", "formatted", "lost trimmings for want of memory", "sink exchanged", "long message"},
  {"AbstractPlatform.cpp (C3PLogger, c3p_log)", "StringBuilder.cpp"},
  {"platform (clock, allocator)", "the sinks"},
  "operation, sink in use and its appetite, whether there is a backlog",
  {}, 20000, 400000
};
