/* T02: searching, replacing, and tokenising a StringBuilder give the same answers however the text is fragmented. */
#include "sb.h"
#include <strings.h>
using namespace sb;

namespace {
enum {  F_ALLOC, F_RANGE  };
enum {  P_FOUND, P_FOUND_ACROSS, P_ABSENT, P_NEAR_MISS, P_REPLACED, P_SPLIT, P_SPLIT_NONE, P_IMPLODE, P_HEX, P_DENIED, P_CASE, P_EQUAL  };

struct Run {
  Ctx& c;
  Sb x;
  const char* what = "";
  uint32_t alpha;
  Run(Ctx& q) : c(q) {}

  std::string text(uint32_t most, bool small = false) {
    static const char* const SETS[] = {  "ab", "aab,", "a,; b", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789,;x -."  };
    const char* set = SETS[small ? 0 : alpha];
    uint32_t n = 1 + c.draw(most), m = strlen(set);
    std::string s;
    for (uint32_t i = 0; i < n; i++) s += set[c.draw(m)];
    return s;
  }
  std::string number() {
    char t[64];
    switch (c.draw(6)) {
      case 0: snprintf(t, sizeof(t), "%d", (int) c.draw(0xFFFFFFFFu));  break;
      case 1: snprintf(t, sizeof(t), "0x%x", c.draw(0xFFFFFFFFu));  break;
      case 2: snprintf(t, sizeof(t), "0x%X%08X", c.draw(0xFFFFFFFFu), c.draw(0xFFFFFFFFu));  break;
      case 3: snprintf(t, sizeof(t), "%llu", ((unsigned long long) c.draw(0xFFFFFFFFu) << 30) + c.draw(9999));  break;
      case 4: snprintf(t, sizeof(t), "%d.%u", (int) c.draw(2000) - 1000, c.draw(1000));  break;
      default: snprintf(t, sizeof(t), "0x%xg", c.draw(256));  break;
    }
    return t;
  }
  // A piece of the text, or nearly.
  std::string needle() {
    std::string all = x.text();
    if (all.empty() || c.chance(1, 3)) return text(4);
    uint32_t at = c.draw(all.size()), n = 1 + c.draw(8);
    std::string s = all.substr(at, n);
    if (c.chance(1, 4)) s[s.size() - 1] ^= 1;
    if (s.find('\0') != std::string::npos) return "a";
    return s;
  }
  void arm() {
    if (!c.chance(1, 5)) return;
    g_malloc_fail_in = c.draw(5);  g_malloc_fail_sticky = c.chance(1, 2);
  }
  bool disarm() {
    bool d = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (d) {  c.fault(F_ALLOC);  c.probe(P_DENIED);  }
    return d;
  }
  void settle(const std::string& e) {          // Content is promised. Fragmentation is not.
    Frags a = x.actual();
    if (flat(a) != e) c.fail("content", "%s of [%s] gave [%s], not [%s]", what, x.text().c_str(), flat(a).c_str(), e.c_str());
    x.f = a;
  }
  void op() {
    uint32_t kind = c.draw(14);
    std::string all = x.text();
    g_malloc_failed = 0;
    switch (kind) {
      case 0: case 1: case 2: {
        what = "concat";
        std::string t = c.chance(1, 4) ? number() : text(c.pick({1u, 3u, 9u}));
        c.ev("append \"%s\"", t.c_str());
        if (c.chance(1, 5)) {  x.s->prepend((char*) t.c_str());  x.f.insert(x.f.begin(), t);  }
        else {  x.s->concat(t.c_str());  x.f.push_back(t);  }
        break;
      }
      case 3: {
        what = "chunk";
        if (all.empty()) break;
        int n = 1 + c.draw(all.size() > 8 ? 8 : all.size());
        c.ev("chunk by %d", n);
        x.s->chunk(n);
        x.f.clear();
        for (size_t at = 0; at < all.size(); at += n) x.f.push_back(all.substr(at, n));
        break;
      }
      case 4: case 5: {
        what = "locate";
        std::string n = needle();
        uint32_t from = c.chance(1, 2) ? 0 : c.draw(all.size() + 3);
        size_t at = from <= all.size() ? all.find(n, from) : std::string::npos;
        int e = at == std::string::npos ? -1 : (int) at;
        int r = x.s->locate(n.c_str(), from);
        c.ev("locate \"%s\" from %u = %d", n.c_str(), from, r);
        if (from >= all.size()) c.fault(F_RANGE);
        if (r != e) c.fail("locate", "\"%s\" sought in \"%s\" (%u fragments) from %u was located at %d, rather than %d", n.c_str(), all.c_str(), (unsigned) x.f.size(), from, r, e);
        c.probe(e < 0 ? P_ABSENT : P_FOUND);
        if (e >= 0) {
          size_t o = 0;
          for (auto& q : x.f) {  if (e < (int) (o + q.size())) {  if (e + n.size() > o + q.size()) c.probe(P_FOUND_ACROSS);  break;  }  o += q.size();  }
          for (size_t k = n.size() - 1; k > 0; k--) {  size_t f2 = all.find(n.substr(0, k), from);  if (f2 != std::string::npos && f2 < at) {  c.probe(P_NEAR_MISS);  break;  }  }
        }
        c.nontrivial();
        break;
      }
      case 6: {
        what = "contains";
        std::string n = needle();
        char ch = n[0];
        bool e = all.find(n) != std::string::npos, e1 = all.find(ch) != std::string::npos;
        bool r = x.s->contains(n.c_str()), r1 = x.s->contains(ch);
        c.ev("contains \"%s\" = %d", n.c_str(), r);
        if (r != e || r1 != e1) c.fail("contains", "contains(\"%s\") in \"%s\" is %d, and contains('%c') is %d", n.c_str(), all.c_str(), r, ch, r1);
        if (!all.empty()) {
          std::string o = all;
          bool same = c.chance(1, 2);
          if (!same) o[c.draw(o.size())] ^= 1;
          int q = x.s->cmpBinString((uint8_t*) o.data(), (int) o.size());
          if ((q == 1) != same) c.fail("compare", "cmpBinString() of \"%s\" and \"%s\" is %d", all.c_str(), o.c_str(), q);
          if (same) c.probe(P_EQUAL);
        }
        break;
      }
      case 7: case 8: case 9: {
        what = "replace";
        std::string n = needle(), w = c.chance(1, 3) ? "" : text(5);
        std::string e;
        int cnt = 0;
        for (size_t at = 0; at < all.size(); ) {
          if (all.compare(at, n.size(), n) == 0) {  e += w;  cnt++;  at += n.size();  }
          else e += all[at++];
        }
        c.ev("replace \"%s\" with \"%s\"", n.c_str(), w.c_str());
        arm();  int r = x.s->replace(n.c_str(), w.empty() && c.chance(1, 2) ? nullptr : w.c_str());
        if (disarm()) {
          if (r == -1) {  if (flat(x.actual()) != all) c.fail("refused-memory", "replace() failed for memory, and \"%s\" became \"%s\"", all.c_str(), flat(x.actual()).c_str());  x.f = x.actual();  }
          else {  if (r != cnt) c.fail("replace", "replace(\"%s\") in \"%s\" returned %d, not %d", n.c_str(), all.c_str(), r, cnt);  settle(e);  }
        }
        else {
          if (r != cnt) c.fail("replace", "replace(\"%s\") in \"%s\" returned %d, not %d", n.c_str(), all.c_str(), r, cnt);
          settle(e);
        }
        if (cnt) c.probe(P_REPLACED);
        if (!c.failed() && x.text().size() > 3000) {  x.s->clear();  x.f.clear();  }
        break;
      }
      case 10: {
        what = "split";
        const char* d = c.pick({",", ";", ", ;", "a", "b", "-"});
        Frags e;
        for (size_t at = 0; ; ) {
          at = all.find_first_not_of(d, at);
          if (at == std::string::npos) break;
          size_t q = all.find_first_of(d, at);
          e.push_back(all.substr(at, q == std::string::npos ? q : q - at));
          if (q == std::string::npos) break;
          at = q;
        }
        c.ev("split by \"%s\"", d);
        arm();  int r = x.s->split(d);
        if (disarm()) {
          Frags a = x.actual();
          if (!(r == (int) e.size() && a == e) && !(r <= 0 && flat(a) == all)) c.fail("refused-memory", "split() of \"%s\" without memory returned %d and left \"%s\"", all.c_str(), r, flat(a).c_str());
          x.f = a;
        }
        else {
          if (r != (int) e.size()) c.fail("split", "split(\"%s\") of \"%s\" returned %d tokens, not %u", d, all.c_str(), r, (unsigned) e.size());
          if (e.empty()) {  c.probe(P_SPLIT_NONE);  settle(all);  }
          else {  x.f = e;  c.probe(P_SPLIT);  }
        }
        break;
      }
      case 11: {
        what = "implode";
        const char* d = c.pick({",", ";", ", ", "--"});
        std::string e;
        for (size_t k = 0; k < x.f.size(); k++) e += (k ? d : "") + x.f[k];
        int cnt = x.f.size() > 1 ? x.f.size() : 0;
        c.ev("implode by \"%s\"", d);
        arm();  int r = x.s->implode(d);
        if (disarm() && r == -1) {  if (flat(x.actual()) != all) c.fail("refused-memory", "implode() failed for memory, and \"%s\" became \"%s\"", all.c_str(), flat(x.actual()).c_str());  x.f = x.actual();  }
        else {
          if (r != cnt) c.fail("implode", "implode(\"%s\") of %u tokens returned %d", d, (unsigned) x.f.size(), r);
          settle(cnt ? e : all);
          if (cnt) c.probe(P_IMPLODE);
        }
        if (!c.failed() && x.text().size() > 3000) {  x.s->clear();  x.f.clear();  }
        break;
      }
      case 12: {
        what = "toUpper";
        bool up = c.chance(1, 2);
        c.ev("%s", up ? "toUpper" : "toLower");
        if (up) x.s->toUpper();  else x.s->toLower();
        for (auto& q : x.f) for (auto& ch : q) ch = up ? toupper(ch) : tolower(ch);
        // The static searches, which the platform may not have.
        std::string n = needle();
        const char* hs = all.c_str();
        const char* e = ::strcasestr(hs, n.c_str());
        const char* r = StringBuilder::strcasestr(hs, n.c_str());
        if (r != e) c.fail("strcasestr", "\"%s\" in \"%s\" is at %d, not %d", n.c_str(), hs, r ? (int) (r - hs) : -1, e ? (int) (e - hs) : -1);
        if (e) c.probe(P_CASE);
        int q = StringBuilder::strcasecmp(hs, n.c_str());
        if ((q == 0) != (0 == ::strcasecmp(hs, n.c_str()))) c.fail("strcasecmp", "\"%s\" and \"%s\" compare as %d", hs, n.c_str(), q);
        std::string w = x.text();
        if (StringBuilder::strcasecmp(hs, w.c_str()) != 0) c.fail("strcasecmp", "\"%s\" and \"%s\" differ", hs, w.c_str());
        break;
      }
      default: {
        what = "position";
        int k = (int) c.draw(x.f.size() + 2);
        std::string t = k < (int) x.f.size() ? x.f[k] : "";
        c.ev("token %d", k);
        if (k >= (int) x.f.size()) c.fault(F_RANGE);
        if (t != x.s->position(k)) c.fail("token", "token %d is \"%s\", not \"%s\"", k, x.s->position(k), t.c_str());
        bool hex = t.size() > 2 && t[0] == '0' && t[1] == 'x';
        uint64_t e64 = hex ? 0 : strtoull(t.c_str(), nullptr, 10);
        if (hex) {
          c.probe(P_HEX);
          for (size_t m = 2; m < t.size() && isxdigit((unsigned char) t[m]); m++) e64 = (e64 << 4) | strtoul(t.substr(m, 1).c_str(), nullptr, 16);
          size_t digits = strspn(t.c_str() + 2, "0123456789abcdefABCDEF");
          if (digits <= 16 && x.s->position_as_uint64(k) != e64) c.fail("number", "\"%s\" is %llu as a uint64", t.c_str(), (unsigned long long) x.s->position_as_uint64(k));
          if (digits <= 8 && x.s->position_as_int(k) != (int) (uint32_t) e64) c.fail("number", "\"%s\" is %d as an int", t.c_str(), x.s->position_as_int(k));
        }
        else {
          if (x.s->position_as_uint64(k) != e64) c.fail("number", "\"%s\" is %llu as a uint64", t.c_str(), (unsigned long long) x.s->position_as_uint64(k));
          if (t.size() < 10 && x.s->position_as_int(k) != atoi(t.c_str())) c.fail("number", "\"%s\" is %d as an int", t.c_str(), x.s->position_as_int(k));
          if (x.s->position_as_double(k) != atof(t.c_str())) c.fail("number", "\"%s\" is %f as a double", t.c_str(), x.s->position_as_double(k));
        }
        break;
      }
    }
    agree(c, what, 0, x);
  }
  void run() {
    alpha = c.draw(4);
    c.plan_ops(8 + c.draw(40));
    while (c.next_op() && !c.failed()) {
      c.step();
      op();
      std::string t = x.text();
      c.state(hash64(hash64(x.f.size() > 6 ? 6 : x.f.size(), t.size() > 40 ? 40 : t.size()), alpha));
    }
  }
};

void run(Ctx& c) {
  size_t before = heap_in_use();
  {  Run r(c);  r.run();  }
  if (!c.failed() && heap_in_use() > before) c.fail("leak", "%u bytes were not released", (unsigned) (heap_in_use() - before));
}
}

sim::Harness g_harness = {"T02",
  "a case is a history of edits, searches, replacements, splits and joins over one text in changing fragments; non-trivial if something was sought",
  run,
  {"allocation failure", "request out of range"},
  {"needle found", "needle found across fragments", "needle absent", "near miss before the needle", "replaced", "split", "nothing but delimiters", "imploded", "hexadecimal token", "operation refused memory", "case-blind search hit", "equal content compared"},
  {"StringBuilder.cpp"},
  {"malloc (refuses on request)"},
  "fragments, length, and alphabet",
  {}, 20000, 400000
};
