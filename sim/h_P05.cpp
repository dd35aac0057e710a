/* P05: each line of an NMEA stream is judged once, in order, on its own merits, however its bytes arrive; what is reported are the values of the good ones. */
#include "sb.h"
#include <math.h>
#include <time.h>
#include <stdlib.h>
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
using namespace sim;

namespace {
enum {  F_ALLOC, F_BITFLIP, F_BYTE_LOST, F_BYTE_ADDED, F_TRUNC, F_NOISE, F_NEWLINE_LOST, F_ZONE  };
enum {  P_PARSED, P_REJECTED, P_REPORT, P_CUT_IN_LINE, P_CUT_ON_LINE, P_MANY_LINES, P_OVERLONG, P_NO_CHECKSUM, P_EMPTY_FIELD, P_MALFORMED, P_UNKNOWN, P_NO_MEMORY, P_DELAYED, P_INIT, P_MUTE, P_FINE_COORD, P_SHORT_FORM  };
const int MAX_LINE = MINMEA_MAX_LENGTH + 3;

struct Num {  bool given = false;  double v = 0;  };          // A number which may be unknown.
struct Fix {  Num lat, lon, dh, dv, mag, alt, speed;  bool alt_set = false, ll_set = false, dop_set = false, mag_set = false, speed_set = false;  uint64_t ts = 0;  bool ts_any = false;  uint8_t sats = 0;  };

bool fieldch(unsigned char x) {  return (x >= 0x20) && (x < 0x7f) && (x != ',') && (x != '*');  }
int hexv(char x) {  return (x >= '0' && x <= '9') ? x - '0' : (x >= 'A' && x <= 'F') ? x - 'A' + 10 : (x >= 'a' && x <= 'f') ? x - 'a' + 10 : -1;  }

/* What a sentence says, by the book. */
struct Sentence {
  std::vector<std::string> f;  size_t at = 0;  bool ok = true, optional = false;
  bool next(std::string* s) {
    *s = "";
    if (at >= f.size()) {  if (!optional) ok = false;  at++;  return false;  }
    *s = f[at++];
    return true;
  }
  char ch() {  std::string s;  next(&s);  return s.empty() ? 0 : s[0];  }
  int dir() {
    std::string s;
    if (!next(&s) || s.empty()) return 0;
    if (s[0] == 'N' || s[0] == 'E') return 1;
    if (s[0] == 'S' || s[0] == 'W') return -1;
    ok = false;
    return 0;
  }
  Num num() {
    std::string s;  Num n;
    if (!next(&s)) return n;
    int64_t v = -1, scale = 0, sign = 0;
    for (char x : s) {
      if ((x == '+' || x == '-') && !sign && v == -1) sign = (x == '+') ? 1 : -1;
      else if (x >= '0' && x <= '9') {
        if (v < 0) v = 0;
        if (v * 10 + (x - '0') > 2147483647ll) {  if (scale) break;  ok = false;  return n;  }
        v = v * 10 + (x - '0');
        if (scale) scale *= 10;
      }
      else if (x == '.' && scale == 0) scale = 1;
      else if (x == ' ' && !sign && v == -1 && !scale) {}
      else {  ok = false;  return n;  }
    }
    if ((sign || scale) && v == -1) {  ok = false;  return n;  }
    if (v < 0) return n;
    n.given = true;
    n.v = (double) v / (double) (scale ? scale : 1) * (double) (sign ? sign : 1);
    return n;
  }
  int integer() {
    std::string s;
    if (!next(&s) || s.empty()) return 0;
    size_t i = 0;  int64_t v = 0;  bool neg = false, any = false;
    while (i < s.size() && s[i] == ' ') i++;
    if (i == s.size()) {  ok = false;  return 0;  }      // Nothing but blanks.
    if (s[i] == '+' || s[i] == '-') neg = (s[i++] == '-');
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) {  any = true;  v = v * 10 + (s[i] - '0');  if (v > 2147483647ll) v = 2147483647ll;  }
    if (i < s.size() || !any) ok = false;
    return (int) (neg ? -v : v);
  }
  bool digits(const std::string& s) {
    if (s.size() < 6) return false;
    for (int i = 0; i < 6; i++) if (s[i] < '0' || s[i] > '9') return false;
    return true;
  }
  bool six(int* a) {
    std::string s;
    if (!next(&s) || s.empty()) return false;
    if (!digits(s)) {  ok = false;  return false;  }
    for (int i = 0; i < 3; i++) a[i] = (s[2 * i] - '0') * 10 + (s[2 * i + 1] - '0');
    return true;
  }
};
int64_t days(int y, int m, int d) {
  int64_t n = 0;
  for (int i = 1970; i < y; i++) n += ((i % 4 == 0 && i % 100 != 0) || i % 400 == 0) ? 366 : 365;
  const int L[] = {31, ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  for (int i = 1; i < m; i++) n += L[i - 1];
  return n + d - 1;
}
Num coord(Num n, int dir) {
  if (!n.given) return n;
  double whole = trunc(n.v / 100);
  n.v = (whole + (n.v - whole * 100) / 60) * dir;
  return n;
}
/* @return 0 if rejected, 1 if parsed, 2 if it is to be reported. */
int judge(const std::string& line, Fix* fx) {   // Without its newline.
  if ((int) line.size() + 1 > MAX_LINE) return 0;
  std::string s = line.substr(0, line.find('\0'));
  const bool nul = (s.size() < line.size());
  if (s.empty() || s[0] != '$') return 0;
  size_t i = 1;  uint8_t sum = 0;
  while (i < s.size() && s[i] >= 0x20 && (unsigned char) s[i] < 0x7f && s[i] != '*') sum ^= (uint8_t) s[i++];
  if (i < s.size() && s[i] == '*') {
    if (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0 || (hexv(s[i + 1]) * 16 + hexv(s[i + 2])) != sum) return 0;
  }
  else if (i < s.size() ? (s[i] != '\r') : nul) return 0;
  Sentence t;
  std::string cur;
  for (size_t k = 0; k < i; k++) if (s[k] == ',') {  t.f.push_back(cur);  cur.clear();  } else cur += s[k];
  t.f.push_back(cur);
  std::string head;
  t.next(&head);
  if (head.size() < 6) return 0;
  const std::string kind = head.substr(3, 3);
  if (kind == "RMC") {
    int hms[3], dmy[3];
    bool time = t.six(hms);
    t.ch();
    Num la = t.num();  int ld = t.dir();
    Num lo = t.num();  int od = t.dir();
    t.num();  t.num();
    bool date = t.six(dmy);
    t.num();  t.dir();
    if (!t.ok) return 0;
    fx->lat = coord(la, ld);  fx->lon = coord(lo, od);  fx->ll_set = true;
    if (time && date) {
      // No such time, or none that every time_t can hold: nobody can say what becomes of that.
      fx->ts_any = (dmy[1] < 1 || dmy[1] > 12 || dmy[0] < 1 || dmy[0] > 31 || dmy[2] > 37 || hms[0] > 23 || hms[1] > 59 || hms[2] > 60);
      if (!fx->ts_any) fx->ts = (uint64_t) (days(2000 + dmy[2], dmy[1], dmy[0]) * 86400 + hms[0] * 3600 + hms[1] * 60 + hms[2]);
    }
    return 1;
  }
  if (kind == "GGA") {
    int hms[3];
    t.six(hms);  t.num();  t.dir();  t.num();  t.dir();  t.integer();
    int sats = t.integer();
    t.num();
    Num alt = t.num();  char unit = t.ch();
    t.num();  t.ch();  t.integer();
    std::string x;  t.next(&x);
    if (!t.ok) return 0;
    fx->sats = (uint8_t) sats;
    if (unit == 'M' && alt.given) {  fx->alt = alt;  fx->alt_set = true;  }
    return 1;
  }
  if (kind == "GSA") {
    t.ch();
    for (int k = 0; k < 13; k++) t.integer();
    t.num();
    Num h = t.num(), v = t.num();
    if (!t.ok) return 0;
    fx->dh = h;  fx->dv = v;  fx->dop_set = true;
    return 1;
  }
  if (kind == "GLL") {
    int hms[3];
    t.num();  t.dir();  t.num();  t.dir();  t.six(hms);  t.ch();
    t.optional = true;
    t.ch();
    return t.ok;
  }
  if (kind == "GST") {
    int hms[3];
    t.six(hms);
    for (int k = 0; k < 7; k++) t.num();
    return t.ok;
  }
  if (kind == "GSV") {
    for (int k = 0; k < 3; k++) t.integer();
    t.optional = true;
    for (int k = 0; k < 16; k++) t.integer();
    return t.ok;
  }
  if (kind == "VTG") {
    t.num();  char a = t.ch();
    Num m = t.num();  char b = t.ch();
    t.num();  char k = t.ch();
    Num v = t.num();  char h = t.ch();
    t.optional = true;
    t.ch();
    if (!t.ok || a != 'T' || b != 'M' || k != 'N' || h != 'K') return 0;
    fx->mag = m;  fx->mag_set = true;
    if (v.given) {  fx->speed = v;  fx->speed_set = true;  }
    return 2;
  }
  return 0;
}

std::string num(Ctx& c, uint32_t whole, uint32_t places) {
  std::string s = std::to_string(c.draw(whole));
  if (c.chance(1, 3)) s = "0" + s;
  if (places == 0) return s;
  s += ".";
  for (uint32_t i = 0; i < places; i++) s += (char) ('0' + c.draw(10));
  return s;
}
std::string two(uint32_t v) {  return std::string(1, (char) ('0' + v / 10)) + (char) ('0' + v % 10);  }

struct Run;
Run* G = nullptr;
struct Run {
  Ctx& c;
  GPSWrapper* gps = nullptr;
  std::string pend, wire;               // Given, and not yet judged; on its way.
  Fix fx;
  uint32_t parsed = 0, rejected = 0;
  bool heard = true;
  struct Call {  LocationFrame f;  uint32_t n;  };
  std::vector<Call> calls;
  std::vector<Fix> expect;  std::vector<uint32_t> expect_n;
  Run(Ctx& x) : c(x) {}

  std::string maybe(const std::string& s, uint32_t den = 8) {  if (!c.chance(1, den)) return s;  c.probe(P_EMPTY_FIELD);  return "";  }
  std::string clock() {  std::string s = two(c.draw(24)) + two(c.draw(60)) + two(c.draw(60));  if (c.chance(1, 2)) s += "." + two(c.draw(100));  return s;  }
  std::string lat() {
    std::string s = two(c.chance(1, 4) ? 0 : c.draw(90)) + two(c.draw(60)) + ".";
    uint32_t n = c.pick({0, 2, 3, 4, 5, 7, 8});
    if (n == 8) c.probe(P_FINE_COORD);
    for (uint32_t i = 0; i < n; i++) s += (char) ('0' + c.draw(10));
    return s;
  }
  std::string lon() {  std::string s = lat();  return (c.chance(1, 3) ? "1" : "0") + s;  }
  std::vector<std::string> fields() {
    const char* talker = (const char*[]) {"GP", "GN", "GL", "II"}[c.draw(4)];
    const uint32_t kind = c.draw(9);
    const bool fixed = !c.chance(1, 5);       // Without a fix, receivers leave most of it empty.
    std::vector<std::string> f;
    auto a = [&](const std::string& s) {  f.push_back(s);  };
    auto k = [&](const std::string& s) {  f.push_back(fixed ? maybe(s, 12) : "");  };
    const std::string head = std::string("$") + talker;
    switch (kind) {
      case 0: case 1: {
        a(head + "RMC");  a(maybe(clock()));  a(fixed ? "A" : "V");
        k(lat());  a(fixed ? (c.chance(1, 2) ? "N" : "S") : "");
        k(lon());  a(fixed ? (c.chance(1, 2) ? "E" : "W") : "");
        k(num(c, 500, 1));  k(num(c, 360, 1));  a(maybe(two(1 + c.draw(28)) + two(1 + c.draw(12)) + two(c.draw(38))));
        a(maybe(num(c, 20, 1), 2));  a(c.chance(1, 2) ? "" : "E");
        if (c.chance(1, 2)) a("A");
        break;
      }
      case 2: {
        a(head + "GGA");  a(maybe(clock()));  k(lat());  a(fixed ? "N" : "");  k(lon());  a(fixed ? "E" : "");
        a(fixed ? "1" : "0");  a(two(c.draw(13)));  k(num(c, 10, 1));
        k(std::string(c.chance(1, 6) ? "-" : "") + num(c, 9000, c.draw(3)));  a("M");  k(num(c, 60, 1));  a("M");  a("");  a("");
        break;
      }
      case 3: {
        a(head + "GSA");  a("A");  a(fixed ? "3" : "1");
        for (int i = 0; i < 12; i++) a(c.chance(1, 2) ? "" : two(c.draw(33)));
        k(num(c, 20, 1));  k(num(c, 20, 1));  k(num(c, 20, 2));
        break;
      }
      case 4: {
        a(head + "GLL");  k(lat());  a(fixed ? "N" : "");  k(lon());  a(fixed ? "W" : "");  a(clock());  a(fixed ? "A" : "V");
        if (c.chance(1, 2)) a("A"); else c.probe(P_SHORT_FORM);
        break;
      }
      case 5: {
        a(head + "GST");  a(clock());
        for (int i = 0; i < 7; i++) k(num(c, 50, 1));
        break;
      }
      case 6: {
        a(head + "GSV");  a("3");  a("1");  a(two(c.draw(20)));
        uint32_t n = c.draw(5);
        if (n < 4) c.probe(P_SHORT_FORM);
        for (uint32_t i = 0; i < n; i++) {  a(two(c.draw(33)));  a(two(c.draw(90)));  a(two(c.draw(99)));  a(maybe(two(c.draw(60))));  }
        break;
      }
      default: {
        a(head + "VTG");  k(num(c, 360, 1));  a("T");  k(num(c, 360, 1));  a("M");  k(num(c, 500, 2));  a("N");  k(num(c, 900, 3));  a("K");
        if (c.chance(1, 2)) a("A");
        break;
      }
    }
    if (c.chance(1, 12)) {
      c.probe(P_MALFORMED);
      size_t i = 1 + c.draw((uint32_t) f.size() - 1);
      switch (c.draw(5)) {
        case 0: f.resize(i);  break;                            // Ends early.
        case 1: f[i] += (const char*[]) {"x", ".5.", "-1", " "}[c.draw(4)];  break;
        case 2: f[i] = (const char*[]) {"X", "-", ".", "12.3.4", "9999999999", "1-2", " ", " 7", "+3"}[c.draw(9)];  break;
        case 3: f.insert(f.begin() + i, "7");  break;
        default: f[i].clear();  break;
      }
    }
    if (c.chance(1, 20)) {  f[0] = (const char*[]) {"$GPZDA", "$GPXTE", "$PUBX", "$GP", "$", "GPRMC", "$GPRMCX"}[c.draw(7)];  c.probe(P_UNKNOWN);  }
    return f;
  }
  std::string sentence() {
    std::string s;
    for (auto& x : fields()) s += (s.empty() ? "" : ",") + x;
    uint8_t sum = 0;
    for (size_t i = 1; i < s.size(); i++) sum ^= (uint8_t) s[i];
    if (c.chance(1, 12)) c.probe(P_NO_CHECKSUM);
    else {
      const char* H = c.chance(1, 4) ? "0123456789abcdef" : "0123456789ABCDEF";
      s += "*";
      s += H[sum >> 4];
      s += H[sum & 15];
    }
    return s + (c.chance(1, 4) ? "\n" : "\r\n");
  }
  void spoil(std::string* s) {
    uint32_t i = c.draw((uint32_t) s->size());
    switch (c.draw(6)) {
      case 0: case 1: (*s)[i] = (char) ((*s)[i] ^ (1 << c.draw(8)));  c.fault(F_BITFLIP);  break;
      case 2: s->erase(i, 1);  c.fault(F_BYTE_LOST);  break;
      case 3: s->insert(i, 1, (char) c.draw(256));  c.fault(F_BYTE_ADDED);  break;
      case 4: s->resize(i);  c.fault(F_TRUNC);  break;
      default: s->resize(s->size() - 1);  c.fault(F_NEWLINE_LOST);  break;
    }
  }
  std::string noise() {
    std::string s;
    c.fault(F_NOISE);
    uint32_t n = c.chance(1, 5) ? c.draw(1500) : c.draw(60);
    const bool text = c.chance(1, 2), quiet = c.chance(1, 2);
    for (uint32_t i = 0; i < n; i++) {
      char x = (char) (text ? 0x20 + c.draw(0x5f) : c.draw(256));
      s += ((x == '\n') && quiet) ? 'n' : x;
    }
    return s;
  }
  bool same(const char* what, bool set, const Num& want, double got, double tol) {
    if (!set) return true;                         // Nothing was said of it yet: whatever the frame started with.
    if (!want.given) {
      if (isnan(got)) return true;
      c.fail("gps-value", "%s was reported as %f, and is unknown", what, got);
      return false;
    }
    if (!isnan(got) && fabs(got - want.v) <= tol + fabs(want.v) * 2e-6) return true;
    c.fail("gps-value", "%s was reported as %f, and should have been %f", what, got, want.v);
    return false;
  }
  void compare(const LocationFrame& f, const Fix& w) {
    if (!same("latitude", w.ll_set, w.lat, f.lat, 2e-5) || !same("longitude", w.ll_set, w.lon, f.lon, 4e-5)) return;
    if (!same("horizontal dilution", w.dop_set, w.dh, f.dop_horiz, 1e-5) || !same("vertical dilution", w.dop_set, w.dv, f.dop_vert, 1e-5)) return;
    if (!same("bearing", w.mag_set, w.mag, (double) f.mag_bearing, 1e-4)) return;
    Num a = w.alt, v = w.speed;
    a.v *= 1000;  v.v *= 1000.0 / 3.6;
    if (!w.alt_set) a.given = true, a.v = 0;
    if (!w.speed_set) v.given = true, v.v = 0;
    // What does not fit the frame's integers is not held against it.
    if (fabs(a.v) < 2e9 && !same("altitude", true, a, (double) (int32_t) f.altitude, 2)) return;
    if (v.v >= 0 && v.v < 4e9 && !same("speed", true, v, (double) f.speed, 2)) return;
    if (!w.ts_any && f.timestamp != w.ts) {  c.fail("gps-value", "the timestamp was reported as %llu, and should have been %llu", (unsigned long long) f.timestamp, (unsigned long long) w.ts);  return;  }
    if (f.sat_count != w.sats) c.fail("gps-value", "%u satellites were reported, and should have been %u", f.sat_count, w.sats);
  }
  /* Judge <n> lines of what is pending. */
  void settle(uint32_t n) {
    while (!pend.empty() && (pend[0] == '\n' || n)) {
      size_t e = pend.find('\n');
      std::string line = pend.substr(0, e);
      if (line.empty()) {  pend.erase(0, 1);  continue;  }   // A blank line is nothing at all.
      n--;
      if ((int) line.size() > MAX_LINE) c.probe(P_OVERLONG);
      pend.erase(0, e + 1);
      int r = judge(line, &fx);
      c.ev("line [%s] %s", sb::show(line.substr(0, 100)).c_str(), r ? "is good" : "is not");
      if (r) parsed++; else rejected++;
      c.probe(r ? P_PARSED : P_REJECTED);
      if (r == 2 && heard) {  expect.push_back(fx);  expect_n.push_back(parsed);  }
    }
  }
  void push(uint32_t n, bool faulty) {
    std::string take = wire.substr(0, n);
    wire.erase(0, n);
    if (take.empty()) return;
    c.step();
    if (take.back() == '\n') c.probe(P_CUT_ON_LINE); else c.probe(P_CUT_IN_LINE);
    StringBuilder b;
    for (size_t i = 0; i < take.size();) {          // In one piece, or in several.
      uint32_t m = (uint32_t) take.size() - i;
      if (c.chance(1, 4)) m = 1 + c.draw(m);
      b.concat((uint8_t*) &take[i], (int) m);
      i += m;
    }
    pend += take;
    uint32_t whole = 0;
    for (size_t i = 1; i < pend.size(); i++) if (pend[i] == '\n' && pend[i - 1] != '\n') whole++;
    if (whole > 2) c.probe(P_MANY_LINES);
    c.ev("push %u bytes [%s]", (unsigned) take.size(), sb::show(take.substr(0, 80)).c_str());
    calls.clear();  expect.clear();  expect_n.clear();
    if (faulty) {  g_malloc_fail_in = c.draw(8);  g_malloc_fail_sticky = c.chance(1, 3);  }
    int8_t r = gps->pushBuffer(&b);
    const bool bare = (g_malloc_failed > 0);
    if (bare) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (r != 1 || !b.isEmpty(true)) {  c.fail("gps-accept", "a buffer of %u bytes was not claimed: pushBuffer() returned %d", (unsigned) take.size(), r);  return;  }
    const uint32_t k = gps->sentencesParsed() + gps->sentencesRejected() - parsed - rejected;
    if (k > whole) {  c.fail("gps-count", "%u lines were judged, and only %u were complete", k, whole);  return;  }
    if (k < whole) c.probe(P_DELAYED);
    if (k < whole && !bare && pend.size() > MINMEA_MAX_LENGTH) {
      c.fail("gps-stall", "%u bytes are waiting with %u lines, of which %u were judged", (unsigned) pend.size(), whole, k);
      return;
    }
    settle(k);
    if (gps->sentencesParsed() != parsed || gps->sentencesRejected() != rejected) {
      c.fail("gps-verdict", "%u lines were parsed and %u rejected, and it should have been %u and %u", gps->sentencesParsed(), gps->sentencesRejected(), parsed, rejected);
      return;
    }
    if (calls.size() != expect.size()) {  c.fail("gps-report", "%u reports were made, and should have been %u", (unsigned) calls.size(), (unsigned) expect.size());  return;  }
    for (size_t i = 0; i < calls.size() && !c.failed(); i++) {
      c.probe(P_REPORT);
      if (calls[i].n != expect_n[i]) {  c.fail("gps-report", "a report was made after %u good sentences, and should have been after %u", calls[i].n, expect_n[i]);  return;  }
      compare(calls[i].f, expect[i]);
    }
    if (calls.size()) c.nontrivial();
    if (gps->bufferAvailable() <= 0) c.fail("gps-stall", "there is no more room, with %u bytes waiting", (unsigned) pend.size());
    c.state(hash64(hash64(whole, k), hash64((uint32_t) pend.size() / 16, hash64(bare, calls.size()))));
  }
  /* How much does the transport give at once? */
  uint32_t chunk(bool polite) {
    uint32_t n;
    switch (c.draw(5)) {
      case 0:  n = 1 + c.draw(8);  break;
      case 1:  n = 1 + c.draw(64);  break;
      case 2:  {  size_t e = wire.find('\n', c.draw((uint32_t) wire.size() + 1));  n = (uint32_t) ((e == std::string::npos) ? wire.size() : e + 1);  break;  }
      case 3:  n = (uint32_t) wire.size();  break;
      default: n = 1 + c.draw(300);  break;
    }
    if (polite) n = std::min<uint32_t>(n, (uint32_t) std::max(0, gps->bufferAvailable()));
    return n;
  }
};
int8_t located(LocationFrame* f) {
  G->calls.push_back({*f, G->gps->sentencesParsed()});
  return 0;
}

void run(Ctx& c) {
  Run r(c);
  G = &r;
  const char* const ZONES[] = {"UTC0", "EST5EDT", "NPT-5:45", "NZST-12NZDT"};
  uint32_t z = c.chance(1, 4) ? 1 + c.draw(3) : 0;
  setenv("TZ", ZONES[z], 1);
  tzset();
  if (z) c.fault(F_ZONE);
  const bool polite = c.chance(1, 2), faulty = c.chance(1, 3), clean = c.chance(1, 4);
  GPSWrapper gps;
  r.gps = &gps;
  gps.init();
  gps.setCallback(located);
  c.ev("zone %s, %s, %s", ZONES[z], polite ? "respects the room" : "gives all it has", clean ? "a clean wire" : "a bad wire");
  c.plan_ops(10 + c.draw(60));
  bool lean = false;
  while (c.next_op() && !c.failed()) {
    switch (c.draw(12)) {
      case 0: case 1: case 2: case 3: case 4: {
        std::string s = r.sentence();
        if (!clean && c.chance(1, 5)) r.spoil(&s);
        r.wire += s;
        break;
      }
      case 5: if (!clean && c.chance(1, 3)) r.wire += r.noise();  break;
      case 6: if (c.chance(1, 8)) {  r.heard = !r.heard;  gps.setCallback(r.heard ? located : nullptr);  c.ev("callback %s", r.heard ? "set" : "taken away");  c.probe(P_MUTE);  }  break;
      case 7: if (c.chance(1, 12)) {  c.ev("init");  r.pend.clear();  gps.init();  c.probe(P_INIT);  }  break;
      default: {
        // Memory comes back before the waiting lines would have to be given up.
        uint32_t n = r.chunk(polite);
        lean = faulty && c.chance(1, 3) && (r.pend.size() + n < 700);
        r.push(n, lean);
        break;
      }
    }
  }
  c.begin_tail();
  while (!r.wire.empty() && !c.failed()) {
    uint32_t n = r.chunk(polite);
    if (n == 0) {  c.fail("gps-stall", "there is no room, and %u bytes have yet to be given", (unsigned) r.wire.size());  break;  }
    r.push(n, false);
  }
  // Whatever was left waits no longer than this.
  if (!c.failed()) {
    r.wire = "\n" + std::string(MINMEA_MAX_LENGTH, '.') + "\n" + r.sentence();
    r.wire += std::string(MINMEA_MAX_LENGTH, '.') + "\n";
    while (!r.wire.empty() && !c.failed()) r.push(polite ? std::min<uint32_t>((uint32_t) r.wire.size(), (uint32_t) std::max(1, gps.bufferAvailable())) : (uint32_t) r.wire.size(), false);
  }
  if (!c.failed() && !r.pend.empty()) c.fail("gps-stall", "%u bytes are waiting at the end, with %u lines", (unsigned) r.pend.size(), (unsigned) std::count(r.pend.begin(), r.pend.end(), '\n'));
}
}

Harness g_harness = {
  "P05",
  "a case is a history of pushes of an NMEA stream, cut anywhere, from a receiver behind a line which may be bad; non-trivial if a location was reported",
  run,
  {"allocation failure", "bit flipped", "byte lost", "byte added", "line cut short", "noise", "newline lost", "time zone of the host"},
  {"sentence parsed", "line rejected", "report", "cut inside a line", "cut on a line", "many lines at once", "overlong line", "no checksum", "empty field", "malformed field", "unknown sentence", "operation refused memory", "lines waiting", "init", "no callback", "coordinate of eight places", "short form"},
  {"GPSWrapper.cpp", "BufferAccepter.h", "StringBuilder.cpp"},
  {"receiver and serial line", "callback", "malloc (refuses on request)"},
  "complete lines waiting, lines judged, bytes left, memory and reports, per push",
  {}, 10000, 200000
};
