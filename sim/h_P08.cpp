/* P08: however bad the line to the receiver, the distances which a traveller works out from its fixes are those on the globe. */
#include "sb.h"
#include <math.h>
#include <time.h>
#include <stdlib.h>
#include <deque>
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
using namespace sim;

namespace {
enum {  F_BITFLIP, F_LOST_LINE, F_CUT, F_NOISE, F_NOFIX, F_JUMP  };
enum {  P_FIX, P_NEAR, P_FAR, P_SAME, P_ANTIPODE, P_POLE, P_DATELINE, P_EQUATOR, P_WAYPOINT, P_TRIANGLE, P_KEPT, P_STALE, P_CUT  };
const double R = MEAN_RADIUS_OF_EARTH;
const double RAD = (double) (3.14159265358979323846L / 180);

/* By way of the chord, which owes nothing to the formula in the code. */
double arc(double la0, double lo0, double la1, double lo1) {
  double a[3] = {cos(la0 * RAD) * cos(lo0 * RAD), cos(la0 * RAD) * sin(lo0 * RAD), sin(la0 * RAD)};
  double b[3] = {cos(la1 * RAD) * cos(lo1 * RAD), cos(la1 * RAD) * sin(lo1 * RAD), sin(la1 * RAD)};
  double x[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  return R * atan2(sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
}
struct Place {  double la = 0, lo = 0;  };
struct Kept {  LocationFrame f;  Place at;  };

struct Run;
Run* G = nullptr;
struct Run {
  Ctx& c;
  GPSWrapper gps;
  Place here, said;               // Where the traveller is, and where the latest good sentence said it was.
  bool known = false, fresh = false;
  struct Due {  Place said;  bool known, fresh;  };
  std::deque<Due> due;            // Course sentences given, and not yet reported upon.
  std::vector<Kept> kept;
  std::vector<Place> waypoints;
  uint32_t reports = 0;
  Run(Ctx& x) : c(x) {}

  void measure(const LocationFrame& a, const LocationFrame& b, const Place& pa, const Place& pb, const char* what) {
    LocationFrame x = a, y = b;
    int32_t d = GPSWrapper::haversineDistance(&x, &y), e = GPSWrapper::haversineDistance(&y, &x);
    double want = arc(pa.la, pa.lo, pb.la, pb.lo);
    // The receiver speaks in ten-thousandths of a minute, and the frame was parsed with less than twice that precision.
    double tol = 2.0 + 1e-6 * want;
    if (fabs(d - want) > tol) {  c.fail("distance", "%s: (%.6f, %.6f) to (%.6f, %.6f) is %d m, and should be %.1f m", what, pa.la, pa.lo, pb.la, pb.lo, d, want);  return;  }
    if (abs(d - e) > 1) {  c.fail("symmetry", "%s: %d m there, and %d m back", what, d, e);  return;  }
    if (x.lat != a.lat || x.lon != a.lon || y.lat != b.lat || y.lon != b.lon) c.fail("meddling", "%s: measuring changed a fix", what);
    c.probe(want < 3 ? P_SAME : want < 2000 ? P_NEAR : want > 0.999L * R * 3.14159265 ? P_ANTIPODE : want > 1e6 ? P_FAR : P_NEAR);
    c.ev("%s %d", what, d);
    c.state(hash64((uint64_t) log2(want + 1), hash64((uint64_t) (fabs(pa.la) / 15), (uint64_t) (fabs(pa.lo - pb.lo) / 45))));
  }
  void fix(LocationFrame* f) {
    reports++;
    c.probe(P_FIX);
    if (due.empty()) {  c.fail("fix", "a report was made which nothing asked for");  return;  }
    const Due u = due.front();
    const Place said = u.said;
    due.pop_front();
    if (!u.known) return;
    if (!u.fresh) c.probe(P_STALE);
    // What it was told, give or take the parser's precision.
    if (fabs(f->lat - said.la) > 2e-5 || fabs(f->lon - said.lo) > 4e-5) {  c.fail("fix", "the fix is (%.6f, %.6f); the receiver said (%.6f, %.6f)", f->lat, f->lon, said.la, said.lo);  return;  }
    Place exact {f->lat, f->lon};
    c.nontrivial();
    for (auto& p : waypoints) {
      LocationFrame w;
      w.lat = p.la;  w.lon = p.lo;
      measure(*f, w, exact, p, "to a waypoint");
      c.probe(P_WAYPOINT);
      if (c.failed()) return;
    }
    for (auto& k : kept) {
      if (k.f.lat != k.at.la || k.f.lon != k.at.lo) {  c.fail("kept", "a kept fix has changed");  return;  }
      measure(k.f, *f, k.at, exact, "since a kept fix");
      if (c.failed()) return;
    }
    if (kept.size() >= 2) {          // No detour is shorter.
      LocationFrame x = *f;
      int64_t ab = GPSWrapper::haversineDistance(&kept[0].f, &kept[1].f), bc = GPSWrapper::haversineDistance(&kept[1].f, &x), ac = GPSWrapper::haversineDistance(&kept[0].f, &x);
      c.probe(P_TRIANGLE);
      if (ab + bc + 3 < ac) {  c.fail("triangle", "%d m directly, and %d m by a detour", (int) ac, (int) (ab + bc));  return;  }
    }
    LocationFrame again = *f;
    if (GPSWrapper::haversineDistance(f, &again) != 0) {  c.fail("distance", "a fix is %d m from itself", GPSWrapper::haversineDistance(f, &again));  return;  }
    if (c.chance(1, 3)) {
      Kept k;
      memset((void*) &k.f, 0x5a, sizeof(k.f));
      k.f.copyFrame(f);
      k.at = exact;
      if (k.f.lat != f->lat || k.f.lon != f->lon || k.f.timestamp != f->timestamp || k.f.speed != f->speed || k.f.altitude != f->altitude || k.f.sat_count != f->sat_count
          || k.f.mag_bearing != f->mag_bearing || k.f.dop_horiz != f->dop_horiz || k.f.dop_vert != f->dop_vert) {
        // What was never reported might be NaN, which differs from itself.
        auto same = [](double a, double b) {  return a == b || (isnan(a) && isnan(b));  };
        if (!same(k.f.mag_bearing, f->mag_bearing) || !same(k.f.dop_horiz, f->dop_horiz) || !same(k.f.dop_vert, f->dop_vert) || !same(k.f.lat, f->lat) || !same(k.f.lon, f->lon)
            || k.f.timestamp != f->timestamp || k.f.speed != f->speed || k.f.altitude != f->altitude || k.f.sat_count != f->sat_count) {
          c.fail("kept", "a copy of a fix differs from it");
          return;
        }
      }
      c.probe(P_KEPT);
      if (kept.size() < 4) kept.push_back(k);  else kept[c.draw(4)] = k;
    }
    StringBuilder out;
    f->printDebug(&out);
    char want[64];
    snprintf(want, sizeof(want), "Timestamp: %llu\n\tSat count: %u\n", (unsigned long long) f->timestamp, f->sat_count);
    if (!strstr((char*) out.string(), want)) c.fail("print", "the fix's description [%s] does not have [%s]", sb::show(std::string((char*) out.string()).substr(0, 80)).c_str(), sb::show(want).c_str());
  }
  static std::string angle(double v, int deg) {
    char s[32];
    double a = fabs(v);
    int d = (int) a;
    int m = (int) lround((a - d) * 600000);
    if (m >= 600000) {  m -= 600000;  d++;  }
    snprintf(s, sizeof(s), "%0*d%02d.%04d", deg, d, m / 10000, m % 10000);
    return s;
  }
  static double rounded(double v) {  return (v < 0 ? -1 : 1) * (double) lround(fabs(v) * 600000) / 600000;  }
  std::string seal(const std::string& body) {
    uint8_t sum = 0;
    for (char x : body) sum ^= (uint8_t) x;
    char t[8];
    snprintf(t, sizeof(t), "*%02X\r\n", sum);
    return "$" + body + t;
  }
  std::string rmc() {
    char t[64];
    snprintf(t, sizeof(t), "GPRMC,%02d%02d%02d,A,", (int) c.draw(24), (int) c.draw(60), (int) c.draw(60));
    return seal(t + angle(here.la, 2) + (here.la < 0 ? ",S," : ",N,") + angle(here.lo, 3) + (here.lo < 0 ? ",W," : ",E,") + "10.0,90.0,190324,,");
  }
  void give(std::string s) {
    StringBuilder b;
    while (!s.empty()) {
      uint32_t n = c.chance(1, 3) ? 1 + c.draw((uint32_t) s.size()) : (uint32_t) s.size();
      if (n < s.size()) c.probe(P_CUT);
      b.concat((uint8_t*) s.data(), (int) n);
      s.erase(0, n);
      gps.pushBuffer(&b);
      b.clear();
    }
  }
  void course() {
    due.push_back({said, known, fresh});
    fresh = false;
    give(seal("GPVTG,90.0,T,91.0,M,10.0,N,18.5,K"));
  }
  Place wrap(Place p) {
    p.la = std::max<double>(-90, std::min<double>(90, p.la));
    while (p.lo > 180) p.lo -= 360;
    while (p.lo < -180) p.lo += 360;
    p.la = rounded(p.la);  p.lo = rounded(p.lo);
    if (fabs(p.la) > 89.9) c.probe(P_POLE);
    if (fabs(p.lo) > 179.9) c.probe(P_DATELINE);
    if (fabs(p.la) < 0.1) c.probe(P_EQUATOR);
    return p;
  }
  double unit() {  return (double) c.draw(2000001) / 1000000 - 1;  }
  Place anywhere() {
    switch (c.draw(8)) {
      case 0: return wrap({unit() < 0 ? -90.0 : 90.0, unit() * 180});
      case 1: return wrap({unit() * 90, unit() < 0 ? -180.0 : 180.0});
      case 2: return wrap({0, unit() * 180});
      case 3: return wrap({-here.la, here.lo + 180});               // The other end of the world.
      case 4: return wrap({-here.la + unit() * 1e-3, here.lo + 180 + unit() * 1e-3});
      case 5: return wrap({here.la + unit() * 1e-3, here.lo + unit() * 1e-3});
      default: return wrap({unit() * 90, unit() * 180});
    }
  }
};
int8_t located(LocationFrame* f) {  if (!G->c.failed()) G->fix(f);  return 0;  }

void run(Ctx& c) {
  Run r(c);
  G = &r;
  setenv("TZ", "UTC0", 1);
  tzset();
  r.gps.init();
  r.gps.setCallback(located);
  const bool bad = c.chance(2, 3);
  const double stride = pow(10, -(double) c.draw(6));      // Degrees, from a stroll to a flight.
  r.here = r.anywhere();
  uint32_t n = c.draw(4);
  for (uint32_t i = 0; i < n; i++) r.waypoints.push_back(r.anywhere());
  c.ev("from (%.6f, %.6f) by %.5f, with %u waypoints", r.here.la, r.here.lo, stride, n);
  c.plan_ops(6 + c.draw(40));
  while (c.next_op() && !c.failed()) {
    c.step();
    c.advance(1000000);
    switch (c.draw(10)) {
      case 0:
        if (bad && c.chance(1, 3)) {  r.here = r.anywhere();  c.fault(F_JUMP);  c.ev("jump to (%.6f, %.6f)", r.here.la, r.here.lo);  }
        break;
      case 1:
        r.waypoints.push_back(r.anywhere());
        if (r.waypoints.size() > 4) r.waypoints.erase(r.waypoints.begin());
        break;
      case 2: case 3: case 4: case 5: {
        r.here = r.wrap({r.here.la + r.unit() * stride, r.here.lo + r.unit() * stride});
        std::string s = r.rmc();
        bool good = true;
        if (bad && c.chance(1, 4)) {
          good = false;
          switch (c.draw(4)) {
            case 0: s[1 + c.draw((uint32_t) s.size() - 6)] ^= (char) (1 << c.draw(3));  c.fault(F_BITFLIP);  break;      // Never a newline, and the sum disagrees.
            case 1: s.clear();  c.fault(F_LOST_LINE);  break;
            case 2: s = s.substr(0, s.size() / 2) + "\r\n";  c.fault(F_CUT);  break;
            default: s = "$GPRMC,120000,V,,,,,,,190324,,\r\n";  c.fault(F_NOFIX);  r.known = false;  break;
          }
          c.ev("the fix is spoiled");
        }
        if (good) {  r.said = r.here;  r.known = r.fresh = true;  c.ev("fix (%.6f, %.6f)", r.said.la, r.said.lo);  }
        r.give(s);
        break;
      }
      case 6:
        if (bad) {
          std::string s = "$";
          uint32_t k = c.draw(60);
          for (uint32_t i = 0; i < k; i++) s += (char) (0x20 + c.draw(0x5f));
          c.fault(F_NOISE);
          r.give(s + "*\r\n");
        }
        break;
      default:
        // A course sentence, upon which it reports.
        r.give(r.seal("GPGGA,120000,,,,,1,0" + std::to_string(c.draw(10)) + ",1.0,12.5,M,0.0,M,,"));
        r.course();
        break;
    }
  }
  c.begin_tail();
  if (c.failed()) return;
  // On a good line again, a fix makes it through.
  r.give("\r\n" + std::string(MINMEA_MAX_LENGTH, '.') + "\r\n");
  if (!c.failed() && !r.due.empty()) {  c.fail("silent", "%u course sentences were not reported upon", (unsigned) r.due.size());  return;  }
  uint32_t before = r.reports;
  for (int i = 0; i < 3 && !c.failed(); i++) {
    r.said = r.here = r.anywhere();
    r.known = r.fresh = true;
    r.give(r.rmc());
    r.course();
    r.give(std::string(MINMEA_MAX_LENGTH, '.') + "\r\n");
  }
  if (!c.failed() && r.reports < before + 3) c.fail("silent", "%u of 3 fixes on a good line were reported", (unsigned) (r.reports - before));
}
}

Harness g_harness = {
  "P08",
  "a case is a journey: fixes from a receiver behind a line which may be bad, and the distances between them, kept ones, and waypoints; non-trivial if a distance was measured from a reported fix",
  run,
  {"bit flipped", "line lost", "line cut short", "noise", "fix lost", "receiver's position jumps"},
  {"report", "short distance", "long distance", "no distance", "antipodes", "at a pole", "at the date line", "on the equator", "distance to a waypoint", "triangle", "fix kept", "stale fix reported", "sentence in pieces"},
  {"GPSWrapper.cpp", "StringBuilder.cpp"},
  {"receiver and serial line", "callback"},
  "log of the distance, band of latitude, and difference of longitude, per measurement",
  {}, 6000, 150000
};
