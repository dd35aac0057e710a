/* G03: scaled copies, gauges, graphs and byte maps show what they were given, and touch nothing outside their boxes. */
#include "engine.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <memory>
#include <map>
#include <algorithm>
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include "Image/ImageUtils/ImageGraph.h"
#include "Image/ImageUtils/BlobPlotter.h"
#include "C3PValue/C3PValue.h"
using namespace sim;

namespace {
enum {  F_MISFIT, F_UNALLOCATED, F_EMPTY, F_CUT  };
enum {  P_ONE, P_UP, P_DOWN, P_SAME, P_FORMATS, P_SOURCE_EDGE, P_TARGET_EDGE, P_BAR_H, P_BAR_V, P_ZOOM_H, P_ZOOM_V, P_SHRINK, P_FULL, P_COMPASS, P_VECTOR, P_GRAPH, P_GRAPH_F, P_GRID, P_CURVE, P_FLAT, P_LINEAR, P_HILBERT, P_FENCES  };
typedef ImgBufferFormat Fmt;

struct Pic {
  Ctx& c;
  std::unique_ptr<Image> img;
  int W, H;
  std::vector<uint32_t> was, is;
  Pic(Ctx& c_, int w, int h, Fmt f) : c(c_), img(new Image(w, h, f)), W(w), H(h) {  img->reallocate();  }
  void noise(uint32_t s, uint32_t mask) {
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) img->setPixel(x, y, (uint32_t) hash64(s, y * 4096 + x) & mask);
  }
  void snap(std::vector<uint32_t>* v) {
    v->resize(W * H);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) (*v)[y * W + x] = img->getPixel(x, y);
  }
  uint32_t now(int x, int y) const {  return is[y * W + x];  }
  /* Nothing outside of the box has changed. */
  bool contained(int bx, int by, int bw, int bh, const char* what) {
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (is[y * W + x] != was[y * W + x] && !(x >= bx && x < bx + bw && y >= by && y < by + bh)) {
      c.fail("outside", "%s in the box of %d by %d at (%d, %d): it changed (%d, %d) of %d by %d", what, bw, bh, bx, by, x, y, W, H);
      return false;
    }
    return true;
  }
};

/* Every byte has a color of its own. */
class OwnColor : public BlobStyler {
  public:
    OwnColor(Image* t) : BlobStyler(BlobStylerID::NONE, t) {};
    ~OwnColor() {};
    int8_t init(const uint8_t*, const uint32_t) {  return 0;  }
    uint32_t getColor(const uint8_t*, const uint32_t, const uint32_t OFFSET) {  return 0x10000 + OFFSET;  }
};

/* Beyond one square, the curve draws bytes over others, or leaves them out (G03-1). */
bool curve_loses() {
  Image i(12, 12, Fmt::R8_G8_B8);
  i.reallocate();
  uint8_t data[54] = {0};
  C3PValue v(data, sizeof(data));
  OwnColor own(&i);
  BlobPlotterHilbertCurve b(&own, &v, &i, 0, 0, 8, 7);
  b.setMapMem(nullptr, 0);
  if (b.apply(true)) return false;
  for (int y = 0; y < 12; y++) for (int x = 0; x < 12; x++) if (i.getPixel(x, y) == 0x10000 + 42) return false;
  return true;
}

void scaler(Ctx& c) {
  const Fmt fs = c.pick<Fmt>({Fmt::GREY_8, Fmt::R3_G3_B2, Fmt::R8_G8_B8, Fmt::R8_G8_B8_ALPHA});
  // Pixels of 16 bits are not read as they were written (G01-1).
  const Fmt ft = c.chance(2, 3) ? fs : c.pick<Fmt>({Fmt::GREY_8, Fmt::R3_G3_B2, Fmt::R8_G8_B8, Fmt::R8_G8_B8_ALPHA});
  const bool same = c.chance(1, 6);
  Pic s(c, 4 + c.draw(60), 4 + c.draw(60), fs);
  Pic t(c, same ? 4 : 4 + c.draw(90), same ? 4 : 4 + c.draw(90), ft);
  Pic& d = same ? s : t;
  const uint32_t mask = fs == Fmt::GREY_8 || fs == Fmt::R3_G3_B2 ? 0xFF : 0xFFFFFF;
  s.noise(c.draw(100000), mask);
  if (!same) t.noise(c.draw(100000), 0xFF);
  s.snap(&s.was);
  if (!same) t.snap(&t.was);
  // What is copied, and by how much.
  const bool up = c.chance(1, 2);
  const int n = c.chance(1, 4) ? 1 : 2 + c.draw(7);
  const float scale = up || n == 1 ? (float) n : 1.0f / n;
  auto part = [&](int lim) {  return c.chance(1, 4) ? lim : c.chance(1, 8) ? lim + 1 + (int) c.draw(5) : 1 + (int) c.draw(lim);  };
  int sw = part(s.W), sh = part(s.H);
  if (c.chance(1, 2) && sw > 8) sw = 1 + sw / n;
  if (c.chance(1, 2) && sh > 8) sh = 1 + sh / n;
  auto place = [&](int room) {  return room < 0 ? 0 : c.chance(1, 4) ? room : c.chance(1, 8) ? room + 1 + (int) c.draw(3) : (int) c.draw(room + 1);  };
  const int sx = place(s.W - sw), sy = place(s.H - sh);
  const int tw = up || n == 1 ? sw * n : sw / n, th = up || n == 1 ? sh * n : sh / n;
  int tx = place(d.W - tw), ty = place(d.H - th);
  const bool whole = !same && c.chance(1, 10);
  ImageScaler sc(s.img.get(), d.img.get(), scale, whole ? 0 : sx, whole ? 0 : sy, whole ? 0 : sw, whole ? 0 : sh, tx, ty);
  const int X = whole ? 0 : sx, Y = whole ? 0 : sy, SW = whole ? s.W : sw, SH = whole ? s.H : sh;
  if (c.chance(1, 5)) {  sc.setParameters(2.0f, 1, 1, 1, 1, 0, 0);  sc.setParameters(scale, X, Y, SW, SH, tx, ty);  }
  const int TW = up || n == 1 ? SW * n : SW / n, TH = up || n == 1 ? SH * n : SH / n;
  // The two areas of one picture have to be apart.
  if (same && !(X + SW <= tx || tx + TW <= X || Y + SH <= ty || ty + TH <= Y)) return;
  const bool hollow = !same && c.chance(1, 12);
  Image none(40, 40, ft);
  if (hollow) {
    ImageScaler a(s.img.get(), &none, 1.0f, 0, 0, 2, 2, 0, 0), b(&none, d.img.get(), 1.0f, 0, 0, 2, 2, 0, 0);
    const int ra = a.apply(), rb = b.apply();
    c.fault(F_UNALLOCATED);
    if (ra == 0 || rb == 0) {  c.fail("unallocated", "a copy to or from a picture without memory returned %d and %d", ra, rb);  return;  }
  }
  const bool fits = X + SW <= s.W && Y + SH <= s.H && tx + TW <= d.W && ty + TH <= d.H;
  const int r = sc.apply();
  c.ev("%dx%d at (%d, %d) of %dx%d (%d), scaled %s%d, to (%d, %d) of %dx%d (%d): %d", SW, SH, X, Y, s.W, s.H, (int) fs, up || n == 1 ? "" : "1/", n, tx, ty, d.W, d.H, (int) ft, r);
  d.snap(&d.is);
  if ((r == 0) != fits) {  c.fail("fit", "the copy returned %d, and it %s", r, fits ? "fits" : "does not fit");  return;  }
  if (!fits) {
    c.fault(F_MISFIT);
    if (d.is != d.was) c.fail("misfit", "a copy that was refused changed the picture");
    return;
  }
  if (!d.contained(tx, ty, TW, TH, "a scaled copy")) return;
  for (int j = 0; j < TH; j++) for (int i = 0; i < TW; i++) {
    const int px = up || n == 1 ? X + i / n : X + i * n, py = up || n == 1 ? Y + j / n : Y + j * n;
    uint32_t want = s.was[py * s.W + px];
    if (fs != ft && !same) {
      // A picture of one pixel, to know what the target makes of it.
      Image one(1, 1, fs), got(1, 1, ft);
      one.reallocate();  got.reallocate();
      one.setPixel(0, 0, want);
      got.setPixel(0, 0, one.getPixelAsFormat(0, 0, ft));
      want = got.getPixel(0, 0);
    }
    if (d.now(tx + i, ty + j) != want) {
      c.fail("scaled", "%s%d: (%d, %d) of the copy is %x, and the source has %x at (%d, %d)", up || n == 1 ? "" : "1/", n, i, j, d.now(tx + i, ty + j), want, px, py);
      return;
    }
  }
  if (!TW || !TH) return;
  c.nontrivial();
  c.probe(n == 1 ? P_ONE : up ? P_UP : P_DOWN);
  if (same) c.probe(P_SAME);
  else if (fs != ft) c.probe(P_FORMATS);
  if (X + SW == s.W && Y + SH == s.H) c.probe(P_SOURCE_EDGE);
  if (tx + TW == d.W && ty + TH == d.H) c.probe(P_TARGET_EDGE);
  c.state(hash64(1, hash64(n * 2 + up, hash64((int) fs * 16 + (int) ft, hash64(SW / 8, SH / 8)))));
}

void gauges(Ctx& c) {
  Pic p(c, 24 + c.draw(90), 24 + c.draw(90), Fmt::GREY_8);
  UIGfxWrapper g(p.img.get());
  g.bg_color = 40;  g.fg_color = 250;
  const uint32_t COL = 150;
  p.noise(c.draw(100000), 0x1F);
  const int w = 10 + c.draw(p.W - 9), h = 10 + c.draw(p.H - 9);
  int x = c.chance(1, 3) ? (c.chance(1, 2) ? 0 : p.W - w) : c.draw(p.W - w + 1);
  int y = c.chance(1, 3) ? (c.chance(1, 2) ? 0 : p.H - h) : c.draw(p.H - h + 1);
  const bool cut = c.chance(1, 8);
  if (cut) {  x += c.draw(w);  y += c.draw(h);  c.fault(F_CUT);  }
  const int kind = c.draw(6);
  const int times = 1 + c.draw(3);
  float last = 0;
  for (int k = 0; k < times; k++) {
    p.snap(&p.was);
    auto frac = [&]() -> float {  return c.chance(1, 6) ? (c.chance(1, 2) ? 0.0f : 1.0f) : c.draw(1001) / 1000.0f;  };
    float a = frac(), b = frac();
    static const char* const NAMES[] = {"a progress bar", "an upright progress bar", "a zoom bar", "an upright zoom bar", "a compass", "a vector"};
    switch (kind) {
      case 0: g.drawProgressBarH(x, y, w, h, COL, k == 0 || c.chance(1, 2), false, a);  break;
      case 1: g.drawProgressBarV(x, y, w, h, COL, k == 0 || c.chance(1, 2), false, a);  break;
      case 2: g.drawZoomBarH(x, y, w, h, COL, false, a, b);  break;
      case 3: g.drawZoomBarV(x, y, w, h, COL, false, a, b);  break;
      case 4: g.drawCompass(x, y, w, h, c.chance(1, 2), false, (float) ((int) c.draw(1440) - 720), 0);  break;
      case 5: g.drawVector(x, y, w, h, COL, true, false, (a - 0.5f) * 1.6f, (b - 0.5f) * 1.6f, 0);  break;
    }
    c.ev("%s of %d by %d at (%d, %d) of %d by %d: %f %f", NAMES[kind], w, h, x, y, p.W, p.H, (double) a, (double) b);
    p.snap(&p.is);
    if (!p.contained(x, y, w, h, NAMES[kind])) return;
    c.nontrivial();
    if (cut) continue;
    if (kind < 4) {
      // Along the middle of the bar, one stretch is lit, and it is as long as it has to be.
      const bool upright = kind & 1;
      const int len = (upright ? h : w) - 2;
      const float lo = kind < 2 ? 0 : std::min(a, b), hi = kind < 2 ? a : std::max(a, b);
      const int from = (int) (lo * len), to = (int) (hi * len);
      for (int i = 0; i < len; i++) {
        const uint32_t is = upright ? p.now(x + w / 2, y + h - 2 - i) : p.now(x + 1 + i, y + h / 2);
        if (i == from || i == to || i == from - 1 || i == to - 1) {
          if (is == COL || is == g.bg_color) continue;
        }
        const uint32_t want = i >= from && i < to ? COL : g.bg_color;
        if (is != want) {  c.fail("gauge", "%s from %f to %f of %d pixels: pixel %d is %u, and should be %u", NAMES[kind], (double) lo, (double) hi, len, i, is, want);  return;  }
      }
      for (int e = 0; e < 2; e++) {
        const uint32_t is = upright ? p.now(x + w / 2, e ? y + h - 1 : y) : p.now(e ? x + w - 1 : x, y + h / 2);
        if (is != g.fg_color) {  c.fail("frame", "%s: its frame is %u", NAMES[kind], is);  return;  }
      }
      if (k && a < last) c.probe(P_SHRINK);
      if (a == 1.0f) c.probe(P_FULL);
      last = a;
      c.probe(P_BAR_H + kind);
    }
    else if (kind == 4) {
      const uint32_t is = p.now(x + w / 2, y + h / 2);
      if (is == g.bg_color) {  c.fail("needle", "there is no needle at the center of the compass");  return;  }
      c.probe(P_COMPASS);
    }
    else {
      for (int i = 0; i < w; i++) if (p.now(x + i, y + h / 2) != g.fg_color && p.now(x + i, y + h / 2) != COL) {  c.fail("axis", "the axis of the vector is broken at %d", i);  return;  }
      c.probe(P_VECTOR);
    }
    c.state(hash64(2, hash64(kind, hash64(w / 8, h / 8))));
  }
}

template <class T> void graph(Ctx& c, bool floats) {
  Pic p(c, 24 + c.draw(90), 24 + c.draw(90), Fmt::R8_G8_B8);
  p.noise(c.draw(100000), 0x1F);
  p.snap(&p.was);
  const int w = 8 + c.draw(p.W - 7), h = 8 + c.draw(p.H - 7);
  int x = c.chance(1, 3) ? (c.chance(1, 2) ? 0 : p.W - w) : c.draw(p.W - w + 1);
  const int y = c.chance(1, 3) ? (c.chance(1, 2) ? 0 : p.H - h) : c.draw(p.H - h + 1);
  const bool cut = c.chance(1, 10);
  if (cut) x = p.W - w + 1 + c.draw(20);
  ImageGraph<T> gr(w, h);
  gr.fg_color = 0xFAFAFA;  gr.bg_color = 0x404040;
  const uint32_t COL = 0x0000C8;
  const uint32_t n = c.chance(1, 8) ? 0 : c.chance(1, 4) ? 1 + c.draw(200) : 1 + c.draw(w + 8);
  std::vector<T> data(n);
  const int spread = c.draw(4);
  const uint32_t base = c.chance(1, 2) ? 0 : c.draw(5000);
  for (auto& v : data) v = floats && c.chance(1, 2) ? (T) ((int) c.draw(2000) - 1000) / (T) 8 : spread == 0 ? (T) base : spread == 1 ? (T) (base + c.draw(4)) : spread == 2 ? (T) (base + c.draw(300)) : (T) c.draw(1000000);
  gr.trace0.enabled = !c.chance(1, 10);
  gr.trace0.color = COL;
  gr.trace0.dataset = n ? data.data() : nullptr;
  gr.trace0.data_len = n;
  gr.trace0.autoscale_y = c.chance(1, 2);
  gr.trace0.draw_curve = c.chance(1, 3);
  gr.trace0.offset_x = c.draw(50);
  if (c.chance(1, 3)) {
    gr.trace0.draw_grid = true;
    gr.trace0.major_grid_x = c.draw(30);
    gr.trace0.major_grid_y = c.draw(200);
    gr.trace0.minor_grid_x = c.draw(10);
    gr.trace0.minor_grid_y = c.draw(10);
    gr.trace0.grid_lock_x = c.chance(1, 2);
    gr.trace0.grid_lock_y = c.chance(1, 2);
    c.probe(P_GRID);
  }
  c.ev("a graph of %u, %d by %d, at (%d, %d) of %d by %d%s%s", n, w, h, x, y, p.W, p.H, gr.trace0.draw_curve ? ", curve" : "", gr.trace0.draw_grid ? ", grid" : "");
  gr.drawGraph(p.img.get(), x, y);
  p.snap(&p.is);
  if (cut) {
    c.fault(F_CUT);
    if (p.is != p.was) c.fail("cut", "a graph that does not fit was drawn");
    return;
  }
  if (!p.contained(x, y, w, h, "a graph")) return;
  for (int i = 1; i < h; i++) if (p.now(x, y + i) != gr.fg_color) {  c.fail("axis", "the axis on the left is broken at %d", i);  return;  }
  if (!n || !gr.trace0.enabled) {
    if (!n) c.fault(F_EMPTY);
    for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) if (p.now(x + i, y + j) == COL) {  c.fail("nothing", "a graph without a trace has a point");  return;  }
    return;
  }
  const uint32_t shown = std::min<uint32_t>(n, w - 2);
  T dmin = data[0], dmax = data[0];
  for (uint32_t i = 0; i < shown; i++) {  dmin = std::min(dmin, data[i]);  dmax = std::max(dmax, data[i]);  }
  const T lo = gr.trace0.minValue(), hi = gr.trace0.maxValue();
  if ((lo != dmin && lo != std::min(dmin, (T) 0)) || (hi != dmax && hi != std::max(dmax, (T) 0))) {  c.fail("bounds", "the values from %f to %f are said to be within %f and %f", (double) dmin, (double) dmax, (double) lo, (double) hi);  return;  }
  const double range = (double) hi - (double) lo;
  int points = 0;
  for (uint32_t i = 0; i < (uint32_t) w - 2; i++) {
    int count = 0, at = -1;
    for (int j = 0; j < h; j++) if (p.now(x + 1 + i, y + j) == COL) {  count++;  at = j;  }
    if (i >= shown) {
      if (count) {  c.fail("extra", "there is a point %u, and there are %u values", i, n);  return;  }
      continue;
    }
    const int up = range > 0 ? (int) (((double) data[i] - (double) lo) * (h - 2) / range) : 0;
    bool hit = false;
    for (int e = -1; e <= 1; e++) {
      const int row = h - 1 - up + e;
      if (row >= 0 && row < h && p.now(x + 1 + i, y + row) == COL) hit = true;
    }
    if (!hit) {  c.fail("point", "value %u is %f of %f to %f, %d pixels above the foot of %d, and its point is at %d", i, (double) data[i], (double) lo, (double) hi, up, h, h - 1 - at);  return;  }
    if (!gr.trace0.draw_curve && count != 1) {  c.fail("points", "value %u has %d points", i, count);  return;  }
    points++;
  }
  if (points) c.nontrivial();
  if (gr.trace0.draw_curve) c.probe(P_CURVE);
  if (range == 0) c.probe(P_FLAT);
  c.probe(floats ? P_GRAPH_F : P_GRAPH);
  c.state(hash64(3 + floats, hash64(w / 8, hash64(h / 8, shown / 8))));
}

void blobs(Ctx& c) {
  Pic p(c, 12 + c.draw(90), 12 + c.draw(90), Fmt::R8_G8_B8);
  p.noise(c.draw(100000), 0x1F);
  p.snap(&p.was);
  const int w = 2 + c.draw(p.W - 3), h = 2 + c.draw(p.H - 3);
  const int x = c.draw(p.W - w), y = c.draw(p.H - h);
  const uint32_t n = c.chance(1, 12) ? 0 : c.chance(1, 2) ? 1 + c.draw(64) : 1 + c.draw(w * h + 10);
  std::vector<uint8_t> data(n + 1);
  for (auto& b : data) b = c.draw(256);
  C3PValue v(data.data(), n);
  std::vector<uint16_t> map(2 * n + 2, 0xFFFF);
  const bool hilbert = c.chance(1, 2);
  OwnColor own(p.img.get());
  BlobPlotterHilbertCurve hc(&own, &v, p.img.get(), x, y, w, h);
  BlobPlotterLinear li(&own, &v, p.img.get(), x, y, w, h);
  BlobPlotter& b = hilbert ? (BlobPlotter&) hc : (BlobPlotter&) li;
  b.setMapMem(map.data(), 2 * n);
  const int r = b.apply(true);
  p.snap(&p.is);
  c.ev("%u bytes as a %s in %d by %d at (%d, %d) of %d by %d: %d", n, hilbert ? "curve" : "table", w, h, x, y, p.W, p.H, r);
  if (!p.contained(x, y, w, h, hilbert ? "a curve of bytes" : "a table of bytes")) return;
  if (r != 0 || !n) {
    c.fault(F_EMPTY);
    if (p.is != p.was) c.fail("refused", "a map that was refused was drawn");
    return;
  }
  std::vector<int> area(n, 0), x0(n, 9999), y0(n, 9999), x1(n, -1), y1(n, -1);
  for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) {
    const uint32_t k = p.now(x + i, y + j);
    if (k < 0x10000) continue;
    const uint32_t o = k - 0x10000;
    if (o >= n) {  c.fail("byte", "byte %u of %u", o, n);  return;  }
    area[o]++;  x0[o] = std::min(x0[o], i);  x1[o] = std::max(x1[o], i);  y0[o] = std::min(y0[o], j);  y1[o] = std::max(y1[o], j);
  }
  // The curve only works within one square (G03-1).
  int full = 0;
  for (uint32_t o = 0; o < n && !full; o++) full = area[o];
  int side = 0;
  while (side * side < full) side++;
  const bool loose = hilbert && (n > b.bytesWide() * b.bytesWide() || b.bytesWide() * side > (uint32_t) h);
  for (uint32_t o = 0; o < n; o++) {
    if (loose && !area[o]) continue;   // G03-1
    if (!area[o]) {  c.fail("lost", "byte %u of %u is not shown (%u, %u)", o, n, map[2 * o], map[2 * o + 1]);  return;  }
    if (area[o] != full || x1[o] - x0[o] != y1[o] - y0[o]) {  c.fail("square", "byte %u of %u covers %d pixels, %d by %d; another covers %d", o, n, area[o], x1[o] - x0[o] + 1, y1[o] - y0[o] + 1, full);  return;  }
    if (map[2 * o] != x0[o] || map[2 * o + 1] != y0[o]) {  c.fail("map", "byte %u is at (%d, %d), and said to be at (%u, %u)", o, x0[o], y0[o], map[2 * o], map[2 * o + 1]);  return;  }
    if (o && !loose) {
      const int side = x1[o] - x0[o] + 1, dx = abs(x0[o] - x0[o - 1]), dy = abs(y0[o] - y0[o - 1]);
      if (hilbert ? dx + dy != side : !((dy == 0 && x0[o] == x0[o - 1] + side) || (x0[o] == 0 && y0[o] == y0[o - 1] + side))) {  c.fail("order", "byte %u is at (%d, %d), and the one before it at (%d, %d)", o, x0[o], y0[o], x0[o - 1], y0[o - 1]);  return;  }
    }
  }
  c.nontrivial();
  c.probe(hilbert ? P_HILBERT : P_LINEAR);
  c.state(hash64(5 + hilbert, hash64(w / 8, hash64(h / 8, n / 8))));
}

/* The color of each byte is that of the last fence at or before it. */
void fences(Ctx& c) {
  Image img(4, 4, Fmt::R8_G8_B8);
  BlobStylerExplicitFencing f(&img);
  std::map<uint32_t, uint32_t> m;
  const int n = c.draw(8);
  uint8_t buf[4] = {0};
  for (int i = 0; i < n; i++) {
    const uint32_t o = c.draw(30), col = 1 + c.draw(1000);
    const int r = f.addOffset(o, col);
    const bool fresh = !m.count(o);
    if ((r == 0) != fresh) {  c.fail("fence", "adding a fence at %u returned %d, and there was %s", o, r, fresh ? "none" : "one");  return;  }
    if (fresh) m[o] = col;
  }
  if (c.chance(1, 8)) {  f.wipe();  m.clear();  }
  for (uint32_t o = 0; o < 32; o++) {
    auto it = m.upper_bound(o);
    const uint32_t want = it == m.begin() ? 0 : (--it)->second;
    const uint32_t is = f.getColor(buf, 32, o);
    if (is != want) {  c.fail("fences", "the color at %u of %d fences is %u, and should be %u", o, (int) m.size(), is, want);  return;  }
  }
  // And in a heat map, the brightness is that of the byte.
  BlobStylerHeatMap heat(&img, 0, 0);
  uint8_t bytes[8];
  for (auto& b : bytes) b = c.draw(256);
  for (uint32_t i = 0; i < 8; i++) if (heat.getColor(bytes, 8, i) != bytes[i] * 0x010101u) {  c.fail("heat", "the color of byte %u is %x", bytes[i], heat.getColor(bytes, 8, i));  return;  }
  c.ev("%d fences", (int) m.size());
  if (m.size()) {  c.nontrivial();  c.probe(P_FENCES);  }
}

void run(Ctx& c) {
  const size_t h0 = heap_in_use();
  c.plan_ops(6);
  while (c.next_op() && !c.failed()) {
    c.step();
    switch (c.draw(10)) {
      case 0: case 1: case 2: scaler(c);  break;
      case 3: case 4: case 5: gauges(c);  break;
      case 6: graph<uint32_t>(c, false);  break;
      case 7: graph<float>(c, true);  break;
      case 8: blobs(c);  break;
      case 9: if (c.chance(1, 3)) fences(c); else blobs(c);  break;
    }
  }
  c.begin_tail();
  const size_t h1 = heap_in_use();
  if (!c.failed() && h1 != h0) c.fail("leak", "%d bytes were not given back", (int) (h1 - h0));
}
}

Harness g_harness = {
  "G03",
  "a case is a sequence of scaled copies, gauges, graphs and byte maps, each in a box of a picture of random size; non-trivial if something was drawn and compared",
  run,
  {"a copy that does not fit", "a picture without memory", "nothing to show", "a box cut by the edge"},
  {"unscaled", "enlarged", "reduced", "within one picture", "between formats", "to the source's edge", "to the target's edge", "bar", "upright bar", "zoom bar", "upright zoom bar", "shrinking", "full", "compass", "vector", "graph", "graph of floats", "grid", "curve", "flat", "table of bytes", "curve of bytes", "fences"},
  {"Image/ImageUtils/ImageScalers.cpp", "Image/ImageUtils/ImageUtils.cpp", "Image/ImageUtils/ImageGraph.cpp", "Image/ImageUtils/BlobPlotter.cpp", "Image/Image.cpp"},
  {},
  "kind of drawing, with its size in eighths",
  {{"G03-1", "a Hilbert curve of bytes in an area that is not one square returns success, and leaves bytes out or draws over them (54 bytes in 8 by 7: byte 42)", [] {  return curve_loses();  }}},
  6000, 200000
};
