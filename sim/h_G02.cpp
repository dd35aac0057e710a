/* G02: shapes and text are drawn where they belong, whole, and nowhere else, wherever that is with respect to the picture. */
#include "engine.h"
#include <stdlib.h>
#include <math.h>
#include <memory>
#include "Image/Image.h"
using namespace sim;

namespace {
enum {  F_EDGE, F_FAR  };
enum {  P_HLINE, P_VLINE, P_FILLRECT, P_RECT, P_NOTHING, P_LINE, P_LINE_CUT, P_CIRCLE, P_DISC, P_ROUND, P_ROUND_FULL, P_TRI, P_TRI_FULL, P_BITMAP, P_ELLIPSE, P_CHAR, P_OPAQUE, P_BIG, P_HIGH, P_STRING, P_WRAP, P_BOUNDS, P_CUSTOM, P_CUSTOM_BIG, P_TURNED, P_HUGE  };
typedef ImgBufferFormat Fmt;

/* drawEllipse() is known not to draw an ellipse (G02-1). */
bool bad_ellipse() {
  Image i(41, 41, Fmt::GREY_8);
  i.reallocate();
  i.drawEllipse(20, 20, 5, 10, 0.0f, 7);
  return !(i.getPixel(20, 15) == 7 && i.getPixel(20, 25) == 7 && i.getPixel(17, 16) + i.getPixel(17, 15) && i.getPixel(23, 16) + i.getPixel(23, 15));
}

struct Pic {
  Ctx& c;
  std::unique_ptr<Image> img;
  int W, H;
  std::vector<uint32_t> was, is, want;
  Pic(Ctx& c_) : c(c_) {}
  void snap(std::vector<uint32_t>* v) {
    v->resize(W * H);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) (*v)[y * W + x] = img->getPixel(x, y);
  }
  bool in(int x, int y) const {  return x >= 0 && y >= 0 && x < W && y < H;  }
  /* Coordinates have 16 bits. */
  void put(int x, int y, uint32_t col) {
    x &= 0xFFFF;  y &= 0xFFFF;
    if (in(x, y)) want[y * W + x] = col;
  }
  bool drawn(int x, int y) const {  return is[y * W + x] != was[y * W + x];  }
  bool exact(const char* what) {
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
      const size_t k = y * W + x;
      if (is[k] != want[k]) {
        c.fail(what, "%s: (%d, %d) of %d by %d is %x, was %x, and should be %x", what, x, y, W, H, is[k], was[k], want[k]);
        return false;
      }
    }
    return true;
  }
};
int near16(int v, int origin) {  return (int16_t) (uint16_t) (v - origin);  }

/* The classic glyphs, as columns; learned from the picture itself, and compared with those that are known. */
uint8_t g_glyph[256][5];
void learn() {
  Image i(8, 8, Fmt::GREY_8);
  i.reallocate();
  i.cp437(true);
  for (int g = 0; g < 256; g++) {
    i.fill(0);
    i.drawChar(0, 0, (uint8_t) g, 1, 1, 1);
    for (int x = 0; x < 5; x++) {
      g_glyph[g][x] = 0;
      for (int y = 0; y < 8; y++) if (i.getPixel(x, y)) g_glyph[g][x] |= 1 << y;
    }
  }
}
struct Known {  char ch;  uint8_t col[5];  };
const Known KNOWN[] = {
  {' ', {0, 0, 0, 0, 0}}, {'!', {0x00, 0x00, 0x5F, 0x00, 0x00}}, {'0', {0x3E, 0x51, 0x49, 0x45, 0x3E}}, {'1', {0x00, 0x42, 0x7F, 0x40, 0x00}},
  {'A', {0x7C, 0x12, 0x11, 0x12, 0x7C}}, {'Z', {0x61, 0x59, 0x49, 0x4D, 0x43}}, {'a', {0x20, 0x54, 0x54, 0x78, 0x40}}, {'z', {0x44, 0x64, 0x54, 0x4C, 0x44}}, {'~', {0x02, 0x01, 0x02, 0x04, 0x02}}
};

struct Font {
  std::vector<uint8_t> bits;
  std::vector<GFXglyph> glyphs;
  std::vector<std::vector<bool>> on;
  GFXfont f;
};

void run(Ctx& c) {
  learn();
  const bool ellipse_known = bad_ellipse();
  c.ev("an ellipse is %san ellipse", ellipse_known ? "not " : "");
  for (auto& k : KNOWN) if (memcmp(g_glyph[(uint8_t) k.ch], k.col, 5)) {  c.fail("glyph", "'%c' does not look like it", k.ch);  return;  }
  const size_t h0 = heap_in_use();
  {
  Pic p(c);
  Font font;
  const bool wide = c.chance(1, 4);
  const Fmt f = wide ? c.pick<Fmt>({Fmt::R8_G8_B8_ALPHA, Fmt::R8_G8_B8}) : Fmt::GREY_8;
  int w = 1 + c.draw(72), h = 1 + c.draw(72);
  int rot = c.chance(1, 3) ? c.draw(4) : 0;
  const bool square = c.chance(1, 4);
  if (square) h = w;
  p.img.reset(new Image(w, h, f));
  if (!p.img->reallocate()) {  c.fail("setup", "no picture");  return;  }
  p.img->orientation((ImgOrientation) rot);
  const bool fx = rot && c.chance(1, 4);
  p.img->flipX(fx);
  if (rot || fx) c.probe(P_TURNED);
  p.W = rot & 1 ? h : w;  p.H = rot & 1 ? w : h;
  const int W = p.W, H = p.H;
  const bool texty = !(rot & 1) || w == h;
  const uint32_t COLOR = f == Fmt::GREY_8 ? 200 : 0xC8C9CA;
  const uint32_t PAPER = f == Fmt::GREY_8 ? 150 : 0x969798;
  {
    const uint32_t s = c.draw(10000);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) p.img->setPixel(x, y, 1 + (uint32_t) (hash64(s, y * 100 + x) % 100));
  }
  c.ev("a picture of %d by %d, turned %d", W, H, rot * 90);
  /* A coordinate: within, about the edges, beyond them, or anywhere. */
  bool outside = false;
  auto coord = [&](int lim) -> int {
    switch (c.draw(10)) {
      case 0: return 0;
      case 1: return lim - 1;
      case 2: outside = true;  return lim + c.draw(20);
      case 3: outside = true;  return 65536 - 1 - c.draw(30);
      case 4: if (c.chance(1, 3)) {  outside = true;  return c.draw(65536);  }  return c.draw(lim);
      default: return c.draw(lim);
    }
  };
  auto extent = [&](int lim) -> int {
    switch (c.draw(8)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return lim;
      case 3: return c.chance(1, 4) ? 65535 - c.draw(20) : lim + c.draw(40);
      default: return 1 + c.draw(lim);
    }
  };
  const double EPS = 1e-9L;
  /* Every drawn pixel is beside one of the segments, and each of those is whole, as far as it can be seen. */
  auto segments = [&](const std::vector<std::array<int, 4>>& segs, bool single, const char* what) -> bool {
    auto off = [&](const std::array<int, 4>& s, int x, int y) -> double {
      const int dx = abs(s[2] - s[0]), dy = abs(s[3] - s[1]);
      if (dx >= dy) {
        if (x < std::min(s[0], s[2]) || x > std::max(s[0], s[2])) return 9;
        return fabs(y - (dx ? s[1] + (double) (s[3] - s[1]) * (x - s[0]) / (s[2] - s[0]) : (double) s[1]));
      }
      if (y < std::min(s[1], s[3]) || y > std::max(s[1], s[3])) return 9;
      return fabs(x - (s[0] + (double) (s[2] - s[0]) * (y - s[1]) / (s[3] - s[1])));
    };
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) if (p.drawn(x, y)) {
      bool ok = p.is[y * W + x] == COLOR;
      if (!ok) {  c.fail("color", "%s: (%d, %d) became %x", what, x, y, p.is[y * W + x]);  return false;  }
      ok = false;
      for (auto& s : segs) if (off(s, x, y) < 1.0L - EPS) {  ok = true;  break;  }
      if (!ok) {  c.fail("stray", "%s: (%d, %d) was drawn, and is beside no line", what, x, y);  return false;  }
    }
    for (auto& s : segs) {
      const int dx = abs(s[2] - s[0]), dy = abs(s[3] - s[1]);
      const bool flat = dx >= dy;
      const int lo = flat ? std::min(s[0], s[2]) : std::min(s[1], s[3]), hi = flat ? std::max(s[0], s[2]) : std::max(s[1], s[3]);
      const int lim = flat ? W : H, other = flat ? H : W;
      for (int m = std::max(lo, 0); m <= std::min(hi, lim - 1); m++) {
        const double ideal = flat ? (dx ? s[1] + (double) (s[3] - s[1]) * (m - s[0]) / (s[2] - s[0]) : (double) s[1]) : s[0] + (double) (s[2] - s[0]) * (m - s[1]) / (s[3] - s[1]);
        if (ideal < -EPS || ideal > other - 1 + EPS) continue;       // Out of sight.
        int n = 0;
        for (int o = std::max(0, (int) floor(ideal) - 1); o <= std::min(other - 1, (int) ceil(ideal) + 1); o++) {
          const int x = flat ? m : o, y = flat ? o : m;
          if (p.drawn(x, y) && fabs(o - ideal) < 1.0L - EPS) n++;
        }
        if (!n) {  c.fail("gap", "%s: the line from (%d, %d) to (%d, %d) has a gap at %s %d", what, s[0], s[1], s[2], s[3], flat ? "column" : "row", m);  return false;  }
        if (single && n > 1) {  c.fail("thick", "%s: the line from (%d, %d) to (%d, %d) is %d thick at %s %d", what, s[0], s[1], s[2], s[3], n, flat ? "column" : "row", m);  return false;  }
      }
      for (int e = 0; e < 2; e++) if (p.in(s[2 * e], s[2 * e + 1]) && !p.drawn(s[2 * e], s[2 * e + 1])) {  c.fail("end", "%s: the end of a line at (%d, %d) is missing", what, s[2 * e], s[2 * e + 1]);  return false;  }
    }
    return true;
  };
  auto make_font = [&]() {
    font = Font();
    font.f.first = 1 + c.draw(250);
    if (c.chance(1, 2)) font.f.first = 30 + c.draw(80);
    int n = 1 + c.draw(std::min(10, 256 - font.f.first));
    font.f.last = font.f.first + n - 1;
    font.f.yAdvance = 1 + c.draw(16);
    for (int g = 0; g < n; g++) {
      GFXglyph gl;
      gl.bitmapOffset = (uint16_t) font.bits.size();
      gl.width = c.draw(9);  gl.height = c.draw(9);
      gl.xAdvance = c.draw(12);
      gl.xOffset = (int8_t) (c.draw(5) - 2);  gl.yOffset = (int8_t) (3 - (int) c.draw(12));
      std::vector<bool> on;
      const int cells = gl.width * gl.height;
      for (int b = 0; b < (cells + 7) / 8; b++) font.bits.push_back((uint8_t) c.draw(256));
      for (int b = 0; b < cells; b++) on.push_back(font.bits[gl.bitmapOffset + b / 8] >> (7 - b % 8) & 1);
      font.glyphs.push_back(gl);
      font.on.push_back(on);
    }
    // Exactly as much as there should be.
    font.bits.shrink_to_fit();
    font.f.bitmap = font.bits.data();
    font.f.glyph = font.glyphs.data();
  };
  bool custom = false, cp = false, wrap = false;
  uint8_t size = c.chance(1, 2) ? 1 : 1 + c.draw(3);
  p.img->setTextSize(size);
  uint32_t fg = COLOR, bg = COLOR;
  p.img->setTextColor(COLOR);
  if (texty && c.chance(1, 3)) {  custom = true;  make_font();  p.img->setFont(&font.f);  }
  if (c.chance(1, 3)) {  wrap = true;  p.img->textWrap(true);  }
  /* What drawChar() should do. */
  auto model_char = [&](int x, int y, uint8_t ch, uint32_t col, uint32_t paper, int sz) {
    auto cell = [&](int cx, int cy, uint32_t v) {  for (int i = 0; i < sz; i++) for (int j = 0; j < sz; j++) p.put(cx + i, cy + j, v);  };
    if (!custom) {
      if ((x & 0xFFFF) >= W || (y & 0xFFFF) >= H) return;
      if (!cp && ch >= 176) ch++;
      for (int i = 0; i < 6; i++) for (int j = 0; j < 8; j++) {
        const bool on = i < 5 && (g_glyph[ch][i] >> j & 1);
        if (on) cell(x + i * sz, y + j * sz, col);
        else if (col != paper) cell(x + i * sz, y + j * sz, paper);
      }
    }
    else {
      const int g = ch - font.f.first;
      const GFXglyph& gl = font.glyphs[g];
      for (int b = 0; b < (int) font.on[g].size(); b++) if (font.on[g][b]) cell(x + (gl.xOffset + b % gl.width) * sz, y + (gl.yOffset + b / gl.width) * sz, col);
    }
  };

  c.plan_ops(4 + c.draw(14));
  while (c.next_op() && !c.failed()) {
    c.step();
    // Every drawing is judged by what it changed, so nothing may have its colors already.
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {  uint32_t v = p.img->getPixel(x, y);  if (v == COLOR || v == PAPER) p.img->setPixel(x, y, 1 + (x * 7 + y) % 100);  }
    p.snap(&p.was);
    p.want = p.was;
    outside = false;
    const int kind = c.draw(texty ? 17 : 13);
    switch (kind) {
      case 0: {
        int x = coord(W), y = coord(H), n = extent(W);
        c.ev("horizontal, (%d, %d), %d", x, y, n);
        p.img->drawFastHLine(x, y, n, COLOR);
        p.snap(&p.is);
        for (int i = 0; i < n; i++) p.put(x + i, y, COLOR);
        c.probe(P_HLINE);
        if (!n) c.probe(P_NOTHING);
        p.exact("horizontal");
        break;
      }
      case 1: {
        int x = coord(W), y = coord(H), n = extent(H);
        c.ev("vertical, (%d, %d), %d", x, y, n);
        p.img->drawFastVLine(x, y, n, COLOR);
        p.snap(&p.is);
        for (int i = 0; i < n; i++) p.put(x, y + i, COLOR);
        c.probe(P_VLINE);
        p.exact("vertical");
        break;
      }
      case 2: {
        int x = coord(W), y = coord(H), a = extent(W), b = extent(H);
        if ((int64_t) a * b > 4000000) b = 3;
        c.ev("filled, (%d, %d), %d by %d", x, y, a, b);
        p.img->fillRect(x, y, a, b, COLOR);
        p.snap(&p.is);
        for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) p.put(x + i, y + j, COLOR);
        c.probe(P_FILLRECT);
        if (!a || !b) c.probe(P_NOTHING);
        p.exact("filled rectangle");
        break;
      }
      case 3: {
        int x = coord(W), y = coord(H), a = 1 + extent(W) % 65535, b = 1 + extent(H) % 65535;
        c.ev("rectangle, (%d, %d), %d by %d", x, y, a, b);
        p.img->drawRect(x, y, a, b, COLOR);
        p.snap(&p.is);
        for (int i = 0; i < a; i++) {  p.put(x + i, y, COLOR);  p.put(x + i, y + b - 1, COLOR);  }
        for (int i = 0; i < b; i++) {  p.put(x, y + i, COLOR);  p.put(x + a - 1, y + i, COLOR);  }
        c.probe(P_RECT);
        p.exact("rectangle");
        break;
      }
      case 4: case 5: {
        int x0 = coord(W), y0 = coord(H), x1 = coord(W), y1 = coord(H);
        if (c.chance(1, 3)) x1 = c.chance(1, 2) ? x0 : W + c.draw(200);
        c.ev("line, (%d, %d) to (%d, %d)", x0, y0, x1, y1);
        p.img->drawLine(x0, y0, x1, y1, COLOR);
        p.snap(&p.is);
        c.probe(outside ? P_LINE_CUT : P_LINE);
        segments({{x0, y0, x1, y1}}, true, "line");
        break;
      }
      case 6: case 7: {
        const bool full = kind == 7;
        int x0 = coord(W), y0 = coord(H), r = c.chance(1, 8) ? 40 + c.draw(400) : c.draw(34);
        const bool huge = c.chance(1, 40);
        if (huge) {  r = 16384 + c.draw(49152);  if (full) r = 1000 + c.draw(1000);  c.probe(P_HUGE);  }
        c.ev("%s, (%d, %d), %d", full ? "disc" : "circle", x0, y0, r);
        if (full) p.img->fillCircle(x0, y0, r, COLOR);
        else p.img->drawCircle(x0, y0, r, COLOR);
        p.snap(&p.is);
        c.probe(full ? P_DISC : P_CIRCLE);
        if (huge) break;         // It ends, and writes only within the picture.
        auto seen = [&](int dx, int dy, int* x, int* y) {  *x = (x0 + dx) & 0xFFFF;  *y = (y0 + dy) & 0xFFFF;  return p.in(*x, *y);  };
        for (int y = 0; y < H && !c.failed(); y++) for (int x = 0; x < W; x++) {
          const int dx = near16(x, x0), dy = near16(y, y0);
          const double d = sqrt((double) dx * dx + (double) dy * dy);
          const bool on = p.drawn(x, y);
          if (on && p.is[y * W + x] != COLOR) {  c.fail("color", "(%d, %d) became %x", x, y, p.is[y * W + x]);  break;  }
          if (on && (full ? d >= r + 1.0L : fabs(d - r) >= 1.0L)) {  c.fail("stray", "a %s about (%d, %d) of %d covers (%d, %d)", full ? "disc" : "circle", x0, y0, r, x, y);  break;  }
          if (full && !on && d <= r - 1.0L) {  c.fail("gap", "a disc about (%d, %d) of %d leaves (%d, %d)", x0, y0, r, x, y);  break;  }
          const int S[7][2] = {{-dx, dy}, {dx, -dy}, {-dx, -dy}, {dy, dx}, {-dy, dx}, {dy, -dx}, {-dy, -dx}};
          for (auto& s : S) {
            int a, b;
            if (seen(s[0], s[1], &a, &b) && p.drawn(a, b) != on) {  c.fail("symmetry", "a %s about (%d, %d) of %d has (%d, %d), and not (%d, %d)", full ? "disc" : "circle", x0, y0, r, on ? x : a, on ? y : b, on ? a : x, on ? b : y);  break;  }
          }
          if (c.failed()) break;
        }
        if (c.failed() || full) break;
        // Along each of the eight arcs, there is a pixel at every step.
        for (int k = 0; k <= (int) (r * 0.7L) && !c.failed(); k++) {
          const double ideal = sqrt((double) r * r - (double) k * k);
          for (int o = 0; o < 8; o++) {
            int n = 0, x, y;
            bool all = true;
            for (int q = (int) floor(ideal) - 1; q <= (int) ceil(ideal) + 1; q++) {
              if (q < 0 || fabs(sqrt((double) q * q + (double) k * k) - r) >= 1.0L) continue;
              const int a = o & 4 ? q : k, b = o & 4 ? k : q;
              if (!seen(o & 1 ? -a : a, o & 2 ? -b : b, &x, &y)) {  all = false;  continue;  }
              if (p.drawn(x, y)) n++;
            }
            if (all && !n) {  c.fail("gap", "a circle about (%d, %d) of %d has a gap", x0, y0, r);  break;  }
            if (n > 1 && k < r * 0.7L - 2) {  c.fail("thick", "a circle about (%d, %d) of %d is %d thick", x0, y0, r, n);  break;  }
          }
        }
        break;
      }
      case 8: case 9: {
        const bool full = kind == 9;
        int x0 = coord(W), y0 = coord(H), a = 1 + c.draw(W + 20), b = 1 + c.draw(H + 20), r = c.chance(1, 6) ? c.draw(60000) : c.draw(20);
        c.ev("%s, (%d, %d), %d by %d, %d", full ? "full round" : "round", x0, y0, a, b, r);
        if (full) p.img->fillRoundRect(x0, y0, a, b, r, COLOR);
        else p.img->drawRoundRect(x0, y0, a, b, r, COLOR);
        p.snap(&p.is);
        c.probe(full ? P_ROUND_FULL : P_ROUND);
        r = std::min(r, std::min(a, b) / 2);
        for (int y = 0; y < H && !c.failed(); y++) for (int x = 0; x < W; x++) {
          const int u = near16(x, x0), v = near16(y, y0);
          const bool on = p.drawn(x, y);
          if (on && p.is[y * W + x] != COLOR) {  c.fail("color", "(%d, %d) became %x", x, y, p.is[y * W + x]);  break;  }
          int lo = 0, hi = 0;      // Must it be drawn, and may it?
          if (u >= 0 && v >= 0 && u < a && v < b) {
            const int cx = u < r ? u - r : (u > a - r - 1 ? u - (a - r - 1) : 0), cy = v < r ? v - r : (v > b - r - 1 ? v - (b - r - 1) : 0);
            const bool rim = u == 0 || v == 0 || u == a - 1 || v == b - 1;
            if (!cx || !cy) lo = hi = full || rim;
            else {
              const double d = sqrt((double) (cx * cx + cy * cy));
              lo = full && d <= r - 1.0L;
              hi = full ? d < r + 1.0L : fabs(d - r) < 1.0L;
            }
          }
          if (on && !hi) {  c.fail("stray", "a %srounded rectangle at (%d, %d), %d by %d, %d, covers (%d, %d)", full ? "full " : "", x0, y0, a, b, r, x, y);  break;  }
          if (!on && lo) {  c.fail("gap", "a %srounded rectangle at (%d, %d), %d by %d, %d, leaves (%d, %d)", full ? "full " : "", x0, y0, a, b, r, x, y);  break;  }
          for (int s = 1; s < 4; s++) {
            const int xx = (x0 + (s & 1 ? a - 1 - u : u)) & 0xFFFF, yy = (y0 + (s & 2 ? b - 1 - v : v)) & 0xFFFF;
            if (p.in(xx, yy) && p.drawn(xx, yy) != on) {  c.fail("symmetry", "a %srounded rectangle at (%d, %d), %d by %d, %d, is lopsided at (%d, %d)", full ? "full " : "", x0, y0, a, b, r, x, y);  break;  }
          }
          if (c.failed()) break;
        }
        if (c.failed() || full) break;
        for (int k = 1; k <= r && !c.failed(); k++) for (int s = 0; s < 4; s++) {
          bool any = false, all = true;
          for (int q = 0; q <= r; q++) {
            if (fabs(sqrt((double) (k * k + q * q)) - r) >= 1.0L) continue;
            const int u = s & 1 ? a - r - 1 + k : r - k, v = s & 2 ? b - r - 1 + q : r - q;
            const int x = (x0 + u) & 0xFFFF, y = (y0 + v) & 0xFFFF;
            if (!p.in(x, y)) {  all = false;  continue;  }
            if (p.drawn(x, y)) any = true;
          }
          if (all && !any) {  c.fail("gap", "a rounded rectangle at (%d, %d), %d by %d, %d, has a gap in a corner", x0, y0, a, b, r);  break;  }
        }
        break;
      }
      case 10: case 11: {
        const bool full = kind == 11;
        int v[6];
        for (int i = 0; i < 6; i++) v[i] = c.chance(1, 6) ? (int) c.draw(3000) : (int) c.draw((i & 1 ? H : W) + 10);
        if (c.chance(1, 6)) v[3] = v[1];
        if (c.chance(1, 6)) v[5] = v[3];
        if (c.chance(1, 10)) v[4] = v[2] = v[0];
        c.ev("%s, (%d, %d), (%d, %d), (%d, %d)", full ? "full triangle" : "triangle", v[0], v[1], v[2], v[3], v[4], v[5]);
        if (full) p.img->fillTriangle(v[0], v[1], v[2], v[3], v[4], v[5], COLOR);
        else p.img->drawTriangle(v[0], v[1], v[2], v[3], v[4], v[5], COLOR);
        p.snap(&p.is);
        c.probe(full ? P_TRI_FULL : P_TRI);
        if (!full) {  segments({{v[0], v[1], v[2], v[3]}, {v[2], v[3], v[4], v[5]}, {v[4], v[5], v[0], v[1]}}, false, "triangle");  break;  }
        for (int y = 0; y < H && !c.failed(); y++) {
          double L = 1e9L, R = -1e9L;
          for (int e = 0; e < 3; e++) {
            const int ax = v[2 * e], ay = v[2 * e + 1], bx = v[(2 * e + 2) % 6], by = v[(2 * e + 3) % 6];
            if (y < std::min(ay, by) || y > std::max(ay, by)) continue;
            if (ay == by) {  L = std::min(L, (double) std::min(ax, bx));  R = std::max(R, (double) std::max(ax, bx));  }
            else {  const double t = ax + (double) (bx - ax) * (y - ay) / (by - ay);  L = std::min(L, t);  R = std::max(R, t);  }
          }
          for (int x = 0; x < W; x++) {
            const bool on = p.drawn(x, y);
            if (on && p.is[y * W + x] != COLOR) {  c.fail("color", "(%d, %d) became %x", x, y, p.is[y * W + x]);  break;  }
            bool corner = false;
            for (int e = 0; e < 3; e++) corner |= v[2 * e] == x && v[2 * e + 1] == y;
            if (on && (x <= L - 1 || x >= R + 1)) {  c.fail("stray", "(%d, %d) was drawn, and is not within the triangle", x, y);  break;  }
            if (!on && (corner || (x >= L + 1 && x <= R - 1))) {  c.fail("gap", "(%d, %d) was not drawn, and is within the triangle", x, y);  break;  }
          }
        }
        break;
      }
      case 12: {
        if (c.chance(1, 3)) {
          int x0 = coord(W), y0 = coord(H), a = c.draw(80), b = c.draw(80);
          const bool same = c.chance(1, 4);
          if (same) b = a;
          const float turn = (float) (int) c.draw(720) - 360.0f;
          c.ev("ellipse, (%d, %d), %d by %d", x0, y0, a, b);
          p.img->drawEllipse(x0, y0, a, b, turn, COLOR);
          p.snap(&p.is);
          c.probe(P_ELLIPSE);
          if (!same) break;           // It ends, and writes only within the picture.
          p.want = p.is;
          for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) p.img->setPixel(x, y, p.was[y * W + x]);
          p.img->drawCircle(x0, y0, a, COLOR);
          p.snap(&p.is);
          p.exact("round ellipse");
          break;
        }
        int x = coord(W), y = coord(H), a = c.draw(20), b = c.draw(20);
        std::unique_ptr<uint8_t[]> bm(new uint8_t[a * b + 1]);
        for (int i = 0; i < a * b; i++) bm[i] = 101 + (hash64(i, x) % 40);
        c.ev("bitmap, (%d, %d), %d by %d", x, y, a, b);
        p.img->drawBitmap(x, y, bm.get(), a, b);
        p.snap(&p.is);
        for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) p.put(x + i, y + j, bm[j * a + i]);
        c.probe(P_BITMAP);
        p.exact("bitmap");
        break;
      }
      case 13: {          // The manner of text.
        switch (c.draw(6)) {
          case 0: cp = !cp;  p.img->cp437(cp);  break;
          case 1: wrap = !wrap;  p.img->textWrap(wrap);  break;
          case 2: size = 1 + c.draw(4);  p.img->setTextSize(size == 1 && c.chance(1, 2) ? 0 : size);  break;
          case 3: bg = fg = c.chance(1, 2) ? COLOR : COLOR - 1;  p.img->setTextColor(fg);  break;
          case 4: bg = PAPER;  fg = c.chance(1, 2) ? COLOR : COLOR - 1;  p.img->setTextColor(fg, bg);  break;
          default:
            custom = !custom;
            if (custom) {  make_font();  p.img->setFont(&font.f);  }
            else p.img->setFont(nullptr);
            break;
        }
        c.ev("size %u, %s, %s, %s", size, custom ? "own font" : "classic", wrap ? "wrapping" : "straight on", cp ? "strict" : "lax");
        const int fw = custom ? (uint16_t) (font.glyphs[0].xAdvance * size) : 6 * size, fh = custom ? (uint16_t) (font.f.yAdvance * size) : 8 * size;
        if (p.img->getFontWidth() != fw || p.img->getFontHeight() != fh) c.fail("font", "the font is %u by %u, and should be %d by %d", p.img->getFontWidth(), p.img->getFontHeight(), fw, fh);
        break;
      }
      case 14: {          // One character.
        int x = coord(W), y = coord(H);
        const uint8_t ch = custom ? font.f.first + c.draw((int) font.glyphs.size()) : c.draw(256), s = 1 + c.draw(4);
        const bool opaque = c.chance(1, 2);
        c.ev("character %u at (%d, %d), %u%s", ch, x, y, s, opaque ? ", opaque" : "");
        p.img->drawChar(x, y, ch, COLOR, opaque ? PAPER : COLOR, s);
        p.snap(&p.is);
        model_char(x, y, ch, COLOR, opaque ? PAPER : COLOR, s);
        c.probe(P_CHAR);
        if (opaque) c.probe(P_OPAQUE);
        if (s > 1) c.probe(custom ? P_CUSTOM_BIG : P_BIG);
        if (custom) c.probe(P_CUSTOM);
        if (!custom && ch >= 176) c.probe(P_HIGH);
        p.exact("character");
        break;
      }
      default: {          // A text, and its measure.
        std::string s;
        const int n = c.draw(12);
        for (int i = 0; i < n; i++) {
          switch (c.draw(10)) {
            case 0: s += '\n';  break;
            case 1: s += '\r';  break;
            case 2: s += '\t';  break;
            case 3: s += (char) (1 + c.draw(255));  break;
            default: s += custom ? (char) (font.f.first + c.draw((int) font.glyphs.size())) : (char) (32 + c.draw(95));  break;
          }
        }
        int x = c.draw(W), y = c.draw(H);
        if (custom) y = std::min(H - 1, y + 9 * size);
        c.ev("text of %u at (%d, %d)", (unsigned) s.size(), x, y);
        // Measured first.
        PixUInt m[3][4];
        for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m[i][j] = 7777;
        p.img->getTextBounds(s.c_str(), x, y, &m[0][0], &m[0][1], &m[0][2], &m[0][3]);
        p.img->getTextBounds((const uint8_t*) s.c_str(), x, y, &m[1][0], &m[1][1], &m[1][2], &m[1][3]);
        StringBuilder sb(s.c_str());
        p.img->getTextBounds(&sb, x, y, &m[2][0], &m[2][1], &m[2][2], &m[2][3]);
        p.img->setCursor(x, y);
        const bool by_builder = s.size() && c.chance(1, 2);
        if (by_builder) p.img->writeString(&sb);
        else p.img->writeString(s.c_str());
        p.snap(&p.is);
        // What it should be.
        int cx = x, cy = y, x0 = 1 << 20, y0 = 1 << 20, x1 = -(1 << 20), y1 = -(1 << 20);
        bool plain = true;      // Nothing lies ahead of the origin.
        auto glyph = [&](uint8_t ch) {
          int l, t, gw, gh, adv;
          if (custom) {
            const GFXglyph& g = font.glyphs[ch - font.f.first];
            gw = g.width * size;  gh = g.height * size;  adv = g.xAdvance * size;
            if (!gw || !gh) {  cx = (cx + adv) & 0xFFFF;  return;  }
            if (wrap && cx + g.xOffset * size + gw > w) {  cx = 0;  cy += size * font.f.yAdvance;  c.probe(P_WRAP);  }
            l = cx + g.xOffset * size;  t = cy + g.yOffset * size;
          }
          else {
            gw = adv = 6 * size;  gh = 8 * size;
            if (wrap && cx + gw > w) {  cx = 0;  cy += gh;  c.probe(P_WRAP);  }
            l = cx;  t = cy;
          }
          model_char(cx, cy, ch, fg, bg, size);
          if (l < 0 || t < 0) plain = false;
          x0 = std::min(x0, l);  y0 = std::min(y0, t);  x1 = std::max(x1, l + gw - 1);  y1 = std::max(y1, t + gh - 1);
          cx += adv;
        };
        for (unsigned char ch : s) {
          if (ch == '\n') {  cx = 0;  cy += custom ? size * font.f.yAdvance : 8 * size;  }
          else if (ch == '\r') {}
          else if (custom) {  if (ch >= font.f.first && ch <= font.f.last) glyph(ch);  }
          else if (ch == '\t') {  glyph(' ');  glyph(' ');  }
          else glyph(ch);
        }
        c.probe(P_STRING);
        if (!p.exact("text")) break;
        if (p.img->getCursorX() != cx || p.img->getCursorY() != cy) {  c.fail("cursor", "after the text, the cursor is at (%u, %u), and should be at (%d, %d)", p.img->getCursorX(), p.img->getCursorY(), cx, cy);  break;  }
        if (memcmp(m[0], m[1], sizeof(m[0])) || (s.size() && memcmp(m[0], m[2], sizeof(m[0])))) {  c.fail("bounds", "the text is %u by %u, %u by %u, or %u by %u", m[0][2], m[0][3], m[1][2], m[1][3], m[2][2], m[2][3]);  break;  }
        if (plain) {
          if (x1 < x0) {  if (m[0][2] || m[0][3]) c.fail("bounds", "a text of nothing is %u by %u", m[0][2], m[0][3]);  break;  }
          // Whatever begins beyond the picture is not measured in that direction.
          if (x0 >= w || y0 >= h) break;
          c.probe(P_BOUNDS);
          if (m[0][0] != x0 || m[0][1] != y0 || m[0][2] != x1 - x0 + 1 || m[0][3] != y1 - y0 + 1) c.fail("bounds", "the text covers (%d, %d) to (%d, %d), and is said to be %u by %u at (%u, %u)", x0, y0, x1, y1, m[0][2], m[0][3], m[0][0], m[0][1]);
        }
        break;
      }
    }
    if (c.failed()) break;
    bool any = false;
    if (kind != 13) for (int i = 0; i < W * H && !any; i++) any = p.was[i] != p.is[i];
    if (any) c.nontrivial();
    if (outside) c.fault(any ? F_EDGE : F_FAR);
    c.state(hash64(kind * 8 + rot * 2 + outside, hash64(W / 8, H / 8)));
  }
  c.begin_tail();
  p.img.reset();
  }
  const size_t h1 = heap_in_use();
  if (!c.failed() && h1 != h0) c.fail("leak", "%d bytes were not given back", (int) (h1 - h0));
}
}

Harness g_harness = {
  "G02",
  "a case is a sequence of drawings upon a picture of random size and orientation, at coordinates within it, across its edges, and beyond; non-trivial if something was drawn",
  run,
  {"drawing across or beyond an edge", "drawing entirely out of sight"},
  {"horizontal", "vertical", "filled rectangle", "rectangle", "no extent", "line", "line cut by an edge", "circle", "disc", "rounded rectangle", "full rounded rectangle", "triangle", "full triangle", "bitmap", "ellipse", "character", "opaque", "magnified", "beyond 176", "text", "wrapped", "measured", "own font", "own font, magnified", "turned", "huge radius"},
  {"Image/Image.cpp", "StringBuilder.cpp"},
  {},
  "kind of drawing, orientation and size in eighths",
  {{"G02-1", "drawEllipse() does not draw an ellipse unless both axes are the same (integer division of the axes, coordinates taken from the picture's corner and not from the center, rotation ignored)", [] {  return bad_ellipse();  }}},
  20000, 400000
};
