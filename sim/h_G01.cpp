/* G01: a picture holds what was put in it, and only within its own buffer, through changes of size, format, orientation and owner, and across a wire. */
#include "sb.h"
#include <stdlib.h>
#include <memory>
#include "Image/Image.h"
using namespace sim;

namespace {
enum {  F_ALLOC, F_SHORT, F_LONG, F_FLIP, F_LIAR, F_DROP  };
enum {  P_SET, P_SET_OUT, P_RGB, P_GET_OUT, P_FILL, P_ROTATED, P_FLIPPED, P_FOREIGN, P_RESIZED, P_COPIED, P_COPY_CONVERTED, P_REFUSED, P_BARE, P_WIRE, P_WIRE_BAD, P_MONO, P_CONVERTED, P_WIPED, P_BIG  };
typedef ImgBufferFormat Fmt;
const Fmt FMTS[] = {Fmt::MONOCHROME, Fmt::GREY_8, Fmt::R3_G3_B2, Fmt::GREY_16, Fmt::R5_G6_B5, Fmt::GREY_24, Fmt::R8_G8_B8, Fmt::R8_G8_B8_ALPHA, Fmt::GREY_4};
int bits(Fmt f) {
  switch (f) {
    case Fmt::MONOCHROME: return 1;
    case Fmt::GREY_4: return 4;
    case Fmt::GREY_8: case Fmt::R3_G3_B2: return 8;
    case Fmt::GREY_16: case Fmt::R5_G6_B5: return 16;
    case Fmt::GREY_24: case Fmt::R8_G8_B8: return 24;
    case Fmt::R8_G8_B8_ALPHA: return 32;
    default: return 0;
  }
}
size_t need(uint32_t x, uint32_t y, Fmt f) {  return (size_t) (((uint64_t) x * y * bits(f) + 7) / 8);  }

/* These two are known to differ from what one would expect (G01-1, G01-2). */
bool swaps16() {
  Image i(1, 1, Fmt::R5_G6_B5);
  i.reallocate();
  i.setPixel(0, 0, 0x1234);
  return i.getPixel(0, 0) == 0x3412;
}
bool mirrors90() {
  Image i(2, 2, Fmt::GREY_8);
  i.reallocate();
  i.orientation(ImgOrientation::ROTATION_90);
  i.setPixel(0, 0, 9);
  i.orientation(ImgOrientation::ROTATION_0);
  return i.getPixel(0, 0) == 9;
}

struct Model {
  uint32_t w = 0, h = 0;  Fmt f = Fmt::UNALLOCATED;
  bool have = false, foreign = false;
  std::vector<uint8_t> raw;
  int rot = 0;  bool fx = false, fy = false;
  static bool swap16, mirror90;
  bool sideways() const {  return rot & 1;  }
  uint32_t lw() const {  return sideways() ? h : w;  }
  uint32_t lh() const {  return sideways() ? w : h;  }
  /* Where is the pixel that the user calls (x, y)? */
  bool at(uint32_t x, uint32_t y, uint32_t* nx, uint32_t* ny) const {
    if (!have || x >= lw() || y >= lh()) return false;
    uint32_t a = x, b = y;
    switch (rot) {
      case 1:  a = mirror90 ? y : w - 1 - y;  b = x;  break;
      case 2:  a = w - 1 - x;  b = h - 1 - y;  break;
      case 3:  a = y;  b = h - 1 - x;  break;
    }
    if (fx) a = w - 1 - a;
    if (fy) b = h - 1 - b;
    if (f == Fmt::MONOCHROME && b >= (h & ~7u)) return false;
    *nx = a;  *ny = b;
    return bits(f) != 0 && f != Fmt::GREY_4;
  }
  uint32_t get(uint32_t x, uint32_t y) const {
    uint32_t a, b;
    if (!at(x, y, &a, &b)) return 0;
    const size_t n = (size_t) b * w + a;
    switch (bits(f)) {
      case 1:  return (raw[a * (h / 8) + (h / 8 - b / 8 - 1)] >> (7 - b % 8)) & 1 ? 0xFFFFFFFF : 0;
      case 8:  return raw[n];
      case 16: return raw[2 * n] << 8 | raw[2 * n + 1];
      case 24: return raw[3 * n] << 16 | raw[3 * n + 1] << 8 | raw[3 * n + 2];
      default: return raw[4 * n] | raw[4 * n + 1] << 8 | raw[4 * n + 2] << 16 | (uint32_t) raw[4 * n + 3] << 24;
    }
  }
  bool set(uint32_t x, uint32_t y, uint32_t c) {
    uint32_t a, b;
    if (!at(x, y, &a, &b)) return false;
    const size_t n = (size_t) b * w + a;
    switch (bits(f)) {
      case 1: {
        uint8_t& v = raw[a * (h / 8) + (h / 8 - b / 8 - 1)];
        uint8_t m = 1 << (7 - b % 8);
        v = c ? (v | m) : (v & ~m);
        break;
      }
      case 8:  raw[n] = c;  break;
      case 16: raw[2 * n] = swap16 ? c : c >> 8;  raw[2 * n + 1] = swap16 ? c >> 8 : c;  break;
      case 24: raw[3 * n] = c >> 16;  raw[3 * n + 1] = c >> 8;  raw[3 * n + 2] = c;  break;
      default: for (int i = 0; i < 4; i++) raw[4 * n + i] = c >> (8 * i);  break;
    }
    return true;
  }
  /* What becomes of a color, where that is said. */
  bool set_rgb(uint32_t x, uint32_t y, uint8_t r, uint8_t g, uint8_t b) {
    uint32_t nx, ny;
    if (f == Fmt::R8_G8_B8_ALPHA || !at(x, y, &nx, &ny)) return false;
    switch (bits(f)) {
      case 1:  return set(x, y, r || g || b);
      case 8:  return set(x, y, (r >> 5) << 5 | (g >> 5) << 2 | b >> 6);
      case 16: {
        uint32_t c = (r >> 3) << 11 | (g >> 2) << 5 | b >> 3;
        return set(x, y, swap16 ? (c >> 8 | (c & 0xFF) << 8) : c);
      }
      default: return set(x, y, r << 16 | g << 8 | b);
    }
  }
  void fill(uint32_t c) {
    if (!have || bits(f) < 8) {
      if (have && f == Fmt::MONOCHROME) for (size_t i = 0; i < (size_t) w * h / 8; i++) raw[i] = c ? 0xFF : 0;
      return;
    }
    int r = rot;  bool a = fx, b = fy;
    rot = 0;  fx = fy = false;
    for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) set(x, y, c);
    rot = r;  fx = a;  fy = b;
  }
};
bool Model::swap16 = false;
bool Model::mirror90 = false;

void run(Ctx& c) {
  Model::swap16 = swaps16();
  Model::mirror90 = mirrors90();
  c.ev("16 bits are %sswapped, a quarter turn is %smirrored", Model::swap16 ? "" : "not ", Model::mirror90 ? "" : "not ");
  const size_t h0 = heap_in_use();
  {
    std::unique_ptr<Image> img;
    std::vector<uint8_t*> owned;             // Ours; never the image's.
    uint8_t* foreign = nullptr;
    Model m;
    const bool faulty = c.chance(1, 2);
    auto side = [&]() -> uint32_t {  return c.chance(1, 3) ? 8 * (1 + c.draw(4)) : 1 + c.draw(34);  };
    auto format = [&]() {  return FMTS[c.draw(c.chance(1, 4) ? 9 : 8)];  };
    auto arm = [&](bool on) {  g_malloc_failed = 0;  if (on && faulty && c.chance(1, 5)) g_malloc_fail_in = 0;  };
    auto disarm = [&]() -> bool {
      bool f = g_malloc_failed > 0;
      g_malloc_fail_in = -1;  g_malloc_failed = 0;
      if (f) {  c.fault(F_ALLOC);  }
      return f;
    };
    auto lend = [&](size_t n) {  uint8_t* p = (uint8_t*) malloc(n ? n : 1);  for (size_t i = 0; i < n; i++) p[i] = (uint8_t) c.draw(256);  return p;  };
    /* It is what the model says, everywhere. */
    auto check = [&](Image& i, const Model& w, const char* what) -> bool {
      if (i.x() != w.w || i.y() != w.h || i.format() != w.f) {  c.fail("shape", "%s: the picture is %u by %u of %s, and should be %u by %u of %s", what, i.x(), i.y(), Image::formatString(i.format()), w.w, w.h, Image::formatString(w.f));  return false;  }
      if (i.allocated() != w.have) {  c.fail("shape", "%s: the picture has %s buffer", what, i.allocated() ? "a" : "no");  return false;  }
      if (i.bytesUsed() != need(w.w, w.h, w.f) || i.pixels() != w.w * w.h) {  c.fail("size", "%s: a picture of %u by %u of %s takes %u bytes, and should take %u", what, w.w, w.h, Image::formatString(w.f), i.bytesUsed(), (unsigned) need(w.w, w.h, w.f));  return false;  }
      if ((int) i.orientation() != w.rot || i.flipX() != w.fx || i.flipY() != w.fy) {  c.fail("shape", "%s: the picture lies otherwise than it was laid", what);  return false;  }
      if (!w.have) return true;
      if (memcmp(i.buffer(), w.raw.data(), w.raw.size())) {
        size_t k = 0;
        while (i.buffer()[k] == w.raw[k]) k++;
        c.fail("content", "%s: byte %u of the buffer (%u by %u of %s) is %02x, and should be %02x", what, (unsigned) k, w.w, w.h, Image::formatString(w.f), i.buffer()[k], w.raw[k]);
        return false;
      }
      const uint32_t every = 1 + w.lw() * w.lh() / 20000;      // All of them, unless there are very many.
      for (uint32_t k = 0; k < w.lw() * w.lh(); k += every) {
        const uint32_t x = k % w.lw(), y = k / w.lw();
        uint32_t got = i.getPixel(x, y), want = w.get(x, y);
        if (got != want) {  c.fail("pixel", "%s: (%u, %u) of %u by %u of %s, turned %d, is read as %x, and is %x", what, x, y, w.w, w.h, Image::formatString(w.f), w.rot * 90, got, want);  return false;  }
      }
      return true;
    };
    auto begin = [&]() {
      m = Model();
      foreign = nullptr;
      switch (c.draw(4)) {
        case 0: img.reset(new Image());  break;
        case 1: m.w = side();  m.h = side();  img.reset(new Image(m.w, m.h));  break;
        case 2: {
          m.w = side();  m.h = side();  m.f = format();
          size_t n = need(m.w, m.h, m.f);
          foreign = lend(n);
          owned.push_back(foreign);
          m.raw.assign(foreign, foreign + n);
          m.have = m.foreign = true;
          img.reset(new Image(m.w, m.h, m.f, foreign));
          c.probe(P_FOREIGN);
          break;
        }
        default: m.w = side();  m.h = side();  m.f = format();  img.reset(new Image(m.w, m.h, m.f));  break;
      }
      c.ev("a picture of %u by %u of %s, %s", m.w, m.h, Image::formatString(m.f), m.foreign ? "in our buffer" : "without a buffer");
    };
    auto zeroed = [&]() {  m.raw.assign(need(m.w, m.h, m.f), 0);  m.have = true;  m.foreign = false;  };
    auto coord = [&](uint32_t lim) -> uint32_t {
      switch (c.draw(8)) {
        case 0: return 0;
        case 1: return lim ? lim - 1 : 0;
        case 2: return c.pick<uint32_t>({lim, lim + 1, 2 * lim, 255u, 256u, 32768u, 65535u, 65534u});
        default: return c.draw(lim ? lim : 1);
      }
    };
    begin();
    c.plan_ops(8 + c.draw(40));
    while (c.next_op() && !c.failed()) {
      c.step();
      switch (c.draw(14)) {
        case 0: case 1: case 2: {
          uint32_t x = coord(m.lw()), y = coord(m.lh()), col = c.chance(1, 4) ? 0 : (uint32_t) hash64(c.draw(1000), 7);
          bool want = m.set(x, y, col), got = img->setPixel(x, y, col);
          c.probe(want ? P_SET : P_SET_OUT);
          if (want && m.rot) c.probe(P_ROTATED);
          if (want && (m.fx || m.fy)) c.probe(P_FLIPPED);
          if (want && m.f == Fmt::MONOCHROME) c.probe(P_MONO);
          if (want) c.nontrivial();
          c.ev("set (%u, %u) to %x", x, y, col);
          if (got != want) c.fail("answer", "setPixel(%u, %u) of %u by %u of %s returned %d", x, y, m.w, m.h, Image::formatString(m.f), got);
          break;
        }
        case 3: {
          if (m.f == Fmt::GREY_8 || m.f == Fmt::GREY_16 || m.f == Fmt::GREY_24) break;      // Upstream does not say what grey a color is.
          uint32_t x = coord(m.lw()), y = coord(m.lh());
          uint8_t r = c.draw(256), g = c.draw(256), b = c.draw(256);
          if (c.chance(1, 4)) r = g = b = 0;
          bool want = m.set_rgb(x, y, r, g, b), got = img->setPixel(x, y, r, g, b);
          if (want) c.probe(P_RGB);
          c.ev("set (%u, %u) to %u %u %u", x, y, r, g, b);
          if (got != want) c.fail("answer", "setPixel(%u, %u, r, g, b) of %u by %u of %s returned %d", x, y, m.w, m.h, Image::formatString(m.f), got);
          break;
        }
        case 4: {
          uint32_t x = coord(m.lw()), y = coord(m.lh());
          if (x >= m.lw() || y >= m.lh()) c.probe(P_GET_OUT);
          uint32_t got = img->getPixel(x, y), want = m.get(x, y);
          c.ev("get (%u, %u)", x, y);
          if (got != want) c.fail("pixel", "(%u, %u) of %u by %u of %s is read as %x, and is %x", x, y, m.w, m.h, Image::formatString(m.f), got, want);
          break;
        }
        case 5: {
          uint32_t col = c.chance(1, 3) ? 0 : (uint32_t) hash64(c.draw(1000), 9);
          c.ev("fill with %x", col);
          img->fill(col);
          m.fill(col);
          c.probe(P_FILL);
          break;
        }
        case 6: m.rot = c.draw(4);  img->orientation((ImgOrientation) m.rot);  c.ev("turned %d", m.rot * 90);  break;
        case 7: if (c.chance(1, 2)) {  m.fx = !m.fx;  img->flipX(m.fx);  }  else {  m.fy = !m.fy;  img->flipY(m.fy);  }  c.ev("flipped");  break;
        case 8: {          // Another size, or just a new buffer.
          const bool size = c.chance(2, 3);
          uint32_t w = side(), h = side();
          if (c.chance(1, 20)) {  w = 200 + c.draw(1000);  h = 8 * (25 + c.draw(80));  c.probe(P_BIG);  }
          arm(true);
          bool got = size ? img->setSize(w, h) : img->reallocate();
          bool bare = disarm();
          bool want = !m.foreign && m.f != Fmt::UNALLOCATED && !bare;
          c.ev("%s %u by %u%s", size ? "resize to" : "reallocate", w, h, bare ? ", without memory" : "");
          if (m.have && m.foreign) c.probe(P_REFUSED);
          else {
            if (size) {  m.w = w;  m.h = h;  }
            if (want) {  zeroed();  c.probe(P_RESIZED);  }
            else if (m.f != Fmt::UNALLOCATED) {  m.have = false;  m.raw.clear();  c.probe(P_BARE);  }
          }
          if (got != want) c.fail("answer", "a change of size returned %d", got);
          break;
        }
        case 9: {          // By reference.
          const bool with = c.chance(1, 2);
          Fmt f = with ? format() : m.f;
          size_t n = need(m.w, m.h, f);
          uint8_t* p = lend(n);
          owned.push_back(p);
          bool got = with ? img->setBuffer(p, f) : img->setBuffer(p);
          bool want = with || m.f != Fmt::UNALLOCATED;
          c.ev("given a buffer for %s", Image::formatString(f));
          if (got != want) {  c.fail("answer", "setBuffer() returned %d", got);  break;  }
          if (!want) break;
          m.f = f;
          m.raw.assign(p, p + n);
          m.have = m.foreign = true;
          foreign = p;
          c.probe(P_FOREIGN);
          break;
        }
        case 10: {         // By copy.
          if (m.f == Fmt::UNALLOCATED && m.w == 0) break;
          const bool with = m.f == Fmt::UNALLOCATED || c.chance(1, 2);
          Fmt f = with ? format() : m.f;
          size_t n = need(m.w, m.h, f);
          uint8_t* p = lend(n);
          arm(true);
          bool got = with ? img->setBufferByCopy(p, f) : img->setBufferByCopy(p);
          bool bare = disarm();
          const bool fits = m.have && bits(m.f) == bits(f);
          const bool want = fits || (!m.foreign && !bare);
          c.ev("copies a buffer of %s%s", Image::formatString(f), bare ? ", without memory" : "");
          if (got != want) c.fail("answer", "setBufferByCopy() of %s into %s returned %d", Image::formatString(f), Image::formatString(m.f), got);
          else if (want) {
            c.probe(m.f == f ? P_COPIED : P_COPY_CONVERTED);
            m.f = f;
            m.raw.assign(p, p + n);
            if (!fits) m.foreign = false;
            m.have = true;
          }
          else if (m.foreign) c.probe(P_REFUSED);
          else {
            // Without memory, there is no picture; what it would have been is up to it.
            c.probe(P_BARE);
            m.f = img->format();
            m.have = false;  m.raw.clear();
          }
          free(p);
          break;
        }
        case 11: {         // Across a wire.
          if (m.have && !m.raw.size()) break;     // A picture without pixels is not sent.
          StringBuilder out;
          const size_t n = need(m.w, m.h, m.f);
          std::vector<uint8_t> flat(n + 10 + 4, 0xA5);
          uint32_t len = 0;
          int8_t a = img->serialize(&out), b = img->serialize(flat.data(), &len);
          uint8_t head[10];
          uint32_t head_len = 0;
          int8_t d = img->serializeWithoutBuffer(head, &head_len);
          if (!m.have) {
            if (a != -1 || b != -1 || d != -1 || out.length()) c.fail("wire", "a picture of nothing was serialized");
            break;
          }
          if (a || b || d || len != n + 10 || head_len != 10 || (size_t) out.length() != n + 10) {  c.fail("wire", "a picture of %u bytes was serialized to %d, %u and %u", (unsigned) n, out.length(), len, head_len);  break;  }
          std::string s((const char*) out.string(), (size_t) out.length());
          if (memcmp(s.data(), flat.data(), len) || memcmp(s.data(), head, 10)) {  c.fail("wire", "the serializers disagree");  break;  }
          for (int i = 0; i < 4; i++) if (flat[n + 10 + i] != 0xA5) {  c.fail("wire", "the serializer wrote beyond what it said");  break;  }
          // What became of it on the way?
          bool good = true;
          Model w = m;
          if (c.chance(1, 2)) {
            good = false;
            switch (c.draw(5)) {
              case 0: s.resize(c.draw((uint32_t) s.size()));  c.fault(F_SHORT);  break;
              case 1: s += std::string(1 + c.draw(9), 'x');  c.fault(F_LONG);  break;
              case 2: {
                uint32_t k = c.draw(10);
                s[k] = (char) (s[k] ^ (1 << c.draw(8)));
                c.fault(F_FLIP);
                break;
              }
              case 3: {      // Dimensions whose product is the true one in fewer bits, or nothing at all.
                const uint32_t D[][2] = {{0x10000 + m.w, m.h}, {m.w, 0x10000 + m.h}, {0x8000, 0x8000}, {0xFFFF, 0xFFFF}, {0, 0}, {0xFFFFFFFF, 1}};
                const uint32_t* q = D[c.draw(6)];
                for (int i = 0; i < 4; i++) {  s[i] = (char) (q[0] >> (24 - 8 * i));  s[4 + i] = (char) (q[1] >> (24 - 8 * i));  }
                c.fault(F_LIAR);
                break;
              }
              default: {
                uint32_t k = c.draw((uint32_t) s.size());
                s.erase(k, 1 + c.draw(4));
                c.fault(F_DROP);
                break;
              }
            }
          }
          uint32_t sx = 0, sy = 0;
          for (int i = 0; i < 4 && s.size() >= 10; i++) {  sx = sx << 8 | (uint8_t) s[i];  sy = sy << 8 | (uint8_t) s[4 + i];  }
          Fmt sf = s.size() >= 10 ? (Fmt) s[8] : Fmt::UNALLOCATED;
          // As it stands, does it describe a picture?
          const bool sound = s.size() > 10 && sx <= 65535 && sy <= 65535 && bits(sf) && ((uint64_t) sx * sy * bits(sf) + 7) / 8 == s.size() - 10;
          if (good && !sound) {  c.fail("wire", "what was serialized does not describe a picture");  break;  }
          w = Model();
          if (sound) {
            w.w = sx;  w.h = sy;  w.f = sf;
            w.raw.assign(s.begin() + 10, s.end());
            w.have = true;
            w.fx = s[9] & C3P_IMG_FLAG_FLIP_X;  w.fy = s[9] & C3P_IMG_FLAG_FLIP_Y;
            if (good && (w.w != m.w || w.h != m.h || w.f != m.f || w.raw != m.raw || w.fx != m.fx || w.fy != m.fy)) {  c.fail("wire", "what was serialized describes another picture");  break;  }
          }
          uint8_t* exact = (uint8_t*) malloc(s.size() ? s.size() : 1);   // With nothing to spare after it.
          memcpy(exact, s.data(), s.size());
          Image far;
          arm(true);
          int8_t r = far.deserialize(exact, (uint32_t) s.size());
          bool bare = disarm();
          memset(exact, 0xEE, s.size());
          free(exact);
          c.ev("wire: %u bytes%s%s", (unsigned) s.size(), sound ? "" : ", unsound", bare ? ", without memory" : "");
          c.probe(sound ? P_WIRE : P_WIRE_BAD);
          if (sound && bare) {
            w = Model();
            if (r == 0) {  c.fail("wire", "a picture was restored without memory for it");  break;  }
          }
          else if ((r == 0) != sound) {  c.fail("wire", "%u bytes for %u by %u of %s were %s", (unsigned) s.size(), sx, sy, Image::formatString(sf), r ? "refused" : "accepted");  break;  }
          if (!check(far, w, "beyond the wire")) break;
          // It can be used, or tried again.
          if (!w.have) {
            if (0 != far.deserialize(flat.data(), len)) {  c.fail("wire", "after a refusal, a good picture is refused");  break;  }
            w = m;
            w.rot = 0;  w.foreign = false;
            w.fx = flat[9] & C3P_IMG_FLAG_FLIP_X;  w.fy = flat[9] & C3P_IMG_FLAG_FLIP_Y;
            check(far, w, "beyond the wire, again");
          }
          if (c.failed() || !w.w) break;
          uint32_t x = c.draw(w.w), y = c.draw(w.h);
          if (far.setPixel(x, y, 0x5A5A5A5Au) != w.set(x, y, 0x5A5A5A5Au)) {  c.fail("answer", "a restored picture's pixel could not be set");  break;  }
          check(far, w, "beyond the wire, changed");
          break;
        }
        case 12: {         // In another format.
          const Fmt COLOR[] = {Fmt::R8_G8_B8_ALPHA, Fmt::R8_G8_B8, Fmt::R5_G6_B5, Fmt::R3_G3_B2};
          if (!m.have || !m.lw()) break;
          Fmt f = COLOR[c.draw(4)];
          uint32_t x = c.draw(m.lw()), y = c.draw(m.lh()), v = m.get(x, y);
          uint32_t r = 0, g = 0, b = 0, al = 0;
          switch (m.f) {
            case Fmt::R8_G8_B8_ALPHA:  r = v >> 24;  g = (v >> 16) & 0xFF;  b = (v >> 8) & 0xFF;  al = v & 0xFF;  break;
            case Fmt::R8_G8_B8:        r = v >> 16;  g = (v >> 8) & 0xFF;  b = v & 0xFF;  break;
            case Fmt::R5_G6_B5:        r = (v >> 11) << 3;  g = ((v >> 5) & 0x3F) << 2;  b = (v & 0x1F) << 3;  break;
            case Fmt::R3_G3_B2:        r = (v >> 5) << 5;  g = ((v >> 2) & 7) << 5;  b = (v & 3) << 6;  break;
            case Fmt::MONOCHROME:      r = g = b = al = v ? 255 : 0;  break;
            default: r = 256;  break;
          }
          if (r > 255) break;
          uint32_t want = 0;
          switch (f) {
            case Fmt::R8_G8_B8_ALPHA:  want = r << 24 | g << 16 | b << 8 | al;  break;
            case Fmt::R8_G8_B8:        want = r << 16 | g << 8 | b;  break;
            case Fmt::R5_G6_B5:        want = (r >> 3) << 11 | (g >> 2) << 5 | b >> 3;  break;
            default:                   want = (r >> 5) << 5 | (g >> 5) << 2 | b >> 6;  break;
          }
          if (f == m.f) want = v;
          uint32_t got = img->getPixelAsFormat(x, y, f);
          c.probe(P_CONVERTED);
          c.ev("(%u, %u) as %s", x, y, Image::formatString(f));
          if (got != want) c.fail("convert", "%x of %s is %x as %s, and should be %x", v, Image::formatString(m.f), got, Image::formatString(f), want);
          break;
        }
        default:
          if (c.chance(1, 2)) {
            c.ev("wiped");
            img->wipe();
            int r = m.rot;
            m = Model();
            m.rot = r;
            c.probe(P_WIPED);
          }
          else begin();
          break;
      }
      if (c.failed()) break;
      check(*img, m, "afterwards");
      if (m.foreign && m.have && img->buffer() != foreign) c.fail("owner", "our buffer was exchanged");
      c.state(hash64(hash64((uint32_t) m.f, m.rot * 4 + m.fx * 2 + m.fy), hash64(m.have * 2 + m.foreign, hash64(m.w / 8, m.h / 8))));
    }
    c.begin_tail();
    img.reset();
    // Whatever was only lent is still ours.
    for (auto p : owned) free(p);
  }
  const size_t h1 = heap_in_use();
  if (!c.failed() && h1 != h0) c.fail("leak", "%d bytes were not given back", (int) (h1 - h0));
}
}

Harness g_harness = {
  "G01",
  "a case is a history of pictures: created, given buffers, resized, turned, set, filled, serialized and restored; non-trivial if a pixel was set",
  run,
  {"allocation failure", "cut short on the wire", "lengthened on the wire", "header damaged", "header lies", "bytes lost on the wire"},
  {"pixel set", "pixel refused", "color set", "read out of bounds", "fill", "rotated", "flipped", "in the caller's buffer", "resized", "copied", "copied in another format", "change of the caller's buffer refused", "without memory", "restored from the wire", "refused from the wire", "monochrome", "converted", "wiped", "large"},
  {"Image/Image.cpp", "StringBuilder.cpp"},
  {"wire", "malloc (refuses on request)"},
  "format, orientation, ownership and size, in eighths, after each operation",
  {{"G01-1", "getPixel() of a 16-bit picture exchanges the bytes of what setPixel() stored (setPixel() and fill() store the low byte first, getPixel() and setPixel(r, g, b) the high byte)", [] {  return swaps16();  }},
   {"G01-2", "ROTATION_90 is a transposition, and so mirrors the picture (text is drawn backward)", [] {  return mirrors90();  }}},
  20000, 400000
};
