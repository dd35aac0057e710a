/* V02: what a set of named values says of itself, as text and as CBOR, is what it holds; and what it held is what comes back. */
#include "sb.h"
#include <memory>
#include <math.h>
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "Image/Image.h"
using namespace sim;

namespace {
enum {  F_TRUNC, F_DAMAGE, F_ALLOC, F_CUT, F_FOREIGN, F_MEMORY_OUT  };
enum {  P_NESTED, P_VECTOR, P_UNSET, P_PREFIX, P_NO_MEMORY, P_RESUMED, P_CONSUMED, P_STATIC_FULL, P_RISK, P_BIG, P_TEXT, P_UNKNOWN_TAG, P_DEEP, P_LONG, P_IMAGE  };

struct V {
  enum K {  INT, BOOL, FLT, DBL, STR, BIN, VEC, IMG, MAP, UNSET  } k = INT;
  bool neg = false;
  uint64_t u = 0;
  std::string s;
  TCode tc = TCode::NONE;
  std::vector<std::pair<std::string, V>> m;
};
std::string show(const V& v) {
  char b[64];
  switch (v.k) {
    case V::INT:  if (v.neg) snprintf(b, sizeof b, "i%lld", (long long) v.u);  else snprintf(b, sizeof b, "i%llu", (unsigned long long) v.u);  return b;
    case V::BOOL: return v.u ? "true" : "false";
    case V::FLT:  snprintf(b, sizeof b, "f%08x", (unsigned) v.u);  return b;
    case V::DBL:  snprintf(b, sizeof b, "d%016llx", (unsigned long long) v.u);  return b;
    case V::STR:  return "\"" + v.s + "\"";
    case V::BIN:  return "<" + hex((const uint8_t*) v.s.data(), v.s.size(), 4096) + ">";
    case V::VEC:  snprintf(b, sizeof b, "v%u:", (unsigned) v.tc);  return b + hex((const uint8_t*) v.s.data(), v.s.size(), 4096);
    case V::IMG:  return "image" + hex((const uint8_t*) v.s.data(), v.s.size(), 4096);
    case V::MAP: {  std::string r = "{";  for (auto& e : v.m) r += e.first + "=" + show(e.second) + ",";  return r + "}";  }
    default: return "unset";
  }
}
uint32_t vec_size(TCode t) {
  switch (t) {
    case TCode::VECT_3_INT8: case TCode::VECT_3_UINT8: return 3;
    case TCode::VECT_3_INT16: case TCode::VECT_3_UINT16: return 6;
    case TCode::VECT_3_INT32: case TCode::VECT_3_UINT32: case TCode::VECT_3_FLOAT: return 12;
    case TCode::VECT_3_DOUBLE: return 24;
    default: return 0;
  }
}
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...) {
  char b[1600];
  va_list a;  va_start(a, f);  vsnprintf(b, sizeof b, f, a);  va_end(a);
  return b;
}
template <class T> std::string vec_text(const std::string& s, const char* f) {
  T e[3];
  memcpy(e, s.data(), sizeof e);
  std::string r = "(";
  for (int i = 0; i < 3; i++) {
    char b[400];
    if (sizeof(T) == 8) snprintf(b, sizeof b, f, *(double*) &e[i]);
    else if (f[1] == '.') {  float x;  memcpy(&x, &e[i], 4);  snprintf(b, sizeof b, f, (double) x);  }
    else snprintf(b, sizeof b, f, (long long) e[i]);
    r += (i ? ", " : "") + std::string(b);
  }
  return r + ")";
}
/* What the value alone says as text. */
std::string text_of(const V& v) {
  switch (v.k) {
    case V::INT:  return v.neg ? fmt("%lld", (long long) v.u) : fmt("%llu", (unsigned long long) v.u);
    case V::BOOL: return v.u ? "true" : "false";
    case V::FLT:  {  float f;  uint32_t w = v.u;  memcpy(&f, &w, 4);  return fmt("%.4f", (double) f);  }
    case V::DBL:  {  double f;  memcpy(&f, &v.u, 8);  return fmt("%.6f", f);  }
    case V::STR:  return v.s;
    case V::VEC:
      switch (v.tc) {
        case TCode::VECT_3_INT8:   return vec_text<int8_t>(v.s, "%lld");
        case TCode::VECT_3_UINT8:  return vec_text<uint8_t>(v.s, "%lld");
        case TCode::VECT_3_INT16:  return vec_text<int16_t>(v.s, "%lld");
        case TCode::VECT_3_UINT16: return vec_text<uint16_t>(v.s, "%lld");
        case TCode::VECT_3_INT32:  return vec_text<int32_t>(v.s, "%lld");
        case TCode::VECT_3_UINT32: return vec_text<uint32_t>(v.s, "%lld");
        case TCode::VECT_3_FLOAT:  return vec_text<float>(v.s, "%.4f");
        default:                   return vec_text<double>(v.s, "%.6f");
      }
    default: return "";
  }
}
/* The text of a set, but for its white space. Null if it holds what has no prescribed text. */
bool text_of_set(const V& v, std::string& r) {
  for (size_t i = 0; i < v.m.size(); i++) {
    const V& e = v.m[i].second;
    if (i) r += ",";
    r += v.m[i].first + ":";
    if (e.k == V::BIN || e.k == V::IMG) return false;
    if (e.k == V::MAP) {  r += "{";  if (!text_of_set(e, r)) return false;  r += "}";  }
    else if (e.k == V::STR) r += "\"" + e.s + "\"";
    else if (e.k == V::UNSET) {  if (e.tc != TCode::STR) return false;  }
    else r += text_of(e);
  }
  return true;
}
std::string squeeze(const std::string& s) {  std::string r;  for (char ch : s) if (ch != '"' && ch != ' ' && ch != '\n' && ch != '\r' && ch != '\t') r += ch;  return r;  }

/* The same, as CBOR; by the book. */
void head(std::string& o, int major, uint64_t n) {
  major <<= 5;
  if (n < 24) o += (char) (major | n);
  else {
    int w = n < 0x100 ? 0 : n < 0x10000 ? 1 : n < 0x100000000ULL ? 2 : 3;
    o += (char) (major | (24 + w));
    for (int i = (1 << w) - 1; i >= 0; i--) o += (char) (n >> (8 * i));
  }
}
void put_be(std::string& o, uint64_t x, int n) {  while (n--) o += (char) (x >> (8 * n));  }
bool cbor_of(const V& v, std::string& o);
bool cbor_of_set(const V& v, std::string& o) {
  std::string in;
  uint32_t n = 0;
  for (auto& e : v.m) {
    std::string one;
    if (e.first.empty() || !cbor_of(e.second, one) || one.empty()) continue;
    head(in, 3, e.first.size());  in += e.first;
    in += one;  n++;
  }
  if (n) {  head(o, 5, n);  o += in;  }
  return n;
}
bool cbor_of(const V& v, std::string& o) {
  switch (v.k) {
    case V::INT:  if (v.neg) head(o, 1, ~v.u);  else head(o, 0, v.u);  return true;
    case V::BOOL: o += (char) (v.u ? 0xf5 : 0xf4);  return true;
    case V::FLT:  o += (char) 0xfa;  put_be(o, v.u, 4);  return true;
    case V::DBL:  o += (char) 0xfb;  put_be(o, v.u, 8);  return true;
    case V::STR:  head(o, 3, v.s.size());  o += v.s;  return true;
    case V::BIN:  head(o, 2, v.s.size());  o += v.s;  return true;
    case V::MAP:  return cbor_of_set(v, o);
    default: return false;       // Vectors: the form is the project's own. Unset: nothing.
  }
}
bool has_vec(const V& v) {  if (v.k == V::VEC || v.k == V::IMG) return true;  for (auto& e : v.m) if (has_vec(e.second)) return true;  return false;  }

/* What came back, in the terms of the model. */
bool read_set(KeyValuePair* p, V& v, int depth);
bool read_value(C3PValue* p, V& v, int depth) {
  const TCode t = p->tcode();
  switch (t) {
    case TCode::INT8: case TCode::INT16: case TCode::INT32: case TCode::INT64: {  int64_t x = 0;  if (p->get_as(&x) < 0) return false;  v.k = V::INT;  v.neg = x < 0;  v.u = (uint64_t) x;  return true;  }
    case TCode::UINT8: case TCode::UINT16: case TCode::UINT32: case TCode::UINT64: {  uint64_t x = 0;  if (p->get_as(&x) < 0) return false;  v.k = V::INT;  v.u = x;  return true;  }
    case TCode::BOOLEAN: {  bool x = false;  if (p->get_as(&x) < 0) return false;  v.k = V::BOOL;  v.u = x;  return true;  }
    case TCode::FLOAT:  {  float x = 0;  if (p->get_as(&x) < 0) return false;  uint32_t w;  memcpy(&w, &x, 4);  v.k = V::FLT;  v.u = w;  return true;  }
    case TCode::DOUBLE: {  double x = 0;  if (p->get_as(&x) < 0) return false;  v.k = V::DBL;  memcpy(&v.u, &x, 8);  return true;  }
    case TCode::STR:    {  char* x = nullptr;  if (p->get_as(&x) < 0 || !x) return false;  v.k = V::STR;  v.s = x;  return true;  }
    case TCode::BINARY: {  uint8_t* b = nullptr;  uint32_t n = 0;  if (p->get_as(&b, &n) < 0 || (n && !b)) return false;  v.k = V::BIN;  v.s.assign((char*) b, n);  return true;  }
    case TCode::KVP:    {  KeyValuePair* x = p->get_as_kvp();  if (!x || depth > 100) return false;  return read_set(x, v, depth + 1);  }
    case TCode::IMAGE: {
      Image* x = nullptr;
      if (p->get_as(&x) < 0 || !x || !x->allocated()) return false;
      v.k = V::IMG;
      v.s.clear();
      v.s += (char) x->x();  v.s += (char) x->y();  v.s += (char) x->format();
      v.s.append((char*) x->buffer(), x->bytesUsed());
      return true;
    }
    default: {
      uint32_t n = vec_size(t);
      uint8_t b[24];
      if (!n || p->get_as(t, b) < 0) return false;
      v.k = V::VEC;  v.tc = t;  v.s.assign((char*) b, n);
      return true;
    }
  }
}
bool read_set(KeyValuePair* p, V& v, int depth) {
  v.k = V::MAP;
  while (p) {
    V e;
    if (!read_value(p, e, depth)) return false;
    v.m.emplace_back(p->getKey() ? p->getKey() : "", e);
    p = (KeyValuePair*) p->nextValue();
  }
  return true;
}

/* What a decoder of either source tells its listener. */
struct Ear : public cbor::listener {
  std::vector<std::string> heard;
  void on_integer(int8_t v) override {   heard.push_back(fmt("i%d", v));  }
  void on_integer(int16_t v) override {  heard.push_back(fmt("i%d", v));  }
  void on_integer(int32_t v) override {  heard.push_back(fmt("i%d", (int) v));  }
  void on_integer(int64_t v) override {  heard.push_back(fmt("i%lld", (long long) v));  }
  void on_integer(uint8_t v) override {  heard.push_back(fmt("i%u", v));  }
  void on_integer(uint16_t v) override {  heard.push_back(fmt("i%u", v));  }
  void on_integer(uint32_t v) override {  heard.push_back(fmt("i%u", (unsigned) v));  }
  void on_integer(uint64_t v) override {  heard.push_back(fmt("i%llu", (unsigned long long) v));  }
  void on_float32(float f) override {  uint32_t w;  memcpy(&w, &f, 4);  heard.push_back(fmt("f%08x", (unsigned) w));  }
  void on_double(double f) override {  uint64_t w;  memcpy(&w, &f, 8);  heard.push_back(fmt("d%016llx", (unsigned long long) w));  }
  void on_bytes(uint8_t* b, int n) override {  heard.push_back("<" + hex(b, n, 4096) + ">");  }
  void on_string(char* s) override {  heard.push_back("\"" + std::string(s) + "\"");  }
  void on_array(int n) override {  heard.push_back(fmt("[%d", n));  }
  void on_map(int n) override {  heard.push_back(fmt("{%d", n));  }
  void on_tag(unsigned n) override {  heard.push_back(fmt("#%u", n));  }
  void on_special(unsigned n) override {  heard.push_back(fmt("s%u", n));  }
  void on_bool(bool x) override {  heard.push_back(x ? "true" : "false");  }
  void on_null() override {  heard.push_back("null");  }
  void on_undefined() override {  heard.push_back("undefined");  }
  void on_error(const char*) override {  heard.push_back("error");  }
};

struct Run {
  Ctx& c;
  Run(Ctx& x) : c(x) {}
  std::string text(uint32_t n) {  std::string s;  while (n--) s += (char) ('a' + c.draw(26));  return s;  }
  V scalar() {
    V v;
    switch (c.draw(9)) {
      case 8: {
        v.k = V::IMG;
        uint32_t w = 1 + c.draw(12), h = 1 + c.draw(12);
        ImgBufferFormat f = c.pick({ImgBufferFormat::MONOCHROME, ImgBufferFormat::GREY_24, ImgBufferFormat::GREY_16, ImgBufferFormat::GREY_8, ImgBufferFormat::GREY_4, ImgBufferFormat::R8_G8_B8_ALPHA, ImgBufferFormat::R8_G8_B8, ImgBufferFormat::R5_G6_B5, ImgBufferFormat::R3_G3_B2});
        Image i(w, h, f);
        v.s += (char) w;  v.s += (char) h;  v.s += (char) f;
        for (uint32_t n = i.bytesUsed(), at = c.draw(256); n--; at = at * 5 + 1) v.s += (char) at;
        c.probe(P_IMAGE);
        break;
      }
      case 0: case 1: {
        v.k = V::INT;
        static const uint64_t edge[] = {0, 1, 22, 23, 24, 25, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536, 0x7ffffffeULL, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL, 0x7ffffffffffffffeULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL};
        uint64_t m = edge[c.draw(sizeof edge / sizeof *edge)];
        if (c.chance(1, 3)) {  m = ((uint64_t) c.draw(0xffffffff) << 32) | c.draw(0xffffffff);  m >>= c.draw(64);  }
        if (c.chance(1, 2) && m && m <= 0x8000000000000000ULL) {  v.neg = true;  m = (uint64_t) -(int64_t) m;  }
        v.u = m;
        if (!v.neg ? m > 0xffffffffULL : (int64_t) m < INT32_MIN) c.probe(P_BIG);
        break;
      }
      case 2: v.k = V::BOOL;  v.u = c.draw(2);  break;
      case 3: {
        v.k = V::FLT;
        float f = c.pick({0.0f, -0.0f, 1.5f, -3.25e10f, 1e-40f, INFINITY, -INFINITY, 3.4028234e38f});
        if (c.chance(1, 3)) f = ((int32_t) c.draw(2000000) - 1000000) / 1000.0f;
        uint32_t w;  memcpy(&w, &f, 4);  v.u = w;
        break;
      }
      case 4: {
        v.k = V::DBL;
        v.u = c.pick({0ULL, 0x8000000000000000ULL, 0x3ff8000000000000ULL, 0x54b249ad2594c37dULL, 0x0000000000000123ULL, 0x7ff0000000000000ULL, 0x3fd5555555555555ULL});
        if (c.chance(1, 3)) {  double f = ((int32_t) c.draw(2000000) - 1000000) / (double) 1000;  memcpy(&v.u, &f, 8);  }
        break;
      }
      case 5:
        v.k = V::STR;  v.s = text(c.chance(1, 8) ? c.pick({23, 24, 25, 255, 256, 257, 300}) : c.draw(30));
        if (v.s.size() > 200) c.probe(P_LONG);
        break;
      case 6: {
        v.k = V::BIN;
        uint32_t n = c.chance(1, 8) ? c.pick({23, 24, 255, 256, 300}) : c.draw(20);
        if (c.chance(1, 60)) {  v.s.assign(65534 + c.draw(4), (char) c.draw(256));  c.probe(P_LONG);  break;  }
        while (n--) v.s += (char) c.draw(256);
        break;
      }
      case 7: {
        v.k = V::VEC;
        v.tc = c.pick({TCode::VECT_3_INT8, TCode::VECT_3_UINT8, TCode::VECT_3_INT16, TCode::VECT_3_UINT16, TCode::VECT_3_INT32, TCode::VECT_3_UINT32, TCode::VECT_3_FLOAT, TCode::VECT_3_DOUBLE});
        uint32_t n = vec_size(v.tc);
        if (v.tc == TCode::VECT_3_FLOAT) for (int i = 0; i < 3; i++) {  float f = ((int32_t) c.draw(20000) - 10000) / 8.0f;  v.s.append((char*) &f, 4);  }
        else if (v.tc == TCode::VECT_3_DOUBLE) for (int i = 0; i < 3; i++) {  double f = ((int32_t) c.draw(20000) - 10000) / 8.0;  v.s.append((char*) &f, 8);  }
        else while (n--) v.s += (char) c.draw(256);
        c.probe(P_VECTOR);
        break;
      }
    }
    return v;
  }
  V set_of(int depth) {
    V v;
    v.k = V::MAP;
    uint32_t n = c.chance(1, 20) ? 24 + c.draw(6) : 1 + c.draw(5);
    for (uint32_t i = 0; i < n; i++) {
      std::string key = std::string(1, (char) ('A' + i)) + text(c.chance(1, 12) ? c.pick({21, 22, 23, 24, 60}) : c.draw(6));
      V e;
      if (depth < 4 && n < 20 && c.chance(depth ? 1 : 2, 8)) {  e = set_of(depth + 1);  c.probe(P_NESTED);  if (depth > 1) c.probe(P_DEEP);  }
      else if (c.chance(1, 25)) {  e.k = V::UNSET;  e.tc = c.pick({TCode::STR, TCode::KVP, TCode::STR_BUILDER, TCode::STOPWATCH, TCode::TIMESERIES, TCode::IMAGE});  c.probe(P_UNSET);  }
      else e = scalar();
      v.m.emplace_back(key, e);
    }
    return v;
  }

  struct Held {  std::vector<std::unique_ptr<char[]>> mem;  std::vector<std::unique_ptr<StringBuilder>> sbs;  };
  char* keep(Held& h, const std::string& s) {
    char* p = new char[s.size() + 1];
    memcpy(p, s.data(), s.size());  p[s.size()] = 0;
    h.mem.emplace_back(p);
    return p;
  }
  template <class T> T* vec(Held& h, const std::string& s) {
    T t;
    memcpy(&t.x, s.data(), s.size() / 3);
    memcpy(&t.y, s.data() + s.size() / 3, s.size() / 3);
    memcpy(&t.z, s.data() + s.size() / 3 * 2, s.size() / 3);
    return (T*) keep(h, std::string((char*) &t, sizeof(T)));
  }
  KeyValuePair* pair(Held& h, const std::string& key, const V& v) {
    char* k = keep(h, key);
    const char* ck = k;
    switch (v.k) {
      case V::INT:
        if (v.neg) {
          int64_t x = (int64_t) v.u;
          switch (c.draw(4)) {
            case 0: if (x >= INT8_MIN) return new KeyValuePair(k, (int8_t) x);  // fall through
            case 1: if (x >= INT16_MIN) return new KeyValuePair(k, (int16_t) x);  // fall through
            case 2: if (x >= INT32_MIN) return new KeyValuePair(k, (int32_t) x);  // fall through
            default: return new KeyValuePair(k, (int64_t) x);
          }
        }
        switch (c.draw(5)) {
          case 0: if (v.u <= UINT8_MAX) return new KeyValuePair(k, (uint8_t) v.u);  // fall through
          case 1: if (v.u <= UINT16_MAX) return new KeyValuePair(k, (uint16_t) v.u);  // fall through
          case 2: if (v.u <= UINT32_MAX) return new KeyValuePair(k, (uint32_t) v.u);  // fall through
          case 3: if (v.u <= INT64_MAX) return new KeyValuePair(k, (int64_t) v.u);  // fall through
          default: return new KeyValuePair(k, (uint64_t) v.u);
        }
      case V::BOOL: return new KeyValuePair(ck, (bool) v.u);
      case V::FLT:  {  float f;  uint32_t w = v.u;  memcpy(&f, &w, 4);  return new KeyValuePair(ck, f);  }
      case V::DBL:  {  double f;  memcpy(&f, &v.u, 8);  return new KeyValuePair(ck, f);  }
      case V::STR:
        if (c.chance(1, 4)) {
          StringBuilder* s = new StringBuilder();
          h.sbs.emplace_back(s);
          uint32_t at = v.s.empty() ? 0 : c.draw(v.s.size());
          if (at) s->concat((uint8_t*) v.s.data(), at);
          if (at < v.s.size()) s->concat((uint8_t*) v.s.data() + at, v.s.size() - at);
          return new KeyValuePair(ck, s);
        }
        return c.chance(1, 2) ? new KeyValuePair(ck, (const char*) keep(h, v.s)) : new KeyValuePair(ck, keep(h, v.s));
      case V::BIN:  return new KeyValuePair(ck, (uint8_t*) keep(h, v.s), (uint32_t) v.s.size());
      case V::VEC:
        switch (v.tc) {
          case TCode::VECT_3_INT8:   return new KeyValuePair(ck, vec<Vector3i8>(h, v.s));
          case TCode::VECT_3_UINT8:  return new KeyValuePair(ck, vec<Vector3u8>(h, v.s));
          case TCode::VECT_3_INT16:  return new KeyValuePair(ck, vec<Vector3i16>(h, v.s));
          case TCode::VECT_3_UINT16: return new KeyValuePair(ck, vec<Vector3u16>(h, v.s));
          case TCode::VECT_3_INT32:  return new KeyValuePair(ck, vec<Vector3i32>(h, v.s));
          case TCode::VECT_3_UINT32: return new KeyValuePair(ck, vec<Vector3u32>(h, v.s));
          case TCode::VECT_3_FLOAT:  return new KeyValuePair(ck, vec<Vector3f>(h, v.s));
          default:                   return new KeyValuePair(ck, vec<Vector3f64>(h, v.s));
        }
      case V::IMG: {
        Image* i = new Image((uint8_t) v.s[0], (uint8_t) v.s[1], (ImgBufferFormat) v.s[2]);
        i->setBufferByCopy((uint8_t*) v.s.data() + 3);
        KeyValuePair* p = new KeyValuePair(ck, i);
        p->reapValue(true);
        return p;
      }
      case V::MAP: {  KeyValuePair* p = new KeyValuePair(ck, chain(h, v));  p->reapValue(true);  return p;  }
      default: return new KeyValuePair(v.tc, ck);
    }
  }
  KeyValuePair* chain(Held& h, const V& v) {
    KeyValuePair* r = nullptr;
    for (auto& e : v.m) {
      KeyValuePair* p = pair(h, e.first, e.second);
      if (!r) r = p;  else r->link(p, true);
    }
    return r;
  }
  static V seen(const V& v) {        // What of it can cross.
    V r;
    r.k = V::MAP;
    for (auto& e : v.m) {
      if (e.first.empty() || e.second.k == V::UNSET) continue;
      if (e.second.k == V::MAP) {  V in = seen(e.second);  if (!in.m.empty()) r.m.emplace_back(e.first, in);  }
      else r.m.emplace_back(e);
    }
    return r;
  }

  static uint32_t blobs(const V& v) {  uint32_t n = v.k == V::BIN ? v.s.size() : 0;  for (auto& e : v.m) n += blobs(e.second);  return n;  }
  void as_text(const V& v, KeyValuePair* k) {
    if (blobs(v) > 5000) return;      // It prints a blob byte by byte: one fragment for each.
    std::string want, got;
    StringBuilder o;
    k->serialize(&o, TCode::STR);
    got = o.isEmpty() ? "" : std::string((char*) o.string(), o.length());
    if (text_of_set(v, want)) {
      c.probe(P_TEXT);
      if (squeeze(got) != squeeze(want)) c.fail("text", "as text it is [%s] rather than [%s]", squeeze(got).c_str(), squeeze(want).c_str());
    }
    // And each alone.
    KeyValuePair* p = k;
    for (size_t i = 0; p && i < v.m.size() && !c.failed(); i++, p = (KeyValuePair*) p->nextValue()) {
      const V& e = v.m[i].second;
      if (e.k == V::BIN || e.k == V::MAP || e.k == V::UNSET || e.k == V::IMG) continue;
      StringBuilder t("<");
      p->toString(&t);
      std::string s((char*) t.string(), t.length());
      if (s != "<" + text_of(e)) c.fail("text-value", "%s of type %s says [%s]", show(e).c_str(), typecodeToStr(p->tcode()), s.c_str());
    }
  }
  void compare(const V& want, KeyValuePair* got, bool prefix, const char* how) {
    V r;
    if (got && !read_set(got, r, 0)) {  c.fail("reload-unreadable", "%s, something came back that cannot be read", how);  return;  }
    r.k = V::MAP;
    if (prefix) {
      if (r.m.size() > want.m.size()) {  c.fail("reload-invented", "%s, %u values came back of the %u", how, (unsigned) r.m.size(), (unsigned) want.m.size());  return;  }
      for (size_t i = 0; i < r.m.size(); i++) {
        if (i + 1 == r.m.size() && r.m[i].second.k == V::MAP) break;     // The last set may be short.
        if (r.m[i].first != want.m[i].first || show(r.m[i].second) != show(want.m[i].second)) {  c.fail("reload-prefix", "%s, value %u came back as %s=%s rather than %s=%s", how, (unsigned) i, r.m[i].first.c_str(), show(r.m[i].second).c_str(), want.m[i].first.c_str(), show(want.m[i].second).c_str());  return;  }
      }
      if (!r.m.empty()) c.probe(P_PREFIX);
    }
    else if (show(r) != show(want)) c.fail("reload", "%s, %s came back rather than %s", how, show(r).c_str(), show(want).c_str());
  }
  void reload(const V& want, std::string bytes) {
    uint8_t* b = (uint8_t*) malloc(bytes.size() + 1);    // Exactly sized, for the sanitizer's sake.
    memcpy(b, bytes.data(), bytes.size());
    size_t before = heap_in_use();
    KeyValuePair* k = nullptr;
    uint8_t* exact = (uint8_t*) malloc(bytes.size() ? bytes.size() : 1);
    memcpy(exact, bytes.data(), bytes.size());
    uint32_t len = bytes.size();
    int mode = c.draw(5);
    if (mode == 1 && len) {  len = c.draw(len);  c.fault(F_TRUNC);  }
    else if (mode == 2 && len) {  for (uint32_t n = 1 + c.draw(3); n--; ) exact[c.draw(len)] ^= (uint8_t) (1 + c.draw(255));  c.fault(F_DAMAGE);  }
    if (mode == 1 && len < bytes.size()) {  free(exact);  exact = (uint8_t*) malloc(len ? len : 1);  memcpy(exact, bytes.data(), len);  }
    if (mode == 3) {  g_malloc_fail_in = c.draw(30);  g_malloc_fail_sticky = c.chance(1, 2);  }
    c.ev("unserialize %u of %u bytes, mode %d", (unsigned) len, (unsigned) bytes.size(), mode);
    k = KeyValuePair::unserialize(exact, len, TCode::CBOR);
    bool hurt = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (hurt) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    memset(exact, 0xa5, len);       // Nothing of it may be relied upon afterwards.
    free(exact);
    if (mode == 2) {  V r;  if (k) read_set(k, r, 0);  }
    else if (hurt) {
      if (k) {
        V r;
        if (!k->memError()) {       // What is given must be right, or be known not to be.
          bool told = false;
          for (C3PValue* p = k; p; p = p->nextValue()) told |= p->memError();
          if (!told && (!read_set(k, r, 0) || show(r) != show(want))) c.fail("reload-unsaid", "refused memory, it gave %s for %s and did not say", show(r).c_str(), show(want).c_str());
        }
      }
    }
    else compare(want, k, mode == 1, mode == 1 ? "cut short" : "whole");
    if (k) delete k;
    free(b);
    if (!c.failed() && heap_in_use() > before - (bytes.size() + 1)) {
      size_t now = heap_in_use();
      if (now != before - (bytes.size() + 1)) c.fail("reload-leak", "%d bytes remain of a reload (mode %d)", (int) (now - (before - (bytes.size() + 1))), mode);
    }
  }
  // A pair with a value this end cannot take is as if it were not there. So is a set with nothing in it.
  void foreign_set(std::string& o, V& want, uint32_t depth) {
    uint32_t n = depth ? c.draw(4) : 1 + c.draw(5);
    head(o, 5, n);
    for (uint32_t i = 0; i < n; i++) {
      std::string key = std::string(1, (char) ('A' + i));
      head(o, 3, 1);  o += key;
      if (c.chance(1, 3)) {
        // A tagged blob of a type it does not take, or of the wrong size for it.
        TCode tc = c.pick({TCode::STOPWATCH, TCode::IMAGE, TCode::IDENTITY, TCode::AUDIO, TCode::VECT_3_FLOAT, TCode::VECT_3_INT8, TCode::UINT32, TCode::DOUBLE, TCode::RESERVED});
        head(o, 6, (uint32_t) C3P_CBOR_VENDOR_CODE | TcodeToInt(tc));
        uint32_t len = c.draw(8);
        if (sizeOfType(tc) == (int) len) len++;
        head(o, 2, len);
        while (len--) o += (char) c.draw(256);
        c.fault(F_FOREIGN);  c.probe(P_UNKNOWN_TAG);
      }
      else if (depth < 3 && c.chance(1, 4)) {
        V in;  in.k = V::MAP;
        foreign_set(o, in, depth + 1);
        if (!in.m.empty()) want.m.emplace_back(key, in);
      }
      else {
        V e = scalar();
        while (e.k == V::VEC || e.k == V::IMG) e = scalar();
        cbor_of(e, o);
        want.m.emplace_back(key, e);
      }
    }
  }
  void foreign() {
    V want;  want.k = V::MAP;
    std::string o;
    foreign_set(o, want, 0);
    uint8_t* exact = (uint8_t*) malloc(o.size());
    memcpy(exact, o.data(), o.size());
    c.ev("foreign %s", hex(exact, o.size(), 60).c_str());
    size_t before = heap_in_use();
    KeyValuePair* k = KeyValuePair::unserialize(exact, o.size(), TCode::CBOR);
    compare(want, k, false, "with pairs it cannot take");
    if (k) delete k;
    if (!c.failed() && heap_in_use() != before) c.fail("foreign-leak", "%d bytes remain of a set with pairs it cannot take", (int) (heap_in_use() - before));
    free(exact);
  }
  // The decoder hears the same of a buffer as of a StringBuilder, however that is cut, and whenever its bytes come.
  void sources(const std::string& whole) {
    std::string bytes = whole;
    if (c.chance(1, 4) && !bytes.empty()) {  bytes[c.draw(bytes.size())] ^= (char) (1 + c.draw(255));  c.fault(F_DAMAGE);  }
    if (c.chance(1, 4)) bytes += bytes;
    Ear a, b;
    std::unique_ptr<uint8_t[]> flat(new uint8_t[bytes.size()]);
    memcpy(flat.get(), bytes.data(), bytes.size());
    {  cbor::input_static in(flat.get(), (int) bytes.size());  cbor::decoder d(in, a);  d.run();  }
    bool eat = c.chance(2, 3), eat_box = eat && c.chance(1, 3);
    StringBuilder* s = new StringBuilder();
    bool gone = false;
    {
      cbor::input_stringbuilder in(s, eat, eat_box);
      cbor::decoder d(in, b);
      size_t at = 0;
      bool once = eat_box || c.chance(1, 3);
      c.ev("decode %u bytes from a StringBuilder, %s%s%s", (unsigned) bytes.size(), eat ? "consumed" : "kept", eat_box ? " with it" : "", once ? "" : ", as they come");
      while (at < bytes.size() && !c.failed()) {
        size_t n = 1 + c.draw(c.chance(1, 2) ? 3 : 40);
        if (n > bytes.size() - at) n = bytes.size() - at;
        s->concat((uint8_t*) bytes.data() + at, n);
        at += n;
        c.fault(F_CUT);
        if (!once) {
          if (at < bytes.size()) c.probe(P_RESUMED);
          d.run();
          if (d.failed()) break;
        }
      }
      if (once) d.run();
      gone = eat_box;
      if (!eat_box) {
        if (!eat && s->length() != (int) at) c.fail("source-kept", "%d of %u bytes remain in a source that was to be kept", s->length(), (unsigned) at);
        if (eat && !d.failed() && !b.heard.empty()) c.probe(P_CONSUMED);
      }
    }
    if (!gone) delete s;
    if (!c.failed() && a.heard != b.heard) {
      size_t i = 0;
      while (i < a.heard.size() && i < b.heard.size() && a.heard[i] == b.heard[i]) i++;
      c.fail("source-differs", "item %u is %s from a buffer and %s from a StringBuilder", (unsigned) i, i < a.heard.size() ? a.heard[i].c_str() : "nothing", i < b.heard.size() ? b.heard[i].c_str() : "nothing");
    }
  }
  static void write(cbor::encoder& e, const V& v) {
    switch (v.k) {
      case V::INT:  if (v.neg) e.write_int((int64_t) v.u);  else e.write_int((uint64_t) v.u);  break;
      case V::BOOL: e.write_bool(v.u);  break;
      case V::FLT:  {  float f;  uint32_t w = v.u;  memcpy(&f, &w, 4);  e.write_float(f);  break;  }
      case V::DBL:  {  double f;  memcpy(&f, &v.u, 8);  e.write_double(f);  break;  }
      case V::STR:  e.write_string(v.s.c_str());  break;
      case V::BIN:  e.write_bytes((const uint8_t*) v.s.data(), v.s.size());  break;
      case V::MAP:  e.write_map(v.m.size());  for (auto& x : v.m) {  e.write_string(x.first.c_str());  write(e, x.second);  }  break;
      default: break;
    }
  }
  // Encoding into memory of a given size is as encoding into a StringBuilder, and stays within it.
  void outputs() {
    std::vector<V> vs;
    std::string want;
    for (uint32_t n = 1 + c.draw(5); n--; ) {
      V v = scalar();
      if (v.k == V::VEC || v.k == V::IMG) continue;
      cbor_of(v, want);
      vs.push_back(v);
    }
    StringBuilder sb;
    {  cbor::output_stringbuilder o(&sb);  cbor::encoder e(o);  for (auto& v : vs) write(e, v);  }
    std::string got = sb.isEmpty() ? "" : std::string((char*) sb.string(), sb.length());
    if (got != want) {  c.fail("encoding", "encoded as %s rather than %s", hex((const uint8_t*) got.data(), got.size(), 60).c_str(), hex((const uint8_t*) want.data(), want.size(), 60).c_str());  return;  }
    uint32_t cap = c.chance(1, 2) ? want.size() + (c.chance(1, 2) ? 0 : c.draw(10)) : c.draw(want.size() + 1);
    bool own = c.chance(1, 2), refused = false;
    std::unique_ptr<uint8_t[]> mine(own ? nullptr : new uint8_t[cap ? cap : 1]);
    if (own && c.chance(1, 6)) {  g_malloc_fail_in = 0;  c.fault(F_ALLOC);  refused = true;  }
    c.ev("encode %u bytes into %u of %s", (unsigned) want.size(), (unsigned) cap, own ? "its own" : "mine");
    {
      cbor::output_static o(cap, own ? nullptr : mine.get());
      g_malloc_fail_in = -1;  g_malloc_failed = 0;
      cbor::encoder e(o);
      for (auto& v : vs) write(e, v);
      if (refused && cap) {  if (o.size()) c.fail("static-nowhere", "without memory, it holds %u bytes", (unsigned) o.size());  }
      else if (o.size() > cap) c.fail("static-over", "%u bytes are in room for %u", (unsigned) o.size(), (unsigned) cap);
      else if (cap >= want.size()) {
        if (std::string((char*) o.data(), o.size()) != want) c.fail("static-differs", "it holds %s rather than %s", hex(o.data(), o.size(), 60).c_str(), hex((const uint8_t*) want.data(), want.size(), 60).c_str());
      }
      else c.probe(P_STATIC_FULL);
      if (!own) o.shouldFree(false);
    }
  }
  // Sets may be some way within one another. Past that, there is no answer rather than a wrong one; and no end of the stack.
  void deep() {
    uint32_t d = c.chance(1, 2) ? 1 + c.draw(40) : c.chance(1, 2) ? 41 + c.draw(200) : 2000 + c.draw(60000);
    std::string o;
    for (uint32_t i = 0; i < d; i++) o += "\xa1\x61k";
    bool open = c.chance(1, 4);
    if (!open) o += "\x07";
    uint8_t* exact = (uint8_t*) malloc(o.size());
    memcpy(exact, o.data(), o.size());
    c.ev("%u sets within one another%s", (unsigned) d, open ? ", the innermost lacking its value" : "");
    size_t before = heap_in_use();
    KeyValuePair* k = KeyValuePair::unserialize(exact, o.size(), TCode::CBOR);
    uint32_t got = 0;
    bool value = false;
    for (KeyValuePair* p = k; p; ) {
      got++;
      if (p->count() != 1 || !p->getKey() || strcmp(p->getKey(), "k")) {  c.fail("deep-shape", "set %u of %u is not as it was", (unsigned) got, (unsigned) d);  break;  }
      if (p->tcode() == TCode::KVP) p = p->get_as_kvp();
      else {  int64_t x = 0;  value = p->get_as(&x) >= 0 && x == 7;  break;  }
    }
    c.probe(P_DEEP);
    if (!c.failed() && k && (got != d || !value || open)) c.fail("deep", "of %u sets within one another, %u came back%s", (unsigned) d, (unsigned) got, value ? "" : " without the value");
    if (!c.failed() && !k && d <= 30 && !open) c.fail("deep", "nothing came back of %u sets within one another", (unsigned) d);
    if (k) delete k;
    if (!c.failed() && heap_in_use() != before) c.fail("deep-leak", "%d bytes remain", (int) (heap_in_use() - before));
    if (!c.failed() && c.chance(1, 2)) {       // The other parser.
      if (c.chance(1, 2)) for (uint32_t i = 0, n = o.size() / 3; i < n; i++) if (c.chance(1, 4)) o.replace(i * 3, 3, "\x81\x81\x81");
      StringBuilder* w = new StringBuilder((uint8_t*) o.data(), o.size());
      C3PValue* x = C3PValue::deserialize(w, TCode::CBOR);
      if (x) delete x;
      delete w;
      if (heap_in_use() != before) c.fail("deep-leak", "%d bytes remain of the other parser's", (int) (heap_in_use() - before));
    }
    free(exact);
  }
  // The table of conversions tells the truth.
  void risk() {
    static const TCode NUM[] = {TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64, TCode::BOOLEAN, TCode::FLOAT, TCode::DOUBLE};
    V v = scalar();
    if (v.k != V::INT && v.k != V::BOOL && v.k != V::FLT && v.k != V::DBL) return;
    Held h;
    std::unique_ptr<KeyValuePair> k(pair(h, "k", v));
    TCode to = NUM[c.draw(11)];
    uint8_t b[8] = {0};
    int8_t r = C3PType::conversionRisk(k->tcode(), to);
    bool ok = k->get_as(to, b) >= 0;
    c.probe(P_RISK);
    if (r == 0 && !ok) c.fail("risk", "%s is always to be had as %s, but %s was refused", typecodeToStr(k->tcode()), typecodeToStr(to), show(v).c_str());
    if (r == 2 && !v.neg && !ok) c.fail("risk", "%s is to be had as %s unless it is negative, but %s was refused", typecodeToStr(k->tcode()), typecodeToStr(to), show(v).c_str());
  }
  void run() {
    c.plan_ops(2 + c.draw(6));
    while (c.next_op() && !c.failed()) {
      {
        switch (c.draw(10)) {
          case 0: if (c.chance(1, 3)) deep();  else foreign();  break;
          case 1: outputs();  break;
          case 2: for (int i = 0; i < 4 && !c.failed(); i++) risk();  break;
          default: {
            Held h;
            V v = set_of(0);
            KeyValuePair* k = chain(h, v);
            c.ev("%s", show(v).substr(0, 200).c_str());
            if (c.chance(1, 2)) as_text(v, k);
            if (!c.failed()) {
              StringBuilder o;
              bool lead = c.chance(1, 4);
              if (lead) o.concat((uint8_t*) "\xf6", 1);
              k->serialize(&o, TCode::CBOR);
              std::string bytes = o.isEmpty() ? "" : std::string((char*) o.string(), o.length());
              if (lead) {  if (bytes.empty() || bytes[0] != '\xf6') c.fail("serialize-lead", "what was in the buffer first is not");  else bytes.erase(0, 1);  }
              if (!lead && c.chance(1, 3)) {     // Without memory, all or nothing.
                StringBuilder o3;
                g_malloc_failed = 0;
                g_malloc_fail_in = c.draw(c.chance(1, 2) ? 12 : 200);  g_malloc_fail_sticky = c.chance(1, 2);
                int r = k->serialize(&o3, TCode::CBOR);
                g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
                if (g_malloc_failed > 0) {
                  c.fault(F_MEMORY_OUT);
                  std::string b3 = o3.isEmpty() ? "" : std::string((char*) o3.string(), o3.length());
                  if (b3.empty() ? r == 0 && !bytes.empty() : b3 != bytes) c.fail("serialize-memory", "without memory, serialize() of %s returned %d and wrote %u of %u bytes", show(v).substr(0, 300).c_str(), r, (unsigned) b3.size(), (unsigned) bytes.size());
                }
                g_malloc_failed = 0;
              }
              V s = seen(v);
              std::string want;
              if (!has_vec(s)) {
                cbor_of_set(s, want);
                if (!c.failed() && bytes != want) c.fail("serialize", "%s became %s rather than %s", show(v).c_str(), hex((const uint8_t*) bytes.data(), bytes.size(), 80).c_str(), hex((const uint8_t*) want.data(), want.size(), 80).c_str());
              }
              if (!c.failed() && c.chance(2, 3)) reload(s, bytes);
              if (!c.failed() && c.chance(1, 2) && bytes.size() < 5000) sources(bytes);
              if (!c.failed() && c.chance(1, 4) && !s.m.empty()) {     // Once more, by way of itself.
                uint8_t* x = (uint8_t*) malloc(bytes.size());
                memcpy(x, bytes.data(), bytes.size());
                KeyValuePair* again = KeyValuePair::unserialize(x, bytes.size(), TCode::CBOR);
                free(x);
                if (!again) c.fail("reload", "nothing came back of %s", show(s).c_str());
                else {
                  StringBuilder o2;
                  again->serialize(&o2, TCode::CBOR);
                  std::string b2 = o2.isEmpty() ? "" : std::string((char*) o2.string(), o2.length());
                  if (b2 != bytes) c.fail("reserialize", "serialized again, %s became %s", hex((const uint8_t*) bytes.data(), bytes.size(), 80).c_str(), hex((const uint8_t*) b2.data(), b2.size(), 80).c_str());
                  delete again;
                }
              }
              c.state(hash64(bytes.size(), s.m.size()));
              c.nontrivial();
            }
            delete k;
          }
        }
      }
    }
  }
};

void run(Ctx& c) {
  c.now_us = 1000000;
  Run r(c);
  r.run();
}
}

Harness g_harness = {
  "V02",
  "Sets of named values of every kind, nested, are written as text and as CBOR, and read back: whole, cut short, damaged, without memory, and with pairs of foreign types among them; the decoder reads the same bytes from a buffer and from a StringBuilder that grows as it reads; the encoder writes into memory of any size. Non-trivial: a set was serialized.",
  run,
  {"bytes cut short", "damaged bytes", "allocation failure while reading", "source cut at an arbitrary place", "value of a foreign or misshapen type", "allocation failure while writing"},
  {"set within a set", "vector", "value that was never set", "values from before the cut came back", "no memory", "decoder resumed as bytes came", "source consumed", "static output is full", "conversion risk consulted", "integer of more than 32 bits", "text compared", "tag not understood", "sets within sets within sets", "long string", "image"},
  {"KeyValuePair", "CBORArgListener", "C3PValue", "C3PType", "cbor::encoder", "cbor::decoder", "cbor::input_static", "cbor::input_stringbuilder", "cbor::output_static", "cbor::output_stringbuilder", "StringBuilder"},
  {"allocator (failing)"},
  "bytes and pairs of each set",
  {},
  20000, 400000
};
