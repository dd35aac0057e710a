/* P03: what is put into the typed end of a pipe comes out of the other typed end, however the bytes between are cut. */
#include "sb.h"
#include "sink.h"
#include <memory>
#include <deque>
#include <math.h>
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"
using namespace sim;

namespace {
enum {  F_CUT, F_FULL, F_REFUSE, F_ALLOC, F_DAMAGE, F_LOSS, F_ALLOC_NEAR  };
enum {  P_MANY, P_PARTIAL, P_NOTHING, P_MAP, P_NESTED, P_OVERSIZE, P_NO_MEMORY, P_DIRECT, P_EMPTY, P_GARBAGE, P_VECTOR, P_BINARY, P_BIG_INT  };

struct V {
  enum K {  INT, BOOL, FLT, DBL, STR, BIN, VEC, MAP  } k = INT;
  bool neg = false;
  uint64_t u = 0;              // The magnitude of an integer (two's complement if negative), or the bits of a real.
  std::string s;               // The bytes of strings, blobs and vectors.
  TCode tc = TCode::NONE;
  std::vector<std::pair<std::string, V>> m;
};
std::string show(const V& v) {
  char b[64];
  switch (v.k) {
    case V::INT:  if (v.neg) snprintf(b, sizeof b, "i%lld", (long long) v.u);  else snprintf(b, sizeof b, "i%llu", (unsigned long long) v.u);  return b;
    case V::BOOL: return v.u ? "true" : "false";
    case V::FLT:  snprintf(b, sizeof b, "f%08x", (unsigned) v.u);  return b;
    case V::DBL:  snprintf(b, sizeof b, "d%016llx", (unsigned long long) v.u);  return b;
    case V::STR:  return "\"" + v.s + "\"";
    case V::BIN:  return "<" + hex((const uint8_t*) v.s.data(), v.s.size(), 4096) + ">";
    case V::VEC:  snprintf(b, sizeof b, "v%u:", (unsigned) v.tc);  return b + hex((const uint8_t*) v.s.data(), v.s.size(), 4096);
    case V::MAP: {
      std::string r = "{";
      for (auto& e : v.m) r += e.first + "=" + show(e.second) + ",";
      return r + "}";
    }
  }
  return "?";
}
uint32_t vec_size(TCode t) {
  switch (t) {
    case TCode::VECT_3_INT8: case TCode::VECT_3_UINT8: return 3;
    case TCode::VECT_3_INT16: case TCode::VECT_3_UINT16: return 6;
    case TCode::VECT_3_INT32: case TCode::VECT_3_UINT32: case TCode::VECT_3_FLOAT: return 12;
    case TCode::VECT_3_DOUBLE: return 24;
    default: return 0;
  }
}
bool g_emit_fault;
/* What came out, in the terms of the model. */
bool read_value(C3PValue* p, V& v, int depth = 0);
bool read_scalar(C3PValue* p, V& v, int depth) {
  const TCode t = p->tcode();
  switch (t) {
    case TCode::INT8: case TCode::INT16: case TCode::INT32: case TCode::INT64: {
      int64_t x = 0;
      if (p->get_as(&x) < 0) return false;
      v.k = V::INT;  v.neg = x < 0;  v.u = (uint64_t) x;
      return true;
    }
    case TCode::UINT8: case TCode::UINT16: case TCode::UINT32: case TCode::UINT64: {
      uint64_t x = 0;
      if (p->get_as(&x) < 0) return false;
      v.k = V::INT;  v.u = x;
      return true;
    }
    case TCode::BOOLEAN: {  bool x = false;  if (p->get_as(&x) < 0) return false;  v.k = V::BOOL;  v.u = x;  return true;  }
    case TCode::FLOAT:  {  float x = 0;  if (p->get_as(&x) < 0) return false;  uint32_t w;  memcpy(&w, &x, 4);  v.k = V::FLT;  v.u = w;  return true;  }
    case TCode::DOUBLE: {  double x = 0;  if (p->get_as(&x) < 0) return false;  v.k = V::DBL;  memcpy(&v.u, &x, 8);  return true;  }
    case TCode::STR: {
      char* x = nullptr;
      if (p->get_as(&x) < 0 || !x) return false;
      v.k = V::STR;  v.s = x;
      return true;
    }
    case TCode::BINARY: {
      uint8_t* b = nullptr;  uint32_t n = 0;
      if (p->get_as(&b, &n) < 0 || (n && !b)) return false;
      v.k = V::BIN;  v.s.assign((char*) b, n);
      return true;
    }
    case TCode::KVP: {
      KeyValuePair* x = p->get_as_kvp();
      if (!x || depth > 200) return false;
      return read_value(x, v, depth + 1);
    }
    default: {
      uint32_t n = vec_size(t);
      if (!n) {  v.k = V::VEC;  v.tc = t;  return true;  }
      uint8_t b[24];
      if (p->get_as(t, b) < 0) return false;
      v.k = V::VEC;  v.tc = t;  v.s.assign((char*) b, n);
      return true;
    }
  }
}
bool read_value(C3PValue* p, V& v, int depth) {
  if (!p->has_key()) return read_scalar(p, v, depth);
  v.k = V::MAP;
  while (p) {
    V e;
    if (p->has_key()) {
      if (!read_scalar(p, e, depth)) return false;
      char* k = ((KeyValuePair*) p)->getKey();
      v.m.emplace_back(k ? k : "(null)", e);
    }
    p = p->nextValue();
  }
  return true;
}

std::vector<std::string> g_out;
void on_value(C3PValue* p) {
  V v;
  std::string s = read_value(p, v) ? show(v) : "unreadable";
  if (!p->has_key())     // An array is a chain of values.
    for (C3PValue* q = p->nextValue(); q; q = q->nextValue()) {  V w;  s += " & " + (read_value(q, w) ? show(w) : std::string("unreadable"));  }
  if (p->memError()) s += " (without memory)";
  g_out.push_back(s);
  delete p;
}

struct Run {
  Ctx& c;
  std::unique_ptr<Sink> wire;
  std::unique_ptr<C3PTypePipeSink> out;
  std::unique_ptr<C3PTypePipeSource> src;
  std::string stream;                    // All that the source has emitted.
  std::vector<std::string> sent;         // The values, in order.
  std::vector<uint32_t> ends;            // Where in the stream each ends.
  size_t delivered = 0, consumed = 0;    // Of the stream: handed to the far end's caller; taken by it.
  StringBuilder pending;
  uint32_t max_buf;
  bool direct = false, clean = true;
  Run(Ctx& x) : c(x) {}

  std::string text(uint32_t n) {
    std::string s;
    while (n--) s += (char) ('a' + c.draw(26));
    return s;
  }
  V scalar() {
    V v;
    switch (c.draw(8)) {
      case 0: case 1: {
        v.k = V::INT;
        static const uint64_t edge[] = {0, 1, 22, 23, 24, 25, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536, 0x7ffffffeULL, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL, 0x7ffffffffffffffeULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL};
        uint64_t m = edge[c.draw(sizeof edge / sizeof *edge)];
        if (c.chance(1, 3)) {  m = ((uint64_t) c.draw(0xffffffff) << 32) | c.draw(0xffffffff);  m >>= c.draw(64);  }
        if (c.chance(1, 2) && m && m <= 0x8000000000000000ULL) {  v.neg = true;  m = (uint64_t) -(int64_t) m;  }
        v.u = m;
        if (m > 0xffffffffULL) c.probe(P_BIG_INT);
        break;
      }
      case 2: v.k = V::BOOL;  v.u = c.draw(2);  break;
      case 3: {
        v.k = V::FLT;
        float f = c.pick({0.0f, -0.0f, 1.5f, -3.25e10f, 1e-40f, INFINITY, -INFINITY, 3.4028234e38f});
        if (c.chance(1, 3)) f = ((int32_t) c.draw(2000000) - 1000000) / 1000.0f;
        uint32_t w;  memcpy(&w, &f, 4);  v.u = w;
        break;
      }
      case 4: {
        v.k = V::DBL;
        v.u = c.pick({0ULL, 0x8000000000000000ULL, 0x3ff8000000000000ULL, 0x54b249ad2594c37dULL, 0x0000000000000123ULL, 0x7ff0000000000000ULL, 0x7fefffffffffffffULL, 0x3fd5555555555555ULL});
        if (c.chance(1, 3)) {  double f = ((int32_t) c.draw(2000000) - 1000000) / (double) 1000;  memcpy(&v.u, &f, 8);  }
        break;
      }
      case 5:
        v.k = V::STR;  v.s = text(c.chance(1, 8) ? c.pick({23, 24, 25, 255, 256, 257, 300}) : c.draw(30));
        if (v.s.empty()) c.probe(P_EMPTY);
        break;
      case 6: {
        v.k = V::BIN;
        uint32_t n = c.chance(1, 8) ? c.pick({23, 24, 255, 256, 300}) : c.draw(20);
        while (n--) v.s += (char) c.draw(256);
        if (v.s.empty()) c.probe(P_EMPTY);
        c.probe(P_BINARY);
        break;
      }
      case 7: {
        v.k = V::VEC;
        v.tc = c.pick({TCode::VECT_3_INT8, TCode::VECT_3_UINT8, TCode::VECT_3_INT16, TCode::VECT_3_UINT16, TCode::VECT_3_INT32, TCode::VECT_3_UINT32, TCode::VECT_3_FLOAT, TCode::VECT_3_DOUBLE});
        uint32_t n = vec_size(v.tc);
        if (v.tc == TCode::VECT_3_FLOAT) for (int i = 0; i < 3; i++) {  float f = ((int32_t) c.draw(20000) - 10000) / 8.0f;  v.s.append((char*) &f, 4);  }
        else if (v.tc == TCode::VECT_3_DOUBLE) for (int i = 0; i < 3; i++) {  double f = ((int32_t) c.draw(20000) - 10000) / 8.0;  v.s.append((char*) &f, 8);  }
        else while (n--) v.s += (char) c.draw(256);
        c.probe(P_VECTOR);
        break;
      }
    }
    return v;
  }
  V value(int depth = 0) {
    if (depth < 3 && c.chance(depth ? 1 : 2, 6)) {
      V v;
      v.k = V::MAP;
      uint32_t n = c.chance(1, 10) ? 24 + c.draw(6) : 1 + c.draw(5);
      for (uint32_t i = 0; i < n; i++) v.m.emplace_back(std::string(1, (char) ('A' + i)) + text(c.draw(i ? 4 : 30)), n > 20 ? scalar() : value(depth + 1));
      c.probe(depth ? P_NESTED : P_MAP);
      return v;
    }
    return scalar();
  }

  // The C3PValue (or pair) that stands for a model value. Memory is kept in `pool` until the run is over.
  struct Held {  std::vector<std::unique_ptr<char[]>> mem;  std::vector<std::unique_ptr<C3PValue>> vals;  std::vector<KeyValuePair*> chains;  ~Held() {  while (!chains.empty()) {  delete chains.back();  chains.pop_back();  }  }  };
  char* keep(Held& h, const std::string& s) {
    char* p = new char[s.size() + 1];
    memcpy(p, s.data(), s.size());  p[s.size()] = 0;
    h.mem.emplace_back(p);
    return p;
  }
  template <class T> T* vec(Held& h, const std::string& s) {
    T* t = new T();
    memcpy(&t->x, s.data(), s.size() / 3);
    memcpy(&t->y, s.data() + s.size() / 3, s.size() / 3);
    memcpy(&t->z, s.data() + s.size() / 3 * 2, s.size() / 3);
    h.mem.emplace_back((char*) nullptr);
    std::string raw((char*) t, sizeof(T));
    delete t;
    return (T*) keep(h, raw);
  }
  // As a pair of the given key.
  KeyValuePair* pair(Held& h, const std::string& key, const V& v) {
    char* k = keep(h, key);
    const char* ck = k;
    switch (v.k) {
      case V::INT: {
        if (v.neg) {
          int64_t x = (int64_t) v.u;
          switch (c.draw(4)) {
            case 0: if (x >= INT8_MIN) return new KeyValuePair(k, (int8_t) x);  // fall through
            case 1: if (x >= INT16_MIN) return new KeyValuePair(k, (int16_t) x);  // fall through
            case 2: if (x >= INT32_MIN) return new KeyValuePair(k, (int32_t) x);  // fall through
            default: return new KeyValuePair(k, (int64_t) x);
          }
        }
        switch (c.draw(4)) {
          case 0: if (v.u <= UINT8_MAX) return new KeyValuePair(k, (uint8_t) v.u);  // fall through
          case 1: if (v.u <= UINT16_MAX) return new KeyValuePair(k, (uint16_t) v.u);  // fall through
          case 2: if (v.u <= UINT32_MAX) return new KeyValuePair(k, (uint32_t) v.u);  // fall through
          default: return new KeyValuePair(k, (uint64_t) v.u);
        }
      }
      case V::BOOL: return new KeyValuePair(ck, (bool) v.u);
      case V::FLT:  {  float f;  uint32_t w = v.u;  memcpy(&f, &w, 4);  return new KeyValuePair(ck, f);  }
      case V::DBL:  {  double f;  memcpy(&f, &v.u, 8);  return new KeyValuePair(ck, f);  }
      case V::STR:  return c.chance(1, 2) ? new KeyValuePair(ck, (const char*) keep(h, v.s)) : new KeyValuePair(ck, keep(h, v.s));
      case V::BIN:  return new KeyValuePair(ck, (uint8_t*) keep(h, v.s), (uint32_t) v.s.size());
      case V::VEC:
        switch (v.tc) {
          case TCode::VECT_3_INT8:   return new KeyValuePair(ck, vec<Vector3i8>(h, v.s));
          case TCode::VECT_3_UINT8:  return new KeyValuePair(ck, vec<Vector3u8>(h, v.s));
          case TCode::VECT_3_INT16:  return new KeyValuePair(ck, vec<Vector3i16>(h, v.s));
          case TCode::VECT_3_UINT16: return new KeyValuePair(ck, vec<Vector3u16>(h, v.s));
          case TCode::VECT_3_INT32:  return new KeyValuePair(ck, vec<Vector3i32>(h, v.s));
          case TCode::VECT_3_UINT32: return new KeyValuePair(ck, vec<Vector3u32>(h, v.s));
          case TCode::VECT_3_FLOAT:  return new KeyValuePair(ck, vec<Vector3f>(h, v.s));
          default:                   return new KeyValuePair(ck, vec<Vector3f64>(h, v.s));
        }
      case V::MAP: {
        KeyValuePair* in = map(h, v);
        h.chains.push_back(in);
        return new KeyValuePair(ck, in);
      }
    }
    return nullptr;
  }
  KeyValuePair* map(Held& h, const V& v) {
    KeyValuePair* r = nullptr;
    for (auto& e : v.m) {
      KeyValuePair* p = pair(h, e.first, e.second);
      if (!r) r = p;  else r->link(p, true);
    }
    return r;
  }
  C3PTypePipeSource* src_raw = nullptr;
  // The source, with an allocator that may refuse it.
  int32_t starve_at = -1;
  bool starve_on = false, starved = false;
  struct Near {
    C3PTypePipeSource& s;
    Run& r;
    template <class T> int8_t pushValue(T v) {
      g_malloc_failed = 0;
      g_malloc_fail_in = r.starve_at;  g_malloc_fail_sticky = r.starve_on;
      int8_t rc = s.pushValue(v);
      g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
      r.starved = g_malloc_failed > 0;
      g_malloc_failed = 0;
      return rc;
    }
  };
  // Offers the value to the source.
  int8_t offer(const V& v) {
    Held h;
    Near s{src_raw ? *src_raw : *src, *this};
    bool boxed = c.chance(1, 3);
    switch (v.k) {
      case V::INT:
        if (v.neg) {
          int64_t x = (int64_t) v.u;
          uint32_t w = c.draw(4);
          if (w == 0 && x >= INT8_MIN) {   if (boxed) {  C3PValue b((int8_t) x);  return s.pushValue(&b);  }  return s.pushValue((int8_t) x);  }
          if (w <= 1 && x >= INT16_MIN) {  if (boxed) {  C3PValue b((int16_t) x);  return s.pushValue(&b);  }  return s.pushValue((int16_t) x);  }
          if (w <= 2 && x >= INT32_MIN) {  if (boxed) {  C3PValue b((int32_t) x);  return s.pushValue(&b);  }  return s.pushValue((int32_t) x);  }
          if (boxed) {  C3PValue b(x);  return s.pushValue(&b);  }
          return s.pushValue(x);
        }
        else {
          uint32_t w = c.draw(4);
          if (w == 0 && v.u <= UINT8_MAX) {   if (boxed) {  C3PValue b((uint8_t) v.u);  return s.pushValue(&b);  }  return s.pushValue((uint8_t) v.u);  }
          if (w <= 1 && v.u <= UINT16_MAX) {  if (boxed) {  C3PValue b((uint16_t) v.u);  return s.pushValue(&b);  }  return s.pushValue((uint16_t) v.u);  }
          if (w <= 2 && v.u <= UINT32_MAX) {  if (boxed) {  C3PValue b((uint32_t) v.u);  return s.pushValue(&b);  }  return s.pushValue((uint32_t) v.u);  }
          if (c.chance(1, 2) && v.u <= INT64_MAX) {  if (boxed) {  C3PValue b((int64_t) v.u);  return s.pushValue(&b);  }  return s.pushValue((int64_t) v.u);  }
          if (boxed) {  C3PValue b(v.u);  return s.pushValue(&b);  }
          return s.pushValue(v.u);
        }
      case V::BOOL: if (boxed) {  C3PValue b((bool) v.u);  return s.pushValue(&b);  }  return s.pushValue((bool) v.u);
      case V::FLT: {  float f;  uint32_t w = v.u;  memcpy(&f, &w, 4);  if (boxed) {  C3PValue b(f);  return s.pushValue(&b);  }  return s.pushValue(f);  }
      case V::DBL: {  double f;  memcpy(&f, &v.u, 8);  if (boxed) {  C3PValue b(f);  return s.pushValue(&b);  }  return s.pushValue(f);  }
      case V::STR:
        if (boxed && c.chance(1, 4)) {  StringBuilder sb;  if (!v.s.empty()) {  uint32_t at = c.draw(v.s.size());  if (at) sb.concat((uint8_t*) v.s.data(), at);  sb.concat((uint8_t*) v.s.data() + at, v.s.size() - at);  }  C3PValue b(&sb);  return s.pushValue(&b);  }
        if (boxed) {  C3PValue b(keep(h, v.s));  return s.pushValue(&b);  }
        return c.chance(1, 2) ? s.pushValue((const char*) keep(h, v.s)) : s.pushValue(keep(h, v.s));
      case V::BIN: {  C3PValue b((uint8_t*) keep(h, v.s), (uint32_t) v.s.size());  return s.pushValue(&b);  }
      case V::VEC:
        switch (v.tc) {
          case TCode::VECT_3_INT8:   {  C3PValue b(vec<Vector3i8>(h, v.s));   return s.pushValue(&b);  }
          case TCode::VECT_3_UINT8:  {  C3PValue b(vec<Vector3u8>(h, v.s));   return s.pushValue(&b);  }
          case TCode::VECT_3_INT16:  {  C3PValue b(vec<Vector3i16>(h, v.s));  return s.pushValue(&b);  }
          case TCode::VECT_3_UINT16: {  C3PValue b(vec<Vector3u16>(h, v.s));  return s.pushValue(&b);  }
          case TCode::VECT_3_INT32:  {  C3PValue b(vec<Vector3i32>(h, v.s));  return s.pushValue(&b);  }
          case TCode::VECT_3_UINT32: {  C3PValue b(vec<Vector3u32>(h, v.s));  return s.pushValue(&b);  }
          case TCode::VECT_3_FLOAT:  {  C3PValue b(vec<Vector3f>(h, v.s));    return s.pushValue(&b);  }
          default:                   {  C3PValue b(vec<Vector3f64>(h, v.s));  return s.pushValue(&b);  }
        }
      case V::MAP: {
        KeyValuePair* k = map(h, v);
        h.chains.push_back(k);
        return boxed ? s.pushValue((C3PValue*) k) : s.pushValue(k);
      }
    }
    return -1;
  }
  void send() {
    V v = value();
    std::string s = show(v);
    size_t before = stream.size(), outs = g_out.size();
    if (!direct) {
      wire->room = c.chance(1, 6) ? c.draw(40) : 1 << 20;
      wire->refuse = c.chance(1, 12);
      if (wire->room < 40) c.fault(F_FULL);
      if (wire->refuse) c.fault(F_REFUSE);
    }
    uint32_t bc = src->byteCount();
    if (!direct && c.chance(1, 5)) {  starve_at = c.draw(c.chance(1, 2) ? 4 : 40);  starve_on = c.chance(1, 2);  }
    int8_t rc = offer(v);
    starve_at = -1;
    if (starved) c.fault(F_ALLOC_NEAR);
    c.ev("send %s = %d", s.c_str(), rc);
    if (direct) {
      // The far end is the near end's neighbour.
      if (rc == 0) {
        sent.push_back(s);
        if (g_out.size() != outs + 1) c.fail("pipe-lost", "%s was pushed straight into the far end, which then gave %u values", s.c_str(), (unsigned) (g_out.size() - outs));
        c.nontrivial();
      }
      else if (g_out.size() != outs) c.fail("pipe-code", "the push of %s returned %d, yet the value went through", s.c_str(), rc);
      else if (src->byteCount() == bc && s.size() < max_buf / 4 && max_buf > 800) c.fail("pipe-refused", "the far end, with space for %u bytes, did not take %s", max_buf, s.c_str());
      check();
      return;
    }
    uint32_t n = stream.size() - before;
    if (rc == 0) {
      if (!n) {  c.fail("pipe-lost", "%s was pushed, and yielded no bytes", s.c_str());  return;  }
      if (src->byteCount() != bc + n) c.fail("pipe-count", "%u bytes left the source, which counted %u", n, src->byteCount() - bc);
      sent.push_back(s);
      ends.push_back(stream.size());
      if (starved) {
        // Refused memory or not, what is sent is the value.
        std::string whole = stream.substr(before);
        starved = false;
        C3PTypePipeSink one(TCode::CBOR, 1 << 20, on_value);
        StringBuilder b;
        b.concat((uint8_t*) whole.data(), whole.size());
        one.pushBuffer(&b);
        if (g_out.size() != outs + 1 || g_out.back() != s) c.fail("pipe-value", "the push of %s, refused memory, returned 0 and emitted <%s>", s.c_str(), hex((const uint8_t*) whole.data(), whole.size(), 200).c_str());
        g_out.resize(outs);
      }
    }
    else if (rc > 0) c.fail("pipe-code", "the push of %s returned %d", s.c_str(), rc);
    else if (src->byteCount() != bc) c.fail("pipe-count", "the push of %s failed, and the source counted %u bytes", s.c_str(), src->byteCount() - bc);
    else if (!n && !wire->refuse && wire->room <= 40 && !starved) {
      // It is because it does not fit.
      Sink scratch;
      C3PTypePipeSource probe(TCode::CBOR, &scratch);
      src_raw = &probe;
      int8_t pr = offer(v);
      src_raw = nullptr;
      if (pr == 0 && (int32_t) scratch.got.size() <= wire->room) c.fail("pipe-refused", "the push of %s, which is %u bytes, into a pipe with space for %d returned %d", s.c_str(), (unsigned) scratch.got.size(), wire->room, rc);
    }
    else if (n) c.fail("pipe-part", "the push of %s returned %d, yet %u bytes of it went downstream", s.c_str(), rc, n);
    else if (wire->room > 40 && !wire->refuse && !starved) c.fail("pipe-refused", "the push of %s into an open pipe returned %d", s.c_str(), rc);
  }
  void check() {
    size_t n = g_out.size();
    for (size_t i = 0; i < n && i < sent.size(); i++) if (g_out[i] != sent[i]) {  c.fail("pipe-value", "value %u of the stream went in as %s and came out as %s", (unsigned) i, sent[i].c_str(), g_out[i].c_str());  return;  }
    if (n > sent.size()) c.fail("pipe-extra", "%u values were sent and %u came out: %s", (unsigned) sent.size(), (unsigned) n, g_out.back().c_str());
  }
  void deliver(uint32_t n, bool faults) {
    if (n > stream.size() - delivered) n = stream.size() - delivered;
    if (n) {
      uint32_t at = 0, pieces = 1 + c.draw(3);
      for (uint32_t i = 0; i < pieces; i++) {
        uint32_t k = i + 1 == pieces ? n - at : c.draw(n - at + 1);
        if (k) pending.concat((uint8_t*) stream.data() + delivered + at, k);
        at += k;
      }
      delivered += n;
    }
    uint32_t had = delivered - consumed;
    size_t outs = g_out.size();
    if (faults && c.chance(1, 6)) {  g_malloc_fail_in = c.draw(12);  g_malloc_fail_sticky = c.chance(1, 2);  }
    int8_t rc = out->pushBuffer(&pending);
    bool starved = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (starved) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    std::string left;
    for (int i = 0; i < pending.count(); i++) {  int z;  uint8_t* p = pending.position(i, &z);  left += std::string((char*) p, z);  }
    uint32_t took = had - left.size();
    if (left.size() > had || stream.compare(consumed + took, left.size(), left) != 0) {  c.fail("pipe-residue", "what the far end left of %u bytes is not the end of them", had);  return;  }
    consumed += took;
    if (out->byteCount() != consumed) {  c.fail("pipe-count", "the far end took %u bytes and counted %u", (unsigned) consumed, out->byteCount());  return;  }
    c.ev("deliver %u: %u held, %u taken, %u values = %d", n, had, took, (unsigned) (g_out.size() - outs), rc);
    if (!clean) return;
    if (had && rc != (took == 0 ? -1 : took < had ? 0 : 1)) c.fail("pipe-code", "the far end took %u of %u bytes and returned %d", took, had, rc);
    if (g_out.size() > outs + 1) c.probe(P_MANY);
    if (took && took < had) c.probe(P_PARTIAL);
    if (!took) c.probe(P_NOTHING);
    if (took) c.nontrivial();
    check();
    if (c.failed()) return;
    // Exactly the values whose bytes were taken came out.
    size_t whole = 0;
    while (whole < ends.size() && ends[whole] <= consumed) whole++;
    if (whole && ends[whole - 1] != consumed) c.fail("pipe-cut", "the far end took part of %s", whole < sent.size() ? sent[whole].c_str() : "a value");
    else if (!whole && consumed) c.fail("pipe-cut", "the far end took part of %s", sent[0].c_str());
    else if (g_out.size() != whole) c.fail("pipe-lost", "the bytes of %u values were taken and %u came out", (unsigned) whole, (unsigned) g_out.size());
    else if (!starved && whole < ends.size() && ends[whole] <= delivered) {
      uint32_t len = ends[whole] - consumed;
      if (len <= max_buf) c.fail("pipe-stuck", "the %u bytes of %s are all there, and it does not come out", len, sent[whole].c_str());
      else c.probe(P_OVERSIZE);
    }
    c.state(hash64(hash64(pending.count() > 2 ? 3 : pending.count(), left.size() > 8 ? 9 : left.size()), hash64(took > 8 ? 9 : took, g_out.size() - outs)));
  }
  void damage() {
    // The line damages what it carries. From here on the values are not those that were sent, but are still the same however the bytes arrive.
    clean = false;
    if (c.chance(1, 6)) {
      uint32_t n = 1 + c.draw(200);
      stream.clear();
      while (n--) stream += (char) (c.chance(1, 2) ? c.draw(256) : c.pick({0x81, 0xa1, 0x61, 0x60, 0x18, 0xda, 0x40, 0xd8, 0x5b, 0x7a, 0x9a, 0xba, 0xff, 0x41}));
      c.probe(P_GARBAGE);
      return;
    }
    uint32_t n = 1 + c.draw(3);
    while (n-- && !stream.empty()) {
      uint32_t at = c.draw(stream.size());
      switch (c.draw(4)) {
        case 0: stream[at] ^= 1 << c.draw(8);  c.fault(F_DAMAGE);  break;
        case 1: stream[at] = (char) c.draw(256);  c.fault(F_DAMAGE);  break;
        case 2: stream.erase(at, 1 + c.draw(6));  c.fault(F_LOSS);  break;
        case 3: {
          static const char* const bad[] = {"\x7a\xff\xff\xff\xff", "\x5a\xff\xff\xff\xfe", "\x9a\xff\xff\xff\xff", "\xba\x7f\xff\xff\xff", "\xbb\xff\xff\xff\xff\xff\xff\xff\xff", "\xa1\x7a\xff\xff\xff\xff", "\xa1\x7f", "\x5b\x01\x01\x01\x01\xff\xff\xff\xff"};
          stream.insert(at, bad[c.draw(8)]);
          c.fault(F_DAMAGE);
          break;
        }
      }
    }
  }
  void run() {
    g_out.clear();
    max_buf = c.pick({20, 64, 300, 1000, 4096, 100000});
    direct = c.chance(1, 8);
    out.reset(new C3PTypePipeSink(TCode::CBOR, max_buf, on_value));
    if (direct) {  src.reset(new C3PTypePipeSource(TCode::CBOR, out.get()));  c.probe(P_DIRECT);  }
    else {
      wire.reset(new Sink());
      wire->on_take = [this](const std::string& s) {  stream += s;  };
      src.reset(new C3PTypePipeSource(TCode::CBOR, wire.get()));
    }
    bool dirty = !direct && c.chance(1, 3);
    c.plan_ops(6 + c.draw(30));
    while (c.next_op() && !c.failed()) {
      c.step();
      if (direct || dirty || c.chance(1, 2)) send();
      else {
        uint32_t n = c.chance(1, 3) ? 1 + c.draw(3) : c.draw(60);
        c.fault(F_CUT);
        deliver(n, true);
      }
    }
    c.begin_tail();
    if (c.failed() || direct) return;
    if (!dirty) {
      while (delivered < stream.size() && !c.failed()) deliver(c.chance(1, 2) ? 1 + c.draw(10) : 1 << 20, false);
      deliver(0, false);
      return;
    }
    damage();
    while (delivered < stream.size() && !c.failed()) deliver(c.chance(1, 2) ? 1 + c.draw(10) : 1 + c.draw(200), false);
    std::vector<std::string> cut = g_out;
    size_t cut_took = consumed;
    // The same bytes, in one piece.
    g_out.clear();
    C3PTypePipeSink one(TCode::CBOR, max_buf, on_value);
    StringBuilder b;
    if (!stream.empty()) b.concat((uint8_t*) stream.data(), stream.size());
    one.pushBuffer(&b);
    c.ev("%u values from %u bytes of damaged stream", (unsigned) cut.size(), (unsigned) stream.size());
    if (cut != g_out || cut_took != stream.size() - b.length()) {
      size_t i = 0;
      while (i < cut.size() && i < g_out.size() && cut[i] == g_out[i]) i++;
      c.fail("pipe-cuts", "the same bytes, cut differently, gave %u values and %u; from value %u on: %s as opposed to %s", (unsigned) cut.size(), (unsigned) g_out.size(), (unsigned) i, i < cut.size() ? cut[i].c_str() : "nothing", i < g_out.size() ? g_out[i].c_str() : "nothing");
    }
    if (!cut.empty()) c.nontrivial();
  }
};

void run(Ctx& c) {
  size_t before;
  {
    c.now_us = 1000000;
    before = heap_in_use();
    {  Run r(c);  r.run();  }
    g_out.clear();  g_out.shrink_to_fit();
  }
  if (!c.failed()) {
    size_t after = heap_in_use();
    if (after != before) c.fail("pipe-leak", "%d bytes remain after the pipe and all that was in it are gone", (int) (after - before));
  }
}
}

Harness g_harness = {
  "P03",
  "A source of typed values, a line that cuts what it carries wherever the schedule says, and a sink of typed values which is offered what has arrived, and later the rest. Non-trivial: at least one value came out.",
  run,
  {"line cut at an arbitrary place", "no room downstream", "downstream refuses", "allocation failure in the decoder", "damaged bytes", "lost bytes", "allocation failure in the source"},
  {"several values from one push", "part of a push taken", "nothing taken of a push", "map", "nested map", "value larger than the decoder will hold", "no memory", "near and far ends joined directly", "empty string or blob", "random bytes", "vector", "binary", "integer of more than 32 bits"},
  {"C3PTypePipeSource", "C3PTypePipeSink", "C3PValue", "KeyValuePair", "C3PType", "C3PValueDecoder", "cbor::encoder", "StringBuilder"},
  {"the line between (sim)", "allocator (failing)"},
  "fragments held, bytes held, bytes taken, values given, per delivery",
  {},
  20000, 400000
};
