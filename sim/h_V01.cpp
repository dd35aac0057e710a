/* V01: a typed container holds what it last accepted, and accepts only what it can hold; a chain of them stays the chain that was built. */
#include "sb.h"
#include <memory>
#include <math.h>
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
using namespace sim;

namespace {
enum {  F_ALLOC  };
enum {  P_LOSSY, P_NARROW, P_BY_VALUE, P_NO_MEMORY, P_REAL, P_STRING, P_BLOB, P_MISFIT, P_DROP, P_UNLINK, P_REKEY, P_DUP_KEY, P_DIRTY, P_VECTOR, P_GIFT  };

const TCode NUM[] = {TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64, TCode::BOOLEAN, TCode::FLOAT, TCode::DOUBLE};
enum {  N_INT = 8, N_NUM = 11  };
uint32_t width(TCode t) {
  switch (t) {
    case TCode::INT8: case TCode::UINT8: case TCode::BOOLEAN: return 1;
    case TCode::INT16: case TCode::UINT16: return 2;
    case TCode::INT64: case TCode::UINT64: case TCode::DOUBLE: return 8;
    default: return 4;
  }
}
const char* name(TCode t) {  return typecodeToStr(t);  }
typedef long double Big;      // 64 bits of significand: all of these types, exactly.
struct Num {  TCode t = TCode::INT8;  Big v = 0;  };
bool is_int(TCode t) {  for (int i = 0; i < N_INT; i++) if (NUM[i] == t) return true;  return false;  }
bool fits(TCode t, Big v) {
  switch (t) {
    case TCode::INT8:   return v >= INT8_MIN && v <= INT8_MAX;
    case TCode::INT16:  return v >= INT16_MIN && v <= INT16_MAX;
    case TCode::INT32:  return v >= INT32_MIN && v <= INT32_MAX;
    case TCode::INT64:  return v >= (Big) INT64_MIN && v <= (Big) INT64_MAX;
    case TCode::UINT8:  return v >= 0 && v <= UINT8_MAX;
    case TCode::UINT16: return v >= 0 && v <= UINT16_MAX;
    case TCode::UINT32: return v >= 0 && v <= UINT32_MAX;
    case TCode::UINT64: return v >= 0 && v <= (Big) UINT64_MAX;
    case TCode::BOOLEAN: return v == 0 || v == 1;
    default: return true;
  }
}
Big rounded(TCode t, Big v) {
  if (t == TCode::FLOAT) {  volatile float f = (float) v;  return f;  }
  if (t == TCode::DOUBLE) {  volatile double f = (double) v;  return f;  }
  if (t == TCode::BOOLEAN) return v != 0;
  return v;
}
/* The number, as the bytes of its type. */
void put(TCode t, Big v, uint8_t* b) {
  switch (t) {
    case TCode::INT8:   {  int8_t x = (int8_t) v;  memcpy(b, &x, 1);  break;  }
    case TCode::INT16:  {  int16_t x = (int16_t) v;  memcpy(b, &x, 2);  break;  }
    case TCode::INT32:  {  int32_t x = (int32_t) v;  memcpy(b, &x, 4);  break;  }
    case TCode::INT64:  {  int64_t x = (int64_t) v;  memcpy(b, &x, 8);  break;  }
    case TCode::UINT8:  {  uint8_t x = (uint8_t) v;  memcpy(b, &x, 1);  break;  }
    case TCode::UINT16: {  uint16_t x = (uint16_t) v;  memcpy(b, &x, 2);  break;  }
    case TCode::UINT32: {  uint32_t x = (uint32_t) v;  memcpy(b, &x, 4);  break;  }
    case TCode::UINT64: {  uint64_t x = (uint64_t) v;  memcpy(b, &x, 8);  break;  }
    case TCode::BOOLEAN: {  bool x = v != 0;  memcpy(b, &x, 1);  break;  }
    case TCode::FLOAT:  {  float x = (float) v;  memcpy(b, &x, 4);  break;  }
    default:            {  double x = (double) v;  memcpy(b, &x, 8);  break;  }
  }
}
Big take(TCode t, const uint8_t* b) {
  switch (t) {
    case TCode::INT8:   {  int8_t x;  memcpy(&x, b, 1);  return x;  }
    case TCode::INT16:  {  int16_t x;  memcpy(&x, b, 2);  return x;  }
    case TCode::INT32:  {  int32_t x;  memcpy(&x, b, 4);  return x;  }
    case TCode::INT64:  {  int64_t x;  memcpy(&x, b, 8);  return x;  }
    case TCode::UINT8:  return *b;
    case TCode::UINT16: {  uint16_t x;  memcpy(&x, b, 2);  return x;  }
    case TCode::UINT32: {  uint32_t x;  memcpy(&x, b, 4);  return x;  }
    case TCode::UINT64: {  uint64_t x;  memcpy(&x, b, 8);  return x;  }
    case TCode::BOOLEAN: return *b;
    case TCode::FLOAT:  {  float x;  memcpy(&x, b, 4);  return x;  }
    default:            {  double x;  memcpy(&x, b, 8);  return x;  }
  }
}

static const std::string LONG = std::string(8, 'q') + "/a path that goes on for rather longer than any buffer of a sensible size would hold/" + std::string(200, 'p');
static const std::string L1 = LONG + "1", L2 = LONG + "2", L3 = LONG.substr(0, 40), L4 = LONG.substr(0, 39) + "x";
struct Run {
  Ctx& c;
  Run(Ctx& x) : c(x) {}
  void arm() {  if (c.chance(1, 12)) {  g_malloc_fail_in = c.draw(3);  g_malloc_fail_sticky = c.chance(1, 2);  }  }
  bool disarm() {
    bool d = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (d) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    return d;
  }
  Big number(TCode t) {
    if (t == TCode::BOOLEAN) return c.draw(2);
    if (t == TCode::FLOAT || t == TCode::DOUBLE) {
      c.probe(P_REAL);
      Big v = (Big) (int32_t) (c.draw(200000) - 100000) / (c.chance(1, 2) ? 1 : 64);
      if (c.chance(1, 4)) v *= 1048576.0L * 1048576.0L;
      return rounded(t, v);
    }
    static const uint64_t edge[] = {0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65535, 65536, 65537, 0x7ffffffeULL, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL, 0x100000080ULL, 0x1000000ffULL, 0x7ffffffffffffffeULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL};
    Big v = (Big) edge[c.draw(sizeof edge / sizeof *edge)];
    if (c.chance(1, 3)) v = -v;
    if (!fits(t, v)) v = (Big) c.draw(100);
    return v;
  }
  std::unique_ptr<C3PValue> box(TCode t, Big v, bool keyed) {
    uint8_t b[8];
    put(t, v, b);
#define BOX(T)  {  T x;  memcpy(&x, b, sizeof x);  C3PValue* p = keyed ? (C3PValue*) new KeyValuePair("k", x) : new C3PValue(x);  return std::unique_ptr<C3PValue>(p);  }
    switch (t) {
      case TCode::INT8: BOX(int8_t)
      case TCode::INT16: BOX(int16_t)
      case TCode::INT32: BOX(int32_t)
      case TCode::INT64: BOX(int64_t)
      case TCode::UINT8: BOX(uint8_t)
      case TCode::UINT16: BOX(uint16_t)
      case TCode::UINT32: BOX(uint32_t)
      case TCode::UINT64: BOX(uint64_t)
      case TCode::BOOLEAN: BOX(bool)
      case TCode::FLOAT: BOX(float)
      default: BOX(double)
    }
  }
  int8_t set(C3PValue* p, TCode t, Big v) {
    uint8_t b[8];
    put(t, v, b);
#define SET(T)  {  T x;  memcpy(&x, b, sizeof x);  return p->set(x);  }
    switch (t) {
      case TCode::INT8: SET(int8_t)
      case TCode::INT16: SET(int16_t)
      case TCode::INT32: SET(int32_t)
      case TCode::INT64: SET(int64_t)
      case TCode::UINT8: SET(uint8_t)
      case TCode::UINT16: SET(uint16_t)
      case TCode::UINT32: SET(uint32_t)
      case TCode::UINT64: SET(uint64_t)
      case TCode::BOOLEAN: SET(bool)
      case TCode::FLOAT: SET(float)
      default: SET(double)
    }
  }
  bool read(C3PValue* p, TCode t, Big* out) {
    uint8_t b[16];
    memset(b, 0x5a, sizeof b);
    int8_t r = p->get_as(t, b);
    for (unsigned i = width(t); i < sizeof b; i++) if (b[i] != 0x5a) {  c.fail("value-overrun", "reading a %s as %s wrote more than %u bytes", name(p->tcode()), name(t), width(t));  return false;  }
    if (r < 0) {
      for (unsigned i = 0; i < width(t); i++) if (b[i] != 0x5a) {  c.fail("value-refused", "a read of a %s as %s was refused, and wrote", name(p->tcode()), name(t));  return false;  }
      return false;
    }
    *out = take(t, b);
    return true;
  }
  void cell() {
    TCode t = NUM[c.draw(N_NUM)];
    bool keyed = c.chance(1, 2);
    Big m = number(t);
    bool empty = c.chance(1, 8);
    if (empty) m = 0;
    arm();
    std::unique_ptr<C3PValue> p = empty ? std::unique_ptr<C3PValue>(keyed ? new KeyValuePair(t, "k") : new C3PValue(t)) : box(t, m, keyed);
    bool starved = disarm();
    bool dead = p->memError();
    if (dead && !starved) {  c.fail("value-memory", "a fresh %s complains of memory, of which there is enough", name(t));  return;  }
    if (starved && !dead) {  c.fail("value-memory", "a %s was made without its memory, and does not say so", name(t));  return;  }
    uint16_t mark = p->trace();
    bool changed = false;
    c.ev("a%s %s of %Lg%s", keyed ? " keyed" : "", name(t), m, dead ? ", without memory" : "");
    c.plan_ops(6 + c.draw(30));
    while (c.next_op() && !c.failed()) {
      c.step();
      TCode s = NUM[c.draw(N_NUM)];
      switch (c.draw(4)) {
        case 0: case 1: {
          Big v = number(s);
          bool by_value = c.chance(1, 3);
          int8_t r;
          if (by_value) {  std::unique_ptr<C3PValue> o = box(s, v, c.chance(1, 3));  r = p->set(o.get());  c.probe(P_BY_VALUE);  }
          else r = set(p.get(), s, v);
          c.ev("set %s of %Lg into %s: %d", name(s), v, name(t), r);
          if (dead) {  if (r == 0) c.fail("value-memory", "a %s without memory accepted a value", name(t));  break;  }
          bool ok = is_int(s) || s == TCode::BOOLEAN ? fits(t, v) || t == TCode::BOOLEAN : false;
          if (s == t) ok = true;
          if (r == 0) {
            if ((is_int(t)) && !fits(t, v)) {  c.fail("value-lossy", "%Lg, a %s, was accepted by a %s", v, name(s), name(t));  break;  }
            if (is_int(t) && v != floorl(v)) {  c.fail("value-lossy", "%Lg, a %s, was accepted by a %s", v, name(s), name(t));  break;  }
            m = rounded(t, v);
            changed = true;
            c.nontrivial();
            if (width(t) < width(s)) c.probe(P_NARROW);
          }
          else {
            if (ok && (is_int(t) || t == TCode::BOOLEAN || s == t)) c.fail("value-refused", "%Lg, a %s, was refused by a %s, which can hold it", v, name(s), name(t));
            c.probe(P_LOSSY);
          }
          break;
        }
        case 2: {
          Big v = 0;
          bool got = read(p.get(), s, &v);
          c.ev("get %s as %s: %s %Lg", name(t), name(s), got ? "yes" : "no", v);
          if (c.failed()) break;
          if (dead) {  if (got) c.fail("value-memory", "a %s without memory gave a value", name(t));  break;  }
          if (got) {
            if (is_int(s) && !fits(s, m)) {  c.fail("value-lossy", "%Lg, of a %s, was read as a %s", m, name(t), name(s));  break;  }
            Big e = rounded(s, m);
            if (v != e) c.fail("value-read", "%Lg, of a %s, reads as %Lg as a %s", m, name(t), v, name(s));
          }
          else if (s == t || (is_int(t) && is_int(s) && fits(s, m))) c.fail("value-refused", "%Lg, of a %s, could not be read as a %s", m, name(t), name(s));
          break;
        }
        case 3: {
          if (c.chance(1, 3)) {
            bool d = p->dirty(&mark);
            if (d != changed) c.fail("value-dirty", "the container was %s since it was last asked, and says that it was%s", changed ? "set" : "not set", d ? "" : " not");
            if (d) c.probe(P_DIRTY);
            changed = false;
            break;
          }
          if (dead) {
            int8_t ok = 1;
            p->get_as_int64(&ok);
            if (ok == 1) c.fail("value-memory", "a %s without memory gave a value", name(t));
            break;
          }
          int8_t ok = 0;
          if (c.chance(1, 4)) {
            bool b = p->get_as_bool(&ok);
            if (b != (m != 0)) c.fail("value-read", "%Lg, of a %s, reads as %s", m, name(t), b ? "true" : "false");
            break;
          }
          Big v, e = m;
          TCode as;
          switch (c.draw(6)) {
            case 0: as = TCode::UINT32;  v = p->get_as_uint(&ok);  break;
            case 1: as = TCode::INT32;   v = p->get_as_int(&ok);  break;
            case 2: as = TCode::UINT64;  v = p->get_as_uint64(&ok);  break;
            case 3: as = TCode::INT64;   v = p->get_as_int64(&ok);  break;
            case 4: as = TCode::FLOAT;   v = p->get_as_float(&ok);  break;
            default: as = TCode::DOUBLE; v = p->get_as_double(&ok);  break;
          }
          if (ok == 1) {
            if (is_int(as) && !fits(as, m)) c.fail("value-lossy", "%Lg, of a %s, was read as a %s", m, name(t), name(as));
            else if (v != (e = rounded(as, m))) c.fail("value-read", "%Lg, of a %s, reads as %Lg as a %s", m, name(t), v, name(as));
          }
          else if (v != 0) c.fail("value-read", "a refused read of a %s gave %Lg", name(t), v);
          else if (as == t || (is_int(t) && is_int(as) && fits(as, m))) c.fail("value-refused", "%Lg, of a %s, could not be read as a %s", m, name(t), name(as));
          break;
        }
      }
      if (c.failed()) break;
      // Refused or not, it holds what it should.
      Big v = 0;
      if (!dead && (!read(p.get(), t, &v) || v != m)) c.fail("value-held", "the %s holds %Lg rather than %Lg", name(t), v, m);
      c.state(hash64(hash64((uint64_t) t, (uint64_t) s), hash64(m < 0, dead)));
    }
  }
  /* Strings, builders and blobs: held by reference. */
  void refs() {
    static char words[6][12] = {"alpha", "", "x", "beta gamma", "delta", "zeta"};
    static uint8_t blobs[3][8] = {{1, 2, 3}, {0}, {255, 254, 0, 7, 9}};
    static const uint32_t blob_len[3] = {3, 1, 5};
    uint32_t kind = c.draw(3);         // String, builder, blob.
    bool keyed = c.chance(1, 2);
    uint32_t cur = c.draw(kind == 2 ? 3 : 6);
    StringBuilder sbs[6];
    for (int i = 0; i < 6; i++) if (words[i][0]) sbs[i].concat(words[i]);
    std::unique_ptr<C3PValue> p;
    arm();
    switch (kind) {
      case 0: p.reset(keyed ? (C3PValue*) new KeyValuePair("k", (const char*) words[cur]) : new C3PValue((const char*) words[cur]));  break;
      case 1: p.reset(keyed ? (C3PValue*) new KeyValuePair("k", &sbs[cur]) : new C3PValue(&sbs[cur]));  break;
      case 2: p.reset(keyed ? (C3PValue*) new KeyValuePair("k", blobs[cur], blob_len[cur]) : new C3PValue(blobs[cur], blob_len[cur]));  break;
    }
    bool starved = disarm(), dead = p->memError();
    if (kind == 2 && !dead && c.chance(1, 4)) {
      C3PValue none(TCode::BINARY);
      uint8_t* b = (uint8_t*) &none;  uint32_t n = 7;
      if (none.length() != 0 || none.get_as(&b, &n) != 0 || b != nullptr || n != 0) {  c.fail("value-empty", "a blob that was never set holds %u bytes", n);  return;  }
    }
    if (starved != dead) {  c.fail("value-memory", "the memory ran %s, and the container says otherwise", starved ? "out" : "not out");  return;  }
    void* held = nullptr;
    c.probe(kind == 2 ? P_BLOB : P_STRING);
    c.ev("a%s %s%s", keyed ? " keyed" : "", name(p->tcode()), dead ? " without memory" : "");
    c.plan_ops(4 + c.draw(12));
    while (c.next_op() && !c.failed()) {
      c.step();
      uint32_t nu = c.draw(kind == 2 ? 3 : 6);
      if (c.chance(1, 4)) {
        // What does not fit is refused.
        c.probe(P_MISFIT);
        int8_t r = 0;
        uint32_t how = c.draw(4);
        uint8_t* b = nullptr;  uint32_t n = 0;
        switch (how) {
          case 0: r = p->set((int32_t) 77);  break;
          case 1: r = kind == 0 ? p->set(1.5f) : p->set((const char*) words[nu]);  break;
          case 2: if (kind == 2) continue;  r = p->set(blobs[0], 3);  break;
          case 3: if (kind == 2) continue;  r = p->get_as(&b, &n);  break;
        }
        c.ev("misfit %u: %d", how, r);
        if (r == 0) {  c.fail("value-misfit", "a %s %s something that is not one (%u)", name(p->tcode()), how == 3 ? "gave" : "accepted", how);  break;  }
      }
      else {
        int8_t r;
        bool by = c.chance(1, 2);
        void* gift = nullptr;          // Is to be released by the container.
        if (c.chance(1, 4)) {
          by = false;
          switch (kind) {
            case 0: {  char* s = strdup(words[nu]);  gift = s;  r = p->set(s);  break;  }
            case 1: {  StringBuilder* s = new StringBuilder();  if (words[nu][0]) s->concat(words[nu]);  gift = s;  r = p->set(s);  break;  }
            default: {  uint8_t* b = (uint8_t*) malloc(blob_len[nu]);  memcpy(b, blobs[nu], blob_len[nu]);  gift = b;  r = p->set(b, blob_len[nu]);  break;  }
          }
          if (r == 0) {  p->reapValue(true);  c.probe(P_GIFT);  }
          else if (kind == 1) delete (StringBuilder*) gift;
          else free(gift);
        }
        else switch (kind) {
          case 0:
            if (by) {  C3PValue o((const char*) words[nu]);  r = p->set(&o);  }
            else r = c.chance(1, 2) ? p->set((const char*) words[nu]) : p->set(words[nu]);
            break;
          case 1:
            if (by) {  C3PValue o(&sbs[nu]);  r = p->set(&o);  }
            else r = p->set(&sbs[nu]);
            break;
          default:
            if (by) {  C3PValue o(blobs[nu], blob_len[nu]);  r = p->set(&o);  }
            else r = p->set(blobs[nu], blob_len[nu]);
            break;
        }
        c.ev("set %u%s: %d", nu, by ? " by value" : "", r);
        if (dead) {  if (r == 0) c.fail("value-memory", "a container without memory accepted a value");  break;  }
        if (r == 0) {  cur = nu;  held = gift;  c.nontrivial();  }
        else {  c.fail("value-refused", "a %s refused another", name(p->tcode()));  break;  }
      }
      if (dead) continue;
      // What it holds.
      if (kind == 0) {
        char* s = nullptr;
        if (p->get_as(&s) < 0 || s == nullptr || strcmp(s, words[cur])) c.fail("value-held", "the string held is not [%s]", words[cur]);
        else if (p->length() != strlen(words[cur]) + 1) c.fail("value-length", "the string [%s] has a length of %u", words[cur], p->length());
      }
      else if (kind == 1) {
        StringBuilder* s = nullptr;
        if (p->get_as(&s) < 0 || s != (held ? (StringBuilder*) held : &sbs[cur])) c.fail("value-held", "the builder held is not the one that was set");
        else if (p->length() != (uint32_t) sbs[cur].length()) c.fail("value-length", "the builder [%s] has a length of %u", words[cur], p->length());
      }
      else {
        uint8_t* b = nullptr;  uint32_t n = 0;
        if (p->get_as(&b, &n) < 0 || b != (held ? (uint8_t*) held : blobs[cur]) || n != blob_len[cur]) c.fail("value-held", "the blob held is not the one that was set");
        else if (p->length() != n) c.fail("value-length", "the blob of %u has a length of %u", n, p->length());
      }
      StringBuilder txt;
      p->toString(&txt);
      std::string printed;
      for (int i = 0, n = txt.count(); i < n; i++) {
        int len = -1;
        uint8_t* f = txt.position(i, &len);
        if (len > 0) printed.append((const char*) f, len);
      }
      if (kind != 2 && printed != words[cur]) c.fail("value-print", "[%s] prints as [%s]", words[cur], sb::show(printed).c_str());
      c.state(hash64(kind, cur));
    }
  }
  /* Vectors, held by value. */
  template <typename V, typename N> void vec(V*, N*, TCode t) {
    auto some = [&]() {  V v;  v.x = (N) number(tn<N>());  v.y = (N) number(tn<N>());  v.z = (N) number(tn<N>());  return v;  };
    auto same = [](const V& a, const V& b) {  return a.x == b.x && a.y == b.y && a.z == b.z;  };
    V m = some();
    bool keyed = c.chance(1, 2);
    V init = m;
    arm();
    std::unique_ptr<C3PValue> p(keyed ? new KeyValuePair("k", &init) : new C3PValue(&init));
    bool starved = disarm(), dead = p->memError();
    init.x = init.y = init.z = 0;
    if (starved != dead) {  c.fail("value-memory", "the memory ran %s, and the container says otherwise", starved ? "out" : "not out");  return;  }
    c.probe(P_VECTOR);
    c.ev("a%s %s%s", keyed ? " keyed" : "", name(t), dead ? " without memory" : "");
    c.plan_ops(3 + c.draw(10));
    while (c.next_op() && !c.failed()) {
      c.step();
      int8_t r = 0;
      bool accepted = true;
      switch (c.draw(4)) {
        case 0: {  V v = some();  r = p->set(&v);  if (r == 0) m = v;  break;  }
        case 1: {  V v = some();  C3PValue o(&v);  r = p->set(&o);  if (r == 0) m = v;  break;  }
        case 2: {
          accepted = false;
          if (p->set((int8_t) 3) == 0 || p->set((const char*) "no") == 0 || p->get_as_int64(&r), r == 1) c.fail("value-misfit", "a %s dealt in something else", name(t));
          Vector3<int8_t> a;  Vector3<uint16_t> b;
          if ((t != TCode::VECT_3_INT8 && p->get_as(&a) == 0) || (t != TCode::VECT_3_UINT16 && p->get_as(&b) == 0)) c.fail("value-misfit", "a %s was read as another kind of vector", name(t));
          break;
        }
        case 3: {
          accepted = false;
          StringBuilder txt;
          p->toString(&txt);
          if (!dead && txt.length() == 0) c.fail("value-print", "a %s does not print", name(t));
          break;
        }
      }
      if (c.failed()) break;
      c.ev("%g %g %g", (double) m.x, (double) m.y, (double) m.z);
      if (accepted && (r != 0) != dead) {  c.fail("value-refused", "a %s %s memory returned %d", name(t), dead ? "without" : "with", r);  break;  }
      V got;
      got.x = got.y = got.z = 0;
      r = p->get_as(&got);
      if ((r != 0) != dead) c.fail("value-refused", "a %s %s memory returned %d", name(t), dead ? "without" : "with", r);
      else if (!dead && !same(got, m)) c.fail("value-held", "the %s holds another vector", name(t));
      if (!dead) c.nontrivial();
      c.state(hash64(hash64(7, (uint64_t) t), dead));
    }
  }
  template <typename N> static TCode tn() {  return tcodeForType((N) 0);  }
  void vectors() {
    switch (c.draw(8)) {
      case 0: vec((Vector3u32*) 0, (uint32_t*) 0, TCode::VECT_3_UINT32);  break;
      case 1: vec((Vector3u16*) 0, (uint16_t*) 0, TCode::VECT_3_UINT16);  break;
      case 2: vec((Vector3u8*) 0, (uint8_t*) 0, TCode::VECT_3_UINT8);  break;
      case 3: vec((Vector3i32*) 0, (int32_t*) 0, TCode::VECT_3_INT32);  break;
      case 4: vec((Vector3i16*) 0, (int16_t*) 0, TCode::VECT_3_INT16);  break;
      case 5: vec((Vector3i8*) 0, (int8_t*) 0, TCode::VECT_3_INT8);  break;
      case 6: vec((Vector3f*) 0, (float*) 0, TCode::VECT_3_FLOAT);  break;
      default: vec((Vector3f64*) 0, (double*) 0, TCode::VECT_3_DOUBLE);  break;
    }
  }
  /* Chains. */
  struct Link {  std::string key;  Big v;  TCode t;  KeyValuePair* p;  };
  void chain() {
    std::vector<Link> m;
    static const char* const KEYS[] = {"a", "b", "key", "another", "b2", "c", "KEY", "k\xe4y", "keys", "ke", L1.c_str(), L2.c_str(), L3.c_str(), L4.c_str()};
    const uint32_t N_KEYS = sizeof(KEYS) / sizeof(KEYS[0]), FEW = c.chance(1, 2) ? 6 : N_KEYS;
    auto fresh = [&](Link& l) {
      l.key = KEYS[c.draw(FEW)];
      l.t = NUM[c.draw(N_INT)];
      l.v = number(l.t);
      char mut[400];
      strcpy(mut, l.key.c_str());
      bool own = c.chance(1, 2);
      uint8_t b[8];
      put(l.t, l.v, b);
      const char* ck = KEYS[0];
      for (auto k : KEYS) if (l.key == k) ck = k;
#define MK(T)  {  T x;  memcpy(&x, b, sizeof x);  l.p = own ? new KeyValuePair(mut, x) : new KeyValuePair(ck, x);  break;  }
      switch (l.t) {
        case TCode::INT8: MK(int8_t)
        case TCode::INT16: MK(int16_t)
        case TCode::INT32: MK(int32_t)
        case TCode::INT64: MK(int64_t)
        case TCode::UINT8: MK(uint8_t)
        case TCode::UINT16: MK(uint16_t)
        case TCode::UINT32: MK(uint32_t)
        default: MK(uint64_t)
      }
      memset(mut, 'z', sizeof(mut) - 1);
    };
    Link first;
    fresh(first);
    m.push_back(first);
    C3PValue* root = first.p;
    root->reapContainer(true);
    c.plan_ops(8 + c.draw(40));
    while (c.next_op() && !c.failed()) {
      c.step();
      uint32_t i = c.draw(m.size());
      switch (c.draw(8)) {
        case 0: case 1: case 2: {
          Link l;
          fresh(l);
          for (auto& o : m) if (o.key == l.key) c.probe(P_DUP_KEY);
          C3PValue* at = m[i].p;         // Anywhere in the chain will do.
          if (at->link(l.p) != l.p) c.fail("chain-link", "link() did not return what was linked");
          m.push_back(l);
          c.ev("link %s=%Lg at %u", l.key.c_str(), l.v, i);
          c.nontrivial();
          break;
        }
        case 3: {
          if (m.size() < 2) break;
          bool kill = c.chance(1, 2);
          C3PValue* was = m[i].p;
          int8_t r = root->drop(&root, was, kill);
          c.ev("drop %u%s: %d", i, kill ? ", destroyed" : "", r);
          if (r != 0) {  c.fail("chain-drop", "a member of the chain could not be dropped: %d", r);  break;  }
          m.erase(m.begin() + i);
          c.probe(P_DROP);
          if (!kill) {
            if (was->nextValue()) c.fail("chain-drop", "what was dropped drags %u others along", was->count() - 1);
            delete was;
          }
          break;
        }
        case 4: {
          if (i == 0) break;
          bool kill = c.chance(1, 2);
          C3PValue* was = m[i].p;
          int8_t r = root->unlink(was, kill);
          c.ev("unlink from %u%s: %d", i, kill ? ", destroyed" : "", r);
          if (r != 0) {  c.fail("chain-unlink", "a member of the chain could not be unlinked: %d", r);  break;  }
          if (!kill) {
            if (was->count() != m.size() - i) c.fail("chain-unlink", "the part unlinked has %u members rather than %u", was->count(), (unsigned) (m.size() - i));
            delete was;
          }
          m.resize(i);
          c.probe(P_UNLINK);
          break;
        }
        case 5: {
          const char* k = KEYS[c.draw(FEW)];
          char mut[400];
          strcpy(mut, k);
          bool own = c.chance(1, 2);
          if (own) arm();
          int8_t r = own ? m[i].p->setKey(mut) : m[i].p->setKey(k);
          bool starved = disarm();
          memset(mut, 'z', sizeof(mut) - 1);
          c.ev("key of %u to %s: %d", i, k, r);
          c.probe(P_REKEY);
          if (starved != (r != 0)) c.fail("chain-key", "the memory for a key ran %s, and setKey() returned %d", starved ? "out" : "not out", r);
          if (r == 0) m[i].key = k;
          break;
        }
        case 6: {
          Big v = number(m[i].t);
          int8_t r = set(m[i].p, m[i].t, v);
          if (r == 0) m[i].v = v;  else c.fail("value-refused", "a member refused its own type");
          break;
        }
        case 7: {
          C3PValue stray((uint8_t) 1);
          if (root->drop(&root, &stray) >= 0 || root->unlink(&stray) >= 0) c.fail("chain-drop", "a stranger was dropped from the chain");
          break;
        }
      }
      if (c.failed()) break;
      // The whole of the chain, each time.
      if (root != m[0].p) {  c.fail("chain-root", "the root is not the first of the chain");  break;  }
      if (root->count() != m.size()) {  c.fail("chain-count", "the chain has %u members rather than %u", root->count(), (unsigned) m.size());  break;  }
      StringBuilder keys;
      if (((KeyValuePair*) root)->collectKeys(&keys) != (int) m.size()) c.fail("chain-keys", "collectKeys() did not find them all");
      for (size_t j = 0; j < m.size() && !c.failed(); j++) {
        if (root->valueWithIdx(j) != m[j].p) {  c.fail("chain-index", "member %u is not in its place", (unsigned) j);  break;  }
        char* k = m[j].p->getKey();
        if (!k || m[j].key != k) {  c.fail("chain-key", "the key of member %u is [%s] rather than [%s]", (unsigned) j, k ? k : "null", m[j].key.c_str());  break;  }
        size_t f = 0;
        while (m[f].key != m[j].key) f++;
        if (((KeyValuePair*) root)->valueWithKey(k) != m[f].p) {  c.fail("chain-find", "[%s] does not find the first of that name", k);  break;  }
        Big v = 0;
        if (!read(m[j].p, m[j].t, &v) || v != m[j].v) {  c.fail("value-held", "member %u holds %Lg rather than %Lg", (unsigned) j, v, m[j].v);  break;  }
        uint8_t b[8];
        if (root->valueWithIdx(j, b) != 0 || take(m[j].t, b) != m[j].v) c.fail("chain-index", "member %u did not give its value by index", (unsigned) j);
      }
      if (!c.failed() && (root->valueWithIdx(m.size()) || ((KeyValuePair*) root)->valueWithKey("absent"))) c.fail("chain-find", "something was found that is not there");
      for (uint32_t j = 0; j < N_KEYS && !c.failed(); j++) {
        bool here = false;
        for (auto& o : m) here |= (o.key == KEYS[j]);
        if (!here && ((KeyValuePair*) root)->valueWithKey(KEYS[j])) c.fail("chain-find", "[%s] was found, and is not there", KEYS[j]);
      }
      c.state(hash64(99, m.size()));
    }
    if (!c.failed()) delete root;
  }
};

void run(Ctx& c) {
  c.now_us = 1000000;
  size_t before = heap_in_use();
  {
    Run r(c);
    switch (c.draw(7)) {
      case 0: case 1: r.cell();  break;
      case 2: case 3: r.refs();  break;
      case 4: r.vectors();  break;
      default: r.chain();  break;
    }
  }
  if (!c.failed()) {
    size_t after = heap_in_use();
    if (after != before) c.fail("value-leak", "%d bytes remain after the containers are gone", (int) (after - before));
  }
}
}

Harness g_harness = {
  "V01",
  "One container, or a chain of containers with keys, under a random history of typed writes, reads, links, drops, and changes of key; compared with a model after each. Non-trivial: a write was accepted, or a link made.",
  run,
  {"allocation failure"},
  {"value refused", "value narrowed", "set from another container", "container without memory", "real number", "string or builder", "blob", "misfit operation", "drop", "unlink", "key replaced", "duplicate key", "found dirty", "vector", "value given away"},
  {"C3PValue", "KeyValuePair", "C3PType", "StringBuilder"},
  {"allocator (failing)"},
  "container type x type of the operation x sign x memory; chain length",
  {},
  20000, 400000
};
