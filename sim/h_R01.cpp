/* R01: what was saved loads back; anything else is refused, and changes nothing. */
#include "sb.h"
#include <map>
#include <memory>
#include "Storage/Storage.h"
#include "Storage/RecordTypes/ConfRecord.h"
using namespace sim;

namespace {
enum {  F_TORN, F_ROT, F_SHORT, F_CRASH, F_ALLOC, F_SERIALIZER, F_STALE  };
enum {  P_LOADED, P_REFUSED, P_DAMAGED_REFUSED, P_DAMAGED_ACCEPTED, P_MIGRATED, P_WRONG_TAG, P_WRONG_TYPE, P_PADDED, P_FRAGMENTS, P_RAW, P_LONG_NAME, P_DIRTY, P_CLEAN, P_UNSET, P_NO_MEMORY, P_MISFIT, P_RELOAD  };

enum class K : uint8_t {  U8, U16, U32, U64, I8, I16, I32, I64, F, D, B, S, V, S2, TYPE, EXTRA, INVALID  };
#define D_(k, n, t)  {K::k, n, 0, (uint8_t) TCode::t}
const EnumDef<K> LIST_A[] = {
  D_(U8, "u8", UINT8), D_(U16, "width", UINT16), D_(U32, "u32", UINT32), D_(U64, "a rather longer key than most of them", UINT64), D_(I8, "i8", INT8), D_(I16, "i16", INT16),
  D_(I32, "i32", INT32), D_(I64, "i64", INT64), D_(F, "f", FLOAT), D_(D, "d", DOUBLE), D_(B, "on", BOOLEAN), D_(S, "name", STR), D_(V, "v", VECT_3_FLOAT), D_(S2, "other name", STR),
  {K::INVALID, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE}
};
// A later version of the program.
const EnumDef<K> LIST_B[] = {
  D_(S, "name", STR), D_(TYPE, "type", STR), D_(U32, "u32", UINT32), D_(I64, "i64", INT64), D_(EXTRA, "extra", UINT16), D_(B, "on", BOOLEAN), D_(V, "v", VECT_3_FLOAT), D_(D, "d", DOUBLE),
  {K::INVALID, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE}
};
const EnumDefList<K> DEFS[2] = {EnumDefList<K>(LIST_A, sizeof(LIST_A) / sizeof(LIST_A[0]), "Conf"), EnumDefList<K>(LIST_B, sizeof(LIST_B) / sizeof(LIST_B[0]), "Conf")};

struct Val {
  TCode t;
  std::string bytes;                   // As in memory; or the characters of the string.
  bool unset = false;
  bool operator==(const Val& o) const {  return t == o.t && bytes == o.bytes && unset == o.unset;  }
};
typedef std::map<std::string, Val> Vals;
uint32_t width(TCode t) {
  switch (t) {
    case TCode::INT8: case TCode::UINT8: case TCode::BOOLEAN: return 1;
    case TCode::INT16: case TCode::UINT16: return 2;
    case TCode::INT64: case TCode::UINT64: case TCode::DOUBLE: return 8;
    case TCode::VECT_3_FLOAT: return 12;
    default: return 4;
  }
}

class Blob : public SimpleDataRecord {
  public:
    Blob() : SimpleDataRecord(0, StorageRecordType::LOG) {}
    std::string data;
    bool refuse = false;
    int8_t serialize(StringBuilder* o, TCode) override {  if (refuse) return -1;  int n = o->length();  o->concat((uint8_t*) data.data(), data.size());  return o->length() == n + (int) data.size() ? 0 : -1;  }
    int8_t deserialize(StringBuilder* i, TCode) override {
      if (refuse) return -1;
      data.assign((const char*) i->string(), i->length());
      return 0;
    }
};
class Conf : public ConfRecordValidation<K> {
  public:
    Conf(int which) : ConfRecordValidation<K>(0, &DEFS[which]) {}
};

enum {  CONF_A, CONF_B, BLOB  };
const size_t HEADER = 40;
struct Image {  int kind;  uint32_t tag;  std::string bytes;  Vals vals;  std::string data;  };
struct Slot {  std::string bytes;  std::vector<Image> wrote;  bool intact = false;  };

struct Run {
  Ctx& c;
  int kind = CONF_A;
  Conf* conf = nullptr;
  Blob* blob = nullptr;
  Vals vals;                            // What is in the record.
  std::string data;
  bool known = false;                   // What was last saved or loaded is:
  int saved_kind = 0;  Vals saved;  std::string saved_data;
  bool loaded = false;
  std::string name;
  std::vector<Slot> slots;
  std::vector<std::unique_ptr<std::string>> strings;
  size_t sector = 32;
  Run(Ctx& x) : c(x) {}

  SimpleDataRecord* rec() {  return kind == BLOB ? (SimpleDataRecord*) blob : (SimpleDataRecord*) conf;  }
  void start(int k) {
    kind = k;
    vals.clear();  data.clear();  known = false;  loaded = false;  name.clear();
    if (k == BLOB) {  blob = new Blob();  blob->data = data = "empty";  return;  }
    conf = new Conf(k);
    conf->allocated(true);
    for (uint32_t i = 0; i < DEFS[k].COUNT; i++) {
      const EnumDef<K>& d = DEFS[k].LIST_PTR[i];
      if (d.VAL == K::INVALID) continue;
      Val v;
      v.t = (TCode) d.CONTEXT;
      if (v.t == TCode::STR) v.unset = true;
      else v.bytes.assign(width(v.t), 0);
      vals[d.STR] = v;
    }
    if (conf->keyCount() != vals.size()) c.fail("record-keys", "the record has %u keys rather than %u", conf->keyCount(), (unsigned) vals.size());
  }
  void stop() {  delete conf;  conf = nullptr;  delete blob;  blob = nullptr;  }

  Vals actual() {
    Vals a;
    for (auto& e : vals) {
      Val v;
      v.t = e.second.t;
      uint8_t b[16] = {0};
      int8_t r = -1;
      const char* k = e.first.c_str();
      switch (v.t) {
        case TCode::UINT8: r = conf->ConfRecord::getConf(k, (uint8_t*) b);  break;
        case TCode::UINT16: r = conf->ConfRecord::getConf(k, (uint16_t*) b);  break;
        case TCode::UINT32: r = conf->ConfRecord::getConf(k, (uint32_t*) b);  break;
        case TCode::UINT64: r = conf->ConfRecord::getConf(k, (uint64_t*) b);  break;
        case TCode::INT8: r = conf->ConfRecord::getConf(k, (int8_t*) b);  break;
        case TCode::INT16: r = conf->ConfRecord::getConf(k, (int16_t*) b);  break;
        case TCode::INT32: r = conf->ConfRecord::getConf(k, (int32_t*) b);  break;
        case TCode::INT64: r = conf->ConfRecord::getConf(k, (int64_t*) b);  break;
        case TCode::FLOAT: r = conf->ConfRecord::getConf(k, (float*) b);  break;
        case TCode::DOUBLE: r = conf->ConfRecord::getConf(k, (double*) b);  break;
        case TCode::BOOLEAN: r = conf->ConfRecord::getConf(k, (bool*) b);  break;
        case TCode::VECT_3_FLOAT: {  Vector3f x;  r = conf->ConfRecord::getConf(k, &x);  memcpy(b, &x.x, 4);  memcpy(b + 4, &x.y, 4);  memcpy(b + 8, &x.z, 4);  break;  }
        default: {
          char* s = nullptr;
          r = conf->ConfRecord::getConf(k, &s);
          if (s) v.bytes = s;  else v.unset = true;
        }
      }
      if (v.t != TCode::STR) v.bytes.assign((const char*) b, width(v.t));
      if (r != 0) {  c.fail("record-read", "[%s] could not be read: %d", k, r);  break;  }
      a[e.first] = v;
    }
    return a;
  }
  void agree(const char* when) {
    if (c.failed()) return;
    if (kind == BLOB) {
      if (blob->data != data) c.fail("record-content", "after %s, the record holds something else", when);
    }
    else {
      Vals a = actual();
      if (c.failed()) return;
      for (auto& e : vals) if (!(a[e.first] == e.second)) {  c.fail("record-content", "after %s, [%s] is [%s]%s rather than [%s]%s", when, e.first.c_str(), sb::show(a[e.first].bytes).c_str(), a[e.first].unset ? " (unset)" : "", sb::show(e.second.bytes).c_str(), e.second.unset ? " (unset)" : "");  return;  }
    }
    if (rec()->wasLoaded() != loaded) {  c.fail("record-flag", "after %s, wasLoaded() is %d", when, rec()->wasLoaded());  return;  }
    if (known && saved_kind == kind) {
      bool same = kind == BLOB ? data == saved_data : vals == saved;
      c.probe(same ? P_CLEAN : P_DIRTY);
      if (rec()->isDirty() == same) c.fail("record-dirty", "after %s, a record that %s what was last saved or loaded says isDirty() is %d", when, same ? "holds" : "does not hold", same);
    }
    StringBuilder d;
    rec()->printDebug(&d);
    std::string t((const char*) d.string(), d.length()), k = "Key:\t " + name.substr(0, 16) + "\n";
    if (t.find(k) == std::string::npos) c.fail("record-name", "the record named [%s] prints as [%s]", name.c_str(), sb::show(t.substr(t.find("Key:"), 40)).c_str());
  }
  const char* keep(const std::string& s) {  strings.emplace_back(new std::string(s));  return strings.back()->c_str();  }
  void change() {
    if (kind == BLOB) {
      size_t n = c.chance(1, 2) ? data.size() : 1 + c.draw(c.chance(1, 8) ? 600 : 60);
      std::string d(n, 0);
      for (auto& ch : d) ch = (char) c.draw(c.chance(1, 2) ? 2 : 256);
      blob->data = data = d;
      c.ev("content of %u bytes", (unsigned) n);
      return;
    }
    auto it = vals.begin();
    std::advance(it, c.draw(vals.size()));
    const char* k = it->first.c_str();
    Val& v = it->second;
    int8_t r = 0;
    if (v.t != TCode::STR && v.t != TCode::VECT_3_FLOAT && c.chance(1, 6)) {
      // Something else than the key is for.
      c.probe(P_MISFIT);
      r = conf->ConfRecord::setConf(k, (const char*) "words");
      if (r == 0) c.fail("record-misfit", "[%s] was set to a string", k);
      return;
    }
    if (c.chance(1, 20)) {
      uint32_t x = 7;
      if (conf->ConfRecord::setConf("no such key", x) == 0 || conf->ConfRecord::getConf("no such key", &x) == 0) c.fail("record-misfit", "a key that is not there was written or read");
      return;
    }
    uint64_t bits = 0;
    switch (c.draw(4)) {
      case 0: bits = c.draw(3);  break;
      case 1: bits = (uint64_t) 0 - 1 - c.draw(3);  break;
      case 2: bits = ((uint64_t) 1 << (7 + 8 * c.draw(8))) - c.draw(3);  break;
      default: for (int i = 0; i < 4; i++) bits = bits << 16 | c.draw(65536);  break;
    }
#define SET(T)  {  T x = (T) bits;  r = conf->ConfRecord::setConf(k, x);  v.bytes.assign((const char*) &x, sizeof x);  break;  }
    switch (v.t) {
      case TCode::UINT8: SET(uint8_t)
      case TCode::UINT16: SET(uint16_t)
      case TCode::UINT32: SET(uint32_t)
      case TCode::UINT64: SET(uint64_t)
      case TCode::INT8: SET(int8_t)
      case TCode::INT16: SET(int16_t)
      case TCode::INT32: SET(int32_t)
      case TCode::INT64: SET(int64_t)
      case TCode::BOOLEAN: {  bool x = bits & 1;  r = conf->ConfRecord::setConf(k, x);  v.bytes.assign(1, (char) x);  break;  }
      case TCode::FLOAT: {  float x = (int32_t) bits / 8.0f;  r = conf->ConfRecord::setConf(k, x);  v.bytes.assign((const char*) &x, 4);  break;  }
      case TCode::DOUBLE: {  double x = (double) (int32_t) bits / 3;  r = conf->ConfRecord::setConf(k, x);  v.bytes.assign((const char*) &x, 8);  break;  }
      case TCode::VECT_3_FLOAT: {
        Vector3f x((float) (int16_t) bits, (float) (int16_t) (bits >> 16) / 4, (float) (int16_t) (bits >> 32));
        r = conf->ConfRecord::setConf(k, &x);
        v.bytes.clear();
        v.bytes.append((const char*) &x.x, 4).append((const char*) &x.y, 4).append((const char*) &x.z, 4);
        break;
      }
      default: {
        static const size_t LEN[] = {0, 1, 5, 22, 23, 24, 60, 255, 256, 300};
        std::string s(LEN[c.draw(c.chance(1, 4) ? 10 : 5)], 'a' + c.draw(3));
        if (!s.empty()) s[c.draw(s.size())] = 'A' + c.draw(26);
        r = c.chance(1, 2) ? conf->ConfRecord::setConf(k, keep(s)) : conf->ConfRecord::setConf(k, (char*) keep(s));
        v.bytes = s;
        v.unset = false;
      }
    }
    c.ev("set [%s]", k);
    if (r != 0) c.fail("record-set", "[%s] refused a value of its own type: %d", k, r);
  }
  void save() {
    static const char* const NAMES[] = {"", "a", "conf", "fifteen letters", "sixteen letters!", "seventeen letters"};
    std::string n = c.chance(1, 8) ? std::string(c.pick({254, 255, 256, 257, 300, 512}), 'n') : NAMES[c.draw(6)];
    if (n.size() > 16) c.probe(P_LONG_NAME);
    uint32_t tag = c.pick<uint32_t>({0, 1, 0x00c0ffee, 0x7fffffff, 0xa5000001});
    StringBuilder out;
    if (kind == BLOB && c.chance(1, 10)) {
      blob->refuse = true;
      c.fault(F_SERIALIZER);
      int8_t r = rec()->save(tag, "x", &out);
      blob->refuse = false;
      c.ev("save refused by the serializer");
      name = "x";
      if (r != -2) c.fail("record-save", "save() returns %d when its serializer fails", r);
      return;
    }
    bool starve = !n.empty() && c.chance(1, 8);
    if (starve) {  g_malloc_fail_in = c.draw(c.chance(1, 2) ? 12 : 120);  g_malloc_fail_sticky = c.chance(1, 2);  g_malloc_failed = 0;  }
    int8_t r = rec()->save(tag, n.c_str(), &out);
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
    starve = starve && g_malloc_failed > 0;
    g_malloc_failed = 0;
    if (starve) c.fault(F_ALLOC);
    c.ev("save as [%.20s]: %d, %d bytes", n.c_str(), r, out.length());
    if (n.empty()) {
      if (r != -1) c.fail("record-save", "save() without a name returns %d", r);
      return;
    }
    if (r != 0 && starve) {  name = n;  return;  }   // Nothing was saved.
    if (r != 0) {  c.fail("record-save", "save() returns %d", r);  return;  }
    name = n;
    known = true;  saved_kind = kind;  saved = vals;  saved_data = data;
    for (auto& e : vals) if (e.second.unset) c.probe(P_UNSET);
    Image m;
    m.kind = kind;  m.tag = tag;  m.vals = vals;  m.data = data;
    m.bytes.assign((const char*) out.string(), out.length());
    if (kind != BLOB && m.bytes.size() > HEADER) m.data = m.bytes.substr(HEADER);
    if (starve) {
      // Refused memory or not, what is reported as saved is the record.
      StringBuilder ref;
      if (rec()->save(tag, n.c_str(), &ref) != 0 || m.bytes != std::string((const char*) ref.string(), ref.length())) {
        c.fail("record-save", "save(), refused memory, reports success, and gives %u bytes: with memory it gives %u", (unsigned) m.bytes.size(), (unsigned) ref.length());
        return;
      }
    }
    Slot& s = slots[c.draw(slots.size())];
    write(s, m);
  }
  /* To the medium, sector by sector, unless the power fails. */
  void write(Slot& s, const Image& m) {
    if (!s.wrote.empty() && s.wrote.back().bytes.size() > m.bytes.size()) c.fault(F_STALE);
    c.step();
    c.nontrivial();
    size_t n = m.bytes.size(), sectors = (n + sector - 1) / sector;
    if (s.bytes.size() < sectors * sector) s.bytes.resize(sectors * sector, (char) 0xff);
    std::vector<size_t> order;
    for (size_t i = 0; i < sectors; i++) order.push_back(i);
    if (c.chance(1, 3)) for (size_t i = 0; i + 1 < sectors; i++) std::swap(order[i], order[i + c.draw(sectors - i)]);
    bool torn = c.chance(1, 3);
    size_t upto = torn ? c.draw(sectors) : sectors;
    for (size_t i = 0; i < upto; i++) {
      size_t a = order[i] * sector, l = std::min(sector, n - a);
      s.bytes.replace(a, l, m.bytes, a, l);
    }
    s.wrote.push_back(m);
    s.intact = !torn;
    if (torn) {
      // Part of the sector that was being written, or rubbish, or nothing.
      size_t a = order[upto] * sector, l = std::min(sector, n - a);
      switch (c.draw(3)) {
        case 0: {  size_t k = c.draw(l);  s.bytes.replace(a, k, m.bytes, a, k);  break;  }
        case 1: for (size_t i = 0; i < l; i++) s.bytes[a + i] = (char) c.draw(256);  break;
        case 2: break;
      }
      c.fault(F_TORN);
      c.ev("which was torn after %u of %u sectors", (unsigned) upto, (unsigned) sectors);
      restart();
    }
    c.state(hash64(hash64(m.kind, torn), hash64(upto, sectors)));
  }
  void restart() {
    c.fault(F_CRASH);
    stop();
    int k = c.chance(1, 4) ? (int) c.draw(3) : kind;
    c.ev("restart, as %d", k);
    start(k);
  }
  void rot() {
    Slot& s = slots[c.draw(slots.size())];
    if (s.bytes.empty()) return;
    uint32_t n = 1 + c.draw(c.chance(1, 2) ? 1 : 6);
    for (uint32_t i = 0; i < n; i++) {
      size_t at = c.chance(1, 3) ? c.draw(std::min<size_t>(40, s.bytes.size())) : c.draw(s.bytes.size());
      s.bytes[at] ^= (char) (1 << c.draw(8));
    }
    s.intact = false;
    c.fault(F_ROT);
    c.ev("%u bits of a slot rot", n);
  }
  /* What the record should hold when that image was loaded. */
  void would(const Image& m, Vals& v, std::string& d) {
    v = vals;  d = data;
    if (kind == BLOB) {  d = m.data;  return;  }
    for (auto& e : v) {
      auto it = m.vals.find(e.first);
      if (it != m.vals.end() && !it->second.unset && it->second.t == e.second.t) e.second = it->second;
    }
  }
  static bool family(int a, int b) {  return (a == BLOB) == (b == BLOB);  }
  void load() {
    c.step();
    Slot& s = slots[c.draw(slots.size())];
    if (s.wrote.empty()) return;
    const Image& last = s.wrote.back();
    size_t n = last.bytes.size();
    std::string in = s.bytes;
    bool shortened = false;
    switch (c.draw(4)) {
      case 0: in = in.substr(0, n);  break;
      case 1: {
        in = in.substr(0, c.draw(n));
        shortened = true;
        c.fault(F_SHORT);
        break;
      }
      case 2: in += std::string(c.draw(40), (char) (c.chance(1, 2) ? 0xff : c.draw(256)));  break;
      default: break;
    }
    if (in.size() > n) c.probe(P_PADDED);
    uint32_t tag = last.tag;
    bool wrong = c.chance(1, 8);
    if (wrong) tag ^= c.chance(1, 2) ? (1u << c.draw(32)) : (1 + c.draw(1000));
    bool refuse = kind == BLOB && c.chance(1, 10);
    if (refuse) {  blob->refuse = true;  c.fault(F_SERIALIZER);  }
    bool starve = c.chance(1, 8);
    int8_t r;
    if (c.chance(1, 2)) {
      c.probe(P_RAW);
      std::unique_ptr<uint8_t[]> raw(new uint8_t[in.size() + 1]);
      uint8_t* p = raw.get() + 1;       // Ends where the allocation does.
      memcpy(p, in.data(), in.size());
      if (starve) g_malloc_fail_in = c.draw(30);
      r = rec()->load(tag, p, in.size());
      g_malloc_fail_in = -1;
    }
    else {
      StringBuilder b;
      size_t cut = in.size() > 1 && c.chance(1, 2) ? 1 + c.draw(in.size() - 1) : in.size();
      if (cut) b.concat((uint8_t*) in.data(), cut);
      if (cut < in.size()) {  b.concat((uint8_t*) in.data() + cut, in.size() - cut);  c.probe(P_FRAGMENTS);  }
      if (starve) g_malloc_fail_in = c.draw(30);
      r = rec()->load(tag, &b);
      g_malloc_fail_in = -1;
    }
    bool starved = g_malloc_failed > 0;
    g_malloc_failed = 0;
    if (starved) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    if (refuse) blob->refuse = false;
    c.ev("load %u bytes%s%s%s%s: %d", (unsigned) in.size(), s.intact ? "" : ", damaged", shortened ? ", short" : "", wrong ? ", by another tag" : "", starved ? ", without memory" : "", r);
    c.state(hash64(hash64(kind, last.kind), hash64(hash64(s.intact, shortened), hash64(wrong * 2 + starved, r))));
    if (r != 0) {
      c.probe(P_REFUSED);
      if (!s.intact) c.probe(P_DAMAGED_REFUSED);
      if (s.intact && wrong) c.probe(P_WRONG_TAG);
      if (s.intact && !family(kind, last.kind)) c.probe(P_WRONG_TYPE);
      if (s.intact && !shortened && !wrong && !starved && !refuse && family(kind, last.kind)) {  c.fail("record-load", "a record that was saved is refused: %d", r);  return;  }
      agree("a load that was refused");
      return;
    }
    c.probe(P_LOADED);
    if (loaded) c.probe(P_RELOAD);
    if (s.intact && shortened) {  c.fail("record-load", "a record of %u bytes was loaded from %u of them", (unsigned) n, (unsigned) in.size());  return;  }
    if (s.intact && wrong) {  c.fail("record-load", "a record was loaded by a tag that is not its own");  return;  }
    if (s.intact && !family(kind, last.kind)) {  c.fail("record-load", "a record was loaded as one of another type");  return;  }
    if (refuse) {  c.fail("record-load", "load() says that it succeeded, and the content was refused");  return;  }
    loaded = true;
    // It is some record that was once written there, and the last one if all is well.
    const Image* got = nullptr;
    Vals now = kind == BLOB ? Vals() : actual();
    for (size_t i = s.wrote.size(); i-- > 0 && !got; ) {
      const Image& m = s.wrote[i];
      if (s.intact && !family(kind, m.kind)) continue;   // The descriptor isn't covered by the hash.
      Vals v;  std::string d;
      would(m, v, d);
      if (kind == BLOB ? blob->data == d : now == v) got = &m;
      if (s.intact) break;
    }
    if (!got) {
      if (s.intact) {  Vals v;  std::string d;  would(last, vals, data);  agree("loading what was saved");  }
      if (!c.failed()) c.fail("record-load", "damaged content, which was never written, was loaded");
      return;
    }
    if (!s.intact) c.probe(P_DAMAGED_ACCEPTED);
    if (got->kind != kind) c.probe(P_MIGRATED);
    Vals v;  std::string d;
    would(*got, v, d);
    vals = v;  data = d;
    known = got->kind == kind && s.intact;   // The descriptor isn't covered by the hash.
    saved_kind = got->kind;  saved = got->vals;  saved_data = got->data;
    name = printed();
    agree("loading what was saved");
  }
  std::string printed() {
    StringBuilder d;
    rec()->printDebug(&d);
    std::string t((const char*) d.string(), d.length());
    size_t a = t.find("Key:\t ") + 6;
    return t.substr(a, t.find('\n', a) - a);
  }
  void go() {
    slots.resize(1 + c.draw(3));
    sector = c.pick({8, 16, 32, 64, 256});
    start(c.draw(3));
    c.plan_ops(10 + c.draw(40));
    while (c.next_op() && !c.failed()) {
      switch (c.draw(8)) {
        case 0: case 1: change();  agree("a change");  break;
        case 2: {  uint32_t n = 1 + c.draw(8);  while (n-- && !c.failed()) change();  agree("changes");  break;  }
        case 3: case 4: save();  agree("a save");  break;
        case 5: case 6: load();  break;
        case 7: if (c.chance(1, 2)) rot();  else restart();  break;
      }
    }
    c.begin_tail();
    // With a sound medium, all is well.
    if (!c.failed()) {
      StringBuilder out;
      if (rec()->save(5, "last", &out) != 0) c.fail("record-recovery", "at last, a record could not be saved");
      Vals v = vals;  std::string d = data;
      int k = kind;
      stop();
      start(k);
      if (!c.failed() && rec()->load(5, &out) != 0) c.fail("record-recovery", "at last, a record could not be loaded");
      vals = v;  data = d;  loaded = true;  name = "last";
      agree("the last load");
    }
    stop();
  }
};

void run(Ctx& c) {
  size_t before = heap_in_use();
  {
    Run r(c);
    r.go();
  }
  if (!c.failed()) {
    size_t after = heap_in_use();
    if (after != before) c.fail("record-leak", "%d bytes remain after the records are gone", (int) (after - before));
  }
}
}

Harness g_harness = {
  "R01",
  "A history of changes, saves, loads and restarts of a record (configurations of two program versions, or opaque content) on a medium that tears writes, rots, and reads short; every load is compared with all that was ever written. Non-trivial: a record was written to the medium.",
  run,
  {"torn write", "bit rot", "short read", "crash and restart", "allocation failure", "serializer failure", "stale remainder"},
  {"loaded", "refused", "damage refused", "damage of no consequence", "loaded by another version", "wrong tag", "wrong type", "padded input", "fragmented input", "raw input", "long name", "found dirty", "found clean", "unset string saved", "memory refused", "misfit value", "loaded again"},
  {"SimpleDataRecord", "ConfRecord", "EnumDefList", "KeyValuePair", "CBORArgListener", "cbor::decoder", "cbor::encoder", "StringBuilder"},
  {"storage medium", "allocator (failing)"},
  "record kind x write outcome x sectors; load kind x damage x result",
  {},
  20000, 400000
};
