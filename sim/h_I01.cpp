/* I01: an identity read back from storage is the one that was written. */
#include "sb.h"
#include <memory>
#include "Identity/IdentityUUID.h"
#include "Identity/Identity.h"
using namespace sim;

namespace {
enum {  F_TORN, F_ROT, F_SHORT, F_CRASH, F_ALLOC, F_ENTROPY  };
enum {  P_RESTORED, P_DAMAGED_REFUSED, P_DAMAGED_ACCEPTED, P_TRAILING, P_RESAVED, P_FLAGS, P_EMPTY_NAME, P_LONG_NAME, P_UNTERMINATED, P_GENERATED, P_TEXT, P_PARTIAL_TEXT, P_BY_NAME, P_NAMELESS, P_ODD_FORMAT  };

const size_t BASE = 6, UU = 16;
const uint16_t VOLATILE = MANUVR_IDENT_FLAG_PERSIST_MASK;

// What an identity should be.
struct Model {  std::string name;  uint8_t id[16] = {0};  uint16_t flags = 0;  };
struct Live {  IdentityUUID* id = nullptr;  Model m;  bool loaded = false;  };
struct Rec {  std::string bytes;  Model m;  bool intact = true;  };

std::string image(const Model& m) {
  std::string s;
  const uint16_t len = BASE + m.name.size() + UU, f = m.flags & (uint16_t) ~VOLATILE;
  s += (char) (len >> 8);  s += (char) len;  s += (char) (f >> 8);  s += (char) f;  s += (char) IdentFormat::UUID;
  s += m.name;  s += '\0';
  s.append((const char*) m.id, 16);
  return s;
}
std::string text(const uint8_t* id, bool upper, bool dashes) {
  std::string s;
  char b[4];
  for (int i = 0; i < 16; i++) {
    if (dashes && (i == 4 || i == 6 || i == 8 || i == 10)) s += '-';
    snprintf(b, sizeof b, upper ? "%02X" : "%02x", id[i]);
    s += b;
  }
  return s;
}

struct Run {
  Ctx& c;
  std::vector<Live> live;
  std::vector<Rec> medium;
  std::vector<uint32_t> drawn;
  uint32_t stuck = 0;  bool entropy_stuck = false;
  Run(Ctx& x) : c(x) {}

  std::string name() {
    std::string s;
    uint32_t n = c.pick({0u, 1u, 2u, 7u, 12u, 31u, 90u, 200u, 300u, 3000u});
    if (n > 2) n = 1 + c.draw(n);
    for (uint32_t i = 0; i < n; i++) s += (char) (n > 40 ? 'a' + (i * 7 + n) % 26 : 1 + c.draw(255));
    if (n == 0) c.probe(P_EMPTY_NAME);
    if (n > 255 - 22) c.probe(P_LONG_NAME);
    return s;
  }
  void check(Live& l, const char* when, bool full = true) {
    if (c.failed()) return;
    Model& m = l.m;
    const std::string want = m.name;
    uint8_t raw[16];
    memset(raw, 0xA5, 16);
    l.id->copyRaw(raw);
    if (want != l.id->getHandle()) c.fail("identity-name", "after %s, the handle is [%s] rather than [%s]", when, sb::show(l.id->getHandle()).c_str(), sb::show(want).c_str());
    else if (memcmp(raw, m.id, 16)) c.fail("identity-uuid", "after %s, the UUID is %s rather than %s", when, hex(raw, 16).c_str(), hex(m.id, 16).c_str());
    else if (l.id->identityType() != IdentFormat::UUID) c.fail("identity-type", "after %s, the type is %u", when, (unsigned) l.id->identityType());
    else if (l.id->length() != (int) (BASE + m.name.size() + UU)) c.fail("identity-length", "after %s, length() is %d for a name of %u", when, l.id->length(), (unsigned) m.name.size());
    else if (l.id->isSelf() != !!(m.flags & MANUVR_IDENT_FLAG_OUR_OWN) || l.id->isDirty() != !!(m.flags & MANUVR_IDENT_FLAG_DIRTY) || l.id->isValid() != !!(m.flags & MANUVR_IDENT_FLAG_VALID))
      c.fail("identity-flags", "after %s, self/dirty/valid are %d/%d/%d with flags %04x", when, l.id->isSelf(), l.id->isDirty(), l.id->isValid(), m.flags);
    if (c.failed() || !full) return;
    StringBuilder o;
    l.id->toString(&o);
    const std::string shown((const char*) o.string(), o.length());
    if (shown != text(m.id, false, true)) c.fail("identity-text", "after %s, the identity prints as [%s]", when, sb::show(shown).c_str());
  }
  // There was no memory for its name. It is otherwise what it should be.
  void nameless(Live& l) {
    c.probe(P_NAMELESS);
    l.m.name = "";
    uint8_t raw[16];
    l.id->copyRaw(raw);
    if (std::string("unnamed") != l.id->getHandle()) c.fail("identity-name", "with no memory for a name, the handle is [%s]", sb::show(l.id->getHandle()).c_str());
    else if (memcmp(raw, l.m.id, 16)) c.fail("identity-uuid", "with no memory for a name, the UUID is %s", hex(raw, 16).c_str());
    else {
      std::string got;
      if (store(l, got) && got != image(l.m)) c.fail("identity-image", "with no memory for a name, the record is %s", sb::show(got).c_str());
    }
  }
  void create() {
    Live l;
    l.m.name = name();
    if (live.size() >= 6) return;
    bool fails = c.chance(1, 12);
    if (c.chance(1, 2)) {
      drawn.clear();
      if (fails) g_malloc_fail_in = 0;
      l.id = new IdentityUUID(l.m.name.c_str());
      g_malloc_fail_in = -1;
      if (drawn.size() != 4) {  c.fail("identity-random", "%u words were drawn to generate a UUID", (unsigned) drawn.size());  live.push_back(l);  return;  }
      for (int i = 0; i < 4; i++) memcpy(l.m.id + i * 4, &drawn[i], 4);
      l.m.id[8] = (l.m.id[8] & 0x3F) | 0x80;
      l.m.id[6] = (l.m.id[6] & 0x0F) | 0x40;
      l.m.flags = MANUVR_IDENT_FLAG_VALID | MANUVR_IDENT_FLAG_DIRTY | MANUVR_IDENT_FLAG_ORIG_GEN;
      c.probe(P_GENERATED);
    }
    else {
      for (int i = 0; i < 16; i++) l.m.id[i] = (uint8_t) c.draw(256);
      std::string t = text(l.m.id, c.chance(1, 2), c.chance(3, 4));
      if (c.chance(1, 4)) t = "{" + t + "}";
      if (c.chance(1, 6)) t += "00ff and more";
      else if (c.chance(1, 6)) {        // Only whole octets that were given are taken; the rest stay zero.
        size_t octets = c.draw(16);
        t = text(l.m.id, c.chance(1, 2), false).substr(0, octets * 2 + c.draw(2));
        memset(l.m.id + octets, 0, 16 - octets);
        c.probe(P_PARTIAL_TEXT);
      }
      std::unique_ptr<char[]> z(new char[t.size() + 1]);
      memcpy(z.get(), t.c_str(), t.size() + 1);
      if (fails) g_malloc_fail_in = 0;
      l.id = new IdentityUUID(l.m.name.c_str(), z.get());
      g_malloc_fail_in = -1;
      c.probe(P_TEXT);
    }
    if (fails) {  c.fault(F_ALLOC);  l.m.name = "";  }
    c.ev("create name=%u %s%s", (unsigned) l.m.name.size(), hex(l.m.id, 16).c_str(), fails ? " (no memory for the name)" : "");
    if (fails) {
      nameless(l);
      delete l.id;
      return;
    }
    live.push_back(l);
    check(live.back(), "construction");
  }
  // Serializes into a buffer that is exactly as long as it is said to be.
  bool store(Live& l, std::string& out) {
    const size_t n = l.id->length();
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    memset(b.get(), 0x5A, n);
    int r = c.chance(1, 2) ? l.id->toBuffer(b.get()) : l.id->serialize(b.get(), (uint16_t) n);
    if (r != (int) n) {  c.fail("identity-serialize", "an identity of %u bytes serialized to %d", (unsigned) n, r);  return false;  }
    out.assign((const char*) b.get(), n);
    return true;
  }
  void save() {
    if (live.empty()) return;
    Live& l = live[c.draw(live.size())];
    if (c.chance(1, 4)) {               // The medium has no room.
      const size_t n = c.draw((uint32_t) l.id->length());
      std::unique_ptr<uint8_t[]> b(new uint8_t[n + 1]);
      uint8_t* p = b.get() + 1;         // Ends where the allocation does.
      c.fault(F_SHORT);
      int r = l.id->serialize(p, (uint16_t) n);
      c.ev("save in %u of %d: %d", (unsigned) n, l.id->length(), r);
      if (r != 0) c.fail("identity-room", "an identity of %d bytes was serialized to %d in a space of %u", l.id->length(), r, (unsigned) n);
      return check(l, "a failed save");
    }
    Rec r;
    r.m = l.m;
    r.m.flags &= ~VOLATILE;
    if (!store(l, r.bytes)) return;
    if (r.bytes != image(l.m)) return c.fail("identity-image", "the record is %s rather than %s", sb::show(r.bytes).c_str(), sb::show(image(l.m)).c_str());
    if (l.loaded) c.probe(P_RESAVED);
    c.ev("save %u bytes", (unsigned) r.bytes.size());
    check(l, "saving");
    if (c.chance(1, 3)) damage(r);
    medium.push_back(r);
    if (medium.size() > 8) medium.erase(medium.begin());
  }
  void damage(Rec& r) {
    std::string was = r.bytes;
    switch (c.draw(6)) {
      case 0:  c.fault(F_TORN);  r.bytes.resize(c.draw((uint32_t) r.bytes.size()));  break;
      case 1:  {
        c.fault(F_ROT);
        uint32_t k = 1 + c.draw(3);
        for (uint32_t i = 0; i < k; i++) r.bytes[c.draw((uint32_t) r.bytes.size())] ^= (char) (1 << c.draw(8));
        break;
      }
      case 2:  {                        // A tear within the block: the last of it was never written.
        c.fault(F_TORN);
        size_t at = c.draw((uint32_t) r.bytes.size());
        char fill = c.chance(1, 2) ? (char) 0xFF : (char) 0x41;
        for (size_t i = at; i < r.bytes.size(); i++) r.bytes[i] = fill;
        break;
      }
      case 3:  {  c.fault(F_ROT);  r.bytes[c.draw(2)] = (char) c.draw(256);  break;  }    // Its length.
      case 4:  {                        // Its flags. Still a record; a different one.
        c.fault(F_ROT);
        r.bytes[2] = (char) c.draw(256);  r.bytes[3] = (char) c.draw(256);
        r.m.flags = (uint16_t) ((uint8_t) r.bytes[2] << 8 | (uint8_t) r.bytes[3]);
        c.probe(P_FLAGS);
        c.ev("flags %04x", r.m.flags);
        return;
      }
      default: {                        // The name's terminator.
        c.fault(F_ROT);
        r.bytes[r.bytes.size() - UU - 1] = (char) (1 + c.draw(255));
        if (c.chance(1, 2)) for (size_t i = r.bytes.size() - UU; i < r.bytes.size(); i++) if (!r.bytes[i]) r.bytes[i] = 'z';
        break;
      }
    }
    r.intact = was == r.bytes;
    c.ev("damage to %s", sb::show(r.bytes).c_str());
  }
  void load() {
    if (medium.empty() || live.size() >= 8) return;
    const size_t at = c.draw(medium.size());
    Rec& r = medium[at];
    std::string buf = r.bytes;
    if (r.intact && c.chance(1, 3)) {   // Other things follow in the same block.
      size_t n = 1 + c.draw(40);
      if (c.chance(1, 2)) buf += medium[c.draw(medium.size())].bytes;
      else for (size_t i = 0; i < n; i++) buf += (char) c.draw(256);
      c.probe(P_TRAILING);
    }
    std::unique_ptr<uint8_t[]> b(new uint8_t[buf.size() + 1]);
    uint8_t* p = b.get() + 1;
    memcpy(p, buf.data(), buf.size());
    const bool fails = c.chance(1, 12);
    if (fails) {  c.fault(F_ALLOC);  g_malloc_fail_in = 0;  }
    Identity* id = Identity::fromBuffer(p, (int) buf.size());
    g_malloc_fail_in = -1;
    const bool same = 0 == memcmp(p, buf.data(), buf.size());
    b.reset();                          // It keeps nothing of the buffer.
    c.ev("load %u %s: %s", (unsigned) buf.size(), r.intact ? "intact" : "damaged", id ? "ok" : "refused");
    if (!same) c.fail("identity-input", "loading changed the record");
    if (r.intact) {
      if (!id) return c.fail("identity-lost", "a record of %u bytes, in a buffer of %u, was refused", (unsigned) r.bytes.size(), (unsigned) buf.size());
      Live l;
      l.id = (IdentityUUID*) id;
      l.m = r.m;
      l.loaded = true;
      c.probe(P_RESTORED);
      if (fails) {  nameless(l);  delete l.id;  return;  }
      live.push_back(l);
      return check(live.back(), "loading");
    }
    // What could it be?
    size_t z = buf.size() > BASE ? buf.find('\0', BASE - 1) : std::string::npos;
    bool possible = z != std::string::npos && buf.size() - z - 1 >= UU && (uint8_t) buf[4] == (uint8_t) IdentFormat::UUID && ((uint8_t) buf[0] << 8 | (uint8_t) buf[1]) <= (int) buf.size();
    if (z == std::string::npos) c.probe(P_UNTERMINATED);
    if (buf.size() > 4 && (uint8_t) buf[4] != (uint8_t) IdentFormat::UUID) c.probe(P_ODD_FORMAT);
    if (!id) {
      c.probe(P_DAMAGED_REFUSED);
      // Only the content differs: it's a good record of something else.
      if (possible && (size_t) ((uint8_t) buf[0] << 8 | (uint8_t) buf[1]) == buf.size() && z + 1 + UU == buf.size()) c.fail("identity-lost", "a whole record of %u bytes was refused", (unsigned) buf.size());
      return;
    }
    if (!possible) {
      if (id->identityType() == IdentFormat::UUID) delete id;
      return c.fail("identity-forged", "%u bytes that hold no identity were accepted as one: %s", (unsigned) buf.size(), sb::show(buf).c_str());
    }
    c.probe(P_DAMAGED_ACCEPTED);
    Live l;
    l.id = (IdentityUUID*) id;
    l.m.name = buf.substr(BASE - 1, z - (BASE - 1));
    memcpy(l.m.id, buf.data() + z + 1, 16);
    l.m.flags = (uint16_t) ((uint8_t) buf[2] << 8 | (uint8_t) buf[3]);
    if (fails) {  nameless(l);  delete l.id;  return;  }
    live.push_back(l);
    check(live.back(), "loading a damaged record");
  }
  void drop(size_t i) {  delete live[i].id;  live.erase(live.begin() + i);  }
  void crash() {                        // Only the medium remains.
    c.fault(F_CRASH);
    c.ev("crash");
    while (!live.empty()) drop(0);
  }
  void go() {
    on_random = [&] {
      uint32_t v = entropy_stuck ? stuck : (uint32_t) c.draw(0xFFFFFFFFu);
      drawn.push_back(v);
      return v;
    };
    if (c.chance(1, 8)) {  entropy_stuck = true;  stuck = c.pick({0u, 0xFFFFFFFFu, 0x5A5A5A5Au});  c.fault(F_ENTROPY);  }
    c.plan_ops(30);
    while (c.next_op() && !c.failed()) {
      uint32_t kind = c.draw(12);
      switch (kind) {
        case 0: case 1:  create();  break;
        case 2: case 3: case 4:  save();  break;
        case 5: case 6: case 7:  load();  break;
        case 8:
          if (!live.empty()) {
            Live& l = live[c.draw(live.size())];
            bool on = c.chance(1, 2);
            l.id->isSelf(on);
            l.m.flags = on ? (l.m.flags | MANUVR_IDENT_FLAG_OUR_OWN) : (l.m.flags & ~MANUVR_IDENT_FLAG_OUR_OWN);
            c.ev("self %d", on);
            check(l, "marking it ours");
          }
          break;
        case 9:
          if (!live.empty()) {
            Live& l = live[c.draw(live.size())];
            std::string n = c.chance(1, 2) ? l.m.name : name();
            Identity* r = l.id->getIdentity(n.c_str());
            c.ev("by name %u: %d", (unsigned) n.size(), r != nullptr);
            c.probe(P_BY_NAME);
            if ((r != nullptr) != (n == l.m.name) || (r && r != l.id)) c.fail("identity-find", "looking for [%s] found %s [%s]", sb::show(n).c_str(), r ? "an identity called" : "nothing in", sb::show(l.m.name).c_str());
            IdentFormat f = c.pick({IdentFormat::UUID, IdentFormat::UNDETERMINED, IdentFormat::SERIAL_NUM, IdentFormat::USER});
            if ((l.id->getIdentity(f) == l.id) != (f == IdentFormat::UUID)) c.fail("identity-find", "looking for type %u went wrong", (unsigned) f);
          }
          break;
        case 10: if (!live.empty()) {  size_t i = c.draw(live.size());  c.ev("drop %u", (unsigned) i);  drop(i);  }  break;
        case 11: if (c.chance(1, 4)) crash();  break;
      }
      c.step();
      for (Live& l : live) check(l, "something else", false);
      c.state(hash64(live.size(), medium.size()) ^ hash64(kind, medium.empty() ? 0 : medium.back().bytes.size()));
    }
    // Everything that was left in the medium, in a new process.
    if (!c.failed()) {  c.begin_tail();  crash();  for (int i = 0; i < 4 && !c.failed(); i++) load();  }
    while (!live.empty()) drop(0);
  }
};

void run(Ctx& c) {
  const size_t before = heap_in_use();
  {
    Run r(c);
    r.go();
    on_random = nullptr;
  }
  c.nontrivial();
  if (!c.failed() && heap_in_use() != before) c.fail("identity-leak", "%d bytes remain after the identities are gone", (int) (heap_in_use() - before));
}
}  // namespace

sim::Harness g_harness = {
  "I01",
  "Identities are generated (from a random source that may be stuck), parsed, marked, saved to a medium that may be short of room, torn or rotten, lost in crashes, and read back, among other things in the same block; each must be, throughout, what a reference model says it is. Non-trivial: every run. Distinct by event log.",
  run,
  {"torn write", "bit rot", "no room on the medium", "crash", "allocation failure", "stuck random source"},
  {"restored", "damaged record refused", "damaged record accepted as another", "record followed by other bytes", "saved again", "arbitrary flags", "empty name", "name that makes the length two bytes", "unterminated name", "generated", "parsed from text", "parsed from part of a text", "sought by name", "nameless for want of memory", "record of another format"},
  {"Identity/Identity.cpp", "Identity/IdentityUUID.cpp", "uuid.cpp", "StringBuilder.cpp"},
  {"platform (clock, random source, allocator)", "the storage medium"},
  "live identities, records on the medium, last operation and the size of the last record",
  {}, 12000, 400000
};
