/* P02: what a Base64 coder takes comes out of the other side, exactly; what it cannot pass along it does not take. */
#include "sb.h"
#include "sink.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
using namespace sim;

namespace {
enum {  F_ALLOC, F_TIGHT, F_REFUSE, F_INVALID, F_UNATTACHED  };
enum {  P_ENC, P_DEC, P_LOOP, P_TAKEN, P_REJECT_SPACE, P_REJECT_INVALID, P_CHUNKED, P_SHORT_OF_CHUNK, P_NO_MEMORY, P_PROMISE, P_PADDED  };

const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string enc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = (uint8_t) s[i] << 16, n = s.size() - i;
    if (n > 1) v |= (uint8_t) s[i + 1] << 8;
    if (n > 2) v |= (uint8_t) s[i + 2];
    o += A64[v >> 18];  o += A64[(v >> 12) & 63];
    o += n > 1 ? A64[(v >> 6) & 63] : '=';
    o += n > 2 ? A64[v & 63] : '=';
  }
  return o;
}
bool dec(const std::string& s, std::string* out) {
  if (s.empty() || s.size() % 4) return false;
  out->clear();
  for (size_t i = 0; i < s.size(); i += 4) {
    bool last = i + 4 == s.size();
    int v[4], pads = 0;
    for (int k = 0; k < 4; k++) {
      char ch = s[i + k];
      const char* p = ch ? strchr(A64, ch) : nullptr;
      if (ch == '=') {  if (!last || k < 2) return false;  pads++;  v[k] = 0;  }
      else if (!p || pads) return false;
      else v[k] = p - A64;
    }
    uint32_t w = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
    *out += (char) (w >> 16);
    if (pads < 2) *out += (char) (w >> 8);
    if (pads < 1) *out += (char) w;
  }
  return true;
}

void run(Ctx& c) {
  static char quiet[4096];                     // The decoder complains on stdout.
  if (freopen("/dev/null", "w", stdout)) setvbuf(stdout, quiet, _IOFBF, sizeof(quiet));
  size_t before = heap_in_use();
  {
    uint32_t mode = c.draw(3);                 // Encoder, decoder, or one into the other.
    c.probe(mode == 0 ? P_ENC : mode == 1 ? P_DEC : P_LOOP);
    Sink sink;
    void* m1 = malloc(sizeof(Base64Decoder));  memset(m1, 0x6B, sizeof(Base64Decoder));
    void* m2 = malloc(sizeof(Base64Encoder));  memset(m2, 0x6B, sizeof(Base64Encoder));
    Base64Decoder* d = new (m1) Base64Decoder(&sink);
    Base64Encoder* e = new (m2) Base64Encoder(mode == 2 ? (BufferAccepter*) d : (BufferAccepter*) &sink);
    BufferAccepter* head = mode == 1 ? (BufferAccepter*) d : (BufferAccepter*) e;
    int32_t chunk = 0;
    bool attached = true;
    c.plan_ops(10 + c.draw(50));
    while (c.next_op() && !c.failed()) {
      c.step();
      uint32_t k = c.draw(10);
      if (k == 0) {
        chunk = c.chance(1, 2) ? 0 : 1 + (int) c.draw(12);
        if (mode == 1) {  chunk = (chunk + 3) / 4 * 4;  d->inputLength(chunk);  }  else e->inputLength(chunk);
        c.ev("chunks of %d", chunk);
        if (chunk) c.probe(P_CHUNKED);
        continue;
      }
      if (k == 1) {
        sink.room = c.pick({0, 1, 2, 3, 4, 5, 7, 12, 40, 90, 100000});
        sink.refuse = c.chance(1, 8);
        sink.unknown = c.chance(1, 12);
        if (sink.room < 100) c.fault(F_TIGHT);
        attached = c.chance(9, 10);
        BufferAccepter* t = attached ? (BufferAccepter*) &sink : nullptr;
        if (mode == 0) e->setEfferant(t);  else d->setEfferant(t);
        if (!attached) c.fault(F_UNATTACHED);
        c.ev("room for %d%s%s", sink.room, sink.refuse ? ", refuses" : "", attached ? "" : ", unattached");
        continue;
      }
      // A push, as large as was promised, or not.
      int32_t promised = head->bufferAvailable();
      bool to_promise = promised > 0 && promised < 5000 && c.chance(1, 2);
      uint32_t n = to_promise ? (uint32_t) promised : c.draw(c.pick({4u, 20u, 80u}));
      std::string all;
      bool valid = true;
      if (mode == 1) {
        std::string raw;
        uint32_t cnt = to_promise ? n / 4 * 3 - (n >= 4 ? c.draw(3) : 0) : n;
        for (uint32_t i = 0; i < cnt; i++) raw += (char) c.draw(256);
        all = enc(raw);
        if (raw.size() % 3) c.probe(P_PADDED);
        if (!all.empty() && c.chance(1, 5)) {
          uint32_t how = c.draw(3), at = c.draw(all.size());
          if (how == 0) all[at] = c.pick({'=', '-', '\n', '\0', (char) 0xC3});
          else if (how == 1) all.erase(at, 1);
          else all.insert(at, 1, '=');
          to_promise = false;
        }
      }
      else for (uint32_t i = 0; i < n; i++) all += (char) c.draw(256);
      // Only the head of a chunked stream is considered.
      std::string head_in = (chunk && all.size() >= (uint32_t) chunk) ? all.substr(0, chunk) : all, out;
      bool fits = chunk == 0 || all.size() >= (uint32_t) chunk;
      if (mode == 0) out = enc(head_in);
      else if (mode == 1) valid = dec(head_in, &out);
      else out = head_in;
      if (!valid) c.fault(F_INVALID);
      StringBuilder b;
      uint32_t at = 0, pieces = 1 + c.draw(3);
      for (uint32_t i = 0; i < pieces; i++) {
        uint32_t z = i + 1 == pieces ? all.size() - at : c.draw(all.size() - at + 1);
        if (z) b.concat((uint8_t*) all.data() + at, z);
        at += z;
      }
      size_t got = sink.got.size();
      int32_t room = sink.room;
      uint32_t refused = sink.refused;
      g_malloc_failed = 0;
      if (c.chance(1, 6)) {  g_malloc_fail_in = c.draw(8);  g_malloc_fail_sticky = c.chance(1, 2);  }
      int rc = head->pushBuffer(&b);
      bool denied = g_malloc_failed > 0;
      g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
      if (denied) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
      if (sink.refused > refused) c.fault(F_REFUSE);
      std::string left;
      for (int i = 0; i < b.count(); i++) {  int z;  uint8_t* p = b.position(i, &z);  left += std::string((char*) p, z);  }
      std::string gave = sink.got.substr(got);
      c.ev("push %u = %d, %u left, %u out", (unsigned) all.size(), rc, (unsigned) left.size(), (unsigned) gave.size());
      if (rc < 0) {
        if (left != all) c.fail("residue", "%u bytes were rejected, and [%s] remains of [%s]", (unsigned) all.size(), sb::show(left).c_str(), sb::show(all).c_str());
        else if (!gave.empty()) c.fail("output", "%u bytes were rejected, yet [%s] came out", (unsigned) all.size(), sb::show(gave).c_str());
        if (fits && !valid) c.probe(P_REJECT_INVALID);
        if (!fits) c.probe(P_SHORT_OF_CHUNK);
        if (fits && valid && !all.empty() && attached && room < (int) out.size()) c.probe(P_REJECT_SPACE);
        // Whatever is within the promised space, and valid, is taken.
        int32_t n = (int32_t) head_in.size(), need = mode == 0 ? 4 * ((n + 2) / 3) : mode == 1 ? 3 * (n / 4) : 3 * ((n + 2) / 3);
        bool due = fits && valid && attached && !denied && !sink.refuse && !head_in.empty() && (n <= promised || (!sink.unknown && need <= room));
        if (due) c.fail("promise", "room for %d was promised, with %d to be had downstream, and %d bytes were rejected", promised, room, n);
      }
      else {
        if (!fits || !valid || head_in.empty() || !attached) c.fail("taken", "[%s] was taken", sb::show(head_in).c_str());
        else if (left != all.substr(head_in.size())) c.fail("residue", "%u bytes were taken of %u, and [%s] remains", (unsigned) head_in.size(), (unsigned) all.size(), sb::show(left).c_str());
        else if (gave != out) c.fail("output", "[%s] was taken, and [%s] came out rather than [%s]", sb::show(head_in).c_str(), sb::show(gave).c_str(), sb::show(out).c_str());
        else if (rc != (left.empty() ? 1 : 0)) c.fail("code", "%u bytes remain, and %d was returned", (unsigned) left.size(), rc);
        c.probe(P_TAKEN);
        if (to_promise) c.probe(P_PROMISE);
        c.nontrivial();
      }
      c.state(hash64(hash64(mode, all.size() > 40 ? 40 : all.size()), hash64(rc + 1, room > 40 ? 40 : room)));
    }
    e->~Base64Encoder();  d->~Base64Decoder();
    free(m1);  free(m2);
  }
  if (!c.failed() && heap_in_use() > before) c.fail("leak", "%u bytes were not released", (unsigned) (heap_in_use() - before));
}
}

sim::Harness g_harness = {"P02",
  "a case is a history of pushes through an encoder, a decoder, or both, into a sink of varying space; non-trivial if a push was taken",
  run,
  {"allocation failure", "little space downstream", "sink refuses", "invalid encoding", "nothing attached"},
  {"encoder", "decoder", "encoder into decoder", "push taken", "rejected for space", "rejected as invalid", "chunked", "short of a chunk", "operation refused memory", "push of all that was promised", "padded"},
  {"C3P_B64.cpp", "BufferAccepter.h", "StringBuilder.cpp"},
  {"scripted sink", "malloc (refuses on request)"},
  "mode, length, outcome, and space",
  {}, 20000, 400000
};
