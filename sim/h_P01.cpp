/* P01: a fork gives the whole stream to each of its hands, whatever the pressure on either; a sink collects what it has space for. */
#include "sb.h"
#include "sink.h"
#include <memory>
using namespace sim;

namespace {
enum {  F_ALLOC, F_REFUSE, F_PARTIAL, F_UNKNOWN, F_DETACH  };
enum {  P_DRIFT, P_PARTIAL, P_REJECT, P_NESTED, P_COLLECT_FULL, P_NO_MEMORY, P_SWAP, P_ONE_HAND, P_DETACHED  };

struct Hand {                 // A leaf: a scripted sink, or the repository's collector.
  std::unique_ptr<Sink> sink;
  std::unique_ptr<StringBuilderSink> coll;
  int32_t cap = 0;
  std::string drained;        // Taken out of the collector.
  size_t base = 0;            // The offset into the stream at which it was attached.
  BufferAccepter* ba() {  return sink ? (BufferAccepter*) sink.get() : (BufferAccepter*) coll.get();  }
  std::string got() {
    if (sink) return sink->got;
    std::string s = drained;
    for (int i = 0; i < coll->count(); i++) {  int l;  uint8_t* p = coll->position(i, &l);  s += std::string((char*) p, l);  }
    return s;
  }
};

struct Tap : public BufferAccepter {     // Tells how far into the stream the inner fork is.
  BufferAccepter* to = nullptr;  size_t taken = 0;
  int8_t pushBuffer(StringBuilder* b) override {  size_t n = b->length();  int8_t r = to->pushBuffer(b);  taken += n - b->length();  return r;  }
  int32_t bufferAvailable() override {  return to->bufferAvailable();  }
};

struct Run {
  Ctx& c;
  Tap tap;
  std::vector<std::unique_ptr<Hand>> hands;
  std::unique_ptr<BufferAccepterFork> outer, inner;
  Hand *l = nullptr, *m = nullptr, *r = nullptr;    // outer: l, (inner: m, r) or r.
  bool nested;
  std::string stream;         // All that was, or will be, offered.
  size_t taken = 0;           // How much of it left the hands of the caller.
  uint8_t seq = 0;
  Run(Ctx& x) : c(x) {}
  void arm() {  if (c.chance(1, 6)) {  g_malloc_fail_in = c.draw(4);  g_malloc_fail_sticky = c.chance(1, 2);  }  }
  bool disarm() {
    bool d = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (d) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    return d;
  }
  Hand* fresh(bool in_inner = false) {
    hands.emplace_back(new Hand());
    Hand* h = hands.back().get();
    h->base = in_inner ? tap.taken : taken;
    if (c.chance(1, 3)) {  h->cap = 1 + c.draw(60);  h->coll.reset(new StringBuilderSink(h->cap));  }
    else {  h->sink.reset(new Sink());  mood(h);  }
    return h;
  }
  // What a side says that it has room for. -2: there is no such side.
  int32_t room_of(Hand* h) {  return !h ? -2 : h->sink ? (h->sink->unknown ? -1 : h->sink->room) : h->cap - h->coll->length();  }
  int32_t least(int32_t a, int32_t b) {
    if (a == -2) return b == -2 ? 0 : b < 0 ? 0 : b;
    if (b == -2) return a < 0 ? 0 : a;
    return (a <= 0 || b <= 0) ? 0 : a < b ? a : b;
  }
  int32_t room(Hand* a, int32_t b) {  return least(room_of(a), b);  }
  void mood(Hand* h) {
    Sink& s = *h->sink;
    s.room = c.pick({0, 1, 3, 10, 40, 1000});
    s.refuse = c.chance(1, 6);  s.part = c.chance(1, 4);  s.unknown = c.chance(1, 12);
    if (s.refuse) c.fault(F_REFUSE);
    if (s.part) c.fault(F_PARTIAL);
    if (s.unknown) c.fault(F_UNKNOWN);
  }
  void check(Hand* h, bool inner_leaf, const char* who) {
    if (!h || c.failed()) return;
    std::string g = h->got();
    if (g.size() > stream.size() - h->base || stream.compare(h->base, g.size(), g) != 0) {
      size_t k = 0;
      while (k < g.size() && h->base + k < stream.size() && g[k] == stream[h->base + k]) k++;
      c.fail("fork-order", "the %s hand was given %u bytes which leave the stream at %u", who, (unsigned) g.size(), (unsigned) k);
    }
    else if (h->base + g.size() < taken) c.fail("fork-lost", "%u bytes of the stream were taken, and the %s hand has only %u", (unsigned) (taken - h->base), who, (unsigned) g.size());
    else if (h->base + g.size() > taken) c.probe(P_DRIFT);
    if (h->coll && h->coll->length() > h->cap) c.fail("overfilled", "a collector of %d bytes holds %d", h->cap, h->coll->length());
  }
  void check() {  check(l, false, "left");  check(m, true, "middle");  check(r, nested, "right");  }
  int push(uint32_t n, bool faults) {
    StringBuilder b;
    uint32_t at = 0, pieces = 1 + c.draw(3);
    for (uint32_t i = 0; i < pieces; i++) {
      uint32_t k = i + 1 == pieces ? n - at : c.draw(n - at + 1);
      if (k) b.concat((uint8_t*) stream.data() + taken + at, k);
      at += k;
    }
    if (faults) arm();
    int rc = outer->pushBuffer(&b);
    disarm();
    std::string left;
    for (int i = 0; i < b.count(); i++) {  int z;  uint8_t* p = b.position(i, &z);  left += std::string((char*) p, z);  }
    uint32_t took = n - left.size();
    if (left.size() > n || stream.compare(taken + took, left.size(), left) != 0) {  c.fail("residue", "what remains of the %u bytes pushed is not their end", n);  return 0;  }
    int e = took == 0 ? -1 : took < n ? 0 : 1;
    if (rc != e) c.fail("code", "the fork took %u of %u and returned %d", took, n, rc);
    taken += took;
    c.ev("push %u = %d, %u taken", n, rc, took);
    if (rc == 0) c.probe(P_PARTIAL);
    if (rc < 0) c.probe(P_REJECT);
    if (took) c.nontrivial();
    return took;
  }
  void run_collector() {
    int32_t cap = 1 + c.draw(60);
    StringBuilderSink k(cap);
    std::string all;               // Taken, and not yet emptied.
    if (k.pushBuffer(nullptr) != -1 || k.length() != 0) c.fail("collector", "something was taken of nothing");
    {
      BufferAccepterFork none;
      StringBuilder b("nobody");
      if (none.bufferAvailable() != 0 || none.pushBuffer(&b) != -1 || b.length() != 6) c.fail("available", "a fork with no sides takes something");
    }
    c.plan_ops(10 + c.draw(40));
    while (c.next_op() && !c.failed()) {
      c.step();
      if (k.bufferAvailable() != cap - (int) all.size()) c.fail("available", "a collector of %d that holds %u has room for %d", cap, (unsigned) all.size(), k.bufferAvailable());
      if (c.chance(1, 4)) {  uint32_t n = c.draw(all.size() + 1);  k.cull((int) n);  all.erase(0, n);  c.ev("emptied of %u", n);  continue;  }
      StringBuilder b;
      std::string t;
      uint32_t pieces = c.draw(4);
      for (uint32_t i = 0; i < pieces; i++) {
        std::string q;
        uint32_t n = 1 + c.draw(20);
        while (n--) q += (char) ++seq;
        b.concat((uint8_t*) q.data(), q.size());
        t += q;
      }
      uint32_t room = cap - all.size(), e = room < t.size() ? room : t.size();
      arm();
      int rc = k.pushBuffer(&b);
      bool d = disarm();
      std::string left;
      for (int i = 0; i < b.count(); i++) {  int z;  uint8_t* p = b.position(i, &z);  left += std::string((char*) p, z);  }
      uint32_t took = t.size() - left.size();
      c.ev("push %u = %d, %u taken, with room for %u", (unsigned) t.size(), rc, took, room);
      if (left.size() > t.size() || t.substr(took) != left) {  c.fail("residue", "what remains of the %u bytes pushed is not their end", (unsigned) t.size());  break;  }
      if (took > e || (!d && took != e)) c.fail("collector", "%u of %u bytes were taken, with room for %u", took, (unsigned) t.size(), room);
      if (rc != (took == 0 ? -1 : took < t.size() ? 0 : 1)) c.fail("code", "the collector took %u of %u and returned %d", took, (unsigned) t.size(), rc);
      all += t.substr(0, took);
      std::string g;
      for (int i = 0; i < k.count(); i++) {  int z;  uint8_t* p = k.position(i, &z);  g += std::string((char*) p, z);  }
      if (g != all) c.fail("collector", "the collector holds [%s] rather than [%s]", sb::show(g).c_str(), sb::show(all).c_str());
      if (took) c.nontrivial();
      if (took < t.size() && took) c.probe(P_PARTIAL);
      if (all.size() == (size_t) cap) c.probe(P_COLLECT_FULL);
      c.state(hash64(777, all.size() * 4 / cap));
    }
  }
  void run() {
    if (c.chance(1, 6)) {  run_collector();  return;  }
    outer.reset(new BufferAccepterFork());
    nested = c.chance(1, 3);
    bool one = !nested && c.chance(1, 8);
    if (!one) {  l = fresh();  outer->leftHand(l->ba());  }  else c.probe(P_ONE_HAND);
    r = fresh();
    if (nested) {
      m = fresh();
      inner.reset(new BufferAccepterFork(m->ba(), r->ba()));
      tap.to = inner.get();
      outer->rightHand(&tap);
      c.probe(P_NESTED);
    }
    else outer->rightHand(r->ba());
    c.plan_ops(10 + c.draw(60));
    while (c.next_op() && !c.failed()) {
      c.step();
      uint32_t k = c.draw(10);
      Hand* h = c.pick({l, m, r});
      if (k < 5) {
        uint32_t n = 1 + c.draw(c.pick({2u, 10u, 50u}));
        while (stream.size() < taken + n) stream += (char) ++seq;
        push(n, true);
      }
      else if (k < 8) {
        if (h && h->sink) {  mood(h);  c.ev("a hand has room for %d%s%s%s", h->sink->room, h->sink->refuse ? ", refuses" : "", h->sink->part ? ", takes parts" : "", h->sink->unknown ? ", does not know" : "");  }
        else if (h) {
          uint32_t n = c.draw(h->coll->length() + 1);
          std::string g = h->got();
          if (h->coll->length() == h->cap) c.probe(P_COLLECT_FULL);
          h->coll->cull((int) n);
          h->drained += g.substr(h->drained.size(), n);
          c.ev("a collector is emptied of %u", n);
        }
      }
      else if (k == 8) {
        int32_t a = outer->bufferAvailable();
        int32_t e = room(l, nested ? least(room_of(m), room_of(r)) : room_of(r));
        if (a != e) c.fail("available", "the fork has room for %d, and its sides for %d", a, e);
        c.ev("room for %d", a);
      }
      else if (c.chance(1, 4)) {
        // Another, or nothing, takes the place of a hand.
        const bool IN = nested && c.chance(2, 3), LEFT = c.chance(1, 2);
        BufferAccepterFork* f = IN ? inner.get() : outer.get();
        Hand*& it = IN ? (LEFT ? m : r) : (LEFT ? l : r);
        Hand* other = IN ? (LEFT ? r : m) : (LEFT ? r : l);
        if (nested && !IN) {  if (!LEFT) continue;  other = r ? r : m;  }
        if (it && other && c.chance(1, 4)) {  it = nullptr;  c.probe(P_DETACHED);  }
        else it = fresh(IN);
        if (LEFT) f->leftHand(it ? it->ba() : nullptr);
        else f->rightHand(it ? it->ba() : nullptr);
        if ((LEFT ? f->leftHand() : f->rightHand()) != (it ? it->ba() : nullptr)) c.fail("hand", "a fork does not have the hand that it was given");
        c.fault(F_DETACH);  c.probe(P_SWAP);
        c.ev("%s hand%s is %s", LEFT ? "a left" : "a right", IN ? " of the inner fork" : "", it ? "replaced" : "taken away");
      }
      check();
      c.state(hash64(hash64(l ? l->base + l->got().size() - taken : 99, r ? r->base + r->got().size() - taken : 99), outer->bufferAvailable() > 0));
    }
    c.begin_tail();
    if (!c.failed()) {
      // The pressure ends. All of it gets through.
      for (int i = 0; i < 400 && !c.failed(); i++) {
        for (Hand* h : {l, m, r}) {
          if (!h) continue;
          if (h->sink) {  h->sink->room = 1000;  h->sink->refuse = h->sink->part = h->sink->unknown = false;  }
          else {  h->drained = h->got();  h->coll->clear();  }
        }
        if (taken >= stream.size()) break;
        push(stream.size() - taken, false);
        check();
      }
      if (!c.failed() && taken < stream.size()) c.fail("stuck", "%u bytes cannot be pushed, though both hands are empty", (unsigned) (stream.size() - taken));
    }
    outer.reset();  inner.reset();
  }
};

void run(Ctx& c) {
  size_t before = heap_in_use();
  {  Run r(c);  r.run();  }
  if (!c.failed() && heap_in_use() > before) c.fail("leak", "%u bytes were not released", (unsigned) (heap_in_use() - before));
}
}

sim::Harness g_harness = {"P01",
  "a case is a history of pushes into a fork of two or three hands whose appetites vary; non-trivial if bytes were taken",
  run,
  {"allocation failure", "hand refuses", "hand takes a part", "hand does not know its space", "hand is replaced"},
  {"one hand is ahead of the other", "push taken in part", "push rejected", "fork in a fork", "collector is full", "operation refused memory", "hand replaced", "fork with one hand", "hand taken away"},
  {"BufferAccepter.cpp", "StringBuilder.cpp"},
  {"scripted sinks", "malloc (refuses on request)"},
  "how far each hand is ahead, and whether there is room",
  {}, 20000, 400000
};
