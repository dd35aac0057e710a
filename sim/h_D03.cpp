/* D03: the element pool never lends one element twice, and prefers what it preallocated to the heap. */
#include "engine.h"
#include "platform.h"
#include "ElementPool.h"
#include <vector>
#include <set>
using namespace sim;

namespace {
enum {  F_ALLOC  };
enum {  P_TAKE, P_OVER, P_GIVE, P_GIVE_OVER, P_STARVED, P_OWN_MEM, P_EXPLICIT  };
int alive = 0;
struct E {
  uint32_t mark = 0xFEEDC0DE;  uint32_t tag = 0;  uint8_t pad[7];
  E() {  alive++;  }
  ~E() {  alive--;  mark = 0;  }
};

void run(Ctx& c) {
  uint32_t n = 1 + c.draw(c.pick({2u, 6u, 16u})), limit = c.draw(6);
  bool own = c.chance(1, 3);
  size_t h0 = heap_in_use();
  E* mem = own ? (E*) malloc(n * sizeof(E)) : nullptr;
  ElementPool<E>* p = new ElementPool<E>(n, limit, mem);
  struct L {  E* e;  bool pooled;  uint32_t tag;  };
  std::vector<L> out;
  std::set<E*> known;        // Addresses that have been seen to be in the pool.
  out.reserve(128);
  uint32_t over = 0, freed = 0, low = n, in = 0, tags = 1;
  bool ready = false;        // The pool has its memory.
  c.ev("%u elements, limit %u%s", n, limit, own ? ", memory supplied" : "");
  if (own) c.probe(P_OWN_MEM);
  auto arm = [&]() {  g_malloc_failed = 0;  if (!ready && c.chance(1, 4)) {  g_malloc_fail_in = (int) c.draw(2);  g_malloc_fail_sticky = c.chance(1, 2);  }  };
  auto disarm = [&]() -> bool {  bool f = g_malloc_failed > 0;  g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;  if (f) c.fault(F_ALLOC);  return f;  };
  c.plan_ops(6 + c.draw(80));
  while (c.next_op() && !c.failed()) {
    c.step();
    uint32_t kind = c.draw(7);
    switch (kind) {
      case 0: {
        arm();
        bool r = p->allocated();
        bool f = disarm();
        c.ev("allocated() = %d", r);
        if (r == f) c.fail("allocated", "allocated() returned %d%s", r, f ? " without memory" : "");
        if (r && !ready) {  ready = true;  in = n;  c.probe(P_EXPLICIT);  }
        break;
      }
      case 1: case 2: case 3: {
        arm();
        E* e = p->take();
        bool f = disarm();
        if (!f && !ready) {  ready = true;  in = n;  }
        bool from_pool = ready && in > 0;
        c.ev("take%s", from_pool ? "" : " (overdraw)");
        if (e == nullptr) {
          if (from_pool) c.fail("starved", "take() returned nothing, and %u are available", in);
          else if (!f && over - freed < limit) c.fail("starved", "take() returned nothing, within the limit of overdraw");
          else c.probe(P_STARVED);
          break;
        }
        for (auto& o : out) if (o.e == e) c.fail("lent-twice", "take() returned an element that is already lent");
        if (c.failed()) break;
        if (e->mark != 0xFEEDC0DE) {  c.fail("dead", "take() returned an object that was not constructed");  break;  }
        if (p->inPool(e) != from_pool) {  c.fail("source", "an element came from the %s, with %u in the pool", from_pool ? "heap" : "pool", in);  break;  }
        if (from_pool) {  in--;  known.insert(e);  if (known.size() > n) c.fail("pool-size", "a pool of %u lent %u different elements", n, (unsigned) known.size());  }
        else {  over++;  c.probe(P_OVER);  }
        if (ready && in < low) low = in;
        if (!ready) low = 0;
        e->tag = tags;
        out.push_back(L{e, from_pool, tags++});
        c.probe(P_TAKE);  c.nontrivial();
        break;
      }
      case 4: case 5: {
        if (out.empty()) break;
        uint32_t i = c.draw((uint32_t) out.size());
        L l = out[i];
        out.erase(out.begin() + i);
        if (l.e->tag != l.tag || l.e->mark != 0xFEEDC0DE) {  c.fail("disturbed", "a lent element was disturbed");  break;  }
        int a = alive;
        int r = p->give(l.e);
        c.ev("give = %d", r);
        if (r != (l.pooled ? 1 : 0)) c.fail("give", "give() of an element from the %s returned %d", l.pooled ? "pool" : "heap", r);
        else if (l.pooled) {  in++;  c.probe(P_GIVE);  }
        else {  freed++;  c.probe(P_GIVE_OVER);  if (alive != a - 1) c.fail("give", "an overdrawn element was not destroyed");  }
        break;
      }
      case 6: {
        uint32_t x = c.draw(6);
        p->overdrawLimit(x);  limit = x;
        if (p->overdrawLimit() != x) c.fail("limit", "overdrawLimit() is wrong");
        break;
      }
    }
    if (c.failed()) break;
    if (p->capacity() != n || p->available() != in) c.fail("available", "%u of %u available; %u expected", p->available(), p->capacity(), in);
    else if (p->overdraws() != over || p->overdrawsFreed() != freed) c.fail("overdraws", "%u overdrawn and %u freed; %u and %u expected", p->overdraws(), p->overdrawsFreed(), over, freed);
    else if (p->lowWaterMark() != low) c.fail("low-water", "low water mark is %u; %u expected", p->lowWaterMark(), low);
    for (auto& o : out) if (o.e->tag != o.tag) {  c.fail("disturbed", "a lent element was disturbed");  break;  }
    c.state((uint64_t) in << 16 | n << 8 | (over - freed) << 24 | ready);
  }
  if (c.failed()) return;
  c.begin_tail();
  for (auto& o : out) p->give(o.e);
  delete p;
  free(mem);
  std::vector<L>().swap(out);
  known.clear();
  if (heap_in_use() > h0) c.fail("leak", "%u bytes were not given back", (unsigned) (heap_in_use() - h0));
}
bool overdraw_unlimited() {
  ElementPool<E> p(1, 0);
  p.allocated();
  E* a = p.take();
  E* b = p.take();
  bool r = (b != nullptr);
  if (b) p.give(b);
  p.give(a);
  return r;
}
}

Harness g_harness = {
  "D03",
  "One run: a pool of 1 to 16 elements, on its own memory or the application's, through up to 86 takes, gives and changes of limit, with its allocation refused at any call until it is first made. "
  "Non-trivial: an element was taken. Distinct by event log.",
  run,
  {"allocation refused"},
  {"take", "overdraw", "return to the pool", "return of an overdrawn element", "take refused", "memory supplied", "explicit allocation"},
  {"ElementPool", "RingBuffer"},
  {"allocator"},
  "elements in the pool x size x overdrawn, consecutive pairs",
  {{"D03-1", "ElementPool::take() allocates without regard to its limit on overdraw", overdraw_unlimited}}, 20000, 400000
};
