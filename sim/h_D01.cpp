/* D01: the ring buffer is a bounded FIFO, whatever the history, and whether or not memory could be had. */
#include "engine.h"
#include "platform.h"
#include "RingBuffer.h"
#include <deque>
#include <string.h>
using namespace sim;

namespace {
enum {  F_ALLOC, F_BAD  };
enum {  P_FULL, P_EMPTY, P_BULK_PART, P_CULL, P_CLEAR, P_ABSENT, P_UNALLOC, P_BULK_GET  };

struct Big {
  uint32_t v[3];
  Big(int x = 0) {  v[0] = (uint32_t) x;  v[1] = (uint32_t) x * 3u;  v[2] = (uint32_t) x * 0x01010101u;  }
  bool operator==(const Big& o) const {  return 0 == memcmp(v, o.v, sizeof(v));  }
};
struct Odd {
  uint8_t v[3];
  Odd(int x = 0) {  v[0] = (uint8_t) x;  v[1] = (uint8_t) (x >> 8);  v[2] = (uint8_t) (x >> 16);  }
  bool operator==(const Odd& o) const {  return 0 == memcmp(v, o.v, 3);  }
};

template <class T> struct Run {
  Ctx& c;
  RingBuffer<T>* b = nullptr;
  std::deque<T> q;  uint32_t wr = 0;
  uint32_t cap = 0, seq = 1, spread = 0;
  bool have = false;         // Memory is known to have been had.
  Run(Ctx& x) : c(x) {}
  T val() {  return T((int) (spread ? 1 + c.draw(spread) : seq++));  }

  // Every call may be the one that allocates.
  void arm() {  if (!have && c.chance(1, 3)) {  g_malloc_fail_in = 0;  g_malloc_fail_sticky = true;  }  }
  void disarm() {
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
    if (denied()) {  c.fault(F_ALLOC);  c.probe(P_UNALLOC);  }
    g_malloc_failed = 0;
  }
  bool denied() {  return g_malloc_failed > 0;  }
  void run() {
    cap = 1 + c.draw(c.pick({2u, 8u, 40u}));
    spread = c.pick({0u, 3u, 200u});
    b = new RingBuffer<T>(cap);
    c.ev("capacity %u, elements of %u", cap, (unsigned) sizeof(T));
    c.plan_ops(10 + c.draw(90));
    g_malloc_failed = 0;
    while (c.next_op() && !c.failed()) {
      c.step();
      uint32_t kind = c.draw(12);
      uint32_t len = c.draw(2 * cap + 2);
      arm();
      switch (kind) {
        case 0: case 1: {
          T v = val();
          int r = b->insert(v);
          bool ok = !denied() && q.size() < cap;
          c.ev("insert = %d", r);
          if ((r == 0) != ok) c.fail("insert", "insert into %u of %u%s returned %d", (unsigned) q.size(), cap, denied() ? " without memory" : "", r);
          if (ok) {  {  q.push_back(v);  wr++;  }  c.nontrivial();  }
          else if (!denied()) c.probe(P_FULL);
          break;
        }
        case 2: {
          T v = val();
          int r = b->insertIfAbsent(v);
          bool has = false;
          for (auto& x : q) has |= (x == v);
          int e = has ? -2 : (!denied() && q.size() < cap) ? 0 : -1;
          c.ev("insertIfAbsent = %d", r);
          // An implementation may see that it has no memory, or no room, first.
          bool good = (e == 0) ? r == 0 : r < 0;
          if (!good) c.fail("insert-if-absent", "insertIfAbsent() returned %d; %d expected", r, e);
          if (e == 0) {  q.push_back(v);  wr++;  }
          if (has) c.probe(P_ABSENT);
          break;
        }
        case 3: case 4: {
          T* v = new T[len + 1];
          for (uint32_t i = 0; i < len; i++) v[i] = val();
          bool null = c.chance(1, 30);
          int r = b->insert(null ? nullptr : v, len);
          uint32_t room = denied() ? 0 : cap - (uint32_t) q.size(), k = len < room ? len : room;
          c.ev("insert %u = %d", len, r);
          if (null) {  c.fault(F_BAD);  if (r > 0) c.fail("bulk-insert", "%d elements were taken from nowhere", r);  r = 0;  }
          else if (r < 0 && k > 0) c.fail("bulk-insert", "insert of %u into %u of %u returned %d", len, (unsigned) q.size(), cap, r);
          else if (r > 0 && (uint32_t) r != k) c.fail("bulk-insert", "insert of %u into %u of %u returned %d", len, (unsigned) q.size(), cap, r);
          else if (r == 0 && k > 0) c.fail("bulk-insert", "nothing was taken, but there was room");
          else {  for (int i = 0; i < r; i++) {  q.push_back(v[i]);  wr++;  }  if (k < len) c.probe(P_BULK_PART);  }
          delete[] v;
          break;
        }
        case 5: case 6: {
          T v = b->get();
          T e = q.empty() ? T(0) : q.front();
          if (!(v == e)) c.fail("get", "get() returned the wrong element, with %u held", (unsigned) q.size());
          if (q.empty()) c.probe(P_EMPTY);  else q.pop_front();
          c.ev("get");
          break;
        }
        case 7: {
          T* v = new T[len + 1];
          bool take = c.chance(1, 2);
          bool null = c.chance(1, 30);
          if (null) {
            c.fault(F_BAD);
            int r = take ? b->get(nullptr, len) : b->peek((T*) nullptr, len);
            if (r > 0) c.fail("bulk-get", "%d elements went nowhere", r);
            delete[] v;
            break;
          }
          int r = take ? b->get(v, len) : b->peek(v, len);
          uint32_t k = len < q.size() ? len : (uint32_t) q.size();
          c.ev("%s %u = %d", take ? "get" : "peek", len, r);
          if (len == 0 || denied()) {  if (r > 0) c.fail("bulk-get", "took %d elements of none", r);  }
          else if (r != (int) k) c.fail("bulk-get", "%s of %u from %u returned %d", take ? "get" : "peek", len, (unsigned) q.size(), r);
          for (int i = 0; i < r && !c.failed(); i++) if (!(v[i] == q[i])) c.fail("bulk-get", "element %d of %d is wrong", i, r);
          for (int i = 0; i < r && take && !c.failed(); i++) q.pop_front();
          delete[] v;
          c.probe(P_BULK_GET);
          break;
        }
        case 8: {
          int r = b->cull(len);
          uint32_t k = len < q.size() ? len : (uint32_t) q.size();
          c.ev("cull %u = %d", len, r);
          if (len == 0 || denied()) {  if (r > 0) c.fail("cull", "culled %d", r);  }
          else if (r != (int) k) c.fail("cull", "cull of %u from %u returned %d", len, (unsigned) q.size(), r);
          else while (k--) q.pop_front();
          c.probe(P_CULL);
          break;
        }
        case 9: if (c.chance(1, 4)) {  b->clear();  q.clear();  wr = 0;  c.probe(P_CLEAR);  c.ev("clear");  }  break;
        case 10: {
          T v = (!q.empty() && c.chance(1, 2)) ? q[c.draw((uint32_t) q.size())] : val();
          bool has = false;
          for (auto& x : q) has |= (x == v);
          if (b->contains(v) != has) c.fail("contains", "contains() is wrong");
          break;
        }
        case 11: {
          uint32_t i = c.draw(cap + 3);
          T v = b->peek(i);
          if (i < q.size() && !(v == q[i])) c.fail("peek", "peek(%u) of %u is wrong", i, (unsigned) q.size());
          T w = b->peek(i, true);      // From the start of memory, rather than the front of the line.
          uint32_t k = (i % cap + 2 * cap - (wr - (uint32_t) q.size()) % cap) % cap;
          if (i < cap && k < q.size() && !(w == q[k])) c.fail("peek", "peek(%u) from the start of memory is wrong", i);
          T x = b->peek();
          if (!(x == (q.empty() ? T(0) : q.front()))) c.fail("peek", "peek() is wrong");
          break;
        }
      }
      disarm();
      if (!q.empty()) have = true;
      if (c.failed()) break;
      if (b->count() != q.size() || b->vacancy() != cap - q.size() || b->isEmpty() != q.empty() || b->capacity() != cap)
        c.fail("count", "count %u vacancy %u; %u of %u expected", b->count(), b->vacancy(), (unsigned) q.size(), cap);
      c.state((uint64_t) q.size() << 8 | cap << 16 | kind);
    }
    if (c.failed()) return;
    c.begin_tail();
    while (!q.empty() && !c.failed()) {  if (!(b->get() == q.front())) c.fail("drain", "the wrong element was drained");  q.pop_front();  }
    if (!c.failed() && !b->isEmpty()) c.fail("drain", "elements remain");
    delete b;
  }
};
void run(Ctx& c) {
  switch (c.draw(5)) {
    case 0: {  Run<uint8_t> r(c);  r.run();  break;  }
    case 1: {  Run<uint32_t> r(c);  r.run();  break;  }
    case 2: {  Run<Big> r(c);  r.run();  break;  }
    case 3: {  Run<Odd> r(c);  r.run();  break;  }
    case 4: {  Run<uint16_t> r(c);  r.run();  break;  }
  }
}
}

Harness g_harness = {
  "D01",
  "One run: a ring of 1 to 40 elements (of 1, 2, 3, 4 or 12 bytes) through up to 100 single and bulk inserts, gets, peeks, culls and clears, with the allocation refused at any call until it is first made. "
  "Non-trivial: an element went in. Distinct by event log.",
  run,
  {"allocation refused", "null argument"},
  {"insert when full", "get when empty", "partial bulk insert", "cull", "clear", "insertIfAbsent of a duplicate", "call without memory", "bulk get or peek"},
  {"RingBuffer"},
  {"allocator"},
  "elements held x capacity x operation, consecutive pairs",
  {}, 20000, 400000
};
