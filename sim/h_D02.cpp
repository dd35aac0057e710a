/* D02: the priority queue and the linked list hold what was put in them, in order, and give back the memory. */
#include "engine.h"
#include "platform.h"
#include "PriorityQueue.h"
#include "LightLinkedList.h"
#include <algorithm>
#include <vector>
using namespace sim;

namespace {
enum {  F_ALLOC  };
enum {  P_INSERT, P_TIE, P_REMOVE_VAL, P_REMOVE_DUP, P_REMOVE_ROOT, P_RECYCLE, P_PROMOTE, P_DEMOTE, P_CLEAR, P_ABSENT, P_LIST  };

struct E {  void* d;  int p;  };
struct Q {
  Ctx& c;
  PriorityQueue<void*>* q;
  std::vector<E> m;
  uintptr_t seq = 0x1000;
  uint32_t spread = 0;
  Q(Ctx& x) : c(x) {}
  void* val() {  return (void*) (spread ? 0x10u + c.draw(spread) : (seq += 4));  }
  void* some() {  return (m.empty() || c.chance(1, 5)) ? val() : m[c.draw((uint32_t) m.size())].d;  }
  int pri() {  return c.chance(1, 12) ? (int) c.pick({-5, -1, 0x7FFFFFF0, -0x7FFFFFF0}) : (int) c.draw(6);  }
  size_t find(void* d) {  for (size_t i = 0; i < m.size(); i++) if (m[i].d == d) return i;  return m.size();  }
  size_t put(void* d, int p) {
    size_t i = 0;
    while (i < m.size() && m[i].p >= p) i++;
    if (i > 0 && m[i - 1].p == p) c.probe(P_TIE);
    m.insert(m.begin() + i, E{d, p});
    return i;
  }
  void sorted() {  std::stable_sort(m.begin(), m.end(), [](const E& a, const E& b) {  return a.p > b.p;  });  }
  bool arm() {  if (!c.chance(1, 12)) return false;  g_malloc_fail_in = 0;  g_malloc_fail_sticky = true;  g_malloc_failed = 0;  return true;  }
  bool disarm() {  bool f = g_malloc_failed > 0;  g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;  if (f) c.fault(F_ALLOC);  return f;  }
  void check() {
    if (q->size() != (int) m.size()) {  c.fail("size", "size is %d; %u expected", q->size(), (unsigned) m.size());  return;  }
    if (q->hasNext() != !m.empty()) {  c.fail("has-next", "hasNext() is wrong");  return;  }
    if (q->get() != (m.empty() ? nullptr : m[0].d)) {  c.fail("head", "get() is not the head");  return;  }
    for (size_t i = 0; i < m.size() + 1 && !c.failed(); i++) {
      void* e = i < m.size() ? m[i].d : nullptr;
      if (q->get((int) i) != e) c.fail("order", "element %u of %u is wrong", (unsigned) i, (unsigned) m.size());
      else if (i < m.size() && q->getPriority((int) i) != m[i].p) c.fail("priority", "element %u has priority %d; %d expected", (unsigned) i, q->getPriority((int) i), m[i].p);
    }
  }
  void run() {
    size_t h0 = heap_in_use();
    q = new PriorityQueue<void*>();
    spread = c.pick({0u, 0u, 3u, 12u});
    c.plan_ops(10 + c.draw(60));
    m.reserve(256);
    while (c.next_op() && !c.failed()) {
      c.step();
      uint32_t kind = c.draw(14);
      switch (kind) {
        case 0: case 1: case 2: {
          void* d = val();  int p = c.chance(1, 5) ? 0 : pri();
          bool simple = (p == 0) && c.chance(1, 2);
          arm();
          int r = simple ? q->insert(d) : q->insert(d, p);
          if (disarm()) {  if (r != -1) c.fail("insert", "an insert without memory returned %d", r);  break;  }
          size_t i = put(d, p);
          c.ev("insert %p at %d = %d", d, p, r);
          if (r != (int) i) c.fail("insert", "insert returned position %d; %u expected", r, (unsigned) i);
          c.probe(P_INSERT);  c.nontrivial();
          break;
        }
        case 3: case 4: {
          void* d = some();  int p = c.chance(1, 5) ? 0 : pri();
          bool simple = (p == 0) && c.chance(1, 2), has = find(d) < m.size();
          arm();
          int r = simple ? q->insertIfAbsent(d) : q->insertIfAbsent(d, p);
          bool f = disarm();
          c.ev("insertIfAbsent %p at %d = %d", d, p, r);
          if (has || f) {  if (r != -1) c.fail("insert-if-absent", "insertIfAbsent() of something %s returned %d", has ? "held" : "there was no memory for", r);  if (has) c.probe(P_ABSENT);  break;  }
          size_t i = put(d, p);
          if (r != (int) i) c.fail("insert-if-absent", "insertIfAbsent() returned position %d; %u expected", r, (unsigned) i);
          break;
        }
        case 5: case 6: {
          void* r = q->dequeue();
          if (r != (m.empty() ? nullptr : m[0].d)) c.fail("dequeue", "dequeue() did not return the head");
          if (!m.empty()) m.erase(m.begin());
          c.ev("dequeue");
          break;
        }
        case 7: if (c.chance(1, 2)) {
          void* r = q->recycle();
          if (r != (m.empty() ? nullptr : m[0].d)) c.fail("recycle", "recycle() did not return the head");
          if (m.size() > 1) {  E e = m[0];  m.erase(m.begin());  e.p = m.back().p;  m.push_back(e);  c.probe(P_RECYCLE);  }
          c.ev("recycle");
          break;
        }
        // fall through
        case 8: {
          int i = (int) c.draw((uint32_t) m.size() + 2);
          bool r = q->remove(i);
          if (r != (i < (int) m.size())) c.fail("remove", "remove(%d) of %u returned %d", i, (unsigned) m.size(), r);
          if (r) m.erase(m.begin() + i);
          c.ev("remove at %d", i);
          break;
        }
        case 9: case 10: {
          void* d = some();
          size_t n = 0;
          if (!m.empty() && m[0].d == d) c.probe(P_REMOVE_ROOT);
          for (size_t i = 0; i < m.size();) {  if (m[i].d == d) {  m.erase(m.begin() + i);  n++;  } else i++;  }
          bool r = q->remove(d);
          if (r != (n > 0)) c.fail("remove", "remove(%p) returned %d", d, r);
          if (n) c.probe(P_REMOVE_VAL);
          if (n > 1) c.probe(P_REMOVE_DUP);
          c.ev("remove %p, held %u times", d, (unsigned) n);
          break;
        }
        case 11: {
          void* d = some();
          bool up = c.chance(1, 2);
          size_t i = find(d);
          bool r = up ? q->incrementPriority(d) : q->decrementPriority(d);
          if (r != (i < m.size())) c.fail("adjust", "%screment of %p returned %d", up ? "in" : "de", d, r);
          if (i < m.size()) {  m[i].p += up ? 1 : -1;  sorted();  c.probe(up ? P_PROMOTE : P_DEMOTE);  }
          c.ev("%screment %p", up ? "in" : "de", d);
          break;
        }
        case 12: {
          void* d = some();  int p = pri();
          size_t i = find(d);
          bool has = i < m.size();
          void* e = nullptr;
          for (auto& x : m) if (x.p == p) {  e = x.d;  break;  }
          if (q->contains(d) != has) c.fail("contains", "contains() is wrong");
          else if (q->getPosition(d) != (has ? (int) i : -1)) c.fail("position", "getPosition() is %d", q->getPosition(d));
          else if (q->getPriority(d) != (has ? m[i].p : -1)) c.fail("priority", "getPriority() is %d", q->getPriority(d));
          else if (q->getByPriority(p) != e) c.fail("by-priority", "getByPriority(%d) is wrong", p);
          break;
        }
        case 13: if (c.chance(1, 6)) {
          int r = q->clear();
          if (r != (int) m.size()) c.fail("clear", "clear() of %u returned %d", (unsigned) m.size(), r);
          m.clear();  c.probe(P_CLEAR);  c.ev("clear");
        }
        break;
      }
      if (!c.failed()) check();
      c.state((uint64_t) m.size() << 8 | kind | (uint64_t) (m.empty() ? 0 : m[0].p == m.back().p) << 40);
    }
    if (c.failed()) return;
    c.begin_tail();
    std::vector<E>().swap(m);
    delete q;
    if (heap_in_use() > h0) c.fail("leak", "%u bytes were not given back", (unsigned) (heap_in_use() - h0));
  }

  void run_list() {
    c.probe(P_LIST);
    size_t h0 = heap_in_use();
    LinkedList<void*>* l = new LinkedList<void*>();
    std::vector<void*> v;
    v.reserve(256);
    spread = c.pick({0u, 0u, 3u, 12u});
    auto any = [&]() -> void* {  return (v.empty() || c.chance(1, 5)) ? val() : v[c.draw((uint32_t) v.size())];  };
    c.plan_ops(10 + c.draw(60));
    while (c.next_op() && !c.failed()) {
      c.step();
      uint32_t kind = c.draw(9);
      switch (kind) {
        case 0: case 1: case 2: {
          void* d = val();
          bool head = c.chance(1, 3);
          arm();
          int r = head ? l->insertAtHead(d) : l->insert(d);
          bool f = disarm();
          c.ev("insert %p%s = %d", d, head ? " at head" : "", r);
          if (f) {  if (r != -1) c.fail("list-insert", "an insert without memory returned %d", r);  break;  }
          if (r < 0) c.fail("list-insert", "insert returned %d", r);
          if (head) v.insert(v.begin(), d);  else v.push_back(d);
          c.nontrivial();
          break;
        }
        case 3: {
          void* r = l->remove();
          if (r != (v.empty() ? nullptr : v[0])) c.fail("list-remove", "remove() did not return the head");
          if (!v.empty()) v.erase(v.begin());
          c.ev("remove");
          break;
        }
        case 4: {
          int i = (int) c.draw((uint32_t) v.size() + 2);
          void* r = l->remove(i);
          if (r != (i < (int) v.size() ? v[i] : nullptr)) c.fail("list-remove", "remove(%d) returned the wrong thing", i);
          if (i < (int) v.size()) v.erase(v.begin() + i);
          c.ev("remove at %d", i);
          break;
        }
        case 5: case 6: {
          void* d = any();
          size_t n = 0;
          for (size_t i = 0; i < v.size();) {  if (v[i] == d) {  v.erase(v.begin() + i);  n++;  } else i++;  }
          bool r = l->remove(d);
          if (r != (n > 0)) c.fail("list-remove", "remove(%p) returned %d", d, r);
          if (n > 1) c.probe(P_REMOVE_DUP);
          c.ev("remove %p, held %u times", d, (unsigned) n);
          break;
        }
        case 7: if (c.chance(1, 6)) {
          int r = l->clear();
          if (r != (int) v.size()) c.fail("list-clear", "clear() of %u returned %d", (unsigned) v.size(), r);
          v.clear();  c.ev("clear");
        }
        break;
        case 8: {
          void* d = any();
          bool has = false;
          for (auto x : v) has |= (x == d);
          if (l->contains(d) != has) c.fail("list-contains", "contains() is wrong");
          break;
        }
      }
      if (c.failed()) break;
      if (l->size() != (int) v.size() || l->hasNext() != !v.empty() || l->get() != (v.empty() ? nullptr : v[0])) c.fail("list-size", "size is %d; %u expected", l->size(), (unsigned) v.size());
      for (size_t i = 0; i <= v.size() && !c.failed(); i++) if (l->get((int) i) != (i < v.size() ? v[i] : nullptr)) c.fail("list-order", "element %u is wrong", (unsigned) i);
      c.state((uint64_t) v.size() << 8 | kind | 1ull << 50);
    }
    if (c.failed()) return;
    c.begin_tail();
    std::vector<void*>().swap(v);
    delete l;
    if (heap_in_use() > h0) c.fail("leak", "%u bytes were not given back", (unsigned) (heap_in_use() - h0));
  }
};
void run(Ctx& c) {  Q q(c);  if (c.chance(1, 3)) q.run_list();  else q.run();  }
}

Harness g_harness = {
  "D02",
  "One run: a priority queue (or, in one of three, a linked list) through up to 70 inserts, removals, promotions, demotions, recycles and questions, with allocations refused at random. "
  "Non-trivial: an element went in. Distinct by event log.",
  run,
  {"allocation refused"},
  {"insert", "insert behind a tie", "removal by value", "removal of duplicates", "removal of the head by value", "recycle", "promotion", "demotion", "clear", "insertIfAbsent of a duplicate", "linked list"},
  {"PriorityQueue", "LinkedList"},
  {"allocator"},
  "elements held x operation, consecutive pairs",
  {}, 20000, 400000
};
