/* P06: pipelines of vectors. Trees of forks, axis converters and filters end in termini and in scripted sinks
*  that refuse, defer and accept as they please. A model of the tree says what arrives where, and what is returned. */
#include "engine.h"
#include "platform.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
#include <memory>
#include <vector>
#include <cmath>
#include <cstring>
using namespace sim;

namespace {
enum {  F_REFUSE, F_DEFER, F_ASYNC, F_NOMEM, F_DETACH, F_WRAP  };
enum {  P_FORK, P_CONV, P_FILTER_OUT, P_FILTER_FILL, P_FILTER_DIRTY, P_RELAY, P_TERM, P_TERM_OTHER, P_CB_CLAIM, P_CB_LEFT, P_FRESH, P_STALE, P_NOERR, P_ERR, P_RESET, P_REWIRE, P_DEAD, P_NEGATED  };

struct V3 {  float x = 0, y = 0, z = 0;  };
struct Arrival {  int node;  SpatialSense s;  V3 d;  bool he;  V3 e;  };

struct Run;
Run* g_run = nullptr;

struct Script : public TripleAxisPipe {
  int id;  int8_t code = 0;
  Script(int i) : id(i) {}
  int8_t pushVector(const SpatialSense s, Vector3f* d, Vector3f* e) override;
  void printPipe(StringBuilder* o, uint8_t, uint8_t) override {}
};

struct Node {
  enum K {  FORK, CONV, FILT, TERM, SINK  } k = SINK;
  int a = -1, b = -1;                      // Children.
  SpatialSense sense = SpatialSense::ACC;
  GnomonType g = GnomonType::UNDEFINED;
  bool cb = false;
  TripleAxisPipe* p = nullptr;
  // Terminus.
  V3 d, e;  bool he = false, fresh = false;  uint32_t n = 0, lo = 0, hi = 0;
  // Filter.
  uint32_t w = 1;  FilteringStrategy st = FilteringStrategy::RAW;
  bool ready = false, dirty = false, fhe = false;  uint32_t fed = 0;  V3 val, ferr;
};

float tol(float a) {  return 1e-4f + std::fabs(a) * 1e-4f;  }
bool near(const V3& a, const V3& b, bool exact) {
  if (exact) return a.x == b.x && a.y == b.y && a.z == b.z;
  return std::fabs(a.x - b.x) <= tol(b.x) && std::fabs(a.y - b.y) <= tol(b.y) && std::fabs(a.z - b.z) <= tol(b.z);
}
V3 of(Vector3f* v) {  V3 r;  r.x = v->x;  r.y = v->y;  r.z = v->z;  return r;  }

struct Run {
  Ctx& c;
  std::vector<Node> n;
  std::vector<std::unique_ptr<TripleAxisFork>> forks;
  std::vector<std::unique_ptr<TripleAxisConvention>> convs;
  std::vector<std::unique_ptr<TripleAxisSingleFilter>> filts;
  std::vector<std::unique_ptr<TripleAxisTerminus>> terms;
  std::vector<std::unique_ptr<Script>> scripts;
  std::vector<Arrival> got, want;
  std::vector<int8_t> codes;               // What each sink answers next; per node.
  std::vector<int> cb_answer;
  bool nomem = false, exact = true;
  uint32_t t_lo = 0;
  Run(Ctx& x) : c(x) {}

  SpatialSense rs() {  return (SpatialSense) c.draw(6);  }
  V3 vec() {
    V3 v;
    auto f = [&]() -> float {  return c.chance(1, 12) ? c.pick({0.0f, -0.0f, 1e-30f, 3e8f, -1e7f}) : ((int32_t) c.draw(20001) - 10000) / 16.0f;  };
    v.x = f();  v.y = f();  v.z = f();
    return v;
  }

  int make(int depth) {
    int i = (int) n.size();
    n.push_back(Node());
    Node::K k = (Node::K) c.draw(5);
    if (depth == 0 && (k == Node::TERM || k == Node::SINK) && c.chance(3, 4)) k = Node::FORK;
    if (depth >= 4 || n.size() > 24) k = c.chance(1, 2) ? Node::TERM : Node::SINK;
    n[i].k = k;
    switch (k) {
      case Node::FORK: {
        int a = c.chance(1, 12) ? -1 : make(depth + 1), b = c.chance(1, 12) ? -1 : make(depth + 1);
        n[i].a = a;  n[i].b = b;
        TripleAxisPipe* l = (a < 0) ? nullptr : n[a].p;  TripleAxisPipe* r = (b < 0) ? nullptr : n[b].p;
        if (c.chance(1, 2)) forks.emplace_back(new TripleAxisFork(l, r));
        else {  forks.emplace_back(new TripleAxisFork());  forks.back()->setLeft(l);  forks.back()->setRight(r);  }
        n[i].p = forks.back().get();
        break;
      }
      case Node::CONV: {
        int a = c.chance(1, 15) ? -1 : make(depth + 1);
        n[i].a = a;
        n[i].g = c.pick({GnomonType::UNDEFINED, GnomonType::RH_POS_X, GnomonType::RH_POS_Y, GnomonType::RH_POS_Z, GnomonType::RH_NEG_X, GnomonType::RH_NEG_Y, GnomonType::RH_NEG_Z,
          GnomonType::LH_POS_X, GnomonType::LH_POS_Y, GnomonType::LH_POS_Z, GnomonType::LH_NEG_X, GnomonType::LH_NEG_Y, GnomonType::LH_NEG_Z});
        TripleAxisPipe* l = (a < 0) ? nullptr : n[a].p;
        if (c.chance(1, 2)) convs.emplace_back(new TripleAxisConvention(l, n[i].g, GnomonType::RH_POS_X));
        else {  convs.emplace_back(new TripleAxisConvention());  convs.back()->setNext(l);  convs.back()->afferentGnomon(n[i].g);  }
        n[i].p = convs.back().get();
        break;
      }
      case Node::FILT: {
        int a = c.chance(1, 12) ? -1 : make(depth + 1);
        n[i].a = a;  n[i].sense = rs();  n[i].w = c.pick({1u, 2u, 3u, 8u});
        n[i].st = c.pick({FilteringStrategy::RAW, FilteringStrategy::MOVING_AVG});
        if (n[i].st == FilteringStrategy::MOVING_AVG) exact = false;
        filts.emplace_back(new TripleAxisSingleFilter(n[i].sense, (a < 0) ? nullptr : n[a].p, n[i].st, n[i].w));
        n[i].p = filts.back().get();
        break;
      }
      case Node::TERM: {
        n[i].sense = rs();  n[i].cb = c.chance(1, 2);
        TripleAxisTerminalCB f = [](SpatialSense s, Vector3f* d, Vector3f* e, uint32_t seq) -> int8_t {  return g_run->called(s, d, e, seq);  };
        terms.emplace_back(n[i].cb ? new TripleAxisTerminus(n[i].sense, f) : new TripleAxisTerminus(n[i].sense));
        n[i].p = terms.back().get();
        break;
      }
      case Node::SINK: scripts.emplace_back(new Script(i));  n[i].p = scripts.back().get();  break;
    }
    return i;
  }

  // ---- the real side
  int8_t arrived(int id, SpatialSense s, Vector3f* d, Vector3f* e) {
    Arrival a;  a.node = id;  a.s = s;  a.d = of(d);  a.he = (e != nullptr);  if (e) a.e = of(e);
    got.push_back(a);
    return codes[id];
  }
  std::vector<uint32_t> cb_seq;
  int8_t called(SpatialSense s, Vector3f* d, Vector3f* e, uint32_t seq) {
    Arrival a;  a.node = -1;  a.s = s;  a.d = of(d);  a.he = (e != nullptr);  if (e) a.e = of(e);
    // Which terminus it was is told by the vector's own address.
    for (int i = 0; i < (int) n.size(); i++) if (n[i].k == Node::TERM && ((TripleAxisTerminus*) n[i].p)->getData() == d) a.node = i;
    got.push_back(a);
    if (a.node < 0) {  c.fail("callback", "a callback was given a vector that no terminus holds");  return 0;  }
    Node& k = n[a.node];
    if (seq != k.n) c.fail("sequence", "the callback of terminus %d was given the sequence number %u; %u expected", a.node, seq, k.n);
    return (int8_t) cb_answer[a.node];
  }

  // ---- the model
  static V3 turn(GnomonType g, const V3& v) {
    V3 r;
    switch (g) {
      case GnomonType::UNDEFINED: case GnomonType::RH_POS_X: case GnomonType::LH_NEG_X: r = v;  break;
      case GnomonType::RH_NEG_X: case GnomonType::LH_POS_X: r = v;  r.x = -v.x;  break;
      case GnomonType::RH_POS_Y: case GnomonType::LH_NEG_Y: r.x = v.y;   r.y = v.z;  r.z = v.x;  break;
      case GnomonType::RH_NEG_Y: case GnomonType::LH_POS_Y: r.x = -v.y;  r.y = v.z;  r.z = v.x;  break;
      case GnomonType::RH_POS_Z: case GnomonType::LH_NEG_Z: r.x = v.z;   r.y = v.x;  r.z = v.y;  break;
      case GnomonType::RH_NEG_Z: case GnomonType::LH_POS_Z: r.x = -v.z;  r.y = v.x;  r.z = v.y;  break;
    }
    return r;
  }
  // `mark` says when a terminus that called back is visited, since its count is checked from inside the callback.
  int8_t flow(int i, SpatialSense s, V3 d, bool he, V3 e) {
    if (i < 0) return -2;
    Node& k = n[i];
    switch (k.k) {
      case Node::SINK: {  Arrival a;  a.node = i;  a.s = s;  a.d = d;  a.he = he;  a.e = e;  want.push_back(a);  return codes[i];  }
      case Node::FORK: {
        int8_t r = -2;
        if (k.a >= 0 && flow(k.a, s, d, he, e) >= 0) r++;
        if (k.b >= 0 && flow(k.b, s, d, he, e) >= 0) r++;
        c.probe(P_FORK);
        return r;
      }
      case Node::CONV: {
        if (k.a < 0) {  c.probe(P_DEAD);  return -2;  }
        c.probe(P_CONV);
        V3 td = turn(k.g, d);
        if (td.x == -d.x || td.x == -d.y || td.x == -d.z) c.probe(P_NEGATED);
        return flow(k.a, s, td, he, he ? turn(k.g, e) : e);
      }
      case Node::TERM: {
        if (s != k.sense) {  c.probe(P_TERM_OTHER);  return -1;  }
        k.n++;  k.d = d;  k.he = he;  if (he) k.e = e;
        c.probe(P_TERM);  c.probe(he ? P_ERR : P_NOERR);
        k.fresh = true;
        if (k.cb) {
          Arrival a;  a.node = i;  a.s = s;  a.d = d;  a.he = he;  a.e = e;  want.push_back(a);
          k.fresh = (cb_answer[i] != 0);
          c.probe(k.fresh ? P_CB_LEFT : P_CB_CLAIM);
        }
        k.lo = t_lo;  k.hi = 0xFFFFFFFF;    // Settled after the push.
        c.nontrivial();
        return 0;
      }
      case Node::FILT: {
        if (!k.ready) {
          if (nomem) return -3;
          k.ready = true;
        }
        if (s != k.sense) {
          if (k.a < 0) return -1;
          c.probe(P_RELAY);
          return flow(k.a, s, d, he, e);
        }
        k.fed++;
        if (k.w == 1 || k.st == FilteringStrategy::RAW) k.val = d;
        else {
          double m = k.w - 1, q = k.w;
          k.val.x = (float) ((k.val.x * m + d.x) / q);  k.val.y = (float) ((k.val.y * m + d.y) / q);  k.val.z = (float) ((k.val.z * m + d.z) / q);
        }
        if (k.fed < k.w) {  c.probe(P_FILTER_FILL);  return 0;  }
        k.dirty = true;  k.fhe = he;
        if (he) {
          k.ferr = e;
          if (k.st == FilteringStrategy::MOVING_AVG) {  float f = (float) (k.w * k.w);  k.ferr.x /= f;  k.ferr.y /= f;  k.ferr.z /= f;  }
        }
        c.probe(P_FILTER_OUT);
        if (k.a >= 0) {  int8_t r = flow(k.a, s, k.val, he, k.ferr);  k.dirty = (r < 0);  if (k.dirty) c.probe(P_FILTER_DIRTY);  }
        return 0;
      }
    }
    return -2;
  }

  void check() {
    for (int i = 0; i < (int) n.size() && !c.failed(); i++) {
      Node& k = n[i];
      if (k.k == Node::TERM) {
        TripleAxisTerminus* t = (TripleAxisTerminus*) k.p;
        if (t->updateCount() != k.n) c.fail("count", "terminus %d counts %u vectors; it took %u", i, t->updateCount(), k.n);
        else if (t->dataFresh() != k.fresh) c.fail("fresh", "terminus %d says its vector is %s", i, k.fresh ? "stale" : "fresh");
        else if (t->haveError() != k.he) c.fail("error", "terminus %d says it has %s error figure", i, k.he ? "no" : "an");
        else if (!near(of(t->getData()), k.d, exact)) c.fail("value", "terminus %d holds (%g, %g, %g); (%g, %g, %g) expected", i, t->getData()->x, t->getData()->y, t->getData()->z, k.d.x, k.d.y, k.d.z);
        else if (k.he && !near(of(t->getError()), k.e, exact)) c.fail("error", "terminus %d holds the wrong error figure", i);
        else if (t->sense() != k.sense) c.fail("sense", "terminus %d changed its sense", i);
        else if ((uint32_t) (t->lastUpdate() - k.lo) > (uint32_t) (k.hi - k.lo)) c.fail("date", "terminus %d was updated at %u, by its own account; it was between %u and %u", i, t->lastUpdate(), k.lo, k.hi);
      }
      else if (k.k == Node::FILT) {
        TripleAxisSingleFilter* f = (TripleAxisSingleFilter*) k.p;
        if (f->initialized() != k.ready) c.fail("init", "filter %d says it is %s", i, k.ready ? "not ready" : "ready");
        else if (f->dataFresh() != k.dirty) c.fail("fresh", "filter %d says its result is %s", i, k.dirty ? "stale" : "fresh");
        else if (k.ready && f->totalSamples() != k.fed) c.fail("count", "filter %d counts %u samples; %u were fed", i, f->totalSamples(), k.fed);
        else if (f->haveError() != k.fhe) c.fail("error", "filter %d says it has %s error figure", i, k.fhe ? "no" : "an");
      }
    }
  }

  void push(int root) {
    SpatialSense s = rs();
    // Usually, something that somebody is waiting for.
    if (c.chance(2, 3)) {  Node& k = n[c.draw((uint32_t) n.size())];  s = k.sense;  }
    V3 d = vec(), e;
    bool he = c.chance(1, 2);
    if (he) e = vec();
    for (auto& x : scripts) {
      int8_t r = c.chance(1, 3) ? c.pick({(int8_t) 1, (int8_t) -1, (int8_t) -2}) : 0;
      codes[x->id] = r;
    }
    for (int i = 0; i < (int) n.size(); i++) if (n[i].k == Node::TERM) cb_answer[i] = c.pick({0, 1, -1});
    nomem = false;
    if (c.chance(1, 10)) for (auto& k : n) if (k.k == Node::FILT && !k.ready) nomem = true;
    got.clear();  want.clear();
    t_lo = (uint32_t) (c.now_us / 1000);
    if (nomem) {  c.fault(F_NOMEM);  g_malloc_fail_in = 0;  g_malloc_fail_sticky = true;  }
    // The model first: callbacks compare their sequence numbers against it.
    int8_t er = flow(root, s, d, he, e);
    Vector3f rd(d.x, d.y, d.z), re(e.x, e.y, e.z);
    int8_t r = he ? n[root].p->pushVector(s, &rd, &re) : c.chance(1, 2) ? n[root].p->pushVector(s, &rd) : n[root].p->pushVector(s, &rd, nullptr);
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;
    uint32_t hi = (uint32_t) (c.now_us / 1000);
    for (auto& k : n) if (k.k == Node::TERM && k.hi == 0xFFFFFFFF && k.n) k.hi = hi;
    for (auto& a : got) if (a.node >= 0 && n[a.node].k == Node::SINK) c.fault(codes[a.node] == -2 ? F_REFUSE : codes[a.node] == -1 ? F_DEFER : F_ASYNC, codes[a.node] != 0);
    c.ev("push of %d (%g, %g, %g)%s = %d; %u arrivals", (int) s, d.x, d.y, d.z, he ? " with error" : "", r, (unsigned) got.size());
    c.step();
    if (c.failed()) return;
    if (!near(of(&rd), d, true) || (he && !near(of(&re), e, true))) c.fail("altered", "the caller's vector was altered");
    else if (r != er) c.fail("code", "pushVector() returned %d; %d expected", r, er);
    else if (got.size() != want.size()) c.fail("arrivals", "%u vectors arrived at the ends of the pipeline; %u expected", (unsigned) got.size(), (unsigned) want.size());
    for (size_t i = 0; i < got.size() && !c.failed(); i++) {
      const Arrival& g = got[i];  const Arrival& w = want[i];
      if (g.node != w.node) c.fail("order", "arrival %u was at node %d; at %d expected", (unsigned) i, g.node, w.node);
      else if (g.s != w.s) c.fail("sense", "a vector of sense %d arrived as %d", (int) w.s, (int) g.s);
      else if (!near(g.d, w.d, exact)) c.fail("value", "(%g, %g, %g) arrived at node %d; (%g, %g, %g) expected", g.d.x, g.d.y, g.d.z, g.node, w.d.x, w.d.y, w.d.z);
      else if (g.he != w.he) c.fail("error", "a vector arrived at node %d with%s an error figure", g.node, g.he ? "" : "out");
      else if (w.he && !near(g.e, w.e, exact)) c.fail("error", "the wrong error figure arrived at node %d", g.node);
    }
  }

  void run() {
    g_run = this;
    uint64_t s = 5000000ull;
    if (c.chance(1, 4)) {  s = 0x100000000ull * 1000 - c.draw(4000000);  c.fault(F_WRAP);  }
    set_clock(s);
    c.read_cost_us = c.pick({0u, 0u, 40u, 3000u});
    n.reserve(64);
    int root = make(0);
    codes.assign(n.size(), 0);  cb_answer.assign(n.size(), 0);
    c.plan_ops(10 + c.draw(60));
    while (c.next_op() && !c.failed()) {
      switch (c.draw(8)) {
        default: push(root);  break;
        case 5: c.advance(c.draw(c.pick({3000u, 2000000u})));  break;
        case 6: {     // Somebody takes a vector.
          int i = (int) c.draw((uint32_t) n.size());
          Node& k = n[i];
          Vector3f d(7, 7, 7), e(9, 9, 9);
          if (k.k == Node::TERM) {
            uint32_t q = 12345;
            bool we = c.chance(3, 4), wq = c.chance(3, 4);
            int8_t r = ((TripleAxisTerminus*) k.p)->getDataWithErr(&d, we ? &e : nullptr, wq ? &q : nullptr);
            c.ev("take from terminus %d = %d", i, r);
            if (r != (k.fresh ? 1 : 0)) c.fail("take", "a %s vector was taken, as %d", k.fresh ? "fresh" : "stale", r);
            else if (!near(of(&d), k.d, exact)) c.fail("take", "the wrong vector was taken from terminus %d", i);
            else if (wq && q != k.n) c.fail("take", "sequence number %u was taken; %u expected", q, k.n);
            else if (we && k.he && !near(of(&e), k.e, exact)) c.fail("take", "the wrong error figure was taken from terminus %d", i);
            c.probe(k.fresh ? P_FRESH : P_STALE);
            k.fresh = false;
          }
          else if (k.k == Node::FILT && k.ready) {
            TripleAxisSingleFilter* f = (TripleAxisSingleFilter*) k.p;
            if (c.chance(1, 2)) {
              int8_t r = f->getDataWithErr(&d, &e);
              c.ev("take from filter %d = %d", i, r);
              if (r != (k.dirty ? 1 : 0)) c.fail("take", "a %s result was taken, as %d", k.dirty ? "fresh" : "stale", r);
              else if (k.fhe && !near(of(&e), k.ferr, exact)) c.fail("take", "the wrong error figure was taken from filter %d", i);
            }
            else d.set(f->getData());
            if (!c.failed() && !near(of(&d), k.val, exact)) c.fail("take", "(%g, %g, %g) was taken from filter %d; (%g, %g, %g) expected", d.x, d.y, d.z, i, k.val.x, k.val.y, k.val.z);
            k.dirty = false;
          }
          break;
        }
        case 7: {     // Something is reset, or connected otherwise.
          int i = (int) c.draw((uint32_t) n.size());
          Node& k = n[i];
          if (k.k == Node::TERM) {
            ((TripleAxisTerminus*) k.p)->reset();
            k.d = V3();  k.e = V3();  k.he = k.fresh = false;  k.n = 0;  k.lo = k.hi = 0;
            c.probe(P_RESET);  c.ev("terminus %d reset", i);
          }
          else if (k.k == Node::FORK && c.chance(1, 2)) {
            int t = k.a;  k.a = k.b;  k.b = t;
            if (c.chance(1, 4)) {  k.a = -1;  c.fault(F_DETACH);  }
            ((TripleAxisFork*) k.p)->setLeft(k.a < 0 ? nullptr : n[k.a].p);
            ((TripleAxisFork*) k.p)->setRight(k.b < 0 ? nullptr : n[k.b].p);
            c.probe(P_REWIRE);  c.ev("fork %d rewired", i);
          }
          else if (k.k == Node::CONV) {
            k.g = c.pick({GnomonType::UNDEFINED, GnomonType::RH_POS_Z, GnomonType::RH_NEG_Z, GnomonType::LH_POS_Y, GnomonType::LH_NEG_X});
            ((TripleAxisConvention*) k.p)->afferentGnomon(k.g);
            if (((TripleAxisConvention*) k.p)->afferentGnomon() != k.g) c.fail("gnomon", "a convention was not kept");
            c.probe(P_REWIRE);  c.ev("convention %d changed", i);
          }
          else if (k.k == Node::FILT && c.chance(1, 4)) {
            k.a = -1;  ((TripleAxisSingleFilter*) k.p)->setNext(nullptr);  c.fault(F_DETACH);  c.ev("filter %d detached", i);
          }
          break;
        }
      }
      if (!c.failed()) check();
      uint64_t h = n.size();
      for (auto& k : n) h = h * 7 + (uint64_t) k.k + (k.fresh ? 5 : 0) + (k.dirty ? 3 : 0) + (k.he ? 11 : 0);
      c.state(h);
    }
    c.begin_tail();
    // Every node tells of itself without harm.
    StringBuilder o;
    n[root].p->printPipe(&o, 0, 7);
    g_run = nullptr;
  }
};
int8_t Script::pushVector(const SpatialSense s, Vector3f* d, Vector3f* e) {  return g_run->arrived(id, s, d, e);  }
void run(Ctx& c) {  Run r(c);  r.run();  }
}

Harness g_harness = {
  "P06",
  "One run: a random tree of up to 24 forks, axis converters, filters, termini and scripted sinks, through up to 70 vectors, takings, resets and rewirings. Sinks refuse, defer or accept at will; "
  "memory is refused to filters at first use. Non-trivial: a vector reached a terminus of its own sense. Distinct by event log.",
  run,
  {"sink refused for good", "sink deferred", "sink accepted asynchronously", "memory refused to a filter", "detached", "millisecond counter near wrap"},
  {"fork", "conversion", "filter emitted", "filter filling", "filter's result refused", "other sense relayed by a filter", "terminus took a vector", "other sense at a terminus", "callback claimed",
   "callback left it fresh", "fresh vector taken", "stale vector taken", "without error figure", "with error figure", "terminus reset", "rewired", "converter without a next stage", "axis inverted"},
  {"TripleAxisFork", "TripleAxisConvention", "TripleAxisTerminus", "TripleAxisSingleFilter", "SensorFilter3<float>", "Vector3"},
  {"clock", "sinks"},
  "per-node kind and freshness, consecutive pairs",
  {}, 20000, 400000
};
