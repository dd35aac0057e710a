/* T01: bytes put in a StringBuilder are moved, kept, and cut, exactly; whatever the fragmentation, with or without memory. */
#include "sb.h"
using namespace sb;

namespace {
enum {  F_ALLOC, F_RANGE  };
enum {  P_SPLIT_LIMIT, P_EDGE_LIMIT, P_ALL_LIMIT, P_POSITIONS, P_CULL_PART, P_CULL_RANGE, P_CHUNK, P_COLLAPSE_FAIL, P_DENIED, P_ADOPT, P_LONG_FORMAT, P_BIG_DOUBLE, P_MULTITUDE  };

struct Run {
  Ctx& c;
  Sb* b[3];
  uint32_t seq = 0, style;
  const char* what = "";
  Run(Ctx& x) : c(x) {}

  std::string text() {
    uint32_t n = 1 + c.draw(c.pick({1u, 3u, 12u, 40u}));
    std::string s;
    for (uint32_t i = 0; i < n; i++) s += (char) (style ? 'A' + (seq++ % 58) : seq++);
    return s;
  }
  void arm() {
    if (!c.chance(1, 5)) return;
    g_malloc_fail_in = c.draw(4);  g_malloc_fail_sticky = c.chance(1, 2);
  }
  bool disarm() {
    bool d = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (d) {  c.fault(F_ALLOC);  c.probe(P_DENIED);  }
    return d;
  }
  // Memory was refused: the operation happened wholly, or not at all. Fragmentation is not promised then.
  void either(Sb& x, const Frags& post, bool all_or_none = true) {
    std::string a = flat(x.actual());
    if (a == flat(post)) x.f = post;
    else if (all_or_none && a == x.text()) {}
    else {  c.fail("refused-memory", "%s without memory left [%s]; before it was [%s], and [%s] was asked for", what, show(a).c_str(), show(x.text()).c_str(), show(flat(post)).c_str());  return;  }
    x.f = x.actual();
  }
  static Frags plus(const Frags& a, const Frags& b) {  Frags r(a);  r.insert(r.end(), b.begin(), b.end());  return r;  }

  void op() {
    uint32_t i = c.draw(3), j = c.draw(2);
    if (j >= i) j++;
    Sb& x = *b[i];  Sb& y = *b[j];
    uint32_t kind = c.draw(22);
    g_malloc_failed = 0;
    switch (kind) {
      case 0: case 1: case 2: case 3: {                 // Append.
        std::string t = text();
        uint32_t how = c.draw(3);
        if (style && how == 0) {
          what = "concat(char*)";
          c.ev("%u concat str %u", i, (unsigned) t.size());
          arm();  x.s->concat(t.c_str());
        }
        else if (how == 1) {                            // A buffer is adopted.
          uint8_t* p = (uint8_t*) malloc(t.size() + 1);
          memcpy(p, t.data(), t.size());  p[t.size()] = 0;
          what = "concatHandoff(buf)";
          c.ev("%u adopt %u", i, (unsigned) t.size());
          arm();  x.s->concatHandoff(p, (int) t.size());
          c.probe(P_ADOPT);
        }
        else {
          what = "concat(buf)";
          c.ev("%u concat %u", i, (unsigned) t.size());
          arm();  x.s->concat((const uint8_t*) t.data(), (int) t.size());
        }
        Frags post = plus(x.f, {t});
        if (disarm()) either(x, post);  else x.f = post;
        c.nontrivial();
        break;
      }
      case 4: {
        std::string t = text();
        what = "prepend";
        c.ev("%u prepend %u", i, (unsigned) t.size());
        arm();  x.s->prepend((uint8_t*) t.data(), (int) t.size());
        Frags post = plus({t}, x.f);
        if (disarm()) either(x, post);  else x.f = post;
        break;
      }
      case 5: {                                         // Typed and formatted.
        char t[420];
        what = "concatf";
        uint32_t how = c.draw(6);
        int v = (int) c.draw(0xFFFFFFFFu), rc = -99;
        std::string body(c.pick({1u, 20u, 500u, 560u, 700u}), 'q');
        Frags post;
        if (how == 0) {  snprintf(t, sizeof(t), "%d", v);  c.ev("%u concat int", i);  arm();  x.s->concat(v);  post = plus(x.f, {t});  }
        else if (how == 1) {  snprintf(t, sizeof(t), "%u", (unsigned) v);  c.ev("%u concat uint", i);  arm();  x.s->concat((unsigned) v);  post = plus(x.f, {t});  }
        else if (how == 2) {
          double d = c.pick({0.0, -1.5, 3.14159, 1e10, -1e15, 1e18, 1e300});
          if (d > 1e11 || d < -1e11) c.probe(P_BIG_DOUBLE);
          snprintf(t, sizeof(t), "%f", d);  c.ev("%u concat double %g", i, d);  arm();  x.s->concat(d);  post = plus(x.f, {t});
        }
        else if (how == 3) {  uint8_t u = (uint8_t) v;  c.ev("%u concat u8", i);  arm();  x.s->concat(u);  post = plus(x.f, {std::string(1, (char) u)});  }
        else {
          if (body.size() > 500) c.probe(P_LONG_FORMAT);
          c.ev("%u concatf %u", i, (unsigned) body.size());
          arm();  rc = x.s->concatf("<%s:%d>", body.c_str(), v);
          std::string e = "<" + body + ":" + std::to_string(v) + ">";
          post = plus(x.f, {e});
          if (!g_malloc_failed && rc != (int) e.size()) c.fail("format", "concatf() of %u bytes returned %d", (unsigned) e.size(), rc);
        }
        if (disarm()) either(x, post);  else x.f = post;
        break;
      }
      case 6: {
        what = "concat(StringBuilder)";
        c.ev("%u copies %u", i, j);
        arm();  x.s->concat(y.s);
        Frags post = plus(x.f, y.f.empty() ? Frags{} : Frags{y.text()});
        if (disarm()) either(x, post);  else x.f = post;
        break;
      }
      case 7: {
        what = "concatLimit";
        uint32_t n = c.draw(y.text().size() + 4);
        c.ev("%u copies %u of %u", i, n, j);
        arm();  x.s->concatLimit(y.s, n);
        std::string t = y.text().substr(0, n);
        Frags post = plus(x.f, t.empty() ? Frags{} : Frags{t});
        if (disarm()) either(x, post);  else x.f = post;
        break;
      }
      case 8: {
        what = "concatHandoff";
        c.ev("%u takes %u", i, j);
        arm();  x.s->concatHandoff(y.s);
        disarm();
        x.f = plus(x.f, y.f);  y.f.clear();
        break;
      }
      case 9: {
        what = "prependHandoff";
        c.ev("%u takes %u in front", i, j);
        arm();  x.s->prependHandoff(y.s);
        disarm();
        x.f = plus(y.f, x.f);  y.f.clear();
        break;
      }
      case 10: case 11: case 12: {                       // The bounded hand-off.
        what = "concatHandoffLimit";
        std::string all = y.text();
        uint32_t n = c.draw(all.size() + 3);
        if (c.chance(1, 3) && !y.f.empty()) {            // At, or beside, a boundary.
          uint32_t k = c.draw(y.f.size()), at = 0;
          for (uint32_t q = 0; q <= k; q++) at += y.f[q].size();
          int d = (int) at + (int) c.draw(3) - 1;
          n = d < 0 ? 0 : d;
        }
        c.ev("%u takes %u of %u's %u", i, n, j, (unsigned) all.size());
        Frags px = x.f, py, oy = y.f;
        uint32_t left = n;
        for (auto& q : y.f) {
          if (left >= q.size()) {  px.push_back(q);  left -= q.size();  }
          else if (left > 0) {  px.push_back(q.substr(0, left));  py.push_back(q.substr(left));  left = 0;  c.probe(P_SPLIT_LIMIT);  }
          else {  if (py.empty()) c.probe(P_EDGE_LIMIT);  py.push_back(q);  }
        }
        if (n >= all.size()) c.probe(P_ALL_LIMIT);
        arm();  x.s->concatHandoffLimit(y.s, n);
        if (disarm()) {
          // Nothing is lost or doubled, and the limit is not exceeded.
          std::string ax = flat(x.actual()), ay = flat(y.actual()), ox = x.text();
          bool ok = ax.size() >= ox.size() && ax.compare(0, ox.size(), ox) == 0 && ax.substr(ox.size()) + ay == all && ax.size() - ox.size() <= n;
          if (!ok) c.fail("refused-memory", "concatHandoffLimit(%u) of [%s] without memory gave [%s] and left [%s]", n, show(all).c_str(), show(ax.substr(ox.size() < ax.size() ? ox.size() : ax.size())).c_str(), show(ay).c_str());
          x.f = x.actual();  y.f = y.actual();
        }
        else {  x.f = px;  y.f = py;  }
        break;
      }
      case 13: {
        what = "concatHandoffPositions";
        uint32_t pos = c.draw(y.f.size() + 2), n = c.draw(y.f.size() + 2);
        c.ev("%u takes %u fragments of %u at %u", i, n, j, pos);
        if (pos >= y.f.size() || n == 0) c.fault(F_RANGE);
        arm();  int r = x.s->concatHandoffPositions(y.s, pos, n);
        disarm();
        int e = 0;
        Frags py;
        for (uint32_t q = 0; q < y.f.size(); q++) {
          if (q >= pos && q < pos + n) {  x.f.push_back(y.f[q]);  e++;  }
          else py.push_back(y.f[q]);
        }
        y.f = py;
        if (r != e) c.fail("count", "concatHandoffPositions() moved %d fragments and returned %d", e, r);
        c.probe(P_POSITIONS);
        break;
      }
      case 14: {
        what = "drop_position";
        uint32_t pos = c.draw(x.f.size() + 2);
        c.ev("%u drops fragment %u", i, pos);
        arm();  bool r = x.s->drop_position(pos);
        disarm();
        bool e = pos < x.f.size();
        if (!e) c.fault(F_RANGE);  else x.f.erase(x.f.begin() + pos);
        if (r != e) c.fail("count", "drop_position() returned %d", (int) r);
        break;
      }
      case 15: case 16: {                                // Cut the front off.
        what = "cull(n)";
        std::string all = x.text();
        int n = (int) c.draw(all.size() + 4) - 1;
        c.ev("%u culls %d of %u", i, n, (unsigned) all.size());
        arm();  x.s->cull(n);
        Frags post = (n <= 0) ? x.f : (uint32_t) n >= all.size() ? Frags{} : Frags{all.substr(n)};
        // The caller cannot be told otherwise, and needs no memory for it to be done.
        if (disarm()) either(x, post, false);  else x.f = post;
        if (n > 0 && (uint32_t) n < all.size()) c.probe(P_CULL_PART);
        break;
      }
      case 17: {                                         // Keep a range.
        what = "cull(offset, n)";
        std::string all = x.text();
        uint32_t o = c.draw(all.size() + 2), n = c.draw(all.size() + 2);
        int so = c.chance(1, 20) ? -(int) c.draw(4) : (int) o;
        c.ev("%u keeps %u from %d of %u", i, n, so, (unsigned) all.size());
        arm();  x.s->cull(so, (int) n);
        Frags post = x.f;
        if (n == 0) post.clear();
        else if (so >= 0 && so + n <= all.size()) {  post = Frags{all.substr(so, n)};  c.probe(P_CULL_RANGE);  }
        else c.fault(F_RANGE);
        if (disarm()) either(x, post, false);  else x.f = post;
        break;
      }
      case 18: {
        what = "chunk";
        std::string all = x.text();
        if (all.empty()) break;
        int n = 1 + c.draw(all.size() + 3);
        c.ev("%u chunks by %d", i, n);
        Frags post;
        for (size_t at = 0; at < all.size(); at += n) post.push_back(all.substr(at, n));
        arm();  int r = x.s->chunk(n);
        bool was = disarm();
        if (was) {  either(x, post);  if (r >= 0 && x.f != post) c.fail("refused-memory", "chunk() reported %d chunks of %u, and cut nothing", r, (unsigned) x.f.size());  }
        else {  x.f = post;  if (r != (int) post.size()) c.fail("count", "chunk() returned %d for %u", r, (unsigned) post.size());  }
        c.probe(P_CHUNK);
        break;
      }
      case 19: {
        what = "string()";
        std::string all = x.text();
        c.ev("%u is collapsed", i);
        arm();  uint8_t* p = x.s->string();
        if (disarm()) {
          // The result is not the whole string; but the buffer still is.
          either(x, Frags{all});
          c.probe(P_COLLAPSE_FAIL);
        }
        else {
          x.squash();
          if (p == nullptr || memcmp(p, all.data(), all.size()) != 0 || p[all.size()] != 0) c.fail("content", "string() is not the content");
        }
        break;
      }
      case 20: {
        what = "clear";
        if (!c.chance(1, 3)) break;
        c.ev("%u is cleared", i);
        x.s->clear();
        x.f.clear();
        break;
      }
      default: {                                          // Reads.
        what = "reading";
        std::string all = x.text();
        int at = (int) c.draw(all.size() + 6) - 3;
        uint8_t e = (at >= 0 && at < (int) all.size()) ? (uint8_t) all[at] : 0;
        c.ev("%u is read at %d", i, at);
        if (at < 0 || at >= (int) all.size()) c.fault(F_RANGE);
        uint8_t r = x.s->byteAt(at);
        if (r != e) c.fail("read", "byteAt(%d) of %u returned %u, not %u", at, (unsigned) all.size(), r, e);
        uint32_t o = c.draw(all.size() + 2), n = c.draw(all.size() + 2);
        uint8_t* out = new uint8_t[n + 1];
        memset(out, 0xEE, n + 1);
        int got = x.s->copyToBuffer(out, n, o);
        std::string ex = o <= all.size() ? all.substr(o, n) : "";
        if (got != (int) ex.size() || memcmp(out, ex.data(), ex.size()) != 0 || out[n] != 0xEE) c.fail("read", "copyToBuffer(%u from %u) of %u returned %d", n, o, (unsigned) all.size(), got);
        delete[] out;
        int mx = 0;
        for (auto& q : x.f) if ((int) q.size() > mx) mx = q.size();
        if (x.s->maximumFragmentLength() != mx) c.fail("read", "maximumFragmentLength() returned %d, not %d", x.s->maximumFragmentLength(), mx);
        break;
      }
    }
    for (int k = 0; k < 3; k++) agree(c, what, k, *b[k]);
  }
  // As a slow producer leaves it: very many fragments.
  void multitude() {
    uint32_t n = 150000 + c.draw(100000);
    c.ev("%u fragments", n);
    StringBuilder s;
    for (uint32_t i = n; i--;) {  uint8_t ch = (uint8_t) ('a' + i % 26);  s.prepend(&ch, 1);  }
    auto is = [&](uint32_t from, uint32_t count) {
      if (s.length() != (int) count) return c.fail("length", "%d rather than %u of %u fragments", s.length(), count, n);
      uint32_t at = c.draw(count);
      if (s.byteAt(at) != 'a' + (from + at) % 26) return c.fail("read", "byteAt(%u) of %u fragments returned %u", at, count, s.byteAt(at));
      if (s.byteAt(count) != 0) return c.fail("read", "byteAt() beyond %u fragments returned %u", count, s.byteAt(count));
    };
    is(0, n);
    uint8_t x = (uint8_t) ('a' + n % 26);
    if (!c.failed()) {  s.concat(&x, 1);  is(0, ++n);  }
    uint32_t k = 1 + c.draw(n - 2);
    if (!c.failed()) {  s.cull((int) k);  is(k, n - k);  }
    if (!c.failed() && c.chance(1, 2)) {  s.string();  is(k, n - k);  }
    s.clear();
    if (!c.failed() && s.length()) c.fail("length", "cleared, it holds %d", s.length());
    c.probe(P_MULTITUDE);
    c.nontrivial();
  }
  void run() {
    if (c.chance(1, 500)) {  multitude();  return;  }
    style = c.draw(2);
    for (int k = 0; k < 3; k++) b[k] = new Sb();
    c.plan_ops(10 + c.draw(50));
    size_t base = heap_in_use();
    (void) base;
    while (c.next_op() && !c.failed()) {
      c.step();
      op();
      uint64_t h = 0;
      for (int k = 0; k < 3; k++) h = hash64(h, (b[k]->f.size() > 3 ? 3 : b[k]->f.size()) * 8 + (b[k]->text().size() > 40 ? 2 : b[k]->text().size() > 0));
      c.state(h);
      if (b[0]->text().size() + b[1]->text().size() + b[2]->text().size() > 6000) for (int k = 0; k < 3; k++) {  b[k]->s->clear();  b[k]->f.clear();  }
    }
    if (c.failed()) return;
    for (int k = 0; k < 3; k++) {  delete b[k];  b[k] = nullptr;  }
  }
};

void run(Ctx& c) {
  size_t before = heap_in_use();
  {  Run r(c);  r.run();  }
  if (!c.failed() && heap_in_use() > before) c.fail("leak", "%u bytes were not released", (unsigned) (heap_in_use() - before));
}
}

sim::Harness g_harness = {"T01",
  "a case is a history of edits, hand-offs and cuts over three buffers, any of which may find no memory, or a few over one of very many fragments; non-trivial if bytes were appended",
  run,
  {"allocation failure", "request out of range"},
  {"bounded hand-off splits a fragment", "bounded hand-off on a fragment edge", "bounded hand-off of everything", "hand-off of fragments", "front cut off", "range kept", "chunked", "collapse without memory", "operation refused memory", "buffer adopted", "formatted beyond the estimate", "large double", "a multitude of fragments"},
  {"StringBuilder.cpp"},
  {"malloc (refuses on request)"},
  "fragments and length class of the three buffers",
  {}, 20000, 400000
};
