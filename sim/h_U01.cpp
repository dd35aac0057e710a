/* U01: an interface gives each event to the element under the pointer, keeps what is moved together, and draws what changed. */
#include "engine.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <memory>
#include <map>
#include <algorithm>
#include "Image/GfxUI.h"
using namespace sim;

namespace {
enum {  F_OUTSIDE, F_MUTED, F_INACTIVE, F_COVERED, F_REMOVED  };
enum {  P_DEEP, P_CONSUMED, P_PASSED, P_MOVED, P_PARTIAL, P_FORCED, P_IDLE, P_REAPED, P_DRAG, P_TAB_TOUCH, P_TAB_SCROLL, P_TAB_WRAP, P_PANE, P_SLIDER, P_SLIDER_UP, P_ZOOM, P_ZOOM_SET, P_ZOOM_PINCH, P_BUTTON, P_SLIDER_SEEN  };
typedef GfxUIEvent Ev;
typedef PriorityQueue<GfxUIElement*> Log;
const Ev DEEP[] = {Ev::HOVER_IN, Ev::HOVER_OUT, Ev::SELECT, Ev::UNSELECT, Ev::IDENTIFY, Ev::DRAG_START, Ev::DRAG_STOP};
const Ev PLAIN[] = {Ev::TOUCH, Ev::RELEASE, Ev::PRESSURE, Ev::DRAG, Ev::MOVE_UP, Ev::MOVE_DOWN, Ev::MOVE_LEFT, Ev::MOVE_RIGHT, Ev::MOVE_IN, Ev::MOVE_OUT, Ev::KEY_PRESS};

struct Box;
struct Note {  Box* who;  Ev ev;  int x, y;  };
std::vector<Note> g_notes;        // Who was told what.
std::vector<Box*> g_drawn;        // Who drew.
int g_alive;

struct Box : public GfxUIElement {
  int id;
  // The model's idea of this element.
  std::vector<Box*> kids;
  Box* up = nullptr;
  int mx, my, mw, mh, m[4] = {0, 0, 0, 0}, b[4] = {0, 0, 0, 0};
  uint32_t frames = 0;
  bool muted = false, active = true, dirty = true, always, claims, fills, reap = false, sel = false, foc = false, drags = false, dragging = false;
  uint32_t color;
  bool* gone = nullptr;
  bool plain = false;             // Its frames have the default color.

  Box(int id_, GfxUILayout l, GfxUIStyle s, uint32_t f) : GfxUIElement(l, s, f), id(id_) {  g_alive++;  }
  Box(int id_, int x, int y, int w, int h, uint32_t f) : GfxUIElement(x, y, w, h, f), id(id_) {  g_alive++;  }
  ~Box() {  g_alive--;  if (gone) *gone = true;  }
  int add(Box* k) {  return _add_child(k);  }
  int remove(Box* k) {  return _remove_child(k);  }
  bool _notify(const Ev e, const PixUInt x, const PixUInt y, Log*) {
    g_notes.push_back(Note{this, e, x, y});
    return claims;
  }
  int _render(UIGfxWrapper* g) {
    g_drawn.push_back(this);
    if (fills) fill(g, color);
    return 1;
  }
  bool has(int x, int y) const {  return x >= mx && x < mx + mw && y >= my && y < my + mh;  }
};

bool deep(Ev e) {  for (Ev d : DEEP) if (d == e) return true;  return false;  }

/* Whom an event that goes to the innermost should reach. */
Box* innermost(Box* n, int x, int y) {
  if (!n->has(x, y) || n->muted) return nullptr;
  for (Box* k : n->kids) if (Box* r = innermost(k, x, y)) return r;
  return n;
}
/* Whom any other event should reach, in order. */
bool outward(Box* n, int x, int y, std::vector<Box*>* who) {
  if (!n->has(x, y) || n->muted || !n->active) return false;
  who->push_back(n);
  if (n->claims) return true;
  for (Box* k : n->kids) if (outward(k, x, y, who)) return true;
  return false;
}
void each(Box* n, std::vector<Box*>* v) {  v->push_back(n);  for (Box* k : n->kids) each(k, v);  }

struct Canvas {
  int W, H;
  std::vector<uint32_t> px;
  void put(int x, int y, uint32_t c) {  if (x >= 0 && y >= 0 && x < W && y < H) px[y * W + x] = c;  }
  void rect(int x, int y, int w, int h, uint32_t c) {  for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) put(x + i, y + j, c);  }
};

void paint(Box* n, bool force, Canvas* cv, std::vector<Box*>* order) {
  if (n->muted) return;
  for (Box* k : n->kids) paint(k, force, cv, order);
  if (n->dirty || n->always || force) {
    order->push_back(n);
    const int l = n->m[2] + n->b[2], t = n->m[0] + n->b[0];
    if (n->fills) cv->rect(n->mx + l, n->my + t, n->mw - l - n->m[3] - n->b[3], n->mh - t - n->m[1] - n->b[1], n->color);
    const uint32_t B = 0xB0B0B0;
    if (n->frames & GFXUI_FLAG_DRAW_FRAME_U) cv->rect(n->mx, n->my, n->mw, n->b[0], B);
    if (n->frames & GFXUI_FLAG_DRAW_FRAME_D) cv->rect(n->mx, n->my + n->mh - n->b[1], n->mw, n->b[1], B);
    if (n->frames & GFXUI_FLAG_DRAW_FRAME_L) cv->rect(n->mx, n->my, n->b[2], n->mh, B);
    if (n->frames & GFXUI_FLAG_DRAW_FRAME_R) cv->rect(n->mx + n->mw - n->b[3], n->my, n->b[3], n->mh, B);
    n->dirty = false;
  }
}

void shift(Box* n, int dx, int dy) {
  n->mx += dx;  n->my += dy;  n->dirty = true;
  for (Box* k : n->kids) shift(k, dx, dy);
}

void tree(Ctx& c) {
  g_alive = 0;
  std::vector<Box*> mine;         // Those to be given back by us.
  int ids = 0;
  Image img(100, 80, ImgBufferFormat::R8_G8_B8);
  img.reallocate();
  img.fill(0);
  UIGfxWrapper gfx(&img);
  Canvas cv;
  cv.W = 100;  cv.H = 80;
  cv.px.assign(100 * 80, 0);
  const GfxUIStyle style(0, 0xB0B0B0, 1, 2, 3, 4, 5);
  auto make = [&](int x, int y, int w, int h) -> Box* {
    const uint32_t fr = c.chance(1, 4) ? c.draw(16) * GFXUI_FLAG_DRAW_FRAME_U : 0;
    const bool always = c.chance(1, 8);
    uint32_t f = fr | (always ? GFXUI_FLAG_ALWAYS_REDRAW : 0);
    Box* n;
    int mg[4], br[4];
    for (int i = 0; i < 4; i++) {  mg[i] = c.draw(3);  br[i] = c.draw(3);  }
    const int how = c.draw(4);
    switch (how) {
      case 0: {
        GfxUILayout l(x, y, w, h, mg[0], mg[1], mg[2], mg[3], br[0], br[1], br[2], br[3]);
        n = new Box(ids++, l, style, f);
        break;
      }
      case 1: {
        for (int i = 1; i < 4; i++) {  mg[i] = mg[0];  br[i] = br[0];  }
        GfxUILayout l(x, y, w, h, mg[0], br[0]);
        n = new Box(ids++, l, style, f);
        break;
      }
      case 2: {
        for (int i = 0; i < 4; i++) br[i] = 0;
        GfxUILayout l(x, y, w, h, mg[0], mg[1], mg[2], mg[3]);
        n = new Box(ids++, l, style, f);
        break;
      }
      default:
        // The style is the default one here, which has frames of another color.
        f &= ~GFXUI_FLAG_DRAW_FRAME_MASK;
        for (int i = 0; i < 4; i++) mg[i] = br[i] = 0;
        n = new Box(ids++, x, y, w, h, f);
        n->plain = true;
        break;
    }
    n->mx = x;  n->my = y;  n->mw = w;  n->mh = h;
    n->frames = f & GFXUI_FLAG_DRAW_FRAME_MASK;
    n->always = always;
    n->claims = c.chance(1, 3);
    n->fills = c.chance(1, 2);
    n->color = 0x100 + n->id;
    memcpy(n->m, mg, sizeof(mg));  memcpy(n->b, br, sizeof(br));
    if (c.chance(1, 5)) {  n->drags = true;  n->isDraggable(true);  }
    return n;
  };
  Box* root = make(0, 0, 100, 80);
  mine.push_back(root);
  std::vector<Box*> loose;        // Those that were taken out.
  auto any = [&]() -> Box* {
    std::vector<Box*> v;
    each(root, &v);
    return v[c.draw(v.size())];
  };
  auto about = [&](Box* n, int* x, int* y) {
    *x = c.chance(1, 3) ? (c.chance(1, 2) ? n->mx : n->mx + n->mw - 1) + (c.chance(1, 4) ? (int) c.draw(3) - 1 : 0) : n->mx + (int) c.draw(n->mw);
    *y = c.chance(1, 3) ? (c.chance(1, 2) ? n->my : n->my + n->mh - 1) + (c.chance(1, 4) ? (int) c.draw(3) - 1 : 0) : n->my + (int) c.draw(n->mh);
    if (*x < 0) *x = 0;
    if (*y < 0) *y = 0;
  };
  while (c.next_op() && !c.failed()) {
    c.step();
    switch (c.draw(14)) {
      case 0: case 1: case 2: {
        // A new element, usually within its parent.
        std::vector<Box*> v;
        each(root, &v);
        if (v.size() > 24) break;
        Box* p = any();
        const bool within = !c.chance(1, 6);
        const int w = 9 + c.draw(within && p->mw > 12 ? p->mw - 8 : 40), h = 9 + c.draw(within && p->mh > 12 ? p->mh - 8 : 40);
        const int x = within ? p->mx + c.draw(std::max(1, p->mw - w + 1)) : c.draw(110), y = within ? p->my + c.draw(std::max(1, p->mh - h + 1)) : c.draw(90);
        Box* k;
        if (loose.size() && c.chance(1, 3)) {  k = loose.back();  loose.pop_back();  }
        else {
          k = make(x, y, w, h);
          if (c.chance(1, 2)) {  k->reap = true;  k->shouldReap(true);  } else mine.push_back(k);
        }
        const int r = p->add(k);
        c.ev("element %d, %d by %d at (%d, %d), goes into %d: %d", k->id, k->mw, k->mh, k->mx, k->my, p->id, r);
        if (r != 0) {  c.fail("add", "an element was not added: %d", r);  break;  }
        p->kids.push_back(k);
        k->up = p;
        p->dirty = true;
        break;
      }
      case 3: {
        Box* n = any();
        if (n == root) break;
        Box* p = n->up;
        const int r = p->remove(n);
        c.ev("element %d is taken out of %d: %d", n->id, p->id, r);
        if (r != 0) {  c.fail("remove", "an element was not removed: %d", r);  break;  }
        if (c.chance(1, 4) && p->remove(n) == 0) {  c.fail("remove", "an element was removed twice");  break;  }
        p->kids.erase(std::find(p->kids.begin(), p->kids.end(), n));
        p->dirty = true;
        n->up = nullptr;
        loose.push_back(n);
        c.fault(F_REMOVED);
        break;
      }
      case 4: {
        Box* n = any();
        std::vector<Box*> v;
        each(n, &v);
        int lx = n->mx, ly = n->my;
        for (Box* k : v) {  lx = std::min(lx, k->mx);  ly = std::min(ly, k->my);  }
        // Nothing goes beyond the origin.
        const int x = n->mx - lx + c.draw(60), y = n->my - ly + c.draw(50);
        c.ev("element %d moves from (%d, %d) to (%d, %d)", n->id, n->mx, n->my, x, y);
        n->reposition(x, y);
        shift(n, x - n->mx, y - n->my);
        if (n->kids.size()) c.probe(P_MOVED);
        break;
      }
      case 5: {
        Box* n = any();
        switch (c.draw(5)) {
          case 0: n->mw = 9 + c.draw(50);  n->mh = 9 + c.draw(50);  n->resize(n->mw, n->mh);  n->dirty = true;  c.ev("element %d is %d by %d", n->id, n->mw, n->mh);  break;
          case 1: n->muted = !n->muted;  n->muteRender(n->muted);  if (!n->muted && !n->always) n->dirty = true;  c.ev("element %d is %s", n->id, n->muted ? "muted" : "not muted");  break;
          case 2: n->active = !n->active;  n->elementActive(n->active);  c.ev("element %d is %s", n->id, n->active ? "active" : "inactive");  break;
          case 3: for (int i = 0; i < 4; i++) n->m[i] = c.draw(3);  n->setMargins(n->m[0], n->m[1], n->m[2], n->m[3]);  n->dirty = true;  break;
          case 4: n->frames = c.draw(16) * GFXUI_FLAG_DRAW_FRAME_U;  if (n->plain) n->frames = 0;  n->enableFrames(n->frames);  n->dirty = true;  break;
        }
        break;
      }
      case 6: case 7: case 8: case 9: case 10: {
        const Ev e = c.chance(1, 2) ? DEEP[c.draw(7)] : PLAIN[c.draw(11)];
        int x, y;
        about(loose.size() && c.chance(1, 6) ? loose[c.draw(loose.size())] : any(), &x, &y);
        g_notes.clear();
        Log log;
        const bool r = root->notify(e, x, y, &log);
        c.ev("event %d at (%d, %d): %d, %d told", (int) e, x, y, r, (int) g_notes.size());
        std::vector<Box*> all;
        each(root, &all);
        if (!root->has(x, y)) c.fault(F_OUTSIDE);
        for (Box* n : all) if (n->has(x, y)) {
          if (n->muted) c.fault(F_MUTED);
          else if (!n->active) c.fault(F_INACTIVE);
        }
        for (auto& n : g_notes) if (n.ev != e || n.x != x || n.y != y) {  c.fail("event", "element %d was told of event %d at (%d, %d)", n.who->id, (int) n.ev, n.x, n.y);  return;  }
        if (deep(e)) {
          Box* t = innermost(root, x, y);
          if (r != (t != nullptr)) {  c.fail("result", "an event over %s returned %d", t ? "an element" : "nothing", r);  break;  }
          for (auto& n : g_notes) if (n.who != t) {  c.fail("wrong", "element %d was told of an event that is for %d", n.who->id, t ? t->id : -1);  return;  }
          if (!t) {  if (log.size()) c.fail("log", "an event over nothing is reported");  break;  }
          c.nontrivial();
          c.probe(P_DEEP);
          for (Box* n : t->up ? t->up->kids : std::vector<Box*>()) if (n != t && n->has(x, y)) {  c.fault(F_COVERED);  break;  }
          if (log.size() != 1 || log.get(0) != t || log.getPriority(0) != (int) e) {  c.fail("log", "event %d for element %d is reported as %d, %d times", (int) e, t->id, log.size() ? ((Box*) log.get(0))->id : -1, log.size());  break;  }
          if (e == Ev::IDENTIFY ? g_notes.size() : !g_notes.size()) {  c.fail("told", "element %d was told %d times of event %d", t->id, (int) g_notes.size(), (int) e);  break;  }
          if (!t->underPointer()) {  c.fail("pointer", "element %d does not know that it is under the pointer", t->id);  break;  }
          switch (e) {
            case Ev::HOVER_IN: case Ev::HOVER_OUT: t->foc = e == Ev::HOVER_IN;  break;
            case Ev::SELECT: t->sel = t->claims;  break;
            case Ev::UNSELECT: t->sel = !t->claims;  break;
            case Ev::DRAG_START: case Ev::DRAG_STOP:
              // An element that can be dragged goes where the pointer is, once the drag has begun.
              if (t->drags) {
                if (t->dragging) {
                  std::vector<Box*> v;
                  each(t, &v);
                  bool beyond = false;
                  for (Box* k : v) if (k->mx + x - t->mx < 0 || k->my + y - t->my < 0) beyond = true;
                  shift(t, x - t->mx, y - t->my);
                  c.probe(P_DRAG);
                  // Whatever was left of the element, or above it, is now beyond the origin; this is put right.
                  if (beyond) {
                    int lx = 0, ly = 0;
                    for (Box* k : v) {  lx = std::min(lx, k->mx);  ly = std::min(ly, k->my);  }
                    t->reposition(t->mx - lx, t->my - ly);
                    shift(t, -lx, -ly);
                  }
                }
                else t->dragging = e == Ev::DRAG_START;
              }
              break;
            default: break;
          }
          for (Box* n : all) if (n->isFocused() != n->foc || n->isSelected() != n->sel || n->isDragging() != n->dragging) {  c.fail("state", "element %d: focus %d, selected %d, dragged %d after event %d for %d", n->id, n->isFocused(), n->isSelected(), n->isDragging(), (int) e, t->id);  return;  }
          c.state(hash64(t->id, hash64((int) e, all.size())));
        }
        else {
          std::vector<Box*> who;
          const bool want = outward(root, x, y, &who);
          if (r != want) {  c.fail("result", "event %d returned %d, and was %sclaimed", (int) e, r, want ? "" : "not ");  break;  }
          bool same = who.size() == g_notes.size();
          for (size_t i = 0; same && i < who.size(); i++) same = who[i] == g_notes[i].who;
          if (!same) {
            for (size_t i = 0; i < std::max(who.size(), g_notes.size()); i++) if (i >= who.size() || i >= g_notes.size() || who[i] != g_notes[i].who) {
              c.fail("wrong", "event %d: place %d in the order is element %d, and should be %d", (int) e, (int) i, i < g_notes.size() ? g_notes[i].who->id : -1, i < who.size() ? who[i]->id : -1);
              return;
            }
          }
          if (who.size()) {  c.nontrivial();  c.probe(want ? P_CONSUMED : P_PASSED);  }
          c.state(hash64(77, hash64(who.size(), hash64(want, all.size()))));
        }
        break;
      }
      case 11: case 12: {
        const bool force = c.chance(1, 5);
        g_drawn.clear();
        std::vector<Box*> want, all;
        each(root, &all);
        paint(root, force, &cv, &want);
        const int r = root->render(&gfx, force);
        c.ev("%s: %d of %d drawn", force ? "everything is drawn" : "the changes are drawn", r, (int) all.size());
        std::vector<Box*> a = want, b = g_drawn;
        std::sort(a.begin(), a.end(), [](Box* p, Box* q) {  return p->id < q->id;  });
        std::sort(b.begin(), b.end(), [](Box* p, Box* q) {  return p->id < q->id;  });
        for (size_t i = 0; i < std::max(a.size(), b.size()); i++) if (i >= a.size() || i >= b.size() || a[i] != b[i]) {
          if (i >= b.size() || (i < a.size() && a[i]->id < b[i]->id)) c.fail("stale", "element %d was to be drawn, and was not", a[i]->id);
          else c.fail("spurious", "element %d was drawn (again)", b[i]->id);
          return;
        }
        if (r != (int) want.size()) {  c.fail("drawn", "%d elements were drawn, and %d reported", (int) want.size(), r);  break;  }
        for (int y = 0; y < cv.H; y++) for (int x = 0; x < cv.W; x++) if (img.getPixel(x, y) != cv.px[y * cv.W + x]) {
          c.fail("picture", "(%d, %d) is %x, and should be %x", x, y, img.getPixel(x, y), cv.px[y * cv.W + x]);
          return;
        }
        if (want.size()) c.nontrivial();
        c.probe(force ? P_FORCED : want.empty() ? P_IDLE : want.size() < all.size() ? P_PARTIAL : P_FORCED);
        break;
      }
      case 13: {
        // Positions are where the model has them.
        std::vector<Box*> all;
        each(root, &all);
        for (Box* n : all) if (n->elementPosX() != n->mx || n->elementPosY() != n->my || n->elementWidth() != n->mw || n->elementHeight() != n->mh) {
          c.fail("place", "element %d is %d by %d at (%d, %d), and should be %d by %d at (%d, %d)", n->id, n->elementWidth(), n->elementHeight(), n->elementPosX(), n->elementPosY(), n->mw, n->mh, n->mx, n->my);
          return;
        }
        break;
      }
    }
  }
  c.begin_tail();
  // The tree goes, and takes with it what it was told to; and no more than that.
  std::vector<Box*> roots = loose, order;
  roots.push_back(root);
  std::vector<bool> dead(ids, false);
  std::vector<char> gone(ids, 0);
  for (Box* r : roots) {
    std::vector<Box*> all;
    each(r, &all);
    for (Box* n : all) {  n->gone = (bool*) &gone[n->id];  order.push_back(n);  }
  }
  // Any that is given back takes along its children that are to be reaped.
  std::function<void(Box*)> expect = [&](Box* n) {
    dead[n->id] = true;
    for (Box* k : n->kids) if (k->reap && !dead[k->id]) expect(k);
  };
  const std::vector<Box*> snapshot = order;
  std::vector<int> ids_of;
  std::vector<std::pair<int, Box*>> byid;
  for (Box* n : snapshot) byid.push_back({n->id, n});
  expect(root);
  std::map<int, Box*> live;
  for (auto& p : byid) live[p.first] = p.second;
  delete root;
  for (auto& p : byid) if ((bool) gone[p.first] != dead[p.first]) {  c.fail("reap", "element %d was %s with its parent", p.first, gone[p.first] ? "given back" : "not given back");  return;  }
  int reaped = 0;
  for (auto& p : byid) reaped += gone[p.first];
  if (reaped > 1) c.probe(P_REAPED);
  for (auto& p : byid) if (!gone[p.first]) {
    // Those left over are given back from the bottom up, so that nothing is left behind or twice.
    expect(p.second);
    delete p.second;
  }
  if (g_alive) c.fail("alive", "%d elements remain", g_alive);
}

/* The parts of a tab bar are its own. */
struct Bar : public GfxUITabBar {
  Bar(const GfxUILayout l, const GfxUIStyle s, uint32_t f) : GfxUITabBar(l, s, f) {}
  GfxUIButton* tab(int i) {  return (GfxUIButton*) _children.get(i);  }
};

void tabs(Ctx& c) {
  Image img(160, 60, ImgBufferFormat::R8_G8_B8);
  img.reallocate();
  UIGfxWrapper gfx(&img);
  const GfxUIStyle style(0, 0xB0B0B0, 1, 2, 3, 4, 5);
  const int W = 60 + c.draw(80), x0 = c.draw(20), y0 = c.draw(20);
  Bar bar(GfxUILayout(x0, y0, W, 20, 1, 1, 1, 0, 0, 1, 0, 0), style, GFXUI_TABBAR_FLAG_SCROLL_CYCLES_TABS);
  const bool cycles = !c.chance(1, 6);
  bar.scrollCycle(cycles);
  const int n = 1 + c.draw(7);
  int at = c.draw(n);
  for (int i = 0; i < n; i++) if (bar.addTab("t", i == at) != 0) {  c.fail("tab", "a tab was not added");  return;  }
  bar.render(&gfx, c.chance(1, 2));
  if (bar.tabCount() != n) {  c.fail("tab", "%d tabs", bar.tabCount());  return;  }
  const int unit = bar.internalWidth() / n;
  auto check = [&](const char* after) -> bool {
    int lit = 0;
    for (int i = 0; i < n; i++) if (bar.tab(i)->pressed()) lit++;
    if (lit != 1 || !bar.tab(at)->pressed() || bar.activeTab() != at) {  c.fail("tabs", "after %s, %d of %d tabs are lit, the active one is %d, and should be %d", after, lit, n, bar.activeTab(), at);  return false;  }
    return true;
  };
  if (!check("the first drawing")) return;
  // The tabs are side by side, and within the bar.
  for (int i = 0; i < n; i++) {
    GfxUIButton* b = bar.tab(i);
    if (b->elementPosX() != bar.internalPosX() + unit * i || b->elementPosY() != bar.internalPosY() || b->elementWidth() != unit || b->elementHeight() != bar.internalHeight()) {  c.fail("layout", "tab %d of %d is %d wide at %d", i, n, b->elementWidth(), b->elementPosX());  return;  }
  }
  while (c.next_op() && !c.failed()) {
    c.step();
    Log log;
    switch (c.draw(5)) {
      case 0: case 1: {
        const int i = c.draw(n);
        const int x = bar.internalPosX() + unit * i + (c.chance(1, 3) ? 0 : c.chance(1, 2) ? unit - 1 : c.draw(unit)), y = bar.internalPosY() + c.draw(bar.internalHeight());
        const bool r = bar.notify(Ev::TOUCH, x, y, &log);
        c.ev("tab %d of %d is touched: %d", i, n, r);
        if (r != (i != at)) {  c.fail("touch", "touching tab %d returned %d, and the active one is %d", i, r, at);  return;  }
        at = i;
        c.probe(P_TAB_TOUCH);
        c.nontrivial();
        if (c.chance(2, 3)) bar.notify(Ev::RELEASE, x, y, &log);
        break;
      }
      case 2: case 3: {
        const bool up = c.chance(1, 2);
        bar.notify(up ? Ev::MOVE_UP : Ev::MOVE_DOWN, x0 + c.draw(W), y0 + c.draw(20), &log);
        if (cycles) {
          const int was = at;
          at = (at + (up ? 1 : n - 1)) % n;
          c.probe(P_TAB_SCROLL);
          if (n > 1 && abs(at - was) == n - 1) c.probe(P_TAB_WRAP);
          c.nontrivial();
        }
        c.ev("scrolled %s", up ? "up" : "down");
        break;
      }
      case 4: {
        // Beside the bar.
        bar.notify(Ev::TOUCH, x0 + W + c.draw(5), y0 + c.draw(20), &log);
        bar.notify(Ev::MOVE_UP, x0 + c.draw(W), y0 + 20 + c.draw(5), &log);
        c.fault(F_OUTSIDE);
        break;
      }
    }
    if (c.chance(1, 2)) bar.render(&gfx, c.chance(1, 3));
    if (!check("an event")) return;
    c.state(hash64(9, hash64(n, at)));
  }
}

/* Of the panes behind the tabs, one is to be seen, and only that one hears. */
struct Pane : public GfxUITabbedContentPane {
  Pane(const GfxUILayout l, const GfxUIStyle s, uint32_t f) : GfxUITabbedContentPane(l, s, f) {}
  GfxUITabBar* bar() {  return &_tab_bar;  }
};

void panes(Ctx& c) {
  g_alive = 0;
  {
  Image img(120, 100, ImgBufferFormat::R8_G8_B8);
  img.reallocate();
  img.fill(0);
  UIGfxWrapper gfx(&img);
  const GfxUIStyle style(7, 0xB0B0B0, 1, 2, 3, 4, 5);
  const int n = 1 + c.draw(4);
  std::vector<std::unique_ptr<Box>> content;
  Pane pane(GfxUILayout(c.draw(10), c.draw(10), 90 + c.draw(20), 70 + c.draw(20), 0), style, GFXUI_FLAG_ALWAYS_REDRAW);
  int at = c.draw(n);
  for (int i = 0; i < n; i++) {
    content.emplace_back(new Box(i, GfxUILayout(0, 0, 10, 10), style, c.chance(1, 2) ? GFXUI_FLAG_ALWAYS_REDRAW : 0));
    content[i]->claims = true;
    content[i]->fills = true;
    content[i]->color = 0x2000 + i;
    if (pane.addTab("p", content[i].get(), i == at) != 0) {  c.fail("tab", "a pane was not added");  return;  }
  }
  pane.render(&gfx);
  GfxUITabBar* bar = pane.bar();
  const int top = bar->elementPosY() + bar->elementHeight();
  while (!c.failed()) {
    if (bar->activeTab() != at || pane.activeTab() != at) {  c.fail("pane", "the active tab is %d, and the pane %d; it should be %d", bar->activeTab(), pane.activeTab(), at);  break;  }
    // What is seen.
    for (int k = 0; k < 3; k++) {
      const int x = pane.internalPosX() + c.draw(pane.internalWidth()), y = top + c.draw(pane.internalPosY() + pane.internalHeight() - top);
      if (img.getPixel(x, y) != 0x2000 + (uint32_t) at) {  c.fail("seen", "(%d, %d) is %x, and pane %d is the active one", x, y, img.getPixel(x, y), at);  return;  }
      // Who hears.
      g_notes.clear();
      Log log;
      const Ev e = c.pick<Ev>({Ev::TOUCH, Ev::SELECT, Ev::HOVER_IN, Ev::MOVE_UP, Ev::KEY_PRESS});
      pane.notify(e, x, y, &log);
      if (g_notes.empty() || g_notes[0].who != content[at].get()) {  c.fail("hears", "event %d went to %d, and pane %d is the active one", (int) e, g_notes.empty() ? -1 : g_notes[0].who->id, at);  return;  }
      for (auto& m : g_notes) if (m.who != content[at].get()) {  c.fail("hears", "event %d also went to %d", (int) e, m.who->id);  return;  }
    }
    c.probe(P_PANE);
    c.nontrivial();
    if (!c.next_op()) break;
    c.step();
    Log log;
    const int unit = bar->internalWidth() / n;
    if (c.chance(1, 2)) {
      at = c.draw(n);
      pane.notify(Ev::TOUCH, bar->internalPosX() + unit * at + c.draw(unit), bar->internalPosY() + c.draw(bar->internalHeight()), &log);
    }
    else {
      const bool up = c.chance(1, 2);
      at = (at + (up ? 1 : n - 1)) % n;
      pane.notify(up ? Ev::MOVE_UP : Ev::MOVE_DOWN, bar->internalPosX() + c.draw(bar->internalWidth()), bar->internalPosY() + c.draw(bar->internalHeight()), &log);
    }
    pane.render(&gfx);
    c.ev("to pane %d of %d", at, n);
    c.state(hash64(10, hash64(n, at)));
  }
  }
  if (!c.failed() && g_alive) c.fail("alive", "%d elements remain", g_alive);
}

bool reported(Log& log, GfxUIElement* e, Ev ev) {
  for (int i = 0; i < log.size(); i++) if (log.get(i) == e && log.getPriority(i) == (int) ev) return true;
  return false;
}

void sliders(Ctx& c) {
  const GfxUIStyle style(0, 0xB0B0B0, 1, 2, 3, 4, 5);
  Image img(120, 120, ImgBufferFormat::R8_G8_B8);
  img.reallocate();
  UIGfxWrapper gfx(&img);
  const bool upright = c.chance(1, 2), zoom = c.chance(1, 2);
  const int x0 = c.draw(10), y0 = c.draw(10), W = 20 + c.draw(80), H = 20 + c.draw(80);
  const GfxUILayout lay(x0, y0, W, H, c.draw(3), c.draw(3), c.draw(3), c.draw(3), 0, 0, 0, 0);
  const uint32_t f = upright ? GFXUI_SLIDER_FLAG_VERTICAL : 0;
  GfxUISlider sl(lay, style, f);
  GfxUIZoomSlider zs(lay, style, f);
  GfxUIElement* el = zoom ? (GfxUIElement*) &zs : &sl;
  img.fill(0);
  // What is seen must be what a new drawing would show, and that is a bar of the value, along the slider.
  auto looks_right = [&](bool force) {
    el->render(&gfx, force);
    Image anew(120, 120, ImgBufferFormat::R8_G8_B8), bar(120, 120, ImgBufferFormat::R8_G8_B8);
    if (!anew.reallocate() || !bar.reallocate()) return;
    anew.fill(0);  bar.fill(0);
    UIGfxWrapper g1(&anew), g2(&bar);
    el->render(&g1, true);
    const int ix = el->internalPosX(), iy = el->internalPosY(), iw = el->internalWidth(), ih = el->internalHeight();
    if (zoom) {
      const float a = std::max(0.0f, zs.value() - zs.markWidth() / 2), b = std::min(1.0f, zs.value() + zs.markWidth() / 2);
      if (upright) g2.drawZoomBarV(ix, iy, iw, ih, style.color_active, false, a, b);
      else g2.drawZoomBarH(ix, iy, iw, ih, style.color_active, false, a, b);
    }
    else if (upright) g2.drawProgressBarV(ix, iy, iw, ih, style.color_active, true, false, sl.value());
    else g2.drawProgressBarH(ix, iy, iw, ih, style.color_active, true, false, sl.value());
    int stale = 0, other = 0;
    for (int y = 0; y < 120; y++) for (int x = 0; x < 120; x++) {
      const uint32_t p = anew.getPixel(x, y);
      if (img.getPixel(x, y) != p) stale++;
      if (bar.getPixel(x, y) != p) other++;
    }
    if (stale) {  c.fail("stale", "%d pixels of a slider are not those that its value calls for", stale);  return;  }
    if (other > (zoom ? 2 * std::max(iw, ih) : 0)) {  c.fail("picture", "%d pixels of a slider are not those of a bar of its value", other);  return;  }
    c.probe(P_SLIDER_SEEN);
  };
  float v = 0, lo = 0, hi = 0;
  const float TOL = 2e-4f;
  if (zoom) {
    lo = c.draw(101) / 100.0f;  hi = c.draw(101) / 100.0f;
    if (c.chance(1, 8)) hi = lo;
    zs.value(lo, hi);
    if (lo > hi) std::swap(lo, hi);
  }
  bool set = true;
  auto settle = [&](float center) {
    const float width = hi - lo;
    lo = std::max(0.0f, center - width / 2);
    hi = lo + width;
    if (hi > 1) {  hi = 1;  lo = 1 - width;  }
  };
  while (c.next_op() && !c.failed()) {
    c.step();
    Log log;
    const float before_v = v, before_lo = lo, before_hi = hi;
    switch (c.draw(6)) {
      case 0: case 1: {
        const Ev e = c.chance(1, 2) ? Ev::TOUCH : Ev::DRAG_START;
        const int x = x0 + (c.chance(1, 4) ? (c.chance(1, 2) ? 0 : W - 1) : c.draw(W)), y = y0 + (c.chance(1, 4) ? (c.chance(1, 2) ? 0 : H - 1) : c.draw(H));
        const bool r = el->notify(e, x, y, &log);
        if (!r) {  c.fail("claimed", "a touch was not claimed");  return;  }
        if (e == Ev::TOUCH && !reported(log, el, Ev::DRAG_START)) {  c.fail("drag", "a touch began no drag");  return;  }
        const float rel = upright ? (y - el->internalPosY()) / (float) el->internalHeight() : (x - el->internalPosX()) / (float) el->internalWidth();
        const float frac = std::min(1.0f, std::max(0.0f, upright ? 1.0f - rel : rel));
        if (zoom) settle(frac); else v = frac;
        c.ev("touched at (%d, %d) of %d by %d: %f", x - x0, y - y0, W, H, (double) frac);
        c.probe(zoom ? P_ZOOM : upright ? P_SLIDER_UP : P_SLIDER);
        break;
      }
      case 2: case 3: {
        const bool up = c.chance(1, 2);
        const int times = c.chance(1, 4) ? 1 + c.draw(120) : 1;
        for (int i = 0; i < times; i++) {
          if (!el->notify(up ? Ev::MOVE_UP : Ev::MOVE_DOWN, x0 + c.draw(W), y0 + c.draw(H), &log)) {  c.fail("claimed", "a scroll was not claimed");  return;  }
          if (zoom) {
            if (up) {  lo = std::max(0.0f, lo - 0.005f);  hi = std::min(1.0f, hi + 0.005f);  }
            else if (hi - lo < 0.01f) {  lo = hi = (lo + hi) / 2;  c.probe(P_ZOOM_PINCH);  }
            else {  lo += 0.005f;  hi -= 0.005f;  }
          }
          else v = std::min(1.0f, std::max(0.0f, v + (up ? 0.01f : -0.01f)));
        }
        c.ev("scrolled %s %d times", up ? "up" : "down", times);
        break;
      }
      case 4: {
        set = true;
        if (zoom) {
          const float ctr = c.draw(101) / 100.0f;
          zs.value(ctr);
          settle(ctr);
          c.probe(P_ZOOM_SET);
          if (ctr - (hi - lo) / 2 >= 0 && ctr + (hi - lo) / 2 <= 1 && fabsf(zs.value() - ctr) > TOL) {  c.fail("center", "the center was set to %f, and is %f", (double) ctr, (double) zs.value());  return;  }
        }
        else {  v = c.draw(101) / 100.0f;  sl.value(v);  }
        break;
      }
      case 5: {
        if (!el->notify(Ev::RELEASE, x0 + c.draw(W), y0 + c.draw(H), &log)) {  c.fail("claimed", "a release was not claimed");  return;  }
        if (!reported(log, el, Ev::DRAG_STOP)) {  c.fail("drag", "a release ended no drag");  return;  }
        el->notify(Ev::TOUCH, x0 + W + c.draw(3), y0, &log);
        c.fault(F_OUTSIDE);
        break;
      }
    }
    c.nontrivial();
    if (zoom) {
      const float mid = zs.value(), wid = zs.markWidth();
      if (fabsf(mid - (lo + hi) / 2) > TOL * 4 || fabsf(wid - (hi - lo)) > TOL * 4) {  c.fail("mark", "the mark is %f wide about %f, and should be %f wide about %f", (double) wid, (double) mid, (double) (hi - lo), (double) ((lo + hi) / 2));  return;  }
      if (mid - wid / 2 < -TOL || mid + wid / 2 > 1 + TOL) {  c.fail("range", "the mark goes from %f to %f", (double) (mid - wid / 2), (double) (mid + wid / 2));  return;  }
      lo = mid - wid / 2;  hi = mid + wid / 2;
    }
    else {
      if (fabsf(sl.value() - v) > TOL) {  c.fail("value", "the value is %f, and should be %f", (double) sl.value(), (double) v);  return;  }
      if (sl.value() < 0 || sl.value() > 1) {  c.fail("range", "the value is %f", (double) sl.value());  return;  }
      v = sl.value();
    }
    const bool moved = zoom ? fabsf(lo - before_lo) > 0.004f || fabsf(hi - before_hi) > 0.004f : fabsf(v - before_v) > 0.004f;
    if (moved && log.size() && !reported(log, el, Ev::VALUE_CHANGE)) {  c.fail("report", "the value changed, and that was not reported");  return;  }
    if (!moved && !zoom && v == before_v && reported(log, el, Ev::VALUE_CHANGE)) {  c.fail("report", "a change was reported, and there was none");  return;  }
    // What the application sets is drawn once it asks for that; what the user does is drawn by itself.
    if (set) {  looks_right(true);  set = false;  }
    else if (c.chance(1, 3)) looks_right(false);
    if (c.failed()) return;
    c.state(hash64(11 + zoom, hash64((int) ((zoom ? lo : v) * 50), (int) (hi * 50))));
  }
}

void buttons(Ctx& c) {
  const GfxUIStyle style(0, 0xB0B0B0, 1, 0x0000A0, 0x505050, 4, 5);
  Image img(80, 60, ImgBufferFormat::R8_G8_B8);
  img.reallocate();
  img.fill(0);
  UIGfxWrapper gfx(&img);
  const int x0 = c.draw(20), y0 = c.draw(20), W = 12 + c.draw(30), H = 12 + c.draw(20);
  GfxUIButton b(GfxUILayout(x0, y0, W, H, c.draw(2)), style, 0);
  bool on = false, active = true, mom = c.chance(1, 2);
  b.momentary(mom);
  while (c.next_op() && !c.failed()) {
    c.step();
    Log log;
    const bool in = !c.chance(1, 5);
    const int x = in ? x0 + c.draw(W) : x0 + W, y = y0 + c.draw(H);
    switch (c.draw(5)) {
      case 0: case 1: case 2: {
        const Ev e = c.chance(1, 2) ? Ev::TOUCH : Ev::RELEASE;
        const bool r = b.notify(e, x, y, &log);
        if (!in) c.fault(F_OUTSIDE); else if (!active) c.fault(F_INACTIVE);
        const bool was = on;
        if (in && active) {
          if (mom) on = e == Ev::TOUCH; else if (e == Ev::RELEASE) on = !on;
        }
        if (r != (in && active)) {  c.fail("claimed", "event %d returned %d", (int) e, r);  return;  }
        if (on != was && !reported(log, &b, Ev::VALUE_CHANGE)) {  c.fail("report", "the button changed, and that was not reported");  return;  }
        if (!r && log.size()) {  c.fail("report", "the button reports what was not for it");  return;  }
        break;
      }
      case 3: if (c.chance(1, 3)) {  active = !active;  b.elementActive(active);  }  break;
      case 4: if (c.chance(1, 4)) {  on = c.chance(1, 2);  b.pressed(on);  }  break;
    }
    if (b.pressed() != on) {  c.fail("pressed", "the button is %s, and should be %s", b.pressed() ? "on" : "off", on ? "on" : "off");  return;  }
    if (c.chance(1, 2)) {
      b.render(&gfx, true);
      const uint32_t is = img.getPixel(x0 + W / 2, y0 + H / 2), want = on ? (active ? style.color_active : style.color_inactive) : style.color_bg;
      if (is != want) {  c.fail("shown", "the button is %s and %s, and its color is %x", on ? "on" : "off", active ? "active" : "inactive", is);  return;  }
    }
    c.nontrivial();
    c.probe(P_BUTTON);
    c.state(hash64(13, on * 4 + active * 2 + mom));
  }
}

void run(Ctx& c) {
  const size_t h0 = heap_in_use();
  const int mode = c.draw(10);
  c.plan_ops(mode < 5 ? 40 : 20);
  switch (mode) {
    case 0: case 1: case 2: case 3: case 4: tree(c);  break;
    case 5: tabs(c);  break;
    case 6: panes(c);  break;
    case 7: case 8: sliders(c);  break;
    case 9: buttons(c);  break;
  }
  g_notes.clear();  g_notes.shrink_to_fit();
  g_drawn.clear();  g_drawn.shrink_to_fit();
  if (mode >= 5) c.begin_tail();
  const size_t h1 = heap_in_use();
  if (!c.failed() && h1 != h0) c.fail("leak", "%d bytes were not given back", (int) (h1 - h0));
}
}

Harness g_harness = {
  "U01",
  "a case is a history of events, drawings and changes over a tree of elements, a tab bar, panes, sliders or a button; non-trivial if an event found an element, or something was drawn",
  run,
  {"an event beside the element", "an event over a muted element", "an event over an inactive element", "an event over overlapping elements", "an element taken out"},
  {"for the innermost", "claimed", "passed on", "moved with its children", "partly drawn", "drawn whole", "nothing to draw", "reaped", "dragged", "tab touched", "tab scrolled", "around the end", "panes", "slider", "upright slider", "zoom slider", "center set", "pinched", "button", "slider as drawn"},
  {"Image/GfxUI/GfxUI.cpp", "Image/GfxUI/GfxUIButton.cpp", "Image/GfxUI/GfxUISlider.cpp", "Image/GfxUI/GfxUITabBar.cpp", "Image/GfxUI.h", "Image/GfxUI/GfxUIKit.h", "PriorityQueue.h"},
  {},
  "element reached, event and number of elements; or the state of the control",
  {},
  4000, 150000
};
