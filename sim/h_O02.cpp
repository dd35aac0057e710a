/* O02: showing things on a screen changes none of them, and a picture depends on nothing but what it shows. */
#define LOOKS_AT_PICTURES
#include "h_O01.cpp"
#include "Image/GfxUI.h"

namespace {
enum {  P2_CHECKLIST, P2_SERIES, P2_CTRL, P2_SCHEDULE, P2_WATCH, P2_KVP, P2_VALUE, P2_PLAIN, P2_RUNNING, P2_PASSED, P2_FAILED, P2_REQUESTED, P2_LOOKS, P2_NEW, P2_FULLWIN, P2_TOUCH  };
const int PK[] = {4, 8, 11, 12, 13};
const PixUInt IW = 640, IH = 220;
GfxUIElement* ui = nullptr;
Image* img = nullptr;
UIGfxWrapper* gfx = nullptr;
uint32_t text_size = 1;
const char* last_kind = "?";

int which(Ctx& c) {  return PK[c.draw(sizeof(PK) / sizeof(PK[0]))];  }
void look_away() {
  delete ui;  ui = nullptr;
  delete gfx;  gfx = nullptr;
  delete img;  img = nullptr;
}
GfxUIStyle style() {  return GfxUIStyle(0, 0xFFFFFF, 0xFFFFFF, 0x20B2AA, 0x707070, 0xA0A0FF, 0x202020, text_size);  }
template <class T> GfxUIElement* series(TimeSeries<T>* t, Rng& g, GfxUILayout lay) {
  auto* e = new GfxUITimeSeries<T>(lay, style(), t);
  e->showValue(g.chance(1, 2));  e->showRangeX(g.chance(1, 2));  e->showRangeY(g.chance(1, 2));
  e->graphAutoscaleX(g.chance(1, 2));  e->graphAutoscaleY(g.chance(1, 2));
  e->drawCurve(g.chance(1, 2));  e->drawGrid(g.chance(1, 2));  e->autoscroll(g.chance(1, 2));  e->xLabelsSample(g.chance(1, 2));
  return e;
}
GfxUIElement* fresh(World* w, Rng& g) {
  Ctx& c = w->c;
  c.probe(P2_NEW);
  text_size = 1 + g.draw(3);
  const PixUInt X = g.draw(30), Y = g.draw(20);
  GfxUILayout lay(X, Y, 420 + g.draw(180), 110 + g.draw(80), g.draw(3), g.draw(3), g.draw(3), g.draw(3), g.draw(2), g.draw(2), g.draw(2), g.draw(2));
  switch (w->kind) {
    case 4: {
      uint32_t f = (g.chance(1, 2) ? GFXUI_CHKLST_FLAG_SHOW_SUMMARY : 0) | (g.chance(1, 2) ? GFXUI_CHKLST_FLAG_SHOW_DEPS_MASKS : 0) | (g.chance(1, 2) ? GFXUI_CHKLST_FLAG_SHOW_EXPLICIT_STATE : 0) | (g.chance(1, 2) ? GFXUI_FLAG_DRAW_FRAME_MASK : 0);
      AsyncSequencer* q = ((SeqWorld*) w)->q;
      c.probe(P2_CHECKLIST);  last_kind = "a checklist";
      if (g.chance(1, 4)) return new GfxUIInteractiveChecklist(q, lay, style(), f & ~GFXUI_FLAG_DRAW_FRAME_MASK);   // What fits itself to its contents leaves no room for a frame.
      return new GfxUIChecklist(q, lay, style(), f);
    }
    case 8: {
      auto& l = ((SchedWorld*) w)->l;
      C3PSchedule* s = l[g.draw(l.size())];
      if (g.chance(1, 3)) {  c.probe(P2_WATCH);  last_kind = "a profile";  return new GfxUIStopWatch("watch", &s->profiler, lay, style());  }
      c.probe(P2_SCHEDULE);  last_kind = "a schedule";
      return new GfxUIC3PSchedule(s, lay, style());
    }
    case 11: {
      TextWorld* t = (TextWorld*) w;
      switch (g.draw(3)) {
        case 0: c.probe(P2_WATCH);  last_kind = "a stopwatch";  return new GfxUIStopWatch("watch", &t->w, lay, style());
        case 1: c.probe(P2_KVP);  last_kind = "a map";  return new GfxUIKeyValuePair(t->k, lay, style(), g.chance(1, 2) ? GFXUI_C3PVAL_FLAG_SHOW_TYPE_INFO : 0);
        default: c.probe(P2_VALUE);  last_kind = "a value";  return new GfxUIC3PValue(t->k, lay, style(), g.chance(1, 2) ? GFXUI_C3PVAL_FLAG_SHOW_TYPE_INFO : 0);
      }
    }
    case 12: c.probe(P2_SERIES);  last_kind = "a series of floats";  return series(((SeriesWorld<float>*) w)->t, g, lay);
    default: {
      TimeSeries<uint32_t>* t = ((SeriesWorld<uint32_t>*) w)->t;
      if (g.chance(1, 3)) {
        c.probe(P2_CTRL);  last_kind = "a series with its controls";
        auto* e = new GfxUIGraphWithCtrl<uint32_t>(GfxUILayout(0, 0, IW, IH, 0, 0, 0, 0, 0, 0, 0, 0), style(), t);
        e->showValue(g.chance(1, 2));  e->showRangeX(g.chance(1, 2));  e->showRangeY(g.chance(1, 2));  e->graphAutoscaleX(g.chance(1, 2));  e->graphAutoscaleY(g.chance(1, 2));
        e->drawCurve(g.chance(1, 2));  e->drawGrid(g.chance(1, 2));
        return e;
      }
      c.probe(P2_SERIES);  last_kind = "a series of integers";
      return series(t, g, lay);
    }
  }
}
/* In a checklist, each step is shown in the color of its state. */
void colors(SeqWorld* w) {
  Ctx& c = w->c;
  Image ref(IW, IH, ImgBufferFormat::R8_G8_B8);
  if (!ref.reallocate()) return;
  memset(ref.buffer(), 0, ref.bytesUsed());
  const int X = ui->internalPosX(), Y = ui->internalPosY();
  ref.setTextSize(text_size);
  const int CW = ref.getFontWidth(), CH = ref.getFontHeight();
  for (uint32_t i = 0; i < w->n && !c.failed(); i++) {
    const uint32_t m = w->flag(i);
    uint32_t color = 0x707070;
    const char* what = "at rest";
    if (w->q->all_steps_have_run(m)) {
      const bool ok = w->q->all_steps_have_passed(m);
      color = ok ? 0x00FF00 : 0xFF1010;
      what = ok ? "passed" : "failed";
      c.probe(ok ? P2_PASSED : P2_FAILED);
    }
    else if (w->q->all_steps_still_running(m)) {  color = 0xC0C000;  what = "running";  c.probe(P2_RUNNING);  }
    else if (w->q->all_steps_dispatched(m)) {  color = 0x20B2AA;  what = "requested";  c.probe(P2_REQUESTED);  }
    const int y = Y + (int) i * (CH + (int) text_size);
    if (y + CH > Y + ui->internalHeight()) break;       // What doesn't fit isn't judged.
    ref.setCursor(X, y);  ref.setTextColor(color, 0);  ref.writeString("step");
    for (int py = y; py < y + CH && py < IH && !c.failed(); py++)
      for (int px = X; px < X + 4 * CW; px++)
        if (ref.getPixel(px, py) != img->getPixel(px, py)) {
          c.fail("color", "step %u is %s, and its label isn't shown like that: at (%d, %d) there is %06x, not %06x", i, what, px - X, py - Y, img->getPixel(px, py), ref.getPixel(px, py));
          break;
        }
  }
}
std::vector<uint8_t> paint() {
  memset(img->buffer(), 0, img->bytesUsed());
  ui->render(gfx, true);
  return std::vector<uint8_t>(img->buffer(), img->buffer() + img->bytesUsed());
}
void look_at(World* w, Rng& g, StringBuilder*, bool starve) {
  Ctx& c = w->c;
  if (!img) {
    const int32_t a = g_malloc_fail_in;
    g_malloc_fail_in = -1;
    img = new Image(IW, IH, ImgBufferFormat::R8_G8_B8);
    img->reallocate();
    gfx = new UIGfxWrapper(img);
    g_malloc_fail_in = a;
  }
  const bool first = !ui || g.chance(1, 4);
  if (first) {  delete ui;  ui = fresh(w, g);  }
  if ((w->kind == 12 && ((SeriesWorld<float>*) w)->t->windowFull()) || (w->kind == 13 && ((SeriesWorld<uint32_t>*) w)->t->windowFull())) c.probe(P2_FULLWIN);
  if (g.chance(1, 5)) {
    // A pointer that passes by, and presses on nothing.
    PriorityQueue<GfxUIElement*> log;
    c.probe(P2_TOUCH);
    ui->notify(g.chance(1, 2) ? GfxUIEvent::HOVER_IN : GfxUIEvent::HOVER_OUT, g.draw(IW), g.draw(IH), &log);
  }
  if (g.chance(1, 3)) {  ui->render(gfx, false);  c.probe(P2_PLAIN);  }
  // What is within an element may take a few drawings to settle.
  for (int i = first ? 4 : 1; i > 0; i--) ui->render(gfx, true);
  if (starve) {  g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  delete ui;  ui = nullptr;  return;  }
  std::vector<uint8_t> a = paint(), b = paint();
  if (a != b) {
    size_t i = 0;
    while (a[i] == b[i]) i++;
    c.fail("unsteady", "the same state was drawn twice by %s, and the pictures differ first at (%u, %u)", last_kind, (unsigned) (i / 3 % IW), (unsigned) (i / 3 / IW));
  }
  if (w->kind == 4 && !c.failed()) colors((SeqWorld*) w);
}
}

sim::Harness g_harness = {"O02",
  "a case is a history of one part, run twice from the same seed, the second time with an interface that draws the part in between; non-trivial if something was drawn and both runs had observations to compare",
  run,
  {"allocation refused during a drawing", "bus fault", "refusal by a step, a state or a sink", "bytes lost on a link", "late service"},
  {"checklist", "series", "series with controls", "schedule", "stopwatch", "map", "value", "drawing on demand", "step shown running", "step shown passed", "step shown failed", "step shown requested", "drawing", "new element", "full window", "pointer passing by"},
  {"Image/GfxUI/*.cpp", "GfxUIGraphing.h", "ImageGraph.cpp", "Image.cpp", "AsyncSequencer.cpp", "C3PScheduler.cpp", "StopWatch", "KeyValuePair.cpp", "C3PValue.cpp", "TimeSeries.cpp"},
  {"clock", "malloc (refuses on request)"},
  "which part, and how its history grows, consecutive pairs",
  {}, 2500, 60000
};
