/* B01: I2C operations are executed in order, and each is called back exactly once. */
#include "engine.h"
#include "platform.h"
#include "BusQueue/I2CAdapter.h"
#include <vector>
#include <map>
#include <deque>
#include <string.h>
using namespace sim;

namespace {
enum {  F_NACK, F_BUSFAULT, F_BUSY, F_RECALL, F_STALL, F_ALLOC, F_PURGE, F_GONE, F_INITFAIL  };
enum {  P_OK, P_FAULTED, P_RECYCLED, P_CHAINED, P_PURGED_CUR, P_PURGED_Q, P_PURGED_DEV, P_DEV_GONE_INFLIGHT, P_SWEEP, P_OWNED, P_OWNED_AFTER_FAULT,
        P_DOUBLE, P_FREEBUF, P_FREENULL, P_OVERDRAW, P_SYNC, P_ISR, P_ASAP, P_OFFLINE, P_DTOR_WORK, P_MAP, P_OWN_HEAP, P_STATS, P_MADE  };
struct Rec {
  I2CBusOp* op = nullptr;  uint32_t id = 0;
  int owner = -1;             // Device index, -2 adapter (sweep), -1 nobody.
  BusOpcode code;  uint8_t addr;  int16_t sub;  uint8_t* buf;  uint16_t len;
  uint32_t recycles = 0;
  XferFault fault = XferFault::NONE;
  bool done = false, recycling = false, took = false, bad = false;
};
class Dev;
struct World;
World* W = nullptr;

class Adapter : public I2CAdapter {
  public:
    using I2CAdapter::I2CAdapter;
    int8_t queue_io_job(BusOp* op);
    int8_t io_op_callback(BusOp* op);
    ElementPool<I2CBusOp>& pool() {  return preallocated;  }
    int depth() {  return work_queue.size();  }
    void offline() {  _bus_online(false);  }
};
class Dev : public I2CDevice {
  public:
    int idx;
    Dev(int i, uint8_t a) : I2CDevice(a), idx(i) {}
    int8_t io_op_callahead(BusOp*);
    int8_t io_op_callback(BusOp*);
    bool w(int s, uint16_t n, uint8_t* b) {  return writeX(s, n, b);  }
    bool r(int s, uint8_t n, uint8_t* b) {  return readX(s, n, b);  }
    bool p() {  return ping_device();  }
};
/* What was asked for through a device's or the adapter's own functions. */
struct Ask {  int owner;  BusOpcode code;  uint8_t addr;  int16_t sub;  uint8_t* buf;  uint16_t len;  bool accepted = false;  };
struct World {
  Ctx* c;  Adapter* a = nullptr;  Ask* ask = nullptr;
  std::deque<Rec*> q;  Rec* cur = nullptr;  Rec* tentative = nullptr;
  std::vector<Rec*> all;
  Dev* devs[4] = {};
  int wire = 0;                // Remaining steps of the transfer on the wire; -1 stalled.
  XferFault wire_result = XferFault::NONE;
  bool present[128] = {};
  uint32_t progress = 0;       // Operations begun or called back.
  bool advance_mode, asap, sync_ok;
  bool purging = false, purging_current = false;
  bool init_fails = false, quiet = false;
  uint32_t next_id = 1, chain_budget = 0;
  bool sweeping = false;
  char want_map[129];
  bool request(int d, int what, int sub, uint16_t n, uint8_t* b);
  Rec* find(I2CBusOp* op) {
    if (cur && cur->op == op) return cur;
    for (auto r : q) if (r->op == op) return r;
    return nullptr;
  }
  void concluded(Rec* r, const char* how) {
    r->done = true;
    r->bad = purging || r->fault != XferFault::NONE;
    c->ev("#%u %s", r->id, how);
  }
  int8_t callback(I2CBusOp* op, int owner);
};

/* A device is asked to write, read, or ping. */
bool World::request(int d, int what, int sub, uint16_t n, uint8_t* b) {
  Ask a {d, what == 0 ? BusOpcode::TX : what == 1 ? BusOpcode::RX : BusOpcode::TX_CMD, devs[d]->_dev_addr, (int16_t) sub, b, n};
  Ask* was = ask;
  ask = &a;
  bool ok = (what == 0) ? devs[d]->w(sub, n, b) : (what == 1) ? devs[d]->r(sub, (uint8_t) n, b) : devs[d]->p();
  ask = was;
  if (!c->failed() && ok != a.accepted) c->fail("accept", "device %d said %d of a request which the adapter %s", d, ok, a.accepted ? "took" : "did not take");
  return ok;
}
int8_t World::callback(I2CBusOp* op, int owner) {
  progress++;
  Rec* r = find(op);
  if (c->failed()) return 0;
  if (!r) {  c->fail("callback", "device %d was called back for an operation that is not outstanding", owner);  return 0;  }
  if (r->owner != owner) {  c->fail("callback", "device %d was called back for #%u, which belongs to %d", owner, r->id, r->owner);  return 0;  }
  if (!purging) {
    if (r != cur) {  c->fail("callback", "#%u was called back while it was queued", r->id);  return 0;  }
    if (wire) {  c->fail("callback", "#%u was called back before it concluded", r->id);  return 0;  }
  }
  XferFault want = purging ? XferFault::QUEUE_FLUSH : r->fault;
  if (op->getFault() != want) {  c->fail("fault", "#%u was called back with fault %s; expected %s", r->id, BusOp::getErrorString(op->getFault()), BusOp::getErrorString(want));  return 0;  }
  if (!op->isComplete()) {  c->fail("callback", "#%u was called back in state %s", r->id, BusOp::getStateString(op->get_state()));  return 0;  }
  if (!purging && (op->buffer() != r->buf || op->bufferLen() != r->len)) {  c->fail("params", "#%u was called back with another buffer", r->id);  return 0;  }
  bool more = chain_budget && c->chance(1, 6);
  bool recycle = !purging && r->recycles < 3 && c->chance(1, 6);
  if (purging) {
    // It is gone from the model before anything can be queued in its place.
    if (cur == r) {  cur = nullptr;  wire = 0;  }
    for (size_t i = 0; i < q.size(); i++) if (q[i] == r) {  q.erase(q.begin() + i);  break;  }
    concluded(r, "purged");
  }
  if (more && owner >= 0 && devs[owner]) {
    chain_budget--;
    c->probe(P_CHAINED);
    Rec* keep = cur;
    Rec ghost;
    if (purging_current && !cur) {  ghost.op = op;  ghost.done = true;  cur = &ghost;  }    // The slot is still taken.
    request(owner, 2, -1, 0, nullptr);
    if (cur == &ghost) cur = keep;
  }
  if (!purging) {
    if (recycle) {  r->recycles++;  r->recycling = true;  c->probe(P_RECYCLED);  c->ev("#%u recycle", r->id);  return BUSOP_CALLBACK_RECYCLE;  }
    c->probe(r->fault == XferFault::NONE ? P_OK : P_FAULTED);
    concluded(r, "concluded");
    cur = nullptr;
  }
  else if (c->chance(1, 4)) return BUSOP_CALLBACK_RECYCLE;     // It has no effect on a purge.
  return c->chance(1, 5) ? BUSOP_CALLBACK_ERROR : BUSOP_CALLBACK_NOMINAL;
}
int8_t Adapter::io_op_callback(BusOp* b) {
  // The adapter is its own client during a sweep.
  World& w = *W;
  Ctx& c = *w.c;
  w.progress++;
  I2CBusOp* op = (I2CBusOp*) b;
  Rec* r = w.find(op);
  if (!r || r->owner != -2) {  c.fail("callback", "the adapter was called back for an operation that it does not own");  return 0;  }
  uint8_t addr = op->dev_addr;
  if (!w.purging && (r != w.cur || w.wire)) {  c.fail("callback", "#%u was called back before it concluded", r->id);  return 0;  }
  if (addr != r->addr) {  c.fail("sweep", "a ping of %u was called back as %u", r->addr, addr);  return 0;  }
  if (op->getFault() != (w.purging ? XferFault::QUEUE_FLUSH : r->fault)) {  c.fail("fault", "#%u was called back with fault %s", r->id, BusOp::getErrorString(op->getFault()));  return 0;  }
  int8_t ret = I2CAdapter::io_op_callback(op);
  w.want_map[addr & 0x7F] = w.purging ? '?' : (r->fault == XferFault::NONE) ? '*' : '.';
  if (w.purging) {
    if (w.cur == r) {  w.cur = nullptr;  w.wire = 0;  }
    for (size_t i = 0; i < w.q.size(); i++) if (w.q[i] == r) {  w.q.erase(w.q.begin() + i);  break;  }
    w.concluded(r, "purged");
    w.sweeping = false;
  }
  else if (ret == BUSOP_CALLBACK_RECYCLE) {
    r->recycling = true;
    if (addr >= 127) c.fail("sweep", "the sweep went beyond the last address");
    else if (op->dev_addr != addr + 1) c.fail("sweep", "the sweep went from %u to %u", addr, op->dev_addr);
  }
  else {
    if (addr < 127) c.fail("sweep", "the sweep ended at address %u", addr);
    w.concluded(r, "concluded the sweep");
    w.cur = nullptr;
    w.sweeping = false;
  }
  return ret;
}
int8_t Dev::io_op_callback(BusOp* op) {  return W->callback((I2CBusOp*) op, idx);  }
int8_t Dev::io_op_callahead(BusOp*) {  if (!W->quiet && W->c->chance(1, 12)) {  W->c->fault(F_RECALL);  return -1;  }  return 0;  }

int8_t Adapter::queue_io_job(BusOp* b) {
  World& w = *W;
  Ctx& c = *w.c;
  I2CBusOp* op = (I2CBusOp*) b;
  Rec* r = w.find(op);
  bool dup = (r != nullptr) && !r->recycling;
  bool re = (r != nullptr) && r->recycling;
  if (!r) {
    r = new Rec();
    w.all.push_back(r);
    r->op = op;  r->id = w.next_id++;
    r->owner = -1;
    if (op->callback == (BusOpCallback*) this) r->owner = -2;
    for (int i = 0; i < 4; i++) if (w.devs[i] && op->callback == (BusOpCallback*) w.devs[i]) r->owner = i;
  }
  if (!dup) {
    r->code = op->get_opcode();  r->addr = op->dev_addr;  r->sub = op->sub_addr;  r->buf = op->buffer();  r->len = op->bufferLen();
    r->fault = XferFault::NONE;
  }
  Ask* ask = w.ask;
  w.ask = nullptr;             // What is called back from within is another matter.
  if (ask && !re) {
    if (dup) {  c.fail("params", "a request was made with #%u, which is outstanding", r->id);  return -1;  }
    if (r->owner != ask->owner || r->code != ask->code || r->addr != ask->addr || r->sub != ask->sub || r->buf != ask->buf || r->len != ask->len) {
      c.fail("params", "a request by %d for op %d at %02x:%d of %u bytes became one by %d for op %d at %02x:%d of %u%s", ask->owner, (int) ask->code, ask->addr, ask->sub, ask->len, r->owner, (int) r->code, r->addr, r->sub, r->len, (r->buf == ask->buf) ? "" : " elsewhere");
      return -1;
    }
  }
  bool direct = (!w.cur || re) && w.q.empty() && w.asap && busOnline();
  bool arm = !w.quiet && c.chance(1, 12);
  if (arm) {  g_malloc_failed = 0;  g_malloc_fail_in = 0;  }
  Rec* old = w.tentative;
  w.tentative = (!dup && direct) ? r : nullptr;
  int8_t ret = I2CAdapter::queue_io_job(op);
  w.tentative = old;
  bool f = arm && g_malloc_failed > 0;
  if (arm) {  g_malloc_fail_in = -1;  if (f) c.fault(F_ALLOC);  }
  if (ask) ask->accepted = (ret == 0);
  if (c.failed()) return ret;
  if (dup) {
    c.probe(P_DOUBLE);
    if (ret == 0) c.fail("double", "#%u was accepted while it was already outstanding", r->id);
    return ret;
  }
  c.ev("queue #%u op %d addr %02x%s = %d", r->id, (int) r->code, r->addr, re ? " again" : "", ret);
  if ((ret != 0) != (f && !direct)) {  c.fail("accept", "queue_io_job() returned %d for #%u%s", ret, r->id, f ? " with no memory" : "");  return ret;  }
  if (ret == 0) {
    r->recycling = false;
    r->took = true;
    if (re && direct) c.probe(P_ASAP);
    else if (re) {
      if (w.cur == r) w.cur = nullptr;
      w.q.push_back(r);
    }
    else if (direct) c.probe(P_ASAP);
    else w.q.push_back(r);
    c.nontrivial();
  }
  else if (!re) r->done = true;
  else {  r->recycling = false;  w.q.push_front(r);  if (w.cur == r) w.cur = nullptr;  }    // It keeps the active slot.
  return ret;
}
}

/* The platform's part of the driver: a wire that takes some number of steps per transfer. */
int8_t I2CAdapter::_bus_init() {
  if (W->init_fails) return -1;
  _pf_needs_op_advance(W->advance_mode);
  _pf_dispatch_on_queue(W->asap);
  return 0;
}
int8_t I2CAdapter::_bus_deinit() {  return 0;  }
void I2CAdapter::printHardwareState(StringBuilder*) {}

XferFault I2CBusOp::begin() {
  World& w = *W;
  Ctx& c = *w.c;
  w.progress++;
  if (c.failed()) {  abort(XferFault::NO_REASON);  return getFault();  }
  Rec* r = w.find(this);
  if (!r && w.tentative && w.tentative->op == this) {
    r = w.tentative;
    w.cur = r;
  }
  if (!r) {  c.fail("stray", "an operation that is not outstanding was begun");  abort(XferFault::NO_REASON);  return getFault();  }
  if (w.cur && w.cur != r) {  c.fail("overlap", "#%u was begun while #%u has the bus", r->id, w.cur->id);  return getFault();  }
  if (w.cur != r) {
    if (w.q.front() != r) {  c.fail("order", "#%u was begun ahead of #%u", r->id, w.q.front()->id);  return getFault();  }
    w.q.pop_front();
    w.cur = r;
  }
  if (w.wire) {  c.fail("overlap", "#%u was begun twice", r->id);  return getFault();  }
  if (r->owner >= 0 && !w.devs[r->owner]) {  c.fail("gone", "#%u was begun for a device that no longer exists", r->id);  return getFault();  }
  if (dev_addr != r->addr || sub_addr != r->sub || _buf != r->buf || _buf_len != r->len || get_opcode() != r->code) {  c.fail("params", "#%u was begun with other parameters than it was given", r->id);  return getFault();  }
  if (hasFault()) {  c.fail("fault", "#%u was begun with a fault from before", r->id);  return getFault();  }
  if (device != w.a) {  c.fail("params", "#%u was begun without its adapter", r->id);  return getFault();  }
  if (!w.quiet && c.chance(1, 10)) {  c.fault(F_BUSY);  c.ev("begin #%u busy", r->id);  return XferFault::BUS_BUSY;  }
  c.ev("begin #%u", r->id);
  if (0 != execCA()) {  r->fault = XferFault::IO_RECALL;  abort(XferFault::IO_RECALL);  return XferFault::IO_RECALL;  }
  if (!w.quiet && c.chance(1, 10)) {  c.fault(F_BUSFAULT);  r->fault = XferFault::BUS_FAULT;  abort(XferFault::BUS_FAULT);  return XferFault::BUS_FAULT;  }
  r->fault = w.present[dev_addr & 0x7F] ? XferFault::NONE : XferFault::DEV_NOT_FOUND;
  if (r->fault != XferFault::NONE) c.fault(F_NACK);
  if (w.sync_ok && c.chance(1, 4)) {
    c.probe(P_SYNC);
    if (r->fault == XferFault::NONE) markComplete();  else abort(r->fault);
    return getFault();
  }
  set_state(c.pick({XferState::INITIATE, XferState::ADDR, XferState::TX_WAIT, XferState::RX_WAIT, XferState::STOP}));
  w.wire = 1 + c.draw(4);
  if (!w.quiet && c.chance(1, 16)) {  w.wire = -1;  c.fault(F_STALL);  }
  return XferFault::NONE;
}
static void wire_step(I2CBusOp* op) {
  World& w = *W;
  if (!w.cur || w.cur->op != op || w.wire <= 0) return;
  if (--w.wire) {  op->set_state(w.c->pick({XferState::ADDR, XferState::TX_WAIT, XferState::RX_WAIT, XferState::STOP}));  return;  }
  if (w.cur->fault == XferFault::NONE) op->markComplete();  else op->abort(w.cur->fault);
}
XferFault I2CBusOp::advance(uint32_t) {
  World& w = *W;
  if (!w.advance_mode) w.c->fail("advance", "an operation was advanced on a platform that does not ask for it");
  if (!w.cur || w.cur->op != this) w.c->fail("advance", "an operation that does not have the bus was advanced");
  else wire_step(this);
  return getFault();
}

namespace {
void run(Ctx& c) {
  World w;
  W = &w;  w.c = &c;
  size_t h0 = heap_in_use();      // Includes the empty deque.
  w.advance_mode = c.chance(1, 2);
  w.asap = c.chance(1, 3);
  w.sync_ok = c.chance(1, 3);
  uint32_t density = c.draw(4);
  for (int i = 0; i < 128; i++) w.present[i] = (hash64(c.salt(), i) % 4) < density;
  memset(w.want_map, ' ', 128);
  uint32_t pool = c.draw(6);
  I2CAdapterOptions opts(0, 1, 2);
  w.a = new Adapter(&opts, pool ? pool : 1, 8);
  for (int i = 0; i < 3; i++) {
    w.devs[i] = new Dev(i, (uint8_t) (0x10 + 0x11 * i));
    w.devs[i]->setAdapter(w.a);
  }
  static uint8_t shared[512];
  I2CBusOp own[2];
  for (auto& o : own) {  o.shouldReap(false);  }
  bool own_faulted[2] = {false, false};
  bool online = false;
  // A buffer that was given along with the operation is freed once, and the operation forgets it.
  uint8_t* own_heap[2] = {nullptr, nullptr};
  auto freed_check = [&](int k) {
    if (!own_heap[k]) return;
    own_heap[k] = nullptr;
    if (own[k].buffer() || own[k].bufferLen() || own[k].shouldFreeBuffer()) c.fail("owned", "an operation still refers to the buffer that was freed behind it");
  };
  auto stats_check = [&]() {
    uint32_t total = 0, bad = 0, got_bad = 0, got_total = 0;
    for (auto r : w.all) if (r->took && r->done) {  total++;  bad += r->bad;  }
    StringBuilder s;
    w.a->printAdapter(&s);
    const char* at = strstr((const char*) s.string(), "Xfers (fail/total)");
    if (!at || 2 != sscanf(at + 18, " %u/%u", &got_bad, &got_total)) return c.fail("stats", "the adapter does not print its counts");
    if (got_bad != bad || got_total != total) c.fail("stats", "the adapter counted %u failures in %u transfers; there were %u in %u", got_bad, got_total, bad, total);
    c.probe(P_STATS);
  };
  w.chain_budget = 6;
  // Interrupts come at the clock reads, too.
  c.on_clock_read = [&]() {
    if (!w.advance_mode && w.cur && w.wire > 0 && !w.purging && c.chance(1, 3)) {  c.probe(P_ISR);  wire_step(w.cur->op);  }
  };
  auto purge = [&](int what, int dev) {
    c.fault(F_PURGE);
    w.purging = true;
    w.purging_current = (what == 0);
    std::vector<Rec*> expect;
    if (what == 0) {
      if (w.a->currentJob()) {  Rec* r = w.find(w.a->currentJob());  if (r) expect.push_back(r);  }
    }
    else for (auto r : w.q) {
      if (r->op == w.a->currentJob()) continue;
      if (what == 1 || r->owner == dev) expect.push_back(r);
    }
    c.ev("purge %s (%u)", what == 0 ? "current" : what == 1 ? "queued" : "device", (unsigned) expect.size());
    if (what == 0) w.a->purge_current_job();
    else if (what == 1) w.a->purge_queued_work();
    else {
      uint32_t budget = w.chain_budget;
      int8_t n = w.a->purge_queued_work_by_dev(w.devs[dev]);
      uint32_t extra = budget - w.chain_budget;
      if (!c.failed() && (n < (int) expect.size() || n > (int) (expect.size() + extra))) c.fail("purge", "purge of a device's work took %d jobs; it had %u queued", n, (unsigned) expect.size());
    }
    w.purging = w.purging_current = false;
    if (c.failed()) return;
    for (auto r : expect) {
      if (!r->done) c.fail("purge", "#%u was not called back when it was purged", r->id);
      c.probe(what == 0 ? P_PURGED_CUR : what == 1 ? P_PURGED_Q : P_PURGED_DEV);
    }
  };
  auto check_map = [&]() {
    StringBuilder s;
    w.a->printPingMap(&s);
    const char* t = (const char*) s.string();
    for (int row = 0; row < 8; row++) {
      char pre[12];
      snprintf(pre, sizeof(pre), "\t0x%02x: ", row * 16);
      const char* at = strstr(t, pre);
      if (!at) {  c.fail("map", "the ping map has no row %d", row);  return;  }
      at += strlen(pre);
      for (int i = 0; i < 16; i++) {
        char want = w.want_map[row * 16 + i];
        if (want != '?' && at[i * 2] != want) {  c.fail("map", "the ping map says '%c' of address 0x%02x; '%c' was expected", at[i * 2], row * 16 + i, want);  return;  }
      }
    }
    c.probe(P_MAP);
  };
  auto poll = [&]() {
    w.progress = 0;
    PollResult r = w.a->poll();
    PollResult want = !w.progress ? PollResult::NO_ACTION : w.a->busIdle() ? PollResult::ACTION : PollResult::REPOLL;
    if (!c.failed() && r != want) c.fail("poll-code", "poll() returned %d, having begun or concluded %u, and %s", (int) r, w.progress, w.a->busIdle() ? "is idle" : "has more to do");
  };
  c.plan_ops(6 + c.draw(90));
  if (!c.chance(1, 5)) {  online = (0 == w.a->init());  }
  while (c.next_op() && !c.failed()) {
    c.step();
    uint32_t kind = c.draw(16);
    c.advance(20);
    int d = c.draw(3);
    uint8_t* b = shared + c.draw(128);
    uint16_t n = (uint16_t) c.draw(64);
    switch (kind) {
      case 0: case 1: if (w.devs[d]) w.request(d, 0, (int) c.range(0, 256) - 1, c.chance(1, 4) ? (uint16_t) (n + 256) : n, b);  break;
      case 2: if (w.devs[d]) w.request(d, 1, (int) c.range(0, 256) - 1, c.chance(1, 4) ? (uint16_t) (255 - n) : n, b);  break;
      case 3: if (w.devs[d]) w.request(d, 2, -1, 0, nullptr);  break;
      case 4: {
        I2CBusOp* o = &own[c.draw(2)];
        int k = (o == own) ? 0 : 1;
        bool fresh = false;
        if (w.find(o) == nullptr) {
          if (!w.devs[d]) break;
          o->callback = w.devs[d];
          o->set_opcode(BusOpcode::TX);
          o->dev_addr = w.devs[d]->_dev_addr;  o->sub_addr = (int16_t) c.draw(9);
          freed_check(k);
          if (c.failed()) break;
          if (c.chance(1, 3)) {
            own_heap[k] = b = (uint8_t*) malloc(n + 1);
            o->shouldFreeBuffer(true);
            c.probe(P_OWN_HEAP);
          }
          const int style = (int) c.draw(4);    // Or made anew, as an application would that has all of its particulars.
          if (style >= 2) {
            const bool frees = o->shouldFreeBuffer();
            const uint8_t addr = o->dev_addr;
            const int16_t sub = o->sub_addr;
            o->~I2CBusOp();
            if (style == 2) {
              new (o) I2CBusOp(BusOpcode::TX, addr, sub, b, n);
              o->callback = w.devs[d];
            }
            else {
              new (o) I2CBusOp(BusOpcode::TX, w.devs[d]);
              o->dev_addr = addr;  o->sub_addr = sub;
            }
            if (o->dev_addr != addr || o->sub_addr != sub || o->get_opcode() != BusOpcode::TX || o->callback != w.devs[d] || !o->isIdle() || o->hasFault() || o->shouldFreeBuffer()) {
              c.fail("made", "an operation made for %02x:%d is one for %02x:%d%s", addr, sub, o->dev_addr, o->sub_addr, o->isIdle() ? "" : ", and is not idle");
              break;
            }
            o->shouldReap(false);  o->shouldFreeBuffer(frees);
            own_faulted[k] = false;
            c.probe(P_MADE);
          }
          o->setBuffer(b, n);
          fresh = true;
          c.probe(own_faulted[k] ? P_OWNED_AFTER_FAULT : P_OWNED);
          if (o->hasFault()) own_faulted[k] = true;
        }
        // Through the device, which then is the one to be called back, or directly.
        if (w.devs[d] && w.find(o) == nullptr && c.chance(1, 2)) {
          const bool blank = c.chance(1, 2);
          if (blank) o->callback = nullptr;
          Ask a {d, BusOpcode::TX, o->dev_addr, o->sub_addr, b, n};
          w.ask = &a;
          int8_t ret = w.devs[d]->queue_io_job(o);
          w.ask = nullptr;
          if (!c.failed() && (ret == 0) != a.accepted) c.fail("accept", "device %d returned %d for an operation which the adapter %s", d, ret, a.accepted ? "took" : "did not take");
        }
        else w.a->queue_io_job(o);
        if (fresh && own_heap[k] && !c.failed() && !w.all.back()->took) {
          // It was refused, and the buffer is still the application's.
          if (o->buffer() != own_heap[k] || !o->shouldFreeBuffer()) {  c.fail("owned", "an operation that was refused lost its buffer");  break;  }
          free(own_heap[k]);
          own_heap[k] = nullptr;
          o->setBuffer(nullptr, 0);  o->shouldFreeBuffer(false);
        }
        break;
      }
      case 5: {
        if (!w.devs[d]) break;
        I2CBusOp* o = w.a->new_op(BusOpcode::RX, w.devs[d]);
        if (!o) break;
        bool null = c.chance(1, 3);
        uint8_t* p = null ? nullptr : (uint8_t*) malloc(n + 1);
        o->dev_addr = w.devs[d]->_dev_addr;
        o->setBuffer(p, null ? 0 : n + 1);
        o->shouldFreeBuffer(true);
        c.probe(null ? P_FREENULL : P_FREEBUF);
        if (0 != w.a->queue_io_job(o)) {  o->shouldFreeBuffer(false);  free(p);  w.a->return_op(o);  }
        break;
      }
      case 6: case 7: case 8: case 9: {
        uint32_t k = 1 + c.draw(6);
        while (k-- && !c.failed()) poll();
        break;
      }
      case 10: case 11: {
        uint32_t k = 1 + c.draw(4);
        if (w.advance_mode) {  poll();  break;  }
        while (k--) if (w.cur && w.wire > 0) wire_step(w.cur->op);
        break;
      }
      case 12: purge(0, 0);  break;
      case 13: if (c.chance(1, 2)) purge(1, 0);  else if (w.devs[d]) purge(2, d);  break;
      case 14: {
        if (c.chance(1, 2)) {
          if (!online) {
            w.init_fails = c.chance(1, 3);
            online = (0 == w.a->init());
            if (online == w.init_fails || w.a->busOnline() != online || w.a->busError() == online) {  c.fail("init", "after init() %s, the bus is %sline", w.init_fails ? "failed" : "succeeded", w.a->busOnline() ? "on" : "off");  return;  }
            if (!online) c.fault(F_INITFAIL);
            else memset(w.want_map, ' ', 128);
            if (!w.q.empty()) c.probe(P_OFFLINE);
          }
          break;
        }
        if (!w.devs[d]) {
          w.devs[d] = new Dev(d, (uint8_t) (0x10 + 0x11 * d));
          w.devs[d]->setAdapter(w.a);
          break;
        }
        // The device goes away, and whatever it asked for with it.
        c.fault(F_GONE);
        c.ev("device %d goes away", d);
        Dev* gone = w.devs[d];
        w.devs[d] = nullptr;
        delete gone;
        if (w.cur && w.cur->owner == d) {
          c.probe(P_DEV_GONE_INFLIGHT);
          if (w.a->currentJob() == w.cur->op) {  c.fail("gone", "a device's operation outlives it in the active slot");  break;  }
          w.cur->done = w.cur->bad = true;  w.cur = nullptr;  w.wire = 0;
        }
        for (size_t i = 0; i < w.q.size(); ) if (w.q[i]->owner == d) {  w.q[i]->done = w.q[i]->bad = true;  w.q.erase(w.q.begin() + i);  }  else i++;
        break;
      }
      case 15: {
        if (w.sweeping || !online) break;
        uint8_t start = (uint8_t) (c.chance(1, 2) ? 100 + c.draw(28) : 1 + c.draw(126));
        uint32_t id = w.next_id;
        Ask a {-2, BusOpcode::TX_CMD, start, -1, nullptr, 0};
        w.ask = &a;
        w.a->ping_slave_addr(start);
        w.ask = nullptr;
        w.sweeping = (w.next_id > id) && !w.all.back()->done;
        if (w.sweeping) c.probe(P_SWEEP);
        break;
      }
    }
    if (c.failed()) break;
    int active = w.a->currentJob() ? 1 : 0;
    int outstanding = (int) w.q.size() + (w.cur ? 1 : 0);
    if (active + w.a->depth() != outstanding) {  c.fail("lost", "the adapter has %d operations; %d are outstanding", active + w.a->depth(), outstanding);  break;  }
    if (w.a->busIdle() != (outstanding == 0)) {  c.fail("idle", "busIdle() is %d with %d outstanding", w.a->busIdle(), outstanding);  break;  }
    if (c.chance(1, 16)) {  stats_check();  if (c.failed()) break;  }
    c.state((uint64_t) w.q.size() | (w.cur ? 32u : 0) | ((uint64_t) (w.wire & 7) << 8) | ((uint64_t) w.a->pool().available() << 12) | ((uint64_t) w.sweeping << 20) | ((uint64_t) online << 21));
  }
  if (c.failed()) return;
  c.begin_tail();
  c.ev("tail");
  w.quiet = true;
  w.chain_budget = 0;
  bool teardown_early = c.chance(1, 3);
  if (!teardown_early) {
    w.init_fails = false;
    if (!online) w.a->init();
    if (w.wire < 0) purge(0, 0);
    uint32_t limit = 200 + 8 * (uint32_t) w.q.size() * 8 + 128 * 20;
    while (!w.a->busIdle() && limit-- && !c.failed()) {
      poll();
      if (!w.advance_mode && w.cur && w.wire > 0) wire_step(w.cur->op);
    }
    if (!c.failed() && !w.a->busIdle()) c.fail("stuck", "the bus did not become idle");
    if (!c.failed()) for (auto r : w.all) if (!r->done) {  c.fail("lost", "#%u was never called back", r->id);  break;  }
    if (!c.failed() && w.a->pool().available() != w.a->pool().capacity()) c.fail("pool", "%u of %u operations are in the pool, at rest", w.a->pool().available(), w.a->pool().capacity());
    if (!c.failed() && w.a->pool().overdraws() != w.a->pool().overdrawsFreed()) c.fail("pool", "%u operations were overdrawn, and %u freed", w.a->pool().overdraws(), w.a->pool().overdrawsFreed());
    if (w.a->pool().overdraws()) c.probe(P_OVERDRAW);
    for (auto& o : own) if (!c.failed() && !o.isIdle()) c.fail("owned", "an operation that belongs to the application was not made idle");
    if (!c.failed()) check_map();
    if (!c.failed()) stats_check();
    for (int k = 0; k < 2 && !c.failed(); k++) freed_check(k);
  }
  if (c.failed()) return;
  c.on_clock_read = nullptr;
  // Teardown with work outstanding: everyone is told.
  if (w.cur || !w.q.empty()) c.probe(P_DTOR_WORK);
  w.purging = true;
  std::vector<Rec*> left(w.q.begin(), w.q.end());
  if (w.cur) left.push_back(w.cur);
  for (int i = 0; i < 3; i++) if (w.devs[i] && c.chance(1, 2)) {
    Dev* gone = w.devs[i];
    w.devs[i] = nullptr;
    for (auto r : left) if (r->owner == i) {
      r->done = true;
      if (w.cur == r) {  w.cur = nullptr;  w.wire = 0;  }
      for (size_t k = 0; k < w.q.size(); k++) if (w.q[k] == r) {  w.q.erase(w.q.begin() + k);  break;  }
    }
    delete gone;
  }
  delete w.a;
  for (auto r : left) if (!c.failed() && !r->done && r->owner >= 0) c.fail("teardown", "#%u was not called back when the adapter went away", r->id);
  for (int i = 0; i < 3; i++) if (w.devs[i]) {  w.devs[i]->setAdapter(nullptr);  delete w.devs[i];  }
  for (auto r : w.all) delete r;
  std::vector<Rec*>().swap(w.all);
  std::vector<Rec*>().swap(left);
  w.q.clear();
  w.q.shrink_to_fit();
  W = nullptr;
  size_t h1 = heap_in_use();
  if (!c.failed() && h1 != h0) c.fail("leak", "%d bytes were not given back", (int) (h1 - h0));
}
}

Harness g_harness = {
  "B01",
  "One run: an I2C adapter with a pool of 1 to 5 operations and three devices through up to 96 writes, reads, pings, sweeps, owned operations, polls, interrupts, purges and departures of devices, on a simulated wire. "
  "Non-trivial: an operation was accepted. Distinct by event log.",
  run,
  {"no acknowledgement", "bus fault", "bus busy", "recalled by its owner", "stalled transfer", "allocation refused", "purge", "device went away", "initialization failed"},
  {"concluded", "concluded with a fault", "recycled", "queued from a callback", "current purged", "queued purged", "purged by device", "device left in flight", "sweep", "owned operation", "owned operation after a fault",
   "queued twice", "buffer freed", "free of no buffer", "pool overdrawn", "synchronous completion", "interrupt during poll", "dispatched on queueing", "queued while offline", "torn down with work", "ping map compared", "owned operation with a buffer to free", "counts compared", "operation made with its particulars"},
  {"I2CAdapter", "BusAdapter", "I2CBusOp", "I2CDevice", "PriorityQueue", "ElementPool"},
  {"I2CBusOp::begin() and advance(), _bus_init() and _bus_deinit(): the platform's driver, on a simulated wire", "allocator", "clock"},
  "queue depth x active x wire x pool x sweep x online, consecutive pairs",
  {}, 20000, 400000
};
