/* B02: SPI operations run by priority and then in order, hold their chip-select exactly while they run, and are called back exactly once. */
#include "engine.h"
#include "platform.h"
#include "BusQueue/SPIAdapter.h"
#include <vector>
#include <string.h>
using namespace sim;

namespace {
enum {  F_BUSFAULT, F_BUSY, F_RECALL, F_STALL, F_ALLOC, F_PURGE, F_FLOOD, F_INITFAIL  };
enum {  P_OK, P_FAULTED, P_RECYCLED, P_CHAINED, P_PURGED_CUR, P_PURGED_Q, P_PURGED_DEV, P_OWNED, P_OWNED_AFTER_FAULT, P_DOUBLE, P_FREEBUF, P_FREENULL,
        P_OVERDRAW, P_SYNC, P_ISR, P_PRIO, P_ANON, P_DTOR_WORK, P_ACTIVE_HIGH, P_NULL, P_RECYCLE_REFUSED, P_MADE  };
struct Rec {
  SPIBusOp* op;  uint32_t id;  int owner;  int prio;
  BusOpcode code;  uint8_t* buf;  uint16_t len;  uint8_t cs;  bool ah;  uint8_t par[8];  uint8_t npar;  uint32_t freq;  uint8_t bits;  bool cpol, cpha;
  uint32_t recycles = 0;  XferFault fault = XferFault::NONE;  bool done = false, flushed = false;
};
struct World;
World* W = nullptr;
class Adapter : public SPIAdapter {
  public:
    using SPIAdapter::SPIAdapter;
    int8_t queue_io_job(BusOp* op) {  return queue_io_job(op, 0);  }
    int8_t queue_io_job(BusOp*, int);
    ElementPool<SPIBusOp>& pool() {  return preallocated;  }
    int depth() {  return work_queue.size();  }
};
class Dev : public SPIIDevice {
  public:
    int idx;
    Dev(int i) : SPIIDevice((uint8_t) (20 + i)), idx(i) {}
    int8_t io_op_callahead(BusOp*);
    int8_t io_op_callback(BusOp*);
    int8_t queue_io_job(BusOp* op) {  return _bus->queue_io_job(op);  }
};
struct World {
  Ctx* c;  Adapter* a = nullptr;
  std::vector<Rec*> q, cbq, all;       // cbq is in the order in which they concluded.
  Rec* cur = nullptr;
  Dev* devs[3] = {};
  int wire = 0;
  bool advance_mode, sync_ok, guard, init_fails = false, purging = false, quiet = false, in_service = false, tearing = false;
  uint32_t maxq;
  Rec* recycling = nullptr;  bool recycled_ok = false;
  uint32_t next_id = 1, chain_budget = 6;
  int level[32];  int cs_events = 0;
  uint8_t shared[256];
  Rec* find(SPIBusOp* op) {
    if (cur && cur->op == op) return cur;
    for (auto r : q) if (r->op == op) return r;
    for (auto r : cbq) if (r->op == op) return r;
    return nullptr;
  }
  static void drop(std::vector<Rec*>& v, Rec* r) {  for (size_t i = 0; i < v.size(); i++) if (v[i] == r) {  v.erase(v.begin() + i);  return;  }  }
  void enqueue(Rec* r) {
    size_t i = 0;
    while (i < q.size() && q[i]->prio >= r->prio) i++;
    q.insert(q.begin() + i, r);
  }
  bool selected(Rec* r) {  return level[r->cs] == (r->ah ? 1 : 0);  }
  int selections() {
    int n = 0;
    for (int i = 20; i < 32; i++) {
      bool ah = (i >= 26);          // Pins from 26 are active-high.
      if (level[i] >= 0 && level[i] == (ah ? 1 : 0)) n++;
    }
    return n;
  }
  int8_t callback(SPIBusOp* op, int owner);
  void submit(int d, int how);
  SPIBusOp own[2];
  bool own_busy(SPIBusOp* o) {  return find(o) != nullptr;  }
};

int8_t World::callback(SPIBusOp* op, int owner) {
  if (c->failed()) return 0;
  Rec* r = find(op);
  if (!r) {  c->fail("callback", "%d was called back for an operation that is not outstanding", owner);  return 0;  }
  if (r->owner != owner) {  c->fail("callback", "%d was called back for #%u, which belongs to %d", owner, r->id, r->owner);  return 0;  }
  bool from_cbq = !cbq.empty() && cbq[0] == r;
  if (!from_cbq) for (auto x : cbq) if (x == r) from_cbq = r->flushed || cbq[0]->flushed;
  if (!from_cbq && !purging) {  c->fail("callback", "#%u was called back out of its turn", r->id);  return 0;  }
  XferFault want = from_cbq ? (r->flushed ? XferFault::QUEUE_FLUSH : r->fault) : XferFault::QUEUE_FLUSH;
  if (op->getFault() != want) {  c->fail("fault", "#%u was called back with fault %s; expected %s", r->id, BusOp::getErrorString(op->getFault()), BusOp::getErrorString(want));  return 0;  }
  if (op->get_state() != (want == XferFault::NONE ? XferState::COMPLETE : XferState::FAULT)) {  c->fail("callback", "#%u was called back in state %s", r->id, BusOp::getStateString(op->get_state()));  return 0;  }
  if (op->buffer() != r->buf || op->bufferLen() != r->len) {  c->fail("params", "#%u was called back with another buffer", r->id);  return 0;  }
  if (op->csAsserted() || ((!cur || cur == r) && selected(r))) {  c->fail("select", "#%u was called back with its chip-select asserted", r->id);  return 0;  }
  bool was_cur = (cur == r);
  bool recycle = from_cbq && !purging && r->recycles < 3 && c->chance(1, 5);
  if (!recycle) {
    if (was_cur) {  cur = nullptr;  wire = 0;  }
    drop(q, r);  drop(cbq, r);
    r->done = true;
    c->ev("#%u %s", r->id, from_cbq ? "concluded" : "purged");
    c->probe(want == XferFault::NONE ? P_OK : P_FAULTED);
  }
  if (chain_budget && c->chance(1, 6)) {  chain_budget--;  c->probe(P_CHAINED);  submit((int) c->draw(3), 0);  }
  if (recycle) {
    r->recycles++;
    c->probe(P_RECYCLED);
    recycling = r;
    c->ev("#%u recycle", r->id);
    return BUSOP_CALLBACK_RECYCLE;
  }
  return c->chance(1, 5) ? BUSOP_CALLBACK_ERROR : BUSOP_CALLBACK_NOMINAL;
}
int8_t Dev::io_op_callback(BusOp* op) {  return W->callback((SPIBusOp*) op, idx);  }
int8_t Dev::io_op_callahead(BusOp*) {  if (!W->quiet && W->c->chance(1, 12)) {  W->c->fault(F_RECALL);  return -1;  }  return 0;  }

int8_t Adapter::queue_io_job(BusOp* b, int prio) {
  World& w = *W;
  Ctx& c = *w.c;
  if (b == nullptr) return SPIAdapter::queue_io_job(nullptr, prio);
  SPIBusOp* op = (SPIBusOp*) b;
  Rec* r = w.find(op);
  bool re = (r != nullptr) && w.recycling == r;
  bool dup = r && !re;
  if (!r) {
    r = new Rec();
    w.all.push_back(r);
    r->op = op;  r->id = w.next_id++;
    r->owner = -2;
    for (int i = 0; i < 3; i++) if (op->callback == (BusOpCallback*) w.devs[i]) r->owner = i;
  }
  if (!dup) {
    r->code = op->get_opcode();  r->buf = op->buffer();  r->len = op->bufferLen();  r->cs = op->getCSPin();  r->ah = op->csActiveHigh();
    r->npar = op->transferParamLength();
    for (int i = 0; i < 8; i++) r->par[i] = op->getTransferParam(i);
    r->freq = op->maxFreq();  r->bits = op->bitsPerFrame();  r->cpol = op->cpol();  r->cpha = op->cpha();
    r->fault = XferFault::NONE;  r->flushed = false;  r->prio = prio;
  }
  bool flood = !dup && w.guard && w.q.size() >= w.maxq;
  bool arm = !w.quiet && !flood && c.chance(1, 12);
  if (arm) {  g_malloc_failed = 0;  g_malloc_fail_in = 0;  }
  int8_t ret = (prio == 0 && c.chance(1, 2)) ? SPIAdapter::queue_io_job(op) : SPIAdapter::queue_io_job(op, prio);
  bool f = arm && g_malloc_failed > 0;
  if (arm) {  g_malloc_fail_in = -1;  if (f) c.fault(F_ALLOC);  }
  int want = dup ? -4 : flood ? -1 : f ? -3 : 0;
  c.ev("queue #%u prio %d%s = %d", r->id, prio, re ? " again" : "", ret);
  if (ret != want) {  c.fail("accept", "queue_io_job() returned %d for #%u; expected %d", ret, r->id, want);  return ret;  }
  if (dup) {  c.probe(P_DOUBLE);  return ret;  }
  if (re) {  World::drop(w.cbq, r);  w.recycling = nullptr;  }
  if (ret == 0) {  w.enqueue(r);  c.nontrivial();  if (prio) c.probe(P_PRIO);  }
  else if (ret == -1) {  c.fault(F_FLOOD);  r->flushed = true;  r->fault = XferFault::QUEUE_FLUSH;  w.cbq.push_back(r);  }
  else if (re) {  r->flushed = true;  r->recycles = 99;  w.cbq.insert(w.cbq.begin(), r);  c.probe(P_RECYCLE_REFUSED);  }   // It is told, then.
  else r->done = true;
  return ret;
}
void World::submit(int d, int how) {
  SPIBusOp* o;
  bool mine = (how == 1), anon = (how == 3);
  bool free_null = false;
  uint8_t* fresh = nullptr;
  BusOpcode code;
  if (mine) {
    o = &own[c->draw(2)];
    if (find(o)) {  a->queue_io_job(o);  return;  }
    c->probe(o->hasFault() ? P_OWNED_AFTER_FAULT : P_OWNED);
    code = c->pick({BusOpcode::TX, BusOpcode::RX, BusOpcode::TX_WAIT_RX, BusOpcode::TX_CMD});
    const bool again = c->chance(1, 3);
    if (again) {      // Made anew, as an application would that has all of its particulars.
      const bool ah2 = c->chance(1, 2);
      const uint8_t cs2 = (uint8_t) c->draw(255);
      o->~SPIBusOp();
      if (c->chance(1, 2)) {
        new (o) SPIBusOp(code, devs[d], cs2, ah2);
        if (o->getCSPin() != cs2 || o->csActiveHigh() != ah2) {  c->fail("made", "an operation made for select %u, active %s, is one for %u, active %s", cs2, ah2 ? "high" : "low", o->getCSPin(), o->csActiveHigh() ? "high" : "low");  return;  }
      }
      else new (o) SPIBusOp(code, devs[d]);
      if (o->get_opcode() != code || o->callback != devs[d] || !o->isIdle() || o->hasFault() || o->buffer() || o->bufferLen() || o->transferParamLength() || o->csAsserted()) {  c->fail("made", "an operation that was just made is not as it was asked to be");  return;  }
      o->shouldReap(false);
      c->probe(P_MADE);
    }
    o->callback = devs[d];
    o->set_opcode(code);
  }
  else {
    code = c->pick({BusOpcode::TX, BusOpcode::RX, BusOpcode::TX_WAIT_RX});
    o = a->new_op(code, anon ? nullptr : devs[d]);
    if (!o) return;
    if (anon) c->probe(P_ANON);
    bool stale = o->maxFreq() != 0 || o->csActiveHigh() || o->csAsserted() || o->cpol() || o->cpha() || o->transferParamLength() != 0 || o->bitsPerFrame() != 8 || o->hasFault() || o->buffer() || o->bufferLen() || o->shouldFreeBuffer() || o->getCSPin() != 255;
    for (int i = 0; i < 8; i++) stale = stale || o->getTransferParam(i);
    if (stale) {
      c->fail("fresh", "an operation from the pool carries something of its last use");
      return;
    }
  }
  uint16_t n = (uint16_t) c->draw(64);
  uint8_t* b = shared + c->draw(128);
  if (how == 2) {
    free_null = c->chance(1, 3);
    fresh = free_null ? nullptr : (uint8_t*) malloc(n + 1);
    b = fresh;  n = free_null ? 0 : n + 1;
    o->shouldFreeBuffer(true);
    c->probe(free_null ? P_FREENULL : P_FREEBUF);
  }
  o->setBuffer(b, n);
  bool ah = c->chance(1, 3);
  if (ah) c->probe(P_ACTIVE_HIGH);
  o->csActiveHigh(ah);
  o->setCSPin((uint8_t) ((ah ? 26 : 20) + d));
  // It carries what it was given.
  uint8_t v[8], nv = (uint8_t) c->draw(9);
  uint32_t freq = o->maxFreq();
  uint8_t bits = o->bitsPerFrame();
  bool cpol = o->cpol(), cpha = o->cpha();
  if (!nv) {  nv = o->transferParamLength();  for (int i = 0; i < 8; i++) v[i] = o->getTransferParam(i);  }
  else {
    for (int i = 0; i < 8; i++) v[i] = i < nv ? (uint8_t) (1 + c->draw(255)) : 0;
    switch (nv) {
      case 1: o->setParams(v[0]);  break;
      case 2: o->setParams(v[0], v[1]);  break;
      case 3: o->setParams(v[0], v[1], v[2]);  break;
      case 4: o->setParams(v[0], v[1], v[2], v[3]);  break;
      case 5: o->setParams(v[0], v[1], v[2], v[3], v[4]);  break;
      case 6: o->setParams(v[0], v[1], v[2], v[3], v[4], v[5]);  break;
      case 7: o->setParams(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);  break;
      default: o->setParams(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);  break;
    }
  }
  if (c->chance(1, 3)) {  freq = 1 + (uint32_t) hash64(c->draw(1000), 3);  o->maxFreq(freq);  }
  if (c->chance(1, 3)) {
    const SPIFrameSize FS[] = {SPIFrameSize::BITS_8, SPIFrameSize::BITS_9, SPIFrameSize::BITS_16, SPIFrameSize::BITS_24, SPIFrameSize::BITS_32};
    const uint8_t N[] = {8, 9, 16, 24, 32};
    const int k = c->draw(5);
    bits = N[k];
    if (o->bitsPerFrame(FS[k]) != 0) c->fail("params", "a frame of %u bits was refused", bits);
  }
  if (c->chance(1, 3)) {  cpol = c->chance(1, 2);  o->cpol(cpol);  }
  if (c->chance(1, 3)) {  cpha = c->chance(1, 2);  o->cpha(cpha);  }
  bool kept = o->get_opcode() == code && o->callback == (anon ? nullptr : (BusOpCallback*) devs[d]) && o->buffer() == b && o->bufferLen() == n && o->csActiveHigh() == ah && o->getCSPin() == (ah ? 26 : 20) + d
    && o->transferParamLength() == nv && o->maxFreq() == freq && o->bitsPerFrame() == bits && o->cpol() == cpol && o->cpha() == cpha;
  for (int i = 0; i < 8; i++) kept = kept && o->getTransferParam(i) == v[i];
  if (!kept) {  c->fail("params", "an operation does not carry what it was given (%u parameters, %u bits)", nv, bits);  return;  }
  int prio = c->chance(1, 4) ? (int) c->draw(4) - 1 : 0;
  int8_t ret = a->queue_io_job(o, prio);
  if (ret == -3 && !mine) {  o->shouldFreeBuffer(false);  free(fresh);  a->return_op(o);  }
}
}

int8_t SPIAdapter::_bus_init() {
  _pf_needs_op_advance(W->advance_mode);
  _adapter_set_flag(SPI_FLAG_QUEUE_GUARD, W->guard);
  return W->init_fails ? -3 : 0;
}
int8_t SPIAdapter::_bus_deinit() {  return 0;  }
void SPIAdapter::printHardwareState(StringBuilder*) {}
int8_t SPIAdapter::io_op_callahead(BusOp*) {  return 0;  }
int8_t SPIAdapter::io_op_callback(BusOp* op) {  return W->callback((SPIBusOp*) op, -2);  }
int8_t SPIAdapter::setMode(const uint8_t) {  return 0;  }
int8_t SPIAdapter::frequency(const uint32_t) {  return 0;  }

XferFault SPIBusOp::begin() {
  World& w = *W;
  Ctx& c = *w.c;
  Rec* r = w.find(this);
  if (c.failed()) {  abort(XferFault::NO_REASON);  return getFault();  }
  if (!r) {  c.fail("stray", "an operation that is not outstanding was begun");  return XferFault::NO_REASON;  }
  if (w.cur && w.cur != r) {  c.fail("overlap", "#%u was begun while #%u has the bus", r->id, w.cur->id);  return XferFault::NO_REASON;  }
  if (w.cur != r) {
    if (w.q.empty() || w.q.front() != r) {  c.fail("order", "#%u was begun ahead of #%u", r->id, w.q.empty() ? 0 : w.q.front()->id);  return XferFault::NO_REASON;  }
    w.q.erase(w.q.begin());
    w.cur = r;
  }
  if (w.wire) {  c.fail("overlap", "#%u was begun twice", r->id);  return XferFault::NO_REASON;  }
  bool same = _buf == r->buf && _buf_len == r->len && get_opcode() == r->code && _cs_pin == r->cs && csActiveHigh() == r->ah && _max_freq == r->freq && bitsPerFrame() == r->bits && cpol() == r->cpol && cpha() == r->cpha && _param_len == r->npar;
  for (int i = 0; i < 8; i++) same = same && xfer_params[i] == r->par[i];
  if (!same) {  c.fail("params", "#%u was begun with other parameters than it was given", r->id);  return XferFault::NO_REASON;  }
  if (hasFault()) {  c.fail("fault", "#%u was begun with a fault from before", r->id);  return XferFault::NO_REASON;  }
  if (_bus != w.a) {  c.fail("params", "#%u was begun without its adapter", r->id);  return XferFault::NO_REASON;  }
  if (w.selections()) {  c.fail("select", "#%u was begun while something is still selected", r->id);  return XferFault::NO_REASON;  }
  if (!w.quiet && c.chance(1, 10)) {  c.fault(F_BUSY);  c.ev("begin #%u busy", r->id);  return XferFault::BUS_BUSY;  }
  c.ev("begin #%u", r->id);
  auto concluded_early = [&](XferFault x) {
    r->fault = x;
    w.cur = nullptr;
    w.cbq.push_back(r);
  };
  if (0 != execCA()) {  abort(XferFault::IO_RECALL);  concluded_early(XferFault::IO_RECALL);  return XferFault::IO_RECALL;  }
  if (!w.quiet && c.chance(1, 10)) {
    bool late = c.chance(1, 2);
    if (late) _assert_cs(true);
    c.fault(F_BUSFAULT);  abort(XferFault::BUS_FAULT);
    concluded_early(XferFault::BUS_FAULT);
    return XferFault::BUS_FAULT;
  }
  set_state(XferState::INITIATE);
  _assert_cs(true);
  if (!w.selected(r)) c.fail("select", "#%u is on the wire without its chip-select", r->id);
  r->fault = (!w.quiet && c.chance(1, 8)) ? XferFault::DMA_FAULT : XferFault::NONE;
  if (w.sync_ok && c.chance(1, 4)) {
    c.probe(P_SYNC);
    w.wire = -2;                              // Concluded, and awaiting the poll.
    if (r->fault == XferFault::NONE) markComplete();  else abort(r->fault);
    return XferFault::NONE;
  }
  set_state(w.advance_mode ? XferState::TX_WAIT : c.pick({XferState::INITIATE, XferState::ADDR, XferState::TX_WAIT, XferState::RX_WAIT}));
  w.wire = 1 + c.draw(4);
  if (!w.quiet && c.chance(1, 16)) {  w.wire = -1;  c.fault(F_STALL);  }
  return XferFault::NONE;
}
static void wire_step(SPIBusOp* op) {
  World& w = *W;
  if (!w.cur || w.cur->op != op || w.wire <= 0) return;
  if (!w.selected(w.cur)) {  w.c->fail("select", "#%u lost its chip-select during its transfer", w.cur->id);  return;  }
  if (w.selections() != 1) {  w.c->fail("select", "%d devices are selected", w.selections());  return;  }
  if (--w.wire) {  op->set_state(w.advance_mode ? XferState::RX_WAIT : w.c->pick({XferState::ADDR, XferState::TX_WAIT, XferState::RX_WAIT, XferState::STOP}));  return;  }
  w.wire = -2;
  if (w.cur->fault == XferFault::NONE) op->markComplete();  else op->abort(w.cur->fault);
}
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) {
  World& w = *W;
  if (!w.advance_mode) w.c->fail("advance", "an operation was advanced on a platform that does not ask for it");
  else if (!w.cur || w.cur->op != this) w.c->fail("advance", "an operation that does not have the bus was advanced");
  else wire_step(this);
  return 0;
}

namespace {
void run(Ctx& c) {
  World w;
  W = &w;  w.c = &c;
  memset(w.level, 0xFF, sizeof(w.level));
  for (int i = 20; i < 32; i++) w.level[i] = (i >= 26) ? 0 : 1;
  on_set_pin = [&](uint8_t pin, bool v) {  if (pin < 20 || pin >= 32) c.fail("select", "pin %u was driven", pin);  else w.level[pin] = v;  };
  w.all.reserve(512);  w.q.reserve(512);  w.cbq.reserve(512);
  size_t h0 = heap_in_use();
  w.advance_mode = c.chance(1, 2);
  w.sync_ok = c.chance(1, 3);
  w.guard = c.chance(1, 2);
  w.maxq = 1 + c.draw(8);
  for (auto& o : w.own) o.shouldReap(false);
  w.a = new Adapter(0, 1, 2, 3, 1 + c.draw(6), w.maxq);
  for (int i = 0; i < 3; i++) {  w.devs[i] = new Dev(i);  w.devs[i]->setAdapter(w.a);  }
  while (true) {
    w.init_fails = c.chance(1, 8);
    if (w.init_fails) c.fault(F_INITFAIL);
    const int8_t r = w.a->init();
    if (r != (w.init_fails ? -3 : 0)) {  c.fail("init", "init() returned %d", r);  return;  }
    if (w.a->busOnline() != !w.init_fails || w.a->busError() != w.init_fails) {  c.fail("init", "after init() %s, the bus is %sline%s", w.init_fails ? "failed" : "succeeded", w.a->busOnline() ? "on" : "off", w.a->busError() ? ", with an error" : "");  return;  }
    if (!w.init_fails) break;
  }
  c.on_clock_read = [&]() {
    if (!w.advance_mode && w.cur && w.wire > 0 && !w.purging && c.chance(1, 3)) {  c.probe(P_ISR);  wire_step(w.cur->op);  }
  };
  auto poll = [&]() {
    bool arm = !w.quiet && c.chance(1, 12);
    // The conclusion is noted as it is handed over.
    Rec* was = w.cur;
    if (arm) {  g_malloc_failed = 0;  g_malloc_fail_in = 0;  }
    size_t pend = w.cbq.size();
    w.a->poll();
    bool f = arm && g_malloc_failed > 0;
    if (arm) {  g_malloc_fail_in = -1;  if (f) c.fault(F_ALLOC);  }
    if (c.failed()) return;
    if (was && w.cur == was && w.a->currentJob() == nullptr) {
      if (w.wire != -2) {  c.fail("lost", "#%u left the bus before it concluded", was->id);  return;  }
      w.cbq.push_back(was);
      w.cur = nullptr;
      w.wire = 0;
    }
    // A failure to begin that couldn't be handed over keeps the active slot.
    if (w.a->currentJob() && !w.cur) {
      Rec* r = w.find(w.a->currentJob());
      if (r && w.cbq.size() && w.cbq.back() == r && f) {  w.cbq.pop_back();  w.cur = r;  w.wire = -2;  }
      (void) pend;
    }
  };
  auto service = [&]() {
    size_t n = w.cbq.size();
    int8_t r = w.a->service_callback_queue();
    if (!c.failed() && r != (n ? 1 : 0)) c.fail("service", "service_callback_queue() returned %d with %u waiting", r, (unsigned) n);
  };
  auto purge = [&](int what, int dev) {
    c.fault(F_PURGE);
    std::vector<Rec*> expect;
    if (what == 0) {  if (w.a->currentJob() && w.cur) expect.push_back(w.cur);  }
    else for (auto r : w.q) if (what == 1 || r->owner == dev) expect.push_back(r);
    if (what == 0 && w.a->currentJob() && !w.cur) {  Rec* r = w.find(w.a->currentJob());  if (r) expect.push_back(r);  }
    c.ev("purge %s (%u)", what == 0 ? "current" : what == 1 ? "queued" : "device", (unsigned) expect.size());
    w.purging = true;
    if (what == 0) w.a->purge_current_job();
    else if (what == 1) w.a->purge_queued_work();
    else w.a->purge_queued_work_by_dev(w.devs[dev]);
    w.purging = false;
    if (c.failed()) return;
    for (auto r : expect) {
      if (!r->done) {  c.fail("purge", "#%u was not called back when it was purged", r->id);  return;  }
      c.probe(what == 0 ? P_PURGED_CUR : what == 1 ? P_PURGED_Q : P_PURGED_DEV);
    }
  };
  c.plan_ops(6 + c.draw(90));
  while (c.next_op() && !c.failed()) {
    c.step();
    c.advance(20);
    uint32_t kind = c.draw(16);
    int d = c.draw(3);
    switch (kind) {
      case 0: case 1: case 2: w.submit(d, 0);  break;
      case 3: w.submit(d, 1);  break;
      case 4: w.submit(d, 2);  break;
      case 5: if (c.chance(1, 2)) w.submit(d, 3);  else if (w.a->queue_io_job(nullptr) != -5) c.fail("accept", "a null operation was not refused");  else c.probe(P_NULL);  break;
      case 6: case 7: case 8: case 9: {  uint32_t k = 1 + c.draw(6);  while (k-- && !c.failed()) poll();  break;  }
      case 10: case 11: {
        uint32_t k = 1 + c.draw(4);
        if (w.advance_mode) {  poll();  break;  }
        while (k--) if (w.cur && w.wire > 0) wire_step(w.cur->op);
        break;
      }
      case 12: case 13: {  uint32_t k = 1 + c.draw(3);  while (k-- && !c.failed()) service();  break;  }
      case 14: purge(0, 0);  break;
      case 15: if (c.chance(1, 2)) purge(1, 0);  else purge(2, d);  break;
    }
    if (c.failed()) break;
    int active = w.a->currentJob() ? 1 : 0;
    if (active + w.a->depth() != (int) w.q.size() + (w.cur ? 1 : 0)) {  c.fail("lost", "the adapter has %d operations; %d are outstanding", active + w.a->depth(), (int) w.q.size() + (w.cur ? 1 : 0));  break;  }
    if (w.a->allQueuesClear() != (w.q.empty() && w.cbq.empty() && !w.cur)) {  c.fail("idle", "allQueuesClear() is %d", w.a->allQueuesClear());  break;  }
    int sel = w.selections();
    bool on_wire = w.cur && (w.wire > 0 || w.wire == -1);
    if (sel != (on_wire ? 1 : 0)) {  c.fail("select", "%d devices are selected, with%s a transfer in progress", sel, on_wire ? "" : "out");  break;  }
    c.state((uint64_t) w.q.size() | (w.cur ? 32u : 0) | ((uint64_t) (w.wire & 7) << 8) | ((uint64_t) w.a->pool().available() << 12) | ((uint64_t) w.cbq.size() << 20));
  }
  if (c.failed()) return;
  c.begin_tail();
  c.ev("tail");
  w.quiet = true;
  w.chain_budget = 0;
  if (!c.chance(1, 3)) {
    if (w.wire == -1) purge(0, 0);
    uint32_t limit = 400 + 100 * (uint32_t) (w.q.size() + w.cbq.size());
    while (!w.a->allQueuesClear() && limit-- && !c.failed()) {
      poll();
      if (c.failed()) break;
      if (!w.advance_mode && w.cur && w.wire > 0) wire_step(w.cur->op);
      service();
    }
    if (!c.failed() && !w.a->allQueuesClear()) c.fail("stuck", "the adapter did not come to rest");
    if (!c.failed()) for (auto r : w.all) if (!r->done) {  c.fail("lost", "#%u was never called back", r->id);  break;  }
    if (!c.failed() && w.a->pool().available() != w.a->pool().capacity()) c.fail("pool", "%u of %u operations are in the pool, at rest", w.a->pool().available(), w.a->pool().capacity());
    if (!c.failed() && w.a->pool().overdraws() != w.a->pool().overdrawsFreed()) c.fail("pool", "%u operations were overdrawn, and %u freed", w.a->pool().overdraws(), w.a->pool().overdrawsFreed());
    if (w.a->pool().overdraws()) c.probe(P_OVERDRAW);
    for (auto& o : w.own) if (!c.failed() && !o.isIdle()) c.fail("owned", "an operation that belongs to the application was not made idle");
  }
  if (c.failed()) return;
  c.on_clock_read = nullptr;
  if (w.cur || !w.q.empty() || !w.cbq.empty()) c.probe(P_DTOR_WORK);
  w.purging = true;
  // What the adapter itself owned has nobody to tell.
  for (auto r : w.all) if (!r->done && r->owner == -2) r->done = true;
  delete w.a;
  for (auto r : w.all) if (!c.failed() && !r->done) c.fail("teardown", "#%u was not called back when the adapter went away", r->id);
  if (!c.failed() && w.selections()) c.fail("select", "a device is still selected after the adapter went away");
  if (c.failed()) return;
  for (int i = 0; i < 3; i++) delete w.devs[i];
  for (auto r : w.all) delete r;
  W = nullptr;
  size_t h1 = heap_in_use();
  if (h1 != h0) c.fail("leak", "%d bytes were not given back", (int) (h1 - h0));
  on_set_pin = nullptr;
}
}

Harness g_harness = {
  "B02",
  "One run: an SPI adapter with a pool of 1 to 6 operations, three devices and a queue limited to 1 to 8, through up to 96 submissions, owned and anonymous operations, polls, interrupts, callbacks and purges, on a simulated wire with chip-selects. "
  "Non-trivial: an operation was accepted. Distinct by event log.",
  run,
  {"bus fault", "bus busy", "recalled by its owner", "stalled transfer", "allocation refused", "purge", "queue flooded", "initialization failure"},
  {"concluded", "concluded with a fault", "recycled", "queued from a callback", "current purged", "queued purged", "purged by device", "owned operation", "owned operation after a fault",
   "queued twice", "buffer freed", "free of no buffer", "pool overdrawn", "synchronous completion", "interrupt during poll", "priority", "anonymous operation", "torn down with work", "active-high select", "null operation", "recycle refused", "operation made with its particulars"},
  {"SPIAdapter", "BusAdapter", "SPIBusOp", "PriorityQueue", "ElementPool"},
  {"SPIBusOp::begin() and advance_operation(), _bus_init(), setMode(), frequency(), and the adapter's own callbacks: the platform's driver, on a simulated wire", "GPIO", "allocator", "clock"},
  "queue depth x active x wire x pool x awaiting callback, consecutive pairs",
  {}, 20000, 400000
};
