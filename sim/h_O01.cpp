/* O01: looking changes nothing. The same history is run twice, and only the second time does anybody look. */
#include "m2m.h"
#include "sink.h"
#include <memory>
#include <stdarg.h>
#include <math.h>
#include <type_traits>
#include "BusQueue/I2CAdapter.h"
#include "BusQueue/SPIAdapter.h"
#include "BusQueue/UARTAdapter.h"
#include "FiniteStateMachine.h"
#include "AsyncSequencer.h"
#include "TimerTools/C3PScheduler.h"
#include "TimeSeries/TimeSeries.h"
#include "TimeSeries/SensorFilter.h"
#include "Storage/RecordTypes/ConfRecord.h"
#include "Console/C3PConsole.h"
#include "C3PLogger.h"
#include "ElementPool.h"
using namespace sim;

namespace {
enum {  F_ALLOC, F_BUSFAULT, F_REFUSE, F_LOSS, F_LATE  };
enum {  P_I2C, P_SPI, P_UART, P_FSM, P_SEQ, P_LINK, P_SERIES, P_FILTER, P_SCHED, P_CONF, P_CONSOLE, P_TEXT, P_LOOK, P_LOOKED_FULL, P_BUSY_LOOK, P_LONG  };

struct Rng {
  uint64_t s, n = 0;
  Rng(uint64_t x) : s(x) {}
  uint64_t next() {  return hash64(s, ++n);  }
  uint32_t draw(uint32_t k) {  return k ? (uint32_t) (next() % k) : 0;  }
  bool chance(uint32_t a, uint32_t b) {  return draw(b) < a;  }
};

struct World {
  Ctx& c;
  bool looking = false;
  int kind = 0;
  std::vector<std::string> said;         // Everything that can be told from without.
  Rng* r = nullptr;
  World(Ctx& x) : c(x) {}
  virtual ~World() {}
  void say(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    char b[400];
    va_list a;  va_start(a, f);  vsnprintf(b, sizeof b, f, a);  va_end(a);
    said.push_back(b);
    c.ev("%c %s", looking ? 'L' : ' ', b);
  }
  virtual void op() = 0;                 // Draws from r.
  virtual void look(Rng&, StringBuilder*) = 0;
  virtual void settle() {}
};
World* W = nullptr;
bool ask(StringBuilder* args, std::initializer_list<const char*> l) {  for (auto x : l) args->concat(x);  args->split(" ");  return true;  }

// --- Buses -------------------------------------------------------------------
struct Wire {
  int steps = 0;  bool advance = false, asap = false;  Rng* r = nullptr;
  XferFault res = XferFault::NONE;
};
Wire wire;
struct I2cDev : public I2CDevice {
  World* w;
  I2cDev(World* x, uint8_t a) : I2CDevice(a), w(x) {}
  int8_t io_op_callahead(BusOp*) {  return 0;  }
  int8_t io_op_callback(BusOp* b) {
    I2CBusOp* o = (I2CBusOp*) b;
    w->say("i2c %02x:%d op %d len %u fault %d", o->dev_addr, o->sub_addr, (int) o->get_opcode(), o->bufferLen(), (int) o->getFault());
    return w->r->chance(1, 8) ? BUSOP_CALLBACK_RECYCLE : BUSOP_CALLBACK_NOMINAL;
  }
  bool go(int k, int s, uint32_t n, uint8_t* b) {  return k == 0 ? writeX(s, n, b) : k == 1 ? readX(s, n, b) : ping_device();  }
};
struct I2cWorld : public World {
  I2CAdapter* a;  I2cDev* d[2];  uint8_t buf[80];
  I2cWorld(Ctx& c, Rng& g) : World(c) {
    I2CAdapterOptions o(0, 1, 2);
    wire = Wire();  wire.advance = g.chance(1, 2);  wire.asap = g.chance(1, 3);
    a = new I2CAdapter(&o, 1 + g.draw(4), 8);
    d[0] = new I2cDev(this, 0x20);  d[1] = new I2cDev(this, 0x41);
    for (auto x : d) x->setAdapter(a);
  }
  ~I2cWorld() {  wire.r = nullptr;  for (auto x : d) delete x;  delete a;  }
  void op() override {
    wire.r = r;
    switch (r->draw(8)) {
      case 0: say("init %d online %d", a->init(), a->busOnline());  break;
      case 1: case 2: {  uint32_t n = r->draw(60);  int k = r->draw(3), i = r->draw(2), s = (int) r->draw(4) - 1;  say("ask %d of %d = %d", k, i, d[i]->go(k, s, n, buf));  break;  }
      case 3: if (r->chance(1, 4)) {  say("purge");  a->purge_current_job();  } else if (r->chance(1, 3)) {  say("purge queue");  a->purge_queued_work();  }  break;
      default: say("poll %d busy %d", (int) a->poll(), !a->busIdle());  break;
    }
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_I2C);
    if (!a->busIdle()) c.probe(P_BUSY_LOOK);
    switch (g.draw(6)) {
      case 0: a->printDebug(s);  break;
      case 1: a->printAdapter(s);  break;
      case 2: a->printWorkQueue(s, (int8_t) g.draw(12));  break;
      case 3: a->printPingMap(s);  break;
      case 4: d[g.draw(2)]->printDebug(s);  break;
      case 5: say2(g, s);  break;
    }
  }
  void say2(Rng&, StringBuilder* s) {  I2CBusOp o;  o.printDebug(s);  }
  void settle() override {  wire.r = r;  for (int i = 0; i < 60; i++) say("poll %d busy %d", (int) a->poll(), !a->busIdle());  StringBuilder s;  a->printAdapter(&s);  count(s);  }
  void count(StringBuilder& s) {  const char* p = strstr((const char*) s.string(), "Xfers");  say("%.40s", p ? p : "?");  p = strstr((const char*) s.string(), "Prealloc");  say("%.130s", p ? p : "?");  }
};
struct SpiWorld : public World, public BusOpCallback {
  SPIAdapter* a;  uint8_t buf[80];
  SpiWorld(Ctx& c, Rng& g) : World(c) {
    wire = Wire();  wire.advance = g.chance(1, 2);
    a = new SPIAdapter(0, 1, 2, 3, 1 + g.draw(4), 8);
    on_set_pin = [this](uint8_t p, bool v) {  say("pin %u %d", p, v);  };
  }
  ~SpiWorld() {  on_set_pin = nullptr;  wire.r = nullptr;  delete a;  }
  int8_t io_op_callahead(BusOp*) override {  return 0;  }
  int8_t queue_io_job(BusOp*) override {  return -1;  }
  int8_t io_op_callback(BusOp* b) override {
    SPIBusOp* o = (SPIBusOp*) b;
    say("spi op %d len %u fault %d par %u", (int) o->get_opcode(), o->bufferLen(), (int) o->getFault(), o->getTransferParam(0));
    return r->chance(1, 8) ? BUSOP_CALLBACK_RECYCLE : BUSOP_CALLBACK_NOMINAL;
  }
  void op() override {
    wire.r = r;
    switch (r->draw(8)) {
      case 0: say("init %d online %d", a->init(), a->busOnline());  break;
      case 1: case 2: {
        SPIBusOp* o = a->new_op(r->chance(1, 2) ? BusOpcode::TX : BusOpcode::RX, this);
        if (!o) {  say("no op");  break;  }
        o->setBuffer(buf, r->draw(60));  o->setCSPin(20);  o->setParams((uint8_t) r->draw(255));
        int8_t k = a->queue_io_job(o, (int) r->draw(3));
        say("queue %d", k);
        if (k) a->return_op(o);
        break;
      }
      case 3: if (r->chance(1, 4)) {  say("purge");  a->purge_current_job();  } else if (r->chance(1, 3)) {  say("purge queue");  a->purge_queued_work();  }  break;
      default: say("poll %d busy %d", (int) a->poll(), !a->busIdle());  say("called %d", a->service_callback_queue());  break;
    }
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_SPI);
    if (!a->busIdle()) c.probe(P_BUSY_LOOK);
    StringBuilder args;
    switch (g.draw(6)) {
      case 0: {  SPIBusOp o;  o.printDebug(s);  break;  }
      case 1: a->printAdapter(s);  break;
      case 2: a->printWorkQueue(s, (int8_t) g.draw(12));  break;
      case 3: a->console_handler(s, &args);  break;
      case 4: ask(&args, {g.chance(1, 2) ? "queue 5" : "queue"});  a->console_handler(s, &args);  break;
      case 5: ask(&args, {g.chance(1, 2) ? "verbosity" : "nonsense"});  a->console_handler(s, &args);  break;
    }
  }
  void settle() override {  wire.r = r;  for (int i = 0; i < 60; i++) {  say("poll %d busy %d", (int) a->poll(), !a->busIdle());  say("called %d", a->service_callback_queue());  }  say("verbosity %d", a->getVerbosity());  }
};
struct Uart : public UARTAdapter {
  World* w;  std::deque<uint8_t> rxd;  uint32_t tx = 3, rx = 5;
  Uart(World* x, uint16_t t, uint16_t q) : UARTAdapter(1, 1, 2, 255, 255, t, q), w(x) {}
  int8_t _pf_init() override {  _adapter_set_flag(UART_FLAG_UART_READY);  _adapter_set_flag(UART_FLAG_HAS_TX);  _adapter_set_flag(UART_FLAG_HAS_RX);  return 0;  }
  int8_t _pf_deinit() override {  return 0;  }
  void irq_handler() override {
    for (uint32_t i = 0; i < tx && _tx_buffer.count() > 0; i++) w->say("txd %02x", _tx_buffer.get());
    for (uint32_t i = 0; i < rx && !rxd.empty(); i++) {  uint8_t b = rxd.front();  rxd.pop_front();  w->say("rxd %02x %d", b, _rx_buffer.insert(b));  last_byte_rx_time = millis();  }
    _flushed = _tx_buffer.count() == 0;
  }
  int8_t _pf_poll() override {  irq_handler();  int n = _read_cb_obj ? _handle_rx_push() : 0;  return n > 0;  }
};
struct UartWorld : public World {
  Uart* u;  Sink sink;  uint8_t seq = 0;
  UartWorld(Ctx& c, Rng& g) : World(c) {  u = new Uart(this, 8 + g.draw(40), 8 + g.draw(40));  if (g.chance(1, 2)) u->readCallback(&sink);  UARTOpts o {};  o.bitrate = 9600;  u->init(&o);  }
  ~UartWorld() {  delete u;  }
  void op() override {
    switch (r->draw(6)) {
      case 0: case 1: {  StringBuilder b;  uint32_t n = 1 + r->draw(20);  while (n--) {  uint8_t x = ++seq;  b.concat(&x, 1);  }  int8_t k = u->pushBuffer(&b);  say("push %d leaves %d", k, b.length());  break;  }
      case 2: {  uint32_t n = 1 + r->draw(30);  while (n--) u->rxd.push_back(++seq);  break;  }
      case 3: {  StringBuilder b;  u->read(&b);  say("read %s", hex(b.string(), b.length()).c_str());  break;  }
      default: sink.room = 1000;  sink.refuse = r->chance(1, 4);  if (sink.refuse) c.fault(F_REFUSE);  say("poll %d tx %d rx %d got %s", (int) u->poll(), u->pendingTxBytes(), u->pendingRxBytes(), hex((const uint8_t*) sink.got.data(), sink.got.size()).c_str());  sink.got.clear();  break;
    }
    say("room %d", u->bufferAvailable());
  }
  void look(Rng&, StringBuilder* s) override {  c.probe(P_UART);  u->printDebug(s);  }
};

// --- Control -----------------------------------------------------------------
enum class S : uint8_t {  A = 0, B, C, D, INVALID = 255  };
const EnumDef<S> SDEFS[] = {  {S::A, "A"}, {S::B, "B"}, {S::C, "C"}, {S::D, "D"}, {S::INVALID, "INVALID", (ENUM_FLAG_MASK_INVALID_CATCHALL)}  };
const EnumDefList<S> SLIST(&SDEFS[0], sizeof(SDEFS) / sizeof(SDEFS[0]), "S");
struct FsmWorld : public World, public StateMachine<S> {
  FsmWorld(Ctx& c, Rng& g) : World(c), StateMachine<S>("f", &SLIST, S::A, 2 + g.draw(10)) {}
  int8_t _fsm_poll() override {  return _fsm_advance();  }
  int8_t _fsm_set_position(S s) override {  int8_t k = r->chance(1, 4) ? -1 : 0;  if (k) c.fault(F_REFUSE);  say("enter %d = %d", (int) s, k);  return k;  }
  void op() override {
    switch (r->draw(8)) {
      case 0: say("append %d", _fsm_append_state((S) r->draw(4)));  break;
      case 1: say("prepend %d", _fsm_prepend_state((S) r->draw(4)));  break;
      case 2: {  uint32_t n = r->draw(5);  S a = (S) r->draw(4), b = (S) r->draw(4), d = (S) r->draw(4), e = (S) r->draw(4);  say("route %d", r->chance(1, 2) ? _fsm_append_route((int) n, a, b, d, e) : _fsm_set_route((int) n, a, b, d, e));  break;  }
      case 3: if (r->chance(1, 2)) {  uint32_t x = r->draw(300);  _fsm_lockout(x);  say("lockout %u", x);  } else _fsm_slowdown(r->draw(200));  break;
      case 4: c.advance(r->draw(400000));  break;
      default: say("poll %d", _fsm_poll());  break;
    }
    say("at %d from %d next %d waiting %d stable %d slow %u", (int) currentState(), (int) priorState(), (int) _fsm_pos_next(), _fsm_is_waiting(), _fsm_is_stable(), _fsm_slowdown());
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_FSM);
    StringBuilder args;
    switch (g.draw(4)) {
      case 0: printFSM(s);  break;
      case 1: fsm_console_handler(s, &args);  break;
      case 2: args.concat("slowdown");  fsm_console_handler(s, &args);  break;
      case 3: args.concat("other");  fsm_console_handler(s, &args);  break;
    }
  }
};
struct SeqWorld : public World {
  std::vector<StepSequenceList> l;  AsyncSequencer* q = nullptr;  uint32_t n, turn;
  uint32_t flag(uint32_t i) {  return 1u << ((i * 5 + turn) % 32);  }      // Steps have their flags in no particular order.
  uint32_t some(uint32_t m) {  uint32_t f = 0;  for (uint32_t i = 0; i < n; i++) if (m & (1u << i)) f |= flag(i);  return f;  }
  SeqWorld(Ctx& x, Rng& g) : World(x) {
    n = 1 + g.draw(8);
    turn = g.draw(32);
    for (uint32_t i = 0; i < n; i++) {
      uint32_t dep = 0;
      for (uint32_t j = 0; j < i; j++) if (g.chance(1, 3)) dep |= flag(j);
      l.push_back(StepSequenceList{flag(i), "step", dep, [this, i]() {  int k = (int) r->draw(4) - 1;  if (k > 1) k = 1;  if (k < 0) c.fault(F_REFUSE);  say("dispatch %u = %d", i, k);  return k;  },
        [this, i]() {  int k = (int) r->draw(4) - 1;  if (k > 1) k = 1;  say("poll %u = %d", i, k);  return k;  }});
    }
    q = new AsyncSequencer(l.data(), n);
  }
  ~SeqWorld() {  delete q;  }
  void op() override {
    switch (r->draw(6)) {
      case 0: case 1: q->requestSteps(some(r->draw(1u << n)));  break;
      case 2: if (r->chance(1, 3)) q->resetSteps(some(r->draw(1u << n)));  break;
      case 3: if (r->chance(1, 12)) q->resetSequencer();  break;
      default: say("poll %d", q->poll());  break;
    }
    uint32_t a, b, d, e, f;
    q->getState(&a, &b, &d, &e, &f);
    say("state %x %x %x %x %x failed %x", a, b, d, e, f, q->failed_steps(true));
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_SEQ);
    switch (g.draw(3)) {
      case 0: q->printDebug(s, g.chance(1, 2) ? "steps" : nullptr);  break;
      case 1: q->stepList(s);  break;
      case 2: q->stepList(nullptr);  break;
    }
  }
};
struct SchedWorld : public World, public C3PPollable {
  C3PScheduler* s;  std::vector<C3PSchedule*> l;
  SchedWorld(Ctx& x, Rng& g) : World(x) {
    s = C3PScheduler::getInstance();
    uint32_t n = 1 + g.draw(4);      // Twice that is what it has room for.
    for (uint32_t i = 0; i < n; i++) {
      uint32_t p = 1 + g.draw(40000);  int rec = (int) g.draw(6) - 1;
      C3PSchedule* x = g.chance(1, 4) ? (C3PSchedule*) new C3PScheduledPolling("p", p, rec, g.chance(3, 4), this)
        : new C3PScheduledLambda("l", p, rec, g.chance(3, 4), [this, i]() -> int8_t {  say("schedule %u runs", i);  return 0;  });
      l.push_back(x);
      say("add %d", s->addSchedule(x));
    }
  }
  ~SchedWorld() {
    // There is no way to take a schedule from the scheduler. It stays, disabled.
    for (auto x : l) x->enabled(false);
    s->advanceScheduler();  s->serviceSchedules();
  }
  PollResult poll() override {  say("polled");  return PollResult::NO_ACTION;  }
  void op() override {
    C3PSchedule* x = l[r->draw(l.size())];
    switch (r->draw(8)) {
      case 0: x->enabled(r->chance(1, 2));  break;
      case 1: x->period(1 + r->draw(40000));  break;
      case 2: x->recurrence((int) r->draw(5) - 1);  break;
      case 3: x->delay(r->draw(30000));  break;
      default: {  uint32_t n = 1 + r->draw(6);  if (r->chance(1, 10)) {  c.advance(r->draw(2000000));  c.fault(F_LATE);  }  while (n--) {  c.advance(r->draw(9000));  s->advanceScheduler();  s->serviceSchedules();  }  break;  }
    }
    for (auto y : l) say("enabled %d rec %d period %u next %u runs %u", y->enabled(), y->recurrence(), y->period(), y->nextExec(), y->profiler.executions());
  }
  void look(Rng& g, StringBuilder* o) override {
    c.probe(P_SCHED);
    C3PSchedule* x = l[g.draw(l.size())];
    switch (g.draw(4)) {
      case 0: s->printDebug(o);  break;
      case 1: x->printSchedule(o);  break;
      case 2: x->printProfiler(o);  break;
      case 3: StopWatch::printDebugHeader(o);  x->profiler.printDebug("p", o);  break;
    }
  }
};

// --- Communication -----------------------------------------------------------
struct LinkWorld : public World {
  m2m::World w;  uint64_t ids;  uint32_t idn = 0;  uint32_t seq = 0;  bool loss;
  LinkWorld(Ctx& c, Rng& g) : World(c), w(c) {
    ids = g.next();
    loss = g.chance(1, 3);
    on_random = [this]() -> uint32_t {  return (uint32_t) (hash64(ids, ++idn) & 0xFFFFFF) | 1;  };
    for (int n = 0; n < 2; n++) {  M2MLinkOpts o(500 + g.draw(3000), 500 + g.draw(2000), 1024, TCode::CBOR, g.chance(1, 2) ? M2MLINK_FLAG_SEND_KA : 0);  w.make(n, o);  }
    w.on_msg = [this](int n, M2MMsg* m) {
      std::string v = "-";
      KeyValuePair* k = nullptr;
      if (0 <= m->getPayload(&k) && k) {  KeyValuePair* x = k->valueWithKey("n");  int8_t ok = -1;  if (x) v = std::to_string(x->get_as_uint(&ok));  }
      say("%d: message reply %d expects %d n %s", n, m->isReply(), m->expectsReply(), v.c_str());
      if (m->expectsReply() && !m->isReply() && r->chance(2, 3)) say("ack %d", m->ack());
    };
    w.on_state = [this](int n, M2MLink* l) {  say("%d: state %d", n, (int) l->currentState());  };
    w.on_tx = [this](int n, const m2m::Bytes& b, const m2m::Frame& f) {  say("%d: tx %zu code %u id %x %016llx", n, b.size(), f.code, f.id, (unsigned long long) digest(b));  };
  }
  static uint64_t digest(const m2m::Bytes& b) {  uint64_t h = 1;  for (auto x : b) h = hash64(h, x);  return h;  }
  ~LinkWorld() {  w.on_msg = nullptr;  w.on_state = nullptr;  w.on_tx = nullptr;  }
  void rounds(uint32_t n) {
    while (n--) {
      for (int i = 0; i < 2; i++) {
        size_t k = w.in_flight(i);
        if (!k) continue;
        if (loss && r->chance(1, 12)) {  w.wire[i].clear();  w.off[i] = 0;  c.fault(F_LOSS);  continue;  }
        w.deliver(i, r->chance(1, 4) ? 1 + r->draw(k) : k);
      }
      for (int i = 0; i < 2; i++) say("%d: poll %d", i, w.poll(i));
      c.advance(1000 * (5 + r->draw(60)));
    }
  }
  void op() override {
    switch (r->draw(8)) {
      case 0: case 1: {
        int n = r->draw(2);
        KeyValuePair* k = new KeyValuePair("n", ++seq);
        k->reapContainer(true);
        int q = w.node[n].link->send(k, r->chance(1, 2));
        say("%d: send %u = %d", n, seq, q);
        if (q != 0) delete k;
        break;
      }
      case 2: if (r->chance(1, 8)) say("hangup %d", w.node[r->draw(2)].link->hangup());  else if (r->chance(1, 8)) {  say("reset %d", w.node[r->draw(2)].link->reset());  }  break;
      case 3: c.advance(1000 * r->draw(800));  break;
      default: rounds(1 + r->draw(8));  break;
    }
    for (int i = 0; i < 2; i++) {  M2MLink* l = w.node[i].link;  say("%d: at %d idle %d conn %d sync %d verb %u late %u room %d", i, (int) l->currentState(), l->linkIdle(), l->isConnected(), l->syncCast(), l->verbosity(), l->replyTimeouts(), l->bufferAvailable());  }
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_LINK);
    M2MLink* l = w.node[g.draw(2)].link;
    if (!l->linkIdle()) c.probe(P_BUSY_LOOK);
    StringBuilder args;
    const char* Q[] = {"info", "queues", "fsm", "fsm slowdown", "local", "local identity", "remote", "remote identity", "sync", "verbosity", "nonsense"};
    switch (g.draw(5)) {
      case 0: l->printDebug(s);  break;
      case 1: l->printQueues(s);  break;
      default: ask(&args, {Q[g.draw(11)]});  l->console_handler(s, &args);  break;
    }
  }
  void settle() override {  loss = false;  rounds(30);  }
};
int g_cmds;
int cmd_cb(StringBuilder* out, StringBuilder* args) {  g_cmds++;  W->say("command of %d: %s", args->count(), args->count() ? (char*) args->position_trimmed(0) : "");  out->concat("done\n");  return W->r->chance(1, 5) ? -1 : 0;  }
ParsingConsole* g_cons;
int help_cb(StringBuilder* o, StringBuilder* a) {  return g_cons->console_handler_help(o, a);  }
struct ConsWorld : public World {
  ParsingConsole* k;  Sink sink;
  ConsWorld(Ctx& c, Rng& g) : World(c) {
    k = new ParsingConsole(64);
    g_cons = k;
    k->init();
    k->defineCommand("alpha", 'a', "Does a thing.", "[x [y]]", 0, cmd_cb);
    k->defineCommand("beta", "Does another.", "", 1, cmd_cb);
    k->defineCommand("help", '?', "Help.", "", 0, help_cb);
    k->maxHistoryDepth(1 + g.draw(5));
    k->localEcho(g.chance(1, 2));  k->emitPrompt(g.chance(1, 2));  k->hasColor(g.chance(1, 2));  k->historyFail(g.chance(1, 2));  k->printHelpOnFail(g.chance(1, 2));
    k->setPromptString("> ");
    k->setRXTerminator(LineTerm::LF);
    k->setEfferant(&sink);
  }
  ~ConsWorld() {  delete k;  }
  void op() override {
    const char* P[] = {"alpha", "a 1 2", "beta", "beta 4", "bogus", "\x1b[A", "\x1b[B", "\n", "\n", "help alpha", "\x08", "x"};
    StringBuilder b;
    uint32_t n = 1 + r->draw(3);
    while (n--) b.concat(P[r->draw(12)]);
    sink.room = 4000;  sink.refuse = r->chance(1, 6);
    if (sink.refuse) c.fault(F_REFUSE);
    int8_t q = k->pushBuffer(&b);
    uint64_t h = 1;
    for (uint8_t x : sink.got) h = hash64(h, x);
    say("push %d leaves %d; log %u history %u; emitted %zu %016llx", q, b.length(), k->logLength(), k->historyDepth(), sink.got.size(), (unsigned long long) h);
    sink.got.clear();
    if (r->chance(1, 4)) {  StringBuilder o;  k->fetchLog(&o);  h = 1;  for (int i = 0; i < o.length(); i++) h = hash64(h, o.string()[i]);  say("log of %d %016llx", o.length(), (unsigned long long) h);  }
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_CONSOLE);
    char cmd[8] = "alpha";
    StringBuilder args;
    switch (g.draw(5)) {
      case 0: k->printHelp(s);  break;
      case 1: k->printHelp(s, cmd);  break;
      case 2: k->printHistory(s);  break;
      case 3: k->console_handler_help(s, &args);  break;
      case 4: k->console_handler_conf(s, &args);  break;
    }
  }
};

// --- Values ------------------------------------------------------------------
template <class T> struct SeriesWorld : public World {
  TimeSeries<T>* t;
  SeriesWorld(Ctx& c, Rng& g) : World(c) {  t = new TimeSeries<T>(1 + g.draw(30));  if (g.chance(7, 8)) t->init();  }
  ~SeriesWorld() {  delete t;  }
  void op() override {
    switch (r->draw(8)) {
      case 0: if (r->chance(1, 3)) say("purge %d", t->purge());  break;
      case 1: if (r->chance(1, 3)) say("window %d", t->windowSize(1 + r->draw(30)));  break;
      case 2: t->markClean();  break;
      case 3: say("mean %.9g min %.9g max %.9g median %.9g", (double) t->mean(), (double) t->minValue(), (double) t->maxValue(), (double) t->median());  break;
      case 4: say("rms %.9g stdev %.9g snr %.9g", (double) t->rms(), (double) t->stdev(), (double) t->snr());  break;
      default: {  uint32_t n = 1 + r->draw(4);  while (n--) say("feed %d", t->feedSeries(std::is_same<T, uint32_t>::value ? (T) r->draw(2000) : (T) (r->draw(2000) - 500.0L)));  break;  }
    }
    say("%d dirty %d total %u last %u value %.9g", t->initialized(), kind < 12 && t->dirty(), t->totalSamples(), t->lastIndex(), (double) t->value());
  }
  void look(Rng&, StringBuilder* s) override {  c.probe(P_SERIES);  if (t->windowFull()) c.probe(P_LOOKED_FULL);  t->printSeries(s);  }
};
template <class T> struct FilterWorld : public World {
  SensorFilter<T>* t;
  FilterWorld(Ctx& c, Rng& g) : World(c) {
    const FilteringStrategy ST[] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_AVG, FilteringStrategy::MOVING_MED};
    t = new SensorFilter<T>(2 + g.draw(30), ST[g.draw(3)]);
    if (g.chance(7, 8)) t->init();
  }
  ~FilterWorld() {  delete t;  }
  void op() override {
    switch (r->draw(8)) {
      case 0: if (r->chance(1, 3)) say("purge %d", t->purge());  break;
      case 1: if (r->chance(1, 3)) say("window %d", t->windowSize(2 + r->draw(30)));  break;
      case 2: say("value %.9g", (double) t->value());  break;
      case 3: say("mean %.9g min %.9g max %.9g median %.9g", (double) t->mean(), (double) t->minValue(), (double) t->maxValue(), (double) t->median());  break;
      case 4: say("rms %.9g stdev %.9g snr %.9g", (double) t->rms(), (double) t->stdev(), (double) t->snr());  break;
      default: {  uint32_t n = 1 + r->draw(4);  while (n--) say("feed %d", t->feedFilter((T) (r->draw(2000) - 500.0L)));  break;  }
    }
    say("%d dirty %d full %d last %u", t->initialized(), t->dirty(), t->windowFull(), t->lastIndex());
  }
  void look(Rng&, StringBuilder* s) override {  c.probe(P_FILTER);  if (t->windowFull()) c.probe(P_LOOKED_FULL);  t->printFilter(s);  }
};
enum class K : uint8_t {  U8 = 1, I32, STR, FLT, BOOL, INVALID = 0  };
const EnumDef<K> KLIST[] = {
  {K::U8, "u8", (uint8_t) 0, (uint8_t) TCode::UINT8}, {K::I32, "i32", (uint8_t) 0, (uint8_t) TCode::INT32}, {K::STR, "s", (uint8_t) 0, (uint8_t) TCode::STR},
  {K::FLT, "f", (uint8_t) 0, (uint8_t) TCode::FLOAT}, {K::BOOL, "b", (uint8_t) 0, (uint8_t) TCode::BOOLEAN}, {K::INVALID, "INVALID", (ENUM_FLAG_MASK_INVALID_CATCHALL), 0}
};
const EnumDefList<K> KDEFS(KLIST, sizeof(KLIST) / sizeof(KLIST[0]), "Conf");
struct ConfWorld : public World {
  struct Conf : public ConfRecordValidation<K> {  Conf() : ConfRecordValidation<K>(0, &KDEFS) {}  };
  Conf* k;  std::vector<std::unique_ptr<char[]>> hold;     // A record refers to the strings that it was given.
  ConfWorld(Ctx& c, Rng&) : World(c) {  k = new Conf();  }
  ~ConfWorld() {  delete k;  }
  void op() override {
    switch (r->draw(6)) {
      case 0: say("set %d", k->ConfRecord::setConf("u8", (uint8_t) r->draw(256)));  break;
      case 1: say("set %d", k->ConfRecord::setConf("i32", (int32_t) r->draw(100000)));  break;
      case 2: {  char* b = new char[30];  hold.emplace_back(b);  uint32_t n = r->draw(20);  for (uint32_t i = 0; i < n; i++) b[i] = 'a' + r->draw(26);  b[n] = 0;  say("set %d", k->ConfRecord::setConf("s", (const char*) b));  break;  }
      case 3: say("set %d", k->ConfRecord::setConf(r->chance(1, 2) ? "f" : "none", (float) r->draw(1000)));  break;
      case 4: {  StringBuilder b;  int8_t q = k->save(0x1234, "conf", &b);  uint64_t h = 1;  for (int i = 0; i < b.length(); i++) h = hash64(h, b.string()[i]);  say("save %d of %d %016llx", q, b.length(), (unsigned long long) h);  break;  }
      case 5: {
        uint8_t u = 0;  int32_t i = 0;  float f = 0;  char* s = nullptr;
        int8_t a = k->ConfRecord::getConf("u8", &u), b = k->ConfRecord::getConf("i32", &i), d = k->ConfRecord::getConf("f", &f), e = k->ConfRecord::getConf("s", &s);
        say("get %d %u %d %d %d %.9g %d %s", a, u, b, i, d, (double) f, e, (e == 0 && s) ? s : "");
        break;
      }
    }
    say("dirty %d loaded %d hash %x keys %u", k->isDirty(), k->wasLoaded(), k->hash(), k->keyCount());
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_CONF);
    switch (g.draw(4)) {
      case 0: k->printDebug(s);  break;
      case 1: k->printConfRecord(s);  break;
      case 2: k->printConfRecord(s, g.chance(1, 2) ? "s" : "none");  break;
      case 3: k->keyList(s);  break;
    }
  }
};
struct TextWorld : public World {
  StringBuilder* b;  KeyValuePair* k;  ElementPool<I2CBusOp>* e;  std::vector<I2CBusOp*> taken;  StopWatch w;
  uint32_t keys = 0;
  char nm[40][8];
  uint8_t blob[64];
  std::vector<std::unique_ptr<KeyValuePair>> inner;
  KeyValuePair* more(const char* key) {
    switch (r->draw(6)) {
      case 0: return k->append((int32_t) r->draw(1000), key);
      case 1: return k->append((float) r->draw(1000), key);
      case 2: return k->append("some text", key);
      case 3: return k->append(blob, 1 + r->draw(64), key);
      case 4: return k->append(&w, key);
      default: {
        KeyValuePair* n = new KeyValuePair("in", (uint32_t) r->draw(100));
        inner.emplace_back(n);
        KeyValuePair* m = r->chance(1, 2) ? n->append((int32_t) r->draw(100), "side") : nullptr;
        if (m) m->reapContainer(true);
        return k->append(n, key);
      }
    }
  }
  TextWorld(Ctx& c, Rng& g) : World(c) {
    b = new StringBuilder();
    k = new KeyValuePair("first", (uint32_t) g.draw(1000));  k->reapContainer(true);
    e = new ElementPool<I2CBusOp>(1 + g.draw(4), g.draw(3));
    for (uint32_t i = 0; i < sizeof blob; i++) blob[i] = (uint8_t) (i * 37);
    e->allocated();      // To ask is to allocate, as it is documented.
  }
  ~TextWorld() {  for (auto x : taken) e->give(x);  delete b;  delete k;  delete e;  }
  void op() override {
    switch (r->draw(10)) {
      case 0: case 1: {  char t[40];  uint32_t n = r->draw(38);  for (uint32_t i = 0; i < n; i++) t[i] = 'a' + r->draw(5);  t[n] = 0;  b->concat(t);  break;  }
      case 2: b->cull((int) r->draw(b->length() + 1));  break;
      case 3: if (r->chance(1, 3)) say("split %d", b->split("a"));  break;
      case 4: if (r->chance(1, 3)) b->string();  break;
      case 5: if (keys < 40) {  snprintf(nm[keys], 8, r->chance(1, 8) ? " k%u" : "k%u", keys);  say("append %d", more(nm[keys]) != nullptr);  keys++;  }  break;
      case 6: if (keys) {  KeyValuePair* q = k->valueWithKey(nm[r->draw(keys)]);  say("found %d", q != nullptr);  }  break;
      case 7: {  I2CBusOp* x = e->take();  say("take %d of %u", x != nullptr, e->available());  if (x) taken.push_back(x);  break;  }
      case 8: if (!taken.empty()) {  say("give %d", e->give(taken.back()));  taken.pop_back();  }  break;
      case 9: if (r->chance(1, 2)) w.markStart();  else say("stop %d", w.markStop());  c.advance(r->draw(500));  break;
    }
    std::string f;
    for (int i = 0; i < b->count(); i++) {  int n = 0;  uint8_t* p = b->position(i, &n);  f += std::to_string(n) + ":" + std::string((char*) p, std::min(n, 12)) + ",";  }
    say("text %d %.300s", b->length(), f.c_str());
    StringBuilder ser;
    int q = k->serialize(&ser, TCode::CBOR);
    say("kvp %d of %d; pool %u %u %u %u; watch %u %u %u", q, ser.length(), e->available(), e->lowWaterMark(), e->overdraws(), e->overdrawsFreed(), w.executions(), w.totalTime(), w.lastTime());
  }
  void look(Rng& g, StringBuilder* s) override {
    c.probe(P_TEXT);
    switch (g.draw(7)) {
      case 0: b->printDebug(s);  break;
      case 1: k->printDebug(s);  break;
      case 2: k->toString(s, g.chance(1, 2));  break;
      case 3: e->printDebug(s);  break;
      case 4: w.printDebug("w", s);  break;
      case 5: k->collectKeys(s);  break;
      case 6: StringBuilder::printBuffer(s, (uint8_t*) nm, g.draw(64));  break;
    }
  }
};

World* make(int kind, Ctx& c, Rng& g) {
  switch (kind) {
    case 0: return new I2cWorld(c, g);
    case 1: return new SpiWorld(c, g);
    case 2: return new UartWorld(c, g);
    case 3: return new FsmWorld(c, g);
    case 4: return new SeqWorld(c, g);
    case 5: return new LinkWorld(c, g);
#ifdef LOOKS_AT_PICTURES
    case 12: return new SeriesWorld<float>(c, g);
    case 13: return new SeriesWorld<uint32_t>(c, g);
#endif
    case 6: switch (g.draw(4)) {
      case 0: return new SeriesWorld<float>(c, g);
      case 1: return new SeriesWorld<int32_t>(c, g);
      case 2: return new SeriesWorld<uint8_t>(c, g);
      default: return new SeriesWorld<double>(c, g);
    }
    case 7: return g.chance(1, 2) ? (World*) new FilterWorld<float>(c, g) : g.chance(1, 2) ? (World*) new FilterWorld<uint16_t>(c, g) : new FilterWorld<double>(c, g);
    case 8: return new SchedWorld(c, g);
    case 9: return new ConfWorld(c, g);
    case 10: return new ConsWorld(c, g);
    default: return new TextWorld(c, g);
  }
}
#ifndef LOOKS_AT_PICTURES
const uint32_t KINDS = 12;
int which(Ctx& c) {  return (int) c.draw(KINDS);  }
void look_at(World* w, Rng& g, StringBuilder* s, bool) {  w->look(g, s);  }
void look_away() {}
#else
int which(Ctx& c);
void look_at(World*, Rng&, StringBuilder*, bool);
void look_away();
#endif
struct Op {  uint32_t seed;  uint32_t looks;  bool starve;  };
uint64_t g_looked;
std::vector<std::string> pass(Ctx& c, bool looking, int kind, uint32_t seed, uint64_t start, const std::vector<Op>& ops) {
  set_clock(start);
  Rng mk(hash64(seed, 77));
  World* w = nullptr;
  uint32_t at = 0;
  {
    Rng first(hash64(seed, 5));
    w = make(kind, c, mk);
    w->kind = kind;
    w->r = &first;
    w->looking = looking;
    W = w;
    for (auto& o : ops) {
      if (c.failed()) break;
      Rng r(hash64(o.seed, 1));
      w->r = &r;
      w->op();
      c.step();
      at++;
      if (looking) {
        for (uint32_t i = 0; i < o.looks && !c.failed(); i++) {
          Rng q(hash64(o.seed, 100 + i));
          const size_t n = w->said.size();
          const uint64_t t = c.now_us;
          {
            StringBuilder out;
            const bool starve = o.starve && (i == 0);
            if (starve) {  g_malloc_failed = 0;  g_malloc_fail_in = (int32_t) q.draw(12);  g_malloc_fail_sticky = q.chance(1, 3);  }
            look_at(w, q, &out, starve);
            if (starve) {  if (g_malloc_failed) c.fault(F_ALLOC);  g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;  }
            if (out.length() > 2000) c.probe(P_LONG);
            c.ev("looked: %d", starve ? -1 : out.length() > 0);
            c.probe(P_LOOK);
            g_looked++;
          }
          c.now_us = t;
          if (w->said.size() != n) c.fail("acted", "a look made something happen: %s", w->said.back().c_str());
        }
      }
      c.state(hash64(kind, hash64(w->said.empty() ? 0 : w->said.back().size(), w->said.size() % 7)));
    }
    if (!c.failed()) {
      Rng last(hash64(seed, 9));
      w->r = &last;
      w->settle();
    }
  }
  Rng gone(hash64(seed, 11));
  w->r = &gone;
  std::vector<std::string> s = w->said;
  look_away();
  delete w;
  W = nullptr;
  return s;
}
void run(Ctx& c) {
  c.read_cost_us = 0;
  g_looked = 0;
  int kind = which(c);
  uint32_t seed = c.draw(1u << 30);
  uint64_t start = c.chance(1, 3) ? 0x100000000ull * 1000 - 2000000 : 5000000ull;
  std::vector<Op> ops;
  c.plan_ops(5 + c.draw(50));
  while (c.next_op()) {
    Op o {c.draw(1u << 30), c.chance(1, 2) ? 1 + c.draw(2) : 0, c.chance(1, 6)};
    ops.push_back(o);
  }
  c.begin_tail();
  const size_t h0 = heap_in_use();
  std::vector<std::string> a = pass(c, false, kind, seed, start, ops);
  if (c.failed()) return;
  const size_t h1 = heap_in_use();
  std::vector<std::string> b = pass(c, true, kind, seed, start, ops);
  if (c.failed()) return;
  const size_t h2 = heap_in_use();
  if (g_looked && a.size() > 4) c.nontrivial();
  for (size_t i = 0; i < a.size() || i < b.size(); i++) {
    const char* x = i < a.size() ? a[i].c_str() : "(nothing)";
    const char* y = i < b.size() ? b[i].c_str() : "(nothing)";
    if (strcmp(x, y)) {  c.fail("changed", "after looking, this happened: %s; without looking: %s", y, x);  return;  }
  }
  // What is kept for good (as schedules are) is kept both times.
  if (h2 + h0 > 2 * h1) c.fail("leak", "looking left %d bytes behind", (int) (h2 + h0 - 2 * h1));
}
}

/* The platform's parts of the bus drivers. */
static int wire_begin() {
  if (!wire.r) {  wire.steps = 0;  return 0;  }
  wire.res = wire.r->chance(1, 6) ? XferFault::BUS_FAULT : XferFault::NONE;
  if (wire.res != XferFault::NONE) W->c.fault(F_BUSFAULT);
  wire.steps = 1 + (int) wire.r->draw(4);
  return 0;
}
int8_t I2CAdapter::_bus_init() {  _pf_needs_op_advance(wire.advance);  _pf_dispatch_on_queue(wire.asap);  return 0;  }
int8_t I2CAdapter::_bus_deinit() {  return 0;  }
void I2CAdapter::printHardwareState(StringBuilder* s) {  s->concat("hardware\n");  }
XferFault I2CBusOp::begin() {
  W->say("begin %02x:%d op %d len %u", dev_addr, sub_addr, (int) get_opcode(), _buf_len);
  if (0 != execCA()) {  abort(XferFault::IO_RECALL);  return XferFault::IO_RECALL;  }
  wire_begin();
  set_state(XferState::ADDR);
  if (!wire.advance || wire.r->chance(1, 4)) {  if (wire.res == XferFault::NONE) markComplete();  else abort(wire.res);  return getFault();  }
  return XferFault::NONE;
}
XferFault I2CBusOp::advance(uint32_t) {
  if (--wire.steps > 0) return XferFault::NONE;
  if (wire.res == XferFault::NONE) markComplete();  else abort(wire.res);
  return getFault();
}
int8_t SPIAdapter::_bus_init() {  _pf_needs_op_advance(wire.advance);  return 0;  }
int8_t SPIAdapter::_bus_deinit() {  return 0;  }
void SPIAdapter::printHardwareState(StringBuilder* s) {  s->concat("hardware\n");  }
int8_t SPIAdapter::io_op_callahead(BusOp*) {  return 0;  }
int8_t SPIAdapter::io_op_callback(BusOp*) {  return 0;  }
int8_t SPIAdapter::setMode(const uint8_t) {  return 0;  }
int8_t SPIAdapter::frequency(const uint32_t) {  return 0;  }
XferFault SPIBusOp::begin() {
  W->say("begin op %d len %u par %u", (int) get_opcode(), _buf_len, xfer_params[0]);
  if (0 != execCA()) {  abort(XferFault::IO_RECALL);  return XferFault::IO_RECALL;  }
  wire_begin();
  set_state(XferState::INITIATE);
  _assert_cs(true);
  if (!wire.advance || wire.r->chance(1, 4)) {  if (wire.res == XferFault::NONE) markComplete();  else abort(wire.res);  return XferFault::NONE;  }
  set_state(XferState::TX_WAIT);
  return XferFault::NONE;
}
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) {
  if (--wire.steps > 0) return 0;
  if (wire.res == XferFault::NONE) markComplete();  else abort(wire.res);
  return 0;
}

#ifndef LOOKS_AT_PICTURES
sim::Harness g_harness = {"O01",
  "a case is a history of one part, run twice from the same seed, the second time with prints, listings and questions on a console in between; non-trivial if something was looked at and both runs had observations to compare",
  run,
  {"allocation refused during a look", "bus fault", "refusal by a step, a state or a sink", "bytes lost on a link", "late service"},
  {"look at an I2C adapter", "look at an SPI adapter", "look at a UART", "look at a state machine", "look at a sequencer", "look at a link", "look at a series", "look at a filter", "look at a schedule",
   "look at a configuration", "look at a console", "look at texts, values and pools", "look", "look at a full window", "look while work is outstanding", "look that printed much"},
  {"I2CAdapter.cpp", "SPIAdapter.cpp", "UARTAdapter.cpp", "BusQueue.cpp", "FiniteStateMachine.h", "AsyncSequencer.cpp", "C3PScheduler.cpp", "M2MLink.cpp", "TimeSeries.cpp", "SensorFilter.h", "ConfRecord.cpp", "C3PConsole.cpp", "StringBuilder.cpp", "KeyValuePair.cpp", "ElementPool.h", "StopWatch"},
  {"the wires of the buses", "the transport of the link", "clock", "malloc (refuses on request)"},
  "which part, and how its history grows, consecutive pairs",
  {}, 20000, 400000
};
#endif
