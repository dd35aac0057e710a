/* B03: a UART adapter moves bytes each way in order, once each, whatever the pressure. */
#include "sb.h"
#include "sink.h"
#include "BusQueue/UARTAdapter.h"
#include <deque>
using namespace sim;

namespace {
enum {  F_ALLOC, F_SINK_REFUSES, F_SINK_PARTIAL, F_OVERRUN, F_INIT_FAIL, F_RESET, F_STALL  };
enum {  P_TX_PART, P_TX_FULL, P_WRITE_FULL, P_RX_PUSH, P_RX_READ, P_NO_MEMORY, P_RESET, P_NOT_CAPABLE, P_UNKNOWN_ROOM, P_LEFT_IN_RING  };

struct Uart : public UARTAdapter {
  Ctx& c;
  std::string wire;                  // What left on TXD.
  std::deque<uint8_t> rxd;           // What is arriving on RXD.
  uint32_t tx_rate = 4, rx_rate = 4;
  bool tx = true, rx = true, init_fails = false, deinit_fails = false, stalled = false;
  std::deque<uint8_t> arrived;       // Went into the RX ring, and has not come out.
  uint32_t overruns = 0;
  Uart(Ctx& x, uint16_t t, uint16_t r) : UARTAdapter(1, 1, 2, 255, 255, t, r), c(x) {}
  int8_t _pf_init() override {
    if (init_fails) return -1;
    _adapter_set_flag(UART_FLAG_UART_READY);
    _adapter_set_flag(UART_FLAG_HAS_TX, tx);
    _adapter_set_flag(UART_FLAG_HAS_RX, rx);
    return 0;
  }
  int8_t _pf_deinit() override {  return deinit_fails ? -1 : 0;  }
  void irq_handler() override {
    if (!initialized() || stalled) return;
    for (uint32_t i = 0; i < tx_rate && _tx_buffer.count() > 0; i++) wire += (char) _tx_buffer.get();
    for (uint32_t i = 0; i < rx_rate && !rxd.empty() && rx; i++) {
      uint8_t b = rxd.front();  rxd.pop_front();
      if (0 == _rx_buffer.insert(b)) arrived.push_back(b);
      else overruns++;
      last_byte_rx_time = millis();
    }
    _flushed = _tx_buffer.count() == 0;
  }
  int8_t _pf_poll() override {
    irq_handler();
    int n = 0;
    if (_read_cb_obj) n = _handle_rx_push();
    return n > 0 ? 1 : 0;
  }
};

struct Run {
  Ctx& c;
  Uart* u;
  Sink sink;
  bool live = false, hooked = false;
  uint8_t seq = 0, rseq = 0;
  std::string sent;                  // Accepted for transmission since the last flush.
  size_t wire_base = 0;
  std::string due;                   // Arrived, and thus to be delivered, in order.
  uint32_t tcap, rcap;
  Run(Ctx& x) : c(x) {}

  void arm() {  if (c.chance(1, 5)) {  g_malloc_fail_in = c.draw(3);  g_malloc_fail_sticky = c.chance(1, 2);  }  }
  bool disarm() {
    bool d = g_malloc_failed > 0;
    g_malloc_fail_in = -1;  g_malloc_fail_sticky = false;  g_malloc_failed = 0;
    if (d) {  c.fault(F_ALLOC);  c.probe(P_NO_MEMORY);  }
    return d;
  }
  std::string text(uint32_t n) {  std::string s;  for (uint32_t i = 0; i < n; i++) s += (char) ++seq;  return s;  }
  uint32_t len() {  return 1 + c.draw(c.pick({1u, 4u, 20u, 60u}));  }
  bool can_tx() {  return live && u->tx;  }
  uint32_t room() {  return tcap - u->pendingTxBytes();  }

  // The bytes that came out of the RX ring are the oldest that went in.
  void delivered(const std::string& s, const char* how) {
    if (c.failed()) return;
    for (size_t i = 0; i < s.size(); i++) {
      if (u->arrived.empty()) {  c.fail("rx-invented", "%s gave byte %u of %u, which had not arrived", how, (unsigned) i, (unsigned) s.size());  return;  }
      if (u->arrived.front() != (uint8_t) s[i]) {  c.fail("rx-order", "%s gave %02x where %02x was next", how, (uint8_t) s[i], u->arrived.front());  return;  }
      u->arrived.pop_front();
    }
  }
  void check(const char* what) {
    if (c.failed()) return;
    if (u->pendingRxBytes() != (int) u->arrived.size()) c.fail("rx-lost", "after %s, %u received bytes are undelivered, and %d are in the ring", what, (unsigned) u->arrived.size(), u->pendingRxBytes());
    std::string w = u->wire.substr(wire_base);
    if (w.size() > sent.size() || sent.compare(0, w.size(), w) != 0) c.fail("tx-order", "after %s, [%s] was transmitted of [%s]", what, sb::show(w).c_str(), sb::show(sent).c_str());
    else if (w.size() + u->pendingTxBytes() != sent.size()) c.fail("tx-lost", "after %s, %u bytes were accepted, %u transmitted, and %d wait", what, (unsigned) sent.size(), (unsigned) w.size(), u->pendingTxBytes());
  }
  // What was taken of a buffer by something that may take a prefix.
  void took(const char* what, const std::string& all, StringBuilder& b, int rc, bool api) {
    sb::Frags f;
    std::string left;
    for (int i = 0; i < b.count(); i++) {  int l;  uint8_t* p = b.position(i, &l);  left += std::string((char*) p, l);  }
    uint32_t n = all.size() - left.size();
    if (left.size() > all.size() || all.substr(n) != left) {  c.fail("tx-residue", "after %s, [%s] remains of [%s]", what, sb::show(left).c_str(), sb::show(all).c_str());  return;  }
    uint32_t e = can_tx() ? (all.size() < room_before ? all.size() : room_before) : 0;
    if (n != e) {  c.fail("tx-taken", "%s of %u bytes took %u, with space for %u", what, (unsigned) all.size(), n, room_before);  return;  }
    if (api) {  if (rc != (int) n) c.fail("tx-code", "%s took %u and returned %d", what, n, rc);  }
    else if (rc != (n == 0 ? -1 : n < all.size() ? 0 : 1)) c.fail("tx-code", "%s took %u of %u and returned %d", what, n, (unsigned) all.size(), rc);
    sent += all.substr(0, n);
    if (n && n < all.size()) c.probe(P_TX_PART);
    if (!n && can_tx()) c.probe(P_TX_FULL);
    if (n) c.nontrivial();
  }
  uint32_t room_before = 0;

  void op() {
    g_malloc_failed = 0;
    room_before = room();
    switch (c.draw(16)) {
      case 0: case 1: case 2: {
        std::string all;
        StringBuilder b;
        uint32_t pieces = 1 + c.draw(3);
        for (uint32_t i = 0; i < pieces; i++) {  std::string t = text(len());  b.concat((uint8_t*) t.data(), t.size());  all += t;  }
        c.ev("push %u in %u pieces", (unsigned) all.size(), pieces);
        bool api = c.chance(1, 3);
        arm();
        int rc = api ? (int) u->write(&b) : (int) u->pushBuffer(&b);
        disarm();
        took(api ? "write()" : "pushBuffer()", all, b, rc, api);
        break;
      }
      case 3: {
        std::string t = text(len());
        c.ev("write %u", (unsigned) t.size());
        uint32_t e = can_tx() ? (t.size() < room_before ? t.size() : room_before) : 0;
        uint32_t rc = u->write((uint8_t*) t.data(), t.size());
        if (rc != e) c.fail("tx-code", "write() of %u bytes returned %u with space for %u", (unsigned) t.size(), rc, room_before);
        sent += t.substr(0, e);
        if (can_tx() && room_before == 0) c.probe(P_WRITE_FULL);
        break;
      }
      case 4: {
        std::string t = text(1);
        c.ev("write char");
        uint32_t e = can_tx() && room_before > 0 ? 1 : 0, rc = u->write((char) t[0]);
        if (rc != e) c.fail("tx-code", "write(char) returned %u with space for %u", rc, room_before);
        sent += t.substr(0, e);
        break;
      }
      case 5: case 6: case 7: {
        uint32_t n = len();
        c.ev("%u bytes arrive", n);
        for (uint32_t i = 0; i < n; i++) u->rxd.push_back(++rseq);
        break;
      }
      case 8: case 9: case 10: {
        u->tx_rate = c.draw(12);  u->rx_rate = c.draw(30);
        u->stalled = c.chance(1, 10);
        if (u->stalled) c.fault(F_STALL);
        if (c.chance(1, 2)) {
          c.ev("interrupt");
          u->irq_handler();
        }
        else {
          uint32_t calls = sink.calls, refused = sink.refused, partial = sink.partial, waiting;
          int32_t had = sink.room;
          size_t at = sink.got.size();
          u->irq_handler();
          waiting = u->pendingRxBytes();
          bool st = u->stalled;
          u->stalled = true;
          c.ev("poll with %u to push, and room for %d", waiting, sink.room);
          arm();
          PollResult r = u->poll();
          bool d = disarm();
          u->stalled = st;
          delivered(sink.got.substr(at), "the push");
          if (sink.calls > calls) c.probe(P_RX_PUSH);
          if (sink.refused > refused) c.fault(F_SINK_REFUSES);
          if (sink.partial > partial) c.fault(F_SINK_PARTIAL);
          size_t n = sink.got.size() - at;
          if ((r == PollResult::ACTION) != (n > 0)) c.fail("poll-code", "poll() returned %d, and delivered %u", (int) r, (unsigned) n);
          // An attached sink that has room is given something.
          if (hooked && live && waiting && !d && !sink.refuse && had > 0 && n == 0) c.fail("rx-stuck", "%u bytes wait, there is room for %d, and none were pushed", waiting, had);
          if (hooked && waiting > n) c.probe(P_LEFT_IN_RING);
        }
        c.advance(c.draw(3000));
        break;
      }
      case 11: {
        uint32_t n = c.draw(40);
        uint8_t* o = new uint8_t[n + 1];
        uint32_t have = u->arrived.size();
        uint32_t r = u->read(o, n);
        c.ev("read %u = %u", n, r);
        if (r != (n < have ? n : have)) c.fail("rx-read", "read() of %u with %u waiting returned %u", n, have, r);
        delivered(std::string((char*) o, r), "read()");
        delete[] o;
        c.probe(P_RX_READ);
        break;
      }
      case 12: {
        StringBuilder b;
        uint32_t have = u->arrived.size();
        c.ev("read all of %u", have);
        arm();
        uint32_t r = u->read(&b);
        bool d = disarm();
        std::string s;
        for (int i = 0; i < b.count(); i++) {  int l;  uint8_t* p = b.position(i, &l);  s += std::string((char*) p, l);  volatile char t = ((char*) p)[l];  (void) t;  }
        if (r != s.size() || (!d && r != have)) c.fail("rx-read", "read() with %u waiting returned %u, and gave %u", have, r, (unsigned) s.size());
        delivered(s, "read()");
        break;
      }
      case 13: {                         // The sink's disposition changes.
        sink.room = c.pick({0, 1, 5, 30, 1000});
        sink.refuse = c.chance(1, 5);
        sink.unknown = c.chance(1, 6);
        sink.part = c.chance(1, 5);
        if (sink.unknown) c.probe(P_UNKNOWN_ROOM);
        hooked = c.chance(4, 5);
        u->readCallback(hooked ? &sink : nullptr);
        c.ev("sink: room %d%s%s%s%s", sink.room, sink.refuse ? " refuses" : "", sink.unknown ? " unknown" : "", sink.part ? " part" : "", hooked ? "" : " unhooked");
        break;
      }
      case 14: {
        if (!c.chance(1, 4)) break;
        u->init_fails = c.chance(1, 3);  u->deinit_fails = c.chance(1, 4);
        bool full = c.chance(1, 2);
        int r = full ? u->reset() : u->deinit();
        c.ev("%s = %d", full ? "reset" : "deinit", r);
        if (u->init_fails && full) c.fault(F_INIT_FAIL);
        int e = (u->deinit_fails || (full && u->init_fails)) ? -1 : 0;
        if (r != e) c.fail("reset-code", "%s returned %d", full ? "reset()" : "deinit()", r);
        if (!u->deinit_fails) {          // What was waiting is discarded.
          u->arrived.clear();
          sent.clear();  wire_base = u->wire.size();
          live = full && !u->init_fails;
          if (!live && !c.failed()) bring_up();
        }
        c.fault(F_RESET);  c.probe(P_RESET);
        break;
      }
      default: {
        int a = u->bufferAvailable();
        if (a != (int) room()) c.fail("tx-room", "bufferAvailable() is %d with %u free", a, room());
        c.ev("%d available", a);
        break;
      }
    }
    c.fault(F_OVERRUN, u->overruns);  u->overruns = 0;
    check("that");
  }
  void bring_up() {
    u->init_fails = false;
    UARTOpts o;
    memset(&o, 0, sizeof(o));
    o.bitrate = 9600 + c.draw(3);  o.bit_per_word = 8;
    bool none = c.chance(1, 4);
    UARTOpts was = *u->uartOpts();
    int r = u->init(none ? nullptr : &o);
    if (r != 0 || !u->initialized()) c.fail("init", "init() returned %d", r);
    uint32_t e = none ? was.bitrate : o.bitrate;
    if (u->bitrate() != e) c.fail("init", "the bitrate is %u, not %u", u->bitrate(), e);
    c.ev("init%s", none ? " as before" : "");
    live = true;
  }
  void run() {
    tcap = 1 + c.draw(64);  rcap = 1 + c.draw(64);
    void* mem = malloc(sizeof(Uart));
    memset(mem, 0x5A, sizeof(Uart));     // Nothing is zero by luck.
    u = new (mem) Uart(c, tcap, rcap);
    u->tx = c.chance(7, 8);  u->rx = c.chance(7, 8);
    if (!u->tx || !u->rx) c.probe(P_NOT_CAPABLE);
    UARTOpts* op0 = u->uartOpts();
    if (op0->bitrate != 0) c.fail("init", "an adapter that was given no options has a bitrate of %u", op0->bitrate);
    bring_up();
    hooked = c.chance(3, 4);
    if (hooked) u->readCallback(&sink);
    c.plan_ops(20 + c.draw(80));
    while (c.next_op() && !c.failed()) {
      c.step();
      op();
      c.state(hash64(hash64(u->pendingTxBytes() * 4 / tcap, u->pendingRxBytes() * 4 / rcap), (sink.room > 0) + 2 * hooked + 4 * live + 8 * sink.refuse));
    }
    c.begin_tail();
    // Pressure ends: all of it gets through.
    if (!c.failed()) {
      sink.room = 1 << 20;  sink.refuse = false;  sink.unknown = false;  sink.part = false;
      u->readCallback(&sink);
      u->stalled = false;  u->tx_rate = u->rx_rate = 16;
      size_t at = sink.got.size();
      for (int i = 0; i < 100 && !c.failed(); i++) {  u->poll();  delivered(sink.got.substr(at), "the push");  at = sink.got.size();  }
      check("draining");
      if (!c.failed() && (u->pendingRxBytes() || (u->tx && u->pendingTxBytes()))) c.fail("stuck", "%d bytes to send and %d received did not drain", u->pendingTxBytes(), u->pendingRxBytes());
    }
    u->~Uart();
    free(mem);
  }
};

void run(Ctx& c) {
  size_t before = heap_in_use();
  {  Run r(c);  r.run();  }
  if (!c.failed() && heap_in_use() > before) c.fail("leak", "%u bytes were not released", (unsigned) (heap_in_use() - before));
}
}

sim::Harness g_harness = {"B03",
  "a case is a history of writes, reads, arrivals, interrupts, polls and resets of one UART; non-trivial if bytes were accepted for transmission",
  run,
  {"allocation failure", "sink refuses", "sink takes a part", "receive overrun", "initialisation fails", "reset or teardown", "hardware stalls"},
  {"push taken in part", "push to a full ring", "write to a full ring", "received bytes pushed", "received bytes read", "operation refused memory", "reset", "adapter lacks a direction", "sink does not know its space", "bytes left in the ring by the sink"},
  {"UARTAdapter.cpp", "RingBuffer.h", "StringBuilder.cpp"},
  {"UART hardware", "receiver of the bytes", "malloc (refuses on request)"},
  "fullness of each ring, and the sink's disposition",
  {}, 20000, 400000
};
