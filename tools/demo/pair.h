// Two links on a byte transport that the demonstration controls.
#pragma once
#include "plat.h"
#include "M2MLink/M2MLink.h"
struct Got {  uint32_t id;  bool reply, expects;  uint32_t n;  std::string s;  bool has;  };
struct Side : public BufferAccepter {
  M2MLink* link = nullptr;
  std::deque<std::vector<uint8_t>> out;
  std::vector<std::vector<uint8_t>> history;
  std::vector<Got> got;
  int refuse = 0, acks = 1;                  // acks: answer requests.
  unsigned states = 0;
  int8_t pushBuffer(StringBuilder* b) override {
    if (refuse > 0) {  refuse--;  return -1;  }
    std::vector<uint8_t> x(b->string(), b->string() + b->length());
    b->clear();  out.push_back(x);  history.push_back(x);  return 1;
  }
  int32_t bufferAvailable() override {  return 65536;  }
};
static Side side[2];
static void on_msg(int n, M2MMsg* m) {
  Got g;  g.id = m->uniqueId();  g.reply = m->isReply();  g.expects = m->expectsReply();  g.n = 0;
  KeyValuePair* k = nullptr;  m->getPayload(&k);  g.has = (k != nullptr);
  if (k) {
    int8_t ok = 0;
    if (k->valueWithKey("n")) g.n = k->valueWithKey("n")->get_as_uint(&ok);
    char* s = nullptr;
    if (k->valueWithKey("s")) {  k->valueWithKey("s")->get_as(&s);  if (s) g.s = s;  }
    delete k;
  }
  side[n].got.push_back(g);
  if (g.expects && side[n].acks) m->ack();
}
static void mcb0(uint32_t, M2MMsg* m) {  on_msg(0, m);  }
static void mcb1(uint32_t, M2MMsg* m) {  on_msg(1, m);  }
static void scb0(M2MLink*) {  side[0].states++;  }
static void scb1(M2MLink*) {  side[1].states++;  }
static void make(int n, M2MLinkOpts& o) {
  side[n].link = new M2MLink(&o);
  side[n].link->setEfferant(&side[n]);
  side[n].link->setCallback((M2MMsgCB) (n ? mcb1 : mcb0));
  side[n].link->setCallback((M2MLinkCB) (n ? scb1 : scb0));
}
static void push(int n, const std::vector<uint8_t>& v) {
  StringBuilder s;  if (v.size()) s.concat((uint8_t*) v.data(), (int) v.size());
  side[n].link->pushBuffer(&s);
}
// Everything side n has emitted arrives: frame by frame, or as one piece.
static void deliver(int n, bool joined = false) {
  std::vector<uint8_t> all;
  while (!side[n].out.empty()) {
    std::vector<uint8_t> f = side[n].out.front();  side[n].out.pop_front();
    if (joined) all.insert(all.end(), f.begin(), f.end());
    else push(1 - n, f);
  }
  if (joined && all.size()) push(1 - n, all);
}
static void rounds(int k, int ms = 5, bool joined = false) {
  for (int i = 0; i < k; i++) {
    deliver(0, joined);  deliver(1, joined);
    side[0].link->poll();  side[1].link->poll();
    T_us += 1000ull * ms;
  }
}
static void connect_pair(uint32_t timeout = 100, uint32_t ka = 50, uint32_t flags = 0, uint32_t mtu = 1024) {
  M2MLinkOpts o(timeout, ka, mtu, TCode::CBOR, flags);
  make(0, o);  make(1, o);
  rounds(80);
  if (!side[0].link->linkIdle() || !side[1].link->linkIdle()) FAIL("the links did not connect");
}
static int send(int n, uint32_t num, const std::string& s, bool expects) {
  static std::deque<std::string> hold;  hold.push_back(s);
  KeyValuePair* k = new KeyValuePair("n", (uint32_t) num);
  k->reapContainer(true);
  k->append((const char*) hold.back().c_str(), "s");
  int r = side[n].link->send(k, expects);
  delete k;
  return r;
}
