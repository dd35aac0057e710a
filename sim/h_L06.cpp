/* L06: what is logged to the counterparty arrives in its log, if it allows that; and a message for a service is handed to that service. */
#include "m2m.h"
using namespace m2m;

namespace {
enum {  F_DROP, F_DUP, F_DELAY, F_REJECT, F_REORDER, F_FRAG, F_FOREIGN  };
enum {  P_LOGGED, P_DENIED, P_TRASHED, P_ACKED, P_FULL, P_BIG, P_SERVED, P_SVC_REPLY, P_NO_SERVICE, P_APP, P_FINAL  };
constexpr unsigned DEPTH = 8;

struct Run;
struct Svc : public M2MService {
  Run* r;  int n, slot;
  Svc(Run* run, int node, int s, M2MLink* l) : M2MService("svc", l), r(run), n(node), slot(s) {}
  ~Svc() {}
  int8_t _handle_msg(uint32_t tag, M2MMsg* m) override;
};

struct Log {  int n;  std::string text;  bool need = false;  uint32_t tx = 0;  bool acked = false;  uint32_t acked_at = 0;  };
struct Entry {  std::string text;  bool may_be_trash = false;  };
struct Arrival {  uint8_t code;  uint32_t id;  bool reply, expects;  Pl pl;  bool bare = false;  };   // A message for the application or a service, which was delivered.

struct Run {
  Ctx& c;  World w;
  std::vector<Log> logs;
  std::deque<int> unsent[2];                 // Logs accepted, and yet to be sent.
  std::map<Bytes, int> by_bytes[2];          // Frames with a log in them.
  std::deque<Entry> expect[2];               // What the log of node n has yet to say.
  std::deque<Arrival> to_app[2], to_svc[2];  // What was delivered to node n.
  std::map<std::pair<uint8_t, uint32_t>, int> owed[2];    // Replies that node n has to send, by code and identity.
  Svc* svc[2][2] = {{nullptr, nullptr}, {nullptr, nullptr}};
  bool allow[2], reads[2], settled = false, quiet = false;
  uint32_t seq = 1, fid = 0x800000;
  std::map<uint32_t, Arrival> answers[2];      // What the services of node n replied, by identity.
  Run(Ctx& ctx) : c(ctx), w(ctx) {}
  ~Run() {  for (auto& q : svc) for (auto& s : q) delete s;  }

  std::string words() {
    char b[16];
    snprintf(b, sizeof b, "#%u:", seq++);
    std::string s(b);
    uint32_t n = c.draw(6) ? c.draw(60) : c.pick({250u, 255u, 256u, 900u, 3000u});
    if (n > 200) c.probe(P_BIG);
    uint64_t x = hash64(seq, n);
    for (uint32_t i = 0; i < n; i++) {  x = hash64(x, i);  s += (x % 11 == 0) ? '\n' : (x % 13 == 0) ? '%' : (char) (' ' + (x >> 8) % 95);  }
    return s;
  }
  void write_log(int n) {
    Log l;
    l.n = n;  l.text = words();  l.need = force_need || c.chance(1, 2);
    StringBuilder s;
    size_t at = 0;
    while (at < l.text.size()) {
      size_t k = 1 + c.draw(c.chance(1, 2) ? l.text.size() : 40);
      if (k > l.text.size() - at) k = l.text.size() - at;
      s.concat((uint8_t*) l.text.data() + at, (int) k);
      at += k;
    }
    int r = w.node[n].link->writeRemoteLog(&s, l.need);
    c.ev("%c: writeRemoteLog(%u bytes%s) = %d", 'A' + n, (unsigned) l.text.size(), l.need ? ", to be acknowledged" : "", r);
    if (r == 0) {
      logs.push_back(l);
      unsent[n].push_back(logs.size() - 1);
      if (unsent[n].size() > DEPTH) c.fail("unbounded-queue", "%c holds %u logs that it did not send", 'A' + n, (unsigned) unsent[n].size());
      if (!s.isEmpty()) c.fail("log-kept", "%c: a log that was sent is not cleared", 'A' + n);
    }
    else if (r == -5) {
      c.probe(P_FULL);
      // Anything that waits for a reply takes a slot.
      if (held[n] + unsent[n].size() < DEPTH) c.fail("refused-early", "%c refused a log, though it holds at most %u messages", 'A' + n, (unsigned) (held[n] + unsent[n].size()));
    }
    else c.fail("log-code", "%c: writeRemoteLog() returned %d on a link that is established", 'A' + n, r);
  }
  uint32_t polls[2] = {0, 0};
  uint32_t held[2] = {0, 0};          // No more than this many are kept besides the logs that have yet to be sent.

  void on_wire(int n, const Bytes& b, const Frame& f, bool refused) {
    if (!settled) return;
    if (!f.ok) return c.fail("bad-frame", "%c emitted a malformed frame", 'A' + n);
    if (f.code == (uint8_t) M2MMsgCode::SYNC_KEEPALIVE) return;
    if (f.code == (uint8_t) M2MMsgCode::APPLICATION) return;
    if (f.reply()) {
      auto i = owed[n].find({f.code, f.id});
      if (i == owed[n].end() || i->second == 0) return c.fail("stray-reply", "%c replied to a message of code %u and id %u that did not ask for it", 'A' + n, f.code, f.id);
      if (!refused) {  i->second--;  if (held[n]) held[n]--;  }
      if (f.code == (uint8_t) M2MMsgCode::LOG) c.probe(P_ACKED);
      return;
    }
    if (f.code != (uint8_t) M2MMsgCode::LOG) return c.fail("stray-frame", "%c emitted code %u", 'A' + n, f.code);
    auto i = by_bytes[n].find(b);
    if (i != by_bytes[n].end()) {                // Once more.
      if (!logs[i->second].need) c.fail("log-twice", "%c sent a log twice, that needs no reply", 'A' + n);
      if (logs[i->second].acked && polls[n] - logs[i->second].acked_at > 60) c.fail("log-twice", "%c sent a log again after its reply arrived", 'A' + n);
      if (!refused) logs[i->second].tx++;
      if (logs[i->second].tx > 4) c.fail("log-twice", "%c sent a log %u times", 'A' + n, logs[i->second].tx);
      return;
    }
    if (unsent[n].empty()) return c.fail("stray-frame", "%c sent a log that nobody wrote", 'A' + n);
    Log& l = logs[unsent[n].front()];
    std::string s((const char*) b.data(), b.size());
    if (s.find(l.text) == std::string::npos) return c.fail("log-order", "%c sent a frame, which is not that of the log written first [%s]", 'A' + n, l.text.substr(0, 40).c_str());
    if (f.expects() != l.need) return c.fail("log-reply", "%c sent a log that %s a reply", 'A' + n, f.expects() ? "expects" : "does not expect");
    if (refused) return;
    l.tx = 1;
    by_bytes[n][b] = unsent[n].front();
    unsent[n].pop_front();
    if (l.need) held[n]++;
  }

  // A frame reaches node n. It will be processed.
  void arrive(int n, const Bytes& b) {
    Frame f = parse(b);
    if (f.code == (uint8_t) M2MMsgCode::LOG) {
      if (f.reply()) {
        for (auto& e : by_bytes[n]) if (parse(e.first).id == f.id) {
          Log& l = logs[e.second];
          if (!l.acked) l.acked_at = polls[n];
          l.acked = true;
        }
        return;
      }
      auto i = by_bytes[1 - n].find(b);
      if (i == by_bytes[1 - n].end()) return;
      if (allow[n]) expect[n].push_back(Entry{logs[i->second].text});
      else c.probe(P_DENIED);
      if (f.expects()) {  owed[n][{f.code, f.id}]++;  held[n]++;  }
    }
    else if (f.code == (uint8_t) M2MMsgCode::APPLICATION) to_app[n].push_back(Arrival{f.code, f.id, f.reply(), f.expects(), Pl()});
    else if (f.code >= 0x10 && f.code < 0x12 && f.reply() && svc[n][f.code - 0x10] && answers[1 - n].count(f.id)) to_svc[n].push_back(answers[1 - n][f.id]);
  }
  void give(int n, const Bytes& b) {
    if (settled) c.ev("%c: delivered, a frame of %u bytes", 'A' + n, (unsigned) b.size());
    arrive(1 - n, b);
    push(1 - n, b);
  }
  void push(int n, const Bytes& b) {
    if (c.chance(1, 3) && b.size() > 1) {
      size_t k = 1 + c.draw(b.size() - 1);
      c.fault(F_FRAG);
      w.push(n, Bytes(b.begin(), b.begin() + k));
      if (c.draw(2)) poll(n);
      w.push(n, Bytes(b.begin() + k, b.end()));
    }
    else w.push(n, b);
  }
  void front(int n, bool keep) {
    if (w.wire[n].empty()) return;
    Bytes b = w.wire[n].front();
    if (!keep) w.wire[n].pop_front();
    give(n, b);
  }
  // A peer of another make sends to a service.
  void foreign(int n) {
    Arrival a;
    a.code = 0x10 + (c.chance(3, 4) ? c.draw(2) : c.pick({2u, 3u, 9u, 15u}));
    a.reply = false;  a.expects = c.chance(1, 2);
    a.id = a.expects ? fid++ : 0;
    a.pl.seq = seq++;  a.pl.kind = 1;  a.pl.size = c.draw(3) ? c.draw(40) : c.pick({230u, 256u, 700u});
    std::string hold;
    KeyValuePair* k = build(a.pl, hold);
    StringBuilder o;
    k->serialize(&o, TCode::CBOR);
    delete k;
    Bytes p(o.string(), o.string() + o.length());
    uint32_t il = a.expects ? 3 : 0, ll = (p.size() + 4 + il > 255) ? 2 : 1, total = 2 + ll + il + 1 + p.size();
    Bytes f = {a.code, (uint8_t) ((ll << 4) | (il << 6) | (a.expects ? 1 : 0))};
    for (uint32_t i = ll; i--;) f.push_back((uint8_t) (total >> (8 * i)));
    for (uint32_t i = il; i--;) f.push_back((uint8_t) (a.id >> (8 * i)));
    f.push_back((uint8_t) (f[1] + total + a.code + 1));
    f.insert(f.end(), p.begin(), p.end());
    if (!parse(f).ok) return c.fail("harness", "a frame was built badly");
    c.ev("%c: receives code %u id=%u%s", 'A' + n, a.code, a.id, a.expects ? " that expects a reply" : "");
    c.fault(F_FOREIGN);
    if (a.code < 0x12 && svc[n][a.code - 0x10]) to_svc[n].push_back(a);
    else c.probe(P_NO_SERVICE);
    push(n, f);
  }

  void on_msg(int n, M2MMsg* m) {
    if (to_app[n].empty() || to_app[n].front().id != m->uniqueId() || m->msgCode() != M2MMsgCode::APPLICATION) return c.fail("app-callback", "%c: the application is given a message of code %u and id %u, which is not one for it", 'A' + n, (unsigned) m->msgCode(), m->uniqueId());
    to_app[n].pop_front();
    c.probe(P_APP);
  }
  void served(int n, int slot, uint32_t tag, M2MMsg* m) {
    if (tag != w.node[n].link->linkTag()) return c.fail("service-tag", "%c: service %d is told of link %08x", 'A' + n, slot, tag);
    if (to_svc[n].empty()) return c.fail("service-stray", "%c: service %d is given a message that did not arrive", 'A' + n, slot);
    Arrival a = to_svc[n].front();
    to_svc[n].pop_front();
    if (a.code != 0x10 + slot || a.code != (uint8_t) m->msgCode() || a.id != m->uniqueId() || a.expects != m->expectsReply() || a.reply != m->isReply()) return c.fail("service-wrong", "%c: service %d is given code %u id %u; the message next in line has code %u id %u", 'A' + n, slot, (unsigned) m->msgCode(), m->uniqueId(), a.code, a.id);
    KeyValuePair* k = nullptr;
    m->getPayload(&k);
    std::string d = a.bare ? (k ? "a payload" : "") : compare(k, a.pl);
    delete k;
    if (d.size()) return c.fail("service-payload", "%c: service %d: %s", 'A' + n, slot, d.c_str());
    c.probe(P_SERVED);
    c.ev("%c: service %d has id=%u", 'A' + n, slot, a.id);
    c.nontrivial();
    if (a.expects && c.chance(2, 3)) {
      int r;
      Arrival b = a;
      b.reply = true;  b.expects = false;
      if (c.chance(1, 2)) {  r = m->ack();  b.bare = true;  }
      else {
        Pl p;  p.seq = seq++;
        b.pl = p;
        std::string hold;
        KeyValuePair* k2 = build(p, hold);
        r = m->reply(k2, false);
        delete k2;
      }
      if (r) return c.fail("service-reply", "%c: service %d cannot reply: %d", 'A' + n, slot, r);
      // With the queue full, it is lost.
      owed[n][{a.code, a.id}]++;  held[n]++;
      answers[n][a.id] = b;
      c.probe(P_SVC_REPLY);
    }
  }

  void poll(int n) {
    StringBuilder o;
    bool mute = !reads[n] && (quiet || c.chance(1, 3));
    M2MLinkState before = w.st(n);
    if (mute) {  w.node[n].link->poll();  for (auto& e : expect[n]) e.may_be_trash = true;  c.probe(P_TRASHED);  }
    else w.node[n].link->poll(&o);
    c.step();
    polls[n]++;
    if (w.node[n].link->linkIdle()) held[n] = unsent[n].size() ? held[n] : 0;
    if (w.st(n) != before) c.ev("%c: %s -> %s", 'A' + n, M2MLink::sessionStateStr(before), M2MLink::sessionStateStr(w.st(n)));
    c.state(hash64(std::min<size_t>(w.wire[0].size(), 5) * 8 + std::min<size_t>(w.wire[1].size(), 5), w.node[0].link->linkIdle() | w.node[1].link->linkIdle() << 1 | std::min<size_t>(expect[n].size(), 3) << 2));
    if (o.isEmpty() || c.failed()) return;
    std::string s((const char*) o.string(), o.length());
    if (!settled) return;
    char tag[80];
    snprintf(tag, sizeof tag, "Link 0x%08x counterparty says:\n", (unsigned) w.node[n].link->linkTag());
    while (!s.empty()) {
      while (true) {
        if (expect[n].empty()) return c.fail("log-stray", "%c: the log says [%s], which is not what arrived, or not in that order", 'A' + n, s.substr(0, 100).c_str());
        std::string e = tag + expect[n].front().text + "\n";
        bool hit = s.compare(0, e.size(), e) == 0, trash = expect[n].front().may_be_trash;
        if (!hit && !trash) return c.fail("log-differs", "%c: the log says [%s] rather than [%s]", 'A' + n, s.substr(0, 100).c_str(), e.substr(0, 100).c_str());
        std::string text = expect[n].front().text;
        expect[n].pop_front();
        // Which of two copies it is, cannot be told. It may be that the other one was discarded.
        if (hit && trash) for (auto& x : expect[n]) if (x.text == text && !x.may_be_trash) {  x.may_be_trash = true;  break;  }
        if (hit) {  s.erase(0, e.size());  break;  }
      }
      c.ev("%c: an entry is read", 'A' + n);
      c.probe(P_LOGGED);
      c.nontrivial();
    }
  }

  void run() {
    uint32_t timeout = c.pick({20u, 60u, 250u});
    w.start_clock();
    for (int n = 0; n < 2; n++) {
      allow[n] = c.chance(4, 5);
      reads[n] = c.chance(4, 5);
      M2MLinkOpts o(timeout, 500, 4096, TCode::CBOR, (c.chance(1, 3) ? M2MLINK_FLAG_SEND_KA : 0) | (allow[n] ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0));
      w.make(n, o);
      StringBuilder s("too early");
      int r = w.node[n].link->writeRemoteLog(&s);
      if (r != -2) return c.fail("log-code", "writeRemoteLog() returned %d on a link that is not established", r);
      if (s.length() != 9) return c.fail("log-lost", "writeRemoteLog() took a log on a link that is not established");
      StringBuilder none;
      if (w.node[n].link->writeRemoteLog(&none) != -1) return c.fail("log-code", "writeRemoteLog() took nothing");
      uint32_t k = c.draw(4);
      for (uint32_t i = 0; i < k; i++) {
        Svc* x = new Svc(this, n, (int) i, w.node[n].link);
        int sr = w.node[n].link->setCallback(x);
        if (i < 2) svc[n][i] = x;  else delete x;
        if (sr != (i < 2 ? 0 : -1)) return c.fail("service-slot", "setCallback() returned %d for service %u of 2", sr, i);
      }
    }
    w.until_idle(4000, 5);
    for (int i = 0; i < 3; i++) w.round(1);
    if (!w.until_idle(2000, 5)) return c.fail("no-session", "endpoints did not settle");
    settled = true;
    w.on_msg = [&](int n, M2MMsg* m) {  on_msg(n, m);  };
    w.on_tx = [&](int n, const Bytes& b, const Frame& f) {  on_wire(n, b, f, false);  };
    w.on_refused = [&](int n, const Bytes& b, const Frame& f) {  on_wire(n, b, f, true);  };
    uint32_t loss = c.pick({0u, 0u, 10u, 40u});
    c.plan_ops(20 + c.draw(100));
    while (c.next_op() && !c.failed()) {
      int n = c.draw(2);
      switch (c.draw(13)) {
        case 0: case 1:  write_log(n);  break;
        case 2:  {  uint32_t k = 1 + c.draw(10);  for (uint32_t i = 0; i < k && !c.failed(); i++) write_log(n);  }  break;
        case 3: case 4: case 5: case 6:
          if (w.wire[n].empty()) break;
          if (c.chance(loss, 100)) {  c.ev("%c: frame lost", 'A' + n);  w.wire[n].pop_front();  c.fault(F_DROP);  }
          else if (c.chance(1, 14)) {  c.ev("%c: frame duplicated", 'A' + n);  front(n, true);  c.fault(F_DUP);  }
          else if (w.wire[n].size() > 1 && c.chance(1, 14)) {  std::swap(w.wire[n][0], w.wire[n][1]);  c.fault(F_REORDER);  c.ev("%c: frames reordered", 'A' + n);  front(n, false);  }
          else front(n, false);
          break;
        case 7: case 8: poll(n);  break;
        case 9:  {  uint32_t k = 1 + c.draw(12);  for (uint32_t i = 0; i < k && !c.failed(); i++) {  poll(n);  if (c.draw(2)) c.advance(1000 * c.draw(4));  }  }  break;
        case 10: {  uint32_t ms = c.draw(3) ? c.range(1, 30) : timeout + c.draw(3);  c.advance(1000ull * ms);  c.fault(F_DELAY);  break;  }
        case 11:
          if (c.chance(1, 2)) {
            w.node[n].reject_next = 1 + c.draw(3);
            for (int i = 0; i < 3 && !c.failed(); i++) poll(n);
            if (w.node[n].rejected) {  c.fault(F_REJECT, w.node[n].rejected);  w.node[n].rejected = 0;  }
            w.node[n].reject_next = 0;
          }
          else {
            Pl p = draw_pl(c, seq++, 60);
            std::string hold;
            KeyValuePair* k = build(p, hold);
            int r = w.node[n].link->send(k, c.chance(1, 2));
            delete k;
            c.ev("%c: send() = %d", 'A' + n, r < 0 ? r : r > 0);
            if (r >= 0) held[n]++;
          }
          break;
        case 12: foreign(n);  break;
      }
    }
    c.begin_tail();
    quiet = true;
    for (uint32_t i = 0; i < timeout * 2 + 400 && !c.failed(); i++) {
      for (int n = 0; n < 2; n++) while (!w.wire[n].empty() && !c.failed()) front(n, false);
      poll(0);  poll(1);
      c.advance(3000);
      if (w.both_idle() && unsent[0].empty() && unsent[1].empty()) break;
    }
    for (int i = 0; i < 12 && !c.failed(); i++) {  for (int n = 0; n < 2; n++) while (!w.wire[n].empty() && !c.failed()) front(n, false);  poll(0);  poll(1);  }
    for (int n = 0; n < 2 && !c.failed(); n++) {
      if (w.st(n) != M2MLinkState::LIVE) return c.fail("session-lost", "%c left LIVE", 'A' + n);
      if (unsent[n].size()) return c.fail("log-unsent", "%c never sent %u logs", 'A' + n, (unsigned) unsent[n].size());
      if (to_svc[n].size()) return c.fail("service-lost", "%c: %u messages were not given to their service", 'A' + n, (unsigned) to_svc[n].size());
      if (to_app[n].size()) return c.fail("app-lost", "%c: %u messages were not given to the application", 'A' + n, (unsigned) to_app[n].size());
      for (auto& e : expect[n]) if (!e.may_be_trash) return c.fail("log-lost", "%c never says [%s]", 'A' + n, e.text.substr(0, 60).c_str());
    }
    if (!w.both_idle()) return;
    // With nothing lost and nothing else to send, one log is acknowledged at once.
    for (int n = 0; n < 2 && !c.failed(); n++) {
      size_t before = logs.size();
      force_need = true;
      write_log(n);
      force_need = false;
      if (c.failed()) return;
      if (logs.size() == before) return c.fail("refused-early", "%c: a link that is idle refuses a log", 'A' + n);
      for (int i = 0; i < 12 && !c.failed(); i++) {
        for (int k = 0; k < 2; k++) while (!w.wire[k].empty() && !c.failed()) front(k, false);
        poll(0);  poll(1);
        c.advance(100);
      }
      if (c.failed()) return;
      const Log& l = logs.back();
      if (!l.acked || l.tx != 1) return c.fail("log-unacked", "%c: a log that expects a reply, sent %u times and not lost, is %s", 'A' + n, l.tx, l.acked ? "acknowledged late" : "not acknowledged");
      if (!w.both_idle()) return c.fail("log-unacked", "%c: a log was acknowledged, and the link is not idle", 'A' + n);
      c.probe(P_FINAL);
    }
  }
  bool force_need = false;
};
int8_t Svc::_handle_msg(uint32_t tag, M2MMsg* m) {  r->served(n, slot, tag, m);  return 0;  }
void run(Ctx& c) {  Run* r = new Run(c);  r->run();  delete r;  }
}

Harness g_harness = {
  "L06",
  "One run: two established links write to the logs of one another, and are sent messages for their services, over a transport that drops, duplicates, swaps, delays and refuses whole frames by seed. Non-trivial: a log was read, or a service was given a message. Distinct by event log.",
  run,
  {"frame dropped", "frame duplicated", "delay / clock advance", "transport refuses a frame", "frames reordered", "frame in two parts", "message from another make of peer"},
  {"log entry read", "log not allowed", "log polled and not kept", "log acknowledged", "log refused, queue full", "large log", "message given to a service", "service replied", "message for a service that is not there", "message given to the application", "acknowledged at once when nothing is lost"},
  {"M2MLink", "M2MMsg", "M2MMsgHdr", "StateMachine", "KeyValuePair", "cbor-cpp", "StringBuilder", "PriorityQueue"},
  {"transport (whole frames)", "clock", "random source", "applications and services at both ends"},
  "frames in flight x idle flags x log entries awaited, consecutive pairs",
  {}, 6000, 200000
};
