/* A BufferAccepter whose appetite the simulator decides. It keeps the contract. */
#pragma once
#include "engine.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include <functional>

namespace sim {
struct Sink : public BufferAccepter {
  std::string got;                       // Everything it took, in order.
  int32_t room = 1 << 20;                // What it takes, in total, before it is full. Decreases.
  bool    refuse = false;                // Takes nothing, though it says that it might.
  bool    unknown = false;               // Says -1 of its space.
  bool    part = false;                  // Takes less than it said it would.
  uint32_t calls = 0, refused = 0, partial = 0;
  std::function<void(const std::string&)> on_take;
  int8_t pushBuffer(StringBuilder* b) override {
    calls++;
    int n = b->length();
    int take = refuse ? 0 : (n < room ? n : room);
    if (part && take > 1) take = (take + 1) / 2;
    if (take <= 0) {  refused++;  return -1;  }
    std::string s((size_t) take, 0);
    // Read without changing the layout; each fragment is also a C string.
    int at = 0, i = 0;
    while (at < take) {
      int len = 0;
      uint8_t* p = b->position(i++, &len);
      if (len <= 0) break;
      volatile char term = ((char*) p)[len];  (void) term;
      int k = len < take - at ? len : take - at;
      memcpy(&s[at], p, k);
      at += k;
    }
    got += s;
    room -= take;
    if (take < n) {  partial++;  b->cull(take);  }
    else b->clear();
    if (on_take) on_take(s);
    return take < n ? 0 : 1;
  }
  int32_t bufferAvailable() override {  return unknown ? -1 : room;  }
};
}
