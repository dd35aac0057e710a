/*
* The platform that CppPotpourri asks its application to supply, provided by the
* simulator: clock, randomness, sleeping, GPIO, logging and malloc().
*/
#include "engine.h"
#include "platform.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "AbstractPlatform.h"
#include "StringBuilder.h"

namespace sim {
std::function<void(uint8_t, bool)> on_set_pin;
std::function<int8_t(uint8_t)>     on_read_pin;
std::function<void(uint8_t, const char*, StringBuilder*)> on_log;
std::function<uint32_t()>          on_random;
uint32_t log_lines = 0;

static int in_clock = 0;
static void clock_read() {
  if (!g) return;
  g->now_us += g->read_cost_us;
  if (g->on_clock_read && !in_clock) {
    in_clock = 1;
    g->on_clock_read();
    in_clock = 0;
  }
}
void set_clock(uint64_t us) {  g->now_us = us;  g->_start_us = us;  }
} // namespace sim

using namespace sim;

long unsigned millis() {  clock_read();  return (long unsigned) (g->now_us / 1000);  }
long unsigned micros() {  clock_read();  return (long unsigned) g->now_us;           }
void sleep_ms(uint32_t x) {  g->now_us += 1000ull * x;  }
void sleep_us(uint32_t x) {  g->now_us += x;            }

uint32_t randomUInt32() {
  if (on_random) return on_random();
  return (uint32_t) (g->salt() >> 16);
}
int8_t random_fill(uint8_t* buf, size_t len) {
  for (size_t i = 0; i < len; i++) buf[i] = (uint8_t) (randomUInt32() >> 5);
  return 0;
}

int8_t pinMode(uint8_t, GPIOMode) {  return 0;  }
int8_t setPin(uint8_t pin, bool v) {  if (on_set_pin) on_set_pin(pin, v);  return 0;  }
int8_t readPin(uint8_t pin) {  return on_read_pin ? on_read_pin(pin) : 0;  }
void   unsetPinFxn(uint8_t) {}
int8_t setPinFxn(uint8_t, IRQCondition, FxnPointer) {  return 0;  }
int8_t analogWrite(uint8_t, float) {  return 0;  }
int8_t analogWriteFrequency(uint8_t, uint32_t) {  return 0;  }

void c3p_log(uint8_t lev, const char* tag, StringBuilder* msg) {
  log_lines++;
  if (on_log) on_log(lev, tag, msg);
}
AbstractPlatform* platformObj() {  return nullptr;  }

extern "C" {
  void* __real_malloc(size_t);
  void* __wrap_malloc(size_t n) {
    if (g_malloc_limit && n > g_malloc_limit) {  g_malloc_failed++;  return nullptr;  }   // A small machine.
    if (g_malloc_fail_in >= 0) {
      if (0 == g_malloc_fail_in) {
        if (!g_malloc_fail_sticky) g_malloc_fail_in = -1;
        g_malloc_failed++;
        return nullptr;
      }
      g_malloc_fail_in--;
    }
    return __real_malloc(n);
  }
}
