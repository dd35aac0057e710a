// The platform functions that the library asks its application to supply.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include <deque>
#include <string>
#include <malloc.h>
#include "AbstractPlatform.h"
#include "StringBuilder.h"
static uint64_t T_us = 5000000;
static void (*on_clock)() = nullptr;
static uint32_t R_ = 12345;
long unsigned millis() {  if (on_clock) on_clock();  return (long unsigned) (uint32_t) (T_us / 1000);  }
long unsigned micros() {  if (on_clock) on_clock();  return (long unsigned) (uint32_t) T_us;  }
void sleep_ms(uint32_t x) {  T_us += 1000ull * x;  }
void sleep_us(uint32_t x) {  T_us += x;  }
uint32_t randomUInt32() {  R_ = R_ * 1664525u + 1013904223u;  return (R_ >> 4) | 1;  }
int8_t random_fill(uint8_t* b, size_t n) {  for (size_t i = 0; i < n; i++) b[i] = (uint8_t) randomUInt32();  return 0;  }
static std::vector<std::pair<uint8_t, bool>> pin_log;
int8_t pinMode(uint8_t, GPIOMode) {  return 0;  }
int8_t setPin(uint8_t p, bool v) {  pin_log.push_back({p, v});  return 0;  }
int8_t readPin(uint8_t) {  return 0;  }
void   unsetPinFxn(uint8_t) {}
int8_t setPinFxn(uint8_t, IRQCondition, FxnPointer) {  return 0;  }
int8_t analogWrite(uint8_t, float) {  return 0;  }
int8_t analogWriteFrequency(uint8_t, uint32_t) {  return 0;  }
void c3p_log(uint8_t, const char*, StringBuilder*) {}
AbstractPlatform* platformObj() {  return nullptr;  }
#define FAIL(...) do {  printf("PROPERTY BROKEN: " __VA_ARGS__);  printf("\n");  exit(1);  } while (0)
static size_t heap_used() {  return mallinfo2().uordblks;  }
