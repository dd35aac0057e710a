#pragma once
#include <stdint.h>
#include <functional>
class StringBuilder;
namespace sim {
extern std::function<void(uint8_t, bool)> on_set_pin;
extern std::function<int8_t(uint8_t)>     on_read_pin;
extern std::function<void(uint8_t, const char*, StringBuilder*)> on_log;
extern std::function<uint32_t()>          on_random;
extern uint32_t log_lines;
void set_clock(uint64_t us);
}
