// The Pico SDK's clock and delays, counted by the harness.
#pragma once
#include <stdint.h>
typedef uint64_t absolute_time_t;
static const absolute_time_t nil_time = 0;
uint64_t time_us_64();
void sleep_us(uint64_t);
void sleep_until(absolute_time_t);
inline absolute_time_t delayed_by_us(absolute_time_t t, uint64_t us) { return t + us; }
