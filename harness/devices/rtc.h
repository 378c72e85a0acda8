#pragma once
#include <stdint.h>
uint64_t esp_rtc_get_time_us();
