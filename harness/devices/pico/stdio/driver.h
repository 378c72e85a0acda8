// The interface of the Pico SDK's stdio drivers, over devices the harness provides.
#pragma once
#include <stdint.h>
enum { PICO_OK = 0, PICO_ERROR_TIMEOUT = -1, PICO_ERROR_GENERIC = -2, PICO_ERROR_NO_DATA = -3 };
typedef struct stdio_driver {
    void (*out_chars)(const char* buf, int len);
    void (*out_flush)(void);
    int (*in_chars)(char* buf, int len);
    struct stdio_driver* next;
} stdio_driver_t;
