// The same with the other kernel configuration: 16-bit ticks, a hundred a second.
#define configTICK_RATE_HZ 100
#define RTOS_TICK_TYPE uint16_t
#define FR(name) name "_t16"
#define FR_NS estd_fr16
#include "freertos.cpp"
