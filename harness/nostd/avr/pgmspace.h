#pragma once
#include <stdint.h>
#include <string.h>
#define PROGMEM
#define PGM_P const char*
#define PSTR(s) (s)
#define pgm_read_byte(p) (*(const uint8_t*)(p))
#define pgm_read_word(p) (*(const uint16_t*)(p))
#define pgm_read_dword(p) (*(const uint32_t*)(p))
#define pgm_read_float(p) (*(const float*)(p))
#define pgm_read_ptr(p) (*(void* const*)(p))
#define pgm_read_byte_near(p) pgm_read_byte(p)
#define pgm_read_word_near(p) pgm_read_word(p)
#define pgm_read_dword_near(p) pgm_read_dword(p)
inline size_t strnlen_P(const char* s, size_t n) { return strnlen(s, n); }
inline int strncmp_P(const char* a, const char* b, size_t n) { return strncmp(a, b, n); }
