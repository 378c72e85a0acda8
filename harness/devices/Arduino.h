// Just enough of the Arduino core's interface, over devices the harness provides.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

class __FlashStringHelper;
#define F(x) (reinterpret_cast<const __FlashStringHelper*>(x))
#define PROGMEM
typedef const char* PGM_P;
inline size_t strlen_P(const char* s) { return strlen(s); }
inline void* memcpy_P(void* d, const void* s, size_t n) { return memcpy(d, s, n); }

unsigned long millis();
void delay(unsigned long);
void yield();

class String
{
    char* p; unsigned n;
public:
    String(const char* s, unsigned n) : p((char*)malloc(n + 1)), n(n) { memcpy(p, s, n); p[n] = 0; }
    String(const String& o) : String(o.p, o.n) {}
    ~String() { free(p); }
    unsigned length() const { return n; }
    const char* c_str() const { return p; }
    // like the core's: at most size - 1 characters, and a terminator
    void getBytes(unsigned char* buf, unsigned size, unsigned index = 0) const
    {
        if (!size || !buf) return;
        if (index >= n) { buf[0] = 0; return; }
        unsigned c = size - 1; if (c > n - index) c = n - index;
        memcpy(buf, p + index, c); buf[c] = 0;
    }
    void toCharArray(char* buf, unsigned size, unsigned index = 0) const { getBytes((unsigned char*)buf, size, index); }
};

class Print
{
public:
    virtual ~Print() {}
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* b, size_t n) { size_t k = 0; while (k < n && write(b[k])) k++; return k; }
    size_t write(const char* b, size_t n) { return write((const uint8_t*)b, n); }
    virtual int availableForWrite() { return 0; }
    virtual void flush() {}
    size_t print(const __FlashStringHelper* s) { return write((const uint8_t*)s, strlen((const char*)s)); }
    size_t print(const char* s) { return write((const uint8_t*)s, strlen(s)); }
    size_t print(const String& s) { return write((const uint8_t*)s.c_str(), s.length()); }
    size_t print(char c) { return write((uint8_t)c); }
    size_t print(int v) { char b[24]; return write((const uint8_t*)b, snprintf(b, sizeof b, "%d", v)); }
    size_t print(unsigned v) { char b[24]; return write((const uint8_t*)b, snprintf(b, sizeof b, "%u", v)); }
    size_t print(long v) { char b[24]; return write((const uint8_t*)b, snprintf(b, sizeof b, "%ld", v)); }
    size_t print(unsigned long v) { char b[24]; return write((const uint8_t*)b, snprintf(b, sizeof b, "%lu", v)); }
};

class Stream : public Print
{
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    // the core's waits for each character up to a timeout; what is there is all that comes
    virtual size_t readBytes(char* b, size_t n) { size_t k = 0; while (k < n) { int c = read(); if (c < 0) break; b[k++] = (char)c; } return k; }
};
