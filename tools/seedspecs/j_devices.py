DEV = r'''
// DEVICES_DEMO
#ifndef ARDUINO
#define ARDUINO 10800
#endif
#include <estd/string.h>
#include <estd/streambuf.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/chrono.h>
#include <estd/port/arduino/chrono.h>
#include <estd/port/arduino/thread.h>
#include <estd/port/arduino/string.h>
#include <estd/port/arduino/streambuf.h>
#include <estd/port/posix/streambuf.h>
#include <estd/port/rpi/pico/ostream.h>
#include <estd/port/rpi/pico/chrono.h>
#include <estd/port/esp-idf/chrono.h>
#include <string>
static unsigned long ms = 0, delayed = 0; static uint64_t us = 0;
unsigned long millis() { return ms; } void delay(unsigned long n) { delayed += n; } void yield() {}
struct Wire : Stream { std::string out, in; size_t room = 1000000; size_t write(uint8_t c) override { if (!room) return 0; room--; out += (char)c; return 1; }
    int available() override { return (int)in.size(); } int peek() override { return in.empty() ? -1 : (unsigned char)in[0]; }
    int read() override { int c = peek(); if (c >= 0) in.erase(0, 1); return c; } };
'''
A = "port/arduino/"
seed("dev-arduino-long-sleep", "C37", [(A + "thread.h", "    delay(count);", "    delay(static_cast<unsigned>(count));")], DEV + r'''
int main() { estd::this_thread::sleep_for(estd::chrono::duration<unsigned long, estd::milli>(250)); if (delayed != 250) return 1;
    delayed = 0; estd::this_thread::sleep_for(estd::chrono::duration<unsigned long, estd::milli>(0x100000010ul)); return delayed == 0x100000010ul ? 0 : 1; }
''', "sleeping for more milliseconds than an unsigned int counts (49 days here, a minute where it has 16 bits)", "a long sleep ends early")
seed("dev-arduino-clock-wrap", "C37", [(A + "chrono.h", "return time_point(duration(millis()));", "return time_point(duration(static_cast<int>(millis())));")], DEV + r'''
int main() { ms = 1000; auto a = estd::chrono::arduino_clock::now(); ms = 0x80000010ul; auto b = estd::chrono::arduino_clock::now();
    return (b - a).count() == 0x80000010ul - 1000 ? 0 : 1; }
''', "a tick count beyond half its range", "the Arduino clock jumps")
seed("dev-flash-append-long", "C37", [(A + "string.h", "    int sz = lhs.size();\n    int sz_rhs = strlen_P((const char*)rhs);\n    lhs.resize(sz + sz_rhs);\n    memcpy_P(lhs.lock(sz), rhs, sz_rhs);\n    lhs.unlock();\n    return lhs;\n}\n\n// UNTESTED",
    "    int sz = lhs.size();\n    uint8_t sz_rhs = strlen_P((const char*)rhs);\n    lhs.resize(sz + sz_rhs);\n    memcpy_P(lhs.lock(sz), rhs, sz_rhs);\n    lhs.unlock();\n    return lhs;\n}\n\n// UNTESTED")], DEV + r'''
int main() { std::string t(300, 'q'); t[299] = 'z'; estd::layer1::string<500, false> s("ab"); estd::layer1::string<500, false>& l = s; l += F(t.c_str()); return l.size() == 302 && l == (std::string("ab") + t).c_str() ? 0 : 1; }
''', "appending 256 characters or more of program memory", "most of the text is lost")
seed("dev-print-to-nul", "C37", [(A + "string.h", "    const uint8_t* data = reinterpret_cast<const uint8_t*>(arg.clock());\n    obj.write(data, arg.size());", "    const char* data = reinterpret_cast<const char*>(arg.clock());\n    obj.write(data, arg.size() ? strnlen(data, arg.size()) : 0);")], DEV + r'''
int main() { Wire w; estd::layer1::string<20, false> s; s += "ab"; s += '\0'; s += "cd"; if (s.size() != 5) return 3; Print& p = w; p << s; return w.out == std::string("ab\0cd", 5) ? 0 : 1; }
''', "printing a string with a NUL character inside", "a string printed on an Arduino device ends at its first NUL")
seed("dev-arduino-full", "C37", [(A + "streambuf.h", "        if(underlying().write(ch))\n            return traits_type::to_int_type(ch);\n        else\n            return traits_type::eof();", "        underlying().write(ch);\n        return traits_type::to_int_type(ch);")], DEV + r'''
int main() { Wire w; w.room = 1; estd::arduino_ostreambuf sb(w); int a = sb.sputc('a'), b = sb.sputc('b'); return a == 'a' && b == -1 && w.out == "a" ? 0 : 1; }
''', "a device which takes no more", "a character the device refused is reported as written")
seed("dev-arduino-skip", "C37", [(A + "streambuf.h", "        while(count--) underlying().read();", "        while(--count >= 0 && underlying().peek() > 0) underlying().read();")], DEV + r'''
int main() { Wire w; w.in = std::string("a\0b", 3); estd::internal::impl::arduino_streambuf<estd::char_traits<char>> sb(w); sb.gbump(2); return sb.sbumpc() == 'b' ? 0 : 1; }
''', "skipping over a NUL", "skipping stops at a NUL character")
seed("dev-arduino-get-available", "C37", [(A + "streambuf.h", "        return underlying().readBytes(s, count);", "        streamsize n = 0;\n        int ch;\n        while(n < count && (ch = underlying().read()) > 0) s[n++] = ch;\n        return n;")], DEV + r'''
int main() { Wire w; w.in = std::string("a\0b", 3); estd::arduino_streambuf sb(w); char c[3] = {1,1,1}; return sb.sgetn(c, 3) == 3 && !c[1] && c[2] == 'b' ? 0 : 1; }
''', "a NUL among what is read", "reading stops at a NUL character and loses it")
seed("dev-posix-peek-nul", "C37", [("port/posix/streambuf.cpp", "    ungetc(c, &this->stream);\n", "    if(c > 0) ungetc(c, &this->stream);\n")], DEV + r'''
int main() { char m[] = { 'a', 0, 'b' }; FILE* f = fmemopen(m, 3, "r"); estd::posix_streambuf<char> sb(*f); std::string got; for (int i = 0; i < 5; i++) { int p = sb.sgetc(); int c = sb.sbumpc(); if (c != p) return 1; if (c < 0) break; got += (char)c; } return got == std::string(m, 3) ? 0 : 1; }
''', "peeking at a NUL", "looking at a NUL character takes it")
seed("dev-posix-partial", "C37", [("port/posix/streambuf.cpp", "    return fread(s, sizeof(char), count, &this->stream);", "    return fread(s, count, sizeof(char), &this->stream) * count;")], DEV + r'''
int main() { char m[] = "abc"; FILE* f = fmemopen(m, 3, "r"); estd::posix_streambuf<char> sb(*f); char c[8]; return sb.sgetn(c, 2) == 2 && sb.sgetn(c, 8) == 1 && c[0] == 'c' ? 0 : 1; }
''', "asking for more than is left", "characters read at the end of a file are not reported")
PICO = DEV + r'''
static std::string in, out; static void outc(const char* s, int n) { out.append(s, n); } static int inc(char* s, int n) { if (in.empty()) return PICO_ERROR_NO_DATA; int k = (int)in.size() < n ? (int)in.size() : n; memcpy(s, in.data(), k); in.erase(0, k); return k; }
'''
seed("dev-pico-high-bytes", "C37", [("port/rpi/pico/streambuf.h", "            return traits_type::to_int_type(c);\n    }\n\n    int_type sputc", "            return c;\n    }\n\n    int_type sputc")], PICO + r'''
int main() { stdio_driver_t d{}; d.out_chars = outc; d.in_chars = inc; in = "a\xff"; estd::basic_pico_stdio_streambuf<char> sb(d); return sb.sbumpc() == 'a' && sb.sbumpc() == 0xff && sb.sbumpc() == -1 ? 0 : 1; }
''', "a byte of 255", "a byte of 255 reads as end of file")
seed("dev-pico-late-wake", "C37", [("port/rpi/pico/chrono.h", "    absolute_time_t target = delayed_by_us(nil_time, converted.count());", "    absolute_time_t target = delayed_by_us(nil_time, static_cast<uint32_t>(converted.count()));")], PICO + r'''
static uint64_t woke = 0; uint64_t time_us_64() { return us; } void sleep_us(uint64_t) {}
void sleep_until(absolute_time_t t) { woke = t; }
int main() { typedef estd::chrono::experimental::pico_clock C; us = 7; C::now(); estd::this_core::sleep_until(C::time_point(C::duration(0x100000005ull))); return woke == 0x100000005ull ? 0 : 1; }
''', "a wake-up time over 71 minutes after boot", "sleep_until wakes too early")
