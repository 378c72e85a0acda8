// C37: streams over devices pass on every byte, clocks every tick, mutexes every lock.
//
// The devices are stand-ins for an Arduino Print and Stream, a C FILE (fopencookie), a Pico stdio
// driver and the tick counters, delays and mutexes of several platforms.  Each keeps everything it
// was given and takes or gives as little at a time as the case says.
#ifndef ARDUINO
#define ARDUINO 10800
#endif
#define LIB_PICO_STDIO 1
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/streambuf.h>
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/iostream.h>
#include <estd/chrono.h>
#include <estd/port/arduino/chrono.h>
#include <estd/port/arduino/thread.h>
#include <estd/port/arduino/string.h>
#include <estd/port/posix/streambuf.h>
#include <estd/port/rpi/pico/ostream.h>
#include <estd/port/rpi/pico/chrono.h>
#include <estd/port/esp-idf/chrono.h>
#include <deque>
#include <string>
#include <sstream>
#include <iomanip>
#include "pbt.h"

// the VDK port's mutex and the standard library's can't both be estd::mutex
#include <VDK.h>
namespace vdk {
#define estd estd_vdk
#include <estd/port/vdk/mutex.h>
#undef estd
}

// --- the devices -------------------------------------------------------------------------------
struct Wire
{
    std::string out;        // what the device was given and took
    std::deque<unsigned char> in, coming; // what a reader can have now, and what is still to come
    size_t room = (size_t)-1;
    size_t chunk = (size_t)-1;
    unsigned after = 0;     // how many times availability is asked before more comes

    size_t take(const char* s, size_t n)
    {
        size_t k = n < room ? n : room;
        if(k > chunk) k = chunk;
        out.append(s, k);
        if(room != (size_t)-1) room -= k;
        return k;
    }
    void poll()
    {
        if(coming.empty()) return;
        if(after) { --after; return; }
        in.push_back(coming.front());
        coming.pop_front();
    }
    size_t give(char* b, size_t n)
    {
        size_t k = 0;
        while(k < n && k < chunk && !in.empty()) { b[k++] = (char)in.front(); in.pop_front(); }
        return k;
    }
};

struct Device : Stream
{
    Wire w;
    unsigned reads = 0;
    size_t write(uint8_t c) override { char ch = (char)c; return w.take(&ch, 1); }
    size_t write(const uint8_t* b, size_t n) override { return w.take((const char*)b, n); }
    int available() override { w.poll(); return (int)w.in.size(); }
    int read() override { ++reads; if(w.in.empty()) return -1; int c = w.in.front(); w.in.pop_front(); return c; }
    int peek() override { return w.in.empty() ? -1 : w.in.front(); }
    size_t readBytes(char* b, size_t n) override { return w.give(b, n); }
};

static std::string bytes(pbt::Source& s, unsigned max)
{
    unsigned n = s.size(max);
    std::string r;
    for(unsigned i = 0; i < n; i++)
        r += s.one_in(4) ? s.pick({ '\xff', '\0', '\x80', '\xfe', '\x7f', '\n' }) : (char)s.choose(256);
    return r;
}

static std::string show(const std::string& t)
{
    std::ostringstream o;
    for(unsigned char c : t) { if(c >= 32 && c < 127 && c != '\\') o << c; else o << "\\x" << std::hex << std::setw(2) << std::setfill('0') << (int)c; }
    return o.str();
}

typedef std::char_traits<char> tr;

// --- writing through any stream buffer ----------------------------------------------------------
template <class SB>
static void writes(pbt::Source& s, SB& sb, Wire& w, bool limited, const char* what)
{
    std::string model = w.out;
    unsigned n = 1 + s.size(12);
    for(unsigned i = 0; i < n; i++)
    {
        const size_t room = w.room, chunk = w.chunk;
        if(s.flip())
        {
            char c = (char)(s.one_in(4) ? 0xff : s.choose(256));
            int r = sb.sputc(c);
            LOG(what << ".sputc(" << (int)(unsigned char)c << ") = " << r << "\n");
            if(room == 0 || chunk == 0) CHECK(r == tr::eof(), what << ": a device with no room took a byte");
            else { model += c; CHECK_EQ(r, tr::to_int_type(c), what << ": sputc"); s.nontrivial(); }
        }
        else
        {
            std::string t = bytes(s, 20);
            long r = sb.sputn(t.data(), t.size());
            LOG(what << ".sputn(" << show(t) << ") = " << r << "\n");
            size_t k = std::min(std::min(room, chunk), t.size());
            if(k) s.nontrivial();
            if(k < t.size()) s.label("short write");
            model.append(t, 0, k);
            CHECK_EQ(r, (long)k, what << ": sputn");
        }
        CHECK(w.out == model, what << ": the device has " << show(w.out) << ", not " << show(model));
        if(limited && s.one_in(4)) { w.room = s.choose(20); LOG("room for " << w.room << "\n"); }
    }
}

TARGET(arduino_print, 2)
{
    Device d;
    if(s.one_in(3)) d.w.room = s.choose(30);
    if(s.one_in(4)) d.w.chunk = 1 + s.choose(5);
    bool as_stream = s.flip();
    if(as_stream) { estd::arduino_streambuf sb(d); writes(s, sb, d.w, true, "streambuf"); CHECK(&sb.underlying() == &d, "another device"); }
    else { estd::arduino_ostreambuf sb(d); writes(s, sb, d.w, true, "ostreambuf"); CHECK(&sb.underlying() == &d, "another device"); }
}

// --- reading through a stream buffer ------------------------------------------------------------
TARGET(arduino_stream, 4)
{
    Device d;
    estd::arduino_streambuf sb(d);
    std::deque<unsigned char>& in = d.w.in;
    unsigned n = 1 + s.size(16);
    for(unsigned i = 0; i < n; i++)
    {
        std::deque<unsigned char> model = in;
        int next = model.empty() ? tr::eof() : model.front();
        switch(s.choose(9))
        {
        case 8:
        {
            estd::internal::impl::arduino_streambuf<estd::char_traits<char> > raw(d);
            unsigned k = s.choose(model.size() + 1);
            raw.gbump(k);
            LOG("gbump(" << k << ")\n");
            model.erase(model.begin(), model.begin() + k);
            break;
        }
        case 0:
        {
            std::string t = bytes(s, 10);
            LOG("arrives " << show(t) << "\n");
            for(unsigned char c : t) in.push_back(c);
            continue;
        }
        case 1: { int r = sb.sgetc(); LOG("sgetc() = " << r << "\n"); CHECK_EQ(r, next, "sgetc"); break; }
        case 2: { int r = sb.sbumpc(); LOG("sbumpc() = " << r << "\n"); CHECK_EQ(r, next, "sbumpc"); if(!model.empty()) model.pop_front(); break; }
        case 3:
        {
            int r = sb.snextc();
            LOG("snextc() = " << r << "\n");
            if(!model.empty()) model.pop_front();
            CHECK_EQ(r, model.empty() ? tr::eof() : model.front(), "snextc");
            break;
        }
        case 4:
        {
            unsigned k = s.size(12);
            char b[16]; memset(b, 'Z', sizeof b);
            if(s.one_in(4)) d.w.chunk = 1 + s.choose(4);
            long r = sb.sgetn(b, k);
            size_t want = std::min(std::min<size_t>(k, model.size()), d.w.chunk);
            d.w.chunk = (size_t)-1;
            LOG("sgetn(" << k << ") = " << r << "\n");
            CHECK_EQ(r, (long)want, "sgetn");
            for(size_t j = 0; j < want; j++) { CHECK_EQ((int)(unsigned char)b[j], (int)model.front(), "sgetn's byte " << j); model.pop_front(); }
            for(size_t j = want; j < sizeof b; j++) CHECK(b[j] == 'Z', "sgetn wrote past what it read");
            break;
        }
        case 5: { long r = sb.in_avail(); LOG("in_avail() = " << r << "\n"); CHECK_EQ(r, (long)model.size(), "in_avail"); break; }
        case 6: { int r = sb.underflow(); LOG("underflow() = " << r << "\n"); CHECK_EQ(r, next, "underflow"); break; }
        case 7:
        {
            int r = sb.uflow();
            LOG("uflow() = " << r << "\n");
            CHECK_EQ(r, next, "uflow");
            if(!model.empty()) model.pop_front();
            break;
        }
        }
        if(next != tr::eof()) s.nontrivial();
        if(next == 0xff) s.label("byte 255");
        CHECK(in == model, "what is left to read isn't what should be");
    }
}

// --- formatted and unformatted streams over the devices -----------------------------------------
template <class OS>
static void prints(pbt::Source& s, OS& os, Wire& w)
{
    std::ostringstream std_os;
    unsigned n = 1 + s.size(10);
    for(unsigned i = 0; i < n; i++)
    {
        switch(s.choose(8))
        {
        case 0: { int v = s.integer<int>(); os << v; std_os << v; LOG("<< " << v << "\n"); break; }
        case 1: { unsigned long v = s.integer<unsigned long>(); os << v; std_os << v; LOG("<< " << v << "\n"); break; }
        case 2: { char c = (char)s.choose(256); os << c; std_os << c; LOG("<< char " << (int)(unsigned char)c << "\n"); break; }
        case 3: { std::string t = s.text("ab \xff\x80z", 12); os << t.c_str(); std_os << t; LOG("<< " << show(t) << "\n"); break; }
        case 4: { std::string t = bytes(s, 12); os << estd::string_view(t.data(), t.size()); std_os << t; LOG("<< view " << show(t) << "\n"); break; }
        case 5: { std::string t = s.text("ab\xff z", 12); estd::layer1::string<16> v(t.c_str()); os << v; std_os << t; LOG("<< string " << show(t) << "\n"); break; }
        case 6: { std::string t = bytes(s, 12); os.write(t.data(), t.size()); std_os << t; LOG("write " << show(t) << "\n"); break; }
        case 7: { char c = (char)s.choose(256); os.put(c); std_os << c; LOG("put " << (int)(unsigned char)c << "\n"); break; }
        }
        CHECK(os.good(), "a device which takes everything made the stream fail");
    }
    if(w.out.size()) s.nontrivial();
    CHECK(w.out == std_os.str(), "the device was given " << show(w.out) << ", not " << show(std_os.str()));
}

TARGET(arduino_ostream, 3)
{
    Device d;
    estd::arduino_ostream os(d);
    prints(s, os, d.w);
    if(s.flip())
    {
        // strings in program memory
        std::string t = s.text("ab\xff z", 12), before = d.w.out;
        os << F(t.c_str());
        CHECK(d.w.out == before + t, "the device was given " << show(d.w.out) << ", not " << show(before + t));
    }
}

TARGET(arduino_full, 2)
{
    Device d;
    if(s.one_in(2)) d.w.room = s.choose(8); else d.w.room = 30;
    estd::arduino_ostream os(d);
    std::string model;
    size_t room = d.w.room;
    bool full = false;
    for(unsigned i = 0, n = 1 + s.size(8); i < n && !full; i++)
    {
        std::string t = bytes(s, 8);
        if(t.empty()) t = "x";
        if(s.flip()) os.write(t.data(), t.size());
        else for(char c : t) os.put(c);
        LOG("writes " << show(t) << "\n");
        full = t.size() > room;
        model += t.substr(0, room);
        room -= std::min(room, t.size());
        CHECK_EQ(os.good(), !full, "good() with " << (full ? "a full device" : "room left"));
    }
    if(full) s.nontrivial();
    CHECK(d.w.out == model, "the device was given " << show(d.w.out) << ", not " << show(model));
}

template <class IS>
static void reads(pbt::Source& s, IS& is, Wire& w, const std::string& all, bool file = false)
{
    // everything read, in order, is everything the device had
    std::istringstream std_is(all);
    unsigned n = 1 + s.size(10);
    size_t pos = 0;
    for(unsigned i = 0; i < n; i++)
    {
        if(pos + 8 >= all.size()) break;
        switch(s.choose(file ? 5 : 6))
        {
        case 0: { int a = is.get(), b = std_is.get(); LOG("get() = " << a << "\n"); CHECK_EQ(a, b, "get"); break; }
        case 1: { int a = is.peek(), b = std_is.peek(); LOG("peek() = " << a << "\n"); CHECK_EQ(a, b, "peek"); break; }
        case 2:
        {
            char a[8], b[8]; unsigned k = 1 + s.choose(7);
            is.read(a, k); std_is.read(b, k);
            LOG("read(" << k << ")\n");
            CHECK(is.good() == std_is.good() && std::string(a, k) == std::string(b, k), "read gave " << show(std::string(a, k)) << ", not " << show(std::string(b, k)));
            break;
        }
        case 3:
        {
            unsigned k = 1 + s.choose(6);
            int delim = s.flip() ? (unsigned char)all[s.choose(all.size())] : tr::eof();
            is.ignore(k, delim); std_is.ignore(k, delim);
            LOG("ignore(" << k << ", " << delim << ")\n");
            break;
        }
        case 4:
        {
            char a[8], b[8]; unsigned k = 2 + s.choose(6);
            char delim = all[s.choose(all.size())];
            is.getline(a, k, delim); std_is.getline(b, k, delim);
            LOG("getline(" << k << ", " << (int)delim << ")\n");
            CHECK(strcmp(a, b) == 0, "getline gave " << show(a) << ", not " << show(b));
            CHECK_EQ(is.fail(), std_is.fail(), "getline's fail()");
            is.clear(); std_is.clear();
            break;
        }
        case 5:
        {
            char a[8] = { 0 }; 
            size_t have = w.in.size();
            long r = is.readsome(a, 4);
            LOG("readsome() = " << r << "\n");
            CHECK(r >= 0 && (size_t)r <= std::min<size_t>(4, have + 1), "readsome gave " << r << " of " << have);
            CHECK((size_t)r >= std::min<size_t>(4, have), "readsome gave " << r << " of " << have);
            for(long j = 0; j < r; j++) CHECK_EQ((int)(unsigned char)a[j], std_is.get(), "readsome");
            break;
        }
        }
        s.nontrivial();
        pos = (size_t)std_is.tellg();
        if(!file) CHECK_EQ(all.size() - w.in.size() - w.coming.size(), pos, "how much of the device is read");
        CHECK(is.good(), "reading failed before the end");
    }
}

TARGET(arduino_istream, 3)
{
    Device d;
    std::string all = bytes(s, 40) + bytes(s, 40);
    for(unsigned char c : all) d.w.in.push_back(c);
    estd::arduino_istream is(d);
    reads(s, is, d.w, all);
}

// numbers which arrive a digit at a time
TARGET(arduino_numbers, 2)
{
    Device d;
    estd::arduino_istream is(d);
    std::string all;
    std::vector<long> v;
    for(unsigned i = 0, n = 1 + s.size(5); i < n; i++)
    {
        v.push_back(s.integer<short>());
        all += std::to_string(v.back()) + s.pick({ " ", "\n", "  " });
    }
    size_t now = s.choose(all.size() + 1);
    for(size_t i = 0; i < all.size(); i++) (i < now ? d.w.in : d.w.coming).push_back(all[i]);
    d.w.after = s.choose(4);
    LOG(show(all) << ", " << now << " of it at once\n");
    if(now < all.size()) s.label("waits");
    // a number may be read once what follows it is there
    for(size_t i = 0; i < v.size(); i++)
    {
        while(!d.w.coming.empty()) d.available();
        int got = 77;
        is >> got;
        CHECK(is.good(), "reading failed");
        CHECK_EQ((long)got, v[i], "number " << i);
        s.nontrivial();
    }
}

// a blocking reader waits for what is still to come
TARGET(arduino_waits, 1)
{
    Device d;
    std::string all = bytes(s, 8);
    if(all.empty()) all = "\xff";
    for(unsigned char c : all) d.w.coming.push_back(c);
    d.w.after = s.choose(6);
    estd::arduino_istream is(d);
    for(unsigned char c : all)
    {
        int p = is.peek();
        CHECK_EQ(p, (int)c, "peek");
        CHECK_EQ(is.get(), (int)c, "get after peek");
        s.nontrivial();
    }
    LOG(show(all) << "\n");
}

// --- text to and from the Arduino core's own types ----------------------------------------------
TARGET(print_text, 2)
{
    Device d;
    Print& p = d;
    std::string model;
    for(unsigned i = 0, n = 1 + s.size(6); i < n; i++)
    {
        std::string t = s.text("abc\xff 1", 14);
        switch(s.choose(5))
        {
        case 0: { estd::layer1::string<16> v(t.c_str()); p << v; break; }
        case 1: { std::string b = bytes(s, 14); t = b; p << estd::string_view(b.data(), b.size()); break; }
        case 2: { char b[16]; estd::layer2::string<16> v(b); v = t.c_str(); p << v; break; }
        case 3: { const estd::layer1::string<16, false> v(t.c_str()); p << v; break; }
        case 4: { int v = s.integer<int>(); t = std::to_string(v); p << v; break; }
        }
        LOG("<< " << show(t) << "\n");
        if(t.size()) s.nontrivial();
        model += t;
        CHECK(d.w.out == model, "the device was given " << show(d.w.out) << ", not " << show(model));
    }
}

template <class S>
static void appends(pbt::Source& s, S& v, size_t cap)
{
    std::string model;
    for(unsigned i = 0, n = 1 + s.size(6); i < n; i++)
    {
        std::string t = s.text("abc\xff 1", 12);
        if(cap > 300 && s.flip()) { t.resize(s.range(0, 600), 'q'); s.label("long text"); }
        if(model.size() + t.size() > cap) t = t.substr(0, cap - model.size());
        switch(s.choose(4))
        {
        case 0: v += F(t.c_str()); LOG("+= F(" << show(t) << ")\n"); break;
        case 1: { String a(t.data(), t.size()); v += a; LOG("+= String(" << show(t) << ")\n"); break; }
        case 2: v += t.c_str(); LOG("+= " << show(t) << "\n"); break;
        case 3: v = ""; t.clear(); model.clear(); LOG("= \"\"\n"); break;
        }
        if(model.size() && t.size()) s.nontrivial();
        model += t;
        CHECK_EQ(v.size(), model.size(), "size()");
        const char* p = v.clock();
        std::string got(p, v.size());
        v.cunlock();
        CHECK(got == model, "the string is " << show(got) << ", not " << show(model));
    }
}

#ifndef __clang__ // which finds the operators ambiguous; Arduino builds with gcc
TARGET(append_text, 3)
{
    switch(s.choose(5))
    {
    case 0: { estd::layer1::string<24> v; appends(s, v, 23); break; }
    case 3: { estd::layer1::string<700, false> v; appends(s, v, 700); break; }
    case 4: { estd::layer1::string<700> v; appends(s, v, 699); break; }
    case 1: { estd::layer1::string<24, false> v; appends(s, v, 24); break; }
    case 2: { char b[24]; estd::layer2::string<24> v(b); v = ""; appends(s, v, 23); break; }
    }
}
#endif

// --- a C FILE -----------------------------------------------------------------------------------
static ssize_t file_read(void* c, char* b, size_t n) { return (ssize_t)((Wire*)c)->give(b, n); }
static ssize_t file_write(void* c, const char* b, size_t n) { return (ssize_t)((Wire*)c)->take(b, n); }

struct File
{
    FILE* f;
    File(Wire& w, const char* mode, bool buffered)
    {
        cookie_io_functions_t io = { file_read, file_write, nullptr, nullptr };
        f = fopencookie(&w, mode, io);
        if(!buffered) setvbuf(f, nullptr, _IONBF, 0);
    }
    ~File() { fclose(f); }
};

TARGET(file_write_buf, 2)
{
    Wire w;
    bool buffered = s.flip();
    {
        File f(w, "w", buffered);
        estd::posix_streambuf<char> sb(*f.f);
        if(buffered)
        {
            Wire shadow;
            std::string model;
            for(unsigned i = 0, n = 1 + s.size(10); i < n; i++)
            {
                std::string t = bytes(s, 20);
                if(s.flip()) { t = t.empty() ? "\xff" : t.substr(0, 1); CHECK_EQ(sb.sputc(t[0]), tr::to_int_type(t[0]), "sputc"); }
                else CHECK_EQ(sb.sputn(t.data(), t.size()), (long)t.size(), "sputn");
                model += t;
                LOG("writes " << show(t) << "\n");
            }
            fflush(f.f);
            if(model.size()) s.nontrivial();
            CHECK(w.out == model, "the file was given " << show(w.out) << ", not " << show(model));
        }
        else writes(s, sb, w, false, "posix");
    }
}

TARGET(file_ostream, 2)
{
    Wire w;
    File f(w, "w", false);
    estd::posix_ostream<char> os(*f.f);
    prints(s, os, w);
}

TARGET(file_read_buf, 3)
{
    Wire w;
    std::string all = bytes(s, 24);
    for(unsigned char c : all) w.in.push_back(c);
    if(s.one_in(3)) w.chunk = 1 + s.choose(4);
    File f(w, "r", s.flip());
    estd::posix_streambuf<char> sb(*f.f);
    size_t pos = 0;
    LOG("file: " << show(all) << "\n");
    for(unsigned i = 0, n = 1 + s.size(16); i < n; i++)
    {
        int next = pos < all.size() ? (unsigned char)all[pos] : tr::eof();
        switch(s.choose(4))
        {
        case 0: { int r = sb.sgetc(); LOG("sgetc() = " << r << "\n"); CHECK_EQ(r, next, "sgetc"); break; }
        case 1: { int r = sb.sbumpc(); LOG("sbumpc() = " << r << "\n"); CHECK_EQ(r, next, "sbumpc"); if(pos < all.size()) pos++; break; }
        case 2:
        {
            int r = sb.snextc();
            LOG("snextc() = " << r << "\n");
            if(pos < all.size()) pos++;
            CHECK_EQ(r, pos < all.size() ? (int)(unsigned char)all[pos] : tr::eof(), "snextc");
            break;
        }
        case 3:
        {
            char b[16]; unsigned k = s.size(12);
            memset(b, 'Z', sizeof b);
            long r = sb.sgetn(b, k);
            LOG("sgetn(" << k << ") = " << r << "\n");
            size_t want = std::min<size_t>(k, all.size() - pos);
            CHECK_EQ(r, (long)want, "sgetn");
            CHECK(std::string(b, want) == all.substr(pos, want), "sgetn read " << show(std::string(b, want)));
            pos += want;
            break;
        }
        }
        if(next != tr::eof()) s.nontrivial();
        if(next == 0xff) s.label("byte 255");
    }
}

TARGET(file_istream, 2)
{
    Wire w;
    std::string all = bytes(s, 40) + bytes(s, 40);
    for(unsigned char c : all) w.in.push_back(c);
    if(s.one_in(3)) w.chunk = 1 + s.choose(4);
    File f(w, "r", s.flip());
    estd::posix_istream<char> is(*f.f);
    reads(s, is, w, all, true);
}

// --- a Pico stdio driver ------------------------------------------------------------------------
static Wire* pico_wire;
static int pico_error = PICO_ERROR_NO_DATA;
static void pico_out(const char* b, int n) { pico_wire->out.append(b, n); }
static int pico_in(char* b, int n) { size_t k = pico_wire->give(b, n); return k ? (int)k : pico_error; }
static stdio_driver_t pico_driver = { pico_out, nullptr, pico_in, nullptr };

template <class SB>
static void pico_reads(pbt::Source& s, SB& sb, Wire& w)
{
    for(unsigned i = 0, n = 1 + s.size(14); i < n; i++)
    {
        std::deque<unsigned char> model = w.in;
        int next = model.empty() ? tr::eof() : model.front();
        switch(s.choose(3))
        {
        case 0: { std::string t = bytes(s, 8); for(unsigned char c : t) w.in.push_back(c); LOG("arrives " << show(t) << "\n"); continue; }
        case 1: { int r = sb.sbumpc(); LOG("sbumpc() = " << r << "\n"); CHECK_EQ(r, next, "sbumpc"); if(!model.empty()) model.pop_front(); break; }
        case 2:
        {
            char b[16]; unsigned k = 1 + s.size(11);
            memset(b, 'Z', sizeof b);
            long r = sb.sgetn(b, k);
            LOG("sgetn(" << k << ") = " << r << "\n");
            size_t want = std::min<size_t>(k, model.size());
            CHECK_EQ(r, (long)want, "sgetn");
            for(size_t j = 0; j < want; j++) { CHECK_EQ((int)(unsigned char)b[j], (int)model.front(), "sgetn's byte " << j); model.pop_front(); }
            break;
        }
        }
        if(next != tr::eof()) s.nontrivial();
        if(next == 0xff) s.label("byte 255");
        CHECK(w.in == model, "what is left to read isn't what should be");
    }
}

TARGET(pico_streambuf, 3)
{
    Wire w;
    pico_wire = &w;
    pico_error = s.pick({ PICO_ERROR_NO_DATA, PICO_ERROR_TIMEOUT, PICO_ERROR_GENERIC });
    if(s.flip()) { estd::basic_pico_stdio_streambuf<char> sb(pico_driver); s.flip() ? writes(s, sb, w, false, "pico") : pico_reads(s, sb, w); }
    else { estd::basic_pico_stdio_streambuf<char, &pico_driver> sb; s.flip() ? writes(s, sb, w, false, "pico") : pico_reads(s, sb, w); }
}

TARGET(pico_ostream, 2)
{
    Wire w;
    pico_wire = &w;
    if(s.flip()) { estd::pico_ostream os(pico_driver); prints(s, os, w); }
    else { estd::basic_pico_ostream<char, &pico_driver> os; prints(s, os, w); }
}

// --- clocks and delays --------------------------------------------------------------------------
static uint64_t ticks;
static std::vector<uint64_t> delays;
static unsigned yields;
unsigned long millis() { return (unsigned long)ticks; }
void delay(unsigned long v) { delays.push_back(v); }
void yield() { ++yields; }
uint64_t time_us_64() { return ticks; }
void sleep_us(uint64_t v) { delays.push_back(v); }
void sleep_until(absolute_time_t v) { delays.push_back(v); }
int64_t esp_timer_get_time() { return (int64_t)ticks; }
uint64_t esp_rtc_get_time_us() { return ticks; }

template <class Clock, class Period>
static void ticking(pbt::Source& s, const char* what)
{
    namespace ch = estd::chrono;
    static_assert((long)Clock::period::num * Period::den == (long)Clock::period::den * Period::num, "the clock's period");
    ticks = s.integer<uint64_t>() >> 2;
    const uint64_t a = ticks;
    typename Clock::time_point t = Clock::now();
    CHECK_EQ((uint64_t)t.time_since_epoch().count(), a, what << ": now()");
    uint64_t d = s.integer<uint32_t>();
    ticks += d;
    typename Clock::time_point u = Clock::now();
    LOG(what << " at " << a << ", " << d << " ticks later\n");
    CHECK_EQ((uint64_t)(u - t).count(), d, what << ": the time between two readings");
    CHECK(d ? t < u : t == u, what << ": order of two readings");
    CHECK(u >= t && u == t + typename Clock::duration(d), what << ": a time and a duration");
    CHECK_EQ((uint64_t)ch::duration_cast<estd::chrono::milliseconds>(u - t).count(), d * 1000 * Period::num / Period::den, what << ": in milliseconds");
    if(d) s.nontrivial();
}

TARGET(clocks, 2)
{
    switch(s.choose(4))
    {
    case 0: ticking<estd::chrono::arduino_clock, std::milli>(s, "arduino_clock"); break;
    case 1: ticking<estd::chrono::experimental::pico_clock, std::micro>(s, "pico_clock"); break;
    case 2: ticking<estd::chrono::esp_clock, std::micro>(s, "esp_clock"); break;
    case 3: ticking<estd::chrono::esp_rtc_clock, std::micro>(s, "esp_rtc_clock"); break;
    }
}

TARGET(sleeps, 2)
{
    delays.clear();
    yields = 0;
    uint64_t v = s.integer<uint32_t>(), want = v;
    if(s.one_in(3)) want = v = s.integer<uint64_t>() >> 13; // however long; still exact as microseconds
    switch(s.choose(8))
    {
    case 0: estd::this_thread::sleep_for(estd::chrono::milliseconds(v)); break;
    case 1: v &= 0xfffff; want = v * 1000; estd::this_thread::sleep_for(estd::chrono::seconds(v)); break;
    case 2: want = v / 1000; estd::this_thread::sleep_for(estd::chrono::microseconds(v)); break;
    case 3: estd::this_core::sleep_for(estd::chrono::experimental::pico_duration_us(v)); break;
    case 4: want = v * 1000; estd::this_core::sleep_for(estd::chrono::milliseconds(v)); break;
    case 5: estd::this_core::sleep_until(estd::chrono::experimental::pico_clock::time_point(estd::chrono::experimental::pico_duration_us(v))); break;
    case 6: v &= 0xfffff; want = v * 60000; estd::this_thread::sleep_for(estd::chrono::minutes(v)); break;
    case 7: estd::this_thread::yield(); CHECK(yields == 1 && delays.empty(), "yield"); return;
    }
    if(want) s.nontrivial();
    LOG("sleeps " << v << "\n");
    CHECK_EQ(delays.size(), (size_t)1, "how often it slept");
    CHECK_EQ(delays[0], want, "how long it slept");
}

// --- a mutex of the platform's ------------------------------------------------------------------
static std::vector<std::pair<char, unsigned>> mutex_calls;
static unsigned mutex_next;
namespace VDK {
MutexID CreateMutex() { mutex_calls.push_back({ 'c', mutex_next }); return mutex_next++; }
void DestroyMutex(MutexID m) { mutex_calls.push_back({ 'd', m }); }
void AcquireMutex(MutexID m) { mutex_calls.push_back({ 'a', m }); }
void ReleaseMutex(MutexID m) { mutex_calls.push_back({ 'r', m }); }
}

TARGET(vdk_mutex, 1)
{
    std::vector<std::pair<char, unsigned>> model;
    mutex_calls.clear();
    mutex_next = s.choose(5);
    const unsigned first = mutex_next;
    {
        vdk::estd_vdk::mutex m[3];
        for(unsigned i = 0; i < 3; i++) model.push_back({ 'c', first + i });
        bool held[3] = {};
        for(unsigned i = 0, n = s.size(10); i < n; i++)
        {
            unsigned k = s.choose(3);
            if(held[k]) m[k].unlock(); else m[k].lock();
            model.push_back({ held[k] ? 'r' : 'a', first + k });
            held[k] = !held[k];
            LOG((held[k] ? "lock " : "unlock ") << k << "\n");
            s.nontrivial();
        }
    }
    for(unsigned i = 3; i-- > 0;) model.push_back({ 'd', first + i });
    CHECK(mutex_calls == model, "the platform's mutexes weren't used as asked");
}
