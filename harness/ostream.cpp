// C04: formatted output: numbers in every base, width, fill, alignment; what reaches the sink and what state is left
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/iomanip.h>
#include <estd/locale.h>
#include "pbt.h"
#include <cstring>
#include <limits>
#include <string>
#include <memory>

namespace {
// letters and blanks, at times any character but NUL
std::string letters(pbt::Source& s, unsigned max) { std::string t = s.text("xyz \n%-0", max); for (char& c : t) if (s.one_in(8)) c = (char)(1 + s.choose(255)); return t; }


using estd::ios_base;
enum { FAIL = 2, EOFB = 4, BAD = 1 };

template <class T> std::string digits(T v, unsigned base, bool upper)
{
    bool neg = v < 0; unsigned __int128 m = neg ? (unsigned __int128)(-(__int128)v) : (unsigned __int128)v;
    const char* const set = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    std::string r; do { r.insert(r.begin(), set[(unsigned)(m % base)]); m /= base; } while (m);
    return (neg ? "-" : "") + r;
}
template <class T> T any_int(pbt::Source& s) { return s.integer<T>(); }

// a sink that takes so many characters and remembers how much was flushed
struct Sink { std::string got; size_t room; size_t flushed = 0; unsigned flushes = 0; int sync_result = 0; };
struct SinkImpl : estd::internal::impl::streambuf_base<estd::char_traits<char> >
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char> > base;
    typedef base::traits_type traits_type; typedef char char_type; typedef base::int_type int_type; typedef base::pos_type pos_type; typedef base::off_type off_type;
    Sink* k;
    explicit SinkImpl(Sink* k) : k(k) {}
    estd::streamsize xsputn(const char* p, estd::streamsize n)
    {
        CHECK(n >= 0, "negative count written");
        size_t left = k->room - k->got.size(); if ((size_t)n > left) n = (estd::streamsize)left;
        k->got.append(p, (size_t)n); return n;
    }
    int_type sputc(char c) { char b = c; return xsputn(&b, 1) ? traits_type::to_int_type(c) : traits_type::eof(); }
    int sync() { k->flushed = k->got.size(); k->flushes++; return k->sync_result; }
    pos_type seekoff(off_type, estd::ios_base::seekdir, estd::ios_base::openmode) { return (pos_type)(off_type)k->got.size(); }
};
typedef estd::detail::streambuf<SinkImpl> SinkBuf;

struct Model
{
    std::string out; size_t room; unsigned st = 0, base = 10, width = 0; bool upper = false, left = false, unit = false; char fill = ' ';
    void block(const std::string& t) { size_t n = std::min(t.size(), room - out.size()); out += t.substr(0, n); if (n < t.size()) st |= FAIL; }
    void one(char c) { if (out.size() < room) out += c; else st |= EOFB; }
};

template <class T, class Str> void put_int(pbt::Source& s, Str& out, Model& m, const char* tn)
{
    T v = any_int<T>(s);
    std::string t = digits(v, m.base, m.upper);
    LOG("<< " << tn << " " << digits(v, 10, false));
    unsigned pad = m.width > t.size() ? m.width - (unsigned)t.size() : 0;
    if (!m.left) for (unsigned i = 0; i < pad; i++) m.one(m.fill);
    m.block(t);
    if (m.left) for (unsigned i = 0; i < pad; i++) m.one(m.fill);
    m.width = 0;
    out << v;
    if (pad) s.label("padded");
}
template <class Str> void any_int_put(pbt::Source& s, Str& out, Model& m)
{
    switch (s.choose(10))
    {
        case 0: put_int<short>(s, out, m, "short"); break;
        case 1: put_int<unsigned short>(s, out, m, "unsigned short"); break;
        case 2: put_int<int>(s, out, m, "int"); break;
        case 3: put_int<unsigned>(s, out, m, "unsigned"); break;
        case 4: put_int<long>(s, out, m, "long"); break;
        case 5: put_int<unsigned long>(s, out, m, "unsigned long"); break;
        case 6: put_int<long long>(s, out, m, "long long"); break;
        case 7: put_int<unsigned long long>(s, out, m, "unsigned long long"); break;
        case 8: put_int<signed char>(s, out, m, "signed char"); break;
        default: put_int<unsigned char>(s, out, m, "unsigned char"); break;
    }
}

struct MyManip : estd::detail::ostream_functor_tag { int v; explicit MyManip(int v) : v(v) {} template <class A, class B> void operator()(estd::detail::basic_ostream<A, B>& o) const { o << v; o << ';'; } };

// ref_: void* is only printable to the plain instantiation
template <class Str, class See, class Flushes>
void ops(pbt::Source& s, Str& out, Model& m, See see, Flushes flushed, bool sink)
{
    unsigned steps = 1 + s.size(18), shown = 0; bool formatted = false;
    for (unsigned i = 0; i < steps; i++)
    {
        const size_t before = m.out.size(); const unsigned st0 = m.st;
        bool wrote = false, flushes = false;
        switch (s.choose(18))
        {
            case 0: case 1: case 2: case 3:
                if (s.one_in(3)) { unsigned w = (unsigned)s.choose(16); LOG("setw " << w); m.width = w; out << estd::setw(w); }
                if (m.width || m.base != 10) formatted = true;
                any_int_put(s, out, m); wrote = true; shown++; break;
            case 4: case 5:
            {
                char c = s.one_in(8) ? (char)0xff : s.one_in(8) ? (char)0x80 : (char)(' ' + s.choose(95));
                LOG("<< char " << (int)c);
                for (unsigned k = 1; k < m.width; k++) m.one(m.fill);
                m.one(c); m.width = 0;
                out << c; wrote = true; shown++;
                break;
            }
            case 6:
            {
                std::string t = letters(s, 8); LOG("<< text " << pbt::quote(t));
                std::unique_ptr<char[]> z(new char[t.size() + 1]); memcpy(z.get(), t.c_str(), t.size() + 1);
                m.block(t); out << (const char*)z.get(); wrote = true; shown++;
                break;
            }
            case 7:
            {
                std::string t = letters(s, 12); LOG("<< estd string " << pbt::quote(t));
                estd::layer1::string<16> v = t.c_str();
                m.block(t); out << v; wrote = true; shown++;
                break;
            }
            case 8:
            {
                std::string t = letters(s, 12); LOG("<< view " << pbt::quote(t));
                std::unique_ptr<char[]> z(new char[t.size()]); memcpy(z.get(), t.data(), t.size());
                m.block(t); out << estd::string_view(z.get(), t.size()); wrote = true; shown++;
                break;
            }
            case 9:
            {
                std::string t = letters(s, 20); LOG("write " << pbt::quote(t));
                std::unique_ptr<char[]> z(new char[t.size()]); memcpy(z.get(), t.data(), t.size());
                m.block(t); out.write(z.get(), (long)t.size()); wrote = true;
                break;
            }
            case 10: { char c = (char)s.bits(8); if (!sink && !c) c = 'n'; LOG("put " << (int)c); m.one(c); out.put(c); wrote = true; break; }
            case 11: { unsigned w = (unsigned)s.choose(16); LOG("width " << w); m.width = w; if (s.flip()) out << estd::setw(w); else out.width((int)w); break; }
            case 12: { char c = (char)(0x20 + s.choose(64)); LOG("fill " << (int)c); CHECK_EQ((int)out.fill(), (int)m.fill, "fill()"); m.fill = c; if (s.flip()) out << estd::setfill(c); else out.fill(c); break; }
            case 13:
            {
                m.base = (unsigned)s.pick({10, 16, 8}); LOG("base " << m.base);
                switch (s.choose(4))
                {
                    case 0: out << estd::setbase((int)m.base); break;
                    case 3: { int b = (int)s.pick({0, 2, 7, 9, 11, 15, 17, 32, -1, -8, 36}); LOG("no base: " << b); out << estd::setbase(b); CHECK((out.flags() & ios_base::basefield) == ios_base::fmtflags(0), "a base other than 8, 10, 16 leaves base flags"); m.base = 10; break; }
                    case 1: out.setf(m.base == 10 ? ios_base::dec : m.base == 16 ? ios_base::hex : ios_base::oct, ios_base::basefield); break;
                    default: if (m.base == 16) out << estd::hex; else if (m.base == 10) out << estd::dec; else out << estd::setbase(8);
                }
                break;
            }
            case 14: m.upper = s.flip(); LOG("uppercase " << m.upper); if (m.upper) out.setf(ios_base::uppercase); else out.unsetf(ios_base::uppercase); break;
            case 15: m.left = s.flip(); LOG((m.left ? "left" : "right")); out.setf(m.left ? ios_base::left : ios_base::right, ios_base::adjustfield); break;
            case 16:
                if (s.flip()) { LOG("endl"); m.one('\n'); out << estd::endl; flushes = true; wrote = true; }
                else { LOG("flush"); out.flush(); flushes = true; }
                break;
            default:
                switch (s.choose(4))
                {
                    case 0: m.unit = s.flip(); LOG("unitbuf " << m.unit); if (m.unit) estd::unitbuf(out); else estd::nounitbuf(out); break;
                    case 1: LOG("clear"); out.clear(); m.st = 0; break;
                    case 2: { long p = (long)out.tellp(); CHECK_EQ(p, (m.st & FAIL) ? -1L : (long)m.out.size(), "tellp"); break; }
                    default: { int v = (int)s.choose(300); LOG("<< manipulator " << v);
                        std::string t = digits(v, m.base, m.upper); unsigned pad = m.width > t.size() ? m.width - (unsigned)t.size() : 0;
                        if (!m.left) while (pad) { m.one(m.fill); pad--; }
                        m.block(t); while (pad) { m.one(m.fill); pad--; }
                        m.width = 0; m.one(';'); out << MyManip(v); wrote = true; break; }
                }
        }
        std::string got = see();
        CHECK(got == m.out, "output is " << pbt::quote(got) << " expected " << pbt::quote(m.out));
        CHECK_EQ((unsigned)out.rdstate(), m.st, "state (1 bad, 2 fail, 4 end)");
        CHECK_EQ((unsigned)out.width(), m.width, "width()");
        CHECK_EQ(out.good(), m.st == 0, "good()"); CHECK_EQ((bool)out, !(m.st & (FAIL | BAD)), "operator bool");
        if (sink && (flushes || (m.unit && wrote && m.st == 0))) CHECK_EQ(flushed(), m.out.size(), "flushed");
        (void)before; (void)st0;
    }
    if (shown >= 3 && formatted) s.nontrivial();
    if (m.st) s.label("sink ran out");
}
size_t room_for(pbt::Source& s, size_t max) { return s.one_in(3) ? s.choose(max) : max; }

void to_sink(pbt::Source& s)
{
    Sink k; k.room = s.one_in(3) ? s.choose(40) : 100000; Model m; m.room = k.room;
    LOG("room " << k.room);
    SinkBuf b(&k); estd::detail::basic_ostream<SinkBuf&> out(b);
    ops(s, out, m, [&] { return k.got; }, [&] { return k.flushed; }, true);
}
void to_sink_own(pbt::Source& s)
{
    Sink k; k.room = s.one_in(3) ? s.choose(40) : 100000; Model m; m.room = k.room;
    LOG("room " << k.room);
    estd::detail::basic_ostream<SinkBuf> out(&k);
    ops(s, out, m, [&] { return k.got; }, [&] { return k.flushed; }, true);
}
template <unsigned Cap> void to_string_stream(pbt::Source& s)
{
    Model m; m.room = Cap - 1;
    typedef estd::layer1::ostringstream<Cap> S;
    std::unique_ptr<S> out(new S);
    ops(s, *out, m, [&] { auto& x = out->rdbuf()->str(); return std::string(x.data(), (size_t)x.size()); }, [] { return (size_t)0; }, false);
}
void s128(pbt::Source& s) { to_string_stream<128>(s); }
void s12(pbt::Source& s) { to_string_stream<12>(s); }
void to_span(pbt::Source& s)
{
    size_t n = s.choose(s.flip() ? 20 : 200); Model m; m.room = n; LOG("room " << n);
    std::unique_ptr<char[]> mem(new char[n]);
    estd::detail::ospanstream out(estd::span<char>(mem.get(), n));
    ops(s, out, m, [&] { return std::string(mem.get(), m.out.size()); }, [] { return (size_t)0; }, false);
}
void pointer(pbt::Source& s)
{
    uintptr_t v = s.integer<uintptr_t>(); if (!v) v = 1;
    Model m; m.room = 63; estd::layer1::ostringstream<64> out;
    LOG("pointer " << v);
    unsigned base = (unsigned)s.pick({10, 16, 8}); out << estd::setbase((int)base);
    int a = s.integer<int>();
    out << (void*)v << ',' << a;
    std::string want = digits(v, 16, true) + "," + digits(a, base, false);
    CHECK(std::string(out.rdbuf()->str().data()) == want, "pointer prints as " << out.rdbuf()->str().data() << " expected " << want);
    if (v > 0xffff) s.nontrivial();
}
// ---------------------------------------------------------------- num_put straight to memory
template <class T> void facet(pbt::Source& s, const char* tn)
{
    T v = any_int<T>(s); unsigned base = (unsigned)s.pick({10, 16, 8}), w = (unsigned)s.choose(16); bool upper = s.flip(), left = s.flip(), unadjusted = !left && s.flip(); char fill = (char)s.bits(8);
    LOG(tn << " " << digits(v, 10, false) << " base " << base << " width " << w << (left ? " left" : unadjusted ? " unadjusted" : " right") << (upper ? " upper" : "") << " fill " << (int)fill);
    estd::layer1::ostringstream<4> fmt;
    fmt.setf(base == 10 ? ios_base::dec : base == 16 ? ios_base::hex : ios_base::oct, ios_base::basefield);
    fmt.setf(left ? ios_base::left : ios_base::right, ios_base::adjustfield); if (unadjusted) fmt.unsetf(ios_base::adjustfield); if (upper) fmt.setf(ios_base::uppercase);
    fmt.width((int)w);
    std::string t = digits(v, base, upper), want = t;
    while (want.size() < w) { if (left) want += fill; else want.insert(want.begin(), fill); }
    std::unique_ptr<char[]> mem(new char[want.size()]);
    char* e = estd::num_put<char, char*>::put(mem.get(), fmt, fill, v);
    CHECK_EQ((size_t)(e - mem.get()), want.size(), "length written");
    CHECK(!memcmp(mem.get(), want.data(), want.size()), "num_put wrote " << pbt::quote(std::string(mem.get(), want.size())) << " expected " << pbt::quote(want));
    if (want.size() > t.size() && t.size() > 1) s.nontrivial();
}
void facets(pbt::Source& s)
{
    switch (s.choose(9))
    {
        case 0: facet<short>(s, "short"); break;
        case 1: facet<unsigned short>(s, "unsigned short"); break;
        case 2: facet<int>(s, "int"); break;
        case 3: facet<unsigned>(s, "unsigned"); break;
        case 4: facet<long>(s, "long"); break;
        case 5: facet<unsigned long long>(s, "unsigned long long"); break;
        case 6: facet<signed char>(s, "signed char"); break;
        case 7: facet<unsigned char>(s, "unsigned char"); break;
        default:
        {
            bool v = s.flip(), alpha = s.flip(); estd::layer1::ostringstream<4> fmt; if (alpha) fmt.setf(ios_base::boolalpha);
            LOG("bool " << v << " alpha " << alpha);
            char mem[16]; memset(mem, 0x5a, 16);
            char* e = estd::num_put<char, char*>::put(mem, fmt, ' ', v);
            std::string got(mem, (size_t)(e - mem)); CHECK(got == (alpha ? v ? "true" : "false" : v ? "1" : "0"), "bool prints as " << got);
        }
    }
}

}

TARGET_FN("sink", 3, to_sink);
TARGET_FN("sink_own", 1, to_sink_own);
TARGET_FN("string_128", 2, s128);
TARGET_FN("string_12", 2, s12);
TARGET_FN("span", 2, to_span);
TARGET_FN("pointer", 1, pointer);
TARGET_FN("num_put", 2, facets);
