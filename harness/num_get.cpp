// Locale driven numeric input: num_get facets (one-shot and character at a time) against a reference parser.
#include <estd/algorithm.h>
#include <estd/iterator.h>
#include <estd/locale.h>
#include <estd/sstream.h>
#include "pbt.h"
#include <cmath>
#include <memory>

namespace {

enum { GOOD = 0, FAIL = 2, EOFB = 4 };
struct Model { __int128 v = 0; unsigned state = 0; size_t end = 0; bool overflow = false; unsigned ndig = 0; };

int digit_of(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }

template <class T> Model parse(const std::string& in, int base)
{
    Model m; size_t i = 0; bool neg = false;
    if (std::is_signed<T>::value && i < in.size() && in[i] == '-') { neg = true; i++; }
    for (; i < in.size() && digit_of(in[i]) < base; i++)
    {
        m.ndig++;
        if (m.overflow) continue;
        m.v = m.v * base + (neg ? -digit_of(in[i]) : digit_of(in[i]));
        if (m.v > (__int128)std::numeric_limits<T>::max()) { m.v = std::numeric_limits<T>::max(); m.overflow = true; }
        if (m.v < (__int128)std::numeric_limits<T>::min()) { m.v = std::numeric_limits<T>::min(); m.overflow = true; }
    }
    m.end = i;
    if (i == in.size()) m.state |= EOFB;
    if (!m.ndig || m.overflow) m.state |= FAIL;
    return m;
}

template <class T> std::string int_text(pbt::Source& s, int base)
{
    static const char lower[] = "0123456789abcdef", upper[] = "0123456789ABCDEF";
    std::string r;
    if (s.one_in(3) && std::is_signed<T>::value) r += '-';
    switch (s.choose(4))
    {
        case 0: { // near a limit
            unsigned __int128 m = s.flip() ? (unsigned __int128)std::numeric_limits<T>::max() : (unsigned __int128)-(__int128)std::numeric_limits<T>::min();
            m = m + s.choose(5); m = m >= 2 ? m - 2 : m; if (s.one_in(3)) m = m * base + s.choose(base);
            std::string d; do { d.insert(d.begin(), lower[(unsigned)(m % base)]); m /= base; } while (m); r += d; break; }
        case 1: { unsigned n = s.size(30); while (n--) r += lower[s.choose(base)]; break; }
        case 2: { unsigned n = s.size(8); while (n--) r += (s.flip() ? upper : lower)[s.choose(base)]; break; }
        default: { unsigned n = s.size(6); while (n--) r += lower[s.choose(16)]; break; }
    }
    if (s.one_in(2)) { r += s.pick(" /,.-gG:@`z\n"); unsigned n = s.size(3); while (n--) r += lower[s.choose(16)]; }
    return r;
}

typedef estd::detail::basic_istream<estd::layer1::stringbuf<4>> fmt_type;

template <class T> void ints(pbt::Source& s, const char* tn)
{
    int base = s.pick({10, 16, 8});
    std::string in = int_text<T>(s, base);
    T init = s.integer<T>();
    LOG(tn << " base " << base << " text " << pbt::quote(in));
    Model m = parse<T>(in, base);
    fmt_type fmt; auto flag = base == 10 ? estd::ios_base::dec : base == 16 ? estd::ios_base::hex : estd::ios_base::oct;
    fmt.setf(flag, estd::ios_base::basefield);
    std::unique_ptr<char[]> buf(new char[in.size()]); std::copy(in.begin(), in.end(), buf.get());
    const char *b = buf.get(), *e = b + in.size();
    {
        T v = init; estd::ios_base::iostate st = 0; estd::num_get<char, const char*> n;
        const char* r = n.get(b, e, fmt, st, v);
        CHECK_EQ((unsigned)st, m.state, "num_get state (2 fail, 4 eof)");
        CHECK(v == (T)m.v, "num_get value " << pbt::show(v) << " expected " << pbt::show((T)m.v));
        CHECK_EQ((size_t)(r - b), m.end, "num_get stopping point");
    }
    {   // flags-only flavour
        T v = init; estd::ios_base::iostate st = 0; estd::num_get<char, const char*, estd::locale::classic_type> n;
        const char* r = n.get(b, e, base == 10 && s.flip() ? estd::ios_base::fmtflags(fmt.flags() & ~estd::ios_base::basefield) : fmt.flags(), st, v);
        CHECK_EQ((unsigned)st, m.state, "num_get(flags) state"); CHECK(v == (T)m.v, "num_get(flags) value " << pbt::show(v)); CHECK_EQ((size_t)(r - b), m.end, "num_get(flags) stopping point");
    }
    {   // one character at a time; consumes the delimiter as well
        T v = init; estd::ios_base::iostate st = 0; const char* i = b; bool done; unsigned steps = 0;
        auto go = [&](auto& n) { do { done = n.get(i, e, st, v); CHECK(++steps <= in.size() + 1, "iterated num_get does not finish"); } while (!done); };
        if (base == 10) { estd::iterated::num_get<10, char, estd::locale::classic_type> n; go(n); }
        else if (base == 16) { estd::iterated::num_get<16, char, estd::locale::classic_type> n; go(n); }
        else { estd::iterated::num_get<8, char, estd::locale::classic_type> n; go(n); }
        CHECK_EQ((unsigned)st, m.state, "iterated num_get state"); CHECK(v == (T)m.v, "iterated num_get value " << pbt::show(v));
        CHECK_EQ((size_t)(i - b), m.end + (m.end < in.size() ? 1 : 0), "iterated num_get consumption");
    }
    if (in.size() <= 40)
    {   // through stream buffer iterators
        typedef estd::layer1::stringbuf<64> sb_t; typedef estd::istreambuf_iterator<sb_t> it_t;
        if (in.find('\0') == std::string::npos)
        {
            sb_t sb(in.c_str()); it_t it(sb), end; T v = init; estd::ios_base::iostate st = 0; estd::num_get<char, it_t> n;
            auto r = n.get(it, end, fmt, st, v);
            CHECK_EQ((unsigned)st, m.state, "num_get over a stream buffer: state"); CHECK(v == (T)m.v, "num_get over a stream buffer: value " << pbt::show(v));
            CHECK_EQ(r == end, m.end == in.size(), "num_get over a stream buffer: at end");
            if (m.end < in.size()) CHECK_EQ((char)*r, in[m.end], "num_get over a stream buffer: next character");
        }
    }
    if (m.overflow) s.label("overflow");
    if (m.ndig == 0) s.label("no_digits");
    if (m.end < in.size()) s.label("delimiter");
    if (m.v < 0) s.label("negative");
    if (m.ndig > 1) s.nontrivial();
}

TARGET(num_get_int, 4)
{
    switch (s.choose(8))
    {
        case 0: return ints<int>(s, "int");
        case 1: return ints<unsigned>(s, "unsigned");
        case 2: return ints<long>(s, "long");
        case 3: return ints<unsigned long>(s, "unsigned long");
        case 4: return ints<short>(s, "short");
        case 5: return ints<unsigned short>(s, "unsigned short");
        case 6: return ints<long long>(s, "long long");
        default: return ints<unsigned long long>(s, "unsigned long long");
    }
}

template <class T> void floats(pbt::Source& s, double tol)
{
    std::string in; bool neg = s.one_in(3); if (neg) in += '-';
    unsigned a = (unsigned)s.choose(8), b = (unsigned)s.choose(8); if (!a && !b) a = 1;
    for (unsigned i = 0; i < a; i++) in += (char)('0' + s.choose(10));
    bool dot = b > 0 || s.flip(); if (dot) in += '.';
    for (unsigned i = 0; i < b; i++) in += (char)('0' + s.choose(10));
    std::string num = in;
    if (s.one_in(2)) { in += s.pick(" /,e+x"); in += s.text("0123456789.", 3); }
    else if (dot && s.one_in(4)) in += "." + s.text("0123456789", 3);
    LOG("text " << pbt::quote(in));
    double want = strtod(num.c_str(), nullptr);
    std::unique_ptr<char[]> buf(new char[in.size()]); std::copy(in.begin(), in.end(), buf.get());
    const char *bb = buf.get(), *e = bb + in.size();
    fmt_type fmt; T v = 7; estd::ios_base::iostate st = 0; estd::num_get<char, const char*> n;
    const char* r = n.get(bb, e, fmt, st, v);
    CHECK_EQ((unsigned)st, in.size() == num.size() ? (unsigned)EOFB : 0u, "float state");
    CHECK_EQ((size_t)(r - bb), num.size(), "float stopping point");
    CHECK(std::fabs((double)v - want) <= tol * std::fabs(want), "float value " << pbt::show((double)v) << " expected " << pbt::show(want));
    if (dot) s.label("decimal_point"); if (neg) s.label("negative");
    if (a + b > 1) s.nontrivial();
}
TARGET(num_get_float, 1) { if (s.flip()) floats<float>(s, 3e-6); else floats<double>(s, 1e-14); }

TARGET(num_get_bool, 1)
{
    bool alpha = s.flip(); std::string in, name;
    bool ok = false, val = false; size_t used = 0; unsigned st_want = 0;
    if (alpha)
    {
        switch (s.choose(4))
        {
            case 0: in = s.text("truefals ", 6); break;
            case 1: in = s.flip() ? "true" : "false"; in.resize(s.choose(in.size() + 1)); break;
            case 2: in = s.flip() ? "true" : "false"; in[s.choose(in.size())] = s.pick("truefalsTX "); break;
            default: in = s.flip() ? "true" : "false";
        }
        if (s.flip()) in += s.text("truefals 01", 4);
        if (in.compare(0, 4, "true") == 0) { ok = true; val = true; used = 4; }
        else if (in.compare(0, 5, "false") == 0) { ok = true; val = false; used = 5; }
        else
        {
            // stops either at the first mismatch or at the end of the text
            bool prefix = std::string("true").compare(0, in.size(), in) == 0 || std::string("false").compare(0, in.size(), in) == 0;
            st_want = FAIL | (prefix ? EOFB : 0); val = false;
        }
    }
    else
    {
        in = s.text("0001112x-t ", 4);
        if (in.empty()) { st_want = FAIL | EOFB; val = false; }
        else if (in[0] == '0' || in[0] == '1') { ok = true; val = in[0] == '1'; used = 1; }
        else { st_want = FAIL; val = true; }
    }
    LOG("boolalpha " << alpha << " text " << pbt::quote(in));
    std::unique_ptr<char[]> buf(new char[in.size()]); std::copy(in.begin(), in.end(), buf.get());
    const char *b = buf.get(), *e = b + in.size();
    fmt_type fmt; if (alpha) fmt.setf(estd::ios_base::boolalpha);
    bool v = s.flip(); estd::ios_base::iostate st = 0; estd::num_get<char, const char*> n;
    const char* r = n.get(b, e, fmt, st, v);
    CHECK_EQ((unsigned)st, st_want, "bool state");
    CHECK_EQ(v, val, "bool value");
    if (ok) CHECK_EQ((size_t)(r - b), used, "bool consumption");
    if (ok) s.label("parsed"); else s.label("rejected");
    if (in.size() > 1) s.nontrivial();
}

}
