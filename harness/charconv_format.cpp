// Integer formatting: estd::to_chars / to_chars_opt / to_string / to_string_opt against std::to_chars.
#include <estd/charconv.h>
#include <estd/string.h>
#include "pbt.h"
#include <charconv>
#include <memory>

namespace {

template <class T> std::string model(T v, int base, bool upper = false)
{
    char b[80]; auto r = std::to_chars(b, b + sizeof b, v, base); std::string m(b, r.ptr);
    if (upper) for (char& c : m) c = (char)toupper(c);
    return m;
}

// a heap block with no slack; any write outside [0,n) is reported by the sanitizer
struct Block { std::unique_ptr<char[]> p; unsigned n; Block(unsigned n) : p(new char[n]), n(n) { memset(p.get(), '#', n); } char* b() { return p.get(); } char* e() { return p.get() + n; } };

template <class T> void one(pbt::Source& s, const char* tname)
{
    int base = s.one_in(3) ? (int)s.range(2, 36) : s.pick({10, 16, 2, 8, 36, 11});
    T v = s.integer<T>();
    std::string m = model(v, base);
    unsigned len = (unsigned)m.size();
    unsigned cap = s.one_in(3) ? (unsigned)s.choose(len + 1) : len + (unsigned)s.choose(4);
    bool upper = s.flip();
    LOG("value " << pbt::show(v) << " (" << tname << ") base " << base << " text " << m << " buffer " << cap);
    bool fits = cap >= len;
    {
        Block b(cap); auto r = estd::to_chars(b.b(), b.e(), v, base);
        CHECK_EQ(r.ec == 0, fits, "to_chars success iff the text fits");
        if (fits) CHECK_EQ(std::string(b.b(), r.ptr), m, "to_chars text");
        else { CHECK_EQ(r.ec == estd::errc::value_too_large, true, "to_chars error class"); CHECK_EQ((long)(r.ptr - b.b()), (long)cap, "to_chars ptr == last on error"); }
    }
    {
        Block b(cap); auto r = estd::to_chars_opt(b.b(), b.e(), v, base);
        CHECK_EQ(r.ec == 0, fits, "to_chars_opt success iff the text fits");
        if (fits) CHECK_EQ(std::string(r.ptr, b.e()), m, "to_chars_opt text is right aligned in the buffer");
        else CHECK_EQ(r.ec == estd::errc::value_too_large, true, "to_chars_opt error class");
        if (fits) for (char* p = b.b(); p != r.ptr; ++p) CHECK_EQ(*p, '#', "to_chars_opt leaves the unused front alone");
    }
    {
        Block b(cap); auto r = estd::to_chars_opt(b.b(), b.e(), v, base, upper);
        CHECK_EQ(r.ec == 0, fits, "to_chars_opt(upper) success iff the text fits");
        if (fits) CHECK_EQ(std::string(r.ptr, b.e()), model(v, base, upper), "to_chars_opt(upper) text");
    }
    // round trip through the library's own parser
    if (fits)
    {
        T back = (T)(v ^ 1); Block b(cap); auto r = estd::to_chars(b.b(), b.e(), v, base);
        auto q = estd::from_chars(b.b(), r.ptr, back, base);
        CHECK(q.ec == 0 && q.ptr == r.ptr && back == v, "round trip gave " << pbt::show(back));
    }
    {
        char b[72]; memset(b, '#', sizeof b);
        auto r = estd::to_string_opt(b, v, (unsigned)base);
        CHECK_EQ(std::string(r.ptr), m, "to_string_opt(buffer, value, base)");
        CHECK_EQ(r.ptr + len, b + sizeof b - 1, "to_string_opt right alignment");
        char c[72];
        switch (base) {
            case 10: CHECK_EQ(std::string(estd::to_string_opt<10>(c, v).ptr), m, "to_string_opt<10>"); break;
            case 16: CHECK_EQ(std::string(estd::to_string_opt<16>(c, v).ptr), m, "to_string_opt<16>"); break;
            case 8:  CHECK_EQ(std::string(estd::to_string_opt<8>(c, v).ptr), m, "to_string_opt<8>"); break;
            case 2:  CHECK_EQ(std::string(estd::to_string_opt<2>(c, v).ptr), m, "to_string_opt<2>"); break;
            case 36: CHECK_EQ(std::string(estd::to_string_opt<36>(c, v).ptr), m, "to_string_opt<36>"); break;
        }
    }
    {
        char b[72]; memset(b, '#', sizeof b);
        auto r = estd::to_chars_exp(b, b + sizeof b, v, base);
        CHECK_EQ(r.ec == 0, true, "to_chars_exp success");
        CHECK_EQ(std::string(b, r.ptr), m, "to_chars_exp text");
    }
    {   // base-10 strings
        std::string d = model(v, 10);
        const auto st = estd::to_string(v);
        CHECK_EQ(std::string(st.clock(), st.clock() + st.size()), d, "to_string(value)");
        CHECK_EQ((size_t)st.size(), d.size(), "to_string(value).size()");
        estd::layer1::string<32> fixed; fixed = "junk"; estd::to_string(fixed, v);
        CHECK_EQ(std::string(fixed.clock()), d, "to_string(string, value)");
        estd::layer1::string<32, false> counted;
        (void)counted;
    }
    if (v < 0) s.label("negative");
    if (!fits) s.label("does_not_fit");
    if (cap == len) s.label("exact_fit");
    if (v == std::numeric_limits<T>::min() || v == std::numeric_limits<T>::max()) s.label("extreme");
    if (len > 1) s.nontrivial();
}

TARGET(to_chars, 1)
{
    switch (s.choose(10))
    {
        case 0: return one<int>(s, "int");
        case 1: return one<unsigned>(s, "unsigned");
        case 2: return one<long>(s, "long");
        case 3: return one<unsigned long>(s, "unsigned long");
        case 4: return one<short>(s, "short");
        case 5: return one<unsigned short>(s, "unsigned short");
        case 6: return one<signed char>(s, "int8_t");
        case 7: return one<unsigned char>(s, "uint8_t");
        case 8: return one<long long>(s, "long long");
        default: return one<unsigned long long>(s, "unsigned long long");
    }
}

}
