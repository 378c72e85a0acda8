// numeric_limits, text lengths, promoted_type, gcd and lcm against the values themselves.
#include <estd/limits.h>
#include <estd/numeric.h>
#include <estd/type_traits.h>
#include "pbt.h"
#include <charconv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace {
// digits of a value in a base, least first, straight from the definition
template <class T> std::string text_of(T v, unsigned base)
{
    typedef typename std::make_unsigned<T>::type U;
    U u = v < 0 ? U(0) - U(v) : U(v);
    std::string r;
    do { r.insert(r.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[unsigned(u % base)]); u = U(u / base); } while (u);
    return v < 0 ? "-" + r : r;
}
template <class T> struct Ints
{
    typedef estd::numeric_limits<T> E; typedef std::numeric_limits<T> S;
    static void run(pbt::Source& s)
    {
        CHECK(E::is_specialized && E::is_integer, "is an integer");
        CHECK_EQ(+T(E::min()), +S::min(), "min"); CHECK_EQ(+T(E::max()), +S::max(), "max");
        CHECK_EQ(bool(E::is_signed), S::is_signed, "is_signed"); CHECK_EQ(int(E::digits), S::digits, "digits"); CHECK_EQ(int(E::digits10), S::digits10, "digits10");
        CHECK_EQ(int(E::radix), S::radix, "radix"); CHECK_EQ(bool(E::is_iec559), false, "is_iec559"); CHECK_EQ(unsigned(E::bits), unsigned(sizeof(T) * CHAR_BIT), "bits");
        T v = s.integer<T>();
        if (v != 0 && v != T(-1)) s.nontrivial();
        LOG("value " << +v << " of " << sizeof(T) << (S::is_signed ? " signed" : " unsigned") << " bytes");
        CHECK(v >= E::min() && v <= E::max(), "the value lies between min and max");
        CHECK(text_of(v, 8).size() <= E::template length<8>::value, "octal '" << text_of(v, 8) << "' fits length<8> = " << E::template length<8>::value);
        CHECK(text_of(v, 10).size() <= E::template length<10>::value, "decimal '" << text_of(v, 10) << "' fits length<10> = " << E::template length<10>::value);
        CHECK(text_of(v, 16).size() <= E::template length<16>::value, "hexadecimal '" << text_of(v, 16) << "' fits length<16> = " << E::template length<16>::value);
        // every decimal of digits10 digits is a value
        unsigned long long p = 1; for (int i = 0; i < E::digits10; i++) p *= 10;
        CHECK(p - 1 <= (unsigned long long)(E::max()), "digits10 decimal digits always fit");
        typedef typename std::make_unsigned<T>::type U;
        unsigned long long all = ~0ull >> (64 - E::digits);
        CHECK_EQ((unsigned long long)(E::max()), all, "max is as many ones as digits"); (void)sizeof(U);
    }
};
void int_limits(pbt::Source& s)
{
    switch (s.choose(10))
    {
    case 0: Ints<signed char>::run(s); break; case 1: Ints<unsigned char>::run(s); break; case 2: Ints<short>::run(s); break; case 3: Ints<unsigned short>::run(s); break;
    case 4: Ints<int>::run(s); break; case 5: Ints<unsigned>::run(s); break; case 6: Ints<long>::run(s); break; case 7: Ints<unsigned long>::run(s); break;
    case 8: Ints<long long>::run(s); break; default: Ints<unsigned long long>::run(s); break;
    }
    typedef estd::numeric_limits<bool> B;
    CHECK(B::min() == false && B::max() == true && B::digits == 1 && B::digits10 == 0, "bool");
}
TARGET_FN("limits/integers", 3, int_limits);

template <class T, class U> struct Floats
{
    typedef estd::numeric_limits<T> E; typedef std::numeric_limits<T> S;
    static void run(pbt::Source& s)
    {
        CHECK(E::is_specialized && !E::is_integer && E::is_signed, "is a signed non-integer");
        CHECK(E::min() == S::min() && E::max() == S::max() && E::lowest() == S::lowest(), "min, max, lowest");
        CHECK_EQ(int(E::digits), S::digits, "digits"); CHECK_EQ(int(E::digits10), S::digits10, "digits10"); CHECK_EQ(int(E::radix), S::radix, "radix"); CHECK_EQ(bool(E::is_iec559), S::is_iec559, "is_iec559");
        U bits = s.integer<U>(); T v; std::memcpy(&v, &bits, sizeof v);
        LOG("bits " << bits);
        if (std::isfinite(v))
        {
            CHECK(v >= E::lowest() && v <= E::max(), "a finite value lies between lowest and max");
            if (v > 0 && std::isnormal(v)) { CHECK(v >= E::min(), "a positive normal value is at least min"); s.nontrivial(); }
        }
        // a decimal of digits10 digits survives a round trip
        std::string d = "0."; for (unsigned i = 0; i < unsigned(E::digits10); i++) d += char('0' + (i == 0 ? 1 + s.choose(9) : s.choose(10)));
        T w = sizeof(T) == 4 ? T(std::strtof(d.c_str(), nullptr)) : T(std::strtod(d.c_str(), nullptr));
        char buf[64]; std::snprintf(buf, sizeof buf, "%.*f", int(E::digits10), double(w));
        CHECK_EQ(std::string(buf), d, "digits10 decimal digits survive");
        // integers up to radix^digits are exact
        U n = s.integer<U>() & ((U(1) << E::digits) - 1);
        CHECK_EQ(U(T(n)), n, "integers of `digits` binary digits are exact");
    }
};
void float_limits(pbt::Source& s) { if (s.flip()) Floats<float, uint32_t>::run(s); else Floats<double, uint64_t>::run(s); }
TARGET_FN("limits/floats", 1, float_limits);

// ------------------------------------------------------------------ promoted_type: the nearest integer which keeps the sign either has
template <unsigned i> struct Fixed;
template <> struct Fixed<0> { typedef int8_t type; }; template <> struct Fixed<1> { typedef uint8_t type; }; template <> struct Fixed<2> { typedef int16_t type; }; template <> struct Fixed<3> { typedef uint16_t type; };
template <> struct Fixed<4> { typedef int32_t type; }; template <> struct Fixed<5> { typedef uint32_t type; }; template <> struct Fixed<6> { typedef int64_t type; }; template <> struct Fixed<7> { typedef uint64_t type; };
template <class T, bool = std::is_void<T>::value> struct Shape { static constexpr unsigned bytes = sizeof(T); static constexpr bool sign = std::is_signed<T>::value; };
template <class T> struct Shape<T, true> { static constexpr unsigned bytes = 16; static constexpr bool sign = true; };
struct Promotion { unsigned bytes; bool sign; unsigned nbytes; bool nsign; };
template <unsigned... I> const Promotion* promotions(std::integer_sequence<unsigned, I...>)
{
    static const Promotion t[] = { Promotion{
        Shape<typename estd::promoted_type<typename Fixed<I / 8>::type, typename Fixed<I % 8>::type>::type>::bytes, Shape<typename estd::promoted_type<typename Fixed<I / 8>::type, typename Fixed<I % 8>::type>::type>::sign,
        Shape<typename estd::promoted_type<typename Fixed<I / 8>::type, typename Fixed<I % 8>::type, false>::type>::bytes, Shape<typename estd::promoted_type<typename Fixed<I / 8>::type, typename Fixed<I % 8>::type, false>::type>::sign }... };
    return t;
}
void promotion(pbt::Source& s)
{
    static const Promotion* t = promotions(std::make_integer_sequence<unsigned, 64>());
    unsigned a = s.choose(8), b = s.choose(8);
    unsigned wa = 1u << (a / 2), wb = 1u << (b / 2); bool sa = a % 2 == 0, sb = b % 2 == 0;
    LOG((sa ? "int" : "uint") << wa * 8 << " with " << (sb ? "int" : "uint") << wb * 8);
    if (a != b) s.nontrivial();
    unsigned w = wa > wb ? wa : wb;
    bool sign = sa || sb;
    CHECK_EQ(t[a * 8 + b].nsign, sign, "signed if either is (no promotion)"); CHECK_EQ(t[a * 8 + b].nbytes, w, "as wide as the wider (no promotion)");
    if (wa == wb && sa != sb) w *= 2;                      // same width, different sign: the next width up; 64 bits has none (void)
    CHECK_EQ(t[a * 8 + b].sign, sign, "signed if either is"); CHECK_EQ(t[a * 8 + b].bytes, w, "as wide as needed");
}
TARGET_FN("limits/promotion", 1, promotion);

// ------------------------------------------------------------------ gcd, lcm of generated constants
constexpr uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; x ^= x >> 33; return x; }
constexpr int64_t num(unsigned i, unsigned which)
{
    uint64_t r = mix(i * 2 + which + 1), kind = r % 5;
    return kind == 0 ? int64_t(1 + r / 5 % 12) : kind == 1 ? int64_t(1) << (r / 5 % 20) : kind == 2 ? int64_t((1 + r / 5 % 40) * (1 + r / 200 % 40) * (1 + r / 8000 % 40)) : kind == 3 ? int64_t(1 + r / 5 % 1000000) : int64_t(60 * (1 + r / 5 % 3600));
}
int64_t euclid(int64_t a, int64_t b) { while (b) { int64_t r = a % b; a = b; b = r; } return a; }
struct Division { int64_t a, b, gcd, lcm, ngcd; };
template <unsigned... I> const Division* divisions(std::integer_sequence<unsigned, I...>)
{
    static const Division t[] = { Division{num(I, 0), num(I, 1), estd::internal::gcd<num(I, 0), num(I, 1)>::value, (int64_t)estd::internal::lcm<num(I, 0), num(I, 1)>::value, estd::internal::gcd<-num(I, 0), num(I, 1)>::value}... };
    return t;
}
void dividing(pbt::Source& s)
{
    static const Division* t = divisions(std::make_integer_sequence<unsigned, 400>());
    const Division& d = t[s.choose(400)];
    LOG("gcd and lcm of " << d.a << ", " << d.b);
    if (d.a != d.b) s.nontrivial();
    CHECK_EQ(d.gcd, euclid(d.a, d.b), "gcd"); CHECK_EQ(d.lcm, d.a / euclid(d.a, d.b) * d.b, "lcm"); CHECK_EQ(d.ngcd, euclid(d.a, d.b), "gcd with a negative");
}
TARGET_FN("limits/gcd", 1, dividing);

// ------------------------------------------------------------------ accumulate
void accumulating(pbt::Source& s)
{
    std::vector<int> v; unsigned n = s.size(20); for (unsigned i = 0; i < n; i++) v.push_back(s.range(-1000, 1000));
    unsigned a = s.choose(n + 1), b = s.range(a, n); int init = s.range(-5, 5);
    if (b - a > 1) s.nontrivial();
    LOG("accumulate " << b - a << " of " << n << " from " << init);
    long want = init; std::string wt = "x";
    for (unsigned i = a; i < b; i++) { want += v[i]; wt = "(" + wt + "," + std::to_string(v[i]) + ")"; }
    CHECK_EQ(estd::accumulate(v.begin() + a, v.begin() + b, long(init)), want, "sum");
    CHECK_EQ(estd::accumulate(v.data() + a, v.data() + b, std::string("x"), [](std::string acc, int x) { return "(" + acc + "," + std::to_string(x) + ")"; }), wt, "fold, in order");
    unsigned calls = 0;
    estd::accumulate(v.begin() + a, v.begin() + b, 0, [&](int acc, int x) { CHECK_EQ(x, v[a + calls], "element"); calls++; return acc; });
    CHECK_EQ(calls, b - a, "one call an element");
}
TARGET_FN("limits/accumulate", 1, accumulating);
}
