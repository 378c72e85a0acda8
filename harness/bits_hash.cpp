// Byte, flag, byte-order and hash primitives against direct formulas.
#include <estd/bit.h>
#include <estd/cstddef.h>
#include <estd/flags.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/internal/functional/hash.h>
#include "pbt.h"
#include <memory>
#include <string>
#include <vector>

enum Opt { OPT_NONE = 0, OPT_A = 1, OPT_B = 2, OPT_C = 4, OPT_D = 8, OPT_ALL = 255 };
ESTD_FLAGS(Opt)
enum class Wide : unsigned { none = 0, low = 1, high = 0x80000000u };
ESTD_FLAGS(Wide)
enum class F8 : uint8_t {}; enum class F16 : int16_t {}; enum class F64 : uint64_t {}; enum Fu : int {};
ESTD_FLAGS(F8) ESTD_FLAGS(F16) ESTD_FLAGS(F64) ESTD_FLAGS(Fu)

namespace {

template <class T> void swaps(pbt::Source& s)
{
    T v = s.integer<T>(), r = estd::byteswap<T>(v); LOG("byteswap " << (long long)v);
    unsigned char a[sizeof(T)], b[sizeof(T)]; memcpy(a, &v, sizeof v); memcpy(b, &r, sizeof r);
    for (size_t i = 0; i < sizeof(T); i++) CHECK_EQ((int)a[i], (int)b[sizeof(T) - 1 - i], "byte " << i);
    CHECK(estd::byteswap<T>(r) == v, "swapping twice");
    if (r != v) s.nontrivial();
}
TARGET(byteswap, 2)
{
    switch (s.choose(5)) { case 0: swaps<uint16_t>(s); break; case 1: swaps<int16_t>(s); break; case 2: swaps<uint32_t>(s); break; case 3: swaps<int32_t>(s); break; default: swaps<uint64_t>(s); }
    uint32_t probe = 1; unsigned char first; memcpy(&first, &probe, 1);
    CHECK((estd::endian::native == estd::endian::little) == (first == 1), "native byte order");
}
TARGET(bytes, 2)
{
    unsigned char a = s.integer<unsigned char>(), b = s.integer<unsigned char>(); unsigned n = s.choose(8); LOG((int)a << " " << (int)b << " by " << n);
    estd::byte x = estd::to_byte(a), y = estd::to_byte(b);
    auto num = [](estd::byte v) { return estd::to_integer<unsigned>(v); };
    CHECK_EQ(num(x), (unsigned)a, "to_integer"); CHECK_EQ((int)estd::to_integer<signed char>(x), (int)(signed char)a, "to_integer signed");
    CHECK_EQ(num(x | y), (unsigned)(a | b), "or"); CHECK_EQ(num(x << n), (unsigned)(unsigned char)(a << n), "shift left");
    estd::byte z = x; CHECK(&(z |= y) == &z, "returns itself"); CHECK_EQ(num(z), (unsigned)(a | b), "or assign");
    z = x; CHECK(&(z <<= n) == &z, "returns itself"); CHECK_EQ(num(z), (unsigned)(unsigned char)(a << n), "shift left assign");
    z = x; CHECK(&(z >>= n) == &z, "returns itself"); CHECK_EQ(num(z), (unsigned)(a >> n), "shift right assign");
    CHECK(num(y) == b, "operand kept"); if (n && a) s.nontrivial();
}
template <class E> void flags_of(pbt::Source& s, const char* what)
{
    typedef typename std::underlying_type<E>::type I; typedef estd::detail::v1::flags<E> F;
    I a = s.integer<I>(), b = s.integer<I>(), c = s.integer<I>(); LOG(what << " " << (long long)a << " " << (long long)b << " " << (long long)c);
    E x = (E)a, y = (E)b; F f(x), h(y); const F& g = h;
    auto num = [](const F& v) { return (I)v.value(); };
    CHECK(num(f | y) == (I)(a | b), "or"); CHECK(num(f & y) == (I)(a & b), "and"); CHECK(num(f ^ y) == (I)(a ^ b), "xor"); CHECK(num(~f) == (I)~a, "complement");
    CHECK(num(x | y) == (I)(a | b), "or of plain values"); CHECK(num(x & y) == (I)(a & b), "and of plain values"); CHECK(num(x ^ y) == (I)(a ^ b), "xor of plain values"); CHECK(num(~x) == (I)~a, "complement of a plain value");
    CHECK(&(f |= g) == &f, "|= returns itself"); CHECK(num(f) == (I)(a | b), "or assign"); CHECK(num(g) == b, "operand kept");
    f |= (E)c; CHECK(num(f) == (I)(a | b | c), "or assign of a plain value"); CHECK((E)f == f.value(), "conversion");
    f |= f; CHECK(num(f) == (I)(a | b | c), "or assign of itself"); CHECK((bool)f == ((I)(a | b | c) != 0), "truth");
    CHECK((F(a) == F(b)) == (a == b) && (F(a) != F(b)) == (a != b), "comparison");
    if (a && b && a != b) s.nontrivial();
}
TARGET(flags_uint8, 1) { flags_of<F8>(s, "uint8_t"); }
TARGET(flags_int16, 1) { flags_of<F16>(s, "int16_t"); }
TARGET(flags_uint64, 1) { flags_of<F64>(s, "uint64_t"); }
TARGET(flags_unscoped, 1) { flags_of<Fu>(s, "unscoped"); }
TARGET(flags, 2)
{
    unsigned a = s.bits(8), b = s.bits(8), c = s.bits(8); LOG("flags " << a << " " << b << " " << c);
    typedef estd::detail::v1::flags<Opt> F; Opt x = (Opt)a, y = (Opt)b; F f(x), g(y);
    auto num = [](const F& v) { return (unsigned)v.value(); };
    CHECK_EQ(num(f | y), a | b, "or"); CHECK_EQ(num(f & y), a & b, "and"); CHECK_EQ(num(f ^ y), a ^ b, "xor");
    CHECK_EQ(num(x | y), a | b, "or of plain values"); CHECK_EQ(num(x & y), a & b, "and of plain values"); CHECK_EQ(num(x ^ y), a ^ b, "xor of plain values");
    CHECK_EQ(num((x | y) & (Opt)c), (a | b) & c, "combination"); CHECK_EQ(num(~x & y), ~a & b, "complement"); CHECK_EQ(num(~f & y), ~a & b, "complement");
    CHECK_EQ((bool)F(f & y), (a & b) != 0, "truth"); CHECK_EQ(f == g, a == b, "=="); CHECK_EQ(f != g, a != b, "!="); CHECK_EQ(f == y, a == b, "== plain"); CHECK(F((int)a) == f, "from number");
    unsigned p = s.integer<unsigned>(), q = s.integer<unsigned>(); typedef estd::detail::v1::flags<Wide> G; G h((Wide)p);
    CHECK_EQ((unsigned)(h | (Wide)q).value(), p | q, "or wide"); CHECK_EQ((unsigned)(h & (Wide)q).value(), p & q, "and wide"); CHECK_EQ((unsigned)(h ^ (Wide)q).value(), p ^ q, "xor wide"); CHECK_EQ((unsigned)(~h).value(), ~p, "complement wide");
    if (a && b && a != b) s.nontrivial();
}

// the published definition, one multiplication at a time
uint64_t reference(const std::vector<unsigned char>& d, bool wide, bool xor_first)
{
    uint64_t h = wide ? 14695981039346656037ull : 2166136261u, p = wide ? 1099511628211ull : 16777619u;
    for (unsigned char c : d) { if (xor_first) h ^= c; h *= p; if (!wide) h &= 0xffffffffu; if (!xor_first) h ^= c; }
    return h;
}
template <class P, estd::internal::fnv_modes M> void fnv(pbt::Source& s, const std::vector<unsigned char>& d)
{
    typedef estd::internal::fnv_hash<P, M> H; bool x = M == estd::internal::FNV_1A;
    std::unique_ptr<unsigned char[]> b(new unsigned char[d.size()]); std::copy(d.begin(), d.end(), b.get());
    const unsigned char* p = b.get(); uint64_t expect = reference(d, sizeof(P) == 8, x);
    CHECK_EQ((uint64_t)H::hash(p, p + d.size()), expect, "hash");
    CHECK_EQ((uint64_t)H::hash((const char*)p, (const char*)p + d.size()), expect, "hash of characters");
    CHECK_EQ((uint64_t)H::hash((const signed char*)p, (const signed char*)p + d.size()), expect, "hash of signed characters");
    size_t cut = s.choose(d.size() + 1);
    CHECK_EQ((uint64_t)H::hash(p + cut, p + d.size(), H::hash(p, p + cut)), expect, "hash continued after " << cut);
    // any number may be continued from, the ones that meet zero on the way included
    P h = s.flip() ? (P)s.integer<P>() : (P)s.choose(256); if (!d.empty() && s.flip()) h = x ? (P)d[0] : 0; uint64_t r = h;
    for (unsigned char c : d) { if (x) r ^= c; r *= sizeof(P) == 8 ? 1099511628211ull : 16777619u; if (sizeof(P) == 4) r &= 0xffffffffu; if (!x) r ^= c; }
    CHECK_EQ((uint64_t)H::hash(p, p + d.size(), h), r, "hash continued from " << (uint64_t)h);
}
TARGET(fnv_hashing, 3)
{
    std::vector<unsigned char> d; unsigned n = s.size(40); while (n--) d.push_back(s.integer<unsigned char>()); LOG(d.size() << " bytes");
    fnv<uint32_t, estd::internal::FNV_1>(s, d); fnv<uint32_t, estd::internal::FNV_1A>(s, d); fnv<uint64_t, estd::internal::FNV_1>(s, d); fnv<uint64_t, estd::internal::FNV_1A>(s, d);
    if (d.size() >= 2) s.nontrivial();
}
template <class K> size_t hashed(const K& k) { return estd::hash<K>()(k); }
TARGET(text_hashing, 3)
{
    std::string t = s.text("ab\xc3z9 ", 30); LOG("text " << t.size());
    std::vector<unsigned char> d(t.begin(), t.end()); size_t expect = (size_t)reference(d, false, true);
    estd::layer1::string<32> a(t.c_str()); std::unique_ptr<char[]> buf(new char[32]); buf[0] = 0; estd::layer2::string<32> b(buf.get()); b = t.c_str();
    char lit[40]; strcpy(lit, t.c_str()); estd::layer2::const_string c(lit); estd::layer3::const_string e(t.data(), t.size()); estd::string_view v(t.data(), t.size());
    CHECK_EQ(hashed(a), expect, "hash of string held in place"); CHECK_EQ(hashed(b), expect, "hash of string over a buffer"); CHECK_EQ(hashed(c), expect, "hash of constant string"); CHECK_EQ(estd::internal::string_hash()(e), expect, "hash of sized constant string"); CHECK_EQ(hashed(v), expect, "hash of view");
    estd::layer1::string<60, false> f(t.c_str()); CHECK_EQ(hashed(f), expect, "hash does not depend on storage");
    CHECK_EQ(estd::hash<int>()(-5), (size_t)-5, "hash of int"); uint16_t w = s.integer<uint16_t>(); CHECK_EQ(estd::hash<uint16_t>()(w), (size_t)w, "hash of number");
    if (t.size() >= 2) s.nontrivial();
}
} // namespace
