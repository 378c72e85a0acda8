// Variants against a pair (index, value), one history at a time.
#include <estd/variant.h>
#include "pbt.h"
#include <new>
#include <tuple>

namespace {
using pbt::Life;
enum Trait { PLAIN, QUIET, STICKY };
template <int K> struct Arg { int v; };
// alternatives that cannot be confused with one another; K names the alternative
template <int K, Trait R> struct Alt : pbt::Tracked
{
    Alt() : pbt::Tracked(K) {}
    Alt(Arg<K> a) : pbt::Tracked(a.v) {}
    Alt(const Alt& o) : pbt::Tracked(static_cast<const pbt::Tracked&>(o)) {}
    Alt(Alt&& o) : pbt::Tracked(static_cast<pbt::Tracked&&>(o)) {}
    Alt& operator=(const Alt& o) { pbt::Tracked::operator=(static_cast<const pbt::Tracked&>(o)); return *this; }
    Alt& operator=(Alt&& o) { pbt::Tracked::operator=(static_cast<pbt::Tracked&&>(o)); return *this; }
};
template <int K> struct Alt<K, STICKY> : pbt::Tracked   // not assignable
{
    Alt() : pbt::Tracked(K) {}
    Alt(Arg<K> a) : pbt::Tracked(a.v) {}
    Alt(const Alt& o) : pbt::Tracked(static_cast<const pbt::Tracked&>(o)) {}
    Alt(Alt&& o) : pbt::Tracked(static_cast<pbt::Tracked&&>(o)) {}
    Alt& operator=(const Alt& o) = delete;
};
long saved = -1;
inline int hush() { saved = Life::throw_after; Life::throw_after = -1; return 0; }
inline void unhush() { Life::throw_after = saved; }
template <int K> struct Alt<K, QUIET> : pbt::Tracked    // moves never throw
{
    Alt() : pbt::Tracked(K) {}
    Alt(Arg<K> a) : pbt::Tracked(a.v) {}
    Alt(const Alt& o) : pbt::Tracked(static_cast<const pbt::Tracked&>(o)) {}
    Alt(Alt&& o) noexcept : pbt::Tracked(hush()) { unhush(); Life::used(&o, "moved from"); v = o.v; moved = o.moved; o.moved = true; }
    Alt& operator=(const Alt& o) { pbt::Tracked::operator=(static_cast<const pbt::Tracked&>(o)); return *this; }
    Alt& operator=(Alt&& o) noexcept { Life::used(this, "assigned"); Life::used(&o, "moved from"); v = o.v; moved = o.moved; if (this != &o) o.moved = true; return *this; }
};

const size_t NONE = (size_t)-1;
struct M { size_t i = 0; int v = 0; bool known = true; };

struct Seen { size_t* index; const void** at; int* v;
    template <size_t I, class T> bool operator()(estd::variadic::v2::instance<I, T> x) const { *index = I; *at = &x.value; *v = x.value.v; return true; } };

template <class V, class... A> struct Pool
{
    static constexpr size_t N = sizeof...(A);
    template <size_t I> using At = typename std::tuple_element<I, std::tuple<A...>>::type;
    static_assert(std::is_same<V, estd::variant<A...>>::value, "");

    // run f(integral_constant<I>) for a run-time index
    template <class F, size_t... I> static void with(size_t i, F&& f, std::index_sequence<I...>) { (void)std::initializer_list<int>{(i == I ? (f(std::integral_constant<size_t, I>{}), 0) : 0)...}; }
    template <class F> static void with(size_t i, F&& f) { with(i, f, std::index_sequence_for<A...>{}); }

    static void check(const V& c, V& w, const M& m, int slot)
    {
        CHECK_EQ(c.index(), m.i, "slot " << slot << " index");
        CHECK_EQ(c.valueless_by_exception(), m.i == NONE, "slot " << slot << " valueless");
        for (size_t q = 0; q < N; q++) with(q, [&](auto K) {
            constexpr size_t k = decltype(K)::value;
            bool mine = m.i == k;
            const auto* p = estd::get_if<k>(&c); auto* pw = estd::get_if<k>(&w);
            CHECK_EQ(p != nullptr, mine, "slot " << slot << " get_if<" << k << "> while holding " << m.i); CHECK((const void*)p == (const void*)pw, "get_if const and not");
            bool threw = false; try { (void)estd::get<k>(c); } catch (estd::bad_variant_access&) { threw = true; } CHECK_EQ(threw, !mine, "get<" << k << "> throws");
            threw = false; try { (void)estd::get<k>(w); } catch (estd::bad_variant_access&) { threw = true; } CHECK_EQ(threw, !mine, "get<" << k << "> throws");
            threw = false; try { auto&& r = estd::get<k>(std::move(w)); if (mine) CHECK((const void*)&r == (const void*)p, "get<" << k << "> of an rvalue"); } catch (estd::bad_variant_access&) { threw = true; } CHECK_EQ(threw, !mine, "get<" << k << "> of an rvalue throws");
            typedef At<k> T;
            if constexpr ((0 + ... + (int)std::is_same<T, A>::value) == 1)
            {
                CHECK_EQ(estd::holds_alternative<T>(c), mine, "holds_alternative");
                const T* t = estd::get_if<T>(&c); CHECK(t == p, "get_if by type"); T* u = estd::get_if<T>(&w); CHECK(u == pw, "get_if by type, not const");
                auto by = [&](auto f) { threw = false; try { const void* r = f(); if (mine) CHECK(r == (const void*)p, "get by type"); } catch (estd::bad_variant_access&) { threw = true; } CHECK_EQ(threw, !mine, "get by type of alternative " << k << " throws"); };
                by([&] { const T& r = estd::get<T>(c); return (const void*)&r; }); by([&] { T& r = estd::get<T>(w); return (const void*)&r; }); by([&] { T&& r = estd::get<T>(std::move(w)); return (const void*)&r; });
            }
            if (mine)
            {
                CHECK(&estd::get<k>(c) == p, "get and get_if differ");
                CHECK(Life::alive(p), "slot " << slot << " claims a value that is not alive");
                CHECK_EQ((uintptr_t)p % alignof(T), (uintptr_t)0, "alignment");
                if (m.known) { CHECK_EQ(p->v, m.v, "slot " << slot << " value"); CHECK(!p->moved, "slot " << slot << " holds a moved-from value"); }
            }
        });
        size_t index = NONE; const void* at = nullptr; int v = 0; size_t r = c.visit_index(Seen{&index, &at, &v});
        CHECK_EQ(r, m.i, "visit_index result"); CHECK_EQ(index, m.i, "visited index"); if (m.i != NONE && m.known) CHECK_EQ(v, m.v, "visited value");
        CHECK(estd::get_if<0>((const V*)nullptr) == nullptr && estd::get_if<N - 1>((V*)nullptr) == nullptr, "get_if of nothing");
    }

    template <bool Move, bool Inject> static void run(pbt::Source& s)
    {
        Life::reset();
        constexpr int S = 3;
        alignas(64) static unsigned char mem[S][(sizeof(V) + 63) / 64 * 64];
        V* o[S]; M m[S]; unsigned edits = 0, throws = 0, kinds = 0;
        for (int i = 0; i < S; i++) { memset(mem[i], 0xA5, sizeof mem[i]); o[i] = new (mem[i]) V; m[i] = M{0, At<0>().v}; }
        unsigned steps = 1 + s.size(20);
        for (unsigned k = 0; k < steps; k++)
        {
            int i = (int)s.choose(S), j = (int)s.choose(S), v = 100 + (int)s.choose(1000);
            size_t alt = s.choose(N);
            long after = Inject && s.one_in(3) ? (long)s.choose(4) : -1;
            unsigned op = (unsigned)s.choose(13);
            V &x = *o[i], &y = *o[j]; M &a = m[i], &b = m[j]; M next = a; bool rebuilt = false, moved = false, emplaced = false;
            LOG("op " << op << " on " << i << " holding " << (long)a.i << ", other " << j << " holding " << (long)b.i << ", alternative " << alt << " value " << v << (after >= 0 ? " throwing after " + std::to_string(after) : ""));
            auto gone = [&] { x.~V(); rebuilt = true; memset(mem[i], 0xA5, sizeof mem[i]); };
            try
            {
                switch (op)
                {
                    case 0: with(alt, [&](auto K) { constexpr size_t q = decltype(K)::value; emplaced = true; Life::throw_after = after; auto& r = x.template emplace<q>(At<q>::arg(v)); Life::throw_after = -1; CHECK((const void*)&r == (const void*)estd::get_if<q>(&x), "emplace returns the held object"); }); next = M{alt, v}; break;
                    case 1: with(alt, [&](auto K) { constexpr size_t q = decltype(K)::value; typedef At<q> T; if constexpr ((0 + ... + (int)std::is_same<T, A>::value) == 1) { emplaced = true; Life::throw_after = after; T& r = x.template emplace<T>(T::arg(v)); Life::throw_after = -1; CHECK_EQ(r.v, v, "emplaced"); next = M{alt, v}; } }); break;
                    case 2: with(alt, [&](auto K) { constexpr size_t q = decltype(K)::value; typedef At<q> T; if constexpr ((0 + ... + (int)std::is_same<T, A>::value) == 1) { T c(T::arg(v)); Life::throw_after = after; x = (const T&)c; Life::throw_after = -1; CHECK(!c.moved, "copied from, yet moved"); next = M{alt, v}; } }); break;
                    case 3: with(alt, [&](auto K) { constexpr size_t q = decltype(K)::value; typedef At<q> T; if constexpr ((0 + ... + (int)std::is_same<T, A>::value) == 1) { T c(T::arg(v)); Life::throw_after = after; x = std::move(c); Life::throw_after = -1; next = M{alt, v}; } }); break;
                    case 4: case 5: { const V& cy = y; Life::throw_after = after; x = cy; Life::throw_after = -1; next = b; break; }
                    case 6: if (Move && i != j) { bool eager = false; Life::throw_after = after; x = std::move(y); Life::throw_after = -1; next = b; moved = true; (void)eager; } break;
                    case 7: if (i != j) { gone(); Life::throw_after = after; new (mem[i]) V((const V&)y); Life::throw_after = -1; next = b; } break;
                    case 8: if (Move && i != j) { gone(); new (mem[i]) V(std::move(y)); next = b; moved = true; } break;
                    case 9: { gone(); with(alt, [&](auto K) { constexpr size_t q = decltype(K)::value; Life::throw_after = after; new (mem[i]) V(estd::in_place_index_t<q>{}, At<q>::arg(v)); Life::throw_after = -1; }); next = M{alt, v}; break; }
                    case 10: { bool done = false; with(alt, [&](auto K) { constexpr size_t q = decltype(K)::value; typedef At<q> T; if constexpr ((0 + ... + (int)std::is_same<T, A>::value) == 1) { gone(); Life::throw_after = after; new (mem[i]) V(estd::in_place_type_t<T>{}, T::arg(v)); Life::throw_after = -1; done = true; } }); if (done) next = M{alt, v}; break; }
                    case 11: { bool done = false; with(alt, [&](auto K) { constexpr size_t q = decltype(K)::value; typedef At<q> T; if constexpr ((0 + ... + (int)std::is_same<T, A>::value) == 1) { T c(T::arg(v)); gone(); Life::throw_after = after; if (k & 1) new (mem[i]) V((const T&)c); else new (mem[i]) V(std::move(c)); Life::throw_after = -1; done = true; } }); if (done) next = M{alt, v}; break; }
                    default: if (a.i != NONE) with(a.i, [&](auto K) { constexpr size_t q = decltype(K)::value; auto& r = estd::get<q>(x); r.v = v; r.moved = false; if (k & 1) { At<q> t(estd::get<q>(std::move(x))); CHECK_EQ(t.v, v, "taken out of a temporary"); CHECK(r.moved, "taking out of a temporary did not move"); r.moved = false; } next = M{a.i, v}; }); break;
                }
            }
            catch (pbt::Injected&)
            {
                Life::throw_after = -1; throws++;
                if (rebuilt) { memset(mem[i], 0xA5, sizeof mem[i]); new (mem[i]) V; next = M{0, At<0>().v}; }
                else { next.i = x.index(); next.known = false; if (emplaced) CHECK(next.i == NONE, "holds something after emplace threw"); CHECK(next.i == NONE || next.i == a.i, "another alternative after an exception"); }
                if (i != j) b.known = false;
                moved = false; if (op == 6) b.i = y.index();
            }
            Life::throw_after = -1;
            if (moved) { size_t left = y.index(); CHECK(left == NONE || left == b.i, "a moved-from variant changed alternatives"); b.i = left; b.known = false; }
            a = next; edits++; if (a.i != NONE) kinds |= 1u << a.i;
            long n = 0;
            for (int q = 0; q < S; q++) { check(*o[q], *o[q], m[q], q); n += m[q].i != NONE; }
            Life::expect_live(n, "after step");
        }
        if (edits >= 4 && (kinds & (kinds - 1))) s.nontrivial();
        if (throws) s.label("an injected exception was thrown");
        for (int i = 0; i < S; i++) o[i]->~V();
        Life::expect_live(0, "after destruction");
    }
};
template <int K, Trait R, int Align = 4> struct alignas(Align) A : Alt<K, R> { using Alt<K, R>::Alt; A() {} A(const A&) = default; A(A&&) = default; A& operator=(const A&) = default; A& operator=(A&&) = default; static Arg<K> arg(int v) { return Arg<K>{v}; } };
template <int K> struct P { int v; bool moved; P() : v(K), moved(false) {} P(Arg<K> a) : v(a.v), moved(false) {} static Arg<K> arg(int v) { return Arg<K>{v}; } };

template <class... T> using Box = Pool<estd::variant<T...>, T...>;
typedef Box<A<0, PLAIN>, A<1, PLAIN>, A<2, PLAIN>> Plain3;
typedef Box<A<0, QUIET>, A<1, PLAIN>, A<2, STICKY>, A<3, QUIET>, A<4, STICKY, 32>> Mixed5;
typedef Box<A<0, STICKY>, A<1, STICKY>> Sticky2;
typedef Box<A<0, PLAIN>, A<1, QUIET>, A<0, PLAIN>, A<1, QUIET>> Repeated;
typedef Box<A<0, PLAIN>> Single;
TARGET_FN("plain", 3, Plain3::run<true, false>);
TARGET_FN("plain_faults", 3, Plain3::run<true, true>);
TARGET_FN("mixed", 3, Mixed5::run<true, false>);
TARGET_FN("mixed_faults", 3, Mixed5::run<true, true>);
TARGET_FN("sticky", 2, Sticky2::run<true, true>);
TARGET_FN("repeated", 2, Repeated::run<true, true>);
TARGET_FN("single", 1, Single::run<true, true>);

// trivial alternatives
enum class Color : unsigned char { red, green, blue };
void trivial(pbt::Source& s)
{
    typedef estd::variant<int, const char*, Color> V;
    static const char* const words[] = {"one", "two", "three"};
    V x; size_t i = 0; int v = 0; unsigned steps = 1 + s.size(12);
    for (unsigned k = 0; k < steps; k++)
    {
        unsigned op = (unsigned)s.choose(8); LOG("op " << op);
        switch (op)
        {
            case 0: v = s.integer<int>(); x = v; i = 0; break;
            case 1: v = (int)s.choose(3); x = words[v]; i = 1; break;
            case 2: v = (int)s.choose(3); x = (Color)v; i = 2; break;
            case 3: v = s.integer<int>(); x.emplace<0>(v); i = 0; break;
            case 4: v = (int)s.choose(3); x.emplace<1>(words[v]); i = 1; break;
            case 5: v = (int)s.choose(3); x.emplace<Color>((Color)v); i = 2; break;
            case 6: { V y(x); V z((Color)1); z = y; x = z; break; }
            default: { V y(std::move(x)); x = std::move(y); break; }
        }
        CHECK_EQ(x.index(), i, "index");
        CHECK_EQ(estd::get_if<0>(&x) != nullptr, i == 0, "int"); CHECK_EQ(estd::get_if<1>(&x) != nullptr, i == 1, "pointer"); CHECK_EQ(estd::get_if<2>(&x) != nullptr, i == 2, "enum");
        if (i == 0) CHECK_EQ(estd::get<int>(x), v, "value"); else if (i == 1) CHECK(estd::get<1>(x) == words[v], "value"); else CHECK_EQ((int)estd::get<2>(x), v, "value");
    }
    if (steps >= 3) s.nontrivial();
}
TARGET_FN("trivial", 2, trivial);
}
