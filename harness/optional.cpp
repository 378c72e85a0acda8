// Optional values of every representation against a pair (engaged, value), one history at a time.
#include <estd/optional.h>
#include "pbt.h"
#include <new>

namespace {
using pbt::Life;

// assignable / not assignable / move-only instrumented contents
struct Sticky : pbt::Tracked   // copyable, not assignable
{
    using pbt::Tracked::Tracked;
    Sticky(const Sticky& o) : pbt::Tracked(o) {}
    Sticky(Sticky&& o) : pbt::Tracked(static_cast<pbt::Tracked&&>(o)) {}
    Sticky& operator=(const Sticky&) = delete;
};
struct Quiet : pbt::Tracked    // moves never throw
{
    using pbt::Tracked::Tracked;
    Quiet(const Quiet&) = default;
    Quiet& operator=(const Quiet&) = default;
    Quiet(Quiet&& o) noexcept : pbt::Tracked(0 * quietly()) { unquiet(); v = o.v; o.moved = true; }
    Quiet& operator=(Quiet&& o) noexcept { v = o.v; moved = o.moved; if (&o != this) o.moved = true; return *this; }
    static int quietly() { saved = Life::throw_after; Life::throw_after = -1; return 0; }
    static void unquiet() { Life::throw_after = saved; }
    static long saved;
};
long Quiet::saved = -1;
struct alignas(32) Broad : pbt::Tracked { using pbt::Tracked::Tracked; };

struct M { bool has = false; int v = 0; bool known = true; };

template <class T> constexpr bool copyable = !std::is_same<T, pbt::MoveOnly>::value;
template <class T> constexpr bool assignable = !std::is_same<T, Sticky>::value;
template <class O> O* fresh(void* p) { memset(p, 0xA5, sizeof(O)); return nullptr; }

template <class T> void lifetimes(pbt::Source& s)
{
    Life::reset();
    typedef estd::optional<T> O;
    constexpr int N = 3;
    alignas(O) static unsigned char mem[N][sizeof(O)];
    O* o[N]; M m[N];
    unsigned edits = 0, throws = 0;
    for (int i = 0; i < N; i++) { memset(mem[i], 0xA5, sizeof mem[i]); o[i] = new (mem[i]) O; }
    long mine = 0;
    auto count = [&] { long n = 0; for (auto& x : m) n += x.has; return n; };
    unsigned steps = 1 + s.size(20);
    for (unsigned k = 0; k < steps; k++)
    {
        int i = (int)s.choose(N), j = (int)s.choose(N), v = 1 + (int)s.choose(1000);
        O &x = *o[i], &y = *o[j]; M &a = m[i], &b = m[j];
        bool inject = s.one_in(4), rebuilt = false, was = a.has;
        long after = inject ? (long)s.choose(4) : -1;
        unsigned op = (unsigned)s.choose(16);
        LOG("step " << k << " op " << op << " on " << i << (a.has ? " (engaged)" : " (empty)") << " other " << j << (b.has ? " (engaged)" : " (empty)") << " value " << v << (inject ? " throwing after " + std::to_string(after) : ""));
        M next = a, other = b; bool touch_other = false, emplaced = false;
        try
        {
            switch (op)
            {
                case 0: x.reset(); next = M{}; break;
                case 1: x = estd::nullopt; next = M{}; break;
                case 2: if constexpr (copyable<T> && assignable<T>) { T c(v); Life::throw_after = after; x = c; Life::throw_after = -1; CHECK(!c.moved, "assigning a value moved from it"); next = M{true, v, true}; } break;
                case 3: if constexpr (assignable<T>) { T c(v); Life::throw_after = after; x = std::move(c); Life::throw_after = -1; next = M{true, v, true}; } break;
                case 4: { emplaced = true; Life::throw_after = after; T& r = x.emplace(v); Life::throw_after = -1; next = M{true, v, true}; CHECK_EQ(r.v, v, "emplace returns the new value"); CHECK(&r == &*x, "emplace returns the held object"); break; }
                case 5: if constexpr (copyable<T>) { Life::throw_after = after; x = y; Life::throw_after = -1; next = b; } break;
                case 6: if constexpr (copyable<T>) { const O& cy = y; Life::throw_after = after; x = cy; Life::throw_after = -1; next = b; } break;
                case 7: if (i != j) { Life::throw_after = after; x = std::move(y); Life::throw_after = -1; next = b; other.known = false; touch_other = true; } break;
                case 8: if constexpr (copyable<T>) if (i != j) { // copy construct in place of i
                    x.~O(); a = M{}; was = false; rebuilt = true; memset(mem[i], 0xA5, sizeof mem[i]); Life::throw_after = after; new (mem[i]) O((const O&)y); Life::throw_after = -1; next = b; } break;
                case 9: if (i != j) { x.~O(); a = M{}; was = false; rebuilt = true; memset(mem[i], 0xA5, sizeof mem[i]); Life::throw_after = after; new (mem[i]) O(std::move(y)); Life::throw_after = -1; next = b; other.known = false; touch_other = true; } break;
                case 10: { x.~O(); a = M{}; was = false; rebuilt = true; memset(mem[i], 0xA5, sizeof mem[i]); Life::throw_after = after; new (mem[i]) O(estd::in_place_t{}, v); Life::throw_after = -1; next = M{true, v, true}; break; }
                case 11: { T c(v); x.~O(); a = M{}; was = false; rebuilt = true; memset(mem[i], 0xA5, sizeof mem[i]); Life::throw_after = after; new (mem[i]) O(std::move(c)); Life::throw_after = -1; next = M{true, v, true}; break; }
                case 12: if (a.has) { x->v = v; x->moved = false; next = M{true, v, true}; } break;
                case 13: if (a.has) { const bool sure = a.known; const int w = a.v; T t(std::move(x).value()); if (sure) { CHECK_EQ(t.v, w, "value() of an expiring optional"); CHECK(!t.moved, "value() of an expiring optional gave something moved from"); } next = a; next.known = false; } break;
                case 14: if (a.has) { const bool sure = a.known; const int w = a.v; const T& t = static_cast<const O&&>(x).value(); if (sure) CHECK_EQ(t.v, w, "value() of a const expiring optional"); CHECK(&t == &*x, "value() refers to what is held"); next = a; } break;
                default: { x.~O(); a = M{}; was = false; rebuilt = true; memset(mem[i], 0xA5, sizeof mem[i]); new (mem[i]) O(estd::nullopt); next = M{}; break; }
            }
        }
        catch (pbt::Injected&)
        {
            Life::throw_after = -1; throws++;
            // nothing was made where nothing was; what was held is either still there or gone, never half of each
            if (rebuilt) { memset(mem[i], 0xA5, sizeof mem[i]); new (mem[i]) O; next = M{}; }
            else { next.has = x.has_value(); next.known = false; if (!was) CHECK(!next.has, "engaged although constructing the value threw"); if (emplaced) CHECK(!next.has, "engaged after emplace threw"); if (was && !emplaced && assignable<T>) CHECK(next.has, "assigning over a value threw and the value is gone"); }
            touch_other = false; if (i != j && (op == 7 || op == 9)) { b.known = false; }
        }
        Life::throw_after = -1;
        if (touch_other) b = other;
        a = next; edits++;
        for (int q = 0; q < N; q++)
        {
            const O& c = *o[q];
            CHECK_EQ(c.has_value(), m[q].has, "slot " << q << " engaged");
            CHECK_EQ((bool)c, m[q].has, "slot " << q << " as a bool");
            if (m[q].has)
            {
                CHECK(Life::alive(&*c), "slot " << q << " claims a value that is not alive");
                if (m[q].known) { CHECK_EQ((*c).v, m[q].v, "slot " << q << " value"); CHECK_EQ(c.value().v, m[q].v, "value()"); CHECK_EQ(c->v, m[q].v, "->"); CHECK(!c->moved, "slot " << q << " holds a moved-from value"); }
            }
            else { bool threw = false; try { (void)c.value(); } catch (estd::bad_optional_access&) { threw = true; } CHECK(threw, "value() of an empty optional did not throw"); }
            if constexpr (copyable<T>) if (q == i)
            {   // a default is only ever copied, whichever the optional
                T d(77); const bool sure = !m[q].has || m[q].known; const int w = m[q].has ? m[q].v : 77;
                { T r(c.value_or(d)); if (sure) CHECK_EQ(r.v, w, "value_or"); CHECK(!d.moved && d.v == 77, "value_or moved from its default"); }
                { O t(c); T r(std::move(t).value_or(d)); if (sure) CHECK_EQ(r.v, w, "value_or of a temporary"); CHECK(!d.moved && d.v == 77, "value_or of a temporary moved from its default"); }
                { T r(c.value_or(std::move(d))); if (sure) { CHECK_EQ(r.v, w, "value_or with a default to be moved"); CHECK(!r.moved, "value_or gave something moved from"); } if (m[q].has) CHECK(!d.moved, "value_or moved from a default it did not need"); }
            }
        }
        Life::expect_live(count(), "after step");
    }
    if (edits >= 4) s.nontrivial();
    if (throws) s.label("an injected exception was thrown");
    for (int i = 0; i < N; i++) o[i]->~O();
    Life::expect_live(0, "after destruction");
    (void)mine;
}

// the representations of an optional number: any of them converts to and from the others
template <int Null> struct NullInt { typedef estd::layer1::optional<int, Null> type; static bool null(int v) { return v == Null; } static int fit(int v) { return v; } };
struct Flagged { typedef estd::optional<int> type; static bool null(int) { return false; } static int fit(int v) { return v; } };
struct Packed { typedef estd::optional<int, estd::internal::layer1::optional_base<int, 12, 0>> type; static bool null(int) { return false; } static int fit(int v) { return (v & 0x7ff) - (v & 0x800); } };
struct Longer { typedef estd::optional<long> type; static bool null(int) { return false; } static int fit(int v) { return v; } };

template <class R, class O> void same(const O& x, const M& m, const char* what)
{
    CHECK_EQ(x.has_value(), m.has, what);
    if (m.has) { CHECK_EQ((long)*x, (long)m.v, what); CHECK_EQ((long)x.value(), (long)m.v, what); }
    else { bool t = false; try { (void)x.value(); } catch (estd::bad_optional_access&) { t = true; } CHECK(t, what << ": value() of an empty one"); }
    CHECK_EQ((bool)x, m.has, what);
}
inline M put(bool null, int v) { M m; if (!null) { m.has = true; m.v = v; } return m; }
int number(pbt::Source& s) { return s.one_in(3) ? s.pick({0, -1, 1, 4096, 7}) : (int)s.integer<int>(); }

template <class R> void numbers(pbt::Source& s)
{
    typedef typename R::type O;
    O x; M m; same<R>(x, m, "default");
    unsigned steps = 1 + s.size(14), edits = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        int v = R::fit(number(s)), w = R::fit(number(s));
        unsigned op = (unsigned)s.choose(9);
        LOG("op " << op << " value " << v << " other " << w);
        switch (op)
        {
            case 0: x = v; m = put(R::null(v), v); break;
            case 1: { const int c = v; x = c; m = put(R::null(v), v); break; }
            case 2: x.reset(); m = M{}; break;
            case 3: x = estd::nullopt; m = M{}; break;
            case 4: { O c(x); same<R>(c, m, "copy"); O d(std::move(c)); same<R>(d, m, "moved copy"); O e; e = d; same<R>(e, m, "assigned copy"); break; }
            case 5: { O c{int(v)}; same<R>(c, put(R::null(v), v), "constructed from a value"); x = c; m = put(R::null(v), v); break; }
            case 6: if constexpr (std::is_same<O, typename Flagged::type>::value) { x.emplace(v); m = put(false, v); } break;
            case 7: { O c(estd::nullopt); same<R>(c, M{}, "from nullopt"); if (s.flip()) c = v; x = std::move(c); m = M{}; if (c.has_value()) m = put(R::null(v), v); break; }
            default: break;
        }
        edits++;
        same<R>(x, m, "after step");
        // comparisons with a plain value
        CHECK_EQ(x == w, m.has && m.v == w, "== value"); CHECK_EQ(w == x, m.has && m.v == w, "value ==");
        CHECK_EQ(x != w, !(m.has && m.v == w), "!= value"); CHECK_EQ(w != x, !(m.has && m.v == w), "value !=");
        { const O& cx = x; CHECK_EQ(cx == w, m.has && m.v == w, "constant == value"); CHECK_EQ(cx != w, !(m.has && m.v == w), "constant != value"); CHECK_EQ(w != cx, !(m.has && m.v == w), "value != constant"); CHECK_EQ(cx == (long)w, m.has && m.v == w, "== another type of value"); CHECK_EQ(cx != (long)w, !(m.has && m.v == w), "!= another type of value"); }
        { estd::optional<long> z; if (s.flip()) z = (long)w; bool eq = m.has == z.has_value() && (!m.has || m.v == w); CHECK_EQ(x == z, eq, "== optional of another type"); CHECK_EQ(z == x, eq, "optional of another type =="); CHECK_EQ(x != z, !eq, "!= optional of another type"); CHECK_EQ(z != x, !eq, "optional of another type !="); }
        CHECK_EQ(x < w, m.has && m.v < w, "< value"); CHECK_EQ(x > w, m.has && m.v > w, "> value");
        CHECK_EQ(x <= w, m.has && m.v <= w, "<= value"); CHECK_EQ(x >= w, m.has && m.v >= w, ">= value");
        if (m.has) CHECK(x == m.v && !(x != m.v) && x <= m.v && x >= m.v && !(x < m.v) && !(x > m.v), "comparisons with its own value");
        CHECK_EQ((long)x.value_or(w), (long)(m.has ? m.v : w), "value_or");
        O t(x); CHECK_EQ((long)std::move(t).value_or(w), (long)(m.has ? m.v : w), "value_or of a temporary");
        // and with another optional
        O y; M n; if (s.flip()) { y = w; n = put(R::null(w), w); } if (s.one_in(4)) { y = x; n = m; }
        bool eq = m.has == n.has && (!m.has || m.v == n.v);
        CHECK_EQ(x == y, eq, "== optional"); CHECK_EQ(y == x, eq, "== optional, swapped"); CHECK_EQ(x != y, !eq, "!= optional");
    }
    if constexpr (std::is_same<R, Flagged>::value || std::is_same<R, NullInt<0>>::value)
    {   // equal optionals hash alike, whatever is left in the storage of an empty one
        alignas(O) unsigned char g[2][sizeof(O)]; memset(g[0], 0x11, sizeof g[0]); memset(g[1], 0xEE, sizeof g[1]);
        O &p = *new (g[0]) O(x), &q = *new (g[1]) O(x); if (s.flip()) { p = 5; q = 17; p = x; q = x; }
        CHECK(p == q, "two copies differ");
        typedef typename std::conditional<std::is_same<R, Flagged>::value, estd::internal::optional_base<int>, estd::internal::layer1::optional<int, 0>>::type base;
        estd::hash<estd::optional<int, base>> h;
        CHECK_EQ(h(p), h(q), "equal optionals hash differently");
    }
    if (edits >= 3) s.nontrivial();
}

// converting construction and assignment between representations
template <class A, class B> void convert(pbt::Source& s)
{
    typedef typename A::type X; typedef typename B::type Y;
    X x; M m; int v = A::fit(B::fit(number(s))), w = B::fit(number(s));
    bool engaged = s.flip();
    if (engaged) { x = v; m = put(A::null(v), v); }
    LOG("from " << (m.has ? std::to_string(m.v) : "empty"));
    M n = m.has ? put(B::null(m.v), m.v) : M{};
    Y y(x); same<B>(y, n, "converted");
    same<A>(x, m, "source of a conversion");
    Y z; if (s.flip()) z = w;
    z = x; same<B>(z, n, "assigned from another representation");
    X x2(x); Y u(std::move(x2)); same<B>(u, n, "moved from another representation");
    CHECK_EQ(x == y, m.has == n.has && (!m.has || m.v == n.v), "== across representations");
    if (m.has) s.nontrivial();
}

void boolean(pbt::Source& s)
{
    estd::optional<bool> f; estd::layer1::optional<bool> p; M m;
    unsigned steps = 1 + s.size(8);
    for (unsigned k = 0; k < steps; k++)
    {
        bool v = s.flip(); unsigned op = (unsigned)s.choose(4);
        LOG("op " << op << " " << v);
        switch (op) { case 0: case 1: f = v; p = v; m = put(false, v); break; case 2: f.reset(); p.reset(); m = M{}; break; default: f = estd::nullopt; p = estd::nullopt; m = M{}; }
        same<Flagged>(f, m, "optional<bool>"); same<Flagged>(p, m, "one-byte optional<bool>");
        bool w = s.flip();
        CHECK_EQ(f == w, m.has && (bool)m.v == w, "=="); CHECK_EQ(p == w, m.has && (bool)m.v == w, "==");
        CHECK_EQ(f.value_or(w), m.has ? (bool)m.v : w, "value_or"); CHECK_EQ(p.value_or(w), m.has ? (bool)m.v : w, "value_or");
        estd::layer1::optional<bool> q(p); same<Flagged>(q, m, "copy");
        estd::optional<bool> g(f); same<Flagged>(g, m, "copy");
    }
    if (steps >= 3) s.nontrivial();
}

void alignment(pbt::Source& s)
{
    Life::reset();
    {
        struct { char c; estd::optional<Broad> o; } h; struct { char c; estd::optional<pbt::Tracked> o; } g; struct { char c; estd::optional<long double> o; } q;
        h.o.emplace((int)s.choose(100)); g.o.emplace(1); q.o = 1.0L;
        CHECK_EQ((uintptr_t)&*h.o % alignof(Broad), (uintptr_t)0, "an over-aligned value");
        CHECK_EQ((uintptr_t)&*g.o % alignof(pbt::Tracked), (uintptr_t)0, "a value");
        CHECK_EQ((uintptr_t)&*q.o % alignof(long double), (uintptr_t)0, "a long double");
    }
    Life::expect_live(0, "end"); s.nontrivial();
}
TARGET_FN("lifetimes", 6, lifetimes<pbt::Tracked>);
TARGET_FN("lifetimes_nothrow_move", 4, lifetimes<Quiet>);
TARGET_FN("lifetimes_not_assignable", 3, lifetimes<Sticky>);
TARGET_FN("lifetimes_move_only", 3, lifetimes<pbt::MoveOnly>);
TARGET_FN("lifetimes_over_aligned", 1, lifetimes<Broad>);
TARGET_FN("numbers_flagged", 4, numbers<Flagged>);
TARGET_FN("numbers_null_zero", 3, numbers<NullInt<0>>);
TARGET_FN("numbers_null_minus_one", 3, numbers<NullInt<-1>>);
TARGET_FN("numbers_null_4096", 2, numbers<NullInt<4096>>);
TARGET_FN("numbers_packed", 3, numbers<Packed>);
TARGET_FN("convert_f_n0", 1, convert<Flagged, NullInt<0>>);
TARGET_FN("convert_n1_f", 1, convert<NullInt<-1>, Flagged>);
TARGET_FN("convert_n1_n0", 1, convert<NullInt<-1>, NullInt<0>>);
TARGET_FN("convert_f_l", 1, convert<Flagged, Longer>);
TARGET_FN("convert_p_f", 1, convert<Packed, Flagged>);
TARGET_FN("convert_p_n0", 1, convert<Packed, NullInt<0>>);
TARGET_FN("boolean", 2, boolean);
TARGET_FN("alignment", 1, alignment);
}
