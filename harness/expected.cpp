// Expected values against (has value, value, error), one history at a time.
#include <estd/expected.h>
#include "pbt.h"
#include <new>
#include <string>

namespace {
using pbt::Life;
long saved = -1;
inline int hush() { saved = Life::throw_after; Life::throw_after = -1; return 0; }
inline void unhush() { Life::throw_after = saved; }
template <int K> struct Arg { int v; };
// a value or error whose moves never throw; everything else may
template <int K, bool Assign> struct Item : pbt::Tracked
{
    Item() : pbt::Tracked(K) {}
    Item(Arg<K> a) : pbt::Tracked(a.v) {}
    Item(Arg<K> a, int more) : pbt::Tracked(a.v + more) {}
    Item(const Item& o) : pbt::Tracked(static_cast<const pbt::Tracked&>(o)) {}
    Item(Item&& o) noexcept : pbt::Tracked(hush()) { unhush(); Life::used(&o, "moved from"); v = o.v; moved = o.moved; o.moved = true; }
    Item& operator=(const Item& o) { pbt::Tracked::operator=(static_cast<const pbt::Tracked&>(o)); return *this; }
    Item& operator=(Item&& o) noexcept { Life::used(this, "assigned"); Life::used(&o, "moved from"); v = o.v; moved = o.moved; if (this != &o) o.moved = true; return *this; }
};
template <int K> struct Item<K, false> : pbt::Tracked
{
    Item() : pbt::Tracked(K) {}
    Item(Arg<K> a) : pbt::Tracked(a.v) {}
    Item(Arg<K> a, int more) : pbt::Tracked(a.v + more) {}
    Item(const Item& o) : pbt::Tracked(static_cast<const pbt::Tracked&>(o)) {}
    Item(Item&& o) noexcept : pbt::Tracked(hush()) { unhush(); Life::used(&o, "moved from"); v = o.v; moved = o.moved; o.moved = true; }
    Item& operator=(const Item&) = delete;
};
struct M { bool has = true; int v = 0, e = 0; bool known = true; };
template <class T> int val(const T& t) { return t.v; }
template <class T> bool ok(const T& t) { return Life::alive(&t) && !t.moved; }
int val(short v) { return v; }
bool ok(short) { return true; }
int val(int v) { return v; }
bool ok(int) { return true; }

// how to make a T of value v, and the default of T
template <class T> struct How;
template <int K, bool A> struct How<Item<K, A>> { static Arg<K> arg(int v) { return Arg<K>{v}; } static int dflt() { return K; } static constexpr bool tracked = true, assignable = A; static constexpr int more = 7; };
template <> struct How<short> { static short arg(int v) { return (short)v; } static int dflt() { return 0; } static constexpr bool tracked = false, assignable = true; static constexpr int more = 0; };
template <> struct How<int> { static int arg(int v) { return v; } static int dflt() { return 0; } static constexpr bool tracked = false, assignable = true; static constexpr int more = 0; };

template <class T, class X> auto& emplace_more(X& x, int v, std::true_type) { return x.emplace(How<T>::arg(v - How<T>::more), How<T>::more); }
template <class T, class X> auto& emplace_more(X& x, int v, std::false_type) { return x.emplace(How<T>::arg(v)); }
template <class T, class X, class Tag> X* make_more(void* p, Tag tag, int v, std::true_type) { return new (p) X(tag, How<T>::arg(v - How<T>::more), How<T>::more); }
template <class T, class X, class Tag> X* make_more(void* p, Tag tag, int v, std::false_type) { return new (p) X(tag, How<T>::arg(v)); }

template <class T, class E, bool Inject> void history(pbt::Source& s)
{
    Life::reset();
    typedef estd::expected<T, E> X; typedef estd::unexpected<E> U;
    constexpr int S = 2;
    alignas(X) static unsigned char mem[S][sizeof(X)];
    X* o[S]; M m[S]; unsigned edits = 0, throws = 0, changes = 0;
    for (int i = 0; i < S; i++) { memset(mem[i], 0xA5, sizeof mem[i]); o[i] = new (mem[i]) X; m[i].v = How<T>::dflt(); }
    unsigned steps = 1 + s.size(16);
    for (unsigned k = 0; k < steps; k++)
    {
        int i = (int)s.choose(S), j = 1 - i, v = 100 + (int)s.choose(1000);
        long after = Inject && s.one_in(3) ? (long)s.choose(4) : -1;
        unsigned op = (unsigned)s.choose(18);
        X &x = *o[i], &y = *o[j]; M &a = m[i], &b = m[j]; M next = a; bool rebuilt = false;
        LOG("op " << op << " on " << i << (a.has ? " value " : " error ") << (a.has ? a.v : a.e) << ", other " << (b.has ? "value" : "error") << ", new " << v << (after >= 0 ? " throwing after " + std::to_string(after) : ""));
        auto gone = [&] { x.~X(); rebuilt = true; memset(mem[i], 0xA5, sizeof mem[i]); };
        auto good = [&](int w) { M r; r.has = true; r.v = w; return r; };
        auto bad = [&](int w) { M r; r.has = false; r.e = w; return r; };
        try
        {
            switch (op)
            {
                case 0: { T c(How<T>::arg(v)); Life::throw_after = after; x = (const T&)c; Life::throw_after = -1; next = good(v); CHECK(ok(c), "copied from, yet moved"); break; }
                case 1: { T c(How<T>::arg(v)); Life::throw_after = after; x = std::move(c); Life::throw_after = -1; next = good(v); break; }
                case 2: { U u{E(How<E>::arg(v))}; Life::throw_after = after; x = u; Life::throw_after = -1; next = bad(v); CHECK_EQ(val(u.error()), v, "the unexpected assigned from changed"); break; }
                case 3: { U u{E(How<E>::arg(v))}; U w(u); Life::throw_after = after; x = std::move(w); Life::throw_after = -1; next = bad(v); break; }
                case 4: { Life::throw_after = after; auto& r = x.emplace(How<T>::arg(v)); Life::throw_after = -1; next = good(v); CHECK(&r == &*x, "emplace returns the held value"); break; }
                case 5: { gone(); Life::throw_after = after; new (mem[i]) X((const X&)y); Life::throw_after = -1; next = b; break; }
                case 6: { bool hv = b.has; gone(); Life::throw_after = -1; new (mem[i]) X(std::move(y)); next = b; b.known = false; CHECK_EQ(y.has_value(), hv, "source of a move");
                    if (How<T>::tracked && b.has) CHECK(!ok(*y), "moving copied the value"); if (How<E>::tracked && !b.has) CHECK(!ok(y.error()), "moving copied the error"); break; }
                case 7: { gone(); Life::throw_after = after; new (mem[i]) X(estd::in_place_t{}, How<T>::arg(v)); Life::throw_after = -1; next = good(v); break; }
                case 8: { gone(); Life::throw_after = after; new (mem[i]) X(estd::unexpect_t{}, How<E>::arg(v)); Life::throw_after = -1; next = bad(v); break; }
                case 9: { T c(How<T>::arg(v)); gone(); Life::throw_after = after; if (k & 1) new (mem[i]) X((const T&)c); else new (mem[i]) X(std::move(c)); Life::throw_after = -1; next = good(v); break; }
                case 10: { const U u{E(How<E>::arg(v))}; gone(); Life::throw_after = after; new (mem[i]) X(u); Life::throw_after = -1; next = bad(v); break; }
                case 11: if (a.known) { // taking the content out
                    if (a.has) { T t(*std::move(x)); CHECK_EQ(val(t), a.v, "taken out"); if (How<T>::tracked) CHECK(!ok(*x), "taking out of a temporary did not move"); next.known = false; }
                    else { E t(x.error()); CHECK_EQ(val(t), a.e, "copied error"); } } break;
                case 12: { const U u{E(How<E>::arg(v))}; Life::throw_after = after; X& r = (x = u); Life::throw_after = -1; next = bad(v); CHECK(&r == &x, "assignment yields the object"); CHECK_EQ(val(u.error()), v, "the unexpected assigned from changed"); break; }
                case 13: { const auto arg = How<E>::arg(v); typedef estd::remove_cvref_t<decltype(arg)> G; const estd::unexpected<G> u{G(arg)}; Life::throw_after = after; x = u; Life::throw_after = -1; next = bad(v); break; }
                case 14: { Life::throw_after = after; auto& r = emplace_more<T>(x, v, std::integral_constant<bool, How<T>::tracked>()); Life::throw_after = -1; next = good(v); CHECK(&r == &*x, "emplace returns the held value"); break; }
                case 15: { gone(); Life::throw_after = after; make_more<T, X>(mem[i], estd::in_place_t{}, v, std::integral_constant<bool, How<T>::tracked>()); Life::throw_after = -1; next = good(v); break; }
                case 16: { gone(); Life::throw_after = after; make_more<E, X>(mem[i], estd::unexpect_t{}, v, std::integral_constant<bool, How<E>::tracked>()); Life::throw_after = -1; next = bad(v); break; }
                default: { T d(How<T>::arg(v)); Life::throw_after = after; T r = ((const X&)x).value_or(d); Life::throw_after = -1; if (a.known) { CHECK_EQ(val(r), a.has ? a.v : v, "value_or"); CHECK(ok(r), "value_or"); } break; }
            }
        }
        catch (pbt::Injected&)
        {
            Life::throw_after = -1; throws++;
            if (rebuilt) { memset(mem[i], 0xA5, sizeof mem[i]); new (mem[i]) X; next = good(How<T>::dflt()); }
            else { CHECK_EQ(x.has_value(), a.has, "an exception changed which of value and error is held"); next = a; if (a.has) next.known = false; }
        }
        Life::throw_after = -1;
        changes += next.has != a.has; a = next; edits++;
        long n = 0;
        for (int q = 0; q < S; q++)
        {
            X& w = *o[q]; const X& c = w; const M& f = m[q];
            CHECK_EQ(c.has_value(), f.has, "slot " << q << " has a value"); CHECK_EQ((bool)c, f.has, "as a bool");
            bool threw = false; try { const auto& r = w.value(); CHECK(&r == &*w, "value() and *"); } catch (estd::bad_expected_access<E>& z) { threw = true; if (f.known) CHECK_EQ(val(z.error()), f.e, "the error in the exception"); }
            CHECK_EQ(threw, !f.has, "value() throws");
            threw = false; try { (void)c.value(); } catch (estd::bad_expected_access<void>&) { threw = true; } CHECK_EQ(threw, !f.has, "const value() throws");
            if (f.has) { if (f.known) { CHECK_EQ(val(*c), f.v, "slot " << q << " value"); CHECK(ok(*c), "slot " << q << " value is not alive"); CHECK(c.operator->() == &*c, "->"); } n += How<T>::tracked; }
            else { if (f.known) { CHECK_EQ(val(c.error()), f.e, "slot " << q << " error"); CHECK(ok(c.error()), "slot " << q << " error is not alive"); CHECK(&w.error() == &c.error(), "error()"); } n += How<E>::tracked; }
        }
        Life::expect_live(n, "after step");
    }
    if (edits >= 4 && changes) s.nontrivial();
    if (throws) s.label("an injected exception was thrown");
    for (int i = 0; i < S; i++) o[i]->~X();
    Life::expect_live(0, "after destruction");
}

// no value type: only whether it went well, and the error if not
template <class E> void nothing(pbt::Source& s)
{
    Life::reset();
    {
        typedef estd::expected<void, E> X;
        X x; bool has = true; int e = 0; unsigned steps = 1 + s.size(8), bads = 0;
        for (unsigned k = 0; k < steps; k++)
        {
            int v = 1 + (int)s.choose(100); unsigned op = (unsigned)s.choose(4); LOG("op " << op << " " << v);
            if (op == 0) { x = estd::unexpected<E>(E(How<E>::arg(v))); has = false; e = v; bads++; }
            else if (op == 1) { const X y(x); CHECK_EQ(y.has_value(), has, "copy"); if (!has) CHECK_EQ(val(y.error()), e, "copied error"); }
            else if (op == 2) { const X y(estd::unexpect_t{}, How<E>::arg(v)); CHECK(!y, "unexpected"); CHECK_EQ(val(y.error()), v, "error"); X z(y); CHECK_EQ(val(z.error()), v, "error"); X u(std::move(z)); CHECK_EQ(val(u.error()), v, "error"); }
            else { const X y{}; CHECK(y.has_value(), "default"); const X z{estd::in_place_t{}}; CHECK((bool)z, "in place"); }
            CHECK_EQ(x.has_value(), has, "has value"); CHECK_EQ((bool)x, has, "as a bool");
            if (!has) CHECK_EQ(val(x.error()), e, "error");
            bool threw = false; try { x.value(); } catch (estd::bad_expected_access<E>&) { threw = true; } CHECK_EQ(threw, !has, "value() throws");
        }
        if (bads && steps >= 3) s.nontrivial();
    }
    Life::expect_live(0, "end");
}
typedef Item<1, true> V1; typedef Item<2, true> E2; typedef Item<3, false> V3; typedef Item<4, false> E4;
#ifdef NOSTD
constexpr bool FAULTS = false;      // estd's own is_nothrow_constructible takes nothing to throw ("exceptions are usually off")
#else
constexpr bool FAULTS = true;
#endif
TARGET_FN("tracked", 3, history<V1, E2, false>);
TARGET_FN("tracked_faults", 4, history<V1, E2, FAULTS>);
TARGET_FN("tracked_value_plain_error", 2, history<V1, int, FAULTS>);
TARGET_FN("plain_value_tracked_error", 2, history<int, E2, FAULTS>);
TARGET_FN("not_assignable", 2, history<V3, E4, FAULTS>);
TARGET_FN("plain", 2, history<int, short, false>);
TARGET_FN("plain_same", 1, history<int, int, false>);
TARGET_FN("tracked_same", 2, history<V1, V1, FAULTS>);
TARGET_FN("void_plain", 1, nothing<int>);
TARGET_FN("void_tracked", 1, nothing<E2>);

#if __cpp_concepts
// made from an expected of other types
TARGET(converting, 1)
{
    Life::reset();
    {
        typedef estd::expected<V1, E2> X; typedef estd::expected<Arg<1>, Arg<2>> F; int v = (int)s.choose(1000); bool has = s.flip();
        const F f = has ? F(Arg<1>{v}) : F(estd::unexpected<Arg<2>>(Arg<2>{v}));
        X x(f); CHECK_EQ(x.has_value(), has, "converted"); if (has) CHECK_EQ(x->v, v, "converted value"); else CHECK_EQ(x.error().v, v, "converted error"); Life::expect_live(1, "converted");
        const estd::expected<short, short> g = has ? estd::expected<short, short>((short)v) : estd::expected<short, short>(estd::unexpected<short>((short)v));
        estd::expected<int, long> h(g); CHECK_EQ(h.has_value(), has, "converted"); if (has) CHECK_EQ(*h, v, "converted value"); else CHECK_EQ(h.error(), (long)v, "converted error");
        s.nontrivial();
    }
    Life::expect_live(0, "end");
}
#endif
}
