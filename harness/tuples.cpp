// Pairs, tuples and parameter-pack lists against plain arrays of (value, moved, address) and run-time lists.
#include <estd/tuple.h>
#include <estd/utility.h>
#include <estd/algorithm.h>
#include <estd/internal/variadic.h>
#include "pbt.h"
#include <array>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include <vector>

namespace {
using pbt::Life; using pbt::Tracked; using pbt::MoveOnly;

// a value that counts what happened to it, so that "forwarded" can be told from "copied"
struct Counts { int copies = 0, moves = 0; } counts;
struct Item : Tracked
{
    Item() {}
    Item(int v) : Tracked(v) {}
    Item(int a, int b) : Tracked(a * 1000 + b) {}
    Item(const Item& o) : Tracked(o) { counts.copies++; }
    Item(Item&& o) : Tracked(std::move(o)) { counts.moves++; }
    Item& operator=(const Item& o) { Tracked::operator=(o); counts.copies++; return *this; }
    Item& operator=(Item&& o) { Tracked::operator=(std::move(o)); counts.moves++; return *this; }
};
// also where the fallback build makes them copyable, move-only values are not copied here
template <class T> struct CanCopy : std::integral_constant<bool, std::is_copy_constructible<T>::value && !std::is_base_of<MoveOnly, T>::value> {};
struct Solo : MoveOnly { using MoveOnly::MoveOnly; Solo() {} PBT_SOLO(Solo, MoveOnly) Solo(int a, int b) : MoveOnly(a * 1000 + b) {} Solo(Solo&&) = default; Solo& operator=(Solo&&) = default; };

struct E { int v; bool moved; };
template <class T> void same(const T& t, const E& e, const char* what)
{
    CHECK(Life::alive(&t), what << ": element not alive");
    CHECK_EQ(t.v, e.v, what);
    CHECK_EQ(t.moved, e.moved, what << ": moved-from state of an element worth " << e.v);
}

// ------------------------------------------------------------------ pair
template <class T1, class T2> struct PairHistory
{
    typedef estd::pair<T1, T2> P;
    struct M { E a, b; };
    static void check(P* o[], M m[], int S, const char* what)
    {
        for (int i = 0; i < S; i++) { same(o[i]->first, m[i].a, what); same(o[i]->second, m[i].b, what); }
        Life::expect_live(2 * S, what);
    }
    template <class X> static typename std::enable_if<CanCopy<X>::value, X>::type dup(const X& x) { return x; }
    template <bool Copyable> static typename std::enable_if<Copyable, bool>::type copying(pbt::Source& s, P* o[], M m[], unsigned op, int i, int j, int v, int w)
    {
        switch (op)
        {
        case 0: if (i == j) return false; { LOG("o" << i << " rebuilt as a copy of o" << j); o[i]->~P(); new (o[i]) P(*o[j]); m[i] = m[j]; return true; }
        case 1: { LOG("o" << i << " = o" << j); P& r = (*o[i] = *o[j]); CHECK_EQ(&r, o[i], "copy assignment returns the object"); m[i] = m[j]; return true; }
        case 2: { LOG("o" << i << " from two lvalues " << v << ", " << w); { T1 a(v); T2 b(w); o[i]->~P(); new (o[i]) P(a, b); same(a, E{v, false}, "argument passed as an lvalue"); same(b, E{w, false}, "argument passed as an lvalue"); } m[i] = M{{v, false}, {w, false}}; return true; }
        case 3: { LOG("o" << i << " from a const lvalue and an rvalue"); { const T1 a(v); T2 b(w); o[i]->~P(); new (o[i]) P(a, std::move(b)); same(a, E{v, false}, "const argument"); same(b, E{w, true}, "argument passed as an rvalue"); } m[i] = M{{v, false}, {w, false}}; return true; }
        case 4: { LOG("make_pair of lvalues"); { T1 a(v); T2 b(w); P p(estd::make_pair(a, b)); same(a, E{v, false}, "make_pair argument"); same(p.first, E{v, false}, "make_pair"); same(p.second, E{w, false}, "make_pair"); *o[i] = p; } m[i] = M{{v, false}, {w, false}}; return true; }
        default: return false;
        }
    }
    template <bool Copyable> static typename std::enable_if<!Copyable, bool>::type copying(pbt::Source&, P*[], M[], unsigned, int, int, int, int) { return false; }
    static void run(pbt::Source& s)
    {
        Life::reset();
        constexpr int S = 3;
        alignas(P) static unsigned char mem[S][sizeof(P)];
        P* o[S]; M m[S];
        for (int i = 0; i < S; i++)
        {
            memset(mem[i], 0xA5, sizeof mem[i]);
            int v = (int)s.choose(4), w = (int)s.choose(4);
            o[i] = s.one_in(4) ? new (mem[i]) P() : new (mem[i]) P(T1(v), T2(w));
            m[i] = M{{v, false}, {w, false}};
            if (o[i]->first.v != v || o[i]->second.v != w) { CHECK_EQ(o[i]->first.v, 0, "a default pair"); CHECK_EQ(o[i]->second.v, 0, "a default pair"); m[i] = M{{0, false}, {0, false}}; }
        }
        check(o, m, S, "start");
        unsigned steps = 1 + s.size(14), moves = 0, swaps = 0;
        for (unsigned k = 0; k < steps; k++)
        {
            int i = (int)s.choose(S), j = (int)s.choose(S), v = (int)s.choose(5), w = (int)s.choose(5);
            unsigned op = (unsigned)s.choose(14);
            constexpr bool copyable = CanCopy<T1>::value && CanCopy<T2>::value;
            if (op < 5) { if (!copying<copyable>(s, o, m, op, i, j, v, w)) continue; }
            else switch (op)
            {
            case 5: if (i == j) continue; { LOG("o" << i << " rebuilt by move from o" << j); o[i]->~P(); new (o[i]) P(std::move(*o[j])); m[i] = m[j]; m[j].a.moved = m[j].b.moved = true; moves++; break; }
            case 6: { LOG("o" << i << " = move(o" << j << ")"); P& r = (*o[i] = std::move(*o[j])); CHECK_EQ(&r, o[i], "move assignment returns the object");
                m[i] = m[j]; if (i != j) m[j].a.moved = m[j].b.moved = true; moves++; break; }
            case 7: { LOG("o" << i << " from two rvalues"); { T1 a(v); T2 b(w); o[i]->~P(); new (o[i]) P(std::move(a), std::move(b)); same(a, E{v, true}, "argument passed as an rvalue"); same(b, E{w, true}, "argument passed as an rvalue"); } m[i] = M{{v, false}, {w, false}}; moves++; break; }
            case 8: if (i == j) continue; { LOG("o" << i << ".swap(o" << j << ")"); o[i]->swap(*o[j]); std::swap(m[i], m[j]); swaps++; break; }
            case 9: if (i == j) continue; { LOG("swap(o" << i << ", o" << j << ")"); estd::swap(*o[i], *o[j]); std::swap(m[i], m[j]); swaps++; break; }
            case 10: { LOG("make_pair of rvalues"); *o[i] = estd::make_pair(T1(v), T2(w)); m[i] = M{{v, false}, {w, false}}; moves++; break; }
            case 11: { LOG("piecewise " << v << "," << w << " and " << w); o[i]->~P(); new (o[i]) P(estd::piecewise_construct_t{}, estd::forward_as_tuple(std::move(v), std::move(w)), estd::forward_as_tuple(std::move(w))); m[i] = M{{v * 1000 + w, false}, {w, false}}; break; }
            case 12: { LOG("set through get"); estd::get<0>(*o[i]).v = v; estd::get<1>(*o[i]).v = w; m[i].a.v = v; m[i].b.v = w;
                const P& c = *o[i]; CHECK_EQ((const void*)&estd::get<0>(c), (const void*)&o[i]->first, "get<0> refers to the first element"); CHECK_EQ((const void*)&estd::get<1>(c), (const void*)&o[i]->second, "get<1> refers to the second element"); break; }
            case 13:
            {
                std::pair<int, int> a(m[i].a.v, m[i].b.v), b(m[j].a.v, m[j].b.v);
                const P &x = *o[i], &y = *o[j];
                LOG("compare o" << i << " with o" << j);
                CHECK_EQ(x == y, a == b, "== of " << pbt::show(a) << " and " << pbt::show(b));
                CHECK_EQ(x != y, a != b, "!= of " << pbt::show(a) << " and " << pbt::show(b));
                CHECK_EQ(x < y, a < b, "< of " << pbt::show(a) << " and " << pbt::show(b));
                CHECK_EQ(x > y, a > b, "> of " << pbt::show(a) << " and " << pbt::show(b));
                break;
            }
            }
            check(o, m, S, "after the step");
        }
        for (int i = 0; i < S; i++) o[i]->~P();
        Life::expect_live(0, "at the end");
        if (steps >= 3 && (moves + swaps)) s.nontrivial();
        s.label(swaps ? "swaps" : moves ? "moves" : "neither");
    }
};
TARGET_FN("pair_items", 5, PairHistory<Item, Item>::run);
TARGET_FN("pair_move_only", 3, PairHistory<Solo, Solo>::run);
TARGET_FN("pair_mixed", 3, PairHistory<Solo, Item>::run);

// swap and exchange of single objects
template <class T> void swaps(pbt::Source& s, T a, T b, const T& na, const T& nb)
{
    estd::swap(a, b);
    CHECK(a == nb && b == na, "swap exchanges the two values");
    T r = estd::exchange(a, na);
    CHECK(r == nb && a == na, "exchange returns the old value and stores the new one");
    estd::swap(a, a);
    CHECK(a == na, "swap of an object with itself leaves it as it was");
    (void)s;
}
TARGET(swap_exchange, 3)
{
    s.nontrivial();
    switch (s.choose(9))
    {
    case 0: { auto a = s.integer<int>(), b = s.integer<int>(); LOG(a << " " << b); swaps<int>(s, a, b, a, b); break; }
    case 1: { auto a = s.integer<short>(), b = s.integer<short>(); swaps<short>(s, a, b, a, b); break; }
    case 2: { auto a = s.integer<unsigned char>(), b = s.integer<unsigned char>(); swaps<unsigned char>(s, a, b, a, b); break; }
    case 3: { auto a = s.integer<unsigned long>(), b = s.integer<unsigned long>(); swaps<unsigned long>(s, a, b, a, b); break; }
    case 4: { auto a = s.integer<long long>(), b = s.integer<long long>(); swaps<long long>(s, a, b, a, b); break; }
    case 5: { double a = (double)s.integer<int>() / 3, b = (double)s.integer<int>(); swaps<double>(s, a, b, a, b); break; }
    case 6: { std::string a = s.text("abc", 40), b = s.text("xyz", 40); LOG(pbt::quote(a) << " " << pbt::quote(b)); swaps<std::string>(s, a, b, a, b); break; }
    case 7: { auto a = s.integer<char>(), b = s.integer<char>(); swaps<char>(s, a, b, a, b); break; }
    case 8:
    {
        Life::reset();
        { Solo a((int)s.choose(100)), b((int)s.choose(100)); int x = a.v, y = b.v; estd::swap(a, b); same(a, E{y, false}, "swap of move-only objects"); same(b, E{x, false}, "swap of move-only objects");
          Solo r = estd::exchange(a, Solo(7)); same(r, E{y, false}, "exchange of a move-only object"); same(a, E{7, false}, "exchange of a move-only object"); }
        Life::expect_live(0, "after swap");
        break;
    }
    }
}

// ------------------------------------------------------------------ tuple
template <int N> struct Empty { static int built; };
template <class T> struct IsT { static constexpr bool tracked = std::is_base_of<Tracked, T>::value; };

// one element of a tuple seen by a visitor
struct Seen { size_t index; const void* at; int v; };
template <class T> int worth(const T& t) { return t.v; }
template <int N> int worth(const Empty<N>&) { return -7 - N; }
inline int worth(int v) { return v; }
inline int worth(short v) { return v; }
inline int worth(const std::string& v) { return std::atoi(v.c_str()); }
template <class T> void put(T& t, int v) { t.v = v; }
inline void put(int& t, int v) { t = v; }
inline void put(short& t, int v) { t = (short)v; }
inline void put(std::string& t, int v) { t = std::to_string(v); }
template <int N> void put(Empty<N>&, int) {}

struct Watch
{
    std::vector<Seen>& seen; size_t stop; int add; size_t calls = 0;
    Watch(std::vector<Seen>& seen, size_t stop, int add) : seen(seen), stop(stop), add(add) {}
    template <size_t I, class T> bool operator()(estd::variadic::instance<I, T> vi, int extra)
    {
        calls++;
        seen.push_back(Seen{I, &vi.value, worth(vi.value)});
        CHECK_EQ(extra, 42, "the extra argument reaches the visitor");
        CHECK_EQ(vi.index, I, "a visited element knows its index");
        set(vi.value);
        return I == stop;
    }
    template <class T> void set(const T&) const {}
    template <class T> typename std::enable_if<!std::is_const<T>::value && !std::is_empty<T>::value>::type set(T& t) const { if (add) put(t, worth(t) + add); }
};

template <class Tuple, class Seq> struct TupleHistory;
template <class... Ts, size_t... Is> struct TupleHistory<estd::tuple<Ts...>, std::index_sequence<Is...>>
{
    typedef estd::tuple<Ts...> X;
    static constexpr int N = sizeof...(Ts);
    struct M { std::array<int, sizeof...(Ts)> v; std::array<bool, sizeof...(Ts)> moved; };
    template <class T> static T fresh(int v, T*) { return T(v); }
    static std::string fresh(int v, std::string*) { return std::to_string(v); }
    template <int K> static Empty<K> fresh(int, Empty<K>*) { return Empty<K>(); }
    template <class T> static bool empty() { return std::is_empty<T>::value; }
    static int expect(int v, int i) { static const int e[] = { (std::is_empty<Ts>::value ? worth1<Ts>() : 0)... }; static const bool is[] = { std::is_empty<Ts>::value... }; return is[i] ? e[i] : v; }
    template <class T> static typename std::enable_if<std::is_empty<T>::value, int>::type worth1() { return worth(T()); }
    template <class T> static typename std::enable_if<!std::is_empty<T>::value, int>::type worth1() { return 0; }
    template <class T> static typename std::enable_if<IsT<T>::tracked>::type one(const T& t, int v, bool moved, const char* w) { same(t, E{v, moved}, w); }
    template <class T> static typename std::enable_if<!IsT<T>::tracked>::type one(const T& t, int v, bool moved, const char* w) { if (!(moved && std::is_same<T, std::string>::value)) CHECK_EQ(worth(t), v, w); }
    static void check(X* o[], M m[], int S, const char* what)
    {
        for (int i = 0; i < S; i++)
        {
            const X& c = *o[i];
            int dummy[] = { (one<Ts>(estd::get<(int)Is>(c), expect(m[i].v[Is], Is), m[i].moved[Is], what), 0)... }; (void)dummy;
        }
        Life::expect_live(S * tracked(), what);
    }
    static constexpr int tracked() { return (0 + ... + (Is_tracked<Ts>())); }
    template <class T> static constexpr int Is_tracked() { return IsT<T>::tracked ? 1 : 0; }
    static void run(pbt::Source& s)
    {
        Life::reset();
        constexpr int S = 2;
        alignas(X) static unsigned char mem[S][sizeof(X)];
        X* o[S]; M m[S];
        for (int i = 0; i < S; i++)
        {
            memset(mem[i], 0xA5, sizeof mem[i]);
            for (int k = 0; k < N; k++) { m[i].v[k] = (int)s.choose(100); m[i].moved[k] = false; }
            o[i] = new (mem[i]) X(fresh(m[i].v[Is], (Ts*)nullptr)...);
        }
        check(o, m, S, "start");
        unsigned steps = 1 + s.size(12), moves = 0, visits = 0;
        for (unsigned k = 0; k < steps; k++)
        {
            int i = (int)s.choose(S), j = 1 - i;
            switch (s.choose(9))
            {
            case 0: { LOG("o" << i << " copied from o" << j); if (!copy(o[i], *o[j], std::integral_constant<bool, (CanCopy<Ts>::value && ...)>())) continue; m[i] = m[j]; break; }
            case 1: { LOG("o" << i << " moved from o" << j); o[i]->~X(); new (o[i]) X(std::move(*o[j])); m[i] = m[j]; gone(m[j]); moves++; break; }
            case 2: { size_t at = s.choose(N); int v = (int)s.choose(100); LOG("get<" << at << ">(o" << i << ") set to " << v); int dummy[] = { (Is == at ? (put_at<(int)Is>(*o[i], v), 0) : 0)... }; (void)dummy; m[i].v[at] = v; break; }
            case 3: { size_t at = s.choose(N); LOG("element " << at << " of o" << i << " moved out and put back"); int dummy[] = { (Is == at ? (round<(int)Is>(*o[i], m[i].v[at], m[i].moved[at]), 0) : 0)... }; (void)dummy; moves++; break; }
            case 4: case 5:
            {
                size_t stop = s.choose(N + 1); int add = s.flip() ? (int)s.choose(9) : 0;
                std::vector<Seen> seen; int r;
                LOG("visit o" << i << " stopping at " << stop << " adding " << add);
                bool cv = s.flip();
                Watch own(seen, stop, add); const bool keeps = s.flip();
                if (cv) r = keeps ? static_cast<const X&>(*o[i]).visit(own, 42) : static_cast<const X&>(*o[i]).visit(Watch(seen, stop, add), 42);
                else r = keeps ? o[i]->visit(own, 42) : o[i]->visit(Watch(seen, stop, add), 42);
                if (keeps) CHECK_EQ(own.calls, seen.size(), "the visitor itself is called, not a copy");
                CHECK_EQ(seen.size(), stop < (size_t)N ? stop + 1 : (size_t)N, "number of elements visited");
                const void* at[] = { address<(int)Is>(*o[i])... };
                for (size_t q = 0; q < seen.size(); q++)
                {
                    CHECK_EQ(seen[q].index, q, "elements are visited in order");
                    CHECK_EQ(seen[q].v, expect(m[i].v[q], (int)q), "value visited at " << q);
                    if (at[q]) CHECK_EQ(seen[q].at, at[q], "the visitor is given the element itself at " << q);
                }
                CHECK_EQ(r, stop < (size_t)N ? (int)stop : -1, "visit returns the index at which the visitor accepted, -1 if none (stop " << stop << ")");
                if (!cv) for (size_t q = 0; q < seen.size(); q++) m[i].v[q] += add;
                visits++;
                break;
            }
            case 6:
            {
                LOG("apply over o" << i);
                const void* at[] = { address<(int)Is>(*o[i])... };
                int r = estd::apply([&](typename std::conditional<std::is_empty<Ts>::value, Ts, Ts&>::type... a) { const void* got[] = { std::is_empty<Ts>::value ? nullptr : (const void*)&a... }; for (int q = 0; q < N; q++) if (at[q]) CHECK_EQ(got[q], at[q], "apply passes the elements themselves, in order"); int t = 0; int d[] = { (t = t * 3 + worth(a), 0)... }; (void)d; return t; }, *o[i]);
                int t = 0; for (int q = 0; q < N; q++) t = t * 3 + expect(m[i].v[q], q);
                CHECK_EQ(r, t, "apply returns what the function returned");
                break;
            }
            case 7:
            {
                LOG("apply over move(o" << i << ")");
                apply_rvalue(*o[i], m[i]);
                moves++;
                break;
            }
            case 8:
            {
                CHECK_EQ((int)estd::tuple_size<X>::value, N, "tuple_size");
                const bool types[] = { std::is_same<typename estd::tuple_element<Is, X>::type, Ts>::value... };
                for (int q = 0; q < N; q++) CHECK(types[q], "tuple_element<" << q << ">");
                continue;
            }
            }
            check(o, m, S, "after the step");
        }
        for (int i = 0; i < S; i++) o[i]->~X();
        Life::expect_live(0, "at the end");
        if (steps >= 3 && moves + visits >= 2) s.nontrivial();
        s.label(visits ? "visits" : moves ? "moves" : "neither");
    }
    // taking every element out of an rvalue and writing it back: the values pass through intact
    static void apply_rvalue(X& o, M& m)
    {
        std::array<int, sizeof...(Ts)> got;
        estd::apply([&](Ts&&... a) { int d[] = { (got[Is] = take<Ts>(std::move(a), m.moved[Is]), 0)... }; (void)d; }, std::move(o));
        for (int q = 0; q < N; q++) { if (!m.moved[q]) CHECK_EQ(got[q], expect(m.v[q], q), "element " << q << " passed on as an rvalue"); }
        gone(m);
    }
    static void gone(M& m) { static const bool str[] = { std::is_same<Ts, std::string>::value... }; for (int q = 0; q < N; q++) { m.moved[q] = true; if (str[q]) m.v[q] = 0; } }
    template <class T> static int take(T&& a, bool was) { T local(std::move(a)); if (!was) return worth(local); return 0; }
    static bool copy(X* d, const X& x, std::true_type) { d->~X(); new (d) X(x); return true; }
    static bool copy(X*, const X&, std::false_type) { return false; }
    template <int I> static typename std::enable_if<!std::is_empty<typename estd::tuple_element<I, X>::type>::value>::type put_at(X& x, int v) { put(estd::get<I>(x), v); }
    template <int I> static typename std::enable_if<std::is_empty<typename estd::tuple_element<I, X>::type>::value>::type put_at(X&, int) {}
    template <int I> static typename std::enable_if<!std::is_empty<typename estd::tuple_element<I, X>::type>::value>::type round(X& x, int v, bool moved)
    {
        typedef typename estd::tuple_element<I, X>::type T;
        T t(estd::get<I>(std::move(x)));
        one<T>(t, v, moved, "element taken out of an rvalue tuple");
        estd::get<I>(x) = std::move(t);
    }
    template <int I> static typename std::enable_if<std::is_empty<typename estd::tuple_element<I, X>::type>::value>::type round(X&, int, bool) {}
    template <int I> static typename std::enable_if<!std::is_empty<typename estd::tuple_element<I, X>::type>::value, const void*>::type address(const X& x) { return &estd::get<I>(x); }
    template <int I> static typename std::enable_if<std::is_empty<typename estd::tuple_element<I, X>::type>::value, const void*>::type address(const X&) { return nullptr; }
};
template <class X> void tuples(pbt::Source& s) { TupleHistory<X, std::make_index_sequence<estd::tuple_size<X>::value>>::run(s); }
TARGET_FN("tuple_items", 4, tuples<estd::tuple<Item, int, Item>>);
TARGET_FN("tuple_same_types", 3, tuples<estd::tuple<Item, Item, Item, Item>>);
TARGET_FN("tuple_move_only", 3, tuples<estd::tuple<Solo, std::string, Solo>>);
TARGET_FN("tuple_empties", 3, tuples<estd::tuple<Empty<0>, Item, Empty<1>, short, Empty<2>>>);
TARGET_FN("tuple_repeated_empty", 2, tuples<estd::tuple<Empty<0>, int, Empty<0>, Item>>);
TARGET_FN("tuple_one", 2, tuples<estd::tuple<Item>>);

// tuples of references, lookup by type, and building from a tuple
TARGET(tuple_refs, 3)
{
    Life::reset();
    {
        Item a((int)s.choose(50)), b((int)s.choose(50)); int n = (int)s.choose(50); std::string str = std::to_string(s.choose(50));
        const int va = a.v, vb = b.v;
        auto t = estd::forward_as_tuple(a, std::move(b), n, static_cast<const std::string&>(str));
        CHECK_EQ((const void*)&estd::get<0>(t), (const void*)&a, "forward_as_tuple refers to its arguments");
        CHECK_EQ((const void*)&estd::get<1>(t), (const void*)&b, "forward_as_tuple refers to its arguments");
        CHECK_EQ((const void*)&estd::get<2>(t), (const void*)&n, "forward_as_tuple refers to its arguments");
        CHECK_EQ((const void*)&estd::get<3>(t), (const void*)&str, "forward_as_tuple refers to its arguments");
        same(b, E{vb, false}, "forward_as_tuple moves nothing");
        int calls = 0, add = (int)s.choose(10);
        estd::apply([&](Item& x, Item&& y, int& z, const std::string& w) { calls++; x.v += add; z += add; CHECK_EQ(w, str, "string through the tuple"); Item taken(std::move(y)); same(taken, E{vb, false}, "rvalue through the tuple"); }, std::move(t));
        CHECK_EQ(calls, 1, "apply calls once");
        same(a, E{va + add, false}, "lvalue through the tuple"); same(b, E{vb, true}, "rvalue through the tuple");
        estd::tuple<Item&, int&> r(a, n), r2(r);
        estd::get<0>(r2).v = 5; estd::get<int&>(r) = 6;
        CHECK_EQ(a.v, 5, "a tuple of references writes through"); CHECK_EQ(n, 6, "a tuple of references writes through");
    }
    {
        int a = (int)s.choose(100), b = (int)s.choose(100), c = (int)s.choose(100);
        estd::tuple<short, Item, int, std::string> t((short)a, Item(b), int(c), std::to_string(a));
        const auto& ct = t;
        CHECK_EQ(estd::get<short>(t), (short)a, "get by type"); CHECK_EQ(estd::get<Item>(ct).v, b, "get by type"); CHECK_EQ(estd::get<int>(ct), c, "get by type"); CHECK_EQ(estd::get<std::string>(t), std::to_string(a), "get by type");
        CHECK_EQ((const void*)&estd::get<int>(t), (const void*)&estd::get<2>(t), "get by type is the element itself");
        Item taken(estd::get<Item>(std::move(t))); same(taken, E{b, false}, "get by type from an rvalue"); same(estd::get<1>(t), E{b, true}, "get by type from an rvalue");
        std::string ts(estd::get<3>(std::move(ct))); CHECK_EQ(ts, std::to_string(a), "get from a const rvalue copies"); std::string tt(estd::get<std::string>(std::move(ct))); CHECK_EQ(tt, std::to_string(a), "get by type from a const rvalue copies"); CHECK_EQ(estd::get<3>(ct), tt, "and leaves the element");
        CHECK_EQ(estd::get<std::string>(t), std::to_string(a), "get from a const rvalue leaves the element");
        counts = Counts();
        Item made = estd::make_from_tuple<Item>(estd::make_tuple(int(a), int(b)));
        same(made, E{a * 1000 + b, false}, "make_from_tuple");
        estd::tuple<Item> src(Item{c});
        counts = Counts();
        Item made2 = estd::make_from_tuple<Item>(std::move(src));
        same(made2, E{c, false}, "make_from_tuple"); same(estd::get<0>(src), E{c, true}, "make_from_tuple moves out of the tuple"); CHECK_EQ(counts.copies, 0, "make_from_tuple copies nothing");
    }
    Life::expect_live(0, "at the end");
    s.nontrivial();
}

// ------------------------------------------------------------------ parameter packs
constexpr unsigned mix(unsigned k, unsigned i) { unsigned x = k * 2654435761u ^ (i + 1) * 2246822519u; x ^= x >> 15; x *= 3266489917u; x ^= x >> 13; return x; }
template <int N> struct V { enum { id = N }; };
template <> struct V<1> { enum { id = 1 }; long pad[3]; };
template <> struct V<2> { enum { id = 2 }; char c; };
template <> struct V<3> { enum { id = 3 }; V(); ~V(); long double d; };
template <unsigned K, class Seq> struct Packs;
template <unsigned Bits> struct MaskValues { template <int j, size_t i> using evaluator = estd::bool_constant<((Bits >> (unsigned)(j & 3)) & 1) != 0 || ((Bits >> (4 + (i & 3))) & 1) != 0>; };
template <unsigned Bits> struct MaskTypes { template <class T, size_t i> using evaluator = estd::bool_constant<((Bits >> (unsigned)(T::id & 3)) & 1) != 0 || ((Bits >> (4 + (i & 3))) & 1) != 0>; };
// keeps ids chosen by mask, and renames the type to the next id
template <unsigned Bits> struct ProjectTypes { template <class T, size_t i> using evaluator = estd::variadic::projected_result<V<(T::id + 1) % 4>, ((Bits >> (unsigned)(T::id & 3)) & 1) != 0>; };

template <int... Vs> std::vector<int> list(estd::variadic::values<int, Vs...>) { return { Vs... }; }
template <size_t... Vs> std::vector<int> list(estd::variadic::values<size_t, Vs...>) { return { (int)Vs... }; }
template <class... Ts> std::vector<int> list(estd::variadic::types<Ts...>) { return { Ts::id... }; }
template <class... Ts> std::vector<int> indexes(estd::variadic::types<Ts...>) { return { (int)Ts::index... }; }
template <class... Ts> std::vector<int> inner(estd::variadic::types<Ts...>) { return { Ts::type::id... }; }

struct Facts
{
    std::vector<int> content, contains, where, got, first, appended, prepended; int size = 0; unsigned mask = 0;
    std::vector<int> t_where, t_sel_idx, t_sel_types, t_indices, t_projected, t_got, t_appended, t_prepended, matches, first_of, contains_t, same; int t_size = 0, t_first = -1, t_last = -1, largest = -1, all_trivial = -1; bool empty = false, all = false;
    int (*visit_values)(std::vector<int>&, int, int); int (*visit_types)(std::vector<int>&, int, int); int (*visit_types_reverse)(std::vector<int>&, int, int); int (*invoke)(std::vector<int>&, int, int);
};
struct VisitValue { std::vector<int>& seen; int stop; template <size_t I, int v> bool operator()(estd::variadic::value<I, int, v>, int extra) const { seen.push_back((int)I); seen.push_back(v); seen.push_back(extra); return (int)I == stop; } };
struct VisitType { std::vector<int>& seen; int stop; template <size_t I, class T> bool operator()(estd::variadic::type<I, T>, int extra) const { seen.push_back((int)I); seen.push_back(T::id); seen.push_back(extra); return (int)I == stop; } };

template <class L, class Seq> struct Gets; 
template <class L, size_t... Is> struct Gets<L, std::index_sequence<Is...>> { static std::vector<int> values() { return { L::template get<Is>::value... }; } static std::vector<int> types() { return { L::template get<Is>::id... }; } };
template <bool nonempty> struct FirstOf { template <class Vs> static std::vector<int> of() { return { Vs::first() }; } template <class Ts> static void of(Facts& f) { f.t_first = Ts::first::id; f.t_last = Ts::last::id; } };
template <> struct FirstOf<false> { template <class Vs> static std::vector<int> of() { return {}; } template <class Ts> static void of(Facts&) {} };
template <class T, bool found, class... Ts> struct FirstIndex { static int at() { return (int)estd::internal::first_index_of_type<T, Ts...>::index; } };
template <class T, class... Ts> struct FirstIndex<T, false, Ts...> { static int at() { return -1; } };
template <class... Ts> struct Largest { static int id() { return estd::internal::largest_type<Ts...>::type::id; } };
template <> struct Largest<> { static int id() { return -1; } };

template <unsigned K, size_t... Is> struct Packs<K, std::index_sequence<Is...>>
{
    typedef estd::variadic::values<int, (int)(mix(K, Is) % (2 + K % 3))...> Vs;
    typedef estd::variadic::types<V<(int)(mix(K, Is) % (2 + K % 3))>...> Ts;
    static constexpr unsigned mask = (mix(K, 99) & mix(K, 98)) & 0xff;
    template <class T> static void per_type(Facts& f)
    {
        f.matches.push_back((int)estd::internal::first_index_of_type<T, V<(int)(mix(K, Is) % (2 + K % 3))>...>::matches);
        f.first_of.push_back(FirstIndex<T, (estd::internal::first_index_of_type<T, V<(int)(mix(K, Is) % (2 + K % 3))>...>::matches > 0), V<(int)(mix(K, Is) % (2 + K % 3))>...>::at());
        f.contains_t.push_back(estd::internal::contains_type<T, V<(int)(mix(K, Is) % (2 + K % 3))>...>::value);
        f.same.push_back(estd::internal::are_same<T, V<(int)(mix(K, Is) % (2 + K % 3))>...>::value);
    }
    static Facts facts()
    {
        Facts f; f.mask = mask;
        f.content = { (int)(mix(K, Is) % (2 + K % 3))... };
        f.size = (int)Vs::size(); f.got = Gets<Vs, std::index_sequence<Is...>>::values();
        f.contains = { Vs::template contains<0>(), Vs::template contains<1>(), Vs::template contains<2>(), Vs::template contains<3>(), Vs::template contains<4>() };
        f.where = list(typename Vs::template where<MaskValues<mask>>{});
        f.first = FirstOf<(sizeof...(Is) > 0)>::template of<Vs>();
        f.appended = list(typename Vs::template append<9>{}); f.prepended = list(typename Vs::template prepend<9>{});
        typedef estd::variadic::v2::selector<MaskTypes<mask>, V<(int)(mix(K, Is) % (2 + K % 3))>...> Sel;
        f.t_where = list(typename Ts::template where<MaskTypes<mask>>{});
        f.t_sel_idx = indexes(typename Sel::selected{}); f.t_sel_types = inner(typename Sel::selected{}); f.t_indices = list(typename Sel::indices{});
        typedef estd::variadic::v2::selector<ProjectTypes<mask>, V<(int)(mix(K, Is) % (2 + K % 3))>...> Proj;
        f.t_projected = list(typename Proj::projected{});
        f.t_size = (int)Ts::size(); f.empty = Ts::empty(); f.t_got = Gets<Ts, std::index_sequence<Is...>>::types();
        f.t_appended = list(typename Ts::template append<V<9>>{}); f.t_prepended = list(typename Ts::template prepend<V<9>>{});
        FirstOf<(sizeof...(Is) > 0)>::template of<Ts>(f);
        f.largest = Largest<V<(int)(mix(K, Is) % (2 + K % 3))>...>::id();
        f.all_trivial = estd::internal::are_trivial<V<(int)(mix(K, Is) % (2 + K % 3))>...>::value;
        per_type<V<0>>(f); per_type<V<1>>(f); per_type<V<2>>(f); per_type<V<3>>(f); per_type<V<7>>(f);
        f.visit_values = [](std::vector<int>& seen, int stop, int extra) { return (int)Vs::visit(VisitValue{seen, stop}, extra); };
        f.visit_types = [](std::vector<int>& seen, int stop, int extra) { return (int)Ts::visitor::visit(VisitType{seen, stop}, extra); };
        f.visit_types_reverse = [](std::vector<int>& seen, int stop, int extra) { return (int)Ts::visitor::visit_reverse(VisitType{seen, stop}, extra); };
        f.invoke = [](std::vector<int>& seen, int stop, int extra) { return (int)estd::experimental::forward_invoker<V<(int)(mix(K, Is) % (2 + K % 3))>...>{}.invoke(VisitType{seen, stop}, extra); };
        return f;
    }
};
template <unsigned... Ks> std::vector<Facts> all_facts(std::integer_sequence<unsigned, Ks...>) { return { Packs<Ks, std::make_index_sequence<Ks % 8>>::facts()... }; }
const std::vector<Facts>& facts() { static const std::vector<Facts> f = all_facts(std::make_integer_sequence<unsigned, 72>{}); return f; }

TARGET(packs, 3)
{
    const Facts& f = facts()[s.choose(facts().size())];
    const std::vector<int>& c = f.content; const int n = (int)c.size();
    LOG("list " << pbt::show(c) << " mask " << f.mask);
    std::vector<int> where, where_t, at, got = c, app = c, pre = c, proj, first, cont(5), matches, first_of, same;
    app.push_back(9); pre.insert(pre.begin(), 9); if (n) first.push_back(c[0]);
    for (int i = 0; i < n; i++)
    {
        if ((f.mask >> (c[i] & 3) & 1) || (f.mask >> (4 + (i & 3)) & 1)) { where.push_back(c[i]); at.push_back(i); }
        if (f.mask >> (c[i] & 3) & 1) proj.push_back((c[i] + 1) % 4);
        cont[c[i]] = 1;
    }
    for (int t : { 0, 1, 2, 3, 7 }) { int k = 0, fi = -1; for (int i = 0; i < n; i++) if (c[i] == t) { k++; if (fi < 0) fi = i; } matches.push_back(k); first_of.push_back(fi); same.push_back(k == n); }
    CHECK_EQ(f.size, n, "values size"); CHECK_EQ(f.got, got, "values get"); CHECK_EQ(f.contains, cont, "values contains 0..4"); CHECK_EQ(f.where, where, "values where"); CHECK_EQ(f.first, first, "values first"); CHECK_EQ(f.appended, app, "values append"); CHECK_EQ(f.prepended, pre, "values prepend");
    CHECK_EQ(f.t_size, n, "types size"); CHECK_EQ(f.empty, n == 0, "types empty"); CHECK_EQ(f.t_got, got, "types get"); CHECK_EQ(f.t_where, where, "types where"); CHECK_EQ(f.t_sel_idx, at, "selected indexes"); CHECK_EQ(f.t_sel_types, where, "selected types"); CHECK_EQ(f.t_indices, at, "selector indices"); CHECK_EQ(f.t_projected, proj, "projected types");
    CHECK_EQ(f.t_appended, app, "types append"); CHECK_EQ(f.t_prepended, pre, "types prepend"); if (n) { CHECK_EQ(f.t_first, c.front(), "first type"); CHECK_EQ(f.t_last, c.back(), "last type"); }
    CHECK_EQ(f.matches, matches, "matches per type"); CHECK_EQ(f.first_of, first_of, "first index per type"); CHECK_EQ(f.same, same, "are_same per type");
    { std::vector<int> ct; for (int k : matches) ct.push_back(k > 0); CHECK_EQ(f.contains_t, ct, "contains_type"); }
    { static const size_t sz[] = { sizeof(V<0>), sizeof(V<1>), sizeof(V<2>), sizeof(V<3>) }; int best = n ? c[0] : -1; bool triv = true; for (int i = 0; i < n; i++) { if (sz[c[i]] > sz[best]) best = c[i]; if (c[i] == 3) triv = false; } CHECK_EQ(f.largest, best, "largest type"); CHECK_EQ((bool)f.all_trivial, triv, "are_trivial"); }
    int stop = (int)s.choose(n + 2) - (s.one_in(8) ? 3 : 0), extra = (int)s.choose(100);
    std::vector<int> seen, expect, back; int r = -1, rb = -1;
    for (int i = 0; i < n && r < 0; i++) { expect.insert(expect.end(), { i, c[i], extra }); if (i == stop) r = i; }
    for (int i = n - 1; i >= 0 && rb < 0; i--) { back.insert(back.end(), { i, c[i], extra }); if (i == stop) rb = i; }
    LOG("visit until index " << stop);
    CHECK_EQ(f.visit_values(seen, stop, extra), r, "visiting values stops at " << stop); CHECK_EQ(seen, expect, "values visited (index, value, extra)..."); seen.clear();
    CHECK_EQ(f.visit_types(seen, stop, extra), r, "visiting types stops at " << stop); CHECK_EQ(seen, expect, "types visited"); seen.clear();
    CHECK_EQ(f.visit_types_reverse(seen, stop, extra), rb, "visiting types in reverse stops at " << stop); CHECK_EQ(seen, back, "types visited in reverse"); seen.clear();
    CHECK_EQ(f.invoke(seen, stop, extra), r, "forward_invoker stops at " << stop); CHECK_EQ(seen, expect, "types invoked"); 
    if (n >= 2) s.nontrivial();
    s.label(r < 0 ? "not found" : "found");
}

// index sequences
template <size_t... Is> std::vector<int> pass(estd::index_sequence<Is...>) { return { (int)Is... }; }
template <size_t N> void sequences()
{
    std::vector<int> up, down; for (size_t i = 0; i < N; i++) { up.push_back((int)i); down.insert(down.begin(), (int)i); }
    CHECK_EQ(list(static_cast<const estd::variadic::values<size_t>&>(estd::variadic::values<size_t>())).size(), 0u, "empty");
    CHECK_EQ(pass(estd::make_index_sequence<N>{}), up, "make_index_sequence<" << N << ">");
    CHECK_EQ(pass(estd::make_reverse_index_sequence<N>{}), down, "make_reverse_index_sequence<" << N << ">");
}
template <size_t... Ns> void run_sequence(size_t n, std::index_sequence<Ns...>) { int d[] = { (Ns == n ? (sequences<Ns>(), 0) : 0)... }; (void)d; }
TARGET(sequences, 1) { size_t n = s.choose(33); LOG(n); if (n > 1) s.nontrivial(); run_sequence(n, std::make_index_sequence<33>{}); }
}
