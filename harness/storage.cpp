// Objects held in place: aligned for their type, inside their holder, apart, intact - wherever the holder may validly stand.
#include <estd/array.h>
#include <estd/expected.h>
#include <estd/functional.h>
#include <estd/memory.h>
#include <estd/optional.h>
#include <estd/queue.h>
#include <estd/stack.h>
#include <estd/tuple.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/variant.h>
#include <estd/vector.h>
#include "pbt.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include <new>
#include <vector>

namespace {
// ---- elements of every size and alignment ----
struct Odd { unsigned char b[3]; };
struct Mixed { char c; short v; char d; };
struct alignas(32) Broad { int v; int rest[9]; };
struct Linked { Linked* self; int v; };
template <class T> struct El { static T make(int v) { return (T)v; } static int read(const T& t) { return (int)t; } };
template <> struct El<Odd> { static Odd make(int v) { return Odd{{(unsigned char)v, (unsigned char)(v >> 8), (unsigned char)~v}}; } static int read(const Odd& t) { return t.b[2] == (unsigned char)~t.b[0] ? t.b[0] | t.b[1] << 8 : -1; } };
template <> struct El<Mixed> { static Mixed make(int v) { return Mixed{(char)v, (short)v, (char)~v}; } static int read(const Mixed& t) { return t.c == (char)t.v && t.d == (char)~t.c ? t.v : -1; } };
template <> struct El<Broad> { static Broad make(int v) { Broad b; b.v = v; for (int& x : b.rest) x = ~v; return b; } static int read(const Broad& t) { for (int x : t.rest) if (x != ~t.v) return -1; return t.v; } };
template <> struct El<Linked> { static Linked make(int v) { return Linked{nullptr, v}; } static int read(const Linked& t) { return t.v; } };
bool operator<(const Broad& a, const Broad& b) { return a.v < b.v; }
bool operator<(const Odd& a, const Odd& b) { return El<Odd>::read(a) < El<Odd>::read(b); }
bool operator<(const Mixed& a, const Mixed& b) { return a.v < b.v; }
bool operator<(const Linked& a, const Linked& b) { return a.v < b.v; }

struct At { const void* p; int v, got; };
struct Held { std::vector<At> all; template <class T> void add(const T& t, int v) { all.push_back({&t, v, 0}); } };

struct Room { alignas(64) unsigned char bytes[2048]; unsigned char* x; size_t size; };
void inspect(const Room& r, std::vector<At>& all, size_t size, size_t align, int (*read)(const void*), const char* what)
{
    std::sort(all.begin(), all.end(), [](const At& a, const At& b) { return a.p < b.p; });
    const unsigned char* last = nullptr;
    for (auto& a : all)
    {
        const unsigned char* p = (const unsigned char*)a.p;
        CHECK((uintptr_t)p % align == 0, what << ": an element of alignment " << align << " lies " << (uintptr_t)p % align << " off");
        CHECK(p >= r.x && p + size <= r.x + r.size, what << ": an element of " << size << " lies outside its holder, at " << (p - r.x) << " of " << r.size);
        CHECK(!last || last + size <= p, what << ": two elements overlap");
        CHECK_EQ(read(a.p), a.v, what);
        last = p;
    }
    for (const unsigned char* b = r.bytes; b < r.x; b++) if (*b != 0xB7) CHECK_EQ((int)*b, 0xB7, std::string(what) + ": byte before the holder");
    for (const unsigned char* b = r.x + r.size; b < r.bytes + sizeof r.bytes; b++) if (*b != 0xB7) CHECK_EQ((int)*b, 0xB7, std::string(what) + ": byte after the holder");
}
template <class T> int reader(const void* p) { return El<T>::read(*(const T*)p); }

// the smallest valid address is where misplacement shows
template <class X> X* place(Room& r, pbt::Source& s) { memset(r.bytes, 0xB7, sizeof r.bytes); size_t a = alignof(X), n = (sizeof r.bytes - sizeof(X)) / a; size_t slots = n < 64 ? n : 64; r.x = r.bytes + a * s.choose((unsigned)slots); r.size = sizeof(X); return (X*)r.x; }

// ---- holders: a history each, reporting what they hold after every step ----
typedef void (*Report)(void*);
template <class T, unsigned N> struct VectorOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::layer1::vector<T, N> X; X& x = *new (place<X>(r, s)) X; std::vector<int> m; int next = 1;
        for (unsigned k = 0, n = 1 + s.size(12); k < n; k++)
        {
            if (m.size() < N && s.choose(4)) { int v = next++; if (s.flip()) { x.push_back(El<T>::make(v)); m.push_back(v); } else { size_t at = s.choose(m.size() + 1); auto it = x.begin(); for (size_t i = 0; i < at; i++) ++it; const T e = El<T>::make(v); x.insert(it, e); m.insert(m.begin() + at, v); } }
            else if (!m.empty()) { size_t at = s.choose(m.size()); auto it = x.begin(); for (size_t i = 0; i < at; i++) ++it; x.erase(it); m.erase(m.begin() + at); }
            Held h; T* p = x.lock(); for (size_t i = 0; i < m.size(); i++) h.add(p[i], m[i]); x.unlock(); inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "vector");
        }
        if (next > 3) s.nontrivial(); x.~X();
    }
};
template <class T, unsigned N> struct DequeOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::layer1::deque<T, N> X; X& x = *new (place<X>(r, s)) X; std::vector<int> m; int next = 1;
        for (unsigned k = 0, n = 1 + s.size(16); k < n; k++)
        {
            if (m.size() < N && s.choose(3)) { int v = next++; T e = El<T>::make(v); if (s.flip()) { x.push_back(e); m.push_back(v); } else { x.push_front(e); m.insert(m.begin(), v); } }
            else if (!m.empty()) { if (s.flip()) { x.pop_front(); m.erase(m.begin()); } else { x.pop_back(); m.pop_back(); } }
            Held h; size_t i = 0; for (auto it = x.begin(); it != x.end() && i < m.size(); ++it, ++i) h.add(*it, m[i]); inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "deque");
            if (!m.empty()) { Held e; e.add(x.front(), m.front()); inspect(r, e.all, sizeof(T), alignof(T), reader<T>, "deque front"); }
        }
        if (next > 3) s.nontrivial(); x.~X();
    }
};
template <class T, unsigned N> struct StackOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::layer1::stack<T, N> X; X& x = *new (place<X>(r, s)) X; std::vector<int> m; int next = 1;
        for (unsigned k = 0, n = 1 + s.size(12); k < n; k++)
        {
            if (m.size() < N && s.choose(3)) { int v = next++; x.push(El<T>::make(v)); m.push_back(v); } else if (!m.empty()) { x.pop(); m.pop_back(); }
            if (!m.empty()) { const T e = x.top(); CHECK_EQ(El<T>::read(e), m.back(), "top of stack"); Held h; inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "stack"); }
        }
        if (next > 3) s.nontrivial(); x.~X();
    }
};
template <class T, unsigned N> struct HeapOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::layer1::priority_queue<T, N> X; X& x = *new (place<X>(r, s)) X; std::vector<int> m; int next = 1;
        for (unsigned k = 0, n = 1 + s.size(12); k < n; k++)
        {
            if (m.size() < N && s.choose(3)) { int v = (int)s.choose(100); next++; x.push(El<T>::make(v)); m.push_back(v); std::sort(m.begin(), m.end()); } else if (!m.empty()) { x.pop(); m.pop_back(); }
            if (!m.empty()) { const T e = x.top(); CHECK_EQ(El<T>::read(e), m.back(), "top of priority queue"); Held h; inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "priority queue"); }
        }
        if (next > 3) s.nontrivial(); x.~X();
    }
};
struct Id { size_t operator()(int k) const { return (size_t)k; } };
template <class T, unsigned N> struct MapOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::layer1::unordered_map<int, T, N, Id> X; X& x = *new (place<X>(r, s)) X; std::vector<std::pair<int, int>> m; int next = 1;
        for (unsigned k = 0, n = 1 + s.size(12); k < n; k++)
        {
            int key = 1 + (int)s.choose(40); auto at = std::find_if(m.begin(), m.end(), [&](auto& e) { return e.first == key; });
            if (at != m.end()) { x.erase(x.find(key)); m.erase(at); }
            else { int v = next++; if (x.try_emplace(key, El<T>::make(v)).second) m.push_back({key, v}); }
            Held h; for (auto& e : m) { auto it = x.find(e.first); CHECK(it != x.end(), "an entry got lost"); h.add(it->second, e.second); } inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "unordered map");
        }
        if (next > 3) s.nontrivial(); x.~X();
    }
};
template <class T, unsigned N> struct ArrayOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef typename std::conditional<N % 2 == 0, estd::array<T, N>, estd::internal::uninitialized_array<T, N>>::type X; X& x = *new (place<X>(r, s)) X; int m[N]; bool set[N] = {}; unsigned sets = 0;
        for (unsigned k = 0, n = 1 + s.size(12); k < n; k++)
        {
            unsigned i = (unsigned)s.choose(N); int v = (int)s.choose(20000); m[i] = v; if (!set[i]) { set[i] = true; sets++; } new (&x[i]) T(El<T>::make(v));
            Held h; for (unsigned q = 0; q < N; q++) if (set[q]) { h.add(x[q], m[q]); CHECK(&x[q] == x.data() + q, "[] and data()"); } inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "array");
        }
        if (sets > 1) s.nontrivial(); x.~X();
    }
};
template <class T, unsigned> struct OptionalOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::optional<T> X; X& x = *new (place<X>(r, s)) X; bool has = false; int m = 0, sets = 0;
        for (unsigned k = 0, n = 1 + s.size(8); k < n; k++)
        {
            if (s.choose(3)) { m = (int)s.choose(100); has = true; sets++; x = El<T>::make(m); } else { x.reset(); has = false; }
            CHECK_EQ((bool)x, has, "engaged"); Held h; if (has) h.add(*x, m); inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "optional");
        }
        if (sets > 1) s.nontrivial(); x.~X();
    }
};
template <class T, unsigned> struct ExpectedOf
{
    static void run(pbt::Source& s, Room& r)
    {
        int m = (int)s.choose(100); const bool good = s.choose(3) != 0; Held h;
        if (s.flip()) { typedef estd::expected<T, short> X; X* x = place<X>(r, s); if (good) { new (x) X(El<T>::make(m)); h.add(x->value(), m); } else { new (x) X(estd::unexpected<short>((short)m)); CHECK_EQ((int)x->error(), m, "error"); } inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "expected"); if (good) s.nontrivial(); x->~X(); }
        else { typedef estd::expected<short, T> X; X* x = place<X>(r, s); if (good) { new (x) X(estd::unexpected<T>(El<T>::make(m))); h.add(x->error(), m); s.nontrivial(); } else { new (x) X((short)m); CHECK_EQ((int)x->value(), m, "value"); } inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "expected error"); x->~X(); }
    }
};
struct Small { char c; };
template <class T, unsigned> struct VariantOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::variant<Small, T> X; X& x = *new (place<X>(r, s)) X(Small{'a'}); bool has = false; int m = 0, sets = 0;
        for (unsigned k = 0, n = 1 + s.size(8); k < n; k++)
        {
            if (s.choose(3)) { m = (int)s.choose(100); has = true; sets++; x.template emplace<1>(El<T>::make(m)); } else { x.template emplace<0>(Small{'b'}); has = false; }
            CHECK_EQ((int)x.index(), has ? 1 : 0, "index"); Held h; if (has) h.add(estd::get<1>(x), m); inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "variant");
        }
        if (sets > 1) s.nontrivial(); x.~X();
    }
};
template <class T, unsigned> struct TupleOf
{
    static void run(pbt::Source& s, Room& r)
    {
        typedef estd::tuple<char, T, short, T> X; int a = (int)s.choose(100), b = (int)s.choose(100); X& x = *new (place<X>(r, s)) X('x', El<T>::make(a), (short)7, El<T>::make(b)); Held h; h.add(estd::get<1>(x), a); h.add(estd::get<3>(x), b);
        inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "tuple"); CHECK(estd::get<0>(x) == 'x' && estd::get<2>(x) == 7, "other elements");
        estd::get<1>(x) = El<T>::make(b); Held g; g.add(estd::get<1>(x), b); g.add(estd::get<3>(x), b); inspect(r, g.all, sizeof(T), alignof(T), reader<T>, "tuple after assignment"); if (a != b) s.nontrivial(); x.~X();
    }
};
template <class T> struct Release { char tag[5]; void operator()(T*) {} };
template <class T, unsigned N> struct SharedOf
{
    template <class X, class... A> static void one(pbt::Source& s, Room& r, A... a)
    {
        X& x = *new (place<X>(r, s)) X(a...); int sets = 0;
        for (unsigned k = 0, n = 1 + s.size(6); k < n; k++) { int m = (int)s.choose(100); x.construct(El<T>::make(m)); sets++; Held h; h.add(*x, m); inspect(r, h.all, sizeof(T), alignof(T), reader<T>, "shared object"); x.reset(); }
        if (sets > 1) s.nontrivial(); x.~X();
    }
    static void run(pbt::Source& s, Room& r) { if (s.flip()) one<estd::layer1::shared_ptr<T>>(s, r); else one<estd::layer1::shared_ptr<T, Release<T>>>(s, r, Release<T>{}); }
};

struct Holder { const char* name; void (*run)(pbt::Source&, Room&); };
template <class T> std::vector<Holder> holders()
{
    return { {"vector", VectorOf<T, 5>::run}, {"deque", DequeOf<T, 5>::run}, {"stack", StackOf<T, 4>::run}, {"priority queue", HeapOf<T, 7>::run}, {"unordered map", std::conditional<sizeof(T) % sizeof(int) == 0, MapOf<T, 8>, VectorOf<T, 3>>::type::run}, {"array", ArrayOf<T, 4>::run}, {"uninitialized array", ArrayOf<T, 3>::run},
             {"optional", OptionalOf<T, 0>::run}, {"expected", ExpectedOf<T, 0>::run}, {"variant", VariantOf<T, 0>::run}, {"tuple", TupleOf<T, 0>::run}, {"shared", SharedOf<T, 0>::run} };
}
template <class T> void held(pbt::Source& s)
{
    static const std::vector<Holder> all = holders<T>(); static Room r;
    const Holder& h = all[s.choose((unsigned)all.size())]; s.label(h.name); LOG(h.name << " of elements of " << sizeof(T) << " bytes aligned to " << alignof(T));
    h.run(s, r);
}
TARGET_FN("held_short", 1, held<short>);
TARGET_FN("held_odd", 2, held<Odd>);
TARGET_FN("held_mixed", 2, held<Mixed>);
TARGET_FN("held_double", 3, held<double>);
TARGET_FN("held_longdouble", 2, held<long double>);
TARGET_FN("held_broad", 2, held<Broad>);
TARGET_FN("held_linked", 2, held<Linked>);
}
