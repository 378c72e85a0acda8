// Sequence algorithms and fixed arrays against the standard library.
#define FEATURE_ESTD_ALGORITHM_OPT 0
#include <estd/algorithm.h>
#include <estd/array.h>
#include <estd/numeric.h>
#include "pbt.h"
#include <algorithm>
#include <iterator>
#include <forward_list>
#include <list>
#include <memory>
#include <numeric>
#include <vector>

namespace {

struct Item { int key; int id; };
bool operator==(const Item& a, const Item& b) { return a.key == b.key; } // id shows which of equal elements was chosen
bool operator<(const Item& a, const Item& b) { return a.key < b.key; }

std::vector<int> small(pbt::Source& s, unsigned max) { std::vector<int> v; unsigned n = s.size(max), spread = s.flip() ? 2 : 6; while (n--) v.push_back((int)s.choose(spread)); return v; }
// a sequence reached only through what its category allows
template <class Tag> struct Seq
{
    std::unique_ptr<int[]> d; size_t n;
    struct iterator
    {
        typedef Tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int* pointer; typedef int& reference;
        int *p, *lo, *hi;
        int& operator*() const { CHECK(p >= lo && p < hi, "iterator used outside its range"); return *p; }
        iterator& operator++() { CHECK(p < hi, "iterator moved past the end"); ++p; return *this; } iterator operator++(int) { iterator t = *this; ++*this; return t; }
        iterator& operator--() { CHECK(p > lo, "iterator moved before the beginning"); --p; return *this; } iterator operator--(int) { iterator t = *this; --*this; return t; }
        friend bool operator==(const iterator& a, const iterator& b) { return a.p == b.p; } friend bool operator!=(const iterator& a, const iterator& b) { return a.p != b.p; }
    };
    iterator begin() const { return iterator{d.get(), d.get(), d.get() + n}; } iterator end() const { return iterator{d.get() + n, d.get(), d.get() + n}; }
    template <class It> Seq(It a, It b) : d(new int[b - a]), n(b - a) { std::copy(a, b, d.get()); }
    Seq(const Seq& o) : Seq(o.d.get(), o.d.get() + o.n) {}
    Seq& operator=(const Seq& o) { d.reset(new int[o.n]); n = o.n; std::copy(o.d.get(), o.d.get() + n, d.get()); return *this; }
};
void show_(pbt::Source& s, const char* what, const std::vector<int>& v) { std::string t; for (int x : v) t += std::to_string(x) + " "; LOG(what << ": " << t); }
template <class It> It nth(It i, size_t n) { while (n--) ++i; return i; }

// the same search over a container of any iterator category
template <class C> void searches(pbt::Source& s, const std::vector<int>& v, const std::vector<int>& w)
{
    C c(v.begin(), v.end()), d(w.begin(), w.end());
    auto at = [&](typename C::iterator i) { return (size_t)std::distance(c.begin(), i); };
    int x = (int)s.choose(6), y = (int)s.choose(6);
    auto pred = [&](int e) { return e == x || e == y + 3; };
    CHECK_EQ(at(estd::find_if(c.begin(), c.end(), pred)), at(std::find_if(c.begin(), c.end(), pred)), "find_if");
    CHECK_EQ(at(estd::find_first_of(c.begin(), c.end(), d.begin(), d.end())), at(std::find_first_of(c.begin(), c.end(), d.begin(), d.end())), "find_first_of");
    auto above = [](int a, int b) { return a > b; };
    CHECK_EQ(at(estd::find_first_of(c.begin(), c.end(), d.begin(), d.end(), above)), at(std::find_first_of(c.begin(), c.end(), d.begin(), d.end(), above)), "find_first_of with predicate");
    auto eq = [](int a, int b) { return a == b; }; auto near = [](int a, int b) { return a - b <= 1 && b - a <= 1; };
    CHECK_EQ(at(estd::search(c.begin(), c.end(), d.begin(), d.end(), eq)), at(std::search(c.begin(), c.end(), d.begin(), d.end(), eq)), "search");
    CHECK_EQ(at(estd::search(c.begin(), c.end(), d.begin(), d.end(), near)), at(std::search(c.begin(), c.end(), d.begin(), d.end(), near)), "search with predicate");
    if (v.size() <= w.size())
    {
        CHECK_EQ(estd::equal(c.begin(), c.end(), d.begin()), std::equal(c.begin(), c.end(), d.begin()), "equal");
        auto p = estd::mismatch(c.begin(), c.end(), d.begin()); auto q = std::mismatch(c.begin(), c.end(), d.begin());
        CHECK(p.first == q.first && p.second == q.second, "mismatch");
    }
    // comparing against a copy that may differ in one place
    { C e = c; if (!v.empty() && s.flip()) *nth(e.begin(), s.choose(v.size())) += 1; CHECK_EQ(estd::equal(c.begin(), c.end(), e.begin()), std::equal(c.begin(), c.end(), e.begin()), "equal to altered copy"); auto p = estd::mismatch(c.begin(), c.end(), e.begin()), q = estd::mismatch(c.begin(), c.end(), e.begin()); auto r = std::mismatch(c.begin(), c.end(), e.begin()); CHECK(p.first == r.first && p.second == r.second && q.first == r.first, "mismatch with altered copy"); }
    CHECK_EQ(estd::accumulate(c.begin(), c.end(), 5L), std::accumulate(c.begin(), c.end(), 5L), "accumulate");
    auto fold = [](unsigned a, int b) { return a * 31 + (unsigned)b; };
    CHECK_EQ(estd::accumulate(c.begin(), c.end(), 1u, fold), std::accumulate(c.begin(), c.end(), 1u, fold), "accumulate with operation");
    if (std::search(v.begin(), v.end(), w.begin(), w.end()) != v.end() && !w.empty() && w.size() < v.size()) s.nontrivial();
}
TARGET(searching, 4)
{
    auto v = small(s, 16); std::vector<int> w;
    switch (s.choose(3))
    {
        case 0: w = small(s, 5); break;
        case 1: if (!v.empty()) { size_t a = s.choose(v.size()), n = 1 + s.choose(v.size() - a); w.assign(v.begin() + a, v.begin() + a + n); } break;
        default: w = v; if (!w.empty() && s.flip()) w[s.choose(w.size())] = 9; if (s.flip()) w.push_back((int)s.choose(3));
    }
    show_(s, "range", v); show_(s, "needle", w); v.shrink_to_fit(); w.shrink_to_fit();
    if (s.flip()) searches<Seq<std::bidirectional_iterator_tag>>(s, v, w); else searches<Seq<std::forward_iterator_tag>>(s, v, w);
    // last match: scans back from the element last points at, first is before the beginning
    std::vector<int> padded(1, 99); padded.insert(padded.end(), v.begin(), v.end()); padded.shrink_to_fit();
    int* b = padded.data(); int* got = estd::internal::find_last_of(b, b + v.size(), w.data(), w.data() + w.size()); size_t expect = 0;
    for (size_t i = v.size(); i > 0; i--) if (std::find(w.begin(), w.end(), padded[i]) != w.end()) { expect = i; break; }
    CHECK_EQ((size_t)(got - b), expect, "find_last_of");
}

template <class C> void copies(pbt::Source& s, const std::vector<int>& v)
{
    size_t a = s.choose(v.size() + 1), b = a + s.choose(v.size() - a + 1), n = b - a;
    C c(v.begin(), v.end());
    std::unique_ptr<int[]> out(new int[n]);
    auto r = estd::copy(nth(c.begin(), a), nth(c.begin(), b), out.get()); CHECK_EQ(r - out.get(), (long)n, "copy result");
    for (size_t i = 0; i < n; i++) CHECK_EQ(out[i], v[a + i], "copy");
    std::fill(out.get(), out.get() + n, -1);
    r = estd::copy_n(nth(c.begin(), a), n, out.get()); CHECK_EQ(r - out.get(), (long)n, "copy_n result");
    for (size_t i = 0; i < n; i++) CHECK_EQ(out[i], v[a + i], "copy_n");
    std::fill(out.get(), out.get() + n, -1);
    auto q = estd::copy_backward(nth(c.begin(), a), nth(c.begin(), b), out.get() + n); CHECK(q == out.get(), "copy_backward result");
    for (size_t i = 0; i < n; i++) CHECK_EQ(out[i], v[a + i], "copy_backward");
    // reverse of a sub range, in place
    C e = c; std::vector<int> m = v; estd::reverse(nth(e.begin(), a), nth(e.begin(), b)); std::reverse(m.begin() + a, m.begin() + b);
    CHECK(std::equal(e.begin(), e.end(), m.begin()), "reverse of " << a << ".." << b);
    e = c; m = v; int x = (int)s.choose(9); estd::fill(nth(e.begin(), a), nth(e.begin(), b), x); std::fill(m.begin() + a, m.begin() + b, x);
    CHECK(std::equal(e.begin(), e.end(), m.begin()), "fill");
    e = c; m = v; auto z = estd::fill_n(nth(e.begin(), a), n, x + 1); std::fill_n(m.begin() + a, n, x + 1);
    CHECK(std::equal(e.begin(), e.end(), m.begin()), "fill_n"); CHECK(z == nth(e.begin(), b), "fill_n result");
    if (!v.empty()) { size_t i = s.choose(v.size()), j = s.choose(v.size()); e = c; m = v; estd::iter_swap(nth(e.begin(), i), nth(e.begin(), j)); std::swap(m[i], m[j]); CHECK(std::equal(e.begin(), e.end(), m.begin()), "iter_swap " << i << " " << j); }
    if (n >= 2) s.nontrivial();
}
TARGET(copying, 3)
{
    auto v = small(s, 14); for (auto& x : v) x = x * 10 + (int)s.choose(10);
    if (s.one_in(20)) { v.resize(s.range(0, 700)); for (size_t i = 0; i < v.size(); i++) v[i] += (int)i; s.label("long range"); } // as long as a byte can't count
    show_(s, "range", v);
    copies<Seq<std::bidirectional_iterator_tag>>(s, v);
}
TARGET(overlapping_moves, 2)
{
    // shifting within one buffer, both directions
    auto v = small(s, 14); for (auto& x : v) x = x * 10 + (int)s.choose(10); show_(s, "range", v); if (v.empty()) return;
    size_t a = s.choose(v.size()), n = s.choose(v.size() - a + 1), to = s.choose(v.size() - n + 1); LOG("move " << n << " from " << a << " to " << to);
    std::vector<int> m = v, e = v;
    if (to <= a) { auto r = estd::copy(e.data() + a, e.data() + a + n, e.data() + to); CHECK_EQ(r - e.data(), (long)(to + n), "copy result"); std::copy(m.begin() + a, m.begin() + a + n, m.begin() + to); }
    else { auto r = estd::copy_backward(e.data() + a, e.data() + a + n, e.data() + to + n); CHECK_EQ(r - e.data(), (long)to, "copy_backward result"); std::copy_backward(m.begin() + a, m.begin() + a + n, m.begin() + to + n); }
    CHECK(e == m, "overlapping copy");
    // objects: moved to their new places, in order
    typedef std::unique_ptr<int> U; std::vector<U> u; for (int x : v) u.emplace_back(new int(x)); std::vector<int*> raw; for (auto& p : u) raw.push_back(p.get());
    if (to >= a && to + n <= v.size())
    {
        std::vector<U> w(v.size()); auto r = estd::move_backward(u.begin() + a, u.begin() + a + n, w.begin() + to + n); CHECK(r == w.begin() + to, "move_backward result");
        for (size_t i = 0; i < n; i++) { CHECK(w[to + i].get() == raw[a + i], "move_backward element " << i); CHECK(!u[a + i], "source moved from"); }
    }
    if (n >= 2 && to != a) s.nontrivial();
}
TARGET(extremes, 2)
{
    std::vector<Item> v; unsigned n = s.size(10); for (unsigned i = 0; i < n; i++) v.push_back(Item{(int)s.choose(5) - 2, (int)i});
    for (auto& e : v) LOG("item " << e.key);
    auto less = [](const Item& a, const Item& b) { return a.key < b.key; }; auto greater = [](const Item& a, const Item& b) { return a.key > b.key; };
    CHECK_EQ(estd::min_element(v.begin(), v.end(), less) - v.begin(), std::min_element(v.begin(), v.end(), less) - v.begin(), "min_element");
    CHECK_EQ(estd::min_element(v.begin(), v.end(), greater) - v.begin(), std::min_element(v.begin(), v.end(), greater) - v.begin(), "min_element reversed");
    CHECK_EQ(estd::max_element(v.begin(), v.end(), less) - v.begin(), std::max_element(v.begin(), v.end(), less) - v.begin(), "max_element");
    CHECK_EQ(estd::max_element(v.begin(), v.end(), greater) - v.begin(), std::max_element(v.begin(), v.end(), greater) - v.begin(), "max_element reversed");
    int a = s.integer<int>(), b = s.one_in(4) ? a : s.integer<int>(), c = s.one_in(4) ? b : s.integer<int>(); LOG(a << " " << b << " " << c);
    CHECK_EQ(estd::min(a, b), std::min(a, b), "min"); CHECK_EQ(estd::max(a, b), std::max(a, b), "max"); CHECK_EQ(estd::min(a, b, std::greater<int>()), std::min(a, b, std::greater<int>()), "min with comparer");
    int lo = std::min(b, c), hi = std::max(b, c);
    CHECK_EQ(estd::clamp(a, lo, hi), std::min(std::max(a, lo), hi), "clamp"); CHECK_EQ(estd::clamp(a, hi, lo, std::greater<int>()), std::min(std::max(a, lo), hi), "clamp with comparer");
    // what it gives is one of the three, the value itself if equivalent to a limit
    { const int *r = &estd::clamp(a, lo, hi), *want = a < lo ? &lo : hi < a ? &hi : &a; CHECK(r == want, "clamp gives the value or the limit itself"); }
    { Item x{(int)s.choose(5), 1}, y{(int)s.choose(3), 2}, z{y.key + (int)s.choose(3), 3}; const Item *r = &estd::clamp(x, y, z, less), *want = x.key < y.key ? &y : z.key < x.key ? &z : &x; CHECK(r == want, "clamp of items"); }
    unsigned char p = s.integer<unsigned char>(), q = s.integer<unsigned char>(); CHECK_EQ((int)estd::min(p, q), (int)std::min(p, q), "min of bytes"); CHECK_EQ((int)estd::max(p, q), (int)std::max(p, q), "max of bytes");
    double f = s.choose(100) / 7.0 - 5, g = s.choose(100) / 7.0 - 5; CHECK_EQ(estd::min(f, g), std::min(f, g), "min of doubles"); CHECK_EQ(estd::max(f, g), std::max(f, g), "max of doubles");
    if (v.size() >= 3) s.nontrivial();
}

template <class T> void swap_any(pbt::Source& s)
{
    T a = s.integer<T>(), b = s.one_in(5) ? a : s.integer<T>(), x = a, y = b; LOG("swap " << (long long)a << " " << (long long)b);
    estd::swap(x, y); CHECK(x == b && y == a, "swap");
    estd::swap(x, x); CHECK(x == b, "swap with itself");
    estd::swap(x, y); CHECK(x == a && y == b, "swap twice");
    if (a != b) s.nontrivial();
}
TARGET(swapping, 1)
{
    switch (s.choose(10)) { case 0: swap_any<char>(s); break; case 1: swap_any<signed char>(s); break; case 2: swap_any<unsigned char>(s); break; case 3: swap_any<short>(s); break; case 4: swap_any<unsigned short>(s); break;
        case 5: swap_any<int>(s); break; case 6: swap_any<unsigned>(s); break; case 7: swap_any<long>(s); break; case 8: swap_any<unsigned long>(s); break; default: swap_any<long long>(s); }
    std::string t = s.text("ab", 20), u = s.text("ab", 20), p = t, q = u; estd::swap(p, q); CHECK(p == u && q == t, "swap of strings"); 
    int i = s.integer<int>(), j = s.integer<int>(), k = i; int old = estd::exchange(k, j); CHECK(old == i && k == j, "exchange");
    std::string w = t; std::string was = estd::exchange(w, std::string(u)); CHECK(was == t && w == u, "exchange of strings");
}

template <class T, unsigned N> void arrays(pbt::Source& s)
{
    typedef estd::array<T, N> A; std::unique_ptr<A> p(new A), q(new A); A& a = *p; const A& c = a; std::vector<T> m(N);
    for (unsigned i = 0; i < N; i++) a[i] = m[i] = (T)s.choose(4);
    CHECK_EQ((size_t)c.size(), (size_t)N, "size"); CHECK_EQ((size_t)c.max_size(), (size_t)N, "max_size"); CHECK(!c.empty(), "empty");
    unsigned steps = s.size(8);
    for (unsigned k = 0; k < steps; k++)
    {
        unsigned i = s.choose(N); T v = (T)s.choose(100);
        switch (s.choose(4)) { case 0: a[i] = v; m[i] = v; break; case 1: a.fill(v); m.assign(N, v); break; case 2: a.data()[i] = v; m[i] = v; break; default: *(a.begin() + i) = v; m[i] = v; }
        CHECK(std::equal(c.begin(), c.end(), m.begin()), "elements"); CHECK_EQ((size_t)(c.end() - c.begin()), (size_t)N, "iteration length"); CHECK_EQ((size_t)(a.end() - a.begin()), (size_t)N, "iteration length"); CHECK(c.cbegin() == c.begin() && c.cend() == c.end(), "cbegin");
        CHECK(c.front() == m.front() && a.front() == m.front(), "front"); CHECK(c.back() == m.back() && a.back() == m.back(), "back is the last element"); CHECK(c[i] == m[i], "element");
    }
    *q = a; CHECK(*q == a && !(*q != a), "copy is equal");
    unsigned i = s.choose(N); (*q)[i] = (T)((*q)[i] + 1); CHECK(!(*q == a) && *q != a, "difference at " << i << " noticed"); CHECK(c[i] == m[i], "copy is separate");
    T raw[N]; for (unsigned k = 0; k < N; k++) raw[k] = m[k]; auto t = estd::to_array(raw); CHECK(t == a, "to_array");
    if (steps >= 2) s.nontrivial();
}
TARGET_FN("array_int", 1, (arrays<int, 5>));
TARGET_FN("array_double", 1, (arrays<double, 3>));
TARGET_FN("array_bytes", 1, (arrays<unsigned char, 9>));
TARGET_FN("array_single", 1, (arrays<int, 1>));
TARGET_FN("array_long", 1, (arrays<short, 300>));

} // namespace
