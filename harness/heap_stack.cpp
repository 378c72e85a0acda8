// Heaps, priority queues and stacks against sorted and LIFO models.
#include <estd/algorithm.h>
#include <estd/queue.h>
#include <estd/stack.h>
#include "pbt.h"
#include <algorithm>
#include <memory>
#include <vector>

namespace {

struct Item { int key; int id; friend bool operator==(const Item& a, const Item& b) { return a.key == b.key && a.id == b.id; } };
bool operator<(const Item& a, const Item& b) { return a.key < b.key; }
bool operator>(const Item& a, const Item& b) { return a.key > b.key; }
bool by_id(const Item& a, const Item& b) { return a.id < b.id; }
bool by_key_desc(const Item& a, const Item& b) { return a.key > b.key; }
bool by_key(const Item& a, const Item& b) { return a.key < b.key; }
struct ByModulo { int m; bool operator()(const Item& a, const Item& b) const { return a.key % m < b.key % m; } };

int key_of(int v) { return v; }
int key_of(short v) { return v; }
int key_of(const Item& v) { return v.key; }
template <class T> T make(int k, int id) { return (T)k; }
template <> Item make<Item>(int k, int id) { Item i; i.key = k; i.id = id; return i; }

template <class T> bool exact_less(const T& a, const T& b) { return a < b; }
template <> bool exact_less<Item>(const Item& a, const Item& b) { return a.key != b.key ? a.key < b.key : a.id < b.id; }

// same elements, whatever the order
template <class T> void same_bag(std::vector<T> a, std::vector<T> b, const char* what)
{
    CHECK_EQ(a.size(), b.size(), what);
    std::sort(a.begin(), a.end(), exact_less<T>); std::sort(b.begin(), b.end(), exact_less<T>);
    for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i], what << ": elements differ (" << key_of(a[i]) << " and " << key_of(b[i]) << ")");
}
template <class T, class C> void heap_shaped(const std::vector<T>& v, size_t n, int k, C comp, const char* what)
{
    for (size_t i = 1; i < n; i++) { size_t p = (i - 1) / k; CHECK(!comp(v[p], v[i]), what << ": element " << i << " (" << key_of(v[i]) << ") outranks its parent " << key_of(v[p])); }
}

template <class T, class C> void heap_algorithms(pbt::Source& s, C comp)
{
    int id = 0, spread = s.flip() ? 4 : 200, k = s.pick({2, 2, 2, 3, 4, 5});
    std::vector<T> v; unsigned n = s.size(24); for (unsigned i = 0; i < n; i++) v.push_back(make<T>((int)s.choose(spread) - spread / 4, id++));
    for (auto& e : v) LOG("value " << key_of(e));
    std::vector<T> bag = v;
    v.shrink_to_fit(); T* d = v.data();
    if (k != 2)
    {
        LOG("make " << k << "-ary heap");
        estd::make_heap(d, d + v.size(), comp, k); same_bag(v, bag, "make_heap"); heap_shaped(v, v.size(), k, comp, "make_heap");
        estd::internal::heap<T*, C> h(d, d + v.size(), k, comp);
        size_t n = v.size(); std::vector<T> order;
        while (n > 0) { CHECK_EQ(h.size(), n, "heap size"); order.push_back(h.front()); h.pop(); n--; heap_shaped(v, n, k, comp, "pop"); CHECK(v[n] == order.back(), "pop puts the front at the end"); }
        CHECK(h.empty(), "heap drained");
        for (size_t i = 1; i < order.size(); i++) CHECK(!comp(order[i - 1], order[i]), "popped out of order");
        // and back in
        for (size_t i = 0; i < v.size(); i++) { T e = bag[i]; h.push(e); n++; CHECK_EQ(h.size(), n, "pushed size"); heap_shaped(v, n, k, comp, "push"); }
        same_bag(v, bag, "push");
        if (bag.size() >= 4) s.nontrivial();
        return;
    }
    LOG("make"); estd::make_heap(d, d + v.size(), comp);
    same_bag(v, bag, "make_heap"); heap_shaped(v, v.size(), 2, comp, "make_heap");
    unsigned steps = s.size(20);
    for (unsigned q = 0; q < steps; q++)
    {
        if (s.flip())
        {
            T e = make<T>((int)s.choose(spread), id++); LOG("push " << key_of(e)); v.push_back(e); bag.push_back(e); v.shrink_to_fit(); d = v.data();
            estd::push_heap(d, d + v.size(), comp);
        }
        else if (!v.empty())
        {
            T top = v.front(); LOG("pop " << key_of(top));
            for (auto& e : v) CHECK(!comp(top, e), "front is not the greatest");
            estd::pop_heap(d, d + v.size(), comp);
            CHECK(v.back() == top, "pop_heap: the greatest element moves to the end, got " << key_of(v.back()) << " expected " << key_of(top));
            same_bag(v, bag, "pop_heap");
            v.pop_back(); bag.erase(std::find(bag.begin(), bag.end(), top));
        }
        same_bag(v, bag, "after step"); heap_shaped(v, v.size(), 2, comp, "after step");
    }
    if (steps >= 3 && n >= 2) s.nontrivial();
}
TARGET(heap_int, 2) { if (s.flip()) heap_algorithms<int>(s, estd::less<int>()); else heap_algorithms<int>(s, estd::greater<int>()); }
TARGET(heap_item, 2) { if (s.flip()) heap_algorithms<Item>(s, &by_key); else heap_algorithms<Item>(s, ByModulo{1 + (int)s.choose(9)}); }
TARGET(heap_short, 1) { heap_algorithms<short>(s, estd::less<short>()); }

template <class Q, class C> void drain_in_order(pbt::Source& s, Q& q, std::vector<Item> m, C comp)
{
    while (!m.empty())
    {
        Item t = q.top(); auto f = std::find(m.begin(), m.end(), t);
        CHECK(f != m.end(), "top was never pushed"); for (auto& e : m) CHECK(!comp(t, e), "drained out of order: " << t.key << " before " << e.key);
        m.erase(f); q.pop();
    }
    CHECK(q.empty(), "drained");
}
template <unsigned N, class C, class O> void priority_queue_history(pbt::Source& s, C comp, O other)
{
    typedef estd::layer1::priority_queue<Item, N, C> Q;
    std::unique_ptr<Q> q(new Q(comp)); std::vector<Item> m; int id = 0, spread = s.flip() ? 4 : 100;
    unsigned steps = 1 + s.size(30), pops = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        Item e = make<Item>((int)s.choose(spread), id++); bool room = m.size() < N;
        switch (s.choose(10))
        {
            case 9: if (room) { LOG("emplace and notify " << e.key); unsigned calls = 0; int delta = (int)s.choose(5); q->emplace_with_notify([&](Item& v) { calls++; CHECK(v == e, "notified of another item"); v.key += delta; }, e); CHECK_EQ(calls, 1u, "notifications"); e.key += delta; m.push_back(e); } break;
            case 0: case 1: if (room) { LOG("push " << e.key); q->push((const Item&)e); m.push_back(e); } break;
            case 2: if (room) { LOG("push moved " << e.key); Item c = e; q->push(std::move(c)); m.push_back(e); } break;
            case 3: if (room) { LOG("emplace " << e.key); q->emplace(e); m.push_back(e); } break;
            case 4: case 5: if (!m.empty()) { Item t = q->top(); LOG("pop " << t.key); q->pop(); auto f = std::find(m.begin(), m.end(), t); CHECK(f != m.end(), "top was never pushed"); m.erase(f); pops++; } break;
            case 6: if (!m.empty()) {
                Item t = m[s.choose(m.size())]; LOG("erase " << t.key << "#" << t.id);
                if (s.flip()) CHECK(q->erase_if([&](Item& v) { return v == t; }), "erase_if found nothing");
                else { auto i = estd::find_if(q->container().begin(), q->container().end(), [&](Item& v) { return v == t; }); CHECK(i != q->container().end(), "element not in the container"); q->erase(*i); }
                m.erase(std::find(m.begin(), m.end(), t)); pops++; } break;
            case 7: if (s.one_in(3)) { LOG("erase what is not there"); CHECK(!q->erase_if([](Item& v) { return v.id == -1; }), "erase_if erased something"); } break;
            default: if (s.one_in(4)) { LOG("assign to another queue"); std::unique_ptr<Q> r(new Q(other)); if (s.flip()) r->push(e); if (s.flip()) *r = *q; else *r = std::move(*q); q = std::move(r); } break;
        }
        const Q& c = *q;
        CHECK_EQ((size_t)c.size(), m.size(), "size"); CHECK_EQ(c.empty(), m.empty(), "empty");
        if (!m.empty()) { Item t = c.top(); CHECK(std::find(m.begin(), m.end(), t) != m.end(), "top was never pushed"); for (auto& e : m) CHECK(!comp(t, e), "top " << t.key << " outranked by " << e.key); }
        std::vector<Item> held; for (auto i = q->container().begin(); i != q->container().end(); ++i) held.push_back(*i);
        same_bag(held, m, "contents");
    }
    if (pops >= 2 && m.size() >= 1) s.nontrivial();
    drain_in_order(s, *q, m, comp);
}
TARGET(priority_queue_less, 2) { priority_queue_history<9>(s, estd::less<Item>(), estd::less<Item>()); }
TARGET(priority_queue_greater, 1) { priority_queue_history<20>(s, estd::greater<Item>(), estd::greater<Item>()); }
TARGET(priority_queue_function, 2) { bool (*c)(const Item&, const Item&) = s.flip() ? by_key_desc : by_id; bool (*o)(const Item&, const Item&) = s.flip() ? by_key : c; priority_queue_history<7>(s, c, o); }
TARGET(priority_queue_stateful, 2) { ByModulo c{1 + (int)s.choose(9)}, o{1 + (int)s.choose(9)}; priority_queue_history<12>(s, c, s.flip() ? c : o); }

template <class T, unsigned N> void stack_history(pbt::Source& s)
{
    typedef estd::layer1::stack<T, N> S;
    std::unique_ptr<S> st(new S); std::vector<T> m; int id = 0; unsigned steps = 1 + s.size(30), pops = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        T e = make<T>((int)s.choose(50), id++); bool room = m.size() < N;
        switch (s.choose(5))
        {
            case 4: { LOG("copy"); std::unique_ptr<S> o(s.flip() ? new S(*st) : new S); *o = *st; if (!m.empty()) st->pop(); else st->push((const T&)e); CHECK_EQ((size_t)o->size(), m.size(), "size of the copy"); st = std::move(o); break; }
            case 0: if (room) { LOG("push " << key_of(e)); st->push((const T&)e); m.push_back(e); } break;
            case 1: if (room) { LOG("push moved " << key_of(e)); T c = e; st->push(std::move(c)); m.push_back(e); } break;
            case 2: if (!m.empty()) { LOG("pop"); st->pop(); m.pop_back(); pops++; } break;
            default: if (!m.empty() && s.flip()) { LOG("write top"); T& t = st->top(); t = e; m.back() = e; } break;
        }
        const S& c = *st;
        CHECK_EQ((size_t)c.size(), m.size(), "size"); CHECK_EQ(c.empty(), m.empty(), "empty");
        if (!m.empty()) { T t = st->top(); CHECK(t == m.back(), "top is " << key_of(t) << " expected " << key_of(m.back())); }
        size_t i = 0; for (auto it = st->begin(); it != st->end(); ++it, ++i) { CHECK(i < m.size(), "iteration runs past the top"); T t = *it; CHECK(t == m[i], "element " << i); }
        CHECK_EQ(i, m.size(), "iteration length");
    }
    if (pops >= 2) s.nontrivial();
    while (!m.empty()) { T t = st->top(); CHECK(t == m.back(), "drained out of order"); st->pop(); m.pop_back(); }
    CHECK(st->empty(), "drained");
}
TARGET_FN("stack_int", 1, (stack_history<int, 8>));
TARGET_FN("stack_item", 1, (stack_history<Item, 5>));

} // namespace
