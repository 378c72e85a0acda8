// C39: what is given away is moved, never copied, and what isn't given away is left as it was.
#include <estd/vector.h>
#include <estd/stack.h>
#include <estd/queue.h>
#include <estd/list.h>
#include <estd/forward_list.h>
#include <estd/array.h>
#include <estd/optional.h>
#include <estd/expected.h>
#include <estd/variant.h>
#include <estd/tuple.h>
#include <estd/functional.h>
#include <estd/memory.h>
#include <estd/algorithm.h>
#include <estd/utility.h>
#include <estd/map.h>
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
#include <estd/internal/container/traditional_accessor.h>
#include <memory>
#include <vector>
#include <map>
#include "pbt.h"
#include "grow_alloc.h"

namespace {
// a value which counts how it gets around
int copies, moves;
struct Ware
{
    int v; bool gone = false;
    Ware(int v = 0) : v(v) {}
    Ware(int a, int b) : v(a * 100 + b) {}
    Ware(const Ware& o) : v(o.v), gone(o.gone) { copies++; }
    Ware(Ware&& o) noexcept : v(o.v), gone(o.gone) { moves++; o.gone = true; }
    Ware& operator=(const Ware& o) { v = o.v; gone = o.gone; copies++; return *this; }
    Ware& operator=(Ware&& o) noexcept { v = o.v; gone = o.gone; moves++; if (&o != this) o.gone = true; return *this; }
    bool operator==(const Ware& o) const { return v == o.v; }
    bool operator!=(const Ware& o) const { return v != o.v; }
    bool operator<(const Ware& o) const { return v < o.v; }
    bool operator>(const Ware& o) const { return v > o.v; }
};
void is(const Ware& w, int v, const char* what) { CHECK(!w.gone, what << " was moved away"); CHECK_EQ(w.v, v, what); }

// gives w to f: an rvalue must be moved from and not copied, an lvalue left alone
enum Way { keep, keep_const, give };
struct Hand
{
    Way way; Ware w; int v;
    Hand(pbt::Source& s, int v) : way((Way)s.choose(3)), w(v), v(v) { LOG((way == give ? "give " : way == keep ? "keep " : "keep const ") << v); if (way == give) s.nontrivial(); }
    template <class F> void operator()(F f)
    {
        copies = moves = 0;
        switch (way) { case keep: f(w); break; case keep_const: f((const Ware&)w); break; default: f(std::move(w)); }
        if (way == give) { CHECK_EQ(copies, 0, "copies of what was given away"); CHECK(w.gone, "what was given away wasn't taken"); }
        else { CHECK(copies >= 1, "nothing was copied of what was kept"); is(w, v, "what was kept"); }
    }
};
template <class C> void same(C& c, const std::vector<int>& m, const char* what)
{
    size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) { CHECK(i < m.size(), what << ": too long"); const Ware& w = *it; is(w, m[i], what); }
    CHECK_EQ(i, m.size(), what);
}

template <class V> void vector_history(pbt::Source& s, V& v, unsigned cap)
{
    std::vector<int> m;
    for (unsigned k = 0, n = 1 + s.size(12); k < n && m.size() < cap; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(4))
        {
            case 0: { LOG("push_back"); Hand h(s, x); h([&](auto&& w) { v.push_back(std::forward<decltype(w)>(w)); }); m.push_back(x); break; }
            case 1: { LOG("emplace_back"); Hand h(s, x); h([&](auto&& w) { v.emplace_back(std::forward<decltype(w)>(w)); }); m.push_back(x); break; }
            case 2: { size_t p = s.choose(m.size() + 1); LOG("insert at " << p); Hand h(s, x); h([&](auto&& w) { auto it = v.begin(); it += (int)p; v.insert(it, std::forward<decltype(w)>(w)); }); m.insert(m.begin() + p, x); break; }
            default: { LOG("emplace_back of two"); copies = 0; int y = (int)s.choose(50); v.emplace_back(x, y); CHECK_EQ(copies, 0, "copies when built in place"); m.push_back(x * 100 + y); break; }
        }
        same(v, m, "vector");
    }
    copies = 0; if (!m.empty() && s.flip()) { v.pop_back(); m.pop_back(); CHECK_EQ(copies, 0, "copies of what is dropped"); same(v, m, "vector"); }
}
TARGET(fixed_vector, 2) { estd::layer1::vector<Ware, 12> v; vector_history(s, v, 12); }
TARGET(heap_vector, 1) { estd::vector<Ware, GrowAlloc<Ware>> v; vector_history(s, v, 30); }

TARGET(stacks, 1)
{
    estd::layer1::stack<Ware, 10> t; std::vector<int> m;
    for (unsigned k = 0, n = 1 + s.size(14); k < n; k++)
    {
        if (m.size() < 10 && !s.one_in(3)) { int x = (int)s.choose(50); LOG("push"); Hand h(s, x); h([&](auto&& w) { t.push(std::forward<decltype(w)>(w)); }); m.push_back(x); }
        else if (!m.empty()) { LOG("pop"); t.pop(); m.pop_back(); }
        if (!m.empty()) { const Ware& w = t.top(); is(w, m.back(), "top"); }
    }
}

template <unsigned N> void queues(pbt::Source& s)
{
    typedef estd::layer1::queue<Ware, N> Q; std::unique_ptr<Q> q(new Q); std::vector<int> m;
    for (unsigned k = 0, n = 1 + s.size(16); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(5))
        {
            case 0: case 1: if (m.size() < N) { LOG("push"); Hand h(s, x); h([&](auto&& w) { q->push(std::forward<decltype(w)>(w)); }); m.push_back(x); } else { LOG("push refused"); Ware w(x); CHECK(!q->push(std::move(w)), "pushing into a full queue is refused"); is(w, x, "what was refused"); CHECK(!q->push((const Ware&)w), "pushing into a full queue is refused"); } break;
            case 2: if (m.size() < N) { LOG("emplace"); Hand h(s, x); h([&](auto&& w) { q->emplace(std::forward<decltype(w)>(w)); }); m.push_back(x); } break;
            case 3: if (!m.empty()) { LOG("pop"); q->pop(); m.erase(m.begin()); } break;
            default: { LOG("move the queue"); copies = 0; std::unique_ptr<Q> r(new Q(std::move(*q))); CHECK_EQ(copies, 0, "copies of a queue's elements as it moves"); q = std::move(r); }
        }
        CHECK_EQ((size_t)q->size(), m.size(), "size"); if (!m.empty()) { is(q->front(), m.front(), "front"); is(q->back(), m.back(), "back"); }
    }
}
TARGET_FN("queues<4>", 1, queues<4>);
TARGET_FN("queues<7>", 1, queues<7>);
TARGET(deques, 2)
{
    typedef estd::layer1::deque<Ware, 6> Q; std::unique_ptr<Q> q(new Q); std::vector<int> m;
    for (unsigned k = 0, n = 1 + s.size(16); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(6))
        {
            case 0: if (m.size() < 6) { LOG("push_back"); Hand h(s, x); h([&](auto&& w) { q->push_back(std::forward<decltype(w)>(w)); }); m.push_back(x); } break;
            case 1: if (m.size() == 6) { LOG("push_back refused"); Ware w(x); CHECK(!q->push_back(std::move(w)), "pushing into a full deque is refused"); is(w, x, "what was refused"); } else { LOG("emplace_back"); Hand h(s, x); h([&](auto&& w) { q->emplace_back(std::forward<decltype(w)>(w)); }); m.push_back(x); } break;
            case 2: if (m.size() < 6) { LOG("emplace_front"); Hand h(s, x); h([&](auto&& w) { q->emplace_front(std::forward<decltype(w)>(w)); }); m.insert(m.begin(), x); } break;
            case 3: if (!m.empty()) { LOG("pop_front"); q->pop_front(); m.erase(m.begin()); } break;
            case 4: if (!m.empty()) { LOG("pop_back"); q->pop_back(); m.pop_back(); } break;
            default: { LOG("move the deque"); copies = 0; std::unique_ptr<Q> r(new Q(std::move(*q))); CHECK_EQ(copies, 0, "copies of a deque's elements as it moves"); q = std::move(r); }
        }
        CHECK_EQ((size_t)q->size(), m.size(), "size"); if (!m.empty()) { is(q->front(), m.front(), "front"); is(q->back(), m.back(), "back"); }
    }
}

// a heap moves its elements about but need never copy one
TARGET(priority_queues, 3)
{
    typedef estd::layer1::priority_queue<Ware, 12> Q; Q q; std::vector<int> m;
    for (unsigned k = 0, n = 1 + s.size(20); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(5))
        {
            case 0: if (m.size() < 12) { LOG("push"); Hand h(s, x); h([&](auto&& w) { q.push(std::forward<decltype(w)>(w)); }); m.push_back(x); } break;
            case 1: if (m.size() < 12) { LOG("emplace"); Hand h(s, x); h([&](auto&& w) { q.emplace(std::forward<decltype(w)>(w)); }); m.push_back(x); } break;
            case 2: if (m.size() < 12) { LOG("emplace with notify"); Hand h(s, x); h([&](auto&& w) { q.emplace_with_notify([&](Ware& r) { is(r, x, "what was emplaced"); }, std::forward<decltype(w)>(w)); }); m.push_back(x); } break;
            default: if (!m.empty()) { LOG("pop"); copies = 0; q.pop(); CHECK_EQ(copies, 0, "copies as the first leaves"); m.erase(std::max_element(m.begin(), m.end())); } break;
        }
        CHECK_EQ((size_t)q.size(), m.size(), "size"); if (!m.empty()) { const Ware& t = q.top(); is(t, *std::max_element(m.begin(), m.end()), "top"); }
        if (m.size() > 3) s.label("over three");
    }
}

template <class N> struct Nodes : estd::experimental_std_allocator<N> { N* allocate(size_t n) { return std::allocator<N>().allocate(n); } void deallocate(N* p, size_t n) { std::allocator<N>().deallocate(p, n); } };
TARGET(forward_lists, 1)
{
    typedef estd::experimental::ValueNode<Ware, estd::experimental::forward_node_base> N; estd::internal::forward_list<Ware, N, Nodes<N>> l; std::vector<int> m;
    for (unsigned k = 0, n = 1 + s.size(10); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(4))
        {
            case 0: { LOG("push_front"); Hand h(s, x); h([&](auto&& w) { l.push_front(std::forward<decltype(w)>(w)); }); m.insert(m.begin(), x); break; }
            case 1: { LOG("emplace_front"); Hand h(s, x); h([&](auto&& w) { l.emplace_front(std::forward<decltype(w)>(w)); }); m.insert(m.begin(), x); break; }
            case 2: { LOG("emplace_front of two"); copies = 0; l.emplace_front(x, 5); CHECK_EQ(copies, 0, "copies when built in place"); m.insert(m.begin(), x * 100 + 5); break; }
            default: if (!m.empty()) { copies = 0; l.pop_front(); m.erase(m.begin()); CHECK_EQ(copies, 0, "copies of what is dropped"); }
        }
        same(l, m, "list");
    }
    while (!l.empty()) l.pop_front();
}
TARGET(double_lists, 1)
{
    typedef estd::experimental::ValueNode<Ware, estd::experimental::double_node_base> N; typedef estd::experimental_std_allocator<N> A;
    typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<Ware>> TR; estd::internal::list_base<Ware, N, A, TR> l; std::vector<int> m;
    for (unsigned k = 0, n = 1 + s.size(10); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(4))
        {
            case 0: { LOG("push_front"); Hand h(s, x); h([&](auto&& w) { l.push_front(std::forward<decltype(w)>(w)); }); m.insert(m.begin(), x); break; }
            case 1: { LOG("push_back"); Hand h(s, x); h([&](auto&& w) { l.push_back(std::forward<decltype(w)>(w)); }); m.push_back(x); break; }
            case 2: { LOG("emplace_front"); Hand h(s, x); h([&](auto&& w) { l.emplace_front(std::forward<decltype(w)>(w)); }); m.insert(m.begin(), x); break; }
            default: { LOG("emplace_front of two"); copies = 0; l.emplace_front(x, 5); CHECK_EQ(copies, 0, "copies when built in place"); m.insert(m.begin(), x * 100 + 5); break; }
        }
        same(l, m, "list");
    }
    std::vector<N*> all; for (auto it = l.begin(); it != l.end();) { auto* h = it.node(); ++it; all.push_back(static_cast<N*>(h)); }
    for (N* p : all) std::allocator<N>().deallocate(p, 1);
}

// one value at a time
TARGET(optionals, 3)
{
    typedef estd::optional<Ware> O; O o; bool has = false; int cur = 0;
    for (unsigned k = 0, n = 1 + s.size(8); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(10))
        {
            case 0: { LOG("assign"); Hand h(s, x); h([&](auto&& w) { o = std::forward<decltype(w)>(w); }); has = true; cur = x; break; }
            case 1: { LOG("emplace"); Hand h(s, x); h([&](auto&& w) { o.emplace(std::forward<decltype(w)>(w)); }); has = true; cur = x; break; }
            case 2: { LOG("construct"); Hand h(s, x); h([&](auto&& w) { O p(std::forward<decltype(w)>(w)); is(*p, x, "constructed"); }); break; }
            case 3: { LOG("in place"); Hand h(s, x); h([&](auto&& w) { O p(estd::in_place_t{}, std::forward<decltype(w)>(w)); is(*p, x, "in place"); }); break; }
            case 4: if (s.flip()) { LOG("reset"); copies = 0; o.reset(); CHECK_EQ(copies, 0, "copies"); has = false; break; } else { LOG("emplace of two"); copies = 0; o.emplace(x, 7); CHECK_EQ(copies, 0, "copies when built in place"); has = true; cur = x * 100 + 7; break; }
            case 5: if (has) { LOG("move out"); copies = 0; Ware w(std::move(*o)); CHECK_EQ(copies, 0, "copies of a value moved out"); is(w, cur, "moved out"); CHECK(o.has_value() && o->gone, "the optional keeps a value moved from"); *o = Ware(cur); } break;
            case 6: if (has) { LOG("value() moved"); copies = 0; Ware w(std::move(o).value()); CHECK_EQ(copies, 0, "copies of a value moved out"); is(w, cur, "moved out"); o = Ware(cur); } break;
            case 7: { LOG("move construct"); copies = 0; O p(std::move(o)); CHECK_EQ(copies, 0, "copies as an optional moves"); CHECK_EQ(p.has_value(), has, "has_value"); if (has) is(*p, cur, "moved"); copies = 0; o = std::move(p); CHECK_EQ(copies, 0, "copies as an optional is move assigned"); break; }
            case 8: { LOG("copy"); copies = moves = 0; O p(o); CHECK_EQ(copies, (int)has, "copies as an optional is copied"); if (has) { is(*p, cur, "copy"); is(*o, cur, "original"); } p = o; if (has) { is(*p, cur, "copy"); is(*o, cur, "original"); } break; }
            default: { LOG("value_or"); Hand h(s, x); int want = has ? cur : x; Ware got; copies = 0;
                if (h.way == give) { got = std::move(o).value_or(std::move(h.w)); CHECK_EQ(copies, 0, "copies in value_or"); if (has) { CHECK(!h.w.gone, "an unused default was moved from"); o = Ware(cur); } }
                else { got = o.value_or(h.w); is(h.w, x, "the default"); if (has) is(*o, cur, "the value"); }
                is(got, want, "value_or"); break; }
        }
        CHECK_EQ(o.has_value(), has, "has_value"); if (has) is(*o, cur, "value");
    }
}

TARGET(expecteds, 3)
{
    typedef estd::expected<Ware, Ware> E; typedef estd::unexpected<Ware> U; E e(estd::in_place_t{}, 1); bool ok = true; int cur = 1;
    for (unsigned k = 0, n = 1 + s.size(8); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(8))
        {
            case 0: { LOG("assign"); Hand h(s, x); h([&](auto&& w) { e = std::forward<decltype(w)>(w); }); ok = true; cur = x; break; }
            case 1: { LOG("emplace"); Hand h(s, x); h([&](auto&& w) { e.emplace(std::forward<decltype(w)>(w)); }); ok = true; cur = x; break; }
            case 2: { LOG("construct"); Hand h(s, x); h([&](auto&& w) { E p(std::forward<decltype(w)>(w)); is(*p, x, "constructed"); }); break; }
            case 3: { LOG("unexpected"); Hand h(s, x); h([&](auto&& w) { U p(std::forward<decltype(w)>(w)); is(p.error(), x, "error"); }); e = U(Ware(x)); ok = false; cur = x; break; }
            case 4: if (s.flip()) { LOG("from unexpected"); E p(U{Ware(x)}); is(p.error(), x, "error"); break; }
                else { bool err = s.flip(); LOG((err ? "error in place" : "value in place")); Hand h(s, x); h([&](auto&& w) { if (err) { E p(estd::unexpect_t{}, std::forward<decltype(w)>(w)); is(p.error(), x, "error"); } else { E p(estd::in_place_t{}, std::forward<decltype(w)>(w)); is(*p, x, "in place"); } }); break; }
            case 5: if (ok) { LOG("move out"); copies = 0; Ware w(*std::move(e)); CHECK_EQ(copies, 0, "copies of a value moved out"); is(w, cur, "moved out"); e = Ware(cur); } else { LOG("move error out"); copies = 0; Ware w(std::move(e.error())); CHECK_EQ(copies, 0, "copies of an error moved out"); is(w, cur, "moved out"); e = U(Ware(cur)); } break;
            case 6: { LOG("move"); copies = 0; E p(std::move(e)); CHECK_EQ(copies, 0, "copies as an expected moves"); CHECK_EQ(p.has_value(), ok, "has_value"); is(ok ? *p : p.error(), cur, "moved"); if (ok) e = Ware(cur); else e = U(Ware(cur)); break; }
            default: { LOG("copy"); copies = 0; E p(e); CHECK_EQ(copies, 1, "copies as an expected is copied"); is(ok ? *p : p.error(), cur, "copy"); }
        }
        CHECK_EQ(e.has_value(), ok, "has_value"); is(ok ? *e : e.error(), cur, "content");
    }
}

struct Tag { int a; };
TARGET(variants, 3)
{
    typedef estd::variant<int, Ware, Tag> X; X e(5); int alt = 0, cur = 5;
    for (unsigned k = 0, n = 1 + s.size(8); k < n; k++)
    {
        int x = (int)s.choose(50);
        switch (s.choose(7))
        {
            case 0: { LOG("assign"); Hand h(s, x); h([&](auto&& w) { e = std::forward<decltype(w)>(w); }); alt = 1; cur = x; break; }
            case 1: { LOG("emplace"); Hand h(s, x); h([&](auto&& w) { e.template emplace<Ware>(std::forward<decltype(w)>(w)); }); alt = 1; cur = x; break; }
            case 2: { LOG("in place"); Hand h(s, x); h([&](auto&& w) { X p(estd::in_place_index_t<1>{}, std::forward<decltype(w)>(w)); is(estd::get<1>(p), x, "in place"); }); break; }
            case 3: { LOG("a tag"); e = Tag{x}; alt = 2; cur = x; break; }
            case 4: if (alt == 1) { LOG("move out"); copies = 0; Ware w(estd::get<1>(std::move(e))); CHECK_EQ(copies, 0, "copies of a value moved out"); is(w, cur, "moved out"); e = Ware(cur); } break;
            case 5: { LOG("move"); copies = 0; X p(std::move(e)); CHECK_EQ(copies, 0, "copies as a variant moves"); CHECK_EQ((int)p.index(), alt, "index"); if (alt == 1) is(estd::get<1>(p), cur, "moved"); e = std::move(p); CHECK_EQ(copies, 0, "copies as a variant is move assigned"); break; }
            default: { LOG("copy"); copies = 0; X p(e); CHECK_EQ(copies, (int)(alt == 1), "copies as a variant is copied"); if (alt == 1) is(estd::get<1>(p), cur, "copy"); }
        }
        CHECK_EQ((int)e.index(), alt, "index"); if (alt == 1) is(estd::get<1>(e), cur, "value"); else if (alt == 2) CHECK_EQ(estd::get<2>(e).a, cur, "tag");
    }
}

TARGET(tuples_pairs, 3)
{
    int x = (int)s.choose(50), y = (int)s.choose(50);
    typedef estd::tuple<Ware, int, Ware> T; typedef estd::pair<Ware, int> P;
    switch (s.choose(10))
    {
        case 0: { LOG("tuple"); Hand h(s, x); h([&](auto&& w) { T t(std::forward<decltype(w)>(w), 3, Ware(y)); is(estd::get<0>(t), x, "first"); is(estd::get<2>(t), y, "third"); }); break; }
        case 1: { LOG("make_tuple"); copies = 0; auto t = estd::make_tuple(7, Ware(x)); CHECK_EQ(copies, 0, "copies as a tuple is made"); is(estd::get<1>(t), x, "second"); s.nontrivial(); break; }
        case 2: { LOG("move a tuple"); T t(Ware(x), 3, Ware(y)); copies = 0; T u(std::move(t)); CHECK_EQ(copies, 0, "copies as a tuple moves"); is(estd::get<0>(u), x, "first"); is(estd::get<2>(u), y, "third"); s.nontrivial(); break; }
        case 3: { LOG("get of a moved tuple"); T t(Ware(x), 3, Ware(y)); copies = 0; Ware w(estd::get<2>(std::move(t))); CHECK_EQ(copies, 0, "copies of an element moved out"); is(w, y, "third"); is(estd::get<0>(t), x, "first"); s.nontrivial(); break; }
        case 4: { LOG("apply"); T t(Ware(x), 3, Ware(y)); copies = 0; int sum = estd::apply([](Ware a, int b, Ware c) { is(a, a.v, "first"); return a.v * 10000 + b * 100 + c.v; }, std::move(t)); CHECK_EQ(copies, 0, "copies as a tuple's elements are given away"); CHECK_EQ(sum, x * 10000 + 300 + y, "sum"); s.nontrivial(); break; }
        case 5: { LOG("apply a kept tuple"); T t(Ware(x), 3, Ware(y)); int sum = estd::apply([](Ware a, int b, Ware c) { return a.v * 10000 + b * 100 + c.v; }, t); is(estd::get<0>(t), x, "first"); is(estd::get<2>(t), y, "third"); CHECK_EQ(sum, x * 10000 + 300 + y, "sum"); break; }
        case 6: { LOG("pair"); Hand h(s, x); h([&](auto&& w) { P p(std::forward<decltype(w)>(w), 4); is(p.first, x, "first"); }); break; }
        case 7: { LOG("make_pair"); Hand h(s, x); h([&](auto&& w) { auto p = estd::make_pair(std::forward<decltype(w)>(w), 4); is(p.first, x, "first"); }); break; }
        case 8: { LOG("move a pair"); P p(Ware(x), 4); copies = 0; P q(std::move(p)); CHECK_EQ(copies, 0, "copies as a pair moves"); is(q.first, x, "first"); P r(Ware(y), 1); copies = 0; r = std::move(q); CHECK_EQ(copies, 0, "copies as a pair is move assigned"); is(r.first, x, "first"); s.nontrivial(); break; }
        default: { LOG("forward_as_tuple"); Hand h(s, x); h([&](auto&& w) { auto t = estd::forward_as_tuple(std::forward<decltype(w)>(w), 1); Ware got(estd::get<0>(std::move(t))); is(got, x, "forwarded"); }); break; }
    }
}

TARGET(calls, 2)
{
    int x = (int)s.choose(50);
    switch (s.choose(7))
    {
        case 0: { LOG("function's argument"); Hand h(s, x); auto f = [](Ware w) { is(w, w.v, "argument"); return w.v; };
#if __cplusplus >= 201703L
            h([&](auto&& w) { CHECK_EQ(estd::invoke(f, std::forward<decltype(w)>(w)), x, "result"); });
#endif
            break; }
        case 1: { LOG("exchange"); Ware a(x), b(7); copies = 0; Ware old = estd::exchange(a, std::move(b)); CHECK_EQ(copies, 0, "copies in exchange"); is(old, x, "old"); is(a, 7, "new"); s.nontrivial(); break; }
        case 2: { LOG("swap"); Ware a(x), b(7); copies = 0; estd::swap(a, b); CHECK_EQ(copies, 0, "copies in swap"); is(a, 7, "first"); is(b, x, "second"); s.nontrivial(); break; }
        case 3: { LOG("shared"); Hand h(s, x); h([&](auto&& w) { estd::layer1::shared_ptr<Ware> p; p.construct(std::forward<decltype(w)>(w)); is(*p, x, "shared"); }); break; }
        case 4: { LOG("swap elements"); Ware a[3] = { Ware(x), Ware(1), Ware(2) }; copies = 0; estd::iter_swap(a, a + 2); CHECK_EQ(copies, 0, "copies in iter_swap"); is(a[2], x, "element"); is(a[0], 2, "element"); s.nontrivial(); break; }
        case 5: { LOG("reverse"); Ware a[5]; for (int i = 0; i < 5; i++) a[i].v = x + i; copies = 0; estd::reverse(a, a + 5); CHECK_EQ(copies, 0, "copies in reverse"); for (int i = 0; i < 5; i++) is(a[i], x + 4 - i, "element"); s.nontrivial(); break; }
        default: { LOG("move_backward"); Ware a[6]; for (int i = 0; i < 6; i++) a[i].v = x + i; copies = 0; estd::move_backward(a, a + 4, a + 6); CHECK_EQ(copies, 0, "copies in move_backward"); for (int i = 0; i < 4; i++) is(a[i + 2], x + i, "element"); s.nontrivial(); break; }
    }
}

struct One { size_t operator()(int k) const { return (size_t)(k % 2); } };
TARGET(unordered, 2)
{
    typedef estd::layer1::unordered_map<int, Ware, 64, One> M; std::unique_ptr<M> q(new M); std::map<int, int> m;
    for (unsigned k = 0, n = 1 + s.size(10); k < n; k++)
    {
        int key = 1 + (int)s.choose(6), x = (int)s.choose(50); bool had = m.count(key);
        switch (s.choose(7))
        {
            case 0: { LOG("emplace " << key); Hand h(s, x); copies = 0; if (h.way == give) { q->emplace(key, std::move(h.w)); CHECK_EQ(copies, 0, "copies"); CHECK_EQ(h.w.gone, !had, "taken"); } else { q->emplace(key, h.w); is(h.w, x, "kept"); } if (!had) m[key] = x; break; }
            case 1: { LOG("try_emplace " << key); Hand h(s, x); copies = 0; if (h.way == give) { q->try_emplace(key, std::move(h.w)); CHECK_EQ(copies, 0, "copies"); CHECK_EQ(h.w.gone, !had, "taken"); } else { q->try_emplace(key, h.w); is(h.w, x, "kept"); } if (!had) m[key] = x; break; }
            case 2: { LOG("insert_or_assign " << key); Hand h(s, x); h([&](auto&& w) { q->insert_or_assign(key, std::forward<decltype(w)>(w)); }); m[key] = x; break; }
            case 3: { LOG("[] " << key); Hand h(s, x); h([&](auto&& w) { (*q)[key] = std::forward<decltype(w)>(w); }); m[key] = x; break; }
            case 4: if (had) { LOG("erase " << key); copies = 0; if (s.flip()) q->erase(key); else q->erase(q->find(key)); CHECK_EQ(copies, 0, "copies of what is erased"); m.erase(key); } break;
            case 5: if (had) { LOG("erase and close up " << key); copies = 0; q->erase_and_gc(q->find(key)); CHECK_EQ(copies, 0, "copies as room is closed"); m.erase(key); } break;
            default: { LOG("insert a pair " << key); typename M::value_type p(key, Ware(x)); copies = 0; q->insert(std::move(p)); CHECK_EQ(copies, 0, "copies of a pair given away"); if (!had) m[key] = x; break; }
        }
        for (auto& kv : m) { auto it = q->find(kv.first); CHECK(it != q->end(), "not found"); is(it->second, kv.second, "mapped"); }
    }
}
}
