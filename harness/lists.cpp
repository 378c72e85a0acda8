// Linked lists of every flavour against std::list; linked references.
#include <estd/forward_list.h>
#include <estd/list.h>
#include <estd/internal/linked_ref.h>
#include "pbt.h"
#include <list>
#include <vector>
#include <memory>

namespace {

typedef std::vector<int> V;

struct Node : estd::experimental::forward_node_base
{
    int id = 0, val = 0;
    bool operator==(const Node& o) const { return val == o.val; }
};

struct PNode : estd::experimental::forward_node_base_base<PNode*>
{
    int id = 0;
    PNode() : estd::experimental::forward_node_base_base<PNode*>(nullptr) {}
};

std::string show(const V& v) { std::string r; for (int x : v) r += std::to_string(x) + " "; return r; }

template <class L, class F> void agree(L& l, const V& m, F id, const char* what)
{
    CHECK_EQ(l.empty(), m.empty(), what);
    V got; size_t bound = m.size() + 2;
    auto e = l.end();
    for (auto it = l.begin(); it != e; ++it) { got.push_back(id(*it)); CHECK(got.size() < bound, what << ": iteration does not end, wanted " << show(m) << " got " << show(got)); }
    CHECK(got == m, what << ": wanted " << show(m) << " got " << show(got));
    if (!m.empty()) CHECK_EQ(id(l.front()), m.front(), what);
}

// ---- list threaded through the caller's own nodes, reused as they come free
TARGET(intrusive_forward, 4)
{
    const unsigned K = 8; Node pool[K]; for (unsigned i = 0; i < K; i++) { pool[i].id = (int)i; pool[i].val = (int)s.choose(3); }
    estd::intrusive_forward_list<Node> l; V m; unsigned edits = 0, removed = 0;
    auto freenode = [&]() -> int { for (unsigned t = 0, st = s.choose(K); t < K; t++) { int c = (int)((st + t) % K); if (std::find(m.begin(), m.end(), c) == m.end()) return c; } return -1; };
    auto id = [](Node& n) { return n.id; };
    for (unsigned k = 0, n = 1 + s.size(24); k < n; k++)
    {
        switch (s.choose(6))
        {
            case 0: case 1: { int f = freenode(); if (f < 0) break; LOG("push_front " << f); l.push_front(pool[f]); m.insert(m.begin(), f); edits++; break; }
            case 2: { int f = freenode(); if (f < 0 || m.empty()) break; size_t p = s.choose(m.size()); LOG("insert " << f << " after position " << p);
                auto it = l.begin(); for (size_t i = 0; i < p; i++) ++it; auto r = l.insert_after(it, pool[f]); CHECK_EQ((*r).id, f, "insert_after result"); m.insert(m.begin() + p + 1, f); edits++; break; }
            case 3: { if (m.size() < 2) break; size_t p = s.choose(m.size() - 1); LOG("erase after position " << p); auto it = l.begin(); it += (int)p; auto r = l.erase_after(it); m.erase(m.begin() + p + 1);
                if (p + 1 < m.size()) CHECK_EQ((*r).id, m[p + 1], "erase_after result"); else CHECK(r == l.end(), "erase_after result"); removed++; break; }
            case 4: if (!m.empty()) { LOG("pop_front"); l.pop_front(); m.erase(m.begin()); removed++; } break;
            default: { int v = (int)s.choose(3); bool first = s.flip(), byvalue = s.flip(); LOG("remove" << (byvalue ? " value " : "_if ") << v << (first ? " first only" : ""));
                if (byvalue) { Node q; q.val = v; l.remove(q, first); } else l.remove_if([v](Node& x) { return x.val == v; }, first);
                for (size_t i = 0; i < m.size();) if (pool[m[i]].val == v) { m.erase(m.begin() + i); removed++; if (first) break; } else i++; break; }
        }
        agree(l, m, id, "after step");
    }
    if (edits >= 3 && removed >= 2) s.nontrivial();
}

TARGET(intrusive_with_back, 4)
{
    const unsigned K = 6; Node pool[K]; for (unsigned i = 0; i < K; i++) pool[i].id = (int)i;
    estd::intrusive_forward_list_with_back<Node> l; V m; unsigned edits = 0, removed = 0;
    auto freenode = [&]() -> int { for (unsigned t = 0, st = s.choose(K); t < K; t++) { int c = (int)((st + t) % K); if (std::find(m.begin(), m.end(), c) == m.end()) return c; } return -1; };
    for (unsigned k = 0, n = 1 + s.size(24); k < n; k++)
    {
        switch (s.choose(5))
        {
            case 0: case 1: { int f = freenode(); if (f < 0) break; LOG("push_back " << f); l.push_back(pool[f]); m.push_back(f); edits++; break; }
            case 2: { int f = freenode(); if (f < 0) break; LOG("push_front " << f); l.push_front(pool[f]); m.insert(m.begin(), f); edits++; break; }
            default: if (!m.empty()) { LOG("pop_front"); l.pop_front(); m.erase(m.begin()); removed++; } break;
        }
        agree(l, m, [](Node& x) { return x.id; }, "after step");
        if (!m.empty()) CHECK_EQ(l.back().id, m.back(), "back");
    }
    if (edits >= 3 && removed >= 2) s.nontrivial();
}

TARGET(head_only, 3)
{
    typedef estd::internal::list::intrusive_forward<PNode> L; typedef L::const_iterator CI;
    const unsigned K = 8; PNode pool[K]; for (unsigned i = 0; i < K; i++) pool[i].id = (int)i;
    L l; V m; unsigned edits = 0, removed = 0;
    auto freenode = [&]() -> int { for (unsigned t = 0, st = s.choose(K); t < K; t++) { int c = (int)((st + t) % K); if (std::find(m.begin(), m.end(), c) == m.end()) return c; } return -1; };
    for (unsigned k = 0, n = 1 + s.size(24); k < n; k++)
    {
        switch (s.choose(7))
        {
            case 0: case 1: { int f = freenode(); if (f < 0) break; LOG("push_front " << f); l.push_front(pool[f]); m.insert(m.begin(), f); edits++; break; }
            case 2: { int f = freenode(); if (f < 0 || m.empty()) break; size_t p = s.choose(m.size()); LOG("insert " << f << " after " << p); auto r = l.insert_after(CI(&pool[m[p]]), pool[f]); CHECK_EQ((*r).id, f, "insert_after result"); m.insert(m.begin() + p + 1, f); edits++; break; }
            case 3: { if (m.size() < 2) break; size_t p = s.choose(m.size() - 1); LOG("erase after " << p); auto r = l.erase_after(CI(&pool[m[p]])); m.erase(m.begin() + p + 1);
                if (p + 1 < m.size()) CHECK_EQ((*r).id, m[p + 1], "erase_after result"); else CHECK(r == estd::internal::list::null_iterator{}, "erase_after result"); removed++; break; }
            case 4: { int f = freenode(); if (f < 0 || m.size() < 2) break; size_t p = s.choose(m.size() - 1); LOG("replace after " << p << " with " << f); auto r = l.replace_after(CI(&pool[m[p]]), pool[f]); CHECK_EQ((*r).id, f, "replace_after result"); m[p + 1] = f; edits++; removed++; break; }
            case 5: if (!m.empty()) { LOG("pop_front"); l.pop_front(); m.erase(m.begin()); removed++; } break;
            default: if (s.one_in(8)) { LOG("clear"); l.clear(); m.clear(); } break;
        }
        agree(l, m, [](const PNode& x) { return x.id; }, "after step");
        const L& c = l; size_t i = 0; for (auto it = c.begin(); it != estd::internal::list::null_iterator{}; ++it, ++i) { CHECK(i < m.size(), "const iteration"); CHECK_EQ((*it).id, m[i], "const iteration"); }
        CHECK_EQ(i, m.size(), "const iteration");
    }
    if (edits >= 3 && removed >= 2) s.nontrivial();
}

TARGET(circular, 1)
{
    typedef estd::internal::list::circular_intrusive_forward<PNode> L;
    unsigned n = 1 + s.choose(7); std::vector<PNode> pool(n); V order; for (unsigned i = 0; i < n; i++) pool[i].id = (int)i;
    pool[0].next(&pool[0]); order.push_back(0); L l(&pool[0]);
    for (unsigned i = 1; i < n; i++)
    {
        size_t p = s.choose(order.size()); LOG("insert " << i << " after position " << p);
        L::insert_after(L::const_iterator(&pool[order[p]]), pool[i]); order.insert(order.begin() + p + 1, (int)i);
        CHECK_EQ((*l.before_begin()).id, order.back(), "before_begin");
        PNode* c = &pool[0]; for (size_t k = 0; k < order.size(); k++) { CHECK_EQ(c->id, order[k], "ring order"); c = c->next(); }
        CHECK(c == &pool[0], "the ring closes");
    }
    if (n > 2) s.nontrivial();
}

// ---- lists that own their nodes
long nodes;
template <class N> struct Counting : estd::experimental_std_allocator<N>
{
    N* allocate(size_t n) { nodes += (long)n; return std::allocator<N>().allocate(n); }
    void deallocate(N* p, size_t n) { nodes -= (long)n; std::allocator<N>().deallocate(p, n); }
};

int val(const pbt::Tracked& t) { pbt::Life::used(&t, "read"); CHECK(!t.moved, "element was moved away"); return t.v; }
template <class T> int val(const T& v) { return (int)v; }

template <class T> void owning_history(pbt::Source& s)
{
    typedef estd::experimental::ValueNode<T, estd::experimental::forward_node_base> N;
    pbt::Life::reset(); nodes = 0;
    estd::internal::forward_list<T, N, Counting<N>> l; V m; int next = 1; unsigned edits = 0, removed = 0;
    for (unsigned k = 0, n = 1 + s.size(20); k < n; k++)
    {
        int v = m.size() && s.one_in(4) ? m[s.choose(m.size())] : next++;
        switch (s.choose(9))
        {
            case 0: case 1: { LOG("push_front " << v); const T x = (T)v; l.push_front(x); m.insert(m.begin(), v); edits++; break; }
            case 2: { LOG("push_front moved " << v); l.push_front((T)v); m.insert(m.begin(), v); edits++; break; }
            case 3: { LOG("emplace_front " << v); l.emplace_front((T)v); m.insert(m.begin(), v); edits++; break; }
            case 4: { if (m.empty()) break; size_t p = s.choose(m.size()); LOG("insert " << v << " after position " << p); auto it = l.begin(); it += (int)p; const T x = (T)v; auto r = l.insert_after(it, x); CHECK_EQ(val(*r), v, "insert_after result"); m.insert(m.begin() + p + 1, v); edits++; break; }
            case 5: { if (m.size() < 2) break; size_t p = s.choose(m.size() - 1); LOG("erase after position " << p); auto it = l.begin(); it += (int)p; auto r = l.erase_after(it); m.erase(m.begin() + p + 1); removed++;
                if (p + 1 < m.size()) CHECK_EQ(val(*r), m[p + 1], "erase_after result"); else CHECK(r == l.end(), "erase_after result"); break; }
            case 6: { unsigned d = 1 + s.choose(4), r = s.choose(d); bool first = s.flip(); LOG("remove_if modulo " << d << " is " << r << (first ? ", first only" : "")); int calls = 0; size_t before = m.size();
                l.remove_if([&](T& x) { calls++; return (unsigned)val(x) % d == r; }, first);
                size_t at = 0; int met = 0; while (at < m.size()) { met++; if ((unsigned)m[at] % d == r) { m.erase(m.begin() + at); removed++; if (first) break; } else at++; }
                CHECK_EQ(calls, met, "elements the predicate was asked about"); if (before - m.size() > 1) s.label("removed_several"); break; }
            case 7: { if (m.empty()) break; int w = s.one_in(6) ? next + 5 : m[s.choose(m.size())]; LOG("remove " << w); T x = (T)w; bool first = s.flip(); l.remove(x, first); for (size_t at = 0; at < m.size();) if (m[at] == w) { m.erase(m.begin() + at); removed++; if (first) break; } else at++; CHECK_EQ(val(x), w, "the value removed"); break; }
            default: if (!m.empty()) { LOG("pop_front"); l.pop_front(); m.erase(m.begin()); removed++; } break;
        }
        CHECK_EQ(l.empty(), m.empty(), "empty"); if (!m.empty()) CHECK_EQ(val(l.front()), m.front(), "front");
        size_t i = 0; for (auto it = l.begin(); it != l.end(); it++, i++) { CHECK(i < m.size(), "iteration"); CHECK_EQ(val(*it), m[i], "iteration"); }
        CHECK_EQ(i, m.size(), "iteration");
        CHECK_EQ(nodes, (long)m.size(), "nodes in use"); if (std::is_same<T, pbt::Tracked>::value) pbt::Life::expect_live((long)m.size(), "after step");
    }
    if (edits >= 3 && removed >= 1) s.nontrivial();
    while (!l.empty()) l.pop_front();
    CHECK_EQ(nodes, 0L, "nodes in use once empty"); if (std::is_same<T, pbt::Tracked>::value) pbt::Life::expect_live(0, "once empty");
}
TARGET_FN("owning_forward<long>", 1, owning_history<long>);
TARGET_FN("owning_forward<short>", 1, owning_history<short>);
TARGET_FN("owning_forward<Tracked>", 2, owning_history<pbt::Tracked>);

// the doubly linked list never gives nodes back, so its nodes come from an arena here
template <class T> void double_history(pbt::Source& s)
{
    typedef estd::experimental::ValueNode<T, estd::experimental::double_node_base> N;
    typedef estd::experimental_std_allocator<N> A;
    typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<T>> TR;
    typedef estd::internal::list_base<T, N, A, TR> L;
    L l; V m; int next = 1; unsigned edits = 0;
    std::vector<N*> all;
    for (unsigned k = 0, n = 1 + s.size(14); k < n; k++)
    {
        int v = next++; const T x = (T)v;
        switch (s.choose(5))
        {
            case 0: LOG("push_front " << v); l.push_front(x); m.insert(m.begin(), v); break;
            case 1: LOG("push_back " << v); l.push_back(x); m.push_back(v); break;
            case 2: LOG("push_back moved " << v); l.push_back((T)v); m.push_back(v); break;
            case 3: LOG("emplace_front " << v); l.emplace_front((T)v); m.insert(m.begin(), v); break;
            default: { if (m.empty()) { l.push_front(x); m.push_back(v); break; } size_t p = s.choose(m.size() + 1); LOG("insert " << v << " before position " << p);
                if (p == m.size()) { auto r = l.insert(l.end(), x); CHECK_EQ((int)*r, v, "insert result"); m.push_back(v); edits++; break; }
                auto it = l.begin(); it += (int)p; auto r = l.insert(it, x); CHECK_EQ((int)*r, v, "insert result"); m.insert(m.begin() + p, v); edits++; break; }
        }
        CHECK_EQ(l.empty(), m.empty(), "empty");
        size_t i = 0; auto last = l.begin(); for (auto it = l.begin(); it != l.end(); ++it, ++i) { CHECK(i < m.size(), "iteration"); CHECK_EQ((int)*it, m[i], "forward iteration"); last = it; }
        CHECK_EQ(i, m.size(), "iteration");
        CHECK_EQ((int)l.back(), m.back(), "back"); CHECK_EQ((int)l.front(), m.front(), "front");
        for (size_t j = m.size(); j-- > 0;) { CHECK_EQ((int)*last, m[j], "backward iteration"); if (j) --last; }
        CHECK(last == l.begin(), "back at the beginning");
        { size_t a = s.choose(m.size()); auto it = l.begin(); it += (int)a; CHECK_EQ((int)*it, m[a], "jump forward"); size_t b = s.choose(a + 1); it -= (int)b; CHECK_EQ((int)*it, m[a - b], "jump back");
            auto from = l.begin(); from += (int)a; auto back = from - (int)b; CHECK_EQ((int)*back, m[a - b], "position minus a number"); CHECK_EQ((int)*from, m[a], "position left where it was"); CHECK_EQ(from - back, (int)b, "distance between positions"); }
    }
    if (m.size() >= 4 && edits) s.nontrivial();
    for (auto it = l.begin(); it != l.end();) { auto* h = it.node(); ++it; all.push_back(static_cast<N*>(h)); }
    for (N* p : all) std::allocator<N>().deallocate(p, 1);
}
TARGET_FN("double<long>", 2, double_history<long>);

// ---- references that share one value through a ring
int destroyed[4];
struct RT { static int null() { return -1; } static bool null(int v) { return v == -1; } static void destruct(int v) { if (v >= 0) destroyed[v]++; } };

TARGET(linked_ref, 3)
{
    typedef estd::internal::linked_ref<int, RT> R;
    for (int& d : destroyed) d = 0;
    std::vector<std::unique_ptr<R>> live; V group; int made = 0; unsigned copies = 0, moves = 0;
    auto check = [&](const char* what) {
        for (int g = 0; g < made; g++) { long n = std::count(group.begin(), group.end(), g); CHECK_EQ(destroyed[g], n == 0 ? 1 : 0, what << " value " << g << " with " << n << " holders"); }
        for (size_t i = 0; i < live.size(); i++) CHECK_EQ((long)live[i]->count_shared(), (long)std::count(group.begin(), group.end(), group[i]), what << " holders"); };
    for (unsigned k = 0, n = 1 + s.size(20); k < n; k++)
    {
        switch (s.choose(5))
        {
            case 0: if (made < 4) { LOG("new value " << made); live.emplace_back(new R(made)); group.push_back(made++); } break;
            case 1: case 2: { if (live.empty() || live.size() > 8) break; size_t p = s.choose(live.size()); LOG("copy " << p); live.emplace_back(new R((const R&)*live[p])); group.push_back(group[p]); copies++; break; }
            case 3: { if (live.empty()) break; size_t p = s.choose(live.size()); LOG("drop " << p); live.erase(live.begin() + p); group.erase(group.begin() + p); break; }
            default: { if (live.empty()) break; size_t p = s.choose(live.size()); LOG("move " << p); std::unique_ptr<R> r(new R(std::move(*live[p]))); live[p] = std::move(r); moves++; break; }
        }
        check("after step");
    }
    while (!live.empty()) { size_t p = s.choose(live.size()); live.erase(live.begin() + p); group.erase(group.begin() + p); check("while dropping"); }
    if (copies >= 2) s.nontrivial();
}

}
