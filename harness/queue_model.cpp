// Circular deque and FIFO queue against std::deque, with element lifetimes tracked.
#include <estd/queue.h>
#include "pbt.h"
#include <deque>
#include <memory>

using pbt::Tracked;
using pbt::Life;

namespace {

int val(int v) { return v; }
int val(const Tracked& t) { Life::used(&t, "read"); CHECK(!t.moved, "element was moved away"); return t.v; }

template <class D> void agree(D& d, const std::deque<int>& m, size_t cap, const char* what)
{
    const D& c = d;
    CHECK_EQ((size_t)c.size(), m.size(), what);
    CHECK_EQ(c.empty(), m.empty(), what);
    CHECK_EQ((size_t)c.max_size(), cap, "max_size");
    if (!m.empty())
    {
        CHECK_EQ(val(d.front()), m.front(), what); CHECK_EQ(val(d.back()), m.back(), what);
        CHECK_EQ(val(c.front()), m.front(), what); CHECK_EQ(val(c.back()), m.back(), what);
    }
    size_t i = 0;
    for (auto it = d.begin(); it != d.end(); ++it, ++i) { CHECK(i < m.size(), what << ": iteration runs past the end"); CHECK_EQ(val(*it), m[i], what); }
    CHECK_EQ(i, m.size(), what);
}

template <class T, unsigned N> void deque_history(pbt::Source& s)
{
    Life::reset();
    typedef estd::layer1::deque<T, N> D;
    std::unique_ptr<D> d(new D); std::deque<int> m; int next = 1;
    unsigned steps = 1 + s.size(30), wraps = 0, edits = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        int v = next++; bool full = m.size() == N;
        switch (s.choose(11))
        {
            case 0: case 1: { LOG("push_back " << v); T x(v); bool ok = d->push_back((const T&)x); CHECK_EQ(ok, !full, "push_back result"); if (ok) m.push_back(v); edits++; break; }
            case 2: { LOG("push_back moved " << v); T x(v); bool ok = d->push_back(std::move(x)); CHECK_EQ(ok, !full, "push_back result"); if (ok) m.push_back(v); edits++; break; }
            case 3: { LOG("push_front " << v); T x(v); bool ok = d->push_front(x); CHECK_EQ(ok, !full, "push_front result"); if (ok) m.push_front(v); edits++; break; }
            case 4: if (!full) { LOG("emplace_back " << v); T& r = d->emplace_back(v); m.push_back(v); CHECK_EQ(val(r), v, "emplace_back result"); edits++; } break;
            case 5: if (!full) { LOG("emplace_front " << v); T& r = d->emplace_front(v); m.push_front(v); CHECK_EQ(val(r), v, "emplace_front result"); edits++; } break;
            case 6: case 7: { LOG("pop_front"); bool ok = d->pop_front(); CHECK_EQ(ok, !m.empty(), "pop_front result"); if (ok) { m.pop_front(); wraps++; } break; }
            case 8: { LOG("pop_back"); bool ok = d->pop_back(); CHECK_EQ(ok, !m.empty(), "pop_back result"); if (ok) m.pop_back(); break; }
            case 9: { // from the end back to the beginning
                LOG("walk back from the end"); auto it = d->end(); size_t i = m.size();
                while (it != d->begin()) { CHECK(i > 0, "backward walk from the end runs past the beginning"); --it; --i; CHECK_EQ(val(*it), m[i], "backward walk from the end"); }
                CHECK_EQ(i, (size_t)0, "backward walk from the end stops early"); break; }
            default: { // step back and forth inside the contents
                if (m.size() < 2) break; size_t a = 1 + s.choose(m.size() - 1); LOG("walk to " << a << " and back");
                auto it = d->begin(); for (size_t i = 0; i < a; i++) { auto old = it++; CHECK_EQ(val(*old), m[i], "post increment"); }
                for (size_t i = a; i > 0; i--) { CHECK_EQ(val(*it), m[i], "backward walk"); --it; }
                CHECK_EQ(val(*it), m[0], "backward walk"); CHECK(it == d->begin(), "back at begin"); break; }
        }
        agree(*d, m, N, "after step");
        if (std::is_same<T, Tracked>::value) Life::expect_live((long)m.size(), "after step");
    }
    if (edits >= 3 && wraps >= 1) s.nontrivial();
    if (s.one_in(3))
    {
        LOG("move the deque");
        std::unique_ptr<D> e(new D(std::move(*d)));
        d.reset();
        agree(*e, m, N, "moved deque");
        if (m.size() < N) { LOG("push after move"); T x(next); CHECK(e->push_back((const T&)x), "push after move"); m.push_back(next); }
        agree(*e, m, N, "moved deque after push");
        d = std::move(e);
    }
    d.reset();
    if (std::is_same<T, Tracked>::value) Life::expect_live(0, "after destruction");
}

template <class T, unsigned N> void queue_history(pbt::Source& s)
{
    Life::reset();
    typedef estd::queue<T, estd::layer1::deque<T, N>> Q;
    std::unique_ptr<Q> q(new Q); std::deque<int> m; int next = 1;
    unsigned steps = 1 + s.size(30), pops = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        int v = next++; bool full = m.size() == N;
        switch (s.choose(6))
        {
            case 0: { LOG("push " << v); T x(v); bool ok = q->push((const T&)x); CHECK_EQ(ok, !full, "push result"); if (ok) m.push_back(v); break; }
            case 1: { LOG("push moved " << v); T x(v); bool ok = q->push(std::move(x)); CHECK_EQ(ok, !full, "push result"); if (ok) m.push_back(v); break; }
            case 2: if (!full) { LOG("emplace " << v); T& r = q->emplace(v); CHECK_EQ(val(r), v, "emplace result"); m.push_back(v); } break;
            case 3: if (s.one_in(6)) { LOG("move"); std::unique_ptr<Q> e(new Q(std::move(*q))); q = std::move(e); } break;
            default: { LOG("pop"); bool ok = q->pop(); CHECK_EQ(ok, !m.empty(), "pop result"); if (ok) { m.pop_front(); pops++; } }
        }
        CHECK_EQ((size_t)q->size(), m.size(), "size"); CHECK_EQ(q->empty(), m.empty(), "empty");
        if (!m.empty()) { const Q& c = *q; CHECK_EQ(val(q->front()), m.front(), "front"); CHECK_EQ(val(q->back()), m.back(), "back"); CHECK_EQ(val(c.front()), m.front(), "front"); CHECK_EQ(val(c.back()), m.back(), "back"); }
        if (std::is_same<T, Tracked>::value) Life::expect_live((long)m.size(), "after step");
    }
    if (pops >= 2) s.nontrivial();
    q.reset();
    if (std::is_same<T, Tracked>::value) Life::expect_live(0, "after destruction");
}

TARGET_FN("deque_int_4", 2, deque_history<int, 4>);
TARGET_FN("deque_int_1", 1, deque_history<int, 1>);
TARGET_FN("deque_short_9", 1, deque_history<short, 9>);
TARGET_FN("deque_object_5", 3, deque_history<Tracked, 5>);
TARGET_FN("deque_object_2", 1, deque_history<Tracked, 2>);
TARGET_FN("queue_int_3", 2, queue_history<int, 3>);
TARGET_FN("queue_object_4", 2, queue_history<Tracked, 4>);

} // namespace
