// Vectors of every storage kind against std::vector, one history at a time.
#include <estd/vector.h>
#include "pbt.h"
#include <memory>
#include <vector>
#include "grow_alloc.h"

namespace {

struct Wide { int a; short b; char c; friend bool operator==(const Wide& x, const Wide& y) { return x.a == y.a && x.b == y.b && x.c == y.c; } };
template <class T> T make(int v) { return (T)v; }
template <> Wide make<Wide>(int v) { Wide w; memset(&w, 0, sizeof w); w.a = v; w.b = (short)(v * 3); w.c = (char)(v * 7); return w; }
std::string sh(const Wide& w) { return std::to_string(w.a); }
template <class T> std::string sh(const T& v) { return std::to_string(v); }

template <class T, unsigned N> struct InObject { typedef estd::layer1::vector<T, N> type; typedef T value; static constexpr unsigned cap = N; std::unique_ptr<type> p; InObject() : p(new type) {} static constexpr bool in_object = true, fixed = true, has_data = true; };
template <class T, unsigned N> struct OverBuffer { typedef estd::layer2::vector<T, N> type; typedef T value; static constexpr unsigned cap = N; std::unique_ptr<T[]> b; std::unique_ptr<type> p; OverBuffer() : b(new T[N]), p(new type(b.get())) {} static constexpr bool in_object = false, fixed = true, has_data = true; };
template <class T, unsigned N> struct OverSized { typedef estd::layer3::vector<T> type; typedef T value; static constexpr unsigned cap = N; std::unique_ptr<T[]> b; std::unique_ptr<type> p; OverSized() : b(new T[N]), p(new type(b.get(), N)) {} static constexpr bool in_object = false, fixed = true, has_data = true; };
template <class T, unsigned N> struct OnHeap { typedef estd::vector<T, GrowAlloc<T>> type; typedef T value; static constexpr unsigned cap = N; std::unique_ptr<type> p; OnHeap() : p(new type) {} static constexpr bool in_object = false, fixed = false, has_data = false; };

template <class Box, class T> void agree(Box& x, const std::vector<T>& m, const char* what)
{
    auto& v = *x.p;
    CHECK_EQ((size_t)v.size(), m.size(), what);
    CHECK_EQ((bool)v.empty(), m.empty(), what);
    CHECK((size_t)v.capacity() >= m.size(), what << ": capacity " << v.capacity() << " below size " << m.size());
    const T* p = v.clock();
    for (size_t i = 0; i < m.size(); i++) CHECK(p[i] == m[i], what << ": element " << i << " is " << sh(p[i]) << " expected " << sh(m[i]) << " of " << m.size());
    v.cunlock();
}

template <class Box> void history(pbt::Source& s)
{
    typedef typename Box::value T;
    Box x; auto& v = *x.p; std::vector<T> m; int next = 1;
    unsigned steps = 1 + s.size(24), edits = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        size_t room = Box::cap - m.size(), at = s.choose(m.size() + 1);
        T val = make<T>(s.one_in(3) ? (int)s.choose(5) : next++);
        auto pos = [&](size_t i) { auto it = v.begin(); while (i--) ++it; return it; };
        switch (s.choose(24))
        {
            case 0: case 1: if (room) { LOG("push_back " << sh(val)); v.push_back((const T&)val); m.push_back(val); edits++; } break;
            case 2: if (room) { LOG("push_back move " << sh(val)); T c = val; v.push_back(std::move(c)); m.push_back(val); edits++; } break;
            case 3: if constexpr (Box::fixed) if (room) { LOG("emplace_back " << sh(val)); v.emplace_back(val); m.push_back(val); edits++; } break;
            case 4: if constexpr (Box::fixed) if (!m.empty()) { LOG("pop_back"); v.pop_back(); m.pop_back(); edits++; } break;
            case 5: if (room) { LOG("insert at " << at << " " << sh(val)); auto r = v.insert(pos(at), (const T&)val); m.insert(m.begin() + at, val); CHECK(r == pos(at), "insert returns another position"); CHECK((T)*r == val, "insert returns a position holding something else"); edits++; } break;
            case 6: if (room) { LOG("insert moved at " << at << " " << sh(val)); T c = val; auto r = v.insert(pos(at), std::move(c)); m.insert(m.begin() + at, val); CHECK(r == pos(at), "insert returns another position"); CHECK((T)*r == val, "insert returns a position holding something else"); edits++; } break;
            case 7: { std::vector<T> r; unsigned n = s.choose(room < 6 ? room + 1 : 6); while (n--) r.push_back(make<T>(next++)); LOG("insert range of " << r.size() << " at " << at);
                auto q = v.insert(pos(at), r.data(), r.data() + r.size()); m.insert(m.begin() + at, r.begin(), r.end()); CHECK(q == pos(at), "insert of a range returns another position"); edits++; break; }
            case 8: if (at < m.size()) { LOG("erase " << at); auto r = v.erase(pos(at)); m.erase(m.begin() + at); CHECK(r == pos(at), "erase returns another position"); CHECK_EQ(r == v.end(), at == m.size(), "erase at the end returns end"); edits++; } break;
            case 9: if (s.one_in(3)) { LOG("clear"); v.clear(); m.clear(); edits++; } else { size_t n = s.choose(m.size() + 1); LOG("resize " << n); CHECK(v.resize(n), "resize down"); m.resize(n); edits++; } break;
            case 10: { std::vector<T> r; unsigned n = s.choose(room < 5 ? room + 1 : 5); while (n--) r.push_back(make<T>(next++)); LOG("append " << r.size()); v.append(r.data(), r.size()); m.insert(m.end(), r.begin(), r.end()); edits++; break; }
            case 11: if (at < m.size()) { LOG("[" << at << "] = " << sh(val)); if (s.flip()) v[at] = val; else v.lock()[at] = val; m[at] = val; edits++; } break;
            case 12: { size_t n = m.size() + s.choose(room + 1); LOG("resize up " << n); CHECK(v.resize(n), "resize up"); CHECK_EQ((size_t)v.size(), n, "size after resize up");
                for (size_t i = m.size(); i < n; i++) { T e = make<T>(next++); v.lock()[i] = e; m.push_back(e); } v.unlock(); edits++; break; }
            case 13: if (!m.empty()) { LOG("front and back = " << sh(val)); if (s.flip()) { v.front() = val; m.front() = val; } else { v.back() = val; m.back() = val; } edits++; } break;
            case 14: if (!m.empty()) { at %= m.size(); LOG("through iterator at " << at << " = " << sh(val)); auto it = pos(at); *it = val; m[at] = val; edits++; } break;
            case 15: { size_t b = s.choose(m.size() + 1); LOG("positions " << at << " and " << b);
                auto x1 = v.begin(), x2 = v.end(); x1 += (ptrdiff_t)at; x2 -= (ptrdiff_t)(m.size() - b);
                CHECK_EQ((long)(x1 - x2), (long)at - (long)b, "distance"); CHECK_EQ(x1 == x2, at == b, "== of positions"); CHECK_EQ(x1 != x2, at != b, "!= of positions");
                CHECK_EQ(x1 < x2, at < b, "< of positions"); CHECK_EQ(x1 > x2, at > b, "> of positions"); CHECK_EQ(x1 >= x2, at >= b, ">= of positions");
                CHECK(v.begin() + (ptrdiff_t)at == x1, "begin + n"); CHECK(v.end() - (ptrdiff_t)(m.size() - at) == x1, "end - n");
                if (at < m.size()) { auto y = x1; auto old = y++; CHECK(old == x1, "it++ gives the old position"); CHECK((T)*old == m[at], "value of it++"); CHECK(y == v.begin() + (ptrdiff_t)(at + 1), "it++ moves on one"); old = y--; CHECK(y == x1, "it-- moves back one"); CHECK(old == x1 + 1, "it-- gives the old position"); ++y; --y; CHECK(y == x1, "++ then --");
                    const auto& cv = v; auto c = cv.begin(); c += (ptrdiff_t)at; T e = *c; CHECK(e == m[at], "through a constant position"); CHECK_EQ((long)(cv.end() - cv.begin()), (long)m.size(), "constant distance"); CHECK((long)(v.cend() - v.cbegin()) == (long)m.size(), "cend - cbegin"); }
                break; }
            case 18: if constexpr (Box::in_object) { // copies are independent, and hold the same
                typedef typename Box::type V; std::unique_ptr<V> c; unsigned how = (unsigned)s.choose(5); LOG("copy, way " << how);
                switch (how)
                {
                    case 0: c.reset(new V(v)); break;
                    case 1: c.reset(new V); if (s.flip()) c->push_back((const T&)val); *c = v; break;
                    case 2: { V d(v); c.reset(new V(std::move(d))); break; }
                    case 3: { V d(v); c.reset(new V); *c = std::move(d); break; }
                    default: c.reset(m.size() == 0 ? new V : m.size() == 1 ? new V{m[0]} : new V{m[0], m[1]}); for (size_t i = 2; i < m.size(); i++) c->push_back((const T&)m[i]); break;
                }
                Box y; y.p = std::move(c); agree(y, m, "copy");
                CHECK(*y.p == v, "copy ==");
                if (!m.empty()) { // change one, see that the other stays
                    std::vector<T> n = m; size_t i = at % n.size(); T w = make<T>(next++); bool swap = s.flip(); auto& changed = swap ? v : *y.p;
                    changed[i] = w; n[i] = w; if (s.flip()) { changed.pop_back(); n.pop_back(); }
                    agree(x, swap ? n : m, "original after a change"); agree(y, swap ? m : n, "copy after a change");
                    if (swap) m = n;
                }
                edits++; } break;
            case 16: if (room && !m.empty()) { size_t f = s.choose(m.size()); T w = m[f]; LOG("insert own element " << f << " at " << at); const T& own = v.lock()[f]; v.unlock(); v.insert(pos(at), own); m.insert(m.begin() + at, w); edits++; } break;
            case 17: if (room && !m.empty()) { size_t f = s.choose(m.size()); T w = m[f]; LOG("push_back own element " << f); const T& own = v.lock()[f]; v.unlock(); v.push_back(own); m.push_back(w); edits++; } break;
            case 19: { size_t n = s.choose(Box::fixed ? (size_t)v.capacity() + 1 : m.size() + 12); LOG("reserve " << n); CHECK(v.reserve(n), "reserve"); CHECK((size_t)v.capacity() >= n, "capacity " << v.capacity() << " after reserving " << n); break; }
            case 20: LOG("shrink_to_fit"); v.shrink_to_fit(); break;
            case 21: { std::vector<T> r; unsigned n = s.choose(std::min<size_t>(Box::cap, 9) + 1); while (n--) r.push_back(make<T>(next++)); LOG("assign range of " << r.size()); if (s.flip()) v.assign(r.begin(), r.end()); else { const T* f = r.data(); v.assign(f, f + r.size()); } m = r; edits++; break; }
            case 22: { estd::layer1::vector<T, 11> o; std::vector<T> r; unsigned n = s.choose(std::min<size_t>(Box::cap, 11) + 1); bool add = s.flip(); if (add && n > room) n = room; while (n--) { T e = make<T>(next++); o.push_back((const T&)e); r.push_back(e); }
                LOG((add ? "append" : "assign") << " another of " << r.size()); if (add) { v.append(o); m.insert(m.end(), r.begin(), r.end()); } else { v.assign(o); m = r; }
                CHECK_EQ((size_t)o.size(), r.size(), "source"); for (size_t i = 0; i < r.size(); i++) CHECK((T)o[i] == r[i], "source element " << i); edits++; break; }
            default: { LOG("reads"); size_t i = 0;
                for (auto it = v.begin(); it != v.end(); ++it, ++i) { CHECK(i < m.size(), "iteration runs past the end"); T e = *it; CHECK(e == m[i], "iteration element " << i); }
                CHECK_EQ(i, m.size(), "iteration length");
                if (!m.empty()) { T f = v.front(), b = v.back(), e = v[at % m.size()], g = v.at(at % m.size()); CHECK(f == m.front(), "front"); CHECK(b == m.back(), "back"); CHECK(e == m[at % m.size()], "[]"); CHECK(g == m[at % m.size()], "at"); }
                const auto& cv = v;
                if (!m.empty()) { size_t i = at % m.size(); T f = cv.front(), b = cv.back(), e = cv[i], g = cv.at(i); CHECK(f == m.front(), "constant front"); CHECK(b == m.back(), "constant back"); CHECK(e == m[i], "constant []"); CHECK(g == m[i], "constant at"); }
                if constexpr (Box::has_data) { const T* p = cv.data(); T* q = v.data(); for (size_t j = 0; j < m.size(); j++) { CHECK(p[j] == m[j], "constant data element " << j); CHECK(&q[j] == &p[j], "data"); } if (!m.empty()) { size_t j = at % m.size(); q[j] = val; m[j] = val; edits++; } }
                if (!m.empty() && s.flip()) { size_t j = s.choose(m.size()); T w = make<T>(next++); LOG("write at " << j); if (s.flip()) v.at(j) = w; else v[j] = w; m[j] = w; edits++; }
                break; }
        }
        agree(x, m, "after step");
    }
    if (edits >= 4) s.nontrivial();
    // equality with another vector of different capacity
    estd::layer1::vector<T, Box::cap + 3> o; std::vector<T> om = m;
    if (s.flip() && !om.empty()) { size_t i = s.choose(om.size()); om[i] = make<T>(77); }
    if (s.one_in(4)) om.push_back(make<T>(1));
    for (auto& e : om) o.push_back((const T&)e);
    CHECK_EQ(v == o, m == om, "==");
}

TARGET_FN("in_object", 3, history<InObject<int, 12>>);
TARGET_FN("in_object_wide", 2, history<InObject<Wide, 7>>);
TARGET_FN("in_object_short", 1, history<InObject<short, 40>>);
TARGET_FN("over_buffer", 2, history<OverBuffer<int, 10>>);
TARGET_FN("over_buffer_wide", 1, history<OverBuffer<Wide, 9>>);
TARGET_FN("over_sized", 2, history<OverSized<int, 9>>);
TARGET_FN("on_heap", 3, history<OnHeap<int, 60>>);
TARGET_FN("on_heap_wide", 2, history<OnHeap<Wide, 60>>);

} // namespace
