// Vectors and strings in memory which moves whenever nobody holds a lock on it: they lock what they touch, let go of
// every lock when an operation is over, and hold what the standard ones hold.
#include <estd/vector.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/forward_list.h>
#include <estd/list.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include <estd/internal/container/accessor.h>
#include "pbt.h"
#include <memory>
#include <vector>
#include <string>
#include <sstream>
#include "mov_alloc.h"

namespace {

using mov::arena; using mov::Where;

struct Pair { int a; short b; friend bool operator==(const Pair& x, const Pair& y) { return x.a == y.a && x.b == y.b; } friend bool operator!=(const Pair& x, const Pair& y) { return !(x == y); } };
template <class T> T make(int v) { return (T)v; }
template <> Pair make<Pair>(int v) { Pair p; memset(&p, 0, sizeof p); p.a = v; p.b = (short)(v * 3); return p; }
std::string sh(const Pair& p) { return std::to_string(p.a); }
template <class T> std::string sh(const T& v) { return std::to_string(v); }

void settled(const char* what)
{
    mov::Arena& a = arena();
    CHECK(!a.faults, what << ": " << a.fault);
    CHECK(a.held == 0, what << " leaves " << a.held << " locks behind");
}

template <class V, class M> void agree(V& v, const M& m, const char* what)
{
    settled(what);
    CHECK_EQ((size_t)v.size(), m.size(), what);
    settled("size()");
    CHECK((size_t)v.capacity() >= m.size(), what << ": capacity " << v.capacity() << " below size " << m.size());
    if (!m.empty())
    {
        auto p = v.clock();
        for (size_t i = 0; i < m.size(); i++) CHECK(p[i] == m[i], what << ": element " << i << " is " << sh(p[i]) << " expected " << sh(m[i]) << " of " << m.size());
        v.cunlock();
    }
    CHECK_EQ((bool)v.empty(), m.empty(), what);
    settled("comparing with the model");
}

template <class T> void vectors(pbt::Source& s)
{
    typedef estd::vector<T, mov::Alloc<T>> V;
    arena().reset();
    std::unique_ptr<V> p(new V), p2(new V); V &v = *p, &w = *p2; std::vector<T> m, m2; int next = 1; unsigned edits = 0;
    if (s.flip()) { LOG("reserve"); v.reserve(1 + s.choose(20)); }
    unsigned steps = 1 + s.size(20);
    for (unsigned k = 0; k < steps; k++)
    {
        size_t at = s.choose(m.size() + 1); T val = make<T>(s.one_in(3) ? (int)s.choose(4) : next++ & 127);
        auto pos = [&](size_t i) { auto it = v.begin(); it += (ptrdiff_t)i; return it; };
        auto some = [&] { std::vector<T> r; unsigned n = s.choose(7); while (n--) r.push_back(make<T>(next++ & 127)); return r; };
        const char* what = "";
        switch (s.choose(23))
        {
            case 0: case 1: what = "push_back"; LOG(what << " " << sh(val)); v.push_back((const T&)val); m.push_back(val); edits++; break;
            case 2: { what = "push_back moved"; LOG(what << " " << sh(val)); T c = val; v.push_back(std::move(c)); m.push_back(val); edits++; break; }
            case 3: if (s.flip()) { what = "emplace_back"; LOG(what << " " << sh(val)); { auto r = v.emplace_back(val); m.push_back(val); CHECK(r == val, "what emplace_back returns"); } edits++; } else if (!m.empty()) { what = "pop_back"; LOG(what); v.pop_back(); m.pop_back(); edits++; } break;
            case 4: { what = "insert"; LOG(what << " at " << at << " " << sh(val)); { auto r = v.insert(pos(at), (const T&)val); m.insert(m.begin() + at, val); CHECK_EQ((size_t)(r - v.begin()), at, "position insert returns"); T got = r.lock(); r.unlock(); CHECK(got == val, "element at the position insert returns"); } edits++; break; }
            case 5: { what = "insert moved"; LOG(what << " at " << at << " " << sh(val)); { T c = val; auto r = v.insert(pos(at), std::move(c)); m.insert(m.begin() + at, val); CHECK_EQ((size_t)(r - v.begin()), at, "position insert returns"); } edits++; break; }
            case 6: { what = "insert range"; auto r = some(); LOG(what << " of " << r.size() << " at " << at); v.insert(pos(at), r.data(), r.data() + r.size()); m.insert(m.begin() + at, r.begin(), r.end()); edits++; break; }
            case 7: { what = "insert range of other iterators"; auto r = some(); LOG(what << " of " << r.size() << " at " << at); v.insert(pos(at), r.begin(), r.end()); m.insert(m.begin() + at, r.begin(), r.end()); edits++; break; }
            case 8: if (at < m.size()) { what = "erase"; LOG(what << " " << at); { auto r = v.erase(pos(at)); m.erase(m.begin() + at); CHECK_EQ((size_t)(r - v.begin()), at, "position erase returns"); } edits++; } break;
            case 9: { what = "append"; auto r = some(); LOG(what << " " << r.size()); v.append(r.data(), r.size()); m.insert(m.end(), r.begin(), r.end()); edits++; break; }
            case 10: { what = "append of another"; LOG(what << " " << m2.size()); v.append(w); m.insert(m.end(), m2.begin(), m2.end()); edits++; break; }
            case 11: if (m.size() < 60) { what = "append of itself"; LOG(what); v.append(v); auto c = m; m.insert(m.end(), c.begin(), c.end()); edits++; } break;
            case 12: { what = "assign"; auto r = some(); LOG(what << " " << r.size()); if (v.capacity()) { v.assign(r.begin(), r.end()); m = r; edits++; } break; }
            case 13: what = "assign of another"; LOG(what << " " << m2.size()); v.assign(w); m = m2; edits++; break;
            case 14: { size_t n = s.choose(m.size() + 1); what = "resize"; LOG(what << " " << n); v.resize(n); m.resize(n); edits++; break; }
            case 15: what = "clear"; LOG(what); v.clear(); m.clear(); edits++; break;
            case 16: what = "reserve"; LOG(what); if (s.flip()) v.reserve(m.size() + 1 + s.choose(10)); else if (v.capacity() && m.size()) v.shrink_to_fit(); break;
            case 17: if (at < m.size()) { what = "[] ="; LOG(what << " " << at); switch (s.choose(4)) { case 0: v[at] = val; break; case 1: v.at(at) = val; break;
                case 2: { auto a = v[at]; a.lock() = val; a.unlock(); break; } default: { T* d = v.lock(at, 1); *d = val; v.unlock(); break; } } m[at] = val; edits++; } break;
            case 18: if (at < m.size()) { what = "[]"; LOG(what << " " << at); { auto a = v[at]; CHECK(a == m[at], "v[i] == value"); settled("element == value"); CHECK_EQ((bool)(a != val), !(m[at] == val), "v[i] != value"); settled("element != value"); const V& cv = v; auto b = cv.at(at); T got = b.clock(); b.cunlock(); CHECK(got == m[at], "at"); } } break;
            case 19: if (!m.empty()) { what = "front and back"; LOG(what); { auto f = v.front(); auto b = v.back(); CHECK(f == m.front(), "front"); CHECK(b == m.back(), "back"); } settled(what); if (s.flip()) { v.front() = val; m.front() = val; } else { v.back() = val; m.back() = val; } edits++; } break;
            case 20: { what = "copy out"; size_t n = s.choose(10); LOG(what << " " << at << "," << n); if (m.empty()) break; size_t want = at + n > m.size() ? m.size() - at : n; std::unique_ptr<T[]> b(new T[want ? want : 1]);
                CHECK_EQ((size_t)v.copy(b.get(), n, at), want, "copied"); for (size_t i = 0; i < want; i++) CHECK(b[i] == m[at + i], "copied element " << i); break; }
            case 21: { what = "== another"; bool same = s.flip(); LOG(what << (same ? " equal" : "")); if (same) { w.assign(v); m2 = m; settled("assign"); } if (m.empty() != m2.empty() || !m.empty()) CHECK_EQ((bool)(v == w), m == m2, "=="); break; }
            default: { what = "changes to another"; auto r = some(); LOG(what << " " << r.size()); if (s.flip()) { w.clear(); m2.clear(); } w.append(r.data(), r.size()); m2.insert(m2.end(), r.begin(), r.end()); break; }
        }
        if (*what) agree(v, m, what);
        agree(w, m2, "the other one");
    }
    if (edits > 3) s.nontrivial();
}

typedef estd::basic_string<char, estd::char_traits<char>, mov::Alloc<char>> S;
size_t as(S::size_type r) { return r == S::npos ? std::string::npos : (size_t)r; }

void strings(pbt::Source& s)
{
    arena().reset();
    std::unique_ptr<S> p(new S), p2(new S); S &v = *p, &w = *p2; std::string m, m2; unsigned edits = 0;
    auto some = [&](unsigned max) { std::string r; unsigned n = s.choose(max + 1); while (n--) r += "abca"[s.choose(4)]; return r; };
    unsigned steps = 1 + s.size(20);
    v.reserve(1 + s.choose(4)); w.reserve(1);
    for (unsigned k = 0; k < steps; k++)
    {
        size_t at = s.choose(m.size() + 1), n = s.choose(m.size() - at + 2); char c = "abc"[s.choose(3)]; std::string t = some(5);
        bool whole = s.one_in(3); size_t from = s.choose(m.size() + 3);
        const char* what = "";
        switch (s.choose(34))
        {
            case 0: what = "+= character"; LOG(what); v += c; m += c; edits++; break;
            case 1: what = "+= C string"; LOG(what << " " << t); v += t.c_str(); m += t; edits++; break;
            case 2: what = "+= string"; LOG(what << " " << m2); v += w; m += m2; edits++; break;
            case 3: if (m.size() < 60) { what = "append of itself"; LOG(what); v.append(v); m += std::string(m); edits++; } break;
            case 4: what = "append counted"; LOG(what << " " << t); v.append(t.data(), t.size()); m += t; edits++; break;
            case 5: what = "append n characters"; LOG(what << " " << n); v.append(n, c); m.append(n, c); edits++; break;
            case 6: what = "append view"; LOG(what << " " << t); v += estd::string_view(t.data(), t.size()); m += t; edits++; break;
            case 7: what = "insert counted"; LOG(what << " at " << at << " " << t); v.insert(at, t.data(), t.size()); m.insert(at, t); edits++; break;
            case 8: what = "insert C string"; LOG(what << " at " << at << " " << t); v.insert(at, t.c_str()); m.insert(at, t); edits++; break;
            case 9: what = "insert string"; LOG(what << " at " << at << " " << m2); v.insert(at, w); m.insert(at, m2); edits++; break;
            case 10: if (m.size() < 60) { what = "insert of itself"; LOG(what << " at " << at); arena().lenient = true; v.insert(at, v); arena().lenient = false; m.insert(at, std::string(m)); edits++; } break;
            case 11: if (m.size() < 60) { what = "append of a part of itself"; LOG(what << " " << at << "," << n); if (at + n > m.size()) n = m.size() - at; if (!n) break; arena().lenient = true; { const char* q = v.clock(); v.append(q + at, n); v.cunlock(); } arena().lenient = false; m += std::string(m, at, n); edits++; } break;
            case 12: what = "erase"; LOG(what << " " << at << "," << n); v.erase(at, n); m.erase(at, n); edits++; break;
            case 13: what = "= C string"; LOG(what << " " << t); v = t.c_str(); m = t; edits++; break;
            case 14: what = "assign string"; LOG(what << " " << m2); v.assign(w); m = m2; edits++; break;
            case 15: what = "assign view"; LOG(what << " " << t); v = estd::string_view(t.data(), t.size()); m = t; edits++; break;
            case 16: what = "compare string"; LOG(what); CHECK_EQ(v.compare(w) == 0, m == m2, what); break;
            case 17: what = "compare C string"; LOG(what); if (s.flip()) t = m; CHECK_EQ(v.compare(t.c_str()) == 0, m == t, what); settled(what); CHECK_EQ((bool)(v == t.c_str()), m == t, "== C string"); break;
            case 18: what = "== string"; LOG(what); CHECK_EQ((bool)(v == w), m == m2, what); break;
            case 19: what = "find character"; LOG(what << " " << from); CHECK_EQ(as(whole ? v.find(c) : v.find(c, from > m.size() ? m.size() : from)), m.find(c, whole ? 0 : from), what); break;
            case 20: what = "find C string"; LOG(what << " " << t << " from " << from); CHECK_EQ(as(whole ? v.find(t.c_str()) : v.find(t.c_str(), from)), m.find(t, whole ? 0 : from), what); settled(what); CHECK_EQ(as(whole ? v.find(w) : v.find(w, from)), m.find(m2, whole ? 0 : from), "find string"); break;
            case 21: what = "rfind"; LOG(what << " " << t << " from " << from); CHECK_EQ(as(whole ? v.rfind(t.c_str()) : v.rfind(t.c_str(), from)), m.rfind(t, whole ? std::string::npos : from), what); settled(what); CHECK_EQ(as(whole ? v.rfind(w) : v.rfind(w, from)), m.rfind(m2, whole ? std::string::npos : from), "rfind string"); break;
            case 22: what = "find_first_of"; LOG(what << " " << t << " from " << from); CHECK_EQ(as(whole ? v.find_first_of(t.c_str()) : v.find_first_of(t.c_str(), from)), m.find_first_of(t, whole ? 0 : from), what); settled(what); CHECK_EQ(as(whole ? v.find_first_of(w) : v.find_first_of(w, from)), m.find_first_of(m2, whole ? 0 : from), "find_first_of string"); break;
            case 23: what = "find_last_of"; LOG(what << " " << t << " from " << from); CHECK_EQ(as(whole ? v.find_last_of(t.c_str()) : v.find_last_of(t.c_str(), from)), m.find_last_of(t, whole ? std::string::npos : from), what); settled(what); CHECK_EQ(as(whole ? v.find_last_of(w) : v.find_last_of(w, from)), m.find_last_of(m2, whole ? std::string::npos : from), "find_last_of string"); break;
            case 24: { what = "starts_with"; LOG(what); if (s.flip()) t = m.substr(0, at); CHECK_EQ((bool)v.starts_with(t.c_str()), m.compare(0, t.size(), t) == 0 && m.size() >= t.size(), what); settled(what); CHECK_EQ((bool)v.starts_with(w), m.size() >= m2.size() && m.compare(0, m2.size(), m2) == 0, "starts_with string"); settled("starts_with string"); CHECK_EQ((bool)v.starts_with(c), !m.empty() && m[0] == c, "starts_with character"); settled("starts_with character"); break; }
            case 25: { what = "ends_with"; LOG(what); if (s.flip()) t = m.substr(at); auto e = [&](const std::string& x) { return m.size() >= x.size() && m.compare(m.size() - x.size(), x.size(), x) == 0; }; CHECK_EQ((bool)v.ends_with(t.c_str()), e(t), what); settled(what); CHECK_EQ((bool)v.ends_with(w), e(m2), "ends_with string"); settled("ends_with string"); CHECK_EQ((bool)v.ends_with(c), !m.empty() && m.back() == c, "ends_with character"); settled("ends_with character"); break; }
            case 26: { what = "copy out"; LOG(what << " " << at << "," << n); size_t want = at + n > m.size() ? m.size() - at : n; std::unique_ptr<char[]> b(new char[want ? want : 1]); CHECK_EQ((size_t)v.copy(b.get(), n, at), want, "copied"); CHECK(std::string(b.get(), want) == m.substr(at, n), "copied characters"); break; }
            case 27: what = "clear"; LOG(what); if (s.flip()) { size_t z = s.choose(m.size() + 1); v.resize(z); m.resize(z); } else { v.clear(); m.clear(); } break;
            case 28: what = "reserve"; LOG(what); if (s.flip() || m.empty()) v.reserve(m.size() + 1 + s.choose(10)); else v.shrink_to_fit(); break;
            case 29: { if (m.size() > 290) break; what = "printing"; LOG(what); std::ostringstream o; if (s.flip()) { o << v; CHECK(o.str() == m, "printed to std: " << o.str() << " expected " << m); } else { estd::layer1::ostringstream<300> e; e << v; CHECK(e.rdbuf()->str().size() == m.size() && m.compare(0, m.size(), e.rdbuf()->str().data(), m.size()) == 0, "printed"); } break; }
            case 30: { if (m.size() > 70) break; what = "to and from a string in the object"; LOG(what); { estd::layer1::string<250> q; q = v; CHECK(std::string(q.data()) == m, "assigned to another kind"); settled(what); q += v; CHECK(std::string(q.data()) == m + m, "appended to another kind"); settled(what); q.insert(at, v); CHECK(std::string(q.data()) == m.substr(0, at) + m + m.substr(at) + m, "inserted into another kind"); settled(what);
                q = t.c_str(); CHECK_EQ((bool)(q == v), t == m, "== of another kind"); settled(what); CHECK_EQ((bool)(v == q), t == m, "== another kind"); settled(what); v += q; m += t; settled(what); CHECK_EQ((bool)v.ends_with(q), true, "ends with what was appended"); settled(what); CHECK_EQ(as(v.rfind(q)), m.rfind(t), "rfind of another kind"); } edits++; break; }
            default: what = "changes to another"; LOG(what << " " << t); if (s.flip()) { w.clear(); m2.clear(); } w += t.c_str(); m2 += t; break;
        }
        if (*what) agree(v, m, what);
        agree(w, m2, "the other one");
    }
    if (edits > 3) s.nontrivial();
}

// ---- lists whose nodes are known by handles
struct Ahead : estd::experimental::forward_node_base_base<int> { Ahead() : estd::experimental::forward_node_base_base<int>(-1) {} };
struct Both : Ahead { int m_prev = -1; int prev() const { return m_prev; } void prev(int h) { m_prev = h; } };

template <class L> void walk(L& l, const std::vector<int>& m, const char* what)
{
    settled(what);
    CHECK_EQ((bool)l.empty(), m.empty(), what);
    size_t i = 0;
    for (auto it = l.begin(); it != l.end(); ++it, ++i) { CHECK(i < m.size(), what << ": longer than " << m.size()); int got = (int)it.lock(); it.unlock(); CHECK_EQ(got, m[i], what << ": element " << i); settled("iterating"); }
    CHECK_EQ(i, m.size(), what);
}

// looks at itself when it goes
struct Elem
{
    long tag = 0x5EED; int v;
    Elem(int v) : v(v) { alive++; } Elem(const Elem& o) : v(o.v) { alive++; } ~Elem() { if (tag != 0x5EED) arena().bad("destructor run on what is no element"); tag = 0; alive--; }
    explicit operator int() const { return v; } bool operator==(int x) const { return v == x; }
    static long alive;
};
long Elem::alive = 0;
long alive(const Elem*, long) { return Elem::alive; }
long alive(const int*, long n) { return n; }

long live() { long n = 0; for (auto& b : arena().blocks) n += b.live; return n; }

template <class E> void forward(pbt::Source& s)
{
    typedef estd::experimental::ValueNode<E, Ahead> N; typedef mov::Alloc<N> A;
    typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<E>> TR;
    arena().reset(); Elem::alive = 0;
    estd::internal::forward_list<E, N, A, TR> l; std::vector<int> m; int next = 1; unsigned edits = 0;
    for (unsigned k = 0, n = 1 + s.size(20); k < n; k++)
    {
        const int v = s.one_in(3) ? (int)s.choose(3) : next++; size_t p = s.choose(m.size() + 1); const char* what = "nothing";
        auto pos = [&](size_t i) { auto it = l.begin(); it += (int)i; return it; };
        switch (s.choose(7))
        {
            case 0: case 1: what = "push_front"; LOG(what << " " << v); l.push_front(v); m.insert(m.begin(), v); edits++; break;
            case 2: what = "push_front moved"; LOG(what << " " << v); l.push_front(E(v)); m.insert(m.begin(), v); edits++; break;
            case 3: what = "emplace_front"; LOG(what << " " << v); l.emplace_front(v); m.insert(m.begin(), v); edits++; break;
            case 4: if (p < m.size()) { what = "insert_after"; LOG(what << " " << p << " " << v); auto r = l.insert_after(pos(p), v); int got = (int)r.lock(); r.unlock(); CHECK_EQ(got, v, "insert_after result"); m.insert(m.begin() + p + 1, v); edits++; } break;
            case 5: if (p + 1 < m.size()) { what = "erase_after"; LOG(what << " " << p); auto r = l.erase_after(pos(p)); m.erase(m.begin() + p + 1); CHECK_EQ(r == l.end(), p + 1 == m.size(), "erase_after result"); if (p + 1 < m.size()) { int got = (int)r.lock(); r.unlock(); CHECK_EQ(got, m[p + 1], "erase_after result"); } edits++; } break;
            default: if (!m.empty() && s.one_in(4)) { what = "front"; LOG(what); (void)&l.front(); break; }
                if (s.flip()) { if (!m.empty()) { what = "pop_front"; LOG(what); l.pop_front(); m.erase(m.begin()); edits++; } break; }
                { what = "remove_if"; bool first = s.flip(); LOG(what << " " << v << (first ? " first" : "")); l.remove_if([&](const E& x) { return x == v; }, first);
                for (size_t i = 0; i < m.size();) if (m[i] == v) { m.erase(m.begin() + i); if (first) break; } else i++; edits++; break; }
        }
        walk(l, m, what);
        CHECK_EQ(live(), (long)m.size(), "nodes in use after " << what); CHECK_EQ(alive((E*)nullptr, live()), live(), "elements alive after " << what);
    }
    if (edits > 4) s.nontrivial();
}

TARGET(forward_list, 2) { forward<int>(s); }
TARGET(forward_list_destructors, 1) { forward<Elem>(s); }

TARGET(list, 2)
{
    typedef estd::experimental::ValueNode<long, Both> N; typedef mov::Alloc<N> A;
    typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<long>> TR;
    typedef estd::internal::list_base<long, N, A, TR> L;
    arena().reset();
    L l; std::vector<int> m; int next = 1; unsigned edits = 0;
    for (unsigned k = 0, n = 1 + s.size(16); k < n; k++)
    {
        const long v = next++; size_t p = s.choose(m.size() + 1); const char* what = "nothing";
        switch (s.choose(6))
        {
            case 5: if (!m.empty()) { what = "front and back"; LOG(what); if (s.flip()) (void)&l.front(); else (void)&l.back(); } break;
            case 0: what = "push_front"; LOG(what << " " << v); l.push_front(v); m.insert(m.begin(), v); break;
            case 1: what = "push_back"; LOG(what << " " << v); l.push_back(v); m.push_back(v); break;
            case 2: what = "push_back moved"; LOG(what << " " << v); l.push_back(long(v)); m.push_back(v); break;
            case 3: what = "emplace_front"; LOG(what << " " << v); l.emplace_front(v); m.insert(m.begin(), v); break;
            default: if (!m.empty()) { what = "insert"; LOG(what << " before " << p << " " << v); auto it = l.begin(); if (p == m.size()) it = l.end(); else it += (int)p; auto r = l.insert(it, v); long got = (long)r.lock(); r.unlock(); CHECK_EQ(got, v, "insert result"); m.insert(m.begin() + p, v); edits++; } break;
        }
        walk(l, m, what);
        if (!m.empty())
        {
            auto it = l.begin(); it += (int)m.size() - 1;
            for (size_t j = m.size(); j-- > 0;) { long got = (long)it.lock(); it.unlock(); CHECK_EQ(got, (long)m[j], "backward"); if (j) --it; settled("backward"); }
        }
    }
    if (m.size() > 4 && edits) s.nontrivial();
}

// ---- a stream buffer over such a string
TARGET(stringbuf, 1)
{
    arena().reset();
    struct Open : S { using S::view_type; using S::length; };
    typedef estd::internal::streambuf<estd::internal::impl::basic_stringbuf<Open>> B;
    B b; std::string m; size_t at = 0; unsigned edits = 0;
    for (unsigned k = 0, n = 1 + s.size(20); k < n; k++)
    {
        const char* what = "";
        switch (s.choose(6))
        {
            case 0: { what = "sputc"; char c = (char)('a' + s.choose(26)); LOG(what << " " << c); CHECK_EQ((int)b.sputc(c), (int)c, what); m += c; edits++; break; }
            case 1: { what = "sputn"; std::string t; for (unsigned i = s.choose(8); i--;) t += (char)('a' + s.choose(26)); LOG(what << " " << t); CHECK_EQ((size_t)b.sputn(t.data(), t.size()), t.size(), what); m += t; edits++; break; }
            case 2: if (at < m.size()) { what = "sgetc"; LOG(what); CHECK_EQ((int)b.sgetc(), (int)m[at], what); } break;
            case 3: if (at < m.size()) { what = "sbumpc"; LOG(what); CHECK_EQ((int)b.sbumpc(), (int)m[at], what); at++; } break;
            case 4: { what = "sgetn"; size_t n = s.choose(6), want = std::min(n, m.size() - at); if (!want) break; LOG(what << " " << want); std::unique_ptr<char[]> q(new char[want]); CHECK_EQ((size_t)b.sgetn(q.get(), want), want, what); CHECK(m.compare(at, want, q.get(), want) == 0, "characters got"); at += want; break; }
            default: what = "in_avail"; LOG(what); CHECK_EQ((long)b.in_avail() > 0, at < m.size(), what); break;
        }
        settled(what);
        CHECK_EQ((size_t)b.str().size(), m.size(), "characters held"); settled("str");
    }
    if (edits > 3 && at > 2) s.nontrivial();
}

// ---- proxies for one element, and iterators
TARGET(accessors, 1)
{
    typedef mov::Alloc<int> A; typedef estd::internal::accessor<A> P;
    arena().reset();
    A a; int h = a.allocate(8); int m[8]; { int* p = &a.lock(h); for (int i = 0; i < 8; i++) p[i] = m[i] = i * 3; a.unlock(h); }
    size_t at[2] = {s.choose(8), s.choose(8)}; P x(a, Where(h, at[0])), y(a, Where(h, at[1])); P* p[2] = {&x, &y}; unsigned edits = 0;
    for (unsigned k = 0, n = 1 + s.size(16); k < n; k++)
    {
        unsigned w = s.choose(2); P& q = *p[w]; const P& c = q; int& is = m[at[w]]; int v = (int)s.choose(24); const char* what = "";
        switch (s.choose(9))
        {
            case 0: what = "= value"; LOG(what << " " << v); q = v; is = v; edits++; break;
            case 1: what = "= another"; LOG(what); q = *p[1 - w]; at[w] = at[1 - w]; edits++; break;
            case 2: what = "copy"; { P z(q); CHECK(z == is, what); z = v; is = v; } edits++; break;
            case 3: what = "value"; LOG(what); CHECK_EQ((int)q, is, what); break;
            case 4: what = "comparisons"; LOG(what << " with " << v); CHECK_EQ(c == v, is == v, "=="); settled("=="); CHECK_EQ(c != v, is != v, "!="); settled("!="); CHECK_EQ(c < v, is < v, "<"); settled("<"); CHECK_EQ(c > v, is > v, ">"); break;
            case 5: what = "lock"; LOG(what); { int& r = q.lock(); CHECK_EQ(r, is, what); r = v; is = v; q.unlock(); } edits++; break;
            case 6: what = "clock"; LOG(what); { const int& r = c.clock(); CHECK_EQ(r, is, what); c.cunlock(); } break;
            case 7: { int d = (int)s.choose(8) - (int)at[w]; what = "moving on"; LOG(what << " by " << d); q.h_exp() += d; at[w] += d; break; }
            default: what = "moving back"; LOG(what); { int d = (int)s.choose(at[w] + 1); q.h_exp() -= d; at[w] -= d; } break;
        }
        settled(what);
        const int* r = &a.clock(h); for (int i = 0; i < 8; i++) CHECK_EQ(r[i], m[i], what << ": element " << i); a.cunlock(h);
    }
    if (edits > 3) s.nontrivial();
}

TARGET(iterators, 1)
{
    arena().reset();
    typedef estd::vector<int, mov::Alloc<int>> V; V v; std::vector<int> m; for (int i = 0, n = 1 + s.choose(9); i < n; i++) { v.push_back(i * 7); m.push_back(i * 7); }
    typedef V::iterator I; size_t at[2] = {0, m.size()}; I x = v.begin(), y = v.end(); I* p[2] = {&x, &y}; unsigned edits = 0;
    for (unsigned k = 0, n = 1 + s.size(20); k < n; k++)
    {
        unsigned w = s.choose(2); I &q = *p[w], &o = *p[1 - w]; size_t &i = at[w], j = at[1 - w]; const char* what = "";
        switch (s.choose(12))
        {
            case 0: if (i < m.size()) { what = "++i"; ++q; i++; edits++; } break;
            case 1: if (i < m.size()) { what = "i++"; { I old = q++; CHECK(old != q, "i++"); if (i < m.size()) { int got = old.lock(); old.unlock(); CHECK_EQ(got, m[i], "*i++"); } } i++; edits++; } break;
            case 2: if (i) { what = "--i"; --q; i--; edits++; } break;
            case 3: if (i) { what = "i--"; { I old = q--; if (i < m.size()) { int got = old.lock(); old.unlock(); CHECK_EQ(got, m[i], "*i--"); } } i--; edits++; } break;
            case 4: { size_t d = s.choose(m.size() - i + 1); what = "+="; q += d; i += d; edits++; break; }
            case 5: { size_t d = s.choose(i + 1); what = "-="; q -= d; i -= d; edits++; break; }
            case 6: { size_t d = s.choose(m.size() - i + 1); what = "i + n"; { I r = q + d; CHECK_EQ((long)(r - q), (long)d, what); } break; }
            case 7: { size_t d = s.choose(i + 1); what = "i - n"; { I r = q - d; CHECK_EQ((long)(q - r), (long)d, what); } break; }
            case 8: what = "comparisons"; CHECK_EQ((bool)(q == o), i == j, "=="); CHECK_EQ((bool)(q != o), i != j, "!="); CHECK_EQ((bool)(q < o), i < j, "<"); CHECK_EQ((bool)(q > o), i > j, ">"); CHECK_EQ((bool)(q >= o), i >= j, ">="); CHECK_EQ((long)(q - o), (long)i - (long)j, "difference"); break;
            case 9: what = "="; q = o; i = j; edits++; break;
            case 10: if (i < m.size()) { what = "*i"; { I t(q); CHECK_EQ((int)*t, m[i], what); } } break;
            default: if (i < m.size()) { what = "lock"; { int& r = q.lock(); CHECK_EQ(r, m[i], what); r = m[i] = (int)s.choose(50); q.unlock(); } edits++; } break;
        }
        LOG(what << " at " << at[w]); settled(what);
    }
    agree(v, m, "iterating");
    if (edits > 3) s.nontrivial();
}

TARGET(vector_int, 2) { vectors<int>(s); }
TARGET(vector_char, 1) { vectors<unsigned char>(s); }
TARGET(vector_pair, 1) { vectors<Pair>(s); }
TARGET(string, 3) { strings(s); }

}
