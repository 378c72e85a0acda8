// Strings and views of characters wider than a byte against the standard ones.
#include <estd/string.h>
#include <estd/string_view.h>
#include "pbt.h"
#include <memory>
#include <string>

namespace {

template <class C> C any_char(pbt::Source& s)
{
    // values which agree in some of their bytes only
    switch (s.choose(6)) { case 0: return (C)0x61; case 1: return (C)0x6100; case 2: return (C)0x6161; case 3: return (C)0x162; case 4: return (C)0xff61; default: return (C)(1 + s.choose(0xfffe)); }
}
template <class C> std::basic_string<C> gen(pbt::Source& s, size_t max) { std::basic_string<C> r; for (size_t n = s.size((unsigned)max); n--;) r += any_char<C>(s); return r; }
template <class C> std::string show(const std::basic_string<C>& t) { std::string r = "<"; char b[16]; for (C c : t) { snprintf(b, sizeof b, "%x ", (unsigned)c); r += b; } return r + ">"; }
template <class S, class C> void same(S& x, const std::basic_string<C>& m, const char* what)
{
    CHECK_EQ((size_t)x.size(), m.size(), what << ": size"); CHECK_EQ(x.empty(), m.empty(), what << ": empty");
    std::basic_string<C> got(x.clock(), m.size()); x.cunlock(); CHECK(got == m, what << ": holds " << show(got) << " expected " << show(m));
}
size_t np(size_t x, size_t npos) { return x == npos ? (size_t)-1 : x; }

template <class C, unsigned N, bool Z> void edits(pbt::Source& s)
{
    typedef std::basic_string<C> M; typedef estd::layer1::basic_string<C, N, Z> S; const size_t cap = N - (Z ? 1 : 0);
    std::unique_ptr<S> p(new S); S& x = *p; M m; unsigned changes = 0;
    for (unsigned k = 0, n = 1 + s.size(12); k < n; k++)
    {
        size_t room = cap - m.size(), at = s.choose(m.size() + 1); M t = gen<C>(s, std::min<size_t>(room, 12));
        switch (s.choose(12))
        {
            case 0: LOG("append " << show(t)); x.append(t.data(), t.size()); m += t; changes++; break;
            case 1: if (room) { C c = any_char<C>(s); LOG("+= " << (unsigned)c); if (s.flip()) x += c; else x.push_back(c); m += c; changes++; } break;
            case 2: LOG("insert at " << at << " " << show(t)); x.insert(at, t.data(), t.size()); m.insert(at, t); changes++; break;
            case 3: { size_t c = s.choose(m.size() - at + 1); LOG("erase " << c << " at " << at); x.erase(at, c); m.erase(at, c); changes++; break; }
            case 4: { std::unique_ptr<S> q(new S); q->append(t.data(), t.size()); LOG("append a string " << show(t)); x.append(*q); m += t; changes++; break; }
            case 5: { M v = gen<C>(s, std::min<size_t>(cap, 12)); std::unique_ptr<S> q(new S); q->append(v.data(), v.size()); LOG("= " << show(v)); x = *q; m = v; changes++; break; }
            case 6: if (!m.empty()) { size_t i = s.choose(m.size()); C c = any_char<C>(s); LOG("[" << i << "] = " << (unsigned)c); x[i] = c; m[i] = c; } break;
            case 7: { size_t c = s.choose(m.size() + 1); LOG("resize " << c); x.resize(c); m.resize(c); break; }
            case 8: if (s.one_in(3)) { LOG("clear"); x.clear(); m.clear(); } break;
            case 9: if (room) { C c = any_char<C>(s); size_t r = s.choose(std::min<size_t>(room, 5) + 1); LOG("append " << r << " of " << (unsigned)c); x.append(r, c); m.append(r, c); changes++; } break;
            case 10: { size_t c = s.choose(m.size() + 2), pos = at; std::unique_ptr<C[]> d(new C[m.size() + 1]()); LOG("copy " << c << " from " << pos); size_t g = x.copy(d.get(), c, pos); size_t w = std::min(c, m.size() - pos); CHECK_EQ(g, w, "copy count"); CHECK(M(d.get(), g) == m.substr(pos, w), "copied"); break; }
            default: if (!m.empty()) { LOG("pop_back"); x.pop_back(); m.pop_back(); }
        }
        same(x, m, "after step");
        // equality notices any difference
        M o = m; bool differs = false; if (!o.empty() && s.flip()) { size_t i = s.flip() ? o.size() - 1 : s.choose(o.size()); C c = any_char<C>(s); differs = o[i] != c; o[i] = c; }
        std::unique_ptr<S> q(new S); q->append(o.data(), o.size()); CHECK_EQ(x == *q, !differs, "=="); CHECK_EQ(x.compare(*q) == 0, !differs, "compare");
    }
    if (changes >= 3) s.nontrivial();
}

template <class C> void searches(pbt::Source& s)
{
    typedef std::basic_string<C> M; typedef estd::layer1::basic_string<C, 41, false> S;
    // few kinds of characters, so that much nearly matches
    auto text = [&](unsigned max) { M r; for (unsigned n = s.size(max); n--;) r += (C)s.pick({0x61, 0x6100, 0x6161, 0x62}); return r; };
    M m = text(40), t = s.one_in(3) && !m.empty() ? m.substr(s.choose(m.size()), s.choose(6)) : text(4); size_t pos = s.choose(m.size() + 2); if (s.one_in(4)) pos = M::npos;
    std::unique_ptr<S> p(new S); p->append(m.data(), m.size()); S& x = *p; std::unique_ptr<C[]> nd(new C[t.size() + 1]); std::copy(t.begin(), t.end(), nd.get()); nd[t.size()] = 0;
    std::unique_ptr<C[]> exact(new C[t.size() ? t.size() : 1]); std::copy(t.begin(), t.end(), exact.get());
    typedef estd::basic_string_view<C> V; V v(m.data(), m.size()), w(exact.get(), t.size());
    LOG("in " << show(m) << " of " << show(t) << " from " << (long)pos);
    const size_t npos = (size_t)S::npos, vn = (size_t)V::npos; size_t sp = pos == M::npos || pos > 200 ? 200 : pos;
    switch (s.choose(8))
    {
        case 0: CHECK_EQ(np(x.find(exact.get(), sp, t.size()), npos), m.find(t, sp), "find"); break;
        case 1: CHECK_EQ(np(x.rfind(exact.get(), sp, t.size()), npos), m.rfind(t, sp), "rfind"); break;
        case 2: CHECK_EQ(np(x.find_first_of(exact.get(), sp, t.size()), npos), m.find_first_of(t, sp), "find_first_of"); break;
        case 3: CHECK_EQ(np(x.find_last_of(exact.get(), sp, t.size()), npos), m.find_last_of(t, sp), "find_last_of"); break;
        case 4: { C c = (C)s.pick({0x61, 0x6100, 0x6161, 0x62}); CHECK_EQ(np(x.find(c, sp), npos), m.find(c, sp), "find a character"); break; }
        case 5: CHECK_EQ(x.starts_with(w), m.compare(0, t.size(), t) == 0 && t.size() <= m.size(), "starts_with"); CHECK_EQ(v.starts_with(w), m.compare(0, t.size(), t) == 0 && t.size() <= m.size(), "starts_with"); break;
        case 6: CHECK_EQ(v == w, m == t, "view =="); CHECK_EQ(np(v.find(w, sp), vn), m.find(t, sp), "find in a view"); break;
        default: CHECK_EQ(np(x.find(nd.get(), sp), npos), m.find(t.c_str(), sp), "find terminated"); break;
    }
    if (m.size() > 4 && !t.empty()) s.nontrivial();
}

}
TARGET_FN("edit_u16", 2, (edits<char16_t, 24, false>));
TARGET_FN("edit_u32", 1, (edits<char32_t, 20, false>));
TARGET_FN("edit_wide", 1, (edits<wchar_t, 24, false>));
TARGET_FN("edit_u16_long", 1, (edits<char16_t, 300, false>));
TARGET_FN("search_u16", 2, searches<char16_t>);
TARGET_FN("search_wide", 1, searches<wchar_t>);
