// Editing operations of every kind of string against std::string, one history at a time.
#include "strings_common.h"
using namespace strs;

namespace {

// other strings to append / insert / assign / compare from, in different representations
template <class F> void with_other(pbt::Source& s, const std::string& v, F f)
{
    unsigned form = s.choose(4); if (v.find('\0') != std::string::npos) form = 1 + form % 2;    // terminated ones can't hold it
    switch (form)
    {
        case 0: { L1<310, true> o(v); f(*o); break; }
        case 1: { L1<310, false> o(v); f(*o); break; }
        case 2: { std::unique_ptr<char[]> c(new char[v.size() ? v.size() : 1]); memcpy(c.get(), v.data(), v.size());
                  estd::layer3::const_string o(c.get(), v.size()); f(o); break; }
        default: { std::unique_ptr<char[]> c(new char[v.size() + 1]); memcpy(c.get(), v.data(), v.size()); c[v.size()] = 0;
                  estd::layer2::const_string o(c.get()); f(o); break; }
    }
}

// layer3 strings hide assignment from a C string; the shared base has it
template <class Impl> void assign_c(estd::detail::basic_string<Impl>& b, const char* c) { b = c; }

template <class> struct held_in_object : std::false_type {};
template <unsigned N, bool Z> struct held_in_object<L1<N, Z>> : std::true_type {};

template <class Box> void history(pbt::Source& s)
{
    // a string that keeps its length apart from its characters may hold any of them
    bool nul = !Box::terminated && s.flip();
    std::string m = nul ? gen_any(s, Box::cap) : gen(s, Box::cap);
    if (m.size() > Box::cap) m.resize(Box::cap);
    Box x(m);
    auto& e = *x;
    LOG("capacity " << Box::cap << " initial " << pbt::quote(m));
    agree(x, m, "initial");
    unsigned steps = 1 + s.size(14), edits = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        unsigned room = Box::cap - m.size();
        std::string t = nul ? gen_any(s, room < 24 ? room : 24) : gen(s, room < 24 ? room : 24);
            if (Box::cap > 250 && s.one_in(3)) t.assign(s.choose(room + 1), 'L');     // long runs around size type limits
        if (t.size() > room) t.resize(room);
        size_t at = s.choose(m.size() + 1);
        std::string z = t.c_str();      // as terminated text
        auto chr = [&] { return nul && s.one_in(5) ? '\0' : s.pick(ALPHA); };
        switch (s.choose(27))
        {
            case 0: LOG("append(" << pbt::quote(t) << ")"); e.append(z.c_str()); m += z; edits++; break;
            case 1: LOG("append n " << pbt::quote(t)); e.append(t.data(), t.size()); m += t; edits++; break;
            case 2: if (room) { char c = chr(); unsigned n = s.choose(room < 9 ? room + 1 : 9); LOG("append(" << n << "," << c << ")"); e.append((size_t)n, c); m.append(n, c); edits++; } break;
            case 3: if (room) { char c = chr(); LOG("+= char " << c); e += c; m += c; edits++; } break;
            case 4: LOG("+= cstr " << pbt::quote(t)); e += z.c_str(); m += z; edits++; break;
            case 5: if (room) { char c = chr(); LOG("push_back " << c); e.push_back(c); m += c; edits++; } break;
            case 6: if constexpr (Box::fixed) if (!m.empty()) { LOG("pop_back"); e.pop_back(); m.pop_back(); edits++; } break;
            case 7: LOG("append other " << pbt::quote(t)); with_other(s, t, [&](auto& o) { e.append(o); CHECK_EQ(content(o), t, "source of append changed"); }); m += t; edits++; break;
            case 8: { LOG("insert(" << at << "," << pbt::quote(t) << ")"); unsigned how = s.choose(3);
                if (how == 0) e.insert(at, t.c_str(), t.size()); else if (how == 1) { e.insert(at, z.c_str()); t = z; }
                else with_other(s, t, [&](auto& o) { e.insert(at, o); });
                m.insert(at, t); edits++; break; }
            case 9: { size_t n = s.choose(m.size() - at + 1); if (s.one_in(4)) n = std::string::npos; else if (s.one_in(4)) n = m.size() + s.choose(3);
                if (n != std::string::npos && n > Box::cap) n = Box::cap;   // larger counts do not fit the string's size type
                LOG("erase(" << at << "," << n << ")"); typedef typename Box::type T;
                if (n == std::string::npos) e.erase(at); else e.erase(at, n);
                m.erase(at, n); edits++; break; }
            case 10: { size_t n = s.choose(m.size() + 1); LOG("resize " << n); bool ok = e.resize(n); CHECK(ok, "resize to a smaller size failed"); m.resize(n); edits++; break; }
            case 11: LOG("clear"); e.clear(); m.clear(); edits++; break;
            case 12: { std::string v = nul ? gen_any(s, Box::cap < 24 ? Box::cap : 24) : gen(s, Box::cap < 24 ? Box::cap : 24); if (v.size() > Box::cap) v.resize(Box::cap);
                LOG("= " << pbt::quote(v)); bool c = s.flip() && v.find('\0') == std::string::npos; if constexpr (Box::fixed) if (c) assign_c(e, v.c_str()); if (!(Box::fixed && c)) with_other(s, v, [&](auto& o) { e = o; });
                m = v; edits++; break; }
            case 13: if (room) { char c = chr(); LOG("insert(iterator " << at << ", " << c << ")"); auto it = e.begin(); for (size_t i = 0; i < at; i++) ++it;
                const char cc = c; e.insert(it, cc); m.insert(at, 1, c); edits++; } break;
            case 14: if (!m.empty()) { size_t i = s.choose(m.size()); char c = chr(); LOG("[" << i << "] = " << c);
                switch (s.choose(4)) { case 0: e[i] = c; break; case 1: e.at(i) = c; break; case 2: i = 0; e.front() = c; break; default: i = m.size() - 1; e.back() = c; }
                m[i] = c; edits++; } break;
            case 15: if (m.size() <= room) { LOG("append itself"); e.append(e); m += std::string(m); edits++; } break;
            case 16: { // conversions observe the same text
                if constexpr (Box::fixed) { estd::string_view v = e; CHECK_EQ(std::string(v.data(), v.size()), m, "view of string"); }
                if (m.size() <= 40 && m.find('\0') == std::string::npos) { L1<48, true> y(""); *y = e; CHECK_EQ(content(*y), m, "copied to another kind");
                    estd::layer1::string<48> c(e); CHECK_EQ(content(c), m, "constructed from another kind");
                    estd::layer1::string<48> d(m.c_str()), g(m.c_str(), at); CHECK_EQ(content(d), m, "constructed from C string"); CHECK_EQ(content(g), m.substr(0, at), "constructed from prefix"); }
                break; }
            case 17: if (m.size() <= room) { LOG("insert itself at " << at); e.insert(at, e); std::string c = m; m.insert(at, c); edits++; } break;
            case 18: LOG("= itself"); { auto& f = e; e = f; } break;
            case 19: if (!m.empty() && room) { size_t f = s.choose(m.size()), n = s.choose(std::min<size_t>(m.size() - f, room) + 1); LOG("append own " << n << " at " << f); e.append(e.clock() + f, n); m += m.substr(f, n); edits++; } break;
            case 20: if (!m.empty() && room) { size_t f = s.choose(m.size()), n = s.choose(std::min<size_t>(m.size() - f, room) + 1); LOG("insert own " << n << " from " << f << " at " << at); e.insert(at, e.clock() + f, n); m.insert(at, m.substr(f, n)); edits++; } break;
            case 21: if (!m.empty() && room) { size_t f = s.choose(m.size()); LOG("insert own character " << f << " at " << at); auto it = e.begin(); it += (ptrdiff_t)at; const char& own = e.clock()[f]; auto r = e.insert(it, own); m.insert(at, 1, m[f]);
                CHECK_EQ((size_t)(r - e.begin()), at, "insert returns another position"); edits++; } break;
            case 22: { size_t b = s.choose(m.size() + 1); LOG("positions " << at << " and " << b);
                auto x1 = e.begin(), x2 = e.end(); x1 += (ptrdiff_t)at; x2 -= (ptrdiff_t)(m.size() - b);
                CHECK_EQ((long)(x1 - x2), (long)at - (long)b, "distance"); CHECK_EQ(x1 == x2, at == b, "== of positions"); CHECK_EQ(x1 != x2, at != b, "!= of positions");
                CHECK_EQ(x1 < x2, at < b, "< of positions"); CHECK_EQ(x1 > x2, at > b, "> of positions"); CHECK_EQ(x1 >= x2, at >= b, ">= of positions");
                CHECK(e.begin() + (ptrdiff_t)at == x1, "begin + n"); CHECK(e.end() - (ptrdiff_t)(m.size() - at) == x1, "end - n");
                if (at < m.size()) { auto y = x1; auto old = y++; CHECK(old == x1, "it++ gives the old position"); CHECK((char)*old == m[at], "value of it++"); CHECK(y == e.begin() + (ptrdiff_t)(at + 1), "it++ moves on one"); old = y--; CHECK(y == x1, "it-- moves back one"); CHECK(old == x1 + 1, "it-- gives the old position");
                    const auto& cv = e; auto c = cv.begin(); c += (ptrdiff_t)at; char g = *c; CHECK(g == m[at], "through a constant position"); CHECK((long)(e.cend() - e.cbegin()) == (long)m.size(), "cend - cbegin"); CHECK((long)(cv.end() - cv.begin()) == (long)m.size(), "constant distance"); }
                break; }
            case 23: if constexpr (held_in_object<Box>::value) { // a copy is independent and holds the same
                typedef typename Box::type S; Box y(""); unsigned how = (unsigned)s.choose(4); LOG("copy, way " << how);
                switch (how) { case 0: y.p.reset(new S(e)); break; case 1: *y = e; break; case 2: { S d(e); y.p.reset(new S(std::move(d))); break; } default: { S d(e); *y = std::move(d); } }
                agree(y, m, "copy"); CHECK(*y == e, "copy ==");
                std::string n = m; bool swap = s.flip(); auto& changed = swap ? e : *y; if (n.empty()) { changed += 'c'; n += 'c'; } else if (s.flip()) { char c = chr(); changed[at % n.size()] = c; n[at % n.size()] = c; } else { changed.erase(0, 1); n.erase(0, 1); }
                agree(x, swap ? n : m, "original after a change"); agree(y, swap ? m : n, "copy after a change"); if (swap) m = n;
                edits++; } break;
            case 24: { size_t n = s.choose(m.size() + 3); if (Box::fixed && n > Box::cap) n = Box::cap; LOG("reserve " << n); CHECK(e.reserve(n), "reserve"); CHECK((size_t)e.capacity() >= n, "capacity " << (size_t)e.capacity() << " after reserving " << n); break; }
            case 25: LOG("shrink_to_fit"); e.shrink_to_fit(); break;
            default: { // observers
                size_t pos = s.choose(m.size() + 1), cnt = s.choose(m.size() + 3); if (cnt > Box::cap) cnt = Box::cap;   // larger counts may not fit the size type
                size_t want = std::min(cnt, m.size() - pos);
                std::unique_ptr<char[]> d(new char[want ? want : 1]); memset(d.get(), '#', want ? want : 1);
                LOG("copy(" << cnt << "," << pos << ")");
                size_t got = e.copy(d.get(), cnt, pos);
                CHECK_EQ(got, want, "copy count"); CHECK_EQ(std::string(d.get(), want), m.substr(pos, want), "copied text"); break; }
        }
        agree(x, m, "after step");
    }
    if (edits >= 3) s.nontrivial();
    // observers on the final content
    std::string it;
    for (auto i = e.begin(); i != e.end(); ++i) { char c = *i; it += c; }
    CHECK_EQ(it, m, "iteration");
    for (size_t i = 0; i < m.size(); i++) { char a = e[i], b = e.at(i); CHECK_EQ(a, m[i], "operator[]"); CHECK_EQ(b, m[i], "at"); }
    if (!m.empty()) { char f = e.front(), b = e.back(); CHECK_EQ(f, m.front(), "front"); CHECK_EQ(b, m.back(), "back"); }
    // equality
    std::string o = m;
    switch (s.choose(4))
    {
        case 0: break;
        case 1: if (!o.empty()) o[s.choose(o.size())] ^= 1; break;
        case 2: o += 'a'; break;
        default: o = gen(s, 20);
    }
    if (o.size() > 300) o.resize(300);
    LOG("compare with " << pbt::quote(o));
    CHECK_EQ(e.compare(o.c_str()) == 0, m == std::string(o.c_str()), "compare cstr");
    CHECK_EQ(e == o.c_str(), m == std::string(o.c_str()), "== cstr");
    with_other(s, o, [&](auto& p) { CHECK_EQ(e.compare(p) == 0, m == o, "compare"); CHECK_EQ(e == p, m == o, "=="); });
}

TARGET_FN("layer1_32", 3, history<L1<32, true>>);
TARGET_FN("layer1_256", 1, history<L1<256, true>>);
TARGET_FN("layer1_257", 1, history<L1<257, true>>);
TARGET_FN("layer1_sized_255", 1, history<L1<255, false>>);
TARGET_FN("layer1_sized_256", 1, history<L1<256, false>>);
TARGET_FN("layer2_258", 1, history<L2<258>>);
TARGET_FN("layer1_5", 2, history<L1<5, true>>);
TARGET_FN("layer1_sized_12", 2, history<L1<12, false>>);
TARGET_FN("layer2_24", 2, history<L2<24>>);
TARGET_FN("layer3_24", 2, history<L3<24, true>>);
TARGET_FN("layer3_sized_16", 2, history<L3<16, false>>);
#ifndef NOSTD
TARGET_FN("dynamic", 2, history<Dyn<200>>);
#endif

} // namespace
