// Non-owning strings (views and constant strings) and text to integer conversions against std.
#include "strings_common.h"
#if __cplusplus >= 201703L
#include <string_view>
typedef std::string_view StdView;
#else
#include <experimental/string_view>
typedef std::experimental::string_view StdView;
#endif
#include <cerrno>
using namespace strs;

namespace {

template <class V> void same(const V& v, const StdView& m, const char* what)
{
    CHECK_EQ((size_t)v.size(), m.size(), what);
    CHECK_EQ((size_t)v.length(), m.size(), what);
    CHECK_EQ(std::string(v.data(), v.size()), std::string(m), what);
}

TARGET(view_history, 6)
{
    std::string back = gen_any(s, 40);
    std::unique_ptr<char[]> c(new char[back.size() ? back.size() : 1]); memcpy(c.get(), back.data(), back.size());
    estd::string_view v(c.get(), back.size()); StdView m(c.get(), back.size());
    LOG("text " << pbt::quote(back));
    unsigned steps = 1 + s.choose(8), shr = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        size_t n = s.choose(m.size() + 1), q = s.one_in(4) ? m.size() + s.choose(5) : s.choose(m.size() + 1);
        switch (s.choose(7))
        {
            case 0: n /= 2; LOG("remove_prefix " << n); v.remove_prefix(n); m.remove_prefix(n); shr++; break;
            case 1: n /= 2; LOG("remove_suffix " << n); v.remove_suffix(n); m.remove_suffix(n); shr++; break;
            case 2: n /= 3; { LOG("substr " << n << "," << q); auto w = v.substr(n, q); same(w, m.substr(n, q), "substr"); same(v, m, "substr changed the view");
                if (s.flip()) { v = w; m = m.substr(n, q); shr++; } break; }
            case 3: { LOG("substr " << n); auto w = v.substr(n); same(w, m.substr(n), "substr to end"); break; }
            case 4: { LOG("copy"); estd::string_view w(v); same(w, m, "copy"); w.remove_prefix(n); same(v, m, "copy shares state"); CHECK_EQ(w == v, m.substr(n) == m, "view =="); break; }
            case 5: { LOG("iterate"); std::string a; for (char ch : v) a += ch; CHECK_EQ(a, std::string(m), "iteration");
                CHECK((size_t)(v.end() - v.begin()) == m.size(), "end - begin");
                if (!m.empty()) { size_t i = s.choose(m.size()); char x = v[i], y = v.at(i), f = v.front(), b = v.back();
                    CHECK_EQ(x, m[i], "[]"); CHECK_EQ(y, m[i], "at"); CHECK_EQ(f, m.front(), "front"); CHECK_EQ(b, m.back(), "back"); }
                break; }
            default: { std::string o = s.flip() ? std::string(m) : gen(s, 20); if (s.one_in(3) && !o.empty()) o[s.choose(o.size())] ^= 1;
                LOG("compare " << pbt::quote(o));
                estd::string_view w(o.data(), o.size());
                CHECK_EQ(v == w, m == o, "view == view"); CHECK_EQ(v.compare(w) == 0, m == o, "compare view");
                int a = v.compare(w), b = w.compare(v); CHECK((a < 0) == (b > 0) && (a > 0) == (b < 0), "compare not antisymmetric " << a << " " << b);
                CHECK_EQ(v == o.c_str(), m == StdView(o.c_str()), "view == C string");
                if (m.size() == o.size()) CHECK_EQ((a > 0) - (a < 0), m.compare(o) < 0 ? -1 : m.compare(o) > 0, "order of texts of one length");
                CHECK_EQ(estd::hash<estd::string_view>{}(v) == estd::hash<estd::string_view>{}(estd::string_view(std::string(m).data(), m.size())), true, "equal views hash equal"); break; }
        }
        same(v, m, "after step");
    }
    if (shr >= 2 && back.size() > 3) s.nontrivial();
}

// the characters' traits: estd's own where std has none
TARGET(traits, 2)
{
    typedef estd::char_traits<char> E; typedef std::char_traits<char> S;
    std::string a = gen_any(s, 20), b = s.flip() ? a : gen_any(s, 20); if (s.one_in(3)) b = b.substr(0, s.choose(b.size() + 1)) + a;
    if (s.one_in(3) && !b.empty()) b[s.choose(b.size())] ^= (char)(1 << s.choose(8));
    std::unique_ptr<char[]> pa(new char[a.size() + 1]), pb(new char[b.size() + 1]); memcpy(pa.get(), a.c_str(), a.size() + 1); memcpy(pb.get(), b.c_str(), b.size() + 1);
    LOG(pbt::quote(a) << " and " << pbt::quote(b)); if (a.size() > 1 && b.size() > 1) s.nontrivial();
    size_t n = s.choose(std::min(a.size(), b.size()) + 1); int x = E::compare(pa.get(), pb.get(), n), y = S::compare(a.data(), b.data(), n);
    CHECK_EQ((x > 0) - (x < 0), (y > 0) - (y < 0), "compare " << n);
    CHECK_EQ((size_t)E::length(pa.get()), S::length(a.c_str()), "length");
    char c = s.flip() && !a.empty() ? a[s.choose(a.size())] : (char)s.choose(256); const char* f = E::find(pa.get(), a.size(), c); size_t at = a.find(c);
    CHECK_EQ(f ? (long)(f - pa.get()) : -1L, at == a.npos ? -1L : (long)at, "find " << (int)(unsigned char)c);
    CHECK_EQ((long)E::to_int_type(c), (long)S::to_int_type(c), "to_int_type"); CHECK(E::to_char_type(E::to_int_type(c)) == c, "there and back"); CHECK(E::to_int_type(c) != E::eof(), "a character taken for the end");
    CHECK_EQ((long)E::not_eof(E::to_int_type(c)), (long)S::to_int_type(c), "not_eof of a character"); CHECK(E::not_eof(E::eof()) != E::eof(), "not_eof of the end");
    char d = s.flip() ? c : (char)s.choose(256); CHECK_EQ(E::eq(c, d), c == d, "eq");
}

TARGET(const_strings, 3)
{
    std::string t = gen(s, 60); if (s.one_in(10)) t.append(200 + s.choose(500), 'q');
    LOG("text " << pbt::quote(t));
    if (t.size() > 1) s.nontrivial();
    std::unique_ptr<char[]> c(new char[t.size() ? t.size() : 1]); memcpy(c.get(), t.data(), t.size());
    std::unique_ptr<char[]> z(new char[t.size() + 1]); memcpy(z.get(), t.c_str(), t.size() + 1);
    estd::layer3::const_string a(c.get(), (uint16_t)t.size());
    same(a, t, "layer3 const_string"); CHECK_EQ((bool)a.empty(), t.empty(), "layer3 const_string empty");
    estd::layer2::const_string b(z.get());
    same(b, t, "layer2 const_string"); CHECK_EQ((bool)b.empty(), t.empty(), "layer2 const_string empty");
    CHECK_EQ(a == b, true, "representations compare equal"); CHECK_EQ(b == a, true, "representations compare equal");
    if (s.one_in(3)) { std::string q = gen_any(s, 20); std::unique_ptr<char[]> qc(new char[q.size() ? q.size() : 1]); memcpy(qc.get(), q.data(), q.size()); estd::layer3::const_string qa(qc.get(), (uint16_t)q.size()); same(qa, q, "layer3 const_string of any characters"); estd::string_view qv = qa; same(qv, q, "view of any characters"); }
    estd::string_view v = b, w = a, x(z.get());
    same(v, t, "view of layer2"); same(w, t, "view of layer3"); same(x, t, "view of C string");
    estd::string_view e; CHECK_EQ((size_t)e.size(), (size_t)0, "default view");
    std::string it; for (auto i = a.begin(); i != a.end(); ++i) { char ch = *i; it += ch; }
    CHECK_EQ(it, t, "const_string iteration");
    size_t pos = s.choose(t.size() + 1), n = s.choose(t.size() + 3);
    std::string d(t.size() + 1, '#'); size_t got = b.copy(&d[0], n, pos); size_t want = std::min(n, t.size() - pos);
    CHECK_EQ(got, want, "copy count"); CHECK_EQ(d.substr(0, got), t.substr(pos, got), "copy text");
}

// text to integer conversions through strings of every terminated kind
template <class S> void conv(pbt::Source& s, const S& e, const std::string& t, int base)
{
    char* end; size_t pos = 12345;
    bool want_pos = s.flip();
    switch (s.choose(3))
    {
        case 0: { errno = 0; long w = strtol(t.c_str(), &end, base); LOG("stol base " << base); CHECK_EQ(estd::stol(e, want_pos ? &pos : nullptr, base), w, "stol"); break; }
        case 1: { unsigned long w = strtoul(t.c_str(), &end, base); LOG("stoul base " << base); CHECK_EQ(estd::stoul(e, want_pos ? &pos : nullptr, base), w, "stoul"); break; }
        default: { long w = strtol(t.c_str(), &end, base); if (w > INT32_MAX || w < INT32_MIN) return; LOG("stoi base " << base); CHECK_EQ(estd::stoi(e, want_pos ? &pos : nullptr, base), (int)w, "stoi"); break; }
    }
    if (want_pos) CHECK_EQ(pos, (size_t)(end - t.c_str()), "characters consumed");
    if (end - t.c_str() > 1) s.nontrivial();
}

TARGET(string_to_integer, 3)
{
    int base = s.one_in(3) ? (s.flip() ? 0 : 2 + (int)s.choose(35)) : 10;
    std::string t;
    if (s.one_in(5)) t += s.pick(" \t");
    if (s.one_in(3)) t += s.pick("-+");
    if (s.one_in(6)) t += "0x";
    if (s.one_in(3)) t += std::to_string(s.integer<long>());
    else { unsigned n = s.size(12); while (n--) t += s.pick("0123456789abcdefz"); }
    if (s.one_in(3)) t += s.pick(" .x,g");
    LOG("text " << pbt::quote(t));
    switch (s.choose(3))
    {
        case 0: { L1<64, true> x(t); conv(s, *x, t, base); break; }
        case 1: { L2<64> x(t); const auto& e = *x; conv(s, e, t, base); break; }
        default: { L3<64, true> x(t); conv(s, *x, t, base); break; }
    }
}

} // namespace
