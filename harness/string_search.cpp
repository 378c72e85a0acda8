// Searching and prefix/suffix tests on every kind of string against std::string.
#include "strings_common.h"
using namespace strs;

namespace {

template <class S> std::string::size_type as_pos(const S&, typename S::size_type r) { return r == S::npos ? std::string::npos : (std::string::size_type)r; }

template <class E, class V> void kinds(pbt::Source& s, const E& e, const std::string& m, const std::string& n, const V& v, size_t pos, bool dpos)
{
    typedef typename E::size_type Z; Z zp = (Z)pos;
    size_t p0 = dpos ? 0 : pos, pl = dpos ? std::string::npos : pos;
    switch (s.choose(6))
    {
        case 0: LOG("find"); CHECK_EQ(as_pos(e, dpos ? e.find(v) : e.find(v, zp)), m.find(n, p0), "find string"); break;
        case 1: LOG("rfind"); CHECK_EQ(as_pos(e, dpos ? e.rfind(v) : e.rfind(v, zp)), m.rfind(n, pl), "rfind string"); break;
        case 2: LOG("find_first_of"); CHECK_EQ(as_pos(e, dpos ? e.find_first_of(v) : e.find_first_of(v, zp)), m.find_first_of(n, p0), "find_first_of"); break;
        case 3: LOG("find_last_of"); CHECK_EQ(as_pos(e, dpos ? e.find_last_of(v) : e.find_last_of(v, zp)), m.find_last_of(n, pl), "find_last_of"); break;
        case 4: LOG("starts_with"); CHECK_EQ((bool)e.starts_with(v), m.compare(0, n.size(), n) == 0 && m.size() >= n.size(), "starts_with"); break;
        default: LOG("ends_with"); CHECK_EQ((bool)e.ends_with(v), m.size() >= n.size() && m.compare(m.size() - n.size(), n.size(), n) == 0, "ends_with"); break;
    }
}

template <class E> void searches(pbt::Source& s, const E& e, const std::string& m, bool nul = false)
{
    // needle: often part of the haystack, possibly with one change, often repetitive
    std::string n;
    switch (s.choose(4))
    {
        case 0: case 1: { size_t a = s.choose(m.size() + 1), l = s.choose(m.size() - a + 1); n = m.substr(a, l); if (s.one_in(3) && !n.empty()) n[s.choose(n.size())] = 'b'; break; }
        case 2: n = nul ? gen_any(s, 4) : gen(s, 4); break;
        default: n = nul ? gen_any(s, 20) : gen(s, 20); if (s.flip()) n += m; break;
    }
    if (n.size() > 180) n.resize(180);
    bool dpos = s.one_in(3);
    size_t pos = s.choose(m.size() + 4);
    // positions are given in the string's own size type
    if (pos > (size_t)(typename E::size_type)-2) pos = m.size();
    LOG("haystack " << pbt::quote(m) << " needle " << pbt::quote(n) << " pos " << (dpos ? std::string("default") : std::to_string(pos)));
    if (n.size() > 0 && m.find(n) != std::string::npos) s.nontrivial();
    typedef typename E::size_type Z; Z zp = (Z)pos;
    size_t p0 = pos, pl = pos;
    unsigned form = s.choose(5);
    // terminated needles end at their first NUL, so they can't stand for a text that holds one
    if (form < 2 && n.find('\0') != std::string::npos) form = 2;
    switch (form)
    {
        case 0: LOG("as C string"); kinds(s, e, m, n, n.c_str(), pos, dpos); break;
        case 1: { LOG("as string"); L1<200, true> o(n); kinds(s, e, m, n, *o, pos, dpos); break; }
        case 2: { LOG("as view"); std::unique_ptr<char[]> c(new char[n.size() + 1]); memcpy(c.get(), n.data(), n.size()); c[n.size()] = 'a';
            estd::string_view o(c.get(), n.size()); kinds(s, e, m, n, o, pos, dpos); break; }
        case 3: { // counted
            size_t k = s.choose(n.size() + 1);
            std::unique_ptr<char[]> c(new char[k ? k : 1]); memcpy(c.get(), n.data(), k); std::string sub = n.substr(0, k);
            LOG("counted " << pbt::quote(sub));
            switch (s.choose(4))
            {
                case 0: CHECK_EQ(as_pos(e, e.find(c.get(), zp, (Z)k)), m.find(sub, p0), "find counted"); break;
                case 1: CHECK_EQ(as_pos(e, e.rfind(c.get(), zp, (Z)k)), m.rfind(sub, pl), "rfind counted"); break;
                case 2: CHECK_EQ(as_pos(e, e.find_first_of(c.get(), zp, (Z)k)), m.find_first_of(sub, p0), "find_first_of counted"); break;
                default: CHECK_EQ(as_pos(e, e.find_last_of(c.get(), zp, (Z)k)), m.find_last_of(sub, pl), "find_last_of counted"); break;
            }
            break; }
        default: { char ch = m.empty() || s.one_in(3) ? (nul && s.one_in(4) ? 0 : s.pick(ALPHA)) : m[s.choose(m.size())];
            LOG("character " << ch);
            switch (s.choose(3))
            {
                case 0: CHECK_EQ(as_pos(e, dpos ? e.find(ch) : e.find(ch, zp)), m.find(ch, dpos ? 0 : p0), "find character"); break;
                case 1: CHECK_EQ((bool)e.starts_with(ch), !m.empty() && m.front() == ch, "starts_with character"); break;
                default: CHECK_EQ((bool)e.ends_with(ch), !m.empty() && m.back() == ch, "ends_with character"); break;
            } }
    }
}

template <class Box> void in_box(pbt::Source& s)
{
    bool nul = !Box::terminated && s.flip();
    std::string m = nul ? gen_any(s, Box::cap < 60 ? Box::cap : 60) : gen(s, Box::cap < 60 ? Box::cap : 60); if (m.size() > Box::cap) m.resize(Box::cap);
    if (Box::cap > 200 && s.one_in(4)) m.append(s.choose(Box::cap - m.size() + 1), 'a');
    Box x(m);
    for (unsigned k = 1 + s.choose(4); k--; ) { searches(s, *x, m, nul); }
    agree(x, m, "search changed the string");
}

void in_view(pbt::Source& s)
{
    std::string m = gen_any(s, 40);
    std::unique_ptr<char[]> c(new char[m.size() ? m.size() : 1]); memcpy(c.get(), m.data(), m.size());
    const estd::string_view v(c.get(), m.size());
    for (unsigned k = 1 + s.choose(4); k--; ) searches(s, v, m, true);
}

TARGET_FN("layer1", 3, in_box<L1<32, true>>);
TARGET_FN("layer1_sized", 2, in_box<L1<24, false>>);
TARGET_FN("layer1_large", 1, in_box<L1<300, true>>);
TARGET_FN("layer2", 2, in_box<L2<30>>);
TARGET_FN("layer3", 1, in_box<L3<30, true>>);
TARGET_FN("layer3_sized", 1, in_box<L3<30, false>>);
#ifndef NOSTD
TARGET_FN("dynamic", 1, in_box<Dyn<100>>);
#endif
TARGET_FN("view", 3, in_view);

} // namespace
