// Character classification: C functions and locale facets, all characters, all masks.
#include <estd/cctype.h>
#include <estd/locale.h>
#include <estd/algorithm.h>
#include "pbt.h"
#include <cctype>

namespace {
bool up(int c) { return c >= 'A' && c <= 'Z'; }
bool lo(int c) { return c >= 'a' && c <= 'z'; }
bool dg(int c) { return c >= '0' && c <= '9'; }
bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
bool xd(int c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool pu(int c) { return c > 32 && c < 127 && !dg(c) && !up(c) && !lo(c); }

template <class L> void facet(pbt::Source& s, const char* ln)
{
    L l; char c = (char)s.choose(256); unsigned m = (unsigned)s.choose(128);
    LOG("locale " << ln << " char " << pbt::show(c) << " mask " << m);
    typedef estd::ctype_base B;
    auto f = estd::use_facet<estd::ctype<char>>(l);
    int u = (unsigned char)c;
    bool want = ((m & B::space) && sp(u)) || ((m & B::digit) && dg(u)) || ((m & B::alpha) && (up(u) || lo(u))) || ((m & B::punct) && pu(u)) || ((m & B::upper) && up(u)) || ((m & B::lower) && lo(u)) || ((m & B::xdigit) && xd(u));
    CHECK_EQ(f.is((B::mask)m, c), want, "ctype::is");
    CHECK_EQ(f.isspace(c), sp(u), "ctype::isspace"); CHECK_EQ(f.isupper(c), up(u), "ctype::isupper"); CHECK_EQ(f.islower(c), lo(u), "ctype::islower");
    CHECK_EQ(f.widen(c), c, "ctype::widen");
    CHECK_EQ(estd::isspace(c, l), sp(u), "isspace(ch, locale)");
    if (m & (m - 1)) s.nontrivial();
    if (want) s.label("member");
}
TARGET(facet_is, 1)
{
    typedef estd::locale L;
    switch (s.choose(4))
    {
        case 0: return facet<L::classic_type>(s, "classic");
        case 1: return facet<L::type<L::iso::en_US, L::encodings::UTF8>>(s, "en_US.UTF8");
        case 2: return facet<L::type<L::iso::en_US, L::encodings::ASCII>>(s, "en_US.ASCII");
        default: return facet<L::type<L::iso::en_GB, L::encodings::UTF8>>(s, "en_GB.UTF8");
    }
}

template <class F> int digit_back(F& f, int d) { return (int)f.to_char(d); }
template <unsigned base> void cb(pbt::Source& s)
{
    char c = (char)s.choose(256); estd::cbase<char, base, estd::locale::classic_type> f; int u = (unsigned char)c;
    LOG("base " << base << " char " << pbt::show(c));
    int d = dg(u) ? u - '0' : lo(u) ? u - 'a' + 10 : up(u) ? u - 'A' + 10 : 99;
    bool in = d < (int)base;
    CHECK_EQ((bool)f.is_in_base(c), in, "is_in_base");
    auto r = f.from_char(c);
    CHECK_EQ(r.has_value(), in, "from_char has a value iff the character is a digit of the base");
    if (in) { CHECK_EQ((int)*r, d, "from_char value"); CHECK_EQ((int)f.from_char_raw(c), d, "from_char_raw value"); CHECK_EQ((int)digit_back(f, d), (int)(d < 10 ? '0' + d : 'a' + d - 10), "to_char"); s.nontrivial(); }
}
TARGET(cbase, 1)
{
    switch (s.choose(6)) { case 0: return cb<8>(s); case 1: return cb<10>(s); case 2: return cb<16>(s); case 3: return cb<36>(s); case 4: return cb<2>(s); default: return cb<11>(s); }
}
TARGET(c_functions, 1)
{
    int c = s.one_in(8) ? s.integer<int>() : (int)s.range(-2, 300);
    LOG("char code " << c);
    CHECK_EQ(estd::isupper(c) != 0, up(c), "isupper"); CHECK_EQ(estd::islower(c) != 0, lo(c), "islower"); CHECK_EQ(estd::isalpha(c) != 0, up(c) || lo(c), "isalpha");
    CHECK_EQ(estd::isdigit(c) != 0, dg(c), "isdigit"); CHECK_EQ(estd::isspace(c) != 0, sp(c), "isspace");
    if (up(c) || lo(c) || dg(c) || sp(c)) s.nontrivial();
}
}
