PRE = "#include <cstdio>\n#include <cstring>\n#include <cstdint>\n"
seed("parse-sub-overflow", "C01", [("internal/raise_and_add.h", "|| __builtin_sub_overflow(__val, sub, &__val))\n        return false;", "|| (__builtin_sub_overflow(__val, sub, &__val) && __val < estd::numeric_limits<T>::max()))\n        return false;")], PRE + r'''
#include <estd/charconv.h>
int main()
{
    const char* t = "-129"; int8_t v = 7;
    auto r = estd::from_chars(t, t + 4, v, 10);
    return v == 7 && !(r.ec == 0) ? 0 : 1;
}
''', "a negative numeral exactly one below the lowest value", "the numeral one below the lowest value is accepted and stored as the highest value")

seed("parse-short-letters", "C01", [("internal/locale/cbase.h", "        c &= ~0x20;     // Turns lowercase to upper\n", "        c &= 0x5f;     // Turns lowercase to upper\n")], PRE + r'''
#include <estd/charconv.h>
int main()
{
    const char t[] = { '1', (char)('A' | 0x80), 0 }; int v = 7;
    auto r = estd::from_chars(t, t + 2, v, 16);
    return v == 1 && r.ptr == t + 1 ? 0 : 1;
}
''', "characters above 127 whose low seven bits are a letter digit", "characters outside ASCII are read as letter digits")

seed("format-upper-base11", "C02", [("charconv.h", "    if(base > 10)\n        return internal::to_chars<36>(first, last, value, base, upper);", "    if(base > 11)\n        return internal::to_chars<36>(first, last, value, base, upper);")], PRE + r'''
#include <estd/charconv.h>
int main()
{
    char b[8]; auto r = estd::to_chars_opt(b, b + 8, 21, 11, true);
    return b + 8 - r.ptr == 2 && !memcmp(r.ptr, "1A", 2) ? 0 : 1;
}
''', "base eleven with a letter case asked for", "digit ten in base eleven comes out as a colon")

seed("format-lowest-digit", "C02", [("internal/charconv/reverse.hpp", "        value /= base;\n", "        value = negative && base == 8 * sizeof(TInt) ? -(-value / base) : value / base;\n")], PRE + r'''
#include <estd/charconv.h>
int main()
{
    char b[40]; auto r = estd::to_chars_exp(b, b + 40, INT32_MIN, 32); *r.ptr = 0;
    return strcmp(b, "-2000000") ? 1 : 0;
}
''', "the lowest value of a type in a base equal to its width", "the lowest value is negated, which overflows and flips digits")

seed("numget-negative-fraction", "C03", [("internal/locale/iterated/num_get.h", "                state_.decimal_place_ = 1;\n                return false;", "                state_.decimal_place_ = 1;\n                if(v == 0) state_.state_ = NominalPositive;\n                return false;")], PRE + r'''
#include <estd/istream.h>
#include <estd/internal/locale/num_get.h>
int main()
{
    const char t[] = "-.5"; double v = 0; estd::ios_base::iostate e = estd::ios_base::goodbit;
    estd::num_get<char, const char*, estd::internal::classic_locale_type> n;
    n.get((const char*)t, t + 3, estd::ios_base::dec, e, v);
    return v == -0.5 ? 0 : 1;
}
''', "a negative fraction with no or a zero integer part", "negative fractions above minus one lose their sign")

seed("ostream-width-sticks", "C04", [("internal/ostream/integer.h", "    const streamsize pad = out.width();\n    out.width(0);", "    const streamsize pad = out.width();\n    if(pad != static_cast<streamsize>(sz))  out.width(0);")], PRE + r'''
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <estd/iomanip.h>
int main()
{
    estd::layer1::ostringstream<32> o;
    o << estd::setw(2) << 12 << 3;
    return !memcmp(o.rdbuf()->str().data(), "123", 3) ? 0 : 1;
}
''', "a width exactly equal to the number of digits, then another number", "a width that asks for no padding is kept for the next number")

seed("ostream-flush-result", "C04", [("internal/ostream.h", "        if (written != n)\n            base_type::setstate(ios_base::failbit);", "        if (written < n - 1 || written == 0 && n != 0)\n            base_type::setstate(ios_base::failbit);")], PRE + r'''
#include <estd/ostream.h>
#include <estd/sstream.h>
int main()
{
    char b[4]; estd::span<char> s(b, 4);
    typedef estd::internal::streambuf<estd::internal::impl::out_span_streambuf<char>> sb;
    estd::detail::basic_ostream<sb> o(s);
    o.write("abcde", 5);
    return o.good() ? 1 : 0;
}
''', "a block that is exactly one character too long for the sink", "losing exactly one character is not reported")

seed("ostream-numput-left", "C04", [("internal/locale/num_put.h", "                out = copy(result.ptr, buffer + N, out);\n                return fill_n(out, width, fill);", "                const char_type pad = value < 10 && fill == '0' ? char_type(' ') : fill;\n                out = copy(result.ptr, buffer + N, out);\n                return fill_n(out, width, pad);")], PRE + r'''
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <estd/internal/locale/num_put.h>
struct B : estd::ios_base { };
int main()
{
    char b[8] = {}; estd::layer1::ostringstream<4> o; o.setf(estd::ios_base::left, estd::ios_base::adjustfield); o.width(3);
    typedef estd::num_put<char, char*> N;
    char* e = N::put(b, o, '0', 5);
    return e == b + 3 && !memcmp(b, "500", 3) ? 0 : 1;
}
''', "left adjustment with a zero fill and a one digit value", "zero fill after a one digit value turns into blanks")

seed("cbase-upper-digits", "C05", [("internal/locale/cbase.h", "            return c - 'A' + 10;\n        else\n            return c - 'a' + 10;", "            return c - 'A' + 10;\n        else\n            return (c & 0x0f) + 9;")], PRE + r'''
#include <estd/internal/locale/cbase.h>
#include <estd/locale.h>
int main()
{
    typedef estd::cbase<char, 36, estd::internal::classic_locale_type> C;
    return C::from_char_raw('z') == 35 && C::from_char_raw('f') == 15 ? 0 : 1;
}
''', "lower case letter digits from p on", "the raw digit value of letters from p on is wrong")

seed("numget-bool-prefix", "C03", [("internal/chooser.h", "            const unsigned sz = get_size(container);\n", "            const unsigned sz = get_size(container) - (chosen_ && i > 2 ? 1 : 0);\n")], PRE + """
#include <estd/istream.h>
#include <estd/internal/locale/num_get.h>
#include <estd/internal/chooser.h>
int main()
{
    const char* names[] = { "vrai", "falsy" }; const char t[] = "falsy";
    const char* p = t; int c = estd::internal::chooser::choose(names, p, t + 5);
    return p == t + 5 && c == 1 ? 0 : 1;
}
""", "a second name of five or more characters", "the last letter of a long second name is left unread")

seed("ctype-graph", "C05", [("internal/locale/ctype.h", "            if(isspace(ch)) return true;", "            return isspace(ch);")], PRE + """
#include <estd/internal/locale/ctype.h>
#include <estd/locale.h>
int main()
{
    typedef estd::ctype<char, estd::internal::classic_locale_type> C;
    return C::is(C::space | C::digit, '4') ? 0 : 1;
}
""", "a mask that combines space with another category", "a mask holding space ignores every other category in it")
