// C24: input streams: what each operation extracts, counts, stores and reports
#include <estd/istream.h>
#include <estd/sstream.h>
#include <estd/string.h>
#include <estd/iomanip.h>
#include "pbt.h"
#include <cstring>
#include <limits>
#include <string>
#include <memory>

namespace {

enum { FAIL = 2, EOFB = 4, BAD = 1 };
bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int digit_of(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }

std::string content(pbt::Source& s, bool nul)
{
    std::string d; unsigned n = s.size(30);
    while (d.size() < n)
        switch (s.choose(nul ? 8 : 7))
        {
            case 0: d += s.pick({' ', '\n', '\t', '\v', '\f', '\r', ' '}); break;
            case 1: { unsigned k = s.size(6); if (s.one_in(3)) d += s.pick("-+"); while (k--) d += (char)('0' + s.choose(10)); break; }
            case 2: d += s.pick({"32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "-2147483648", "-2147483649", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "7f", "ff", "-80"}); break;
            case 3: { unsigned k = s.size(6); while (k--) d += (char)('a' + s.choose(26)); break; }
            case 4: d += '\n'; break;
            case 5: d += s.flip() ? (char)0xff : (char)(1 + s.choose(255)); break;
            case 6: d += s.pick(",;x-./:@G`g\x1f\x7f"); break;
            default: d += '\0'; break;
        }
    return d;
}

struct Model { std::string d; size_t pos = 0; unsigned st = 0; long g = 0; unsigned base = 10; };

template <class T, class Str> void num(pbt::Source& s, Str& in, Model& m, const char* tn, bool& hit)
{
    LOG(">> " << tn);
    size_t p = m.pos;
    while (p < m.d.size() && space(m.d[p])) p++;
    if (p > m.pos) m.g = 1;             // the white space skipper works through ignore()
    T v = s.integer<T>(); long gbefore = 0; (void)gbefore;
    __int128 x = 0; bool over = false, neg = false; unsigned nd = 0;
    if (std::is_signed<T>::value && p < m.d.size() && m.d[p] == '-') { neg = true; p++; }
    for (; p < m.d.size() && digit_of(m.d[p]) < (int)m.base; p++)
    {
        nd++; if (over) continue;
        x = x * m.base + (neg ? -digit_of(m.d[p]) : digit_of(m.d[p]));
        if (x > (__int128)std::numeric_limits<T>::max()) { x = std::numeric_limits<T>::max(); over = true; }
        if (x < (__int128)std::numeric_limits<T>::min()) { x = std::numeric_limits<T>::min(); over = true; }
    }
    unsigned st = 0;
    if (p == m.d.size()) st |= EOFB;
    if (!nd || over) st |= FAIL;
    in >> v;
    CHECK_EQ((unsigned)in.rdstate(), st, "state after extracting a number");
    CHECK(v == (T)x, "extracted number " << pbt::show(v) << " expected " << pbt::show((T)x));
    m.pos = p; m.st = st; if (nd) hit = true;
}

template <unsigned Cap, bool Term, class Str> void word(pbt::Source& s, Str& in, Model& m)
{
    LOG(">> string of " << Cap);
    if (Term)
    {   // a terminated string measures itself up to a NUL, so it cannot hold one
        size_t q = m.pos; while (q < m.d.size() && space(m.d[q])) q++;
        for (; q < m.d.size() && !space(m.d[q]); q++) if (!m.d[q]) { LOG("(skipped, NUL ahead)"); return; }
    }
    struct Box { estd::layer1::string<Cap, Term> v; char guard[16]; };
    std::unique_ptr<Box> b(new Box); memset(b->guard, 0x5a, 16);
    if (s.flip()) b->v = "x";
    size_t room = Term ? Cap - 1 : Cap;
    size_t p = m.pos; std::string w; unsigned st = 0;
    while (p < m.d.size() && space(m.d[p])) p++;
    for (;;)
    {
        if (p == m.d.size()) { st = EOFB | (w.empty() ? FAIL : 0); break; }
        if (space(m.d[p]) || w.size() == room) break;
        w += m.d[p++];
    }
    if (w.size() == room) s.label("string filled");
    in >> b->v;
    CHECK_EQ((unsigned)in.rdstate(), st, "state after extracting a word");
    for (char c : b->guard) CHECK(c == 0x5a, "wrote past the string");
    CHECK_EQ((size_t)b->v.size(), w.size(), "extracted word length");
    CHECK(!memcmp(b->v.data(), w.data(), w.size()), "extracted word");
    m.pos = p; m.st = st;
}

template <class Str, class Pos>
void ops(pbt::Source& s, Str& in, Model& m, Pos where)
{
    typedef typename Str::traits_type T;
    unsigned steps = 1 + s.size(14), counted = 0, moves = 0;
    CHECK_EQ((long)in.gcount(), 0l, "gcount of a new stream"); CHECK(in.good(), "a new stream is good");
    for (unsigned i = 0; i < steps; i++)
    {
        const size_t n = m.d.size();
        if (m.st)
        {   // bring it back to good one way or the other
            CHECK(in.peek() == T::eof(), "peek on a stream that is not good"); m.g = 0;
            CHECK_EQ((bool)in, !(m.st & (FAIL | BAD)), "operator bool"); CHECK_EQ(in.eof(), !!(m.st & EOFB), "eof()"); CHECK_EQ(in.good(), false, "good()"); CHECK_EQ(in.bad(), !!(m.st & BAD), "bad()");
            if (!(m.st & BAD) && s.flip())
            {
                size_t to = s.choose(n + 1); LOG("seekg " << to);
                in.seekg((long)to, estd::ios_base::beg); m.pos = to; m.st = 0; moves++;
                CHECK_EQ((unsigned)in.rdstate(), 0u, "state after seekg");
            }
            else { LOG("clear"); in.clear(); m.st = 0; }
        }
        bool gc = true;
        switch (s.choose(18))
        {
            case 17: LOG("sync"); gc = false; CHECK(&in.sync() == &in, "sync returns another stream"); break;
            case 0: LOG("get");
            {
                auto r = in.get();
                if (m.pos < n) { CHECK(r == T::to_int_type(m.d[m.pos]), "get"); m.pos++; m.g = 1; counted++; } else { CHECK(r == T::eof(), "get at the end"); m.st = FAIL | EOFB; m.g = 0; }
                break;
            }
            case 1: LOG("peek");
            {
                auto r = in.peek(); m.g = 0;
                if (m.pos < n) CHECK(r == T::to_int_type(m.d[m.pos]), "peek"); else CHECK(r == T::eof(), "peek at the end");
                break;
            }
            case 2: LOG("unget");
                in.unget(); m.g = 0;
                if (m.pos) { m.pos--; moves++; } else m.st = BAD;
                break;
            case 3:
            {
                size_t to = s.choose(n + 1); unsigned way = (unsigned)s.choose(3);
                LOG("seekg to " << to << " way " << way); gc = false;
                if (way == 0) in.seekg((long)to, estd::ios_base::beg);
                else if (way == 1) in.seekg((long)to - (long)m.pos, estd::ios_base::cur);
                else in.seekg((long)to - (long)n, estd::ios_base::end);
                m.pos = to; moves++;
                break;
            }
            case 4: case 5:
            {
                unsigned k = 1 + s.size(12); char delim = s.flip() ? '\n' : s.one_in(3) ? (char)s.bits(8) : n ? m.d[s.choose(n)] : 'x';
                LOG("getline " << k << " delim " << (int)(unsigned char)delim);
                std::unique_ptr<char[]> b(new char[k]); memset(b.get(), 0x5a, k);
                if (delim == '\n' && s.flip()) in.getline(b.get(), k); else in.getline(b.get(), k, delim);
                std::string w; m.g = 0; m.st = 0;
                for (;;)
                {
                    if (m.pos == n) { m.st = EOFB | (m.g ? 0 : FAIL); break; }
                    if (m.d[m.pos] == delim) { m.pos++; m.g++; break; }
                    if (w.size() + 1 == k) { m.st = FAIL; s.label("line too long"); break; }
                    w += m.d[m.pos++]; m.g++;
                }
                CHECK(!memcmp(b.get(), w.c_str(), w.size() + 1), "line stored, with its terminator");
                for (size_t j = w.size() + 1; j < k; j++) CHECK(b[j] == 0x5a, "getline wrote past the terminator");
                if (w.size()) counted++;
                break;
            }
            case 6: case 7:
            {
                unsigned k = (unsigned)s.size(12); bool has = s.flip(); char delim = s.one_in(3) ? (char)s.bits(8) : n ? m.d[s.choose(n)] : 'x';
                LOG("ignore " << k << " delim " << (has ? (int)(unsigned char)delim : -1));
                if (has) in.ignore(k, T::to_int_type(delim)); else if (k == 1) in.ignore(); else in.ignore(k);
                m.g = 0;
                while (m.g < (long)k)
                {
                    if (m.pos == n) { m.st = EOFB; break; }
                    char c = m.d[m.pos++]; m.g++;
                    if (has && c == delim) break;
                }
                if (m.g) counted++;
                break;
            }
            case 8: case 9:
            {
                unsigned k = s.one_in(3) ? (unsigned)(n - m.pos) + (unsigned)s.choose(3) : s.size(12); bool some = s.flip();
                LOG((some ? "readsome " : "read ") << k);
                std::unique_ptr<char[]> b(new char[k]);
                size_t take = std::min<size_t>(k, n - m.pos);
                if (some) { CHECK_EQ((long)in.readsome(b.get(), k), (long)take, "readsome count"); if (m.pos == n) m.st = EOFB; }
                else { in.read(b.get(), k); if (take < k) m.st = EOFB | FAIL; }
                CHECK(!memcmp(b.get(), m.d.data() + m.pos, take), "characters read");
                m.pos += take; m.g = (long)take; if (take) counted++;
                break;
            }
            case 10:
            {
                LOG(">> char");
                while (m.pos < n && space(m.d[m.pos])) m.pos++;
                char c = 'q'; in >> c;
                if (m.pos < n) { CHECK(c == m.d[m.pos], "extracted character"); m.pos++; m.g = 1; counted++; } else { CHECK(c == 'q', "character unchanged at the end"); m.st = FAIL | EOFB; m.g = 0; }
                break;
            }
            case 11: LOG(">> ws"); in >> estd::ws; gc = false;
                while (m.pos < n && space(m.d[m.pos])) m.pos++;
                break;
            case 12: case 13:
            {
                gc = false; bool hit = false;
                unsigned b = s.one_in(3) ? (unsigned)s.pick({10, 16, 8}) : m.base;
                if (b != m.base) { LOG("base " << b); if (b == 10) in.setf(estd::ios_base::dec, estd::ios_base::basefield); else if (b == 16) in >> estd::hex; else in.setf(estd::ios_base::oct, estd::ios_base::basefield); m.base = b; }
                switch (s.choose(6))
                {
                    case 0: num<int>(s, in, m, "int", hit); break;
                    case 1: num<unsigned>(s, in, m, "unsigned", hit); break;
                    case 2: num<short>(s, in, m, "short", hit); break;
                    case 3: num<unsigned short>(s, in, m, "unsigned short", hit); break;
                    case 4: num<long long>(s, in, m, "long long", hit); break;
                    default: num<unsigned long>(s, in, m, "unsigned long", hit); break;
                }
                if (hit) counted++;
                break;
            }
            case 14: gc = false; word<4, true>(s, in, m); counted++; break;
            case 15: gc = false; word<7, false>(s, in, m); counted++; break;
            default: gc = false; word<40, true>(s, in, m); counted++; break;
        }
        CHECK_EQ((unsigned)in.rdstate(), m.st, "stream state (1 bad, 2 fail, 4 end)");
        CHECK_EQ((size_t)where(), m.pos, "position in the source");
        if (gc) CHECK_EQ((long)in.gcount(), m.g, "gcount");
    }
    if (counted >= 3) s.nontrivial();
    if (moves) s.label("moved");
}

void over_span(pbt::Source& s)
{
    Model m; m.d = content(s, true);
    LOG("input " << pbt::quote(m.d));
    std::unique_ptr<char[]> mem(new char[m.d.size()]); std::copy(m.d.begin(), m.d.end(), mem.get());
    estd::span<const char> sp(mem.get(), m.d.size());
    estd::detail::basic_ispanstream<const char> in(sp);
    ops(s, in, m, [&] { return in.rdbuf()->gptr() - in.rdbuf()->eback(); });
}
void over_string(pbt::Source& s)
{
    Model m; m.d = content(s, false); if (m.d.size() > 39) m.d.resize(39);
    LOG("input " << pbt::quote(m.d));
    typedef estd::layer1::istringstream<40> S;
    std::unique_ptr<S> in(new S(m.d.c_str()));
    ops(s, *in, m, [&] { return in->rdbuf()->pos(); });
}
void over_const(pbt::Source& s)
{
    Model m; m.d = content(s, false);
    LOG("input " << pbt::quote(m.d));
    std::unique_ptr<char[]> mem(new char[m.d.size() + 1]); std::copy(m.d.begin(), m.d.end(), mem.get()); mem[m.d.size()] = 0;
    estd::layer2::basic_istringstream<const char> in((const char*)mem.get());
    ops(s, in, m, [&] { return in.rdbuf()->pos(); });
}

}

TARGET_FN("span", 3, over_span);
TARGET_FN("string", 2, over_string);
TARGET_FN("const_text", 2, over_const);
