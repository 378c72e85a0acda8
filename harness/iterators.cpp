// Iterators which read, write and transform one element at a time, against a string and a position in it.
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/iterator.h>
#include <estd/algorithm.h>
#include <estd/vector.h>
#include <estd/numeric.h>
#include "pbt.h"
#include <cstring>
#include <list>
#include <memory>
#include <string>
#include <vector>

namespace {
char letter(pbt::Source& s) { return s.one_in(6) ? (char)0xff : s.one_in(6) ? 0 : s.one_in(4) ? (char)s.bits(8) : (char)('a' + s.choose(6)); }
std::string content(pbt::Source& s, unsigned max) { std::string r; unsigned n = s.size(max); for (unsigned i = 0; i < n; i++) r += letter(s); return r; }

// ------------------------------------------------------------------ several iterators over one source
struct SpanSource
{
    typedef estd::internal::streambuf<estd::internal::impl::in_span_streambuf<const char>> SB;
    std::unique_ptr<char[]> mem; std::unique_ptr<SB> sb;
    static constexpr bool grows = false; static constexpr unsigned capacity = 40;
    explicit SpanSource(const std::string& d) : mem(new char[d.size()]) { std::memcpy(mem.get(), d.data(), d.size()); sb.reset(new SB(estd::span<const char>(mem.get(), d.size()))); }
    bool append(char) { return false; }
    bool ended() const { return true; }
    void end(bool) {}
};
struct StringSource
{
    typedef estd::layer1::stringbuf<40, false> SB;
    std::unique_ptr<SB> sb;
    static constexpr bool grows = true; static constexpr unsigned capacity = 40;
    explicit StringSource(const std::string& d) : sb(new SB) { for (char c : d) sb->sputc(c); }
    bool append(char c) { sb->sputc(c); return true; }
    bool ended() const { return true; }
    void end(bool) {}
};
// may be dry without being at its end
struct Drip { std::string data; size_t at = 0, ready = 0; bool ended = false; };
struct DripImpl : estd::internal::impl::streambuf_base<estd::char_traits<char> >
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char> > base;
    typedef base::traits_type traits_type; typedef char char_type; typedef base::int_type int_type;
    Drip* f;
    explicit DripImpl(Drip* f) : f(f) {}
    estd::streamsize xin_avail() const { return (estd::streamsize)(f->ready - f->at); }
    estd::streamsize showmanyc() const { return f->ready > f->at ? xin_avail() : f->ended ? -1 : 0; }
    char xsgetc() const { return f->data[f->at]; }
    void gbump(int n) { f->at += (size_t)n; }
    estd::streamsize xsgetn(char* p, estd::streamsize n) { size_t room = f->ready - f->at; if ((size_t)n > room) n = (estd::streamsize)room; std::memcpy(p, f->data.data() + f->at, (size_t)n); f->at += (size_t)n; return n; }
};
struct DripSource
{
    typedef estd::detail::streambuf<DripImpl> SB;
    Drip f; std::unique_ptr<SB> sb;
    static constexpr bool grows = true; static constexpr unsigned capacity = 60;
    explicit DripSource(const std::string& d) { f.data = d; f.ready = d.size(); f.ended = true; sb.reset(new SB(&f)); }
    bool append(char c) { f.data += c; f.ready++; return true; }
    bool ended() const { return f.ended; }
    void end(bool e) { f.ended = e; }        // open: more may come
};

template <class Src> void several(pbt::Source& s)
{
    typedef typename Src::SB SB; typedef typename SB::traits_type T; typedef estd::istreambuf_iterator<SB> It;
    std::string d = content(s, 24); size_t pos = 0;
    LOG("source " << pbt::quote(d));
    Src src(d); SB& sb = *src.sb;
    It end;
    const int S = 3;
    std::unique_ptr<It> it[S]; bool live[S];
    auto renew = [&](int i, unsigned how, bool quiet = false)
    {
        if (!quiet) LOG("it" << i << " made from " << (how == 0 ? "the buffer" : how == 1 ? "its address" : how == 2 ? "null" : "nothing"));
        if (how == 0) it[i].reset(new It(sb)); else if (how == 1) it[i].reset(new It(&sb)); else if (how == 2) it[i].reset(new It((SB*)nullptr)); else it[i].reset(new It());
        live[i] = how < 2 && (pos < d.size() || !src.ended());
    };
    for (int i = 0; i < S; i++) renew(i, 0, true);
    unsigned moved = 0, who = 0;
    // what reading one on does to the iterator which does it
    auto forth = [&](int i) { if (!live[i]) return; if (pos < d.size()) { pos++; moved++; who |= 1u << i; } if (pos >= d.size() && src.ended()) live[i] = false; };
    auto now = [&] { return pos < d.size() ? T::to_int_type(d[pos]) : T::eof(); };
    unsigned steps = 1 + s.size(40);
    for (unsigned k = 0; k < steps; k++)
    {
        int i = s.choose(S), j = s.choose(S);
        switch (s.choose(14))
        {
        case 0: case 1: { LOG("++it" << i); forth(i); It& r = ++*it[i]; CHECK_EQ(&r, it[i].get(), "pre-increment returns the iterator"); break; }
        case 2: case 3:
        {
            LOG("*it" << i << "++"); bool was = live[i]; auto c = now(); forth(i);
            auto p = (*it[i])++;
            if (was && c != T::eof()) { CHECK_EQ((int)(unsigned char)*p, (int)(unsigned char)T::to_char_type(c), "character before the post-increment"); CHECK(!(p == end), "a proxy which holds a character is not the end"); }
            else CHECK(p == end && end == p, "post-incremented at the end");
            break;
        }
        case 4: { if (!live[i]) break; LOG("*it" << i); CHECK_EQ((int)**it[i], (int)now(), "dereferenced"); CHECK_EQ((int)**it[i], (int)now(), "dereferenced again"); break; }
        case 5: { if (!live[i]) break; LOG("*++it" << i); forth(i); ++*it[i]; if (live[i]) CHECK_EQ((int)**it[i], (int)now(), "next character"); break; }
        case 6: { LOG("it" << i << " rebuilt as a copy of it" << j); It c(*it[j]); it[i].reset(new It(c)); live[i] = live[j]; break; }
        case 7: { LOG("it" << i << " = it" << j); *it[i] = *it[j]; live[i] = live[j]; break; }
        case 8: renew(i, s.choose(4)); break;
        case 9:
        {
            if (!Src::grows || d.size() >= Src::capacity) break;
            unsigned n = 1 + s.choose(4);
            LOG("the source gets " << n << " more");
            while (n-- && d.size() < Src::capacity) { char c = letter(s); src.append(c); d += c; }
            break;
        }
        case 10: { LOG("the buffer itself is read"); CHECK_EQ((int)sb.sbumpc(), (int)now(), "read from the buffer"); if (pos < d.size()) pos++; break; }
        case 12: { bool e = s.flip(); if (src.ended() == e) break; src.end(e); if (src.ended() == e) LOG("the source " << (e ? "ends" : "may get more")); break; }
        case 11: { LOG("(it" << i << "++)++"); bool was = live[i]; forth(i); auto p = (*it[i])++; if (was) forth(i); p++; break; }
        default: { LOG("++(it" << i << "++)"); bool was = live[i]; forth(i); auto p = (*it[i])++; if (was) forth(i); It q = ++p; CHECK_EQ(q == end, !live[i], "what is returned is the iterator"); break; }
        }
        for (int a = 0; a < S; a++)
        {
            CHECK_EQ(*it[a] == end, !live[a], "it" << a << " == end"); CHECK_EQ(*it[a] != end, live[a], "it" << a << " != end"); CHECK_EQ(end == *it[a], !live[a], "end == it" << a);
            for (int b = 0; b < S; b++) { CHECK_EQ(*it[a] == *it[b], live[a] == live[b], "it" << a << " == it" << b); CHECK_EQ(*it[a] != *it[b], live[a] != live[b], "it" << a << " != it" << b); }
        }
        CHECK_EQ((int)sb.sgetc(), (int)now(), "the buffer's current character");
    }
    if (moved >= 3 && (who & (who - 1))) s.nontrivial();
}
TARGET_FN("iterators/span", 2, several<SpanSource>);
TARGET_FN("iterators/string", 2, several<StringSource>);
TARGET_FN("iterators/drip", 2, several<DripSource>);

// ------------------------------------------------------------------ whole ranges
void ranges(pbt::Source& s)
{
    std::string d = content(s, 30); StringSource src(d); typedef estd::istreambuf_iterator<StringSource::SB> It;
    size_t skip = s.choose(d.size() + 1); for (size_t i = 0; i < skip; i++) src.sb->sbumpc();
    std::string rest = d.substr(skip);
    if (rest.size() > 2) s.nontrivial();
    It first(*src.sb), last;
    switch (s.choose(5))
    {
    case 0: { LOG("distance of " << pbt::quote(rest)); CHECK_EQ(estd::distance(first, last), (int)rest.size(), "distance"); break; }
    case 1: { LOG("copy of " << pbt::quote(rest)); std::string out; estd::copy(first, last, std::back_inserter(out)); CHECK_EQ(out, rest, "copied"); break; }
    case 2: { LOG("accumulate " << pbt::quote(rest)); long sum = 0; for (unsigned char c : rest) sum += c; CHECK_EQ(estd::accumulate(first, last, 0L), sum, "sum"); break; }
    case 3:
    {
        char c = letter(s); LOG("find " << (int)c << " in " << pbt::quote(rest));
        size_t at = rest.find(c); It r = estd::find_if(first, last, [&](int v) { return v == (int)(unsigned char)c; });
        CHECK_EQ(r == last, at == std::string::npos, "found");
        if (at != std::string::npos) { CHECK_EQ((int)*r, (int)(unsigned char)c, "what was found"); CHECK_EQ((int)src.sb->sgetc(), (int)(unsigned char)c, "the buffer stands at what was found"); src.sb->sbumpc(); CHECK_EQ(estd::distance(It(*src.sb), last), (int)(rest.size() - at - 1), "the rest remains"); }
        break;
    }
    default:
    {
        LOG("range for " << pbt::quote(rest)); std::string out; unsigned n = 0;
        for (; first != last; n++) out += (char)*first++;
        CHECK_EQ(out, rest, "read with *it++"); CHECK_EQ(n, (unsigned)rest.size(), "as many steps as characters");
    }
    }
}
TARGET_FN("iterators/ranges", 2, ranges);

// distance over containers' own iterators
void distances(pbt::Source& s)
{
    unsigned n = s.size(20), a = s.choose(n + 1), b = s.range(a, n);
    LOG("distance " << a << " to " << b << " of " << n);
    if (b > a + 1) s.nontrivial();
    std::vector<int> v; std::list<int> l; estd::layer1::vector<int, 32> ev; estd::layer1::string<32> es;
    for (unsigned i = 0; i < n; i++) { v.push_back(i); l.push_back(i); ev.push_back(i); es += (char)('a' + i % 26); }
    CHECK_EQ(estd::distance(v.data() + a, v.data() + b), int(b - a), "pointers");
    CHECK_EQ(estd::distance(v.begin() + a, v.begin() + b), int(b - a), "vector");
    CHECK_EQ(estd::distance(std::next(l.begin(), a), std::next(l.begin(), b)), int(b - a), "list");
    CHECK_EQ(estd::distance(ev.begin() + a, ev.begin() + b), int(b - a), "estd vector");
    CHECK_EQ(estd::distance(es.begin() + a, es.begin() + b), int(b - a), "estd string");
}
TARGET_FN("iterators/distance", 1, distances);

// ------------------------------------------------------------------ writing
template <unsigned N, bool terminated> void written(pbt::Source& s)
{
    typedef estd::layer1::stringbuf<N, terminated> SB; typedef estd::experimental::ostreambuf_iterator<SB> It;
    SB sb; std::string want; const unsigned room = terminated ? N - 1 : N;
    It a(&sb), b(a); bool fa = false, fb = false;
    CHECK(!a.failed(), "nothing has failed before anything is written");
    unsigned steps = 1 + s.size(30), n = 0;
    for (unsigned k = 0; k < steps; k++)
    {
        bool first = s.flip(); It& it = first ? a : b; bool& f = first ? fa : fb;
        char c = letter(s); if (!c && terminated) c = 1; bool fits = want.size() < room;
        switch (s.choose(6))
        {
        case 0: LOG("it = " << (int)c); it = c; break;
        case 1: LOG("it++ = " << (int)c); { It t = it++; t = c; it = t; } break;
        case 2: LOG("++it = " << (int)c); { It& r = (++it = c); CHECK_EQ(&r, &it, "assignment returns the iterator"); } break;
        case 3: LOG("it++"); it++; continue;
        case 4: LOG("++it"); ++it; continue;
        default: LOG("copied"); if (first) b = a, fb = fa; else a = b, fa = fb; continue;
        }
        if (fits) { want += c; n++; }
        f = !fits;
        CHECK_EQ(a.failed(), fa, "failed"); CHECK_EQ(b.failed(), fb, "failed of the other");
        CHECK_EQ(std::string(sb.str().data(), sb.str().size()), want, "what was written");
    }
    if (n >= 3) s.nontrivial();
    s.label(fa || fb ? "full" : "room left");
}
TARGET_FN("iterators/out", 2, written<12, true>);
TARGET_FN("iterators/out_large", 1, written<20, false>);

template <class T> void streamed(pbt::Source& s)
{
    estd::experimental::ostringstream<400> out; typedef estd::experimental::ostream_iterator<T, decltype(out)> It;
    It it{out}; std::string want; std::vector<T> v; unsigned n = s.size(16);
    for (unsigned i = 0; i < n; i++) { v.push_back((T)(sizeof(T) == 1 ? 'a' + s.choose(26) : (unsigned)s.range(-100000, 100000))); if (sizeof(T) == 1) want += (char)v.back(); else want += std::to_string((long)v.back()); }
    if (n > 2) s.nontrivial();
    LOG("stream out " << pbt::quote(want));
    switch (s.choose(4))
    {
    case 0: for (const T& x : v) *it++ = x; break;
    case 1: for (const T& x : v) { *it = x; ++it; } break;
    case 2: for (const T& x : v) it = x; break;
    default: estd::copy(v.begin(), v.end(), it); break;
    }
    CHECK_EQ(std::string(out.rdbuf()->str().data(), out.rdbuf()->str().size()), want, "streamed");
}
TARGET_FN("iterators/stream_char", 1, streamed<char>);
TARGET_FN("iterators/stream_int", 1, streamed<int>);

// ------------------------------------------------------------------ elements passed through a function
void mapped(pbt::Source& s)
{
    std::vector<int> v; unsigned n = s.size(16); for (unsigned i = 0; i < n; i++) v.push_back(s.range(-9, 9));
    int by = s.range(1, 5); unsigned calls = 0;
    auto f = [&, by](int x) { calls++; return x * by + 1; };
    auto it = estd::experimental::make_filter_iterator(f, v.data());
    unsigned at = 0;
    if (n > 2) s.nontrivial();
    LOG("map " << n << " by " << by);
    while (at < n)
    {
        unsigned before = calls;
        switch (s.choose(3))
        {
        case 0: CHECK_EQ(*it, v[at] * by + 1, "*it"); CHECK_EQ(calls, before + 1, "one call"); break;
        case 1: CHECK_EQ(*it++, v[at] * by + 1, "*it++"); at++; CHECK_EQ(calls, before + 1, "one call"); break;
        default: { auto& r = ++it; CHECK_EQ(&r, &it, "++it"); at++; }
        }
    }
}
TARGET_FN("iterators/mapped", 1, mapped);

template <class C> void appended(pbt::Source& s, unsigned cap)
{
    C c; std::vector<int> want; estd::back_insert_iterator<C> it(c), other(it);
    unsigned n = s.size(cap); if (n > 2) s.nontrivial();
    for (unsigned i = 0; i < n; i++)
    {
        int v = s.range(-50, 50); LOG("append " << v);
        auto& w = s.flip() ? it : other; auto& r = (w = v); CHECK_EQ(&r, &w, "assignment returns the iterator");
        want.push_back(v);
        CHECK_EQ((unsigned)c.size(), (unsigned)want.size(), "size");
    }
    unsigned i = 0; for (auto& x : c) CHECK_EQ(x, want[i++], "element");
}
void appending(pbt::Source& s) { if (s.flip()) appended<estd::layer1::vector<int, 24>>(s, 20); else appended<std::vector<int>>(s, 30); }
TARGET_FN("iterators/append", 1, appending);
}
