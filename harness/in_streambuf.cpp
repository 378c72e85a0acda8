// C23: input stream buffers deliver the source, each character once, in order
#include <estd/streambuf.h>
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/string_view.h>
#include "pbt.h"
#include <cstring>
#include <string>
#include <memory>
#include <vector>

namespace {

// random access input: characters of `data` and a position in it
template <class SB, class C>
void in_ops(pbt::Source& s, SB& sb, const std::basic_string<C>& data, size_t& pos, unsigned steps, bool unget)
{
    typedef typename SB::traits_type T;
    unsigned reads = 0, moves = 0;
    for (unsigned i = 0; i < steps; i++)
    {
        size_t n = data.size();
        const char* what = "";
        switch (s.choose(9))
        {
            case 0: what = "sgetc"; LOG(what);
                if (pos < n) CHECK(sb.sgetc() == T::to_int_type(data[pos]), "sgetc"); else CHECK(sb.sgetc() == T::eof(), "sgetc at the end");
                break;
            case 1: case 2: what = "sbumpc"; LOG(what);
                if (pos < n) { CHECK(sb.sbumpc() == T::to_int_type(data[pos]), "sbumpc"); pos++; reads++; } else CHECK(sb.sbumpc() == T::eof(), "sbumpc at the end");
                break;
            case 3: what = "snextc"; LOG(what);
                if (pos < n)
                {
                    auto r = sb.snextc(); pos++; reads++;
                    if (pos < n) CHECK(r == T::to_int_type(data[pos]), "snextc"); else CHECK(r == T::eof(), "snextc onto the end");
                }
                else CHECK(sb.snextc() == T::eof(), "snextc at the end");
                break;
            case 4: if (!unget) break;
                what = "sungetc"; LOG(what);
                if (pos) { pos--; moves++; CHECK(sb.sungetc() == T::to_int_type(data[pos]), "sungetc"); }
                else CHECK(sb.sungetc() == T::eof(), "sungetc at the beginning");
                break;
            case 5: case 6:
            {
                size_t left = n - pos;
                unsigned k = s.one_in(3) ? (unsigned)left + (unsigned)s.choose(3) : s.size(12);
                if (k > 70000) k = 70000;
                LOG("sgetn " << k);
                std::unique_ptr<C[]> buf(new C[k]);
                long r = (long)sb.sgetn(buf.get(), k);
                CHECK_EQ(r, (long)std::min<size_t>(k, left), "sgetn count");
                CHECK(!memcmp(buf.get(), data.data() + pos, sizeof(C) * (size_t)r), "sgetn characters");
                pos += (size_t)r; if (r) reads++;
                break;
            }
            case 7:
            {
                size_t to = s.one_in(3) ? (s.flip() ? 0 : n) : s.choose(n + 1); unsigned way = (unsigned)s.choose(7);
                LOG("seek to " << to << " way " << way);
                long r;
                if (way == 0) r = (long)sb.pubseekoff((long)to, estd::ios_base::beg, estd::ios_base::in);
                else if (way == 1) r = (long)sb.pubseekoff((long)to - (long)pos, estd::ios_base::cur, estd::ios_base::in);
                else if (way == 2) r = (long)sb.pubseekoff((long)to - (long)n, estd::ios_base::end, estd::ios_base::in);
                else if (way == 3) r = (long)sb.pubseekpos((int)to, estd::ios_base::in);
                else if (way == 4) r = (long)sb.pubseekpos((int)to);
                else if (way == 5) r = (long)sb.pubseekoff((long)to, estd::ios_base::beg);
                else
                {
                    // for writing: there's no such position, or it stays at the end; reading goes on where it was
                    long w = (long)sb.pubseekoff((long)to, (estd::ios_base::seekdir)s.pick({(int)estd::ios_base::beg, (int)estd::ios_base::cur, (int)estd::ios_base::end}), estd::ios_base::out);
                    CHECK(w == -1 || w == (long)n, "seeking for writing gave " << w);
                    break;
                }
                CHECK_EQ(r, (long)to, "position reported by a seek");
                pos = to; moves++;
                break;
            }
            default:
            {
                long r = (long)sb.in_avail(), left = (long)(n - pos);
                CHECK_EQ(r, left ? left : -1L, "in_avail");
            }
        }
        CHECK_EQ((size_t)sb.pos(), pos, "position");
    }
    if (reads >= 2 && moves) s.nontrivial();
}
template <class C> std::basic_string<C> content(pbt::Source& s, unsigned max)
{
    std::basic_string<C> d; unsigned n = s.size(max);
    // mostly letters, at times the extremes, separators and signs, or anything
    while (n--)
    {
        unsigned kind = (unsigned)s.choose(10);
        if (kind < 6) d += (C)('a' + s.choose(26));
        else if (kind == 6) d += (C)(s.flip() ? ~0u : 0);
        else if (kind == 7) d += (C)" \n\t\r-+0"[s.choose(7)];
        else if (kind == 8) d += (C)(0x7F + s.choose(3));
        else d += (C)s.bits(8 * sizeof(C));
    }
    return d;
}
template <class C> struct opened : estd::internal::streambuf<estd::internal::impl::in_span_streambuf<const C> >
{
    typedef estd::internal::streambuf<estd::internal::impl::in_span_streambuf<const C> > base;
    using base::pos; opened(const estd::span<const C>& x) : base(x) {}
};
template <class C>
void span_run(pbt::Source& s)
{
    std::basic_string<C> d = content<C>(s, 20);
    if (s.one_in(300)) { size_t n = 65530 + s.choose(100); d.clear(); for (size_t i = 0; i < n; i++) d += (C)('a' + i % 23); LOG("long input " << n); s.label("longer than 16 bits"); }
    std::unique_ptr<C[]> mem(new C[d.size()]); std::copy(d.begin(), d.end(), mem.get());
    opened<C> sb(estd::span<const C>(mem.get(), d.size()));
    size_t pos = 0;
    LOG("input of " << d.size());
    in_ops(s, sb, d, pos, 1 + s.size(25), true);
    CHECK(sb.eback() == mem.get() && sb.egptr() == mem.get() + d.size(), "ends");
}
// strings: also written to while being read
template <class SB, unsigned Cap>
void string_run(pbt::Source& s)
{
    std::unique_ptr<SB> psb(new SB); SB& sb = *psb;
    std::string d; size_t pos = 0;
    unsigned rounds = 1 + s.size(5);
    for (unsigned r = 0; r < rounds; r++)
    {
        std::string t = content<char>(s, 8);
        if (t.size() > Cap - d.size()) t.resize(Cap - d.size());
        if (t.find('\0') != std::string::npos) for (auto& c : t) if (!c) c = 'z';
        LOG("append " << pbt::quote(t));
        if (s.flip()) { CHECK_EQ((size_t)sb.sputn(t.data(), (long)t.size()), t.size(), "append"); }
        else for (char c : t) CHECK(sb.sputc(c) != SB::traits_type::eof(), "append one");
        d += t;
        in_ops(s, sb, d, pos, 1 + s.size(8), true);
        CHECK_EQ((long)sb.pubseekoff(0, estd::ios_base::cur, estd::ios_base::out), (long)d.size(), "write position");
    }
}
void view_run(pbt::Source& s)
{
    typedef estd::layer2::basic_stringbuf<const char> SB;
    std::string d = content<char>(s, 20);
    for (auto& c : d) if (!c) c = 'z';
    LOG("text " << pbt::quote(d));
    SB sb(d.c_str());
    size_t pos = 0;
    in_ops(s, sb, d, pos, 1 + s.size(25), true);
}
// ---------------------------------------------------------------- read-ahead over a source that gives a little at a time
struct Feed { std::string data; size_t given; size_t ready; pbt::Source* src; bool fickle; bool dry; };
struct FeedImpl : estd::internal::impl::streambuf_base<estd::char_traits<char> >
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char> > base;
    typedef base::traits_type traits_type; typedef char char_type; typedef base::int_type int_type;
    Feed* f;
    explicit FeedImpl(Feed* f) : f(f) {}
    estd::streamsize xin_avail() const { return (estd::streamsize)(f->ready - f->given); }
    estd::streamsize showmanyc() const { return xin_avail(); }
    char xsgetc() const { return f->data[f->given]; }
    void gbump(int n) { f->given += (size_t)n; }
    estd::streamsize xsgetn(char* p, estd::streamsize n)
    {
        CHECK(n >= 0, "negative count asked of the source");
        size_t room = f->ready - f->given;
        if (f->fickle && room) { size_t lim = 1 + f->src->choose(5); if (lim < room) room = lim; }
        if ((size_t)n > room) n = (estd::streamsize)room;
        f->dry = n == 0;
        memcpy(p, f->data.data() + f->given, (size_t)n);
        f->given += (size_t)n;
        return n;
    }
};
typedef estd::detail::streambuf<FeedImpl> FeedBuf;

template <class SB>
void bip_ops(pbt::Source& s, SB& sb, Feed& f, unsigned cap)
{
    typedef typename SB::traits_type T;
    size_t pos = 0; unsigned reads = 0, refills = 0;
    unsigned steps = 1 + s.size(30);
    for (unsigned i = 0; i < steps; i++)
    {
        size_t held = f.given - pos, given = f.given; bool any = held || f.ready > f.given;
        switch (s.choose(9))
        {
            case 0: LOG("sgetc");
                if (any) CHECK(sb.sgetc() == T::to_int_type(f.data[pos]), "sgetc"); else CHECK(sb.sgetc() == T::eof(), "sgetc with nothing to read");
                break;
            case 1: case 2: LOG("sbumpc");
                if (any) { CHECK(sb.sbumpc() == T::to_int_type(f.data[pos]), "sbumpc"); pos++; reads++; } else CHECK(sb.sbumpc() == T::eof(), "sbumpc with nothing to read");
                break;
            case 3:
            {
                LOG("snextc");
                auto r = sb.snextc();
                if (!any) { CHECK(r == T::eof(), "snextc with nothing to read"); break; }
                pos++; reads++;
                if (pos < f.ready) CHECK(r == T::to_int_type(f.data[pos]), "snextc"); else CHECK(r == T::eof(), "snextc onto the end");
                break;
            }
            case 4: case 5:
            {
                unsigned k = (unsigned)s.choose(s.one_in(3) ? 3 * cap + 3 : cap + 2);
                LOG("sgetn " << k);
                std::unique_ptr<char[]> buf(new char[k]);
                long r = (long)sb.sgetn(buf.get(), k);
                CHECK(r >= 0 && r <= (long)k, "sgetn count out of range");
                CHECK(pos + (size_t)r <= f.ready && !memcmp(buf.get(), f.data.data() + pos, (size_t)r), "sgetn characters");
                CHECK(r >= (long)std::min<size_t>(k, held), "sgetn gave less than was held");
                if (k && any) CHECK(r > 0, "sgetn gave nothing although there is something");
                pos += (size_t)r; if (r) reads++;
                break;
            }
            case 6:
            {
                LOG("sync");
                sb.pubsync();
                break;
            }
            case 7:
            {
                unsigned k = 1 + s.size(2 * cap + 2);
                f.ready = std::min(f.data.size(), f.ready + k);
                LOG("source now has " << f.ready);
                break;
            }
            default: CHECK_EQ((size_t)sb.in_avail(), held, "in_avail");
        }
        CHECK(f.given >= pos, "read past what the source gave");
        CHECK(f.given - pos <= cap + (f.given > given ? 0 : 0), "holds more than its buffer");
        CHECK_EQ((size_t)sb.in_avail(), f.given - pos, "in_avail is what was taken from the source and not yet read");
        if (f.given > given) refills++;
    }
    // drain
    f.ready = f.data.size(); f.fickle = false;
    LOG("drain");
    while (pos < f.data.size()) { CHECK(sb.sbumpc() == T::to_int_type(f.data[pos]), "drained character"); pos++; }
    CHECK(sb.sbumpc() == T::eof(), "nothing after the source");
    if (reads >= 2 && refills >= 2) s.nontrivial();
}
void feed_for(pbt::Source& s, Feed& f)
{
    unsigned n = s.size(60); f.data.clear();
    for (unsigned i = 0; i < n; i++) f.data += (char)(s.one_in(8) ? 0xff : s.one_in(8) ? 0 : s.one_in(8) ? (unsigned)s.bits(8) : 'a' + i % 26);
    f.given = 0; f.ready = s.flip() ? f.data.size() : s.choose(n + 1); f.src = &s; f.fickle = s.flip(); f.dry = false;
    LOG("source of " << n << ", " << f.ready << " at first" << (f.fickle ? ", a little at a time" : ""));
}
template <unsigned N>
void bip_run(pbt::Source& s)
{
    Feed f; feed_for(s, f); FeedBuf src(&f);
    typedef estd::internal::in_bipbuf_streambuf<FeedBuf&, N> SB;
    std::unique_ptr<SB> sb(new SB(src));
    bip_ops(s, *sb, f, N);
}
typedef estd::layer1::stringbuf<24> SB24;
typedef estd::layer1::stringbuf<16, false> SB16;
void s24(pbt::Source& s) { string_run<SB24, 23>(s); }
void s16(pbt::Source& s) { string_run<SB16, 16>(s); }

// ---------------------------------------------------------------- iterators over a stream buffer
void iter_run(pbt::Source& s)
{
    std::string d = content<char>(s, 20);
    std::unique_ptr<char[]> mem(new char[d.size()]); memcpy(mem.get(), d.data(), d.size());
    typedef opened<char> SB;
    SB sb(estd::span<const char>(mem.get(), d.size()));
    typedef estd::istreambuf_iterator<SB> It;
    size_t skip = s.choose(d.size() + 1);
    for (size_t i = 0; i < skip; i++) sb.sbumpc();
    LOG("iterate " << pbt::quote(d) << " from " << skip);
    It it(sb), end; size_t pos = skip; std::string got;
    while (!it.equal(end))
    {
        CHECK(pos < d.size(), "an iterator goes on past the end");
        CHECK(*it == SB::traits_type::to_int_type(d[pos]), "iterator character");
        if (s.flip()) { ++it; got += d[pos]; } else { auto p = it++; got += *p; }
        pos++;
    }
    CHECK_EQ(pos, d.size(), "an iterator stops early");
    CHECK(got == d.substr(skip), "iterated characters");
    CHECK(sb.sgetc() == SB::traits_type::eof(), "the buffer is read to its end");
    if (d.size() - skip > 2) s.nontrivial();
}

}

TARGET_FN("span_char", 3, span_run<char>);
#ifndef NOSTD
TARGET_FN("span_wide", 1, span_run<char16_t>);
#endif
TARGET_FN("string_24", 2, s24);
TARGET_FN("string_16_unterminated", 2, s16);
TARGET_FN("const_text", 1, view_run);
TARGET_FN("read_ahead_8", 3, bip_run<8>);
TARGET_FN("read_ahead_3", 2, bip_run<3>);
TARGET_FN("iterator", 1, iter_run);
