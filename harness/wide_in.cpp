// C23: input buffers of characters wider than a byte
#include <estd/streambuf.h>
#include <estd/sstream.h>
#include <estd/istream.h>
#include "pbt.h"
#include <cstring>
#include <memory>
#include <vector>

namespace {

template <class C> struct Feed { std::vector<C> data; size_t given, ready; pbt::Source* src; bool fickle; };

template <class C>
struct FeedImpl : estd::internal::impl::streambuf_base<estd::char_traits<C> >
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<C> > base;
    typedef typename base::traits_type traits_type; typedef C char_type; typedef typename base::int_type int_type;
    Feed<C>* f;
    explicit FeedImpl(Feed<C>* f) : f(f) {}
    estd::streamsize xin_avail() const { return (estd::streamsize)(f->ready - f->given); }
    estd::streamsize showmanyc() const { return xin_avail(); }
    C xsgetc() const { return f->data[f->given]; }
    void gbump(int n) { f->given += (size_t)n; }
    estd::streamsize xsgetn(C* p, estd::streamsize n)
    {
        CHECK(n >= 0, "negative count asked of the source");
        size_t room = f->ready - f->given;
        if (f->fickle && room) { size_t lim = 1 + f->src->choose(5); if (lim < room) room = lim; }
        if ((size_t)n > room) n = (estd::streamsize)room;
        std::copy(f->data.begin() + f->given, f->data.begin() + f->given + n, p);
        f->given += (size_t)n;
        return n;
    }
};
template <class C> using FeedBuf = estd::detail::streambuf<FeedImpl<C> >;

template <class C>
C some(pbt::Source& s)
{
    // never the all-ones character, which a wide end of file may equal
    C c = s.one_in(4) ? (C)(s.bits(8) << (8 * (sizeof(C) - 1))) : s.one_in(3) ? (C)s.bits(16) : (C)(0x1000 + s.choose(900));
    return c == (C)~(C)0 || c == (C)0xffff ? (C)0x141 : c;
}

template <class C, class SB>
void ops(pbt::Source& s, SB& sb, Feed<C>& f, unsigned cap)
{
    typedef typename SB::traits_type T;
    size_t pos = 0; unsigned reads = 0, refills = 0;
    unsigned steps = 1 + s.size(30);
    for (unsigned i = 0; i < steps; i++)
    {
        size_t held = f.given - pos, given = f.given; bool any = held || f.ready > f.given;
        switch (s.choose(9))
        {
            case 0: LOG("sgetc");
                if (any) CHECK(sb.sgetc() == T::to_int_type(f.data[pos]), "sgetc"); else CHECK(sb.sgetc() == T::eof(), "sgetc with nothing to read");
                break;
            case 1: case 2: LOG("sbumpc");
                if (any) { CHECK(sb.sbumpc() == T::to_int_type(f.data[pos]), "sbumpc"); pos++; reads++; } else CHECK(sb.sbumpc() == T::eof(), "sbumpc with nothing to read");
                break;
            case 3:
            {
                LOG("snextc");
                auto r = sb.snextc();
                if (!any) { CHECK(r == T::eof(), "snextc with nothing to read"); break; }
                pos++; reads++;
                if (pos < f.ready) CHECK(r == T::to_int_type(f.data[pos]), "snextc"); else CHECK(r == T::eof(), "snextc onto the end");
                break;
            }
            case 4: case 5:
            {
                unsigned k = (unsigned)s.choose(s.one_in(3) ? 3 * cap + 3 : cap + 2);
                LOG("sgetn " << k);
                std::unique_ptr<C[]> buf(new C[k]);
                long r = (long)sb.sgetn(buf.get(), k);
                CHECK(r >= 0 && r <= (long)k, "sgetn count out of range");
                CHECK(pos + (size_t)r <= f.ready && std::equal(buf.get(), buf.get() + r, f.data.begin() + pos), "sgetn characters");
                CHECK(r >= (long)std::min<size_t>(k, held), "sgetn gave less than was held");
                if (k && any) CHECK(r > 0, "sgetn gave nothing although there is something");
                pos += (size_t)r; if (r) reads++;
                break;
            }
            case 6: LOG("sync"); sb.pubsync(); break;
            case 7: f.ready = std::min(f.data.size(), f.ready + 1 + s.size(2 * cap + 2)); LOG("source now has " << f.ready); break;
            default: CHECK_EQ((size_t)sb.in_avail(), held, "in_avail");
        }
        CHECK(f.given >= pos, "read past what the source gave");
        CHECK(f.given - pos <= cap, "holds more than its buffer");
        CHECK_EQ((size_t)sb.in_avail(), f.given - pos, "in_avail is what was taken from the source and not yet read");
        if (f.given > given) refills++;
    }
    f.ready = f.data.size(); f.fickle = false;
    LOG("drain");
    while (pos < f.data.size()) { CHECK(sb.sbumpc() == T::to_int_type(f.data[pos]), "drained character"); pos++; }
    CHECK(sb.sbumpc() == T::eof(), "nothing after the source");
    if (reads >= 2 && refills >= 2) s.nontrivial();
}
template <class C>
void feed_for(pbt::Source& s, Feed<C>& f)
{
    unsigned n = s.size(60);
    for (unsigned i = 0; i < n; i++) f.data.push_back(some<C>(s));
    f.given = 0; f.ready = s.flip() ? n : s.choose(n + 1); f.src = &s; f.fickle = s.flip();
    LOG("source of " << n << ", " << f.ready << " at first" << (f.fickle ? ", a little at a time" : ""));
}
template <class C, unsigned N>
void bip(pbt::Source& s)
{
    Feed<C> f; feed_for(s, f); FeedBuf<C> src(&f);
    typedef estd::internal::in_bipbuf_streambuf<FeedBuf<C>&, N> SB;
    std::unique_ptr<SB> sb(new SB(src));
    ops<C>(s, *sb, f, N);
}
}

TARGET_FN("bip16_8", 3, (bip<char16_t, 8>));
TARGET_FN("bip16_3", 1, (bip<char16_t, 3>));
TARGET_FN("bip32_5", 2, (bip<char32_t, 5>));
