// C22: output buffers of characters wider than a byte count characters, not bytes
#include <estd/streambuf.h>
#include <estd/string_view.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include "pbt.h"
#include <cstring>
#include <memory>
#include <vector>

namespace {

template <class C> struct Sink { std::vector<C> got; unsigned budget; pbt::Source* src; bool fickle; };

template <class C>
struct SinkImpl : estd::internal::impl::streambuf_base<estd::char_traits<C> >
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<C> > base;
    typedef typename base::traits_type traits_type; typedef C char_type; typedef typename base::int_type int_type;
    Sink<C>* k;
    explicit SinkImpl(Sink<C>* k) : k(k) {}
    estd::streamsize xsputn(const C* p, estd::streamsize n)
    {
        CHECK(n >= 0, "negative count given to the sink");
        unsigned room = k->budget;
        if (k->fickle) { unsigned lim = (unsigned)k->src->choose(6); if (lim < room) room = lim; }
        if ((unsigned)n > room) n = room;
        k->got.insert(k->got.end(), p, p + n); k->budget -= (unsigned)n;
        return n;
    }
    int_type sputc(C c) { C b = c; return xsputn(&b, 1) ? traits_type::to_int_type(c) : traits_type::eof(); }
};
template <class C> using SinkBuf = estd::detail::streambuf<SinkImpl<C> >;

template <class C>
C some(pbt::Source& s)
{
    // never the all-ones character, which a wide end of file may equal
    C c = s.one_in(4) ? (C)(s.bits(8) << (8 * (sizeof(C) - 1))) : s.one_in(3) ? (C)s.bits(16) : (C)(0x1000 + s.choose(900));
    return c == (C)~(C)0 || c == (C)0xffff ? (C)0x141 : c;
}

template <class C, class SB>
void buffered(pbt::Source& s, SB& sb, Sink<C>& sink, unsigned cap, bool exact)
{
    std::vector<C> accepted; unsigned sends = 0;
    unsigned steps = 1 + s.size(25);
    for (unsigned i = 0; i < steps; i++)
    {
        size_t before = accepted.size() - sink.got.size(), sent = sink.got.size();
        unsigned budget = sink.budget;
        switch (s.choose(10))
        {
            case 0: case 1: case 2: case 3:
            {
                C c = some<C>(s);
                LOG("sputc " << (unsigned long)c);
                bool ok = sb.sputc(c) != SB::traits_type::eof();
                if (ok) accepted.push_back(c);
                if (before < cap && (exact || before == 0)) CHECK(ok, "sputc refused although there is room");
                if (budget && !sink.fickle) CHECK(ok, "sputc refused although the sink takes more");
                if (before == cap && !budget) CHECK(!ok, "sputc accepted although nothing has room");
                break;
            }
            case 4: case 5: case 6:
            {
                unsigned k = (unsigned)s.choose(s.one_in(4) ? cap * 3 + 2 : cap + 2);
                std::unique_ptr<C[]> src(new C[k]);
                for (unsigned j = 0; j < k; j++) src[j] = some<C>(s);
                LOG("sputn " << k);
                long r = (long)sb.sputn(src.get(), k);
                CHECK(r >= 0 && r <= (long)k, "sputn count out of range");
                accepted.insert(accepted.end(), src.get(), src.get() + r);
                if (before + k <= cap && exact) CHECK_EQ(r, (long)k, "sputn took less than there is room for");
                if (before + k <= cap && exact) CHECK_EQ(sink.got.size(), sent, "wrote through before the buffer was full");
                if (!exact && before == 0 && k <= cap) CHECK_EQ(r, (long)k, "sputn into an empty buffer took less than it holds");
                if (exact && k > cap - before) CHECK(r >= (long)(cap - before), "sputn took less than there is room for");
                break;
            }
            case 7: case 8:
            {
                LOG("sync");
                int r = sb.pubsync();
                CHECK_EQ(r == 0, sink.got.size() == accepted.size(), "sync reports success");
                if (!sink.fickle) CHECK_EQ(sink.got.size(), sent + std::min<size_t>(before, budget), "what sync passed on");
                break;
            }
            default:
                sink.budget += (unsigned)s.choose(2 * cap + 2);
                LOG("sink now takes " << sink.budget);
        }
        CHECK(sink.got.size() <= accepted.size() && std::equal(sink.got.begin(), sink.got.end(), accepted.begin()), "the sink got something other than what was accepted, in order");
        CHECK(accepted.size() - sink.got.size() <= cap, "more is pending than the buffer holds");
        if (sink.got.size() > sent) sends++;
    }
    sink.fickle = false; sink.budget = 100000;
    LOG("final sync");
    CHECK_EQ(sb.pubsync(), 0, "final sync");
    CHECK(sink.got == accepted, "after a final sync the sink has exactly what was accepted");
    if (sends >= 1 && accepted.size() > 1) s.nontrivial();
}

template <class C>
void sink_for(pbt::Source& s, Sink<C>& k)
{
    k.src = &s; k.fickle = s.one_in(3); k.budget = s.one_in(2) ? 100000 : (unsigned)s.choose(12);
    LOG("sink takes " << k.budget << (k.fickle ? ", a little at a time" : ""));
}
template <class C, unsigned N>
void bip(pbt::Source& s)
{
    Sink<C> k; sink_for(s, k); SinkBuf<C> sink(&k);
    typedef estd::internal::out_bipbuf_streambuf<SinkBuf<C>&, N> SB;
    std::unique_ptr<SB> sb(new SB(sink));
    buffered<C>(s, *sb, k, N, false);
}
template <class C>
void bip_outside(pbt::Source& s)
{
    Sink<C> k; sink_for(s, k); SinkBuf<C> sink(&k);
    typedef estd::internal::out_bipbuf_streambuf<SinkBuf<C>&, 0> SB;
    unsigned n = 1 + (unsigned)s.choose(12);
    LOG("capacity " << n);
    std::unique_ptr<unsigned char[]> mem(new unsigned char[sizeof(bipbuf_t) + n * sizeof(C)]);
    bipbuf_t* raw = (bipbuf_t*)mem.get(); bipbuf_init(raw, n * sizeof(C));
    SB sb(raw, sink);
    buffered<C>(s, sb, k, n, false);
}

// a string of its own, in one piece
template <class C, unsigned Cap, bool Terminated>
void string_run(pbt::Source& s)
{
    typedef estd::layer1::basic_out_stringbuf<C, Cap, Terminated> SB;
    const unsigned cap = Terminated ? Cap - 1 : Cap;
    std::unique_ptr<SB> sb(new SB); std::vector<C> model; unsigned taken = 0;
    unsigned steps = 1 + s.size(12);
    for (unsigned i = 0; i < steps; i++)
    {
        if (s.flip())
        {
            C c = some<C>(s); if (!c) c = 1;
            LOG("sputc " << (unsigned long)c);
            CHECK_EQ(sb->sputc(c) != SB::traits_type::eof(), model.size() < cap, "sputc success");
            if (model.size() < cap) { model.push_back(c); taken++; }
        }
        else if (!s.one_in(6))
        {
            unsigned k = (unsigned)s.choose(Cap + 3);
            std::unique_ptr<C[]> src(new C[k]);
            for (unsigned j = 0; j < k; j++) { src[j] = some<C>(s); if (!src[j]) src[j] = 1; }
            LOG("sputn " << k);
            long want = (long)std::min<size_t>(k, cap - model.size());
            CHECK_EQ((long)sb->sputn(src.get(), k), want, "sputn count");
            model.insert(model.end(), src.get(), src.get() + want);
            if (want) taken++;
        }
        else { LOG("clear"); sb->clear(); model.clear(); }
        CHECK_EQ((size_t)sb->str().size(), model.size(), "size");
        for (size_t j = 0; j < model.size(); j++) { C c = *(sb->str().clock() + j); sb->str().cunlock(); CHECK(c == model[j], "content"); }
    }
    if (taken >= 2) s.nontrivial();
}
}

TARGET_FN("bip16_8", 3, (bip<char16_t, 8>));
TARGET_FN("bip16_3", 1, (bip<char16_t, 3>));
TARGET_FN("bip32_5", 2, (bip<char32_t, 5>));
TARGET_FN("bip16_outside", 1, bip_outside<char16_t>);
TARGET_FN("bip32_outside", 1, bip_outside<char32_t>);
TARGET_FN("string16_unterminated", 1, (string_run<char16_t, 8, false>));
TARGET_FN("string32_unterminated", 1, (string_run<char32_t, 6, false>));
