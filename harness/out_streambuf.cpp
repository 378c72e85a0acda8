// C22: output stream buffers pass on exactly what they accepted
#include <estd/streambuf.h>
#include <estd/string_view.h>
#include <estd/sstream.h>
#include <estd/ostream.h>
#include "pbt.h"
#include <cstring>
#include <string>
#include <memory>
#include <vector>

namespace {

// ---------------------------------------------------------------- fixed spans
template <class T>
void span_run(pbt::Source& s)
{
    typedef estd::internal::streambuf<estd::internal::impl::out_span_streambuf<T> > SB;
    unsigned n = s.one_in(10) ? 0 : (unsigned)s.choose(18);
    if (s.one_in(200)) n = 65500 + (unsigned)s.choose(80);
    std::unique_ptr<T[]> mem(new T[n]);
    std::vector<T> model(n);
    for (unsigned i = 0; i < n; i++) mem[i] = model[i] = (T)(i * 3 + 1);
    LOG("span of " << n);
    SB sb((T*)mem.get(), (typename SB::size_type)n);
    size_t pos = 0; unsigned writes = 0; unsigned next = 100;
    std::vector<T> buf(n + 40);
    unsigned steps = 1 + s.size(16);
    for (unsigned i = 0; i < steps; i++)
    {
        switch (s.choose(6))
        {
            case 0: case 1:
            {
                T c = (T)(s.one_in(5) ? ~0u : next++);
                LOG("sputc " << (unsigned long)c);
                auto r = sb.sputc(c);
                bool ok = pos < n;
                CHECK_EQ(r != SB::traits_type::eof(), ok, "sputc success");
                if (ok) { model[pos++] = c; writes++; }
                break;
            }
            case 2: case 3:
            {
                unsigned k = s.one_in(3) ? (unsigned)(n - pos) + (unsigned)s.choose(3) : (unsigned)s.choose(n < 30 ? n + 4 : 40);
                if (k > buf.size()) k = (unsigned)buf.size();
                for (unsigned j = 0; j < k; j++) buf[j] = (T)next++;
                // source of exactly k elements
                std::unique_ptr<T[]> src(new T[k]);
                std::copy(buf.begin(), buf.begin() + k, src.get());
                LOG("sputn " << k);
                long r = (long)sb.sputn(src.get(), k);
                long want = (long)std::min<size_t>(k, n - pos);
                CHECK_EQ(r, want, "sputn count");
                for (long j = 0; j < want; j++) model[pos++] = src[j];
                if (want) writes++;
                break;
            }
            case 4:
            {
                size_t to = s.one_in(3) ? (s.flip() ? 0 : n) : s.choose(n + 1);
                unsigned way = (unsigned)s.choose(4);
                LOG("seek to " << to << " way " << way);
                long r;
                if (way == 0) r = (long)sb.pubseekoff((long)to, estd::ios_base::beg, estd::ios_base::out);
                else if (way == 1) r = (long)sb.pubseekoff((long)to - (long)pos, estd::ios_base::cur);
                else if (way == 2) r = (long)sb.pubseekoff((long)to - (long)n, estd::ios_base::end, estd::ios_base::out);
                else r = (long)sb.pubseekoff((long)to, estd::ios_base::beg);
                CHECK_EQ(r, (long)to, "position reported by a seek");
                pos = to;
                break;
            }
            default:
            {
                LOG("seek for reading");
                long r = (long)sb.pubseekoff(0, estd::ios_base::beg, estd::ios_base::in);
                CHECK_EQ(r, -1L, "an output buffer has no read position");
                break;
            }
        }
        CHECK_EQ((size_t)sb.pos(), pos, "pos");
        CHECK_EQ((long)(sb.pptr() - sb.pbase()), (long)pos, "pptr");
        CHECK_EQ((long)(sb.epptr() - sb.pbase()), (long)n, "epptr");
        CHECK(n == 0 || !memcmp(mem.get(), model.data(), n * sizeof(T)), "content");
    }
    if (writes >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- strings
template <class SB, unsigned Cap>
void string_run(pbt::Source& s)
{
    std::unique_ptr<SB> psb(new SB); SB& sb = *psb;
    std::string model; unsigned taken = 0, refused = 0;
    unsigned steps = 1 + s.size(12);
    for (unsigned i = 0; i < steps; i++)
    {
        switch (s.choose(8))
        {
            case 0: case 1: case 2:
            {
                char c = s.one_in(6) ? (char)0xff : s.one_in(6) ? (char)(1 + s.choose(255)) : (char)('a' + s.choose(26));
                LOG("sputc " << (int)c);
                auto r = sb.sputc(c);
                CHECK_EQ(r != SB::traits_type::eof(), model.size() < Cap, "sputc success");
                if (model.size() < Cap) { model += c; taken++; } else refused++;
                break;
            }
            case 3: case 4: case 5: case 6:
            {
                unsigned k = s.one_in(3) ? Cap - (unsigned)model.size() + (unsigned)s.choose(3) : (unsigned)s.choose(Cap + 3);
                std::string t; for (unsigned j = 0; j < k; j++) t += s.one_in(5) ? (char)(1 + s.choose(255)) : (char)('A' + s.choose(26));
                std::unique_ptr<char[]> src(new char[k]); memcpy(src.get(), t.data(), k);
                LOG("sputn " << pbt::quote(t));
                long r = (long)sb.sputn(src.get(), k);
                long want = (long)std::min<size_t>(k, Cap - model.size());
                CHECK_EQ(r, want, "sputn count");
                model += t.substr(0, want);
                if (want) taken++;
                if (want < (long)k) refused++;
                break;
            }
            default: LOG("clear"); sb.clear(); model.clear();
        }
        CHECK_EQ((size_t)sb.str().size(), model.size(), "size");
        CHECK(sb.str() == model.c_str() && !memcmp(sb.str().data(), model.data(), model.size()), "content");
        { const SB& c = sb; auto v = c.view(); CHECK_EQ((size_t)v.size(), model.size(), "size of the view"); CHECK(!memcmp(v.data(), model.data(), model.size()), "view"); }
        CHECK_EQ((long)sb.pubseekoff(0, estd::ios_base::cur, estd::ios_base::out), (long)model.size(), "tell");
        CHECK_EQ(sb.pubsync(), 0, "sync");
    }
    if (taken >= 2) s.nontrivial();
    if (refused) s.label("refused some");
}

// ---------------------------------------------------------------- buffered, over a sink of limited appetite
struct Sink
{
    std::string got; unsigned budget; pbt::Source* src; bool fickle;
};
struct SinkImpl : estd::internal::impl::streambuf_base<estd::char_traits<char> >
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char> > base;
    typedef base::traits_type traits_type; typedef char char_type; typedef base::int_type int_type;
    Sink* k;
    explicit SinkImpl(Sink* k) : k(k) {}
    estd::streamsize xsputn(const char* p, estd::streamsize n)
    {
        CHECK(n >= 0, "negative count given to the sink");
        unsigned room = k->budget;
        if (k->fickle) { unsigned lim = (unsigned)k->src->choose(6); if (lim < room) room = lim; }
        if ((unsigned)n > room) n = room;
        k->got.append(p, (size_t)n); k->budget -= (unsigned)n;
        return n;
    }
    int_type sputc(char c) { char b = c; return xsputn(&b, 1) ? traits_type::to_int_type(c) : traits_type::eof(); }
};
typedef estd::detail::streambuf<SinkImpl> SinkBuf;

template <class SB>
void buffered(pbt::Source& s, SB& sb, Sink& sink, unsigned cap, bool exact)
{
    std::string accepted; unsigned sends = 0;
    unsigned steps = 1 + s.size(25);
    for (unsigned i = 0; i < steps; i++)
    {
        size_t before = accepted.size() - sink.got.size(), sent = sink.got.size();
        unsigned budget = sink.budget;
        switch (s.choose(10))
        {
            case 0: case 1: case 2: case 3:
            {
                char c = s.one_in(4) ? (s.flip() ? (char)0xff : (char)0) : s.one_in(6) ? (char)s.bits(8) : (char)('a' + s.choose(26));
                LOG("sputc " << (int)c);
                auto r = sb.sputc(c);
                bool ok = r != SB::traits_type::eof();
                if (ok) accepted += c;
                if (before < cap && (exact || before == 0)) CHECK(ok, "sputc refused although there is room");
                if (budget && !sink.fickle) CHECK(ok, "sputc refused although the sink takes more");
                if (before == cap && !budget) CHECK(!ok, "sputc accepted although nothing has room");
                if (exact && before < cap) CHECK_EQ(sink.got.size(), sent, "wrote through before the buffer was full");
                break;
            }
            case 4: case 5: case 6:
            {
                unsigned k = (unsigned)s.choose(s.one_in(4) ? cap * 3 + 2 : cap + 2);
                std::string t; for (unsigned j = 0; j < k; j++) t += s.one_in(8) ? (char)0xff : s.one_in(8) ? (char)s.bits(8) : (char)('A' + s.choose(26));
                std::unique_ptr<char[]> src(new char[k]); memcpy(src.get(), t.data(), k);
                LOG("sputn " << pbt::quote(t));
                long r = (long)sb.sputn(src.get(), k);
                CHECK(r >= 0 && r <= (long)k, "sputn count out of range");
                accepted += t.substr(0, (size_t)r);
                if (before + k <= cap && exact) CHECK_EQ(r, (long)k, "sputn took less than there is room for");
                if (before + k <= cap && exact) CHECK_EQ(sink.got.size(), sent, "wrote through before the buffer was full");
                if (exact && k > cap - before) CHECK(r >= (long)(cap - before), "sputn took less than there is room for");
                if (k && budget && !sink.fickle) CHECK(r > 0, "sputn took nothing although the sink takes more");
                if (exact && budget >= 3 * cap + 2 && !sink.fickle && k <= cap) CHECK_EQ(r, (long)k, "sputn short although the sink takes everything");
                break;
            }
            case 7: case 8:
            {
                LOG("sync");
                int r = sb.pubsync();
                CHECK_EQ(r == 0, sink.got.size() == accepted.size(), "sync reports success");
                if (!sink.fickle) CHECK_EQ(sink.got.size(), sent + std::min<size_t>(before, budget), "what sync passed on");
                break;
            }
            default:
                sink.budget += (unsigned)s.choose(2 * cap + 2);
                LOG("sink now takes " << sink.budget);
        }
        CHECK(sink.got.size() <= accepted.size() && !memcmp(sink.got.data(), accepted.data(), sink.got.size()), "the sink got something other than what was accepted, in order");
        CHECK(accepted.size() - sink.got.size() <= cap, "more is pending than the buffer holds");
        if (sink.got.size() > sent) sends++;
    }
    sink.fickle = false; sink.budget = 100000;
    LOG("final sync");
    CHECK_EQ(sb.pubsync(), 0, "final sync");
    CHECK(sink.got == accepted, "after a final sync the sink has exactly what was accepted");
    if (sends >= 1 && accepted.size() > 1) s.nontrivial();
    if (accepted.size() > cap) s.label("more than one buffer");
}
void sink_for(pbt::Source& s, Sink& k)
{
    k.src = &s; k.fickle = s.one_in(3); k.budget = s.one_in(2) ? 100000 : (unsigned)s.choose(12);
    LOG("sink takes " << k.budget << (k.fickle ? ", a little at a time" : ""));
}
template <unsigned N>
void stringbuffered(pbt::Source& s)
{
    Sink k; sink_for(s, k); SinkBuf sink(&k);
    typedef estd::internal::out_buffered_stringbuf<SinkBuf&, N> SB;
    std::unique_ptr<SB> sb(new SB(sink));
    buffered(s, *sb, k, N, true);
}
template <unsigned N>
void bipbuffered(pbt::Source& s)
{
    Sink k; sink_for(s, k); SinkBuf sink(&k);
    typedef estd::internal::out_bipbuf_streambuf<SinkBuf&, N> SB;
    std::unique_ptr<SB> sb(new SB(sink));
    buffered(s, *sb, k, N, false);
}
void bipbuffered3(pbt::Source& s)
{
    Sink k; sink_for(s, k); SinkBuf sink(&k);
    typedef estd::internal::out_bipbuf_streambuf<SinkBuf&, 0> SB;
    unsigned n = 1 + (unsigned)s.choose(16);
    LOG("capacity " << n);
    std::unique_ptr<unsigned char[]> mem(new unsigned char[sizeof(bipbuf_t) + n]);
    bipbuf_t* raw = (bipbuf_t*)mem.get(); bipbuf_init(raw, n);
    SB sb(raw, sink);
    buffered(s, sb, k, n, false);
}
typedef estd::layer1::basic_out_stringbuf<char, 8> OS8;
typedef estd::layer1::basic_out_stringbuf<char, 8, false> OS8n;
typedef estd::layer1::stringbuf<20> SB20;
void os8(pbt::Source& s) { string_run<OS8, 7>(s); }
void os8n(pbt::Source& s) { string_run<OS8n, 8>(s); }
void sb20(pbt::Source& s) { string_run<SB20, 19>(s); }

// ---------------------------------------------------------------- positions, as seen through the stream
void stream_seek(pbt::Source& s)
{
    typedef estd::internal::streambuf<estd::internal::impl::out_span_streambuf<char> > SB;
    typedef estd::detail::basic_ostream<SB> OS;
    const size_t n = 1 + s.choose(20);
    std::unique_ptr<char[]> mem(new char[n]); std::string model(n, '.');
    memcpy(mem.get(), model.data(), n);
    OS os((char*)mem.get(), (typename SB::size_type)n);
    size_t pos = 0; unsigned wrote = 0, moved = 0; bool bad = false;
    unsigned steps = 1 + s.size(12);
    for (unsigned i = 0; i < steps && !bad; i++)
    {
        switch (s.choose(4))
        {
            case 0: { char c = (char)('a' + s.choose(26)); LOG("put " << c); CHECK(&os.put(c) == &os, "put gives the stream"); if (pos < n) { model[pos++] = c; wrote++; } else bad = true; break; }
            case 1: { std::string t = s.text("ABC", 5); LOG("write " << t); CHECK(&os.write(t.data(), (estd::streamsize)t.size()) == &os, "write gives the stream");
                size_t k = std::min(t.size(), n - pos); model.replace(pos, k, t, 0, k); pos += k; if (k) wrote++; if (k < t.size()) bad = true; break; }
            default: { size_t to = s.choose(n + 1); unsigned way = (unsigned)s.choose(3); LOG("seekp to " << to << " way " << way);
                OS& r = way == 0 ? os.seekp((long)to, estd::ios_base::beg) : way == 1 ? os.seekp((long)to - (long)pos, estd::ios_base::cur) : os.seekp((long)to - (long)n, estd::ios_base::end);
                CHECK(&r == &os, "seekp gives the stream"); if (to != pos) moved++; pos = to; break; }
        }
        CHECK_EQ(os.good(), !bad, "state");
        CHECK_EQ((size_t)os.rdbuf()->pos(), pos, "position");
        CHECK(!memcmp(mem.get(), model.data(), n), "content");
    }
    if (wrote >= 2 && moved) s.nontrivial();
}

}

#ifndef NOSTD
TARGET_FN("span_bytes", 2, span_run<unsigned char>);
TARGET_FN("span_words", 2, span_run<uint32_t>);
#endif
TARGET_FN("span_char", 2, span_run<char>);
TARGET_FN("stream_seek", 1, stream_seek);
TARGET_FN("string_8", 1, os8);
TARGET_FN("string_8_unterminated", 1, os8n);
TARGET_FN("string_20_in_out", 1, sb20);
TARGET_FN("buffered_string_8", 3, stringbuffered<8>);
TARGET_FN("buffered_string_1", 1, stringbuffered<1>);
TARGET_FN("buffered_bip_8", 3, bipbuffered<8>);
TARGET_FN("buffered_bip_3", 1, bipbuffered<3>);
TARGET_FN("buffered_bip_outside", 2, bipbuffered3);
