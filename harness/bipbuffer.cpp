// C21: the bip buffer is a byte queue in fixed storage that hands out contiguous runs
#include <estd/internal/bip/buffer.h>
#include "pbt.h"
#include <deque>
#include <memory>
#include <cstring>
#include <cstdlib>

namespace {

struct Cell { unsigned off; unsigned char v; };

// what a bip buffer of n bytes holds: the bytes in order, each with the place it was put
struct Model
{
    unsigned n; std::deque<Cell> q;
    unsigned run() const
    {
        unsigned r = 0;
        while (r < q.size() && q[r].off == q[0].off + r) r++;
        return r;
    }
    // the room an offer has: one contiguous piece
    unsigned room() const
    {
        if (q.empty()) return n;
        unsigned r = run(), lo = q[0].off, hi = lo + r;
        if (r == q.size()) { unsigned back = n - hi; return back > lo ? back : lo; }
        return lo - (q.back().off + 1);
    }
};

template <class B>
void drive(pbt::Source& s, B& b, const unsigned char* base, unsigned n)
{
    Model m; m.n = n;
    unsigned char next = 1;
    unsigned steps = 1 + s.size(40), offers = 0, polls = 0, wraps = 0;
    std::vector<unsigned char> buf(n * 2 + 16);
    auto put = [&](unsigned k, const unsigned char* at)
    {
        unsigned off = (unsigned)(at - base);
        CHECK(k == 0 || off + k <= n, "bytes were put outside the buffer");
        if (!m.q.empty() && off < m.q[0].off) wraps++;
        for (unsigned i = 0; i < k; i++)
        {
            for (auto& c : m.q) CHECK(c.off != off + i, "a byte was put over one not read yet");
            m.q.push_back(Cell{off + i, buf[i]});
        }
    };
    for (unsigned i = 0; i < steps; i++)
    {
        switch (s.choose(10))
        {
            case 0: case 1: case 2: case 3:
            {
                unsigned room = m.room(), k = s.one_in(3) ? room : s.one_in(4) ? room + 1 + (unsigned)s.choose(3) : (unsigned)s.choose(n + 2);
                for (unsigned j = 0; j < k && j < buf.size(); j++) buf[j] = next++;
                if (k > buf.size()) k = (unsigned)buf.size();
                LOG("offer " << k);
                unsigned char* at = b.offer_begin();
                int r = b.offer(buf.data(), (int)k);
                CHECK_EQ(r, k <= room ? (int)k : 0, "what offer says it took");
                if (r) { put((unsigned)r, at); offers++; }
                break;
            }
            case 4:
            {
                unsigned room = m.room(), k = (unsigned)s.choose(room + 1);
                unsigned char* at = b.offer_begin();
                for (unsigned j = 0; j < k; j++) { buf[j] = next++; at[j] = buf[j]; }
                LOG("write " << k << " in place");
                b.offer_end(k);
                put(k, at); offers++;
                break;
            }
            case 5: case 6: case 7:
            {
                unsigned run = m.run(), k = s.one_in(3) ? run : s.one_in(5) ? run + 1 + (unsigned)s.choose(4) : (unsigned)s.choose(run + 1);
                LOG("poll " << k);
                const unsigned char* p = b.poll((int)k);
                if (m.q.empty() || k > run) { CHECK(p == nullptr, "poll gave more than can be read"); break; }
                CHECK(p != nullptr, "poll refused what can be read");
                for (unsigned j = 0; j < k; j++) { CHECK_EQ((int)p[j], (int)m.q.front().v, "byte polled"); m.q.pop_front(); }
                if (k) polls++;
                break;
            }
            default:
            {
                unsigned run = m.run(), k = s.one_in(3) ? run : (unsigned)s.choose(n + 3);
                LOG("peek " << k);
                const unsigned char* p = b.peek((int)k);
                if (m.q.empty() || k > run) { CHECK(p == nullptr, "peek gave more than can be read"); break; }
                CHECK(p != nullptr, "peek refused what can be read");
                for (unsigned j = 0; j < k; j++) CHECK_EQ((int)p[j], (int)m.q[j].v, "byte peeked");
                break;
            }
        }
        CHECK_EQ(b.used(), (unsigned)m.q.size(), "used");
        CHECK_EQ(b.unused(), m.room(), "unused");
        CHECK_EQ(bipbuf_is_empty(b.native()) != 0, m.q.empty(), "is_empty");
        CHECK_EQ(bipbuf_size(b.native()), (int)n, "size");
    }
    // drain: everything offered comes out, in order
    while (!m.q.empty())
    {
        unsigned run = m.run();
        const unsigned char* p = b.poll((int)run);
        CHECK(p != nullptr, "poll refused what can be read while draining");
        for (unsigned j = 0; j < run; j++) { CHECK_EQ((int)p[j], (int)m.q.front().v, "byte drained"); m.q.pop_front(); }
        CHECK_EQ(b.used(), (unsigned)m.q.size(), "used while draining");
    }
    CHECK(b.peek() == nullptr, "drained buffer still offers bytes");
    CHECK_EQ(b.unused(), n, "a drained buffer has all its room");
    if (wraps) s.label("wrapped");
    if (offers >= 2 && polls >= 1) s.nontrivial();
}

template <unsigned N>
void layer1_run(pbt::Source& s)
{
    typedef estd::layer1::bipbuf<N> B;
    // as a member behind and ahead of others
    struct Holder { char ahead; B b; unsigned char behind[3]; };
    std::unique_ptr<Holder> h(new Holder); h->ahead = 'a'; for (auto& c : h->behind) c = 0xA5;
    CHECK_EQ((uintptr_t)h->b.native() % alignof(bipbuf_t), (uintptr_t)0, "alignment of the control block");
    drive(s, h->b, h->b.offer_begin(), N);
    CHECK_EQ(h->ahead, 'a', "the member ahead"); for (auto c : h->behind) CHECK_EQ((int)c, 0xA5, "the member behind");
}
void layer3_run(pbt::Source& s)
{
    unsigned n = 1 + (unsigned)s.choose(s.one_in(6) ? 300 : 14);
    LOG("capacity " << n);
    void* mem = malloc(sizeof(bipbuf_t) + n);
    bipbuf_t* raw = (bipbuf_t*)mem;
    {
        estd::layer3::bipbuf b(raw, (int)n);
        drive(s, b, raw->data, n);
    }
    free(mem);
}
// the plain C interface, with storage of its own
struct Owned
{
    bipbuf_t* p;
    unsigned char* offer_begin() { return estd::internal::offer_begin(*p); }
    void offer_end(unsigned n) { estd::internal::offer_end(*p, n); }
    int offer(const unsigned char* d, int n) { return bipbuf_offer(p, d, n); }
    const unsigned char* peek(int n = 0) { return bipbuf_peek(p, n); }
    const unsigned char* poll(int n) { return bipbuf_poll(p, n); }
    unsigned used() { return bipbuf_used(p); }
    unsigned unused() { return bipbuf_unused(p); }
    bipbuf_t* native() { return p; }
};
void c_run(pbt::Source& s)
{
    unsigned n = 1 + (unsigned)s.choose(20);
    LOG("capacity " << n);
    Owned o{bipbuf_new(n)};
    CHECK(o.p != nullptr, "bipbuf_new");
    drive(s, o, o.p->data, n);
    bipbuf_free(o.p);
}

}

TARGET_FN("layer1_4", 2, layer1_run<4>);
TARGET_FN("layer1_9", 2, layer1_run<9>);
TARGET_FN("layer1_1", 1, layer1_run<1>);
TARGET_FN("layer3_any", 3, layer3_run);
TARGET_FN("c_interface", 2, c_run);
