// Memory pools against a table of blocks: handed out once, disjoint, intact, returned in any order.
#include <estd/memory.h>
#include "pbt.h"
#include <cstring>
#include <new>

namespace {
using pbt::Life;
namespace mem = estd::internal::memory::v1;

// ---- raw blocks ----
struct Held { unsigned char* p; unsigned char fill; int h; };

template <class P> void look(P& pool, std::vector<Held>& held, unsigned blocks, unsigned width)
{
    CHECK_EQ(pool.available_blocks(), blocks - (unsigned)held.size(), "available_blocks()");
    CHECK_EQ(pool.full(), held.size() == blocks, "full()");
    for (auto& x : held)
        for (unsigned i = 0; i < width; i++)
            if (x.p[i] != x.fill) CHECK_EQ((int)x.p[i], (int)x.fill, "byte " + std::to_string(i) + " of the block with handle " + std::to_string(x.h));
}

template <unsigned width, unsigned blocks> void raw(pbt::Source& s)
{
    typedef mem::pool<width, blocks> P;
    alignas(P) static unsigned char room[sizeof(P) + 64];
    memset(room, 0xC3, sizeof room);
    P& pool = *new (room) P;
    CHECK_EQ(P::max_blocks(), blocks, "max_blocks()");
    CHECK_EQ(P::block_size(), width, "block_size()");
    CHECK_EQ(pool.available_blocks(), blocks, "blocks available at first");
    std::vector<Held> held;
    unsigned char* where[blocks] = {};   // address each handle stands for, once seen
    bool drained = false, reused = false, out_of_order = false, refused = false;
    unsigned steps = 1 + s.size(blocks < 16 ? 60 : 500);
    bool filling = true;
    for (unsigned k = 0; k < steps; k++)
    {
        if (s.one_in(blocks < 16 ? 8 : 100)) filling = !filling;
        if (s.choose(16) < (filling ? blocks < 16 ? 12u : 15u : 3u))
        {
            auto p = (unsigned char*)pool.alloc();
            LOG("alloc -> " << (p ? std::to_string(p - room) : std::string("null")) << " with " << held.size() << " held");
            if (held.size() == blocks) { CHECK(p == nullptr, "a pool with every block handed out gave one more"); refused = true; }
            else
            {
                CHECK(p != nullptr, "alloc() failed with blocks to spare");
                CHECK(p >= room && p + width <= room + sizeof(P), "the block lies outside the pool");
                CHECK((uintptr_t)p % alignof(void*) == 0, "the block is not aligned for a pointer");
                for (auto& x : held) CHECK(p + width <= x.p || x.p + width <= p, "the block overlaps one still held");
                int h = pool.to_handle(p);
                CHECK(h >= 0 && h < (int)blocks, "handle out of range");
                CHECK(pool.from_handle((int8_t)h) == (void*)p, "from_handle(to_handle()) is another block");
                for (auto& x : held) CHECK(x.h != h, "two blocks held share a handle");
                if (where[h]) { CHECK(where[h] == p, "a handle came to stand for another address"); reused = true; }
                where[h] = p;
                Held x{p, (unsigned char)s.choose(256), h};
                memset(p, x.fill, width);
                held.push_back(x);
                if (held.size() == blocks) drained = true;
            }
        }
        else if (!held.empty())
        {
            unsigned i = (unsigned)s.choose((unsigned)held.size());
            if (i + 1 != held.size()) out_of_order = true;
            LOG("free handle " << held[i].h);
            void* p = s.flip() ? (void*)held[i].p : pool.from_handle((int8_t)held[i].h);
            held.erase(held.begin() + i);
            pool.free(p);
        }
        look(pool, held, blocks, width);
    }
    for (unsigned i = sizeof(P); i < sizeof room; i++) CHECK_EQ((int)room[i], 0xC3, "byte beyond the pool");
    if (drained) s.label("drained");
    if (refused) s.label("refused when full");
    if (reused && (out_of_order || blocks == 1)) s.nontrivial();
    // whatever happened, every block is there again once all are back
    for (auto& x : held) pool.free(x.p);
    std::vector<Held> none;
    look(pool, none, blocks, width);
    unsigned n = 0;
    while (pool.alloc() && n <= blocks) n++;
    CHECK_EQ(n, blocks, "blocks that can be handed out again");
    pool.~P();
}
TARGET_FN("pool_1x1", 2, (raw<1, 1>));
TARGET_FN("pool_3x5", 3, (raw<3, 5>));
TARGET_FN("pool_8x16", 3, (raw<8, 16>));
TARGET_FN("pool_24x3", 3, (raw<24, 3>));
TARGET_FN("pool_61x7", 3, (raw<61, 7>));
TARGET_FN("pool_13x127", 2, (raw<13, 127>));

// ---- typed ----
struct Wide : pbt::Tracked { long tail[3]; Wide(int v, long t) : pbt::Tracked(v) { for (auto& x : tail) x = t; } Wide(int v) : Wide(v, ~(long)v) {} };
// leaves nothing of its storage as it was
struct Scribbler : pbt::Tracked { void* tail[2]; Scribbler(int v) : pbt::Tracked(v) { for (auto& x : tail) x = this; } ~Scribbler() { scrub(this); } static void __attribute__((noinline)) scrub(Scribbler* p) { volatile unsigned char* c = (volatile unsigned char*)p->tail; for (size_t i = 0; i < sizeof p->tail; i++) c[i] = 0xEE; volatile int* a = &p->v; *a = -0x11111112; } };
template <class T> T* made(mem::typed_pool<T, 5>& pool, int v) { return pool.emplace(v); }

template <class T> void intact(T*, int) {}
void intact(Wide* w, int v) { for (long x : w->tail) CHECK_EQ(x, ~(long)v, "tail of the object"); }

template <class T> void typed(pbt::Source& s)
{
    Life::reset();
    constexpr unsigned blocks = 5;
    typedef mem::typed_pool<T, blocks> P;
    alignas(P) static unsigned char room[sizeof(P)];
    memset(room, 0xC3, sizeof room);
    P& pool = *new (room) P;
    struct Obj { T* p; int v; int h; };
    std::vector<Obj> held;
    bool refused = false, threw = false, reused = false; std::vector<T*> seen;
    unsigned steps = 1 + s.size(40);
    for (unsigned k = 0; k < steps; k++)
    {
        if (s.choose(5) < 3)
        {
            int v = (int)s.choose(1000);
            bool inject = s.one_in(5);
            T* p = nullptr; bool thrown = false;
            LOG("emplace " << v << (inject ? " throwing" : "") << " with " << held.size() << " held");
            if (inject) Life::throw_after = 0;
            try { p = made(pool, v); } catch (pbt::Injected&) { thrown = true; }
            Life::throw_after = -1;
            if (held.size() == blocks) { CHECK(p == nullptr && !thrown, "a full pool made another object"); refused = true; }
            else if (inject) { CHECK(thrown, "the exception was lost"); threw = true; }
            else
            {
                CHECK(p != nullptr, "emplace() failed with blocks to spare");
                CHECK((uintptr_t)p % alignof(T) == 0, "the object is misaligned");
                for (auto& x : held) CHECK((char*)p + sizeof(T) <= (char*)x.p || (char*)x.p + sizeof(T) <= (char*)p, "the object overlaps a live one");
                int h = pool.to_handle(p);
                CHECK(h >= 0 && h < (int)blocks, "handle out of range");
                CHECK(pool.from_handle((int8_t)h) == p, "from_handle(to_handle()) is another object");
                for (T* q : seen) if (q == p) reused = true;
                seen.push_back(p);
                held.push_back({p, v, h});
            }
        }
        else if (!held.empty())
        {
            unsigned i = (unsigned)s.choose((unsigned)held.size());
            LOG("erase handle " << held[i].h);
            T* p = s.flip() ? held[i].p : pool.from_handle((int8_t)held[i].h);
            held.erase(held.begin() + i);
            pool.erase(p);
        }
        CHECK_EQ(Life::live(), (long)held.size(), "objects alive");
        CHECK_EQ(pool.available_blocks(), blocks - (unsigned)held.size(), "available_blocks()");
        CHECK_EQ(pool.full(), held.size() == blocks, "full()");
        for (auto& x : held) { CHECK_EQ(x.p->v, x.v, "value of the object with handle " + std::to_string(x.h)); CHECK(!x.p->moved, "the object was moved from"); intact(x.p, x.v); }
    }
    if (threw) s.label("a constructor threw");
    if (refused) s.label("refused when full");
    if (reused) s.nontrivial();
    for (auto& x : held) pool.erase(x.p);
    CHECK_EQ(Life::live(), 0L, "objects alive at the end");
    CHECK_EQ(pool.available_blocks(), blocks, "blocks available at the end");
    pool.~P();
}
TARGET_FN("typed_pool_tracked", 3, typed<pbt::Tracked>);
TARGET_FN("typed_pool_wide", 3, typed<Wide>);
TARGET_FN("typed_pool_scribbler", 2, typed<Scribbler>);
TARGET_FN("typed_pool_moveonly", 2, typed<pbt::MoveOnly>);
}
