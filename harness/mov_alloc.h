// Handle-based memory: what a handle stands for may move whenever it is not locked.
#pragma once
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <vector>
#include <estd/memory.h>
#include <estd/internal/container/locking_accessor.h>
#include <estd/internal/container/iterator.h>

namespace mov {

struct Block { char* p; size_t bytes; int locks; bool live; };

// Every block gets a new address when its last lock is let go of, and again when the first one is taken, so that
// whoever holds on to an address without a lock touches freed memory.
struct Arena
{
    std::vector<Block> blocks; unsigned moves = 0, faults = 0; const char* fault = nullptr; long held = 0; bool lenient = false;
    int nothing = 0; long filler[2] = {0, 0}; // locks of the handle which stands for no memory
    void bad(const char* w) { faults++; if (!fault) fault = w; }
    Block* at(int h, const char* w) { if (h < 0 || (size_t)h >= blocks.size() || !blocks[h].live) { bad(w); return nullptr; } return &blocks[h]; }
    int take(size_t bytes) { blocks.push_back(Block{(char*)malloc(bytes ? bytes : 1), bytes, 0, true}); memset(blocks.back().p, 0xA5, bytes); return (int)blocks.size() - 1; }
    void move(Block& b) { char* q = (char*)malloc(b.bytes ? b.bytes : 1); memcpy(q, b.p, b.bytes); free(b.p); b.p = q; moves++; }
    char* lock(int h) { if (h == -1) { nothing++; held++; return (char*)filler; } Block* b = at(h, "lock of no memory"); if (!b) return (char*)filler; if (b->locks++ == 0) move(*b); held++; return b->p; }
    void unlock(int h)
    {
        if (h == -1) { if (nothing == 0) bad("unlock of what is not locked"); else { nothing--; held--; } return; }
        Block* b = at(h, "unlock of no memory"); if (!b) return;
        if (b->locks == 0) { bad("unlock of what is not locked"); return; }
        held--; if (--b->locks == 0) move(*b);
    }
    int resize(int h, size_t bytes)
    {
        Block* b = at(h, "reallocation of no memory"); if (!b) return h;
        if (b->locks && !lenient) bad("reallocated while locked");
        char* q = (char*)malloc(bytes ? bytes : 1); memset(q, 0xA5, bytes); memcpy(q, b->p, b->bytes < bytes ? b->bytes : bytes); free(b->p); b->p = q; b->bytes = bytes; moves++; return h;
    }
    void drop(int h) { Block* b = at(h, "free of no memory"); if (!b) return; if (b->locks) bad("freed while locked"); free(b->p); b->live = false; }
    void reset() { for (Block& b : blocks) if (b.live) free(b.p); blocks.clear(); moves = faults = 0; fault = nullptr; held = 0; nothing = 0; lenient = false; }
};
inline Arena& arena() { static Arena a; return a; }

struct Where { int h; ptrdiff_t o;
    Where(int h, ptrdiff_t o) : h(h), o(o) {}
    int handle() const { return h; } ptrdiff_t offset() const { return o; }
    Where& operator+=(ptrdiff_t n) { o += n; return *this; } Where& operator-=(ptrdiff_t n) { o -= n; return *this; }
    ptrdiff_t operator-(const Where& w) const { return o - w.o; }
    bool operator<(const Where& w) const { return o < w.o; } bool operator>(const Where& w) const { return o > w.o; } bool operator>=(const Where& w) const { return o >= w.o; }
    bool operator==(const Where& w) const { return h == w.h && o == w.o; } };

// locks once, however often it is asked to, and lets go of what it locked only
template <class T> struct At
{
    typedef T value_type; typedef Where& offset_type; typedef const Where& const_offset_type; typedef T& locked_type; typedef const T& const_locked_type;
    Where w; mutable bool held = false;
    template <class A> At(A&, const Where& w) : w(w) {}
    At(const At& o) : w(o.w) {}
    At& operator=(const At& o) { unlock(); w = o.w; return *this; }
    ~At() { unlock(); }
    Where& offset() { return w; } const Where& offset() const { return w; }
    T& lock() const { T* p = held ? (T*)arena().blocks[w.h].p : (T*)arena().lock(w.h); held = true; return p[w.o]; }
    void unlock() const { if (held) { held = false; arena().unlock(w.h); } }
};

template <class T> class Alloc
{
public:
    typedef void is_locking_tag; typedef void is_stateful_tag; int id = 0;
    typedef T value_type; typedef T* pointer; typedef const void* const_void_pointer; typedef int handle_type; typedef size_t size_type;
    typedef Where handle_with_offset;
    typedef estd::internal::locking_accessor<At<T>> accessor;
    typedef estd::internal::locking_iterator<Alloc, accessor> iterator;
    static constexpr bool is_locking() { return true; }
    static constexpr bool is_stateful() { return true; }
    static constexpr bool is_singular() { return false; }
    static constexpr bool has_size() { return false; }
    static constexpr handle_type invalid() { return -1; }
    static unsigned max_size() { return 99999; }
    T& lock(handle_type h, size_t pos = 0, size_t = 0) const { T* p = (T*)arena().lock(h); return h == -1 ? *p : p[pos]; }
    T& lock(const Where& h, size_t pos = 0, size_t = 0) const { return ((T*)arena().lock(h.h))[h.o + pos]; }
    const T& clock(handle_type h, size_t pos = 0, size_t = 0) const { return lock(h, pos); }
    const T& clock(const Where& h, size_t pos = 0, size_t = 0) const { return lock(h, pos); }
    void unlock(handle_type h) const { arena().unlock(h); }
    void cunlock(handle_type h) const { arena().unlock(h); }
    handle_type allocate(size_t n) { return arena().take(n * sizeof(T)); }
    void deallocate(handle_type h, size_t) { arena().drop(h); }
    handle_type reallocate(handle_type h, size_t n) { return arena().resize(h, n * sizeof(T)); }
    Where offset(handle_type h, ptrdiff_t n) const { return Where(h, n); }
};

}
