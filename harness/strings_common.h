// The families of estd strings, behind one shape, so every string property runs over all of them.
#pragma once
#include "pbt.h"
#include <memory>
#include <string>
#include <estd/string.h>
#include <estd/string_view.h>
#include "grow_alloc.h"

namespace strs {

// characters with values above 127 included: content is opaque to the containers
static const char ALPHA[] = "abAB \xe9\xff";

inline std::string gen(pbt::Source& s, unsigned max)
{
    unsigned n = s.size(max); std::string r;
    while (n--)
    {
        if (!s.one_in(4)) r += s.pick("ab");
        else if (s.one_in(4)) r += s.flip() ? s.pick(ALPHA) : (char)s.range(1, 255);
        else r += s.pick("cdxyz0189.,-");
    }
    return r;
}

// the same for texts whose length is kept apart from them, which may hold any character including NUL
inline std::string gen_any(pbt::Source& s, unsigned max)
{
    std::string r = gen(s, max);
    if (s.one_in(4)) for (unsigned k = 1 + s.choose(3); k-- && !r.empty(); ) r[s.flip() ? r.size() - 1 : s.choose(r.size())] = 0;
    return r;
}

template <class S> std::string content(const S& x)
{
    const char* p = x.clock(); std::string r(p, x.size()); x.cunlock(); return r;
}

// ---- string inside the object
template <unsigned N, bool nullterm> struct L1
{
    static constexpr bool fixed = true;
    typedef estd::layer1::basic_string<char, N, nullterm> type;
    static constexpr bool terminated = nullterm;
    static constexpr unsigned cap = N - (nullterm ? 1 : 0);
    std::unique_ptr<type> p;
    explicit L1(const std::string& init) : p(new type) { if (!init.empty()) p->append(init.data(), init.size()); }
    type& operator*() { return *p; }
    const char* raw() { return p->clock(); }
};

// ---- string over a caller's buffer, length known at compile time
template <unsigned N> struct L2
{
    static constexpr bool fixed = true;
    typedef estd::layer2::basic_string<char, N> type;
    static constexpr bool terminated = true;
    static constexpr unsigned cap = N - 1;
    std::unique_ptr<char[]> b; std::unique_ptr<type> p;
    explicit L2(const std::string& init) : b(new char[N])
    {
        memset(b.get(), 'Z', N); memcpy(b.get(), init.data(), init.size()); b[init.size()] = 0;
        p.reset(new type(b.get()));
    }
    type& operator*() { return *p; }
    const char* raw() { return b.get(); }
};

// ---- string over a caller's buffer, length known at run time
template <unsigned N, bool nullterm> struct L3
{
    static constexpr bool fixed = true;
    typedef estd::layer3::basic_string<char, nullterm> type;
    static constexpr bool terminated = nullterm;
    static constexpr unsigned cap = N - (nullterm ? 1 : 0);
    std::unique_ptr<char[]> b; std::unique_ptr<type> p;
    explicit L3(const std::string& init) : b(new char[N])
    {
        memset(b.get(), 'Z', N); memcpy(b.get(), init.data(), init.size());
        p.reset(new type(b.get(), (uint16_t)init.size(), (uint16_t)N));
    }
    type& operator*() { return *p; }
    const char* raw() { return b.get(); }
};

#ifndef NOSTD // needs the standard library's allocator
// ---- string on the heap
template <unsigned N> struct Dyn
{
    static constexpr bool fixed = false;     // pop_back, assignment from C strings do not compile for heap strings
    typedef estd::basic_string<char, std::char_traits<char>, GrowAlloc<char>> type;
    static constexpr bool terminated = false;
    static constexpr unsigned cap = N;
    std::unique_ptr<type> p;
    explicit Dyn(const std::string& init) : p(new type) { if (!init.empty()) p->append(init.data(), init.size()); }
    type& operator*() { return *p; }
    const char* raw() { return p->clock(); }
};
#endif

template <class Box> void agree(Box& x, const std::string& m, const char* what)
{
    auto& e = *x;
    CHECK_EQ(content(e), m, what);
    CHECK_EQ((size_t)e.size(), m.size(), what);
    CHECK_EQ((size_t)e.length(), m.size(), what);
    CHECK_EQ((bool)e.empty(), m.empty(), what);
    CHECK((size_t)e.capacity() >= m.size(), what << ": capacity below size");
    if (Box::terminated)
    {
        CHECK(x.raw()[m.size()] == 0, what << ": terminator missing");
        CHECK_EQ(std::string(x.raw()), m, what);
    }
}

} // namespace strs
