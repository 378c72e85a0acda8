// Views over contiguous storage and the small fixed maps.
#include <estd/span.h>
#include <estd/internal/buffer.h>
#include <estd/map.h>
#include <estd/string.h>
#include "pbt.h"
#include <map>
#include <memory>
#include <vector>

namespace {

template <class T> std::vector<T> some(pbt::Source& s, size_t n) { std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(s.integer<T>()); return v; }

template <class S, class T> void same(S& sp, const T* p, size_t n, const char* what)
{
    CHECK_EQ((size_t)sp.size(), n, what); CHECK_EQ(sp.empty(), n == 0, what); CHECK_EQ((size_t)sp.size_bytes(), n * sizeof(T), what);
    CHECK((const T*)sp.data() == p, what << ": data"); CHECK((const T*)sp.begin() == p && (const T*)sp.end() == p + n, what << ": ends"); CHECK((const T*)sp.cbegin() == p && (const T*)sp.cend() == p + n, what << ": const ends");
    const S& c = sp; for (size_t i = 0; i < n; i++) { CHECK(&sp[i] == p + i, what << ": element " << i); CHECK(&c[i] == p + i, what << ": const element " << i); }
    size_t k = 0; for (auto& x : sp) { CHECK(&x == p + k, what << ": iteration"); k++; } CHECK_EQ(k, n, what);
}

template <class T> void views(pbt::Source& s)
{
    size_t n = s.size(40); std::unique_ptr<T[]> mem(new T[n ? n : 1]); std::vector<T> v = some<T>(s, n); std::copy(v.begin(), v.end(), mem.get()); T* p = mem.get();
    estd::span<T> sp = s.flip() ? estd::span<T>(p, (size_t)n) : estd::span<T>(p, p + n); same(sp, p, n, "view");
    size_t base = 0, len = n;
    for (unsigned d = 0, k = s.choose(4); d < k; d++)
    {
        size_t off = s.choose(len + 1), cnt; estd::span<T> r;
        switch (s.choose(3))
        {
            case 0: LOG("subspan " << off << " of " << len); cnt = len - off; { estd::span<T> q(sp.subspan(off)); same(q, p + base + off, cnt, "subspan"); sp = q; } base += off; break;
            case 1: cnt = s.choose(len - off + 1); LOG("subspan " << off << "," << cnt << " of " << len); { estd::span<T> q(sp.subspan(off, cnt)); same(q, p + base + off, cnt, "subspan"); sp = q; } base += off; break;
            default: cnt = off; LOG("first " << cnt << " of " << len); { estd::span<T> q(sp.first(cnt)); same(q, p + base, cnt, "first"); sp = q; } break;
        }
        len = cnt; same(sp, p + base, len, "assigned view"); if (len) s.nontrivial();
    }
    auto by = estd::as_bytes(sp); CHECK_EQ((size_t)by.size(), len * sizeof(T), "as_bytes size"); CHECK((const void*)by.data() == (const void*)sp.data(), "as_bytes data");
    for (size_t i = 0; i < by.size(); i++) CHECK_EQ(estd::to_integer<int>(by[i]), (int)((const unsigned char*)(p + base))[i], "as_bytes content");
    auto wb = estd::as_writable_bytes(sp); CHECK_EQ((size_t)wb.size(), len * sizeof(T), "as_writable_bytes size");
    if (len) { size_t at = s.choose(len), b = s.choose(sizeof(T)); unsigned char x = (unsigned char)s.bits(8); wb[at * sizeof(T) + b] = (estd::byte)x; ((unsigned char*)&v[base + at])[b] = x; T y = s.integer<T>(); size_t at2 = s.choose(len); sp[at2] = y; v[base + at2] = y; }
    CHECK(std::equal(v.begin(), v.end(), p), "only the elements written changed");
}
TARGET_FN("span<uint8>", 2, views<uint8_t>); TARGET_FN("span<int>", 2, views<int>); TARGET_FN("span<uint16>", 1, views<uint16_t>); TARGET_FN("span<long>", 1, views<long long>);

template <class T, size_t N> void fixed_views(pbt::Source& s)
{
    T arr[N]; for (T& x : arr) x = s.integer<T>();
    estd::span<T, N> f(arr); same(f, arr, N, "fixed view"); estd::span<T> d(arr); same(d, arr, N, "view of an array"); estd::span<T> conv(f); same(conv, arr, N, "fixed view converted"); estd::span<const T, N> cf(arr); estd::span<const T> cd(cf); CHECK(cd.data() == arr && cd.size() == N, "const view converted");
    size_t off = s.choose(N + 1), cnt = s.choose(N - off + 1); auto q = f.subspan(off, cnt); same(q, arr + off, cnt, "subspan of fixed"); auto q2 = f.subspan(off); same(q2, arr + off, N - off, "rest of fixed");
    auto b = estd::as_bytes(f); CHECK_EQ((size_t)b.size(), N * sizeof(T), "as_bytes"); CHECK((const void*)b.data() == (const void*)arr, "as_bytes data"); auto wb = estd::as_writable_bytes(f); CHECK_EQ((size_t)wb.size(), N * sizeof(T), "as_writable_bytes"); CHECK((void*)wb.data() == (void*)arr, "as_writable_bytes data"); CHECK_EQ((size_t)f.size_bytes(), N * sizeof(T), "size_bytes"); CHECK_EQ((size_t)f.extent, N, "extent"); auto f0 = f.template first<0>(); CHECK(f0.data() == arr && f0.size() == 0 && f0.empty(), "first<0>"); auto fn = f.template first<N>(); same(fn, arr, N, "first<N>"); size_t fc = s.choose(N + 1); auto fd = f.first(fc); same(fd, arr, fc, "first of fixed"); auto f1 = f.template first<1>(); CHECK(f1.data() == arr && f1.size() == 1, "first<1>");
    auto cp(f); same(cp, arr, N, "copied"); T arr2[N] = {}; estd::span<T, N> g(arr2); g = f; same(g, arr, N, "assigned");
    if (off && cnt) s.nontrivial();
}
TARGET_FN("span<int,5>", 1, (fixed_views<int, 5>)); TARGET_FN("span<uint8,17>", 1, (fixed_views<uint8_t, 17>)); TARGET_FN("span<int16,3>", 1, (fixed_views<int16_t, 3>)); TARGET_FN("span<long long,4>", 1, (fixed_views<long long, 4>)); TARGET_FN("span<char,1>", 1, (fixed_views<char, 1>));

TARGET(old_buffers, 1)
{
    const size_t N = 9; uint8_t arr[N], orig[N]; for (size_t i = 0; i < N; i++) arr[i] = orig[i] = (uint8_t)s.bits(8);
    estd::internal::layer2::mutable_buffer<N> b2(arr); estd::internal::layer3::buffer<uint8_t> b3(arr); size_t n3 = s.choose(N + 1); estd::internal::layer3::buffer<uint8_t> b4((uint8_t*)arr, n3);
    CHECK_EQ((size_t)b2.size(), N, "size"); CHECK_EQ((size_t)b3.size(), N, "size"); CHECK_EQ((size_t)b4.size(), n3, "size"); CHECK_EQ((size_t)b4.size_bytes(), n3, "size_bytes");
    size_t i = 0; for (auto& x : b2) { CHECK(&x == arr + i, "iteration"); i++; } CHECK_EQ(i, N, "iteration"); i = 0; for (auto& x : b4) { CHECK(&x == arr + i, "iteration"); i++; } CHECK_EQ(i, n3, "iteration");
    size_t at = s.choose(N); CHECK_EQ(b2[at], orig[at], "element"); uint8_t v = (uint8_t)s.bits(8); b3[at] = v; CHECK_EQ(b2[at], v, "shared storage"); CHECK_EQ(b2.front(), arr[0], "front"); CHECK_EQ(b3.back(), arr[N - 1], "back"); if (n3) { CHECK(&b4.back() == arr + n3 - 1, "back"); s.nontrivial(); }
    for (size_t k = 0; k < N; k++) if (k != at) CHECK_EQ(arr[k], orig[k], "others untouched");
    auto m2 = estd::legacy::layer3::array<uint8_t>(arr); CHECK(m2.begin() == arr && m2.end() == arr + N, "ends");
    b3.resize(n3); CHECK_EQ((size_t)b3.size(), n3, "resize");
}

// ---- fixed maps: the first pair with the key wins, absence yields null
template <class M> void probe_map(pbt::Source& s, M& m, const std::vector<std::pair<int, int>>& in)
{
    for (int k = -1; k <= 8; k++)
    {
        int* want = nullptr, tmp; for (auto& p : in) if (p.first == k) { tmp = p.second; want = &tmp; break; }
        int* r = m[k]; CHECK_EQ(r == nullptr, want == nullptr, "lookup of " << k); if (r) CHECK_EQ(*r, *want, "value at " << k);
    }
    if (!in.empty()) { int k = in[s.choose(in.size())].first; int nv = s.integer<int>(); *m[k] = nv; CHECK_EQ(*m[k], nv, "written through"); for (auto& p : in) { if (p.first == k) continue; int first = 0; for (auto& q : in) if (q.first == p.first) { first = q.second; break; } CHECK_EQ(*m[p.first], first, "others untouched"); } s.nontrivial(); }
}
TARGET(fixed_maps, 2)
{
    const size_t N = 5; std::vector<std::pair<int, int>> in; for (size_t i = 0; i < N; i++) in.emplace_back((int)s.choose(9), s.integer<int>());
    typedef estd::layer1::map<int, int, N> M1; typedef estd::layer2::map<int, int, N> M2; typedef estd::layer3::map<int, int> M3;
    switch (s.choose(3))
    {
#ifndef NOSTD // there are no initializer lists
        case 0: { M1 m = {{in[0].first, in[0].second}, {in[1].first, in[1].second}, {in[2].first, in[2].second}, {in[3].first, in[3].second}, {in[4].first, in[4].second}}; probe_map(s, m, in); break; }
#endif
        case 1: { M2::value_type buf[N]; for (size_t i = 0; i < N; i++) { buf[i].first = in[i].first; buf[i].second = in[i].second; } M2 m(buf); probe_map(s, m, in); break; }
        default: { M3::value_type buf[N]; for (size_t i = 0; i < N; i++) { buf[i].first = in[i].first; buf[i].second = in[i].second; } M3 m(buf); probe_map(s, m, in); break; }
    }
}

}
