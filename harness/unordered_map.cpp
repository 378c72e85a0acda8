// Fixed-capacity hash containers against std::map / std::multimap.
#include <estd/unordered_map.h>
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_set.h>
#include <estd/optional.h>
#include "pbt.h"
#include <map>
#include <set>
#include <memory>
#include <vector>

using pbt::Tracked;
using pbt::Life;

namespace {

// hashes: every key its own bucket, everything in few buckets, everything at the far end
struct HashId { size_t operator()(int k) const { return (size_t)k; } };
struct HashFew { size_t operator()(int k) const { return (size_t)(k % 3); } };
struct HashTwo { size_t operator()(int k) const { return (size_t)(k % 2); } };
struct HashEnd { size_t operator()(int k) const { return (size_t)(0u - 1u - (unsigned)(k & 1)) & 0xFFFF; } };

int val(int v) { return v; }
int val(char v) { return (unsigned char)v; }
int val(long v) { return (int)v; }
int val(const Tracked& t) { Life::used(&t, "read"); CHECK(!t.moved, "value was moved away"); return t.v; }
template <size_t N, bool T> int val(const estd::layer1::string<N, T>& s) { std::string r; for (auto c : s) r += c; return atoi(r.c_str()); }

template <class T> struct Make { static T of(int v) { return T(v); } };
template <size_t N, bool B> struct Make<estd::layer1::string<N, B>> { static estd::layer1::string<N, B> of(int v) { return estd::layer1::string<N, B>(std::to_string(v).c_str()); } };

template <class M, class Model> void agree(M& m, const Model& model, const char* what)
{
    const M& c = m;
    CHECK_EQ((size_t)c.size(), model.size(), what); CHECK_EQ(c.empty(), model.empty(), what);
    std::multimap<int, int> left(model.begin(), model.end()); size_t n = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++n)
    {
        CHECK(n < model.size(), what << ": iteration yields too many");
        int k = (int)it->first, v = val(it->second); bool found = false;
        for (auto r = left.equal_range(k); r.first != r.second; ++r.first) if (r.first->second == v) { left.erase(r.first); found = true; break; }
        CHECK(found, what << ": iteration yields " << k << " -> " << v << " which should not be there");
    }
    CHECK_EQ(n, model.size(), what);
    n = 0; for (auto it = c.begin(); it != c.end(); ++it) { CHECK(n < model.size(), "const iteration"); n++; } CHECK_EQ(n, model.size(), "const iteration");
}

template <class M, class K, class T> void map_history(pbt::Source& s, M& m, int keys)
{
    typedef typename M::iterator It;
    std::map<int, int> model; std::map<int, const void*> where; bool overflowed = m.max_size() % M::bucket_depth != 0; int next = 1;
    const bool tracked = std::is_same<T, Tracked>::value;
    std::map<unsigned, std::set<const void*> > holes; std::map<unsigned, int> load; unsigned edits = 0, erased = 0, steps = 1 + s.size(50);
    auto key = [&]() { return 1 + (int)s.choose(keys); };
    auto added = [&](int k, int v, It it) { CHECK_EQ((int)it->first, k, "the reported position"); CHECK_EQ(val(it->second), v, "the reported position"); model[k] = v; where[k] = &it->second; holes[m.bucket((K)k)].erase(where[k]); if (++load[m.bucket((K)k)] > (int)M::bucket_depth) overflowed = true; edits++; };
    auto may_refuse = [&](int k) { CHECK(overflowed || load[m.bucket((K)k)] >= (int)M::bucket_depth, "refused key " << k << " though its bucket has room"); s.label("refused"); };
    auto gone = [&](int k) { model.erase(k); holes[m.bucket((K)k)].insert(where[k]); where.erase(k); load[m.bucket((K)k)]--; erased++; };
    auto outcome = [&](int k, int v, auto r, bool had, const char* what) {
        if (r.second) { CHECK(!had, what << " claims a new entry for key " << k); added(k, v, r.first); }
        else if (had) { CHECK(r.first->first == (K)k, what << " reports the existing entry"); CHECK_EQ(val(r.first->second), model[k], what); }
        else may_refuse(k); };
    for (unsigned i = 0; i < steps; i++)
    {
        int k = key(), v = next++ % 250; bool had = model.count(k); const K kk = (K)k;
        switch (s.choose(14))
        {
            case 0: case 1: { LOG("insert " << k << " -> " << v << " bucket " << m.bucket(kk)); typename M::value_type p(kk, Make<T>::of(v)); outcome(k, v, m.insert(p), had, "insert"); break; }
            case 2: { LOG("emplace " << k << " -> " << v); outcome(k, v, m.emplace(kk, Make<T>::of(v)), had, "emplace"); break; }
            case 3: { LOG("try_emplace " << k << " -> " << v); outcome(k, v, m.try_emplace(kk, Make<T>::of(v)), had, "try_emplace"); break; }
            case 4: { LOG("piecewise " << k << " -> " << v); outcome(k, v, m.emplace(estd::piecewise_construct_t{}, estd::make_tuple(kk), estd::forward_as_tuple(Make<T>::of(v))), had, "emplace piecewise"); break; }
            case 5: { LOG("insert_or_assign " << k << " -> " << v); auto r = m.insert_or_assign(kk, Make<T>::of(v));
                if (had) { CHECK(!r.second, "insert_or_assign claims a new entry"); CHECK_EQ(val(r.first->second), v, "insert_or_assign"); CHECK((const void*)&r.first->second == where[k], "assignment keeps the entry in place"); model[k] = v; }
                else if (r.second) added(k, v, r.first); else may_refuse(k); break; }
            case 6: { if (had) { LOG("[" << k << "] = " << v); CHECK_EQ(val(m[kk]), model[k], "[]"); m[kk] = Make<T>::of(v); model[k] = v; }
                else if (!overflowed && load[m.bucket(kk)] < (int)M::bucket_depth) { LOG("new [" << k << "] = " << v); T& t = m[kk]; CHECK_EQ(val(t), val(T()), "a new entry is value initialised"); t = Make<T>::of(v); auto it = m.find(kk); CHECK(it != m.cend(), "[] made an entry"); added(k, v, it); }
                break; }
            case 7: case 8: { LOG("erase key " << k); auto n = m.erase(kk); CHECK_EQ((int)n, had ? 1 : 0, "erase count"); if (had) gone(k); break; }
            case 9: { if (!had) break; LOG("erase at " << k); auto it = m.find(kk); auto nx = m.erase(it); gone(k);
                // the rest of the walk from there visits only what is left
                size_t n = 0; for (; nx != m.end(); ++nx) { CHECK(model.count((int)nx->first), "erase returns the next entry"); CHECK(++n <= model.size(), "walk after erase"); } break; }
            case 10: { if (!had) break; bool local = s.flip(); LOG("erase_and_gc " << k << (local ? " by local position" : ""));
                if (local) { auto it = m.begin(m.bucket(kk)); while (it->first != kk) { CHECK(it != m.end(m.bucket(kk)), "key not in its bucket"); ++it; } m.erase_and_gc(it); } else m.erase_and_gc(m.find(kk)); gone(k); holes.erase(m.bucket(kk)); for (auto it = m.begin(); it != m.end(); ++it) where[(int)it->first] = &it->second; break; }
            case 11: { if (!had) break; LOG("gc_active " << k); auto it = m.gc_active(m.find(kk)); CHECK_EQ((int)it->first, k, "gc_active"); CHECK_EQ(val(it->second), model[k], "gc_active");
                // it closes up: no place known to be free stays before it in its bucket
                const void* was = where[k]; where[k] = &it->second; auto& free_places = holes[m.bucket(kk)];
                if (!overflowed && !free_places.empty()) CHECK(*free_places.begin() >= where[k], "gc_active left the entry behind a free place");
                if (was != where[k]) { free_places.erase(where[k]); free_places.insert(was); s.label("closed up"); }
                break; }
            case 12: { if (!s.one_in(6)) break; LOG("clear"); m.clear(); model.clear(); where.clear(); holes.clear(); load.clear(); overflowed = m.max_size() % M::bucket_depth != 0; break; }
            default: { LOG("null key"); CHECK(!m.contains(K()), "null key"); CHECK(m.find(K()) == m.cend(), "null key"); CHECK_EQ((int)m.erase(K()), 0, "null key"); CHECK_EQ((int)m.count(K()), 0, "null key");
                // and it cannot be put in
                const K nk = K(); bool took = false;
                switch (s.choose(5))
                {
                    case 0: { typename M::value_type p(nk, Make<T>::of(v)); took = m.insert(p).second; break; }
                    case 1: took = m.emplace(nk, Make<T>::of(v)).second; break;
                    case 2: took = m.try_emplace(nk, Make<T>::of(v)).second; break;
                    case 3: took = m.insert_or_assign(nk, Make<T>::of(v)).second; break;
                    default: took = m.emplace(estd::piecewise_construct_t{}, estd::make_tuple(nk), estd::forward_as_tuple(Make<T>::of(v))).second; break;
                }
                CHECK(!took, "the null key was taken in"); break; }
        }
        agree(m, model, "after step");
        const M& c = m;
        for (int q = 1; q <= keys; q++)
        {
            bool in = model.count(q); CHECK_EQ(c.contains((K)q), in, "contains " << q);
            auto it = m.find((K)q); CHECK_EQ(it != m.cend(), in, "find " << q); CHECK_EQ((int)c.count((K)q), in ? 1 : 0, "count " << q);
            if (in) { CHECK_EQ(val(it->second), model[q], "value at " << q); CHECK((const void*)&it->second == where[q], "entry " << q << " stayed in place"); auto ci = c.find((K)q); CHECK((const void*)&ci->second == where[q], "const find"); }
        }
        for (auto& b : load) CHECK_EQ((int)c.bucket_size(b.first), b.second, "bucket_size " << b.first);
        for (auto& b : load)
        {
            std::set<int> seen; bool post = i & 1;
            for (auto it = c.begin(b.first); !(it == c.end(b.first));)
            {
                CHECK(it != c.end(b.first), "== and != of a local position disagree"); CHECK_EQ((unsigned)c.bucket(it->first), b.first, "bucket " << b.first << " holds key " << (int)it->first); CHECK(seen.insert((int)it->first).second, "bucket visits a key twice"); CHECK_EQ(val((*it).second), model[(int)it->first], "value in bucket");
                if (post) { auto old = it++; CHECK(it == c.end(b.first) || old->first != it->first, "post increment"); } else ++it;
            }
            CHECK(!(c.cbegin(b.first) != c.cend(b.first)) == seen.empty(), "!= of a local position"); CHECK_EQ((int)seen.size(), b.second, "walk of bucket " << b.first);
            size_t n = 0; for (auto it = m.begin(b.first); it != m.end(b.first); ++it) { CHECK(n < seen.size(), "bucket walk"); n++; } CHECK_EQ(n, seen.size(), "walk of bucket " << b.first);
        }
        if (tracked) Life::expect_live((long)model.size(), "after step");
    }
    if (edits >= 4 && erased >= 1) s.nontrivial();
    m.clear(); if (tracked) Life::expect_live(0, "after the final clear");
}

template <class M, class K, class T> void on_heap(pbt::Source& s, int keys) { Life::reset(); std::unique_ptr<M> m(new M); map_history<M, K, T>(s, *m, keys); }

template <unsigned N, class H, class T> void int_map(pbt::Source& s) { typedef estd::layer1::unordered_map<int, T, N, H> M; on_heap<M, int, T>(s, N > 40 ? 30 : N > 12 ? 20 : 12); }
TARGET_FN("map<id,16,int>", 2, (int_map<16, HashId, int>));
TARGET_FN("map<few,16,int>", 2, (int_map<16, HashFew, int>));
TARGET_FN("map<two,20,int>", 2, (int_map<20, HashTwo, int>));
TARGET_FN("map<end,16,long>", 1, (int_map<16, HashEnd, long>));
TARGET_FN("map<few,10,Tracked>", 2, (int_map<10, HashFew, Tracked>));
TARGET_FN("map<id,8,Tracked>", 2, (int_map<8, HashId, Tracked>));
TARGET_FN("map<id,120,int>", 1, (int_map<120, HashId, int>));
TARGET_FN("map<id,16,string>", 1, (int_map<16, HashId, estd::layer1::string<8>>));
TARGET_FN("map<default,12,int>", 1, (int_map<12, estd::hash<int>, int>));

TARGET_FN("map<end,260,int>", 1, [](pbt::Source& s) { struct H { size_t operator()(int k) const { return 64 - (size_t)(k % 3); } }; on_heap<estd::layer1::unordered_map<int, int, 260, H>, int, int>(s, 9); });

// more places than fit fifteen bits
struct HashFar { size_t operator()(int k) const { return 33000 / 4 + (size_t)(k % 3); } };
TARGET_FN("map<far,36000,int>", 1, [](pbt::Source& s) { if (s.one_in(4)) on_heap<estd::layer1::unordered_map<int, int, 36000, HashFar>, int, int>(s, 9); });

TARGET_FN("map<uint8 key>", 1, [](pbt::Source& s) { on_heap<estd::layer1::unordered_map<uint8_t, int, 16>, uint8_t, int>(s, 12); });

TARGET(map_external_storage, 1)
{
    typedef estd::layer2::unordered_map<int, int, 16> M; typedef typename estd::internal::unordered_map_traits<int, int>::control_type C;
    Life::reset(); std::unique_ptr<C[]> backing(new C[16]); memset((void*)backing.get(), (int)s.bits(8), sizeof(C) * 16); C (&arr)[16] = *reinterpret_cast<C(*)[16]>(backing.get());
    M m(arr); map_history<M, int, int>(s, m, 12);
}

// ---- entries sharing a key, on request
template <unsigned N, class H> void multi(pbt::Source& s)
{
    typedef estd::layer1::unordered_map<int, int, N, H> M; typedef typename M::value_type P;
    std::unique_ptr<M> pm(new M); M& m = *pm; std::multimap<int, int> model; int next = 1; unsigned dup = 0, erased = 0;
    for (unsigned i = 0, n = 1 + s.size(24); i < n; i++)
    {
        int k = 1 + (int)s.choose(4), v = next++;
        switch (s.choose(4))
        {
            case 0: case 1: { LOG("insert " << k << " -> " << v); auto r = m.insert(P(k, v), true); if (r.second) { if (model.count(k)) dup++; model.emplace(k, v); CHECK_EQ(r.first->first, k, "insert"); CHECK_EQ(r.first->second, v, "insert"); } else CHECK(!model.empty(), "an empty map takes an entry"); break; }
            default: { if (!model.count(k)) break; bool gc = s.flip(); LOG((gc ? "erase_and_gc " : "erase ") << k); auto it = m.find(k); CHECK(it != m.cend(), "find"); CHECK_EQ(it->first, k, "find"); int got = it->second;
                auto r = model.equal_range(k); for (; r.first != r.second; ++r.first) if (r.first->second == got) break; CHECK(r.first != r.second, "find yields an entry of that key"); model.erase(r.first); erased++;
                if (gc) m.erase_and_gc(it); else m.erase(it); break; }
        }
        agree(m, model, "after step");
        for (int q = 1; q <= 4; q++) { CHECK_EQ((size_t)m.count(q), model.count(q), "count " << q); CHECK_EQ(m.contains(q), model.count(q) > 0, "contains " << q); }
    }
    if (dup && erased) s.nontrivial();
}
TARGET_FN("multi<id,16>", 1, (multi<16, HashId>));
TARGET_FN("multi<few,12>", 1, (multi<12, HashFew>));

}
