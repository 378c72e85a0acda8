// Fixed-capacity hash sets against std::set.
#include <estd/unordered_set.h>
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_map.h>
#include <estd/optional.h>
#include "pbt.h"
#include <map>
#include <set>
#include <memory>
#include <vector>

namespace {

// hashes: every key its own bucket, everything in few buckets, everything at the far end
struct HashId { size_t operator()(int k) const { return (size_t)k; } };
struct HashFew { size_t operator()(int k) const { return (size_t)(k % 3); } };
struct HashTwo { size_t operator()(int k) const { return (size_t)(k % 2); } };
struct HashEnd { size_t operator()(int k) const { return (size_t)(0u - 1u - (unsigned)(k & 1)) & 0xFFFF; } };

// ---- sets
template <unsigned N, class H> void set_history(pbt::Source& s)
{
    typedef estd::layer1::unordered_set<int, N, H> S; std::unique_ptr<S> pm(new S), po(new S); std::set<int> model; bool overflowed = N % S::bucket_depth != 0; std::map<unsigned, int> load;
    const int keys = 20; unsigned edits = 0, erased = 0;
    for (unsigned i = 0, n = 1 + s.size(50); i < n; i++)
    {
        int k = 1 + (int)s.choose(keys); bool had = model.count(k); S& m = *pm;
        if (s.one_in(12))
        {
            LOG("copy"); std::unique_ptr<S> c(s.flip() ? new S(m) : new S); if (s.flip()) c->insert(k); *c = m;
            CHECK(*c == m, "copy =="); if (had) m.erase(k); else m.insert(k); pm = std::move(c);
            S& m = *pm; CHECK_EQ(m.contains(k), had, "the copy follows the original"); CHECK_EQ((size_t)m.size(), model.size(), "size of a copy");
            std::set<int> seen; for (auto it = m.begin(); it != m.end(); ++it) seen.insert(*it); CHECK(seen == model, "copy yields exactly the keys"); continue;
        }
        else if (s.choose(5) < 3)
        {
            LOG("insert " << k); auto r = m.insert(k);
            if (r.second) { CHECK(!had, "insert claims a new key"); CHECK_EQ(*r.first, k, "insert"); model.insert(k); if (++load[m.bucket(k)] > (int)S::bucket_depth) overflowed = true; edits++; }
            else if (had) CHECK_EQ(*r.first, k, "insert reports the existing key");
            else { CHECK(overflowed || load[m.bucket(k)] >= (int)S::bucket_depth, "refused key " << k << " though its bucket has room"); s.label("refused"); }
        }
        else if (s.one_in(6)) { LOG("null key"); CHECK(!m.insert(0).second, "the null key was taken in"); CHECK_EQ((int)m.erase(0), 0, "null key"); }
        else { LOG("erase " << k); CHECK_EQ((int)m.erase(k), had ? 1 : 0, "erase count"); if (had) { model.erase(k); load[m.bucket(k)]--; erased++; } }
        CHECK_EQ((size_t)m.size(), model.size(), "size"); CHECK_EQ(m.empty(), model.empty(), "empty");
        std::set<int> seen; for (auto it = m.begin(); it != m.end(); ++it) CHECK(seen.insert(*it).second, "iteration repeats " << *it); CHECK(seen == model, "iteration yields exactly the keys");
        for (auto& b : load)
        {
            std::set<int> in; for (auto it = m.begin(b.first); it != m.end(b.first); ++it) { CHECK(!(it == m.end(b.first)), "== and != of a local position disagree"); CHECK_EQ((unsigned)m.bucket(*it), b.first, "bucket holds key " << *it); CHECK(in.insert(*it).second, "bucket visits a key twice"); }
            CHECK_EQ((int)in.size(), b.second, "walk of bucket " << b.first);
        }
        for (int q = 0; q <= keys; q++) { CHECK_EQ(m.contains(q), model.count(q) > 0, "contains " << q); CHECK_EQ((size_t)m.count(q), model.count(q), "count " << q); }
    }
    if (edits >= 4 && erased >= 1) s.nontrivial();
    // another set with the same keys, put there in another order, compares equal; one with another key does not
    S& o = *po; S& m = *pm; std::vector<int> ks(model.begin(), model.end()); for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[s.choose(i)]);
    bool all = true; for (int k : ks) all = o.insert(k).second && all;
    if (all) { CHECK(o == m && m == o, "same keys compare equal"); if (!ks.empty()) { o.erase(ks[0]); CHECK(!(o == m), "fewer keys compare unequal"); int other = 40 + (int)s.choose(5); if (o.insert(other).second) CHECK(!(o == m) && !(m == o), "another key compares unequal"); } }
}
TARGET_FN("set<id,16>", 2, (set_history<16, HashId>));
TARGET_FN("set<few,16>", 2, (set_history<16, HashFew>));
TARGET_FN("set<two,20>", 2, (set_history<20, HashTwo>));
TARGET_FN("set<end,10>", 1, (set_history<10, HashEnd>));
TARGET_FN("set<default,20>", 1, (set_history<20, estd::hash<int>>));

}
