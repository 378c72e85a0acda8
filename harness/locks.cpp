// Scoped locks against a mutex which knows who should hold it.
#include <estd/mutex.h>    // first: it stands on its own
#include "pbt.h"
#include <atomic>
#include <new>
#include <thread>
#include <vector>

namespace {
struct Mutex        // single threaded: refuses what would hang or is not allowed
{
    bool held = false; int locks = 0, unlocks = 0, tries = 0, timed = 0; bool reachable = true; long long asked = -1;
    void lock() { CHECK(!held, "lock() of a mutex already held would never return"); held = true; locks++; }
    bool try_lock() { tries++; if (held || !reachable) return false; held = true; return true; }
    template <class R, class P> bool try_lock_for(const estd::chrono::duration<R, P>& d) { timed++; asked = estd::chrono::duration_cast<estd::chrono::microseconds>(d).count(); if (held || !reachable) return false; held = true; return true; }
    void unlock() { CHECK(held, "unlock() of a mutex which is not held"); held = false; unlocks++; }
};
typedef estd::unique_lock<Mutex> U;

TARGET(unique_lock_histories, 6)
{
    constexpr int N = 4, M = 3;
    Mutex mu[M]; alignas(U) unsigned char room[N][sizeof(U)]; int on[N]; bool owns[N]; bool loose[M] = {};   // loose: held by nobody's lock object
    auto at = [&](int k) -> U& { return *(U*)room[k]; };
    for (int k = 0; k < N; k++) { memset(room[k], 0xA5, sizeof room[k]); new (room[k]) U; on[k] = -1; owns[k] = false; }
    auto drop = [&](int k) { LOG("destroy " << k); at(k).~U(); on[k] = -1; owns[k] = false; memset(room[k], 0xA5, sizeof room[k]); };
    unsigned acted = 0; bool destroyed_owning = false, failed_try = false, moved = false, released = false;
    for (unsigned step = 0, steps = 1 + s.size(30); step < steps; step++)
    {
        int k = (int)s.choose(N), j = (int)s.choose(N), m = (int)s.choose(M); Mutex& x = mu[m];
        bool busy = x.held; x.reachable = s.choose(4) != 0;
        switch (s.choose(13))
        {
        case 0: if (busy) break; destroyed_owning |= owns[k]; { drop(k); LOG(k << " locks " << m); new (room[k]) U(x); on[k] = m; owns[k] = true; acted++; } break;
        case 1: destroyed_owning |= owns[k]; drop(k); LOG(k << " defers " << m); new (room[k]) U(x, estd::defer_lock_t{}); on[k] = m; break;
        case 2: if (!busy) { LOG("lock " << m << " by hand"); x.lock(); loose[m] = true; } if (loose[m]) { destroyed_owning |= owns[k]; drop(k); LOG(k << " adopts " << m); new (room[k]) U(x, estd::adopt_lock_t{}); on[k] = m; owns[k] = true; loose[m] = false; acted++; } break;
        case 3: { destroyed_owning |= owns[k]; bool free = owns[k] && on[k] == m ? true : !busy; drop(k); LOG(k << " tries " << m); new (room[k]) U(x, estd::try_to_lock_t{}); on[k] = m; owns[k] = free && x.reachable; if (!owns[k]) failed_try = true; acted++; break; }
        case 4: { destroyed_owning |= owns[k]; bool free = owns[k] && on[k] == m ? true : !busy; drop(k); int ms = (int)s.choose(1000); LOG(k << " tries " << m << " for " << ms); new (room[k]) U(x, estd::chrono::milliseconds(ms)); CHECK_EQ(x.asked, ms * 1000ll, "time asked for"); on[k] = m; owns[k] = free && x.reachable; if (!owns[k]) failed_try = true; acted++; break; }
        case 5: if (on[k] >= 0 && !mu[on[k]].held) { LOG(k << ".lock()"); at(k).lock(); owns[k] = true; acted++; } break;
        case 6: if (owns[k]) { LOG(k << ".unlock()"); at(k).unlock(); owns[k] = false; acted++; } break;
        case 7: if (on[k] >= 0 && !owns[k]) { Mutex& y = mu[on[k]]; bool want = !y.held && y.reachable; LOG(k << ".try_lock()"); CHECK_EQ(at(k).try_lock(), want, "try_lock()"); owns[k] = want; failed_try |= !want; acted++; } break;
        case 8: if (on[k] >= 0 && !owns[k]) { Mutex& y = mu[on[k]]; bool want = !y.held && y.reachable; int us = (int)s.choose(100000); LOG(k << ".try_lock_for(" << us << ")"); CHECK_EQ(at(k).try_lock_for(estd::chrono::microseconds(us)), want, "try_lock_for()"); CHECK_EQ(y.asked, (long long)us, "time asked for"); owns[k] = want; failed_try |= !want; acted++; } break;
        case 9: { LOG(k << ".release()"); Mutex* r = at(k).release(); CHECK(r == (on[k] < 0 ? nullptr : &mu[on[k]]), "release() gives the mutex"); if (owns[k]) { loose[on[k]] = true; released = true; } on[k] = -1; owns[k] = false; break; }
        case 10: if (k != j) { destroyed_owning |= owns[k]; drop(k); LOG(k << " moved from " << j); new (room[k]) U(std::move(at(j))); on[k] = on[j]; owns[k] = owns[j]; if (owns[j]) moved = true; on[j] = -1; owns[j] = false; } break;
        case 11: if (loose[m]) { LOG("unlock " << m << " by hand"); x.unlock(); loose[m] = false; } break;
        default: destroyed_owning |= owns[k]; drop(k); new (room[k]) U; break;
        }
        for (int q = 0; q < M; q++) { bool should = loose[q]; for (int z = 0; z < N; z++) should = should || (owns[z] && on[z] == q); CHECK_EQ(mu[q].held, should, "whether mutex " + std::to_string(q) + " is held"); }
        for (int z = 0; z < N; z++) { const U& u = at(z); CHECK(u.mutex() == (on[z] < 0 ? nullptr : &mu[on[z]]), "mutex() of lock " << z); CHECK_EQ(u.owns_lock(), owns[z], "owns_lock() of lock " + std::to_string(z)); }
    }
    if (acted >= 3 && destroyed_owning) s.nontrivial();
    if (moved) s.label("moved while owning"); if (failed_try) s.label("an attempt failed"); if (released) s.label("released while owning");
    for (int k = 0; k < N; k++) at(k).~U();
    for (int q = 0; q < M; q++) CHECK_EQ(mu[q].held, loose[q], "whether mutex " + std::to_string(q) + " is held in the end");
}

struct Stop {};
void descend(pbt::Source& s, Mutex* mu, int depth, bool* held, unsigned& scopes)
{
    int m = -1; for (int i = 0; i < 4; i++) if (!held[i] && s.flip()) { m = i; break; }
    if (m < 0 || depth > 5) { if (s.flip()) throw Stop(); return; }
    if (s.flip()) { estd::lock_guard<Mutex> g(mu[m]); held[m] = true; scopes++; LOG("guard " << m); CHECK(mu[m].held, "inside the guard's scope"); struct Back { bool& b; ~Back() { b = false; } } back{held[m]}; descend(s, mu, depth + 1, held, scopes); CHECK(mu[m].held, "until the end of the guard's scope"); if (s.flip()) throw Stop(); }
    else { U g(mu[m]); held[m] = true; scopes++; LOG("lock " << m); struct Back { bool& b; ~Back() { b = false; } } back{held[m]}; descend(s, mu, depth + 1, held, scopes); CHECK(mu[m].held, "until the end of the lock's scope"); if (s.flip()) throw Stop(); }
}
TARGET(guards_and_exceptions, 3)
{
    Mutex mu[4]; unsigned scopes = 0; bool thrown = false;
    for (int round = 0, n = 1 + (int)s.choose(4); round < n; round++)
    {
        bool held[4] = {};
        try { descend(s, mu, 0, held, scopes); } catch (Stop&) { thrown = true; LOG("left by exception"); }
        for (int q = 0; q < 4; q++) { CHECK(!mu[q].held, "mutex " << q << " is free after the scope was left"); }
    }
    int locks = 0, unlocks = 0; for (auto& m : mu) { locks += m.locks; unlocks += m.unlocks; }
    CHECK_EQ(locks, (int)scopes, "times locked"); CHECK_EQ(unlocks, (int)scopes, "times unlocked");
    if (thrown && scopes > 1) s.nontrivial();
}

#ifndef NOSTD
// ---- several threads, the library's own mutex ----
TARGET_FN("threads", 1, [](pbt::Source& s)
{
    if (!s.one_in(50)) return;
    estd::mutex mu; long shared = 0, twin = 0; std::atomic<int> inside{0}; std::atomic<bool> broken{false}, go{false};
    const int T = 2 + (int)s.choose(3), rounds = 1 + (int)s.choose(40); std::vector<std::vector<int>> scripts(T); long want = 0;
    for (auto& sc : scripts) for (int i = 0; i < rounds; i++) { sc.push_back((int)s.choose(4)); want += 1; }
    std::vector<std::thread> ts;
    for (int t = 0; t < T; t++) ts.emplace_back([&, t] {
        while (!go) {}
        auto work = [&] { if (inside.fetch_add(1) != 0) broken = true; long v = shared; twin++; for (volatile int spin = 0; spin < 20; spin = spin + 1) {} shared = v + 1; inside.fetch_sub(1); };
        for (int how : scripts[t]) switch (how)
        {
        case 0: { estd::lock_guard<estd::mutex> g(mu); work(); break; }
        case 1: { estd::unique_lock<estd::mutex> g(mu); work(); break; }
        case 2: { estd::unique_lock<estd::mutex> g(mu, estd::try_to_lock_t{}); if (!g.owns_lock()) g.lock(); work(); g.unlock(); break; }
        default: { estd::unique_lock<estd::mutex> g(mu, estd::defer_lock_t{}); while (!g.try_lock()) std::this_thread::yield(); work(); break; }
        }
    });
    go = true; for (auto& t : ts) t.join();
    LOG(T << " threads of " << rounds << " rounds");
    CHECK(!broken, "two threads were inside at once"); CHECK_EQ(shared, want, "rounds counted"); CHECK_EQ(twin, want, "rounds counted twice over");
    CHECK(mu.try_lock(), "the mutex is free in the end"); mu.unlock();
    s.nontrivial();
});
#endif
}
