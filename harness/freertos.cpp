// The FreeRTOS port's wrappers against a simulated kernel (freertos/FreeRTOS.h): every call reaches the kernel with the
// handle, item, bits and ticks meant, its answer comes back, and every kernel object is deleted exactly once.
#ifndef FR
#define FR(name) name
#define FR_NS estd_fr32
#endif
#include "FreeRTOS.h"
#include "pbt.h"
#define ESTD_OS_FREERTOS 2
#define estd FR_NS          // another configuration of the library than the rest of the program uses: kept apart by name
#include <estd/port/freertos/queue.h>
#include <estd/port/freertos/timer.h>
#include <estd/port/freertos/event_groups.h>
#include <estd/port/freertos/mutex.h>
#include <estd/port/freertos/semaphore.h>
#include <estd/port/freertos/wrapper/task.h>
#include <estd/mutex.h>
#include <estd/semaphore.h>
#include <estd/thread.h>
#include <type_traits>

namespace {
namespace fr = estd::freertos;
namespace ch = estd::chrono;
typedef ch::freertos_clock::duration Ticks;
const uint64_t MAX = uint64_t(portMAX_DELAY), HZ = configTICK_RATE_HZ;

// One run's kernel; destroyed last, when everything must have been deleted.
struct Run
{
    rtos::Kernel k; tskTaskControlBlock *me, *other;
    explicit Run(pbt::Source& s)
    {
        rtos::K = &k;
        switch (s.choose(3)) { case 0: k.now = s.choose(1000); break; case 1: k.now = MAX - s.choose(5000); break; default: k.now = s.choose(0xFFFFFFFFu); }
        me = new tskTaskControlBlock; rtos::make(Kind::Task, me, false); other = new tskTaskControlBlock; rtos::make(Kind::Task, other, false); k.current = me;
    }
    ~Run() { for (auto& o : k.objs) if (o->live && !o->is_static) { if (o->kind == Kind::Task) delete (tskTaskControlBlock*)o->ctl; } rtos::K = nullptr; }
    unsigned live() const { unsigned n = 0; for (auto& o : k.objs) n += o->live && o->kind != Kind::Task; return n; }
    void done() const { CHECK(k.bad.empty(), "the kernel refuses to delete: " << k.bad); for (auto& o : k.objs) if (o->kind != Kind::Task) CHECK(!o->live, "kernel object " << o->serial << " is deleted along with its owner"); }
    Obj& last() { return *k.objs.back(); }
};
#define KERNEL(expr) [&]() -> decltype(auto) { try { return expr; } catch (rtos::Error& e) { pbt::fail(std::string("the kernel refuses ") + #expr + ": " + e.what()); throw; } }()

// A random time span, given in some unit, and the ticks it lies between.
struct Span { int unit; long long n; uint64_t lo, hi; };
Span span(pbt::Source& s)
{
    Span d; d.unit = (int)s.choose(6);
    long long per[] = {1, 1000000, 1000, 1, 0, 0};      // units a second: ticks, us, ms, s, short ms, int ticks
    per[0] = (long long)HZ; per[4] = 1000; per[5] = (long long)HZ;
    uint64_t t = s.choose(4) == 0 ? s.choose(4) : s.flip() ? s.choose(3000) : s.choose((unsigned)std::min<uint64_t>(MAX - 2, 2000000000u));   // wanted ticks
    if (d.unit == 4) t = std::min<uint64_t>(t, 32000 * HZ / 1000);
    if (d.unit == 5) t = std::min<uint64_t>(t, 0x7FFFFFFF);
    long long n = (long long)((unsigned __int128)t * (uint64_t)per[d.unit] / HZ);
    if (s.flip()) n += (long long)s.choose((unsigned)std::max<long long>(1, per[d.unit] / (long long)HZ));
    if (d.unit == 4 && n > 32767) n = 32767;
    d.n = n;
    unsigned __int128 x = (unsigned __int128)n * HZ; d.lo = (uint64_t)(x / per[d.unit]); d.hi = (uint64_t)((x + per[d.unit] - 1) / per[d.unit]);
    if (d.unit && d.unit != 5 && s.choose(6) == 0) { d.n = -(long long)(1 + s.choose(3000)); d.lo = d.hi = 0; }     // time already over
    return d;
}
template <class F> auto with(const Span& d, F f) -> decltype(f(Ticks(0)))
{
    switch (d.unit)
    {
    case 0: return f(Ticks(TickType_t(d.n)));
    case 1: return f(ch::duration<int64_t, estd::micro>(d.n));
    case 2: return f(ch::duration<int64_t, estd::milli>(d.n));
    case 3: return f(ch::duration<int32_t, estd::ratio<1>>((int32_t)d.n));
    case 4: return f(ch::duration<int16_t, estd::milli>((int16_t)d.n));
    default: return f(ch::duration<int64_t, Ticks::period>(d.n));
    }
}
std::ostream& operator<<(std::ostream& o, const Span& d) { static const char* u[] = {" ticks", "us", "ms", "s", "ms (short)", " ticks (wide)"}; return o << d.n << u[d.unit]; }
// What the kernel was asked to wait is the span in whole ticks (the odd part of a tick may go either way).
void asked(const Span& d) { CHECK(rtos::K->arg >= d.lo && rtos::K->arg <= d.hi, "waits " << rtos::K->arg << " ticks for " << d << ", which is " << d.lo << " to " << d.hi << " ticks of " << HZ << " a second"); }
template <class F> Span until(pbt::Source& s, F f)
{
    Span d; d.unit = 0; bool past = s.choose(3) == 0;
    long long n = s.flip() ? s.choose(5) : s.choose((unsigned)std::min<uint64_t>(MAX / 2 - 2, 100000000u));
    d.n = past ? -n : n; d.lo = d.hi = past ? 0 : (uint64_t)n;
    ch::freertos_clock::time_point t{Ticks(TickType_t(rtos::K->now + (uint64_t)d.n))};
    LOG("  until " << d.n << " ticks from now");
    f(t); asked(d); return d;
}

// Counting semaphores: M is the maximum, kernel objects static or not.
template <unsigned M, bool Static> void semaphore(pbt::Source& s)
{
    Run r(s);
    typedef fr::counting_semaphore<M, Static> S;
    static_assert(!std::is_copy_constructible<S>::value && !std::is_copy_assignable<S>::value, "a semaphore has one owner");
    unsigned n = 0, waits = 0, late = 0, ran_out = 0;
    {
        struct Box { char a[16]; alignas(S) unsigned char room[sizeof(S)]; char b[16]; } box; memset(&box, 0x77, sizeof box);
        S* p;
        if constexpr (M == 1) { LOG("binary"); p = KERNEL(new (box.room) S); }
        else { n = s.flip() ? (unsigned)s.choose(M + 1) : (unsigned)std::min(M, (unsigned)s.choose(3)); LOG("counting, " << n << " of " << M); p = n == 0 && s.flip() ? KERNEL(new (box.room) S) : KERNEL(new (box.room) S(n)); }
        S& x = *p; struct Off { S& x; bool on; ~Off() { if (on) x.~S(); } } off{x, true};
        Obj& o = r.last(); CHECK_EQ(r.live(), 1u, "kernel objects made"); CHECK_EQ(o.is_static, Static, "made in storage of its own"); CHECK_EQ((unsigned)o.max, M, "maximum the kernel was told"); CHECK(o.kind == (M == 1 ? Kind::Binary : Kind::Counting), "kind of semaphore made");
        if (Static) CHECK((unsigned char*)o.ctl >= box.room && (unsigned char*)o.ctl + sizeof(StaticSemaphore_t) <= box.room + sizeof(S), "the storage is the object's own");
        CHECK_EQ(S::max(), M, "max()");
        for (unsigned i = 0, steps = 1 + s.size(25); i < steps; i++)
        {
            CHECK_EQ((unsigned)o.count, n, "count in the kernel"); CHECK_EQ((unsigned)x.native_handle().count(), n, "count()");
            uint64_t t0 = r.k.now, g = 0; bool soon = n == 0 && s.flip();
            if (soon) { g = t0 + (s.flip() ? s.choose(4) : s.choose(3000)); LOG("  (an interrupt releases it " << g - t0 << " ticks on)"); auto h = x.native_handle(); rtos::at(g, [h]{ BaseType_t w = pdFALSE; h.give_from_isr(&w); CHECK(w == pdTRUE && rtos::K->woken == &w, "give_from_isr() passes the task-woken flag on"); }); }
            auto attempt = [&](bool got, uint64_t ticks, const char* what) {
                if (n) { CHECK(got, what << " with " << n << " to be had"); CHECK_EQ(r.k.now, t0, "does not wait when there is one to be had"); n--; }
                else if (soon && g <= t0 + ticks) { CHECK(got, what << " while one comes after " << g - t0 << " of " << ticks << " ticks"); CHECK_EQ(r.k.now, g, "time waited"); waits++; if (g > t0) late++; soon = false; }
                else { CHECK(!got, what << " with none to be had within " << ticks << " ticks"); CHECK_EQ(r.k.now, t0 + ticks, "time waited in vain"); ran_out++; }
            };
            switch (s.choose(7))
            {
            case 0: if (!n && !soon) break; LOG("acquire"); KERNEL(x.acquire()); CHECK_EQ(r.k.arg, MAX, "acquire() waits for ever"); attempt(true, 1u << 30, "acquire()"); break;
            case 1: { LOG("try_acquire"); bool got = KERNEL(x.try_acquire()); CHECK_EQ(r.k.arg, 0u, "ticks try_acquire() waits"); attempt(got, 0, "try_acquire()"); break; }
            case 2: case 3: { Span d = span(s); LOG("try_acquire_for " << d); bool got = KERNEL(with(d, [&](auto t) { return x.try_acquire_for(t); })); asked(d); attempt(got, r.k.arg, "try_acquire_for()"); break; }
            case 4: { LOG("try_acquire_until"); bool got = false; until(s, [&](ch::freertos_clock::time_point t) { got = KERNEL(x.try_acquire_until(t)); }); attempt(got, r.k.arg, "try_acquire_until()"); break; }
            case 5: { LOG("release"); KERNEL(x.release()); if (n < M) n++; if (n > M) n = M; break; }
            default: { LOG("from an interrupt"); bool take = s.flip(); BaseType_t w = 5; bool ok = take ? KERNEL(x.native_handle().take_from_isr(&w)) : KERNEL(x.native_handle().give_from_isr(&w)); CHECK(w == pdTRUE, "the task-woken flag is passed on"); CHECK_EQ(ok, take ? n > 0 : n < M, "result in an interrupt"); if (ok) n += take ? -1 : 1; }
            }
            if (soon) { r.k.irqs.clear(); }
            CHECK(r.k.irqs.empty(), "interrupt taken");
        }
        off.on = false; LOG("destroy"); KERNEL(x.~S());
        for (char c : box.a) CHECK(c == 0x77, "memory before the object"); for (char c : box.b) CHECK(c == 0x77, "memory after the object");
    }
    r.done();
    if (waits) s.label("released while waiting"); if (ran_out) s.label("time ran out");
    if (waits + ran_out >= 2) s.nontrivial();
}
TARGET_FN(FR("semaphore_binary"), 2, (semaphore<1, false>));
TARGET_FN(FR("semaphore_binary_static"), 2, (semaphore<1, true>));
TARGET_FN(FR("semaphore_counting"), 2, (semaphore<3, false>));
TARGET_FN(FR("semaphore_counting_static"), 2, (semaphore<500, true>));

// Mutexes: plain, timed, used directly and through the scoped locks; other tasks and interrupts may hold them.
template <class M, bool Static, bool Timed> void mutex(pbt::Source& s)
{
    Run r(s);
    static_assert(!std::is_copy_constructible<M>::value && !std::is_copy_assignable<M>::value, "a mutex has one owner");
    unsigned acted = 0, waits = 0, in_vain = 0; bool scoped = false;
    {
        bool binary = s.choose(3) == 0; LOG((binary ? "binary" : "mutex"));
        M* p = KERNEL(binary ? new M(true) : s.flip() ? new M : new M(false)); M& m = *p; std::unique_ptr<M> keep(p);
        Obj& o = r.last(); CHECK_EQ(r.live(), 1u, "kernel objects made"); CHECK_EQ(o.is_static, Static, "made in storage of its own"); CHECK(o.kind == (binary ? Kind::Binary : Kind::Mutex), "kind of kernel object made");
        bool held = binary;      // a binary semaphore starts out taken
        for (unsigned i = 0, steps = 1 + s.size(25); i < steps; i++)
        {
            CHECK_EQ(o.count == 0, held, "held, as the kernel sees it"); if (!binary) CHECK(m.native_handle().mutex_holder() == (held ? r.me : nullptr), "mutex_holder()");
            uint64_t t0 = r.k.now, g = 0; bool soon = held && s.choose(3) == 0;
            if (soon) { g = t0 + (s.flip() ? s.choose(4) : s.choose(3000)); LOG("  (freed by someone else " << g - t0 << " ticks on)"); Obj* po = &o; rtos::at(g, [po]{ po->count = 1; po->holder = nullptr; }); }
            auto attempt = [&](bool got, uint64_t ticks, const char* what) {
                if (!held) { CHECK(got, what << " of a free mutex"); CHECK_EQ(r.k.now, t0, "does not wait for a free mutex"); }
                else if (soon && g <= t0 + ticks) { CHECK(got, what << " of a mutex free after " << g - t0 << " of " << ticks << " ticks"); CHECK_EQ(r.k.now, g, "time waited"); waits++; soon = false; }
                else { CHECK(!got, what << " of a mutex not free within " << ticks << " ticks"); CHECK_EQ(r.k.now, t0 + ticks, "time waited in vain"); in_vain++; return; }
                held = true; acted++;
            };
            switch (s.choose(8))
            {
            case 0: if (held && !soon) break; LOG("lock"); KERNEL(m.lock()); CHECK_EQ(r.k.arg, MAX, "lock() waits for ever"); attempt(true, 1u << 30, "lock()"); break;
            case 1: { LOG("try_lock"); bool got = KERNEL(m.try_lock()); CHECK_EQ(r.k.arg, 0u, "ticks try_lock() waits"); attempt(got, 0, "try_lock()"); break; }
            case 2: if constexpr (Timed) { Span d = span(s); LOG("try_lock_for " << d); bool got = KERNEL(with(d, [&](auto t) { return m.try_lock_for(t); })); asked(d); attempt(got, r.k.arg, "try_lock_for()"); } break;
            case 3: if constexpr (Timed) { LOG("try_lock_until"); bool got = false; until(s, [&](ch::freertos_clock::time_point t) { got = KERNEL(m.try_lock_until(t)); }); attempt(got, r.k.arg, "try_lock_until()"); } break;
            case 4: { LOG("unlock"); bool ok = KERNEL(m.unlock()); CHECK_EQ(ok, held, "unlock() of a mutex which is " << (held ? "held" : "free")); held = false; acted++; break; }
            case 5: if (held) break; { LOG("lock_guard"); scoped = true; { estd::lock_guard<M> l(m); CHECK_EQ((unsigned)o.count, 0u, "held within the guard's scope"); } CHECK_EQ((unsigned)o.count, 1u, "free after the guard's scope"); acted++; } break;
            case 6: { LOG("unique_lock, try"); scoped = true; { estd::unique_lock<M> l(m, estd::try_to_lock_t{}); attempt(l.owns_lock(), 0, "unique_lock(try_to_lock)"); if (!l.owns_lock()) break; } held = false; CHECK_EQ((unsigned)o.count, 1u, "free after the lock's scope"); break; }
            default: if constexpr (Timed) { Span d = span(s); LOG("unique_lock for " << d); scoped = true; { estd::unique_lock<M> l(m, estd::defer_lock_t{}); bool got = KERNEL(with(d, [&](auto t) { return l.try_lock_for(t); })); asked(d); CHECK_EQ(l.owns_lock(), got, "owns_lock()"); attempt(got, r.k.arg, "unique_lock::try_lock_for()"); if (!got) break; } held = false; CHECK_EQ((unsigned)o.count, 1u, "free after the lock's scope"); } break;
            }
            r.k.irqs.clear();
        }
        LOG("destroy"); KERNEL(keep.reset());
    }
    r.done();
    if (waits) s.label("freed while waiting"); if (in_vain) s.label("time ran out"); if (scoped) s.label("scoped");
    if (acted >= 3 && waits + in_vain) s.nontrivial();
}
TARGET_FN(FR("mutex"), 1, (mutex<fr::mutex<false>, false, false>));
TARGET_FN(FR("mutex_static"), 1, (mutex<fr::mutex<true>, true, false>));
TARGET_FN(FR("timed_mutex"), 2, (mutex<fr::timed_mutex<false>, false, true>));
TARGET_FN(FR("timed_mutex_static"), 2, (mutex<fr::timed_mutex<true>, true, true>));
static_assert(std::is_same<estd::mutex, fr::mutex<false>>::value && std::is_same<estd::timed_mutex, fr::timed_mutex<false>>::value && std::is_same<estd::recursive_mutex, fr::recursive_mutex<false>>::value && std::is_same<estd::counting_semaphore<7>, fr::counting_semaphore<7, false>>::value, "what the names without freertos stand for");

template <class M, bool Static> void recursive(pbt::Source& s)
{
    Run r(s);
    static_assert(!std::is_copy_constructible<M>::value && !std::is_copy_assignable<M>::value, "a mutex has one owner");
    unsigned deepest = 0, refused = 0;
    {
        std::unique_ptr<M> keep(KERNEL(new M)); M& m = *keep;
        Obj& o = r.last(); CHECK_EQ(r.live(), 1u, "kernel objects made"); CHECK_EQ(o.is_static, Static, "made in storage of its own"); CHECK(o.kind == Kind::Recursive, "kind of kernel object made");
        int owner = 0; unsigned depth = 0;
        for (unsigned i = 0, steps = 1 + s.size(30); i < steps; i++)
        {
            CHECK_EQ((unsigned)o.depth, depth, "depth");
            int who = 1 + (int)s.choose(2); r.k.current = who == 1 ? r.me : r.other; bool free = !owner || owner == who;
            switch (s.choose(4))
            {
            case 0: if (!free) break; LOG("task " << who << " locks"); KERNEL(m.lock()); CHECK_EQ(r.k.arg, MAX, "lock() waits for ever"); owner = who; depth++; break;
            case 1: { LOG("task " << who << " tries"); bool got = KERNEL(m.try_lock()); CHECK_EQ(got, free, "try_lock()"); CHECK_EQ(r.k.arg, 0u, "ticks try_lock() waits"); if (got) { owner = who; depth++; } else refused++; break; }
            case 2: { LOG("task " << who << " unlocks"); bool ok = KERNEL(m.unlock()); CHECK_EQ(ok, owner == who, "unlock()"); if (ok && --depth == 0) owner = 0; if (!ok) refused++; break; }
            default: if (!free) break; { LOG("task " << who << " guards"); { estd::lock_guard<M> l(m); CHECK_EQ((unsigned)o.depth, depth + 1, "depth within the guard's scope"); } }
            }
            deepest = std::max(deepest, depth);
        }
        r.k.current = r.me; LOG("destroy"); KERNEL(keep.reset());
    }
    r.done();
    if (refused) s.label("refused"); if (deepest > 1 && refused) s.nontrivial();
}
TARGET_FN(FR("recursive_mutex"), 1, (recursive<fr::recursive_mutex<false>, false>));
TARGET_FN(FR("recursive_mutex_static"), 1, (recursive<fr::recursive_mutex<true>, true>));

// Queues. T is copied byte by byte.
struct Item { uint16_t a; uint8_t b[10]; bool operator==(const Item& i) const { return a == i.a && !memcmp(b, i.b, 10); } };
inline std::ostream& operator<<(std::ostream& o, const Item& i) { return o << "{" << i.a << "," << (int)i.b[0] << ".." << (int)i.b[9] << "}"; }
template <class T> T value(pbt::Source& s) { return (T)s.bits(32); }
template <> Item value<Item>(pbt::Source& s) { Item i; i.a = (uint16_t)s.bits(16); for (auto& b : i.b) b = (uint8_t)s.bits(8); return i; }
template <class T> std::string text(const T& v) { std::ostringstream o; o << +v; return o.str(); }
inline std::string text(const Item& v) { std::ostringstream o; o << v; return o.str(); }
template <class T, int Place> void queue(pbt::Source& s)      // Place: 0 dynamic, 1 static, 2 layer1
{
    Run r(s); constexpr unsigned L1 = 4;
    typedef fr::queue<T, Place != 0> Q0; typedef typename std::conditional<Place == 2, fr::layer1::queue<T, L1>, Q0>::type Q;
    static_assert(!std::is_copy_constructible<Q>::value && !std::is_copy_assignable<Q>::value, "a queue has one owner");
    unsigned room = Place == 2 ? L1 : 1 + (unsigned)s.choose(6), waits = 0, in_vain = 0, through = 0;
    std::unique_ptr<T[]> storage(Place == 1 ? new T[room] : nullptr);
    {
        Q* p; LOG("room for " << room);
        if constexpr (Place == 0) p = KERNEL(new Q(room)); else if constexpr (Place == 1) p = KERNEL(new Q(storage.get(), room)); else p = KERNEL(new Q);
        std::unique_ptr<Q> keep(p); Q& q = *p;
        Obj& o = r.last(); CHECK_EQ(r.live(), 1u, "kernel objects made"); CHECK_EQ(o.is_static, Place != 0, "made in given storage"); CHECK_EQ((unsigned)o.max, room, "length the kernel was told"); CHECK_EQ(o.item, sizeof(T), "item size the kernel was told");
        if (Place == 1) CHECK(o.storage == (uint8_t*)storage.get(), "storage the kernel was told");
        if (Place == 2) CHECK(o.storage >= (uint8_t*)p && o.storage + L1 * sizeof(T) <= (uint8_t*)(p + 1), "storage lies within the object");
        if constexpr (Place != 0) if (s.choose(4) == 0) { uint8_t* b = nullptr; StaticQueue_t* st = nullptr; CHECK(KERNEL(q.static_buffers(&b, &st)) == pdTRUE && b == o.storage && (void*)st == o.ctl, "static_buffers()"); }
        std::deque<T> m;
        auto same = [&]{ if (o.q.size() != m.size()) return false; for (size_t i = 0; i < m.size(); i++) { T v; memcpy(&v, o.q[i].data(), sizeof v); if (!(v == m[i])) return false; } return true; };
        for (unsigned i = 0, steps = 1 + s.size(30); i < steps; i++)
        {
            CHECK_EQ((unsigned)q.messages_waiting(), (unsigned)m.size(), "messages_waiting()"); CHECK(same(), "what the kernel holds is what was sent and not received");
            uint64_t t0 = r.k.now, g = 0; bool full = m.size() == room, empty = m.empty();
            unsigned op = (unsigned)s.choose(7); bool sending = op < 3; bool stuck = sending ? full : empty; bool soon = stuck && op != 6 && op != 2 && s.flip(); T extra{};
            if (soon)
            {
                g = t0 + (s.flip() ? s.choose(4) : s.choose(3000)); LOG("  (an interrupt " << (sending ? "receives" : "sends") << " " << g - t0 << " ticks on)");
                if (!sending) extra = value<T>(s);
                Obj* po = &o; Q* pq = &q;
                if (sending) rtos::at(g, [po]{ po->q.pop_front(); }); else rtos::at(g, [pq, extra]{ BaseType_t w = pdFALSE; CHECK(pq->send_from_isr(extra, &w) == pdTRUE && w == pdTRUE, "send_from_isr()"); });
            }
            auto outcome = [&](bool ok, uint64_t ticks, const char* what) {
                bool want;
                if (!stuck) { want = true; CHECK_EQ(r.k.now, t0, "does not wait when it need not"); }
                else if (soon && g <= t0 + ticks) { want = true; CHECK_EQ(r.k.now, g, "time waited"); waits++; if (sending) m.pop_front(); else m.push_back(extra); soon = false; }
                else { want = false; CHECK_EQ(r.k.now, t0 + ticks, "time waited in vain"); in_vain++; }
                CHECK_EQ(ok, want, std::string("result of ") + what); return want;
            };
            T got; memset((void*)&got, 0xEE, sizeof got);
            auto received = [&](bool ok) { if (ok) { CHECK(got == m.front(), "received " << text(got) << ", the oldest is " << text(m.front())); m.pop_front(); through++; } else { T e; memset((void*)&e, 0xEE, sizeof e); CHECK(got == e, "nothing is written when nothing was received"); } };
            switch (op)
            {
            case 0: { if (stuck && !soon) break; T v = value<T>(s); LOG("send " << text(v)); bool ok = KERNEL(q.send(v)); CHECK_EQ(r.k.arg, MAX, "send() waits for ever"); if (outcome(ok, 1u << 30, "send()")) m.push_back(v); break; }
            case 1: { T v = value<T>(s); Span d = span(s); while (d.n < 0) d = Span{0, 3, 3, 3}; LOG("send " << text(v) << " within " << d); bool ok = KERNEL(with(d, [&](auto t) { return q.send(v, t); })); asked(d); if (outcome(ok, r.k.arg, "send()")) m.push_back(v); break; }
            case 2: { T v = value<T>(s); LOG("send " << text(v) << " from an interrupt"); BaseType_t w = 5; bool null = s.flip(); BaseType_t ok = null ? KERNEL(q.send_from_isr(v)) : KERNEL(q.send_from_isr(v, &w)); CHECK(r.k.woken == (null ? nullptr : &w), "the task-woken flag is passed on"); CHECK_EQ(ok == pdTRUE, !full, "result of send_from_isr()"); if (!full) m.push_back(v); break; }
            case 3: { if (stuck && !soon) break; LOG("receive"); bool ok = KERNEL(q.receive(&got)); CHECK_EQ(r.k.arg, MAX, "receive() waits for ever"); received(outcome(ok, 1u << 30, "receive()")); break; }
            case 4: case 5: { Span d = span(s); while (d.n < 0) d = Span{0, 3, 3, 3}; LOG("receive within " << d); bool ok = KERNEL(with(d, [&](auto t) { return q.receive(&got, t); })); asked(d); received(outcome(ok, r.k.arg, "receive()")); break; }
            default:
            {
                fr::wrapper::queue w((QueueHandle_t)o.ctl); CHECK_EQ((unsigned)w.spaces_available(), room - (unsigned)m.size(), "spaces_available()"); CHECK((QueueHandle_t)w == o.ctl, "the handle"); CHECK(w.get_name() == nullptr, "get_name()");
                switch (s.choose(5))
                {
                case 0: { LOG("peek"); BaseType_t ok = s.flip() ? KERNEL(w.peek(&got, 0)) : KERNEL(w.peek_from_isr(&got)); CHECK_EQ(ok == pdTRUE, !empty, "result of peek()"); if (!empty) CHECK(got == m.front(), "peeked " << text(got)); break; }
                case 1: { LOG("reset"); CHECK(KERNEL(w.reset()) == pdPASS, "reset()"); m.clear(); break; }
                case 2: if (room == 1) { T v = value<T>(s); LOG("overwrite " << text(v)); BaseType_t f = 0; CHECK((s.flip() ? KERNEL(w.overwrite(&v)) : KERNEL(w.overwrite_from_isr(&v, &f))) == pdTRUE, "overwrite()"); m.assign(1, v); } break;
                case 3: { T v = value<T>(s); TickType_t t = (TickType_t)s.choose(50); LOG("send_to_back " << text(v)); BaseType_t ok = KERNEL(w.send_to_back(&v, t)); CHECK_EQ(ok == pdTRUE, !full, "result of send_to_back()"); CHECK_EQ(r.k.now, t0 + (full ? t : 0), "time waited"); if (!full) m.push_back(v); break; }
                default: { TickType_t t = (TickType_t)s.choose(50); LOG("receive (plain)"); BaseType_t ok = KERNEL(w.receive(&got, t)); CHECK_EQ(r.k.now, t0 + (empty ? t : 0), "time waited"); CHECK_EQ(ok == pdTRUE, !empty, "result of receive()"); if (!empty) { CHECK(got == m.front(), "received " << text(got)); m.pop_front(); through++; } }
                }
            }
            }
            r.k.irqs.clear();
        }
        LOG("destroy"); KERNEL(keep.reset());
    }
    r.done();
    if (waits) s.label("a wait was cut short"); if (in_vain) s.label("time ran out");
    if (through >= 2 && waits + in_vain) s.nontrivial();
}
TARGET_FN(FR("queue"), 2, (queue<uint32_t, 0>));
TARGET_FN(FR("queue_static"), 2, (queue<Item, 1>));
TARGET_FN(FR("queue_layer1"), 2, (queue<Item, 2>));
TARGET_FN(FR("queue_layer1_bytes"), 1, (queue<uint8_t, 2>));

template <bool Static> void events(pbt::Source& s)
{
    Run r(s); typedef fr::event_group<Static> G;
    static_assert(!std::is_copy_constructible<G>::value && !std::is_copy_assignable<G>::value, "an event group has one owner");
    unsigned waits = 0, in_vain = 0;
    {
        std::unique_ptr<G> keep(KERNEL(new G)); G& e = *keep;
        Obj& o = r.last(); CHECK_EQ(r.live(), 1u, "kernel objects made"); CHECK(o.kind == Kind::Events, "kind of kernel object made"); CHECK_EQ(o.is_static, Static, "made in storage of its own"); CHECK((EventGroupHandle_t)e == o.ctl, "the handle");
        if (Static) CHECK((char*)o.ctl >= (char*)&e && (char*)o.ctl + sizeof(StaticEventGroup_t) <= (char*)(&e + 1), "the storage is the object's own");
        EventBits_t bits = 0;
        auto some = [&]{ return (EventBits_t)(s.flip() ? 1u << s.choose(8) : s.choose(255) + 1); };
        for (unsigned i = 0, steps = 1 + s.size(25); i < steps; i++)
        {
            CHECK_EQ((unsigned)o.bits, (unsigned)bits, "bits in the kernel"); uint64_t t0 = r.k.now, g = 0; EventBits_t more = 0; unsigned op = (unsigned)s.choose(6); bool soon = op < 3 && s.flip();
            if (soon) { more = some(); g = t0 + (s.flip() ? s.choose(4) : s.choose(3000)); LOG("  (an interrupt sets " << more << " after " << g - t0 << " ticks)"); G* pe = &e; rtos::at(g, [pe, more]{ BaseType_t w = 0; CHECK(pe->set_bits_from_isr(more, &w) == pdPASS && w == pdTRUE, "set_bits_from_isr()"); }); }
            switch (op)
            {
            case 0: case 1:
            {
                EventBits_t b = some(); bool clear = s.flip(), all = s.flip(); Span d = span(s); while (d.n < 0) d = Span{0, 3, 3, 3}; LOG("wait_bits " << b << (all ? " all" : " any") << (clear ? " clear" : "") << " within " << d);
                EventBits_t v = KERNEL(with(d, [&](auto t) { return e.wait_bits(b, clear, all, t); })); asked(d); uint64_t ticks = r.k.arg;
                auto met = [&](EventBits_t x) { return all ? (x & b) == b : (x & b) != 0; };
                if (met(bits) && !(soon && g == t0)) CHECK_EQ(r.k.now, t0, "does not wait when it need not");
                else { if (soon && g <= t0 + ticks) { bits |= more; soon = false; } if (met(bits)) { waits++; CHECK_EQ(r.k.now, g, "time waited"); } else { in_vain++; CHECK_EQ(r.k.now, t0 + ticks, "time waited in vain"); } }
                CHECK_EQ((unsigned)v, (unsigned)bits, "bits wait_bits() gives"); if (met(bits) && clear) bits &= ~b; break;
            }
            case 2:
            {
                EventBits_t set = some(), b = some(); Span d = span(s); while (d.n < 0) d = Span{0, 3, 3, 3}; LOG("sync " << set << " for " << b << " within " << d);
                EventBits_t v = KERNEL(with(d, [&](auto t) { return e.sync(set, b, t); })); asked(d); uint64_t ticks = r.k.arg; bits |= set;
                if ((bits & b) == b && !(soon && g == t0)) CHECK_EQ(r.k.now, t0, "does not wait when it need not");
                else { if (soon && g <= t0 + ticks) { bits |= more; soon = false; } if ((bits & b) == b) { waits++; CHECK_EQ(r.k.now, g, "time waited"); } else { in_vain++; CHECK_EQ(r.k.now, t0 + ticks, "time waited in vain"); } }
                CHECK_EQ((unsigned)v, (unsigned)bits, "bits sync() gives"); if ((bits & b) == b) bits &= ~b; break;
            }
            case 3: { EventBits_t b = some(); LOG("set_bits " << b); bits |= b; CHECK_EQ((unsigned)KERNEL(e.set_bits(b)), (unsigned)bits, "set_bits()"); break; }
            case 4: { EventBits_t b = some(); LOG("clear_bits " << b); CHECK_EQ((unsigned)KERNEL(e.clear_bits(b)), (unsigned)bits, "clear_bits()"); bits &= ~b; break; }
            default: { EventBits_t b = some(); bool set = s.flip(); LOG("from an interrupt " << (set ? "set " : "clear ") << b); BaseType_t w = 5; if (set) { CHECK(KERNEL(e.set_bits_from_isr(b, &w)) == pdPASS && r.k.woken == &w, "set_bits_from_isr()"); bits |= b; } else { CHECK(KERNEL(e.clear_bits_from_isr(b)) == pdPASS, "clear_bits_from_isr()"); bits &= ~b; } }
            }
            r.k.irqs.clear();
        }
        LOG("destroy"); KERNEL(keep.reset());
    }
    r.done();
    if (waits) s.label("a wait was met"); if (in_vain) s.label("time ran out"); if (waits && in_vain) s.nontrivial();
}
TARGET_FN(FR("event_group"), 2, (events<false>));
TARGET_FN(FR("event_group_static"), 2, (events<true>));

struct Fired { TimerHandle_t h; uint64_t at; };
std::vector<Fired>* fired;
void on_timer(TimerHandle_t h) { fired->push_back(Fired{h, rtos::K->now}); }
std::vector<std::pair<void*, uint32_t>>* pended;
void on_pend(void* p, uint32_t v) { pended->push_back({p, v}); }
template <bool Static> void timers(pbt::Source& s)
{
    Run r(s); typedef fr::timer<Static> T; std::vector<Fired> got, want; fired = &got; std::vector<std::pair<void*, uint32_t>> calls, asked_calls; pended = &calls; int ids[3];
    static_assert(!std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value, "a timer has one owner");
    unsigned cut = 0;
    {
        auto some = [&]() { Span d; do d = span(s); while (d.lo == 0); return d; };
        Span d = s.flip() ? Span{2, (long long)(1 + s.choose(500)) * 1000 / (long long)HZ, 0, 0} : some(); if (!d.lo) { d.lo = d.hi = (uint64_t)d.n * HZ / 1000; if (!d.lo) { d.n = 10; d.lo = d.hi = 10 * HZ / 1000; } }
        bool reload = s.flip(); void* id = &ids[s.choose(3)]; std::string name = s.flip() ? "a" : "tick tock"; LOG("timer '" << name << "' " << d << (reload ? " over and over" : " once"));
        std::unique_ptr<T> keep(KERNEL(with(d, [&](auto t) { return new T(name.c_str(), t, reload, id, on_timer); }))); T& t = *keep; Obj& o = r.last();
        CHECK_EQ(r.live(), 1u, "kernel objects made"); CHECK(o.kind == Kind::Timer, "kind of kernel object made"); CHECK_EQ(o.is_static, Static, "made in storage of its own"); CHECK(o.period >= d.lo && o.period <= d.hi, "period the kernel was told: " << o.period << " ticks for " << d); CHECK_EQ(o.reload, reload, "auto reload the kernel was told");
        if (Static) CHECK((char*)o.ctl >= (char*)&t && (char*)o.ctl + sizeof(StaticTimer_t) <= (char*)(&t + 1), "the storage is the object's own");
        uint64_t period = o.period, due = 0; bool active = false; TimerHandle_t h = (TimerHandle_t)o.ctl;
        for (unsigned i = 0, steps = 1 + s.size(20); i < steps; i++)
        {
            const T& c = t;
            CHECK_EQ(KERNEL(c.active()), active, "active()"); CHECK_EQ(KERNEL(c.dormant()), !active, "dormant()"); CHECK_EQ(std::string(KERNEL(c.name())), name, "name()"); CHECK(KERNEL(c.id()) == id, "id()"); CHECK_EQ((uint64_t)KERNEL(c.period()).count(), period, "period()"); if (active) CHECK_EQ((uint64_t)KERNEL(c.expiry()).time_since_epoch().count(), (uint64_t)TickType_t(due), "expiry()");
            unsigned block = (unsigned)s.choose(2000); Ticks b{TickType_t(block)};
            switch (s.choose(10))
            {
            case 0: LOG("start"); CHECK(KERNEL(t.start(b)) == pdPASS && r.k.last == "timer_start" && r.k.arg == block, "start() with its wait of " << block); active = true; due = r.k.now + period; break;
            case 1: LOG("stop"); if (active) cut++; CHECK(KERNEL(t.stop(b)) == pdPASS && r.k.last == "timer_stop" && r.k.arg == block, "stop() with its wait of " << block); active = false; break;
            case 2: LOG("reset"); if (active) cut++; CHECK(KERNEL(t.reset(b)) == pdPASS && r.k.last == "timer_reset" && r.k.arg == block, "reset() with its wait of " << block); active = true; due = r.k.now + period; break;
            case 3: { Span p = some(); LOG("period " << p); CHECK(KERNEL(with(p, [&](auto x) { return t.period(x, b); })) == pdPASS && r.k.last == "timer_period" && r.k.arg == block, "period() with its wait of " << block); CHECK(o.period >= p.lo && o.period <= p.hi, "new period the kernel was told: " << o.period << " ticks for " << p); period = o.period; active = true; due = r.k.now + period; cut++; break; }
            case 4: id = &ids[s.choose(3)]; LOG("id"); KERNEL(t.id(id)); break;
            case 5: { BaseType_t w = 5; bool stop = s.flip(); LOG((stop ? "stop" : "reset") << " from an interrupt"); CHECK(KERNEL(stop ? t.stop_from_isr(&w) : t.reset_from_isr(&w)) == pdPASS && r.k.woken == &w && w == pdTRUE, "the task-woken flag is passed on"); active = !stop; if (!stop) due = r.k.now + period; break; }
            case 8:
            {
                fr::wrapper::timer& n = t.native(); BaseType_t w = 5; CHECK_EQ(std::string(n.get_name()), name, "get_name()"); CHECK(n.get_timer_id() == id && n.get_period() == period && (n.is_timer_active() == pdTRUE) == active, "the plain handle");
                switch (s.choose(6))
                {
                case 0: LOG("start (plain)"); CHECK(KERNEL(n.start((TickType_t)block)) == pdPASS && r.k.last == "timer_start" && r.k.arg == block, "start()"); active = true; due = r.k.now + period; break;
                case 1: LOG("start from an interrupt"); CHECK(KERNEL(n.start_from_isr(&w)) == pdPASS && r.k.last == "timer_start" && r.k.woken == &w, "start_from_isr()"); active = true; due = r.k.now + period; break;
                case 2: LOG("stop from an interrupt (plain)"); CHECK(KERNEL(n.stop_from_isr(&w)) == pdPASS && r.k.last == "timer_stop" && r.k.woken == &w, "stop_from_isr()"); active = false; break;
                case 3: LOG("reset from an interrupt (plain)"); CHECK(KERNEL(n.reset_from_isr(&w)) == pdPASS && r.k.last == "timer_reset" && r.k.woken == &w, "reset_from_isr()"); active = true; due = r.k.now + period; break;
                case 4: { TickType_t p = (TickType_t)(1 + s.choose(900)); LOG("change_period " << p); CHECK(KERNEL(n.change_period(p, (TickType_t)block)) == pdPASS && r.k.last == "timer_period" && r.k.arg == block && o.period == p, "change_period()"); period = p; active = true; due = r.k.now + p; cut++; break; }
                default: { uint32_t v = (uint32_t)s.bits(32); bool isr = s.flip(); LOG("pend " << v << " (plain)"); CHECK((isr ? KERNEL(fr::wrapper::timer::pend_function_call_from_isr(on_pend, id, v, &w)) : KERNEL(fr::wrapper::timer::pend_function_call(on_pend, id, v, (TickType_t)block))) == pdPASS, "pend_function_call()"); if (isr) CHECK(r.k.woken == &w, "the task-woken flag is passed on"); else CHECK_EQ(r.k.arg, block, "wait"); asked_calls.push_back({id, v}); rtos::irq_point(); }
                }
                break;
            }
            case 6: { int x; uint32_t v = (uint32_t)s.bits(32); LOG("pend " << v); (void)x; CHECK(KERNEL(T::pend_function_call(on_pend, id, v, b)) == pdPASS && r.k.last == "pend" && r.k.arg == block, "pend_function_call() with its wait of " << block); asked_calls.push_back({id, v}); rtos::irq_point(); if (active && due <= r.k.now) {} break; }
            default:
            {
                uint64_t to = r.k.now + (active && s.flip() && due - r.k.now < 1000000 ? due - r.k.now + s.choose(3) - 1 : s.choose((unsigned)std::min<uint64_t>(4 * period + 1, 20000)) / (period < 20 ? 100 : 1)); if (to < r.k.now) to = r.k.now; LOG(to - r.k.now << " ticks go by"); rtos::advance_to(to);
                while (active && due <= to) { want.push_back(Fired{h, due}); if (reload) due += period; else active = false; }
            }
            }
            CHECK_EQ(got.size(), want.size(), "times fired"); for (size_t k = 0; k < got.size(); k++) CHECK(got[k].h == h && got[k].at == want[k].at, "fired at " << got[k].at << ", due at " << want[k].at); CHECK(calls == asked_calls, "pended calls made, with what they were given");
        }
        LOG("destroy"); KERNEL(keep.reset()); CHECK_EQ(r.k.last, std::string("timer_delete"), "last call"); CHECK(r.k.arg >= HZ / 10, "the destructor waits " << r.k.arg << " ticks for its command to be taken");
        size_t n = got.size(); rtos::advance_to(r.k.now + 2 * period); CHECK_EQ(got.size(), n, "nothing fires after that");
    }
    r.done();
    if (want.size() > 1) s.label("fired more than once"); if (want.size() && cut) s.nontrivial();
}
TARGET_FN(FR("timer"), 2, (timers<false>));
TARGET_FN(FR("timer_static"), 2, (timers<true>));

// Handles without an owner, tasks and waiting.
void task_code(void*) {}
BaseType_t hook_a(void*) { return 1; }
BaseType_t hook_b(void*) { return 2; }
void handles(pbt::Source& s)
{
    Run r(s); typedef fr::wrapper::semaphore W; typedef fr::wrapper::task T; unsigned acted = 0;
    {
        StaticSemaphore_t room[8]; unsigned made = 0; std::vector<std::pair<W, unsigned>> sems; std::vector<std::unique_ptr<StackType_t[]>> stacks; std::vector<std::unique_ptr<StaticTask_t>> statics;
        struct St { T t; uint32_t note; bool pending, suspended; TaskHookFunction_t tag; std::string name; bool is_static; unsigned serial; }; std::vector<St> tasks; std::deque<std::string> names; std::vector<std::unique_ptr<T::storage<256>>> own;
        for (unsigned i = 0, steps = 1 + s.size(25); i < steps; i++)
        {
            switch (s.choose(5))
            {
            case 0:
            {
                if (made == 8) break;
                unsigned kind = (unsigned)s.choose(4); bool st = s.flip(); UBaseType_t max = kind == 1 ? 1 + s.choose(9) : 1, n = kind == 1 ? s.choose(max + 1) : kind >= 2; W w; SemaphoreHandle_t h; StaticSemaphore_t* at = &room[made];
                LOG("create semaphore " << kind << (st ? " static" : ""));
                if (kind == 0) h = st ? KERNEL(w.create_binary(at)) : KERNEL(w.create_binary()); else if (kind == 1) h = st ? KERNEL(w.create_counting(max, n, at)) : KERNEL(w.create_counting(max, n)); else if (kind == 2) h = st ? KERNEL(w.create_mutex(at)) : KERNEL(w.create_mutex()); else h = st ? KERNEL(w.create_recursive_mutex(at)) : KERNEL(w.create_recursive_mutex());
                Obj& o = r.last(); CHECK(h == o.ctl && (SemaphoreHandle_t)w == h, "the handle"); Kind want[] = {Kind::Binary, Kind::Counting, Kind::Mutex, Kind::Recursive}; CHECK(o.kind == want[kind] && o.is_static == st && o.max == max && o.count == n, "what the kernel was asked for"); if (st) { CHECK(o.ctl == at, "made in the given storage"); made++; }
                sems.push_back({w, o.serial}); break;
            }
            case 1:
            {
                if (sems.empty()) break; size_t k = s.choose((unsigned)sems.size()); W w = sems[k].first; Obj& o = *r.k.objs[sems[k].second]; acted++;
                if (s.choose(3) == 0) { LOG("free"); KERNEL(w.free()); CHECK(!o.live, "freed"); sems.erase(sems.begin() + (long)k); break; }
                UBaseType_t n = o.count; TickType_t t = (TickType_t)s.choose(20); uint64_t t0 = r.k.now;
                if (o.kind == Kind::Recursive) { unsigned d = (unsigned)o.depth; if (s.flip()) { LOG("take_recursive"); CHECK(KERNEL(w.take_recursive(t)) == pdTRUE && o.depth == d + 1, "take_recursive()"); } else { LOG("give_recursive"); CHECK_EQ(KERNEL(w.give_recursive()) == pdTRUE, d > 0, "give_recursive()"); } CHECK(w.mutex_holder() == (o.depth ? r.me : nullptr), "mutex_holder()"); }
                else if (s.flip()) { LOG("take"); CHECK_EQ(KERNEL(w.take(t)) == pdTRUE, n > 0, "take()"); CHECK_EQ(r.k.now, t0 + (n ? 0 : t), "time waited"); CHECK_EQ((unsigned)w.count(), (unsigned)(n ? n - 1 : 0), "count()"); }
                else { LOG("give"); CHECK_EQ(KERNEL(w.give()) == pdTRUE, n < o.max, "give()"); CHECK_EQ((unsigned)w.count(), (unsigned)std::min<UBaseType_t>(n + 1, o.max), "count()"); }
                break;
            }
            case 2:
            {
                names.push_back("task" + std::to_string(s.choose(100))); const char* name = names.back().c_str(); uint32_t depth = 16 + (uint32_t)s.choose(64); int arg; UBaseType_t prio = s.choose(20); unsigned how = (unsigned)s.choose(3); T t; const void* stack = nullptr; void* cb = nullptr; LOG("create task " << name << " " << how);
                if (how == 0) { bool fail = s.choose(4) == 0; r.k.fail_creates = fail; BaseType_t ok = KERNEL(t.create(task_code, name, depth, &arg, prio)); CHECK_EQ(ok == pdPASS, !fail, "result of create()"); if (fail) break; }
                else if (how == 1) { stacks.emplace_back(new StackType_t[depth]); statics.emplace_back(new StaticTask_t); stack = stacks.back().get(); cb = statics.back().get(); t = KERNEL(T::create_static(task_code, name, depth, &arg, prio, stacks.back().get(), statics.back().get())); }
                else { own.emplace_back(new T::storage<256>); depth = 256 / sizeof(StackType_t); stack = own.back()->stack; cb = &own.back()->task; t = KERNEL(T::create_static(task_code, name, &arg, prio, own.back().get())); }
                Obj& o = r.last(); CHECK((TaskHandle_t)t == o.ctl, "the handle"); CHECK(o.code == task_code && o.name == name && o.stack == depth && o.arg == &arg && o.prio == prio && o.stack_at == stack && o.is_static == (how != 0) && (!cb || o.ctl == cb), "what the kernel was asked for");
                tasks.push_back(St{t, 0, false, false, nullptr, name, how != 0, o.serial}); break;
            }
            case 3:
            {
                if (tasks.empty()) break; St& t = tasks[s.choose((unsigned)tasks.size())]; acted++; uint32_t v = (uint32_t)s.bits(32); BaseType_t w = 0; CHECK_EQ(std::string(KERNEL(t.t.name())), t.name, "name()");
                switch (s.choose(8))
                {
                case 0: LOG("notify_give"); switch (s.choose(4)) { case 0: CHECK(KERNEL(t.t.notify_give()) == pdPASS, "notify_give()"); break; case 1: CHECK(KERNEL(t.t.notify_give(0)) == pdPASS, "notify_give(0)"); break; case 2: KERNEL(t.t.notify_give_from_isr()); break; default: KERNEL(t.t.notify_give_from_isr(&w)); CHECK(w == pdTRUE, "the task-woken flag is passed on"); } t.note++; t.pending = true; break;
                case 1: case 2: { eNotifyAction a = (eNotifyAction)s.choose(5); bool isr = s.flip(); bool refuse = a == eSetValueWithoutOverwrite && t.pending; LOG("notify " << v << " " << (int)a); CHECK_EQ((isr ? KERNEL(t.t.notify_from_isr(v, a, &w)) : KERNEL(t.t.notify(v, a))) == pdPASS, !refuse, "result of notify()"); t.pending = true; if (a == eSetBits) t.note |= v; else if (a == eIncrement) t.note++; else if (a != eNoAction && !refuse) t.note = v; break; }
                case 3: LOG("value_clear " << v); CHECK_EQ(KERNEL(t.t.notify_value_clear(v)), t.note, "notify_value_clear()"); t.note &= ~v; break;
                case 4: LOG("state_clear"); CHECK_EQ(KERNEL(t.t.notify_state_clear()) == pdTRUE, t.pending, "notify_state_clear()"); t.pending = false; break;
                case 5: LOG("suspend"); KERNEL(t.t.suspend()); t.suspended = true; break;
                case 6: LOG("resume"); KERNEL(t.t.resume()); t.suspended = false; break;
                default: t.tag = s.flip() ? hook_a : hook_b; LOG("tag"); KERNEL(t.t.tag(t.tag)); 
                }
                CHECK(KERNEL(t.t.state()) == (t.suspended ? eSuspended : eReady), "state()"); CHECK(KERNEL(t.t.tag()) == t.tag, "tag()"); CHECK_EQ(r.k.objs[t.serial]->note, t.note, "notification value");
                break;
            }
            default:
            {
                uint64_t t0 = r.k.now; acted++; CHECK((TaskHandle_t)T::current() == r.me && estd::this_thread::get_id() == r.me, "the task running"); CHECK_EQ((uint64_t)ch::freertos_clock::now().time_since_epoch().count(), (uint64_t)TickType_t(t0), "now()"); CHECK_EQ((uint64_t)fr::max_delay().count(), MAX, "max_delay()");
                switch (s.choose(3))
                {
                case 0: { Span d = span(s); LOG("sleep_for " << d); with(d, [&](auto t) { estd::this_thread::sleep_for(t); return 0; }); asked(d); CHECK_EQ(r.k.now, t0 + r.k.arg, "time slept"); break; }
                case 1: { LOG("sleep_until"); until(s, [&](ch::freertos_clock::time_point t) { estd::this_thread::sleep_until(t); }); CHECK_EQ(r.k.now, t0 + r.k.arg, "time slept"); break; }
                default: { unsigned y = r.k.yields; estd::this_thread::yield(); CHECK_EQ(r.k.yields, y + 1, "yield()"); }
                }
            }
            }
        }
        for (auto& w : sems) w.first.free();
        for (auto& t : tasks) vTaskDelete(t.t);
    }
    r.done(); if (acted >= 4) s.nontrivial();
}
TARGET_FN(FR("handles"), 3, handles);
}
