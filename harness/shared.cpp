// Shared ownership: reference counts, identity and the one release, against a table of owners.
#include <estd/memory.h>
#include <estd/internal/linked_ref.h>
#include "pbt.h"
#include <memory>
#include <new>

namespace {
using pbt::Life; using pbt::Tracked; using estd::operator==;
namespace l1 = estd::layer1; namespace l2 = estd::layer2; namespace l3 = estd::layer3;

// ---- deleters which record ----
struct Released { int times = 0; const void* what = nullptr; };
Released g_released[3];
struct Functor { int who; void operator()(Tracked* t) const { g_released[who].times++; g_released[who].what = t; t->~Tracked(); } };
template <int who> void plain(Tracked* t) { g_released[who].times++; g_released[who].what = t; t->~Tracked(); }

// a master of any flavour, behind one face
struct Master
{
    int who;
    explicit Master(int w) : who(w) {}
    virtual ~Master() {}
    virtual bool active() = 0;               // holds a reference itself
    virtual void make(int v) = 0;            // only when nothing is shared
    virtual void reset() = 0;
    virtual unsigned use_count() = 0;
    virtual Tracked* get() = 0;
    virtual Tracked& star() = 0;
    virtual void share(void* room) = 0;      // construct a layer3 pointer there
    virtual void assign(l3::shared_ptr<Tracked>& p) = 0;
    virtual bool same(const l3::shared_ptr<Tracked>& p) = 0;
    virtual bool records() = 0;
    virtual bool reusable() = 0;
};
template <class P, bool rec> struct Inline : Master     // layer1: the object lives in the pointer
{
    P p; bool holds = false;
    template <class... A> Inline(int w, A&&... a) : Master(w), p(std::forward<A>(a)...) {}
    bool active() override { return holds; }
    void make(int v) override { p.construct(v); holds = true; }
    void reset() override { p.reset(); holds = false; }
    unsigned use_count() override { return p.use_count(); }
    Tracked* get() override { return p.get(); }
    Tracked& star() override { CHECK(p.operator->() == p.get(), "-> and get()"); return *p; }
    void share(void* room) override { new (room) l3::shared_ptr<Tracked>(p); }
    void assign(l3::shared_ptr<Tracked>& q) override { auto& r = (q = p); CHECK(&r == &q, "assignment returns the object"); }
    bool same(const l3::shared_ptr<Tracked>& q) override { return p == q && q == p; }
    bool records() override { return rec; }
    bool reusable() override { return true; }
};
template <class P, bool rec> struct Outside : Master    // layer2: the object lives elsewhere
{
    alignas(Tracked) unsigned char room[sizeof(Tracked)]; alignas(P) unsigned char ptr[sizeof(P)]; P* p = nullptr; bool holds = false; Functor f{0}; void (*fn)(Tracked*) = nullptr;
    explicit Outside(int w) : Master(w) { f.who = w; fn = w == 0 ? plain<0> : w == 1 ? plain<1> : plain<2>; }
    ~Outside() { if (p) p->~P(); }
    bool active() override { return holds; }
    void make(int v) override
    {
        if (p) p->~P();
        memset(ptr, 0xA5, sizeof ptr); auto t = new (room) Tracked(v);
        if constexpr (std::is_same<P, l2::shared_ptr<Tracked, Functor>>::value) p = new (ptr) P(t, f);
        else if constexpr (std::is_same<P, l2::shared_ptr<Tracked, void (*)(Tracked*)>>::value) p = new (ptr) P(t, fn);
        else p = new (ptr) P(t);
        holds = true;
    }
    void reset() override { if (p) p->reset(); holds = false; }
    unsigned use_count() override { return p ? p->use_count() : 0; }
    Tracked* get() override { return p->get(); }
    Tracked& star() override { CHECK(p->operator->() == p->get(), "-> and get()"); return **p; }
    void share(void* r) override { new (r) l3::shared_ptr<Tracked>(*p); }
    void assign(l3::shared_ptr<Tracked>& q) override { q = *p; }
    bool same(const l3::shared_ptr<Tracked>& q) override { return *p == q && q == *p; }
    bool records() override { return rec; }
    bool reusable() override { return true; }
};
typedef void (*Fn)(Tracked*);
std::unique_ptr<Master> master(int kind, int who)
{
    switch (kind)
    {
    case 0: return std::make_unique<Inline<l1::shared_ptr<Tracked>, false>>(who);
    case 1: return std::make_unique<Inline<l1::shared_ptr<Tracked, Functor>, true>>(who, Functor{who});
    case 2: return std::make_unique<Inline<l1::shared_ptr<Tracked, Fn>, true>>(who, who == 0 ? plain<0> : who == 1 ? plain<1> : plain<2>);
    case 3: return std::make_unique<Outside<l2::shared_ptr<Tracked>, false>>(who);
    case 4: return std::make_unique<Outside<l2::shared_ptr<Tracked, Functor>, true>>(who);
    default: return std::make_unique<Outside<l2::shared_ptr<Tracked, Fn>, true>>(who);
    }
}

TARGET(shared_histories, 8)
{
    Life::reset();
    constexpr int M = 3, N = 5;
    typedef l3::shared_ptr<Tracked> S;
    std::unique_ptr<Master> m[M]; int kinds[M], value[M] = {}, expected[M] = {}; bool live[M] = {}; Tracked* where[M] = {};
    for (int i = 0; i < M; i++) { kinds[i] = (int)s.choose(6); m[i] = master(kinds[i], i); g_released[i] = Released(); }
    alignas(S) unsigned char room[N][sizeof(S)]; int owner[N];   // -1: shares nothing
    auto at = [&](int k) -> S& { return *(S*)room[k]; };
    for (int k = 0; k < N; k++)      // all start with nothing, made from a master which has let go or never began
    { memset(room[k], 0xA5, sizeof(S)); m[0]->make(1); m[0]->reset(); g_released[0] = Released(); m[0]->share(room[k]); owner[k] = -1; }
    auto count = [&](int i) { int n = m[i]->active(); for (int k = 0; k < N; k++) n += owner[k] == i; return n; };
    bool after_reset = false, self = false, remade = false, last_elsewhere = false; int shares = 0;
    unsigned steps = 1 + s.size(40);
    for (unsigned step = 0; step < steps; step++)
    {
        int i = (int)s.choose(M), k = (int)s.choose(N), j = (int)s.choose(N); int before[M]; for (int q = 0; q < M; q++) before[q] = count(q);
        switch (s.choose(12))
        {
        case 0: case 1: if (before[i] == 0) { int v = 1 + (int)s.choose(1000); LOG("make " << v << " in master " << i << " (kind " << kinds[i] << ")"); if (where[i]) remade = true; m[i]->make(v); value[i] = v; live[i] = true; where[i] = m[i]->get(); } break;
        case 2: if (where[i]) { LOG("reset master " << i); m[i]->reset(); } break;
        case 3: case 4: if (where[i]) { LOG("pointer " << k << " shares master " << i << (m[i]->active() ? "" : " (inactive)")); at(k).~S(); owner[k] = -2; memset(room[k], 0xA5, sizeof(S)); m[i]->share(room[k]); owner[k] = m[i]->active() ? i : -1; shares++; } break;
        case 5: if (where[i]) { LOG("pointer " << k << " = master " << i << (m[i]->active() ? "" : " (inactive)")); m[i]->assign(at(k)); owner[k] = m[i]->active() ? i : -1; shares++; } break;
        case 6: if (k != j) { LOG("pointer " << k << " copied from " << j); at(k).~S(); memset(room[k], 0xA5, sizeof(S)); new (room[k]) S(at(j)); owner[k] = owner[j]; if (owner[j] >= 0) { shares++; if (!m[owner[j]]->active()) after_reset = true; } } break;
        case 7: { LOG("pointer " << k << " = pointer " << j); if (k == j && owner[k] >= 0) self = true; S& r = (at(k) = at(j)); CHECK(&r == &at(k), "assignment returns the object"); owner[k] = owner[j]; if (owner[j] >= 0 && k != j) { shares++; if (!m[owner[j]]->active()) after_reset = true; } break; }
        case 8: if (k != j) { LOG("pointer " << k << " moved from " << j); at(k).~S(); memset(room[k], 0xA5, sizeof(S)); new (room[k]) S(std::move(at(j))); owner[k] = owner[j]; owner[j] = -1; } break;
        case 9: { LOG("swap " << k << " and " << j); at(k).swap(at(j)); std::swap(owner[k], owner[j]); break; }
        case 10: { LOG("reset pointer " << k); at(k).reset(); owner[k] = -1; break; }
        default: if (owner[k] >= 0) { int v = 1 + (int)s.choose(1000); LOG("set through " << k << " to " << v); if (s.flip()) at(k)->v = v; else (*at(k)).v = v; value[owner[k]] = v; } break;
        }
        long alive = 0;
        for (int q = 0; q < M; q++)
        {
            const int now = count(q);
            if (live[q] && now == 0) { live[q] = false; expected[q]++; if (before[q] == 1 && !m[q]->active()) last_elsewhere = true; }
            alive += live[q];
            if (where[q]) CHECK(Life::alive(where[q]) == live[q], "object " << q << (live[q] ? " was destroyed though it is shared" : " was not destroyed though nothing shares it"));
            CHECK_EQ((int)m[q]->use_count(), m[q]->active() ? now : 0, "use_count() of master " + std::to_string(q));
            if (m[q]->records()) { CHECK_EQ(g_released[q].times, expected[q], "times the deleter of master " + std::to_string(q) + " ran"); if (expected[q]) CHECK(g_released[q].what == where[q], "the deleter was given another object"); }
            if (where[q] && m[q]->active()) { CHECK(m[q]->get() == where[q], "get() of master " << q); CHECK_EQ(m[q]->star().v, value[q], "value through master " + std::to_string(q)); }
        }
        CHECK_EQ(Life::live(), alive, "objects alive");
        for (int q = 0; q < N; q++)
        {
            const S& p = at(q);
            CHECK_EQ((int)p.use_count(), owner[q] < 0 ? 0 : count(owner[q]), "use_count() of pointer " + std::to_string(q));
            CHECK(p.get() == (owner[q] < 0 ? nullptr : where[owner[q]]), "get() of pointer " << q);
            if (owner[q] >= 0) { CHECK_EQ(p->v, value[owner[q]], "value through pointer " + std::to_string(q)); CHECK(&*p == p.get(), "* and get()"); }
            for (int z = 0; z < N; z++) CHECK((p == at(z)) == (owner[q] == owner[z]), "== of pointers " << q << " and " << z);
            for (int z = 0; z < M; z++) if (where[z] && m[z]->active()) CHECK(m[z]->same(p) == (owner[q] == z), "== of pointer " << q << " and master " << z);
            for (int z = 0; z < N; z++) if (owner[q] >= 0 && owner[z] >= 0) { bool a = p.owner_before(at(z)), b = at(z).owner_before(p); CHECK((!a && !b) == (owner[q] == owner[z]) && !(a && b), "owner_before() of pointers " << q << " and " << z); }
        }
    }
    if (after_reset) s.label("copied after the master let go");
    if (self) s.label("assigned to itself");
    if (remade) s.label("made again");
    if (last_elsewhere) s.label("released by another");
    if (shares >= 3 && steps > 5) s.nontrivial();
    // everyone leaves, the masters last
    while (true) { bool any = false; for (int k = 0; k < N; k++) if (owner[k] != -3) any = true; if (!any) break; int k = (int)s.choose(N); while (owner[k] == -3) k = (k + 1) % N; at(k).~S(); owner[k] = -3; }
    for (int i = 0; i < M; i++)
    {
        bool held = m[i]->active(), rec = m[i]->records(); m[i].reset();
        if (rec) CHECK_EQ(g_released[i].times, expected[i] + (live[i] ? 1 : 0), "times the deleter of master " + std::to_string(i) + " ran in all");
        (void)held;
    }
    CHECK_EQ(Life::live(), 0L, "objects alive at the end");
}

// ---- structures which share with themselves ----
struct Node : Tracked { l3::shared_ptr<Node> next; Node(int v, l3::shared_ptr<Node>& n) : Tracked(v), next(n) {} };
TARGET(shared_chain, 2)
{
    Life::reset();
    typedef l3::shared_ptr<Node> S;
    constexpr int N = 6;
    l1::shared_ptr<Node> nodes[N]; l1::shared_ptr<Node> none;
    S nothing(none), head(none); CHECK(nothing.get() == nullptr && head.use_count() == 0, "a pointer made from an unmade object shares nothing");
    int n = 1 + (int)s.choose(N); bool longer = n > 1;
    for (int i = n - 1; i >= 0; i--) { nodes[i].construct(i, head); head = nodes[i]; nodes[i].reset(); }
    int first = 0;
    S second(nothing); int second_at = -1;
    for (unsigned step = 0, steps = 1 + (unsigned)s.size(12); step < steps && first < n; step++)
    {
        switch (s.choose(4))
        {
        case 0: case 1: LOG("head = head->next"); head = head->next; first++; break;     // the source lives in what is let go
        case 2: { int d = (int)s.choose(n - first); S* p = &head; for (int i = 0; i < d; i++) p = &(*p)->next; LOG("second = node " << first + d); second = *p; second_at = first + d; break; }
        default: LOG("second reset"); second.reset(); second_at = -1; break;
        }
        int from = second_at >= 0 ? std::min(first, second_at) : first; if (from > n) from = n;
        CHECK_EQ(Life::live(), (long)(n - from), "nodes alive");
        int want = first; for (const S* p = &head; p->get(); p = &(*p)->next, want++) { CHECK_EQ((*p)->v, want, "node in order"); CHECK_EQ((int)p->use_count(), 1 + (second_at == want) + (want == first && second_at >= 0 && second_at < first), "use_count() along the chain"); }
        CHECK_EQ(want, n, "length of the chain");
    }
    if (longer && first > 0) s.nontrivial();
    if (s.flip()) { head.reset(); second.reset(); } else { second.reset(); head.reset(); }
    CHECK_EQ(Life::live(), 0L, "nodes alive at the end");
}

// ---- references in a ring ----
struct RingTraits { static int last, times; static bool null(int v) { return v == -1; } static void destruct(int v) { last = v; times++; } };
int RingTraits::last, RingTraits::times;
TARGET(linked_refs, 4)
{
    typedef estd::internal::linked_ref<int, RingTraits> R;
    constexpr int N = 7;
    alignas(R) unsigned char room[N][sizeof(R)]; int value[N]; bool there[N] = {}, gone[N] = {};   // gone: moved from
    auto at = [&](int k) -> R& { return *(R*)room[k]; };
    auto count = [&](int v) { int c = 0; for (int k = 0; k < N; k++) c += there[k] && !gone[k] && value[k] == v; return c; };
    int next = 0, moves = 0, copies = 0; bool large = false;
    unsigned steps = 1 + s.size(50);
    for (unsigned step = 0; step <= steps + N; step++)
    {
        int k = step <= steps ? (int)s.choose(N) : (int)(step - steps - 1), j = (int)s.choose(N); RingTraits::times = 0;
        int expect = 0, which = 0;
        if (there[k])
        {
            if (!gone[k]) { which = value[k]; expect = count(which) == 1; }
            LOG("destroy " << k); there[k] = false; at(k).~R();
            CHECK_EQ(RingTraits::times, expect, "times the value was released"); if (expect) CHECK_EQ(RingTraits::last, which, "value released");
        }
        else if (step <= steps)
        {
            memset(room[k], 0xA5, sizeof(R)); gone[k] = false;
            bool can = there[j] && !gone[j]; unsigned op = (unsigned)s.choose(5);
            if (!can || op == 0) { LOG("new value " << next << " in " << k); value[k] = next++; new (room[k]) R(value[k]); }
            else if (op == 1) { LOG("move " << j << " to " << k); value[k] = value[j]; new (room[k]) R(std::move(at(j))); gone[j] = true; moves++; CHECK(at(j).next() == nullptr, "a moved from reference is unlinked"); }
            else { LOG("copy " << j << " to " << k); value[k] = value[j]; new (room[k]) R((const R&)at(j)); copies++; }
            there[k] = true;
            CHECK_EQ(RingTraits::times, 0, "times a value was released by taking a reference");
        }
        for (int q = 0; q < N; q++) if (there[q] && !gone[q])
        {
            int c = count(value[q]); if (c > 3) large = true;
            CHECK_EQ(at(q).count_shared(), c, "count_shared() of " + std::to_string(q));
            bool seen[N] = {}; R* r = &at(q); for (int z = 0; z < c; z++) { int w = -1; for (int y = 0; y < N; y++) if (there[y] && r == &at(y)) w = y; CHECK(w >= 0 && !gone[w] && value[w] == value[q] && !seen[w], "the ring of " << q << " holds another"); seen[w] = true; r = r->next(); } CHECK(r == &at(q), "the ring of " << q << " does not close");
        }
    }
    if (moves && copies > 1) s.nontrivial();
    if (large) s.label("four or more share");
}
}
