// Function objects against the record each callable keeps of its own calls.
#include <estd/functional.h>
#include "pbt.h"
#include <array>
#include <memory>
#include <new>
#include <string>
#include <vector>

namespace {
using pbt::Life; using pbt::Tracked; using pbt::MoveOnly;
struct Counts { int copies = 0, moves = 0; } counts;
struct Item : Tracked
{
    Item() {}
    Item(int v) : Tracked(v) {}
    Item(const Item& o) : Tracked(o) { counts.copies++; }
    Item(Item&& o) : Tracked(std::move(o)) { counts.moves++; }
    Item& operator=(const Item& o) { Tracked::operator=(o); counts.copies++; return *this; }
    Item& operator=(Item&& o) { Tracked::operator=(std::move(o)); counts.moves++; return *this; }
};
#ifdef PBT_COPYABLE
#define HANDED Solo
#else
#define HANDED Solo&&
#endif
struct Solo : MoveOnly { using MoveOnly::MoveOnly; Solo() {} PBT_SOLO(Solo, MoveOnly) Solo(Solo&&) = default; Solo& operator=(Solo&&) = default; };

// what one call was given; every callable appends to it
struct Call { int who, state; const void* ref; int item; bool item_moved; int extra; int solo; };
std::vector<Call> calls;
typedef int Sig(Item, int&, const std::string&, HANDED);

// a callable with state of its own: who it is, how often it was called, and something to destroy
struct Functor
{
    int who; int state = 0; Item held;
    Functor(int w) : who(w), held(w) {}
    int operator()(Item i, int& r, const std::string& x, HANDED q) { CHECK(Life::alive(&held) && held.v == who && !held.moved, "callable " << who << " is used while intact"); state++; Solo taken(std::move(q)); calls.push_back(Call{who, state, &r, i.v, i.moved, (int)x.size(), taken.v}); r += who; return who * 1000 + state; }
};
struct SoloFunctor
{
    int who; int state = 0; Solo held;
    SoloFunctor(int w) : who(w), held(w) {}
    int operator()(Item i, int& r, const std::string& x, HANDED q) { CHECK(Life::alive(&held) && held.v == who && !held.moved, "callable " << who << " is used while intact"); state++; Solo taken(std::move(q)); calls.push_back(Call{who, state, &r, i.v, i.moved, (int)x.size(), taken.v}); r += who; return who * 1000 + state; }
};
struct Object
{
    int who, state = 0;
    Object(int w) : who(w) {}
    int method(Item i, int& r, const std::string& x, HANDED q) { state++; Solo taken(std::move(q)); calls.push_back(Call{who, state, &r, i.v, i.moved, (int)x.size(), taken.v}); r += who; return who * 1000 + state; }
    int other(Item i, int& r, const std::string& x, HANDED q) { state += 10; Solo taken(std::move(q)); calls.push_back(Call{who, state, &r, i.v, i.moved, (int)x.size(), taken.v}); r += who; return who * 1000 + state; }
    void plain() { state++; }
};
struct Model { int who = -1; int state = 0; };

// calls f, which is expected to reach callable m, and checks all that passed through
template <class F> void call(pbt::Source& s, F& f, Model& m, const char* what, int by = 1)
{
    calls.clear();
    const int v = (int)s.choose(50), q = (int)s.choose(50); int r = (int)s.choose(50); const int r0 = r; std::string x(s.choose(20), 'x'); bool rvalue = s.flip();
    LOG(what << ": call with " << v << (rvalue ? " as an rvalue" : " as an lvalue"));
    Item a(v); Solo solo(q); int ret;
    counts = Counts();
    if (rvalue) ret = f(std::move(a), r, x, std::move(solo)); else ret = f(a, r, x, std::move(solo));
    CHECK_EQ(calls.size(), 1u, what << ": the callable runs once per call");
    const Call& c = calls[0];
    CHECK_EQ(c.who, m.who, what << ": which callable ran");
    m.state += by;
    CHECK_EQ(c.state, m.state, what << ": state of the callable");
    CHECK_EQ(ret, m.who * 1000 + m.state, what << ": result");
    CHECK_EQ(c.item, v, what << ": argument by value"); CHECK(!c.item_moved, what << ": argument by value arrives intact");
    CHECK_EQ(a.moved, rvalue, what << ": an argument is moved from only if given as an rvalue");
    CHECK_EQ(counts.copies, rvalue ? 0 : 1, what << ": copies of an argument passed by value");
    CHECK_EQ(c.ref, (const void*)&r, what << ": a reference argument is the caller's object"); CHECK_EQ(r, r0 + m.who, what << ": changes through a reference argument");
    CHECK_EQ(c.extra, (int)x.size(), what << ": const reference argument"); CHECK_EQ(c.solo, q, what << ": rvalue reference argument"); CHECK(solo.moved, what << ": rvalue reference argument");
}

// ------------------------------------------------------------------ references to models, of every implementation
template <template <class> class Impl> void references(pbt::Source& s)
{
    Life::reset();
    typedef estd::detail::function<Sig, Impl<Sig>> F;
    typedef typename Impl<Sig>::template model<Functor> M1; typedef typename Impl<Sig>::template model<SoloFunctor> M2;
    typedef typename Impl<Sig>::template method_model<Object, &Object::method> M3; typedef typename Impl<Sig>::template method_model<Object, &Object::other> M4;
    unsigned called = 0, changes = 0;
    {
        Object o1(5), o2(6);
        M1 a(Functor(1)); M1 b(F::make_model(Functor(2))); M2 c(SoloFunctor(3)); M3 d(&o1), d2(&o2); M4 e(&o1);
        auto lam = [&](Item i, int& r, const std::string& x, HANDED q) { o2.state += 100; Solo taken(std::move(q)); calls.push_back(Call{9, o2.state, &r, i.v, i.moved, (int)x.size(), taken.v}); r += 9; return 9 * 1000 + o2.state; };
        typename F::template model<decltype(lam)> l(std::move(lam));
        typename F::model_base* base[] = { &a, &b, &c, &d, &d2, &e, &l };
        static const int whos[] = { 1, 2, 3, 5, 6, 5, 9 }, bys[] = { 1, 1, 1, 1, 1, 10, 100 };
        int states[7] = {}; // of the callable behind each model; 3 and 5 share o1, 4 and 6 share o2
        int share[] = { 0, 1, 2, 3, 4, 3, 4 };
        constexpr int S = 3;
        F f[S]; int at[S] = { -1, -1, -1 };
        for (int n = 0; n < S; n++) if (!s.one_in(4)) { at[n] = (int)s.choose(7); f[n] = base[at[n]]; }
        for (unsigned k = 0, steps = 2 + s.size(18); k < steps; k++)
        {
            int i = (int)s.choose(S), j = (int)s.choose(S), t = (int)s.choose(7);
            switch (s.choose(7))
            {
            case 0: LOG("f" << i << " = model " << t); f[i] = base[t]; at[i] = t; changes++; break;
            case 1: LOG("f" << i << " = F(model " << t << ")"); { F tmp(base[t]); f[i] = tmp; } at[i] = t; changes++; break;
            case 2: LOG("f" << i << " = f" << j); f[i] = f[j]; at[i] = at[j]; changes++; break;
            case 3: LOG("f" << i << " = nullptr"); f[i] = estd::nullptr_t{}; at[i] = -1; changes++; break;
            case 4: { F g(f[j]); LOG("call a copy of f" << j); CHECK_EQ((bool)g, at[j] >= 0, "a copy is empty just when its source is"); if (at[j] < 0) break; Model m{whos[at[j]], states[share[at[j]]]}; call(s, g, m, "a copy", bys[at[j]]); states[share[at[j]]] = m.state; called++; break; }
            default: { if (at[i] < 0) break; Model m{whos[at[i]], states[share[at[i]]]}; call(s, f[i], m, "a reference", bys[at[i]]); states[share[at[i]]] = m.state; called++; break; }
            }
            for (int n = 0; n < S; n++) { CHECK_EQ((bool)f[n], at[n] >= 0, "f" << n << " is set"); CHECK_EQ((const void*)f[n].getm(), (const void*)(at[n] >= 0 ? base[at[n]] : nullptr), "f" << n << " refers to its model"); }
            CHECK_EQ(a.f.state, states[0], "only the callable called changes"); CHECK_EQ(b.f.state, states[1], "only the callable called changes"); CHECK_EQ(c.f.state, states[2], "only the callable called changes");
            CHECK_EQ(o1.state, states[3], "only the object called changes"); CHECK_EQ(o2.state, states[4], "only the object called changes");
            Life::expect_live(3, "held by callables");
        }
    }
    Life::expect_live(0, "at the end");
    if (called >= 2 && changes >= 2) s.nontrivial();
    s.label(called ? "called" : "never called");
}
TARGET_FN("reference_fnptr1", 3, references<estd::detail::impl::function_fnptr1>);
TARGET_FN("reference_fnptr2", 3, references<estd::detail::impl::function_fnptr2>);
TARGET_FN("reference_virtual", 3, references<estd::detail::impl::function_virtual>);

// ------------------------------------------------------------------ owning functions
typedef estd::experimental::function<Sig> Own;
TARGET(owning, 6)
{
    Life::reset(); calls.clear();
    constexpr int S = 3;
    alignas(Own) static unsigned char mem[S][sizeof(Own)];
    struct M { bool set = false, copyable = true; Model m; } m[S];
    Own* o[S]; int next = 1; unsigned edits = 0, called = 0;
    for (int i = 0; i < S; i++) { memset(mem[i], 0xA5, sizeof mem[i]); m[i].m.who = next; o[i] = new (mem[i]) Own(Functor(next++)); m[i].set = true; }
    for (unsigned k = 0, steps = 1 + s.size(14); k < steps; k++)
    {
        int i = (int)s.choose(S), j = (int)s.choose(S);
        unsigned op = (unsigned)s.choose(13);
        switch (op)
        {
        case 0: LOG("f" << i << " = callable " << next); *o[i] = Functor(next); m[i] = M{true, true, {next, 0}}; next++; edits++; break;
        case 1: { LOG("f" << i << " = callable " << next << " as an lvalue"); Functor l(next); *o[i] = l; CHECK(!l.held.moved && l.held.v == next, "an lvalue callable is copied, not moved from"); m[i] = M{true, true, {next, 0}}; next++; edits++; break; }
        case 2: { LOG("f" << i << " rebuilt from callable " << next << " as an lvalue"); Functor l(next); o[i]->~Own(); new (o[i]) Own(l); CHECK(!l.held.moved && l.held.v == next, "an lvalue callable is copied, not moved from"); m[i] = M{true, true, {next, 0}}; next++; edits++; break; }
        case 3: { LOG("f" << i << " rebuilt from callable " << next << " as a const lvalue"); const Functor l(next); o[i]->~Own(); new (o[i]) Own(l); m[i] = M{true, true, {next, 0}}; next++; edits++; break; }
        case 4: LOG("f" << i << " = move-only callable " << next); *o[i] = SoloFunctor(next); m[i] = M{true, false, {next, 0}}; next++; edits++; break;
        case 5: if (i == j) break; LOG("f" << i << " moved from f" << j); o[i]->~Own(); new (o[i]) Own(std::move(*o[j])); m[i] = m[j]; m[j].set = false; edits++; break;
        case 6: LOG("f" << i << " = move(f" << j << ")"); *o[i] = std::move(*o[j]); if (i != j) { m[i] = m[j]; m[j].set = false; } edits++; break;
        case 7: if (i == j || (m[j].set && !m[j].copyable)) break; LOG("f" << i << " copied from f" << j); o[i]->~Own(); if (s.flip()) new (o[i]) Own(*o[j]); else new (o[i]) Own(static_cast<const Own&>(*o[j])); m[i] = m[j]; edits++; break;
        case 8: if (m[j].set && !m[j].copyable) break; LOG("f" << i << " = f" << j); if (s.flip()) *o[i] = *o[j]; else *o[i] = static_cast<const Own&>(*o[j]); m[i] = m[j]; edits++; break;
        case 9: { if (!m[i].set) break; LOG("through a reference to f" << i); estd::detail::function<Sig> r(*o[i]); CHECK((bool)r, "a reference to a function is set"); call(s, r, m[i].m, "a reference to an owning function"); called++; break; }
        default: if (m[i].set) { call(s, *o[i], m[i].m, "an owning function"); called++; } break;
        }
        long live = 0;
        for (int n = 0; n < S; n++) { CHECK_EQ((bool)*o[n], m[n].set, "f" << n << " is set"); live += m[n].set; }
        Life::expect_live(live, "one callable held per function set");
    }
    for (int n = 0; n < S; n++) o[n]->~Own();
    Life::expect_live(0, "at the end");
    if (edits >= 2 && called) s.nontrivial();
    s.label(edits ? "edited" : "only called");
}

// functions that carry their callable inside, and methods of objects
TARGET(in_place, 4)
{
    Life::reset();
    {
        int w = 1 + (int)s.choose(5);
        typedef estd::experimental::inline_function<Functor, Sig> In;
        Model m{w, 0}, m2;
        auto f = Own::make_inline2(Functor(w));
        static_assert(std::is_same<decltype(f), In>::value, "");
        std::unique_ptr<In> g;
        for (unsigned n = s.choose(4); n; n--) call(s, f, m, "an inline function");
        { In temp(f); m2 = m; for (unsigned n = s.choose(3); n; n--) call(s, temp, m2, "a copy of an inline function"); g.reset(new In(temp)); }
        for (unsigned n = 1 + s.choose(3); n; n--) call(s, *g, m2, "a copy of a copy that is gone");
        for (unsigned n = s.choose(3); n; n--) call(s, f, m, "the original after copies were called");
        estd::detail::function<Sig> r(f); call(s, r, m, "a reference to an inline function");
    }
    Life::expect_live(0, "after inline functions");
    {
        Object a(1 + (int)s.choose(5)), b(7); Model ma{a.who, 0}, mb{7, 0};
        typedef estd::internal::thisify_function<Sig> T;
        typedef estd::experimental::context_function<decltype(&Object::method), &Object::method> C;
        std::unique_ptr<T> held;
        {
            typename T::model<Object, &Object::method> ma1(&a); typename T::model<Object, &Object::other> mb1(&b);
            T f(ma1), g(mb1);
            call(s, f, ma, "a method"); call(s, g, mb, "another method", 10);
            if (s.flip()) held.reset(new T(f)); else { T mid(f); held.reset(new T(mid)); }
        }
        call(s, *held, ma, "a copy outlives what it was copied from");
        std::unique_ptr<C> c; { C first(&b); call(s, first, mb, "a method of a context"); c.reset(new C(first)); }
        call(s, *c, mb, "a copy outlives what it was copied from");
        CHECK_EQ(a.state, ma.state, "the object called on is the one named"); CHECK_EQ(b.state, mb.state, "the object called on is the one named");
        estd::internal::impl::method_model<Sig, Object, &Object::method> mm(&a);
        estd::detail::v2::function<Sig, estd::detail::impl::function_fnptr1> r(&mm);
        call(s, r, ma, "a method model");
    }
    Life::expect_live(0, "at the end");
    s.nontrivial();
}

// one-shot functions destroy what they hold right after the call; nothing destroys it again when only their memory is let go
template <class R> struct OneShot { static R ret(int v) { return (R)v; } };
template <> struct OneShot<void> { static void ret(int) {} };
template <class F> void result(pbt::Source&, F& f, int arg, int, std::true_type) { f(arg); }
template <class F> void result(pbt::Source&, F& f, int arg, int w, std::false_type) { CHECK_EQ(f(arg), w * 1000 + arg, "result of a one-shot function"); }
template <class R> void one_shot(pbt::Source& s)
{
    Life::reset();
    typedef estd::detail::v2::function<R(int), estd::detail::impl::function_fnptr2_opt> F;
    int w = (int)s.choose(100), arg = (int)s.choose(100), seen = -1;
    {
        Item held(w);
        auto lam = [held, &seen](int x) { CHECK(Life::alive(&held), "held value alive during the call"); seen = held.v * 1000 + x; return OneShot<R>::ret(seen); };
        typedef typename F::template model<decltype(lam)> M;
        alignas(M) unsigned char mem[sizeof(M)];
        M* m = new (mem) M(std::move(lam));
        long before = Life::live();
        F f(m);
        result(s, f, arg, w, std::is_void<R>());
        CHECK_EQ(seen, w * 1000 + arg, "the function ran with its argument");
        Life::expect_live(before - 1, "the held value goes with the call");
    }
    Life::expect_live(0, "at the end");
    s.nontrivial();
}
TARGET(one_shots, 1) { if (s.flip()) one_shot<int>(s); else one_shot<void>(s); }

// contexts passed after the arguments
struct Sums { int total = 0; };
inline int with_context(int a, const char* b, Sums* t, int k) { t->total += a * k; return a + (int)b[0] * 2 + k; }
TARGET(contexts, 1)
{
    Sums x; int k = (int)s.choose(20);
    typedef estd::internal::contextify_function<int(int, const char*), int> C;
    typename C::model<Sums*, &with_context> m(&x, int(k));
    estd::detail::function<int(int, const char*), estd::detail::impl::function_fnptr1<int(int, const char*)>> f(&m);
    int total = 0;
    for (unsigned n = 1 + s.choose(4); n; n--) { int a = (int)s.choose(50); const char* t = s.flip() ? "a" : "zz"; total += a * k; LOG("call " << a << " " << t << " context " << k); CHECK_EQ(f(a, t), a + (int)t[0] * 2 + k, "arguments first, then the contexts"); CHECK_EQ(x.total, total, "the context object is the one named"); }
    s.nontrivial();
}

// references to objects, invoke, comparisons
TARGET(small_pieces, 2)
{
    int v = (int)s.choose(100), w = (int)s.choose(100);
    Object a(3), b(4);
    { auto r = estd::ref(a); auto q = r; CHECK_EQ(&r.get(), &a, "ref"); Object& o = q; CHECK_EQ(&o, &a, "a copy of a reference"); q = estd::ref(b); CHECK_EQ(&q.get(), &b, "assigning a reference rebinds it"); CHECK_EQ(&r.get(), &a, "assigning a reference leaves others");
      const int n = v; auto c = estd::cref(n); const int& cn = c; CHECK_EQ(&cn, &n, "cref"); auto c2 = estd::cref(w); CHECK_EQ(&c2.get(), &w, "cref of a non-const object"); }
#if __cplusplus >= 201703L && !defined(NOSTD)
    {
        struct D : Object { D() : Object(8) {} int twice(int x) const { return 2 * x + state; } std::unique_ptr<int> pass(std::unique_ptr<int> p) { state++; return p; } int& self() { return state; } } d;
        d.state = v; auto up = std::unique_ptr<D>(new D); up->state = w; auto rw = estd::ref(d);
        CHECK_EQ(estd::invoke(&D::twice, d, w), 2 * w + v, "invoke on an object"); CHECK_EQ(estd::invoke(&D::twice, &d, w), 2 * w + v, "invoke on a pointer"); CHECK_EQ(estd::invoke(&D::twice, rw, w), 2 * w + v, "invoke on a reference wrapper"); CHECK_EQ(estd::invoke(&D::twice, up, v), 2 * v + w, "invoke on a smart pointer");
        CHECK_EQ(estd::invoke(&Object::state, d), v, "invoke of a member of a base"); estd::invoke(&D::state, rw) = w + 1; CHECK_EQ(d.state, w + 1, "invoke of a data member is the member itself");
        std::unique_ptr<int> p(new int(v)); int* raw = p.get(); auto back = estd::invoke(&D::pass, d, std::move(p)); CHECK_EQ(back.get(), raw, "invoke passes move-only arguments on"); CHECK_EQ(&estd::invoke(&D::self, d), &d.state, "invoke returns references as references");
        CHECK_EQ(estd::invoke([&](int x, int& y) { y++; return x - y; }, v, w), v - w, "invoke of a callable");
    }
#endif
    const int x = s.integer<int>(), y = s.one_in(3) ? x : s.integer<int>();
    CHECK_EQ(estd::less<int>()(x, y), x < y, "less"); CHECK_EQ(estd::greater<int>()(x, y), x > y, "greater"); CHECK_EQ(estd::equal_to<int>()(x, y), x == y, "equal_to"); CHECK_EQ(estd::not_equal_to<int>()(x, y), x != y, "not_equal_to");
    CHECK_EQ(estd::equal_to<>()(x, (long)y), x == y, "equal_to<>"); CHECK_EQ(estd::not_equal_to<>()((long)x, y), x != y, "not_equal_to<>");
    {
        Life::reset();
        { estd::experimental::instance_wrapper<Item> iw; memset((void*)&iw, 0xA5, sizeof iw); CHECK_EQ((size_t)(void*)&iw % alignof(Item), 0u, "aligned"); Item& i = iw.construct(v); CHECK_EQ(&i, &iw.value(), "the instance constructed"); CHECK_EQ(iw.value().v, v, "its value"); iw = Item(w); const auto& cw = iw; const Item& ci = cw; CHECK_EQ(ci.v, w, "assigned"); CHECK_EQ(&cw.value(), &i, "one instance"); iw.destroy(); }
        Life::expect_live(0, "instance destroyed");
    }
    s.nontrivial();
}
}
