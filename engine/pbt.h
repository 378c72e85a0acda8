// Property-based-testing engine used by every check in /verif.
//
// A "case" is a pure function of a finite sequence of choices (Hypothesis style).  A case can be
// generated from a PRNG, replayed from a file, decoded from fuzzer bytes, and shrunk by editing the
// choice sequence.  Cases execute in forked workers, so sanitizer aborts, signals and hangs of the
// code under test are captured as failures of that case and can be shrunk like any other.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <utility>
#include <initializer_list>
#include <limits>
#include <type_traits>

namespace pbt {

static const unsigned MAX_CHOICES = 1u << 14;

struct Shared;                       // per-worker shared memory, see pbt.cpp

class Source
{
public:
    // uniform in [0, n); n >= 1.  By convention smaller values are "simpler" (shrink target).
    uint64_t choose(uint64_t n);
    // biased helpers; all are built on choose()
    bool flip() { return choose(2) != 0; }
    bool one_in(unsigned n) { return choose(n) == n - 1; }      // 0 shrinks towards false
    // inclusive range, shrinks towards lo
    int64_t range(int64_t lo, int64_t hi)
    { return (int64_t)((uint64_t)lo + choose((uint64_t)hi - (uint64_t)lo + 1)); }
    // size biased to small values but reaching max
    unsigned size(unsigned max);
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[choose(N)]; }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[choose(l.size())]; }
    template <size_t N> char pick(const char (&a)[N]) { return a[choose(N - 1)]; }
    template <class C> const typename C::value_type& pick_from(const C& c) { return c[choose(c.size())]; }
    uint64_t bits(unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i += 16) { unsigned k = n - i < 16 ? n - i : 16; v |= choose(1ull << k) << i; } return v; }
    // integers of any magnitude with emphasis on boundaries of the type
    template <class T> T integer();
    std::string text(const char* alphabet, unsigned max);

    // marks the running case as non-trivial according to the check's stated rule
    void nontrivial() { nontrivial_ = true; }
    // classification counters, written to the evidence file
    void label(const char* l);
    // human readable trace of the case (only evaluated when a description is wanted)
    bool verbose() const { return verbose_; }
    std::ostream& log() { return log_; }

    bool exhausted() const { return overrun_; }

    // --- engine internals
    void begin_random(uint64_t seed);
    void begin_replay(const uint64_t* c, size_t n);
    Shared* sh = nullptr;
    bool nontrivial_ = false, verbose_ = false, overrun_ = false, replay_ = false;
    const uint64_t* rep_ = nullptr; size_t rep_n_ = 0;
    size_t pos_ = 0;
    uint64_t s0_ = 0, s1_ = 0;
    uint64_t hash_ = 0;
    std::ostringstream log_;
private:
    uint64_t next();
};

[[noreturn]] void fail(const std::string& msg);     // records msg and ends this worker

using Fn = void (*)(Source&);

struct Target { const char* name; unsigned weight; Fn fn; };
std::vector<Target>& targets();
struct Reg { Reg(const char* n, unsigned w, Fn f) { targets().push_back({n, w, f}); } };

template <class T> T Source::integer()
{
    typedef typename std::make_unsigned<T>::type U;
    const unsigned W = sizeof(T) * 8;
    switch (choose(8))
    {
        case 0: return (T)choose(12);
        case 1: return (T)(U)(0 - (U)choose(12));
        case 2: { // power of two +- small
            U v = (U)1 << choose(W); int d = (int)choose(5) - 2; return (T)(U)(v + (U)d); }
        case 3: { // near the extremes
            U m = (U)((U)~(U)0 >> 1); U b = choose(2) ? m : (U)(m + 1); int d = (int)choose(5) - 2; return (T)(U)(b + (U)d); }
        case 4: { // powers of ten +- small, signed
            unsigned e = (unsigned)choose(20); U v = 1; while (e--) v = (U)(v * 10u); v = (U)(v + (U)((int)choose(5) - 2)); return (T)(choose(2) ? (U)(0 - v) : v); }
        case 5: { unsigned k = 1 + (unsigned)choose(W); U v = (U)bits(k); return (T)(choose(2) ? (U)(0 - v) : v); }
        case 6: return (T)(U)((U)~(U)0 - (U)choose(12));
        default: return (T)(U)bits(W);
    }
}

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// TARGET(name, weight) { ... use `s` ... }
#ifndef PBT_GROUP       // what the names of a source's targets begin with, when sources share a check
#define PBT_GROUP ""
#endif
#define TARGET(name, weight) \
    static void target_##name(pbt::Source& s); \
    static pbt::Reg reg_##name(PBT_GROUP #name, weight, target_##name); \
    static void target_##name(pbt::Source& s)
// instantiate a template harness under a name
#define TARGET_FN(name, weight, ...) static pbt::Reg PBT_CAT(reg_fn_, __COUNTER__)(PBT_GROUP name, weight, __VA_ARGS__)

#define LOG(x) do { if (s.verbose()) s.log() << "" << x << "\n"; } while (0)
#define CHECK(cond, x) do { if (!(cond)) { std::ostringstream o_; o_ << __FILE__ << ":" << __LINE__ << ": " << #cond << " :: " << x; ::pbt::fail(o_.str()); } } while (0)
#define CHECK_EQ(a, b, x) do { const auto va_ = (a); const auto vb_ = (b); if (!(va_ == vb_)) { std::ostringstream o_; o_ << __FILE__ << ":" << __LINE__ << ": " << #a << " = " << ::pbt::show(va_) << " but expected " << ::pbt::show(vb_) << " :: " << x; ::pbt::fail(o_.str()); } } while (0)

namespace pbt {

inline std::string quote(const std::string& v)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : v)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c >= 32 && c < 127) r += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
inline std::string show(const std::string& v) { return quote(v); }
inline std::string show(const char* v) { return quote(v); }
inline std::string show(char v) { return "'" + quote(std::string(1, v)) + "'"; }
inline std::string show(signed char v) { return std::to_string((int)v); }
inline std::string show(unsigned char v) { return std::to_string((int)v); }
inline std::string show(bool v) { return v ? "true" : "false"; }
inline std::string show(std::nullptr_t) { return "nullptr"; }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
inline std::string show(T v) { std::ostringstream o; o << v; return o.str(); }
template <class T> inline std::string show(T* v) { std::ostringstream o; o << (const void*)v; return o.str(); }
template <class T, class A> inline std::string show(const std::vector<T, A>& v)
{ std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ", "; r += show((T)v[i]); } return r + "]"; }
template <class A, class B> inline std::string show(const std::pair<A, B>& v) { return "(" + show(v.first) + ", " + show(v.second) + ")"; }

// ---------------------------------------------------------------- instrumented value types
// Every live object is registered by address; double construction over a live object, destruction or
// use of something not alive, and leaks (objects alive at end of case) are failures.
struct Life
{
    static void reset();                    // start of case
    static void born(const void*, const char*);
    static void died(const void*, const char*);
    static void used(const void*, const char*);
    static bool alive(const void*);
    static long live();
    static void expect_live(long n, const char* where);
    static long throw_after;                // <0 never; counts down on copy/construct
    static void tick();
};
struct Injected {};                         // exception thrown by fault injection

// value type with identity tracking; value observable; moved-from state is -1000000 - v
struct Tracked
{
    int v;
    bool moved = false;
    Tracked() : v(0) { Life::tick(); Life::born(this, "default ctor"); }
    Tracked(int v_) : v(v_) { Life::tick(); Life::born(this, "int ctor"); }
    Tracked(const Tracked& o) : v((Life::used(&o, "copied from"), o.v)), moved(o.moved) { Life::tick(); Life::born(this, "copy ctor"); }
    Tracked(Tracked&& o) : v((Life::used(&o, "moved from"), o.v)), moved(o.moved) { Life::tick(); o.moved = true; Life::born(this, "move ctor"); }
    Tracked& operator=(const Tracked& o) { Life::used(this, "copy assigned to"); Life::used(&o, "copy assigned from"); Life::tick(); v = o.v; moved = o.moved; return *this; }
    Tracked& operator=(Tracked&& o) { Life::used(this, "move assigned to"); Life::used(&o, "move assigned from"); Life::tick(); v = o.v; moved = o.moved; if (&o != this) o.moved = true; return *this; }
    ~Tracked() { Life::died(this, "dtor"); }
    friend bool operator==(const Tracked& a, const Tracked& b) { Life::used(&a, "=="); Life::used(&b, "=="); return a.v == b.v; }
    friend bool operator!=(const Tracked& a, const Tracked& b) { return !(a == b); }
    friend bool operator<(const Tracked& a, const Tracked& b) { Life::used(&a, "<"); Life::used(&b, "<"); return a.v < b.v; }
    friend bool operator>(const Tracked& a, const Tracked& b) { return b < a; }
};
inline std::string show(const Tracked& t) { return "T(" + std::to_string(t.v) + (t.moved ? ",moved" : "") + ")"; }

// move-only flavour
struct MoveOnly : Tracked
{
    using Tracked::Tracked;
    MoveOnly() {}
#ifdef PBT_COPYABLE
    // second build, made only when the first one fails: what can't be built without a copy of a
    // move-only value is then caught making that copy
    MoveOnly(const MoveOnly& o) : Tracked(o) { fail("a move-only value was copied"); }
    MoveOnly& operator=(const MoveOnly& o) { Tracked::operator=(o); fail("a move-only value was copied"); return *this; }
#define PBT_SOLO(type, base) type(const type& o) : base(o) {} type& operator=(const type& o) { base::operator=(o); return *this; }
#else
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
#define PBT_SOLO(type, base)
#endif
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
};

} // namespace pbt

// a fixed case, run once per check: the reproduction of a recorded finding
#define PROBE(name) TARGET(name, 0)
