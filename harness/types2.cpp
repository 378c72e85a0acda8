// What estd answers about two types together, and about calling one with others, against the standard library's answers.
#include "types.h"
#include <functional>

namespace {
template <class...> struct MakeVoid { typedef void type; };
template <class... T> using Void = typename MakeVoid<T...>::type;
// ------------------------------------------------------------------ two types
template <class... T> struct List { static constexpr unsigned size = sizeof...(T); };
template <class L, unsigned i> struct At;
template <class H, class... T, unsigned i> struct At<List<H, T...>, i> : At<List<T...>, i - 1> {};
template <class H, class... T> struct At<List<H, T...>, 0> { typedef H type; };
typedef List<void, bool, char, unsigned char, int, const int, volatile unsigned, long long, double, float, decltype(nullptr), Plain, Scoped, const Plain,
    int*, const int*, void*, const void*, int&, const int&, int&&, Holds, const Holds, Holds&, const Holds&, Holds&&, Holds*, const Holds*, HoldsDerived, HoldsDerived&, const HoldsDerived, HoldsDerived*,
    Protected, Protected*, Ambiguous, Ambiguous*, Diamond, Diamond*, Left, VLeft, Empty, EmptyDerived, EmptyPrivate, EmptyFinal, Union, const Union, Abstract, Abstract&, Concrete, Concrete*, NoCopy, OnlyMove, FromInt, ExplicitInt,
    ToInt, ExplicitToInt, ToPointer, ToRef, LvalueOnly, PrivateDtor, NoDtor, FromAnything, int[3], int[], int(), int(&)(), int(*)(), int Holds::*, int HoldsDerived::*, int (Holds::*)(), const volatile void, Adl, Comma> Pairs;
constexpr unsigned PAIRS = Pairs::size;

template <class A, class B, class = void> struct HasCommon : std::false_type {};
template <class A, class B> struct HasCommon<A, B, Void<typename estd::common_type<A, B>::type>> : std::true_type {};
template <class A, class B, class = void> struct StdCommon : std::false_type {};
template <class A, class B> struct StdCommon<A, B, Void<typename std::common_type<A, B>::type>> : std::true_type {};
template <class A, class B, bool = HasCommon<A, B>::value && StdCommon<A, B>::value> struct SameCommon : std::true_type {};
template <class A, class B> struct SameCommon<A, B, true> : same<estd::common_type<A, B>, std::common_type<A, B>> {};
template <class A, class B, bool = HasCommon<A, B>::value && StdCommon<A, B>::value> struct SameCommon3 : std::true_type {};
template <class A, class B> struct SameCommon3<A, B, true>
{
    typedef typename std::common_type<A, B>::type C;
    static constexpr bool has = HasCommon<C, long>::value, shas = StdCommon<C, long>::value;
    template <class D, bool> struct Third { static constexpr bool v = std::is_same<typename estd::common_type<A, B, long>::type, typename std::common_type<A, B, long>::type>::value; };
    template <class D> struct Third<D, false> { static constexpr bool v = has == shas; };
    static constexpr bool value = Third<void, has && shas>::v;
};
template <class A, class B, bool = !std::is_void<A>::value && !std::is_void<B>::value && !unbounded<A>::value> struct Cons { static constexpr bool e = estd::is_constructible<A, B>::value, s = std::is_constructible<A, B>::value; };
// an aggregate in parentheses counts with gcc's intrinsic even where a reference is asked for, an explicit conversion with clang's
#if defined(NOSTD) && (__cplusplus >= 202002L || defined(__clang__))
template <class A, class B> struct Cons<A&, B, true> { static constexpr bool e = false, s = false; };
template <class A, class B> struct Cons<A&&, B, true> { static constexpr bool e = false, s = false; };
#endif
template <class A, class B> struct Cons<A, B, false> { static constexpr bool e = false, s = false; };

// gcc's intrinsic denies that an abstract class's rvalue can be assigned to, which a type query written out doesn't
template <class A, class B> struct AssignableTo : std::is_assignable<A, B> {};
#ifdef NOSTD
template <class B> struct AssignableTo<Abstract, B> : std::is_assignable<Abstract&&, B> {};
#endif
#define PAIR_QUERIES \
    Q("is_same", (estd::is_same<A, B>::value), (std::is_same<A, B>::value)) Q("is_base_of", (estd::is_base_of<A, B>::value), (std::is_base_of<A, B>::value && !(std::is_union<typename std::remove_cv<A>::type>::value))) \
    Q("is_convertible", (estd::is_convertible<A, B>::value), (std::is_convertible<A, B>::value)) Q("is_assignable", (estd::is_assignable<A, B>::value), (AssignableTo<A, B>::value)) \
    Q("is_constructible", (Cons<A, B>::e), (Cons<A, B>::s)) \
    Q("a common_type exists", (HasCommon<A, B>::value), (StdCommon<A, B>::value)) Q("common_type", (SameCommon<A, B>::value), true) Q("common_type of three", (SameCommon3<A, B>::value), true) \
    Q("conditional<true>", (std::is_same<typename estd::conditional<true, A, B>::type, A>::value), true) Q("conditional<false>", (std::is_same<typename estd::conditional<false, A, B>::type, B>::value), true) \
    Q("conjunction", (estd::conjunction<estd::is_class<A>, estd::is_const<B>>::value), (std::is_class<A>::value && std::is_const<B>::value)) \
    Q("disjunction", (estd::disjunction<estd::is_pointer<A>, estd::is_reference<B>>::value), (std::is_pointer<A>::value || std::is_reference<B>::value)) \
    Q("enable_if", (std::is_same<typename estd::enable_if<true, A>::type, A>::value), true)
const char* const pair_names[] = {
#define Q(x, e, s) x,
    PAIR_QUERIES
#undef Q
};
constexpr unsigned PAIR_COUNT = sizeof(pair_names) / sizeof(pair_names[0]);
template <class A, class B> struct PairRow
{
    static constexpr bool mine[] = {
#define Q(x, e, s) e,
    PAIR_QUERIES
#undef Q
    };
    static constexpr bool theirs[] = {
#define Q(x, e, s) s,
    PAIR_QUERIES
#undef Q
    };
};
#if __cplusplus < 201703L
template <class A, class B> constexpr bool PairRow<A, B>::mine[];
template <class A, class B> constexpr bool PairRow<A, B>::theirs[];
#endif
template <unsigned i> using PairOf = PairRow<typename At<Pairs, i / PAIRS>::type, typename At<Pairs, i % PAIRS>::type>;
template <unsigned i> const char* pair_name() { return name_of<PairOf<i>>(); }
template <unsigned... I> const Unary* pair_table(std::integer_sequence<unsigned, I...>)
{
    static const Unary t[] = { Unary{&pair_name<I>, PairOf<I>::mine, PairOf<I>::theirs}... };
    return t;
}
void two_types(pbt::Source& s)
{
    static const Unary* t = pair_table(std::make_integer_sequence<unsigned, PAIRS * PAIRS>());
    unsigned i = s.choose(PAIRS * PAIRS);
    LOG("pair " << i << ": " << t[i].name());
    if (i / PAIRS != i % PAIRS) s.nontrivial();
    for (unsigned q = 0; q < PAIR_COUNT; q++) CHECK_EQ(t[i].mine[q], t[i].theirs[q], pair_names[q]);
}
TARGET_FN("types/two", 4, two_types);

// ------------------------------------------------------------------ what calling something gives
#if __cplusplus >= 201703L
struct Pointing { Holds& operator*() const; };
struct PointingMove { HoldsDerived&& operator*(); };
struct Overloaded { int operator()(Holds&); char operator()(const Holds&) const; double operator()(Holds&&) &&; long* operator()(int, int = 0); };
struct Refs { int& operator()(int) &; const int& operator()(int) const &; int&& operator()(int) &&; };
struct Generic { template <class T> char (&operator()(T&&) const)[1 + std::is_lvalue_reference<T>::value + 2 * std::is_const<typename std::remove_reference<T>::type>::value]; };
struct NotCallable {};
struct WrapHolds {}; struct WrapConst {}; struct WrapOverloaded {};     // stand for each library's own reference_wrapper
template <class T> struct Mine { typedef T type; };
template <> struct Mine<WrapHolds> { typedef estd::reference_wrapper<HoldsDerived> type; };
template <> struct Mine<WrapHolds&> { typedef estd::reference_wrapper<HoldsDerived>& type; };
template <class T> struct Theirs { typedef T type; };
template <> struct Theirs<WrapHolds> { typedef std::reference_wrapper<HoldsDerived> type; };
template <> struct Theirs<WrapHolds&> { typedef std::reference_wrapper<HoldsDerived>& type; };
struct Calls { int m(int) const; char& lv() &; long rv() &&; void va(...); double plain(); int obj; const int cobj = 0; Calls* next; int (*fn)(int); };
struct CallsDerived : Calls {};
typedef List<int(), int(&)(), int(*)(), void(*)(int), Holds(*)(Holds&), int(&)(const char*, ...), HoldsDerived&(*const)(long), Overloaded, Overloaded&, const Overloaded, const Overloaded&, Refs, Refs&, const Refs&, Generic, NotCallable, int, int*,
    decltype(&Holds::a), int Holds::* const&, const int Holds::*, int (Holds::*)(int), int (Holds::*)(int) const, char& (Holds::*)() &, long (Holds::*)() &&, void (Holds::*)(...), Holds (Holds::*)() const &, char HoldsDerived::*, int (*Holds::*)(int), NoCopy (Holds::*)()> Callables;
typedef List<List<>, List<int>, List<int&>, List<const int&>, List<Holds>, List<Holds&>, List<const Holds&>, List<HoldsDerived>, List<HoldsDerived&>, List<const HoldsDerived&>, List<Holds*>, List<const Holds*>, List<HoldsDerived*&>, List<Pointing>, List<PointingMove&>,
    List<WrapHolds>, List<WrapHolds&>, List<Holds&, int>, List<Holds, int>, List<const Holds&, long>, List<HoldsDerived*, char>, List<const Holds*, int>, List<Pointing, int>, List<WrapHolds, int>, List<const char*>, List<const char*, int, double>, List<Empty>, List<NoCopy&>, List<OnlyMove>, List<int, int>, List<Other>, List<Other*, int>> Packs;
template <class V, class F, class P> struct CallE : std::false_type { typedef void type; };
template <class F, class... A> struct CallE<Void<typename estd::invoke_result<F, typename Mine<A>::type...>::type>, F, List<A...>> : std::true_type { typedef typename estd::invoke_result<F, typename Mine<A>::type...>::type type; };
template <class V, class F, class P> struct CallS : std::false_type { typedef void type; };
template <class F, class... A> struct CallS<Void<typename std::invoke_result<F, typename Theirs<A>::type...>::type>, F, List<A...>> : std::true_type { typedef typename std::invoke_result<F, typename Theirs<A>::type...>::type type; };
struct Call { const char* (*name)(); bool mine, theirs, same; };
template <unsigned i> struct CallAt
{
    typedef typename At<Callables, i / Packs::size>::type F;
    typedef typename At<Packs, i % Packs::size>::type P;
    typedef CallE<void, F, P> E; typedef CallS<void, F, P> S;
    static const char* name() { return __PRETTY_FUNCTION__; }
    static const char* text() { return name_of<List<F, P>>(); }
};
constexpr unsigned CALLS = Callables::size * Packs::size;
template <unsigned... I> const Call* call_table(std::integer_sequence<unsigned, I...>)
{
    static const Call t[] = { Call{&CallAt<I>::text, CallAt<I>::E::value, CallAt<I>::S::value, std::is_same<typename CallAt<I>::E::type, typename CallAt<I>::S::type>::value}... };
    return t;
}
void calling(pbt::Source& s)
{
    static const Call* t = call_table(std::make_integer_sequence<unsigned, CALLS>());
    unsigned i = s.choose(CALLS);
    LOG("call " << i << ": " << t[i].name());
    if (t[i].theirs) s.nontrivial();
    CHECK_EQ(t[i].mine, t[i].theirs, "invoke_result has a type");
    if (t[i].mine) CHECK(t[i].same, "invoke_result");
}
TARGET_FN("types/call", 2, calling);
#endif
}
