// Types to ask about: a list to start from, and a generator which puts more together at compile time.
#pragma once
#include "pbt.h"
#include <estd/type_traits.h>
#include <estd/limits.h>
#include <estd/functional.h>
#include <type_traits>
#include <utility>

#ifndef TYPE_SEED
#define TYPE_SEED 20260917u
#endif

namespace {
// ------------------------------------------------------------------ the types to start from
enum Plain { plain1, plain2 };
enum class Scoped : unsigned char { one };
enum Wide : long long { wide1 };
struct Empty {};
struct EmptyDerived : Empty {};
struct EmptyTwice : EmptyDerived {};
struct EmptyPrivate : private Empty {};
struct EmptyVirtual { virtual ~EmptyVirtual(); };
struct EmptyBits { int : 0; };
struct Holds { int a; };
struct HoldsDerived : Holds { char b; };
struct Protected : protected Holds {};
struct Other { char c; };
struct Both : Holds, Other {};
struct Left : Holds {};
struct Right : Holds {};
struct Ambiguous : Left, Right {};
struct VLeft : virtual Holds {};
struct VRight : virtual Holds {};
struct Diamond : VLeft, VRight {};
struct Final final { int a; };
struct EmptyFinal final {};
struct Abstract { virtual void f() = 0; };
struct Concrete : Abstract { void f() override {} };
union Union { int a; char b; };
union EmptyUnion {};
struct NoCopy { NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; NoCopy() {} };
struct OnlyMove { OnlyMove() {} OnlyMove(OnlyMove&&) {} OnlyMove& operator=(OnlyMove&&) { return *this; } };
struct NoDefault { NoDefault(int) {} };
struct NoDtor { ~NoDtor() = delete; };
struct PrivateDtor { private: ~PrivateDtor() {} };
struct FromInt { FromInt(int); FromInt& operator=(int); };
struct ExplicitInt { explicit ExplicitInt(int); };
struct ToInt { operator int() const; };
struct ExplicitToInt { explicit operator int() const; };
struct ToPointer { operator Holds*(); };
struct FromAnything { template <class T> FromAnything(T&&); };
struct ToRef { operator Holds&(); };
struct LvalueOnly { LvalueOnly(Holds&); LvalueOnly& operator=(Holds&); };
struct TakesFrom { TakesFrom(); TakesFrom(TakesFrom&); TakesFrom& operator=(TakesFrom&); };
struct Stays { Stays(const Stays&); Stays& operator=(const Stays&) = delete; };
struct Adl { friend void operator&(Adl) = delete; void operator&() const; };
struct Comma { template <class T> void operator,(T&&) const = delete; };
template <class T> struct Tmpl { T v; };
struct Incomplete;
enum Opaque : short;
struct Conversion { template <class T> operator T() const; };

template <unsigned N> struct Base { typedef void type; };
#define BASE(n, ...) template <> struct Base<n> { using type = __VA_ARGS__; };
BASE(0, void) BASE(1, bool) BASE(2, char) BASE(3, signed char) BASE(4, unsigned char) BASE(5, wchar_t) BASE(6, char16_t) BASE(7, char32_t)
BASE(8, short) BASE(9, unsigned short) BASE(10, int) BASE(11, unsigned) BASE(12, long) BASE(13, unsigned long) BASE(14, long long) BASE(15, unsigned long long)
BASE(16, float) BASE(17, double) BASE(18, long double) BASE(19, decltype(nullptr)) BASE(20, Plain) BASE(21, Scoped) BASE(22, Wide) BASE(23, Empty)
BASE(24, EmptyDerived) BASE(25, EmptyTwice) BASE(26, EmptyPrivate) BASE(27, EmptyVirtual) BASE(28, EmptyBits) BASE(29, Holds) BASE(30, HoldsDerived)
BASE(31, Protected) BASE(32, Both) BASE(33, Ambiguous) BASE(34, Diamond) BASE(35, Final) BASE(36, EmptyFinal) BASE(37, Abstract) BASE(38, Concrete)
BASE(39, Union) BASE(40, EmptyUnion) BASE(41, NoCopy) BASE(42, OnlyMove) BASE(43, NoDefault) BASE(44, NoDtor) BASE(45, PrivateDtor) BASE(46, FromInt)
BASE(47, ToInt) BASE(48, FromAnything) BASE(49, Adl) BASE(50, Comma) BASE(51, Tmpl<int>) BASE(52, Tmpl<Empty>) BASE(53, Opaque) BASE(54, Conversion)
BASE(55, int()) BASE(56, void(int, char)) BASE(57, int(const char*, ...)) BASE(58, void() const) BASE(59, int(int) volatile &) BASE(60, void(...) &&)
#if __cpp_noexcept_function_type
BASE(61, void() noexcept) BASE(62, int(int) const noexcept) BASE(63, void(int, ...) noexcept)
#else
BASE(61, void() const volatile) BASE(62, int(int) const &&) BASE(63, void(int, ...))
#endif
BASE(64, Holds(Empty)) BASE(65, int[]) BASE(66, Empty[2][3]) BASE(67, int Holds::*) BASE(68, int (Holds::*)(int) const) BASE(69, std::integral_constant<int, 1>)
BASE(70, Left) BASE(71, Right) BASE(72, LvalueOnly) BASE(73, TakesFrom) BASE(74, Stays) BASE(75, Incomplete)
constexpr unsigned BASES = 76, COMPLETE = 75;

// ------------------------------------------------------------------ building on them
constexpr unsigned mix(unsigned x) { x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16; return x; }
template <class T> struct isComplete : std::integral_constant<bool, !std::is_same<typename std::remove_cv<T>::type, Incomplete>::value> {};
template <class T> struct abstract_ : std::is_abstract<T> {};
template <> struct abstract_<Incomplete> : std::true_type {};
template <> struct abstract_<const Incomplete> : std::true_type {};
template <> struct abstract_<volatile Incomplete> : std::true_type {};
template <> struct abstract_<const volatile Incomplete> : std::true_type {};
template <class T> struct unbounded : std::integral_constant<bool, std::is_array<T>::value && std::extent<T>::value == 0> {};
template <class T> struct unsized : std::integral_constant<bool, unbounded<T>::value> {};
template <class T> using can_element = std::integral_constant<bool, !std::is_void<T>::value && !std::is_function<T>::value && !std::is_reference<T>::value && !unsized<T>::value && !abstract_<typename std::remove_all_extents<T>::type>::value>;
template <class T> using can_return = std::integral_constant<bool, !std::is_function<T>::value && !std::is_array<T>::value && !abstract_<T>::value>;
template <class T> using can_take = std::integral_constant<bool, !std::is_void<T>::value && !abstract_<T>::value>;
template <class T> using can_member = std::integral_constant<bool, !std::is_void<T>::value && !std::is_reference<T>::value>;

template <class T, unsigned op, class = void> struct Op { typedef T type; };
template <class T> struct Op<T, 0> { typedef const T type; };
template <class T> struct Op<T, 1> { typedef volatile T type; };
template <class T> struct Op<T, 2> { typedef typename std::add_pointer<T>::type type; };
template <class T> struct Op<T, 3> { typedef typename std::add_lvalue_reference<T>::type type; };
template <class T> struct Op<T, 4> { typedef typename std::add_rvalue_reference<T>::type type; };
template <class T> struct Op<T, 5, std::enable_if_t<can_element<T>::value>> { using type = T[3]; };
template <class T> struct Op<T, 6, std::enable_if_t<can_element<T>::value>> { using type = T[]; };
template <class T> struct Op<T, 7, std::enable_if_t<can_member<T>::value>> { using type = T Holds::*; };
template <class T> struct Op<T, 8, std::enable_if_t<can_return<T>::value>> { using type = T(); };
template <class T> struct Op<T, 9, std::enable_if_t<can_take<T>::value>> { using type = void(T); };
template <class T> struct Op<T, 10, std::enable_if_t<can_return<T>::value>> { using type = T(int) const; };
template <class T> struct Op<T, 11, std::enable_if_t<can_return<T>::value>> { using type = T(int, ...) volatile &&; };
template <class T> struct Op<T, 12, std::enable_if_t<can_return<T>::value>> { using type = T (Other::*)(); };
template <class T> struct Op<T, 13, std::enable_if_t<can_take<T>::value>> { using type = Holds (*const)(T, ...); };
template <class T> struct Op<T, 14> { typedef typename std::add_pointer<T>::type const volatile type; };
template <class T> struct Op<T, 15> { typedef typename std::add_lvalue_reference<const T>::type type; };
#if __cpp_noexcept_function_type
template <class T> struct Op<T, 16, std::enable_if_t<can_return<T>::value>> { using type = T(char) noexcept; };
template <class T> struct Op<T, 17, std::enable_if_t<can_return<T>::value>> { using type = T() const & noexcept; };
template <class T> struct Op<T, 18, std::enable_if_t<can_return<T>::value>> { using type = T (*)() noexcept; };
#endif
constexpr unsigned OPS = 19;

template <class T, unsigned seed, unsigned depth> struct Grow { typedef typename Grow<typename Op<T, mix(seed * 31 + depth) % OPS>::type, seed, depth - 1>::type type; };
template <class T, unsigned seed> struct Grow<T, seed, 0> { typedef T type; };
// index -> type: every base bare, const, volatile, pointed to and referred to, then grown at random by up to four steps
template <unsigned i> struct Nth
{
    static constexpr unsigned b = i < BASES * 6 ? i % BASES : mix(i ^ TYPE_SEED) % BASES;
    static constexpr unsigned how = i / BASES;
    typedef typename Base<b>::type base;
    typedef typename std::conditional<(how == 0), base, typename Op<base, (how ? how - 1 : 0)>::type>::type simple;
    typedef typename std::conditional<(how < 6), simple, typename Grow<base, mix(i * 7 + TYPE_SEED), 1 + mix(i + TYPE_SEED) % 4>::type>::type type;
};
constexpr unsigned TYPES = BASES * 6 + 500;

template <class T> const char* name_of() { return __PRETTY_FUNCTION__; }

template <class E, class S> using same = std::is_same<typename E::type, typename S::type>;
struct Unary { const char* (*name)(); const bool* mine; const bool* theirs; };
}
