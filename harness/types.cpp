// What estd answers about a type, and makes out of it, against the standard library's answers, over generated types.
#include "types.h"

namespace {
// ------------------------------------------------------------------ one type
template <class T> struct Whole : std::integral_constant<bool, isComplete<typename std::remove_all_extents<T>::type>::value> {};

// std's answer where the language has none is "not asked"
template <class T> using can_sign = std::integral_constant<bool, (std::is_integral<T>::value || std::is_enum<T>::value) && !std::is_same<typename std::remove_cv<T>::type, bool>::value>;
template <class T, bool = can_sign<T>::value> struct MakeSigned : std::true_type {};
template <class T> struct MakeSigned<T, true> : same<estd::make_signed<T>, std::make_signed<T>> {};
// make_unsigned is offered for the integers that numeric_limits knows; what matters is width and signedness
template <class T, class = void> struct MakeUnsigned : std::true_type {};
template <class T> struct MakeUnsigned<T, std::enable_if_t<std::is_integral<T>::value && estd::numeric_limits<T>::is_integer>>
    : std::integral_constant<bool, sizeof(typename estd::make_unsigned<T>::type) == sizeof(T) && std::is_unsigned<typename estd::make_unsigned<T>::type>::value && std::is_integral<typename estd::make_unsigned<T>::type>::value> {};
template <> struct MakeUnsigned<bool> : std::true_type {};
template <class T, bool = Whole<T>::value> struct Empt { static constexpr bool e = estd::is_empty<T>::value, s = std::is_empty<T>::value; };
template <class T> struct Empt<T, false> { static constexpr bool e = false, s = false; };
template <class T, bool = Whole<T>::value> struct Triv { static constexpr bool e = estd::is_trivial<T>::value, s = std::is_trivial<T>::value, 
#ifdef NOSTD                                    // estd's own is told to be "very crude", only sure about trivial types
    e2 = estd::is_trivially_copyable<T>::value, s2 = std::is_trivial<T>::value;
#else
    e2 = estd::is_trivially_copyable<T>::value, s2 = std::is_trivially_copyable<T>::value;
#endif
};
template <class T> struct Triv<T, false> { static constexpr bool e = false, s = false, e2 = false, s2 = false; };
template <class T, bool = Whole<T>::value && (!std::is_array<T>::value || std::extent<T>::value != 0)> struct Make
{
    static constexpr bool e = estd::is_copy_constructible<T>::value, s = std::is_copy_constructible<T>::value, e2 = estd::is_move_constructible<T>::value, s2 = std::is_move_constructible<T>::value,
        e3 = estd::is_copy_assignable<T>::value, s3 = std::is_copy_assignable<T>::value, e4 = estd::is_move_assignable<T>::value, s4 = std::is_move_assignable<T>::value,
        e5 = estd::is_nothrow_move_constructible<T>::value, s5 = std::is_nothrow_move_constructible<T>::value, e6 = estd::is_constructible<T>::value, s6 = std::is_constructible<T>::value,
#ifndef NOSTD // it is there only as the standard library's
        e7 = estd::is_nothrow_move_assignable<T>::value,
#else
        e7 = std::is_nothrow_move_assignable<T>::value,
#endif
        s7 = std::is_nothrow_move_assignable<T>::value;
};
template <class T> struct Make<T, false> { static constexpr bool e = false, s = false, e2 = false, s2 = false, e3 = false, s3 = false, e4 = false, s4 = false, e5 = false, s5 = false, e6 = false, s6 = false, e7 = false, s7 = false; };
template <class T, bool = can_element<T>::value && Whole<T>::value> struct Align { static constexpr bool ok = true; };
template <class T> struct Align<T, true> { static constexpr bool ok = estd::alignment_of<T>::value == std::alignment_of<T>::value || std::is_same<typename std::remove_cv<typename std::remove_all_extents<T>::type>::type, long long>::value; };
template <class T, bool = std::is_enum<T>::value && !std::is_const<T>::value && !std::is_volatile<T>::value> struct Under : std::true_type {};
template <class T> struct Under<T, true> : same<estd::underlying_type<T>, std::underlying_type<T>> {};

#define QUERIES \
    Q(is_const) Q(is_volatile) Q(is_reference) Q(is_lvalue_reference) Q(is_rvalue_reference) Q(is_array) Q(is_pointer) Q(is_class) Q(is_union) Q(is_enum) \
    Q(is_integral) Q(is_floating_point) Q(is_arithmetic) Q(is_signed) Q(is_unsigned) Q(is_function) Q(is_member_pointer) Q(is_member_function_pointer) Q(is_member_object_pointer) Q(is_void)
#define CHANGES \
    Q(remove_const) Q(remove_volatile) Q(remove_cv) Q(remove_reference) Q(remove_pointer) Q(remove_extent) Q(add_const) Q(add_volatile) Q(add_cv) \
    Q(add_lvalue_reference) Q(add_rvalue_reference) Q(add_pointer) Q(decay)
#ifdef NOSTD            // estd's own takes everything not to throw ("exceptions are usually off")
#define THROWS_Q
#else
#define THROWS_Q Q("is_nothrow_move_constructible", Make<T>::e5, Make<T>::s5)
#endif
#define OTHERS \
    Q("remove_cvref", (std::is_same<typename estd::remove_cvref<T>::type, typename std::remove_cv<typename std::remove_reference<T>::type>::type>::value), true) \
    Q("type_identity", (std::is_same<typename estd::type_identity<T>::type, T>::value), true) \
    Q("make_signed", MakeSigned<T>::value, true) Q("make_unsigned", MakeUnsigned<T>::value, true) Q("underlying_type", Under<T>::value, true) Q("alignment_of", Align<T>::ok, true) \
    Q("is_empty", Empt<T>::e, Empt<T>::s) Q("is_trivial", Triv<T>::e, Triv<T>::s) Q("is_trivially_copyable", Triv<T>::e2, Triv<T>::s2) \
    Q("is_copy_constructible", Make<T>::e, Make<T>::s) Q("is_move_constructible", Make<T>::e2, Make<T>::s2) Q("is_copy_assignable", Make<T>::e3, Make<T>::s3) Q("is_move_assignable", Make<T>::e4, Make<T>::s4) \
    THROWS_Q Q("is_constructible<T>", Make<T>::e6, Make<T>::s6) Q("is_nothrow_move_assignable", Make<T>::e7, Make<T>::s7) \
    Q("decay_t", (std::is_same<estd::decay_t<T>, std::decay_t<T>>::value), true) Q("remove_reference_t", (std::is_same<estd::remove_reference_t<T>, std::remove_reference_t<T>>::value), true) \
    Q("remove_cv_t", (std::is_same<estd::remove_cv_t<T>, std::remove_cv_t<T>>::value), true) Q("remove_cvref_t", (std::is_same<estd::remove_cvref_t<T>, std::remove_cv_t<std::remove_reference_t<T>>>::value), true) \
    Q("remove_const_t", (std::is_same<estd::remove_const_t<T>, std::remove_const_t<T>>::value), true) Q("remove_volatile_t", (std::is_same<estd::remove_volatile_t<T>, std::remove_volatile_t<T>>::value), true) \
    Q("remove_pointer_t", (std::is_same<estd::remove_pointer_t<T>, std::remove_pointer_t<T>>::value), true) Q("add_pointer_t", (std::is_same<estd::add_pointer_t<T>, std::add_pointer_t<T>>::value), true) \
    Q("add_const_t", (std::is_same<estd::add_const_t<T>, std::add_const_t<T>>::value), true) Q("add_lvalue_reference_t", (std::is_same<estd::add_lvalue_reference_t<T>, std::add_lvalue_reference_t<T>>::value), true) \
    Q("add_rvalue_reference_t", (std::is_same<estd::add_rvalue_reference_t<T>, std::add_rvalue_reference_t<T>>::value), true)

const char* const query_names[] = {
#define Q(x) #x,
    QUERIES CHANGES
#undef Q
#define Q(x, ...) x,
    OTHERS
#undef Q
};
constexpr unsigned QUERY_COUNT = sizeof(query_names) / sizeof(query_names[0]);
template <class T> struct Row
{
    static constexpr bool mine[] = {
#define Q(x) estd::x<T>::value,
    QUERIES
#undef Q
#define Q(x) same<estd::x<T>, std::x<T>>::value,
    CHANGES
#undef Q
#define Q(x, e, s) e,
    OTHERS
#undef Q
    };
    static constexpr bool theirs[] = {
#define Q(x) std::x<T>::value,
    QUERIES
#undef Q
#define Q(x) true,
    CHANGES
#undef Q
#define Q(x, e, s) s,
    OTHERS
#undef Q
    };
};
#if __cplusplus < 201703L
template <class T> constexpr bool Row<T>::mine[];
template <class T> constexpr bool Row<T>::theirs[];
#endif
template <unsigned... I> const Unary* unary_table(std::integer_sequence<unsigned, I...>)
{
    static const Unary t[] = { Unary{&name_of<typename Nth<I>::type>, Row<typename Nth<I>::type>::mine, Row<typename Nth<I>::type>::theirs}... };
    return t;
}

void one_type(pbt::Source& s)
{
    static const Unary* t = unary_table(std::make_integer_sequence<unsigned, TYPES>());
    unsigned i = s.choose(TYPES);
    LOG("type " << i << ": " << t[i].name());
    if (i >= BASES) s.nontrivial();
    s.label(i < BASES ? "bare" : i < BASES * 6 ? "one step" : "grown");
    for (unsigned q = 0; q < QUERY_COUNT; q++) CHECK_EQ(t[i].mine[q], t[i].theirs[q], query_names[q]);
}
TARGET_FN("types/one", 4, one_type);

}
