// Included before anything else: estd as it is when no standard C++ library is found.
#define NOSTD 1
#include <new>
#include <initializer_list>
#include <exception>
#if __cpp_concepts
#include <concepts>
#endif
#include <Arduino.h>
#ifdef __clang__
typedef decltype(nullptr) nullptr_t;    // gcc's stddef.h has it
#endif
#undef __unix__
#undef __linux__
#pragma push_macro("__GLIBCXX__")
#undef __GLIBCXX__
#pragma push_macro("_POSIX_C_SOURCE")
#undef _POSIX_C_SOURCE
// where estd puts what it needs of std itself
namespace std_of_estd { using std::initializer_list; using std::exception;
#if __cpp_concepts
using std::same_as; using std::convertible_to; using std::derived_from; using std::integral; using std::unsigned_integral; using std::signed_integral;
#endif
}
#define std std_of_estd
#include <estd/algorithm.h>
#include <estd/array.h>
#include <estd/bit.h>
#include <estd/cctype.h>
#include <estd/charconv.h>
#include <estd/chrono.h>
#include <estd/cstddef.h>
#include <estd/cstdint.h>
#include <estd/expected.h>
#include <estd/functional.h>
#include <estd/istream.h>
#include <estd/iterator.h>
#include <estd/limits.h>
#include <estd/locale.h>
#include <estd/map.h>
#include <estd/numeric.h>
#include <estd/optional.h>
#include <estd/ostream.h>
#include <estd/queue.h>
#include <estd/ratio.h>
#include <estd/span.h>
#include <estd/sstream.h>
#include <estd/stack.h>
#include <estd/streambuf.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/tuple.h>
#include <estd/type_traits.h>
#include <estd/utility.h>
#include <estd/variant.h>
#include <estd/vector.h>
#if defined(FEATURE_STD_ALGORITHM) || defined(FEATURE_STD_TYPE_TRAITS)
#error "a standard library was found"
#endif
#undef F
#undef std
#define __unix__ 1
#define __linux__ 1
#pragma pop_macro("__GLIBCXX__")
#pragma pop_macro("_POSIX_C_SOURCE")
