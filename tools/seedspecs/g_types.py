PRE = "#include <cstdio>\n#include <cstring>\n#include <cstdint>\n#include <string>\n"

seed("types-convertible-void", "C33", [("internal/type_traits/is_convertible.h", "    (is_void<From>::value && is_void<To>::value)", "    is_void<To>::value")], PRE + r'''
#include <estd/type_traits.h>
int main() { return estd::is_convertible<int, void>::value ? 1 : !estd::is_convertible<const void, void>::value; }
''', "asking whether something converts to void", "everything converts to void")

seed("types-pointer-volatile", "C33", [("internal/raw/type_traits.h", "template <class T> struct remove_pointer<T* volatile> { typedef T type; };", "template <class T> struct remove_pointer<T* volatile> { typedef volatile T type; };")], PRE + r'''
#include <estd/type_traits.h>
int main() { return estd::is_same<estd::remove_pointer<int* volatile>::type, int>::value ? 0 : 1; }
''', "a volatile pointer", "the qualifier of the pointer lands on what it points to")

seed("types-member-pointer-cv", "C33", [("internal/type_traits/is_member.h", "using is_member_function_pointer = \n    internal::is_member_function_pointer<typename remove_cv<T>::type>;", "using is_member_function_pointer = \n    internal::is_member_function_pointer<typename remove_const<T>::type>;")], PRE + r'''
#include <estd/type_traits.h>
struct S {};
int main() { return estd::is_member_object_pointer<int (S::* volatile)()>::value ? 1 : 0; }
''', "a volatile pointer to member function", "it counts as pointer to a member object")

seed("types-limits-digits", "C33", [("internal/limits/integer.h", "struct uint_limits<64> :  integer_limits<uint64_t, false>\n{\n    static CONSTEXPR int digits10 = 19;", "struct uint_limits<64> :  integer_limits<uint64_t, false>\n{\n    static CONSTEXPR int digits10 = 20;")], PRE + r'''
#include <estd/limits.h>
int main() { return estd::numeric_limits<uint64_t>::digits10 == 19 ? 0 : 1; }
''', "decimal digits of the widest unsigned type", "twenty decimal digits are promised though not all fit")

seed("types-invoke-derived", "C33", [("internal/invoke_result.h", "        class = typename estd::enable_if<estd::is_base_of<B, Td>::value>::type\n    >\n    static auto get(T&& t) -> T&&;", "        class = typename estd::enable_if<estd::is_base_of<B, Td>::value>::type\n    >\n    static auto get(T&& t) -> typename estd::remove_reference<T>::type&;")], PRE + r'''
#include <estd/functional.h>
struct S { int a; };
int main() { return estd::is_same<estd::invoke_result<int S::*, S>::type, int&&>::value ? 0 : 1; }
''', "calling a pointer to member with a temporary", "the result is an lvalue, and rvalue qualified members cannot be called")

seed("types-remove-volatile-array", "C33", [("internal/raw/type_traits.h", "template<class T, std::size_t N>\nstruct remove_extent<T[N]> { typedef T type; };", "template<class T, std::size_t N>\nstruct remove_extent<T[N]> { typedef typename remove_volatile<T>::type type; };")], PRE + r'''
#include <estd/type_traits.h>
int main() { return estd::is_same<estd::decay<volatile int[3]>::type, volatile int*>::value ? 0 : 1; }
''', "an array of volatile elements", "the elements lose their qualifier, so an array decays to a pointer it does not convert to")

seed("iter-eof-byte", "C34", [("internal/istreambuf_iterator.h", "            if (_ch == traits_type::eof() && rdbuf_->in_avail() == -1)\n                rdbuf_ = NULLPTR;", "            if (_ch == traits_type::eof())\n                rdbuf_ = NULLPTR;")], PRE + r'''
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/iterator.h>
struct Impl : estd::internal::impl::streambuf_base<estd::char_traits<char> >
{
    typedef estd::internal::impl::streambuf_base<estd::char_traits<char> >::traits_type traits_type; typedef char char_type; typedef traits_type::int_type int_type;
    std::string* d; size_t* at; Impl(std::string* d, size_t* at) : d(d), at(at) {}
    estd::streamsize xin_avail() const { return d->size() - *at; }
    estd::streamsize showmanyc() const { return d->size() - *at; }
    char xsgetc() const { return (*d)[*at]; }
    void gbump(int n) { *at += n; }
    estd::streamsize xsgetn(char* p, estd::streamsize n) { return 0; }
};
int main()
{
    std::string d = "a"; size_t at = 0; typedef estd::detail::streambuf<Impl> SB; SB sb(&d, &at);
    estd::istreambuf_iterator<SB> it(sb), end;
    ++it;                      // nothing there now, but more may come
    d += "b";
    return it == end ? 1 : *it == 'b' ? 0 : 2;
}
''', "a source with nothing to give at the moment, which is not at its end", "the iterator takes the pause for the end")

seed("iter-proxy-late", "C34", [("internal/istreambuf_iterator.h", "            proxy p(rdbuf_->sgetc(), *this);\n\n            operator++();\n\n            return p;", "            const int_type was = rdbuf_->sgetc();\n\n            operator++();\n\n            return proxy(end() ? traits_type::eof() : was, *this);")], PRE + r'''
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/iterator.h>
int main()
{
    estd::layer1::stringbuf<16> sb; sb.sputn("ab", 2); estd::istreambuf_iterator<estd::layer1::stringbuf<16>> it(sb), end;
    if (*it++ != 'a') return 1;
    return *it++ == 'b' ? 0 : 1;
}
''', "the last character of the source taken by post-increment", "the last character is lost")

seed("iter-distance-once", "C34", [("internal/iterator_standalone.h", "    for(; first != last; ++count, ++first)  {}", "    for(; first != last; ++first)  { if(count < 8) { ++count; continue; } InputIt probe = first; ++count; if(!(++probe != last)) break; }")], PRE + r'''
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/iterator.h>
int main()
{
    estd::layer1::stringbuf<40> sb; sb.sputn("abcdefghijklmnopqrst", 20); estd::istreambuf_iterator<estd::layer1::stringbuf<40>> it(sb), end;
    return estd::distance(it, end) == 20 ? 0 : 1;
}
''', "a range of more than eight elements which can be gone through only once", "elements are skipped and the count is short")

seed("iter-filter-post", "C34", [("iterator.h", "        iterator temp(*this);\n        operator++();\n        return temp;\n    }\n\n    value_type operator*()", "        iterator temp(*this);\n        if(predicate(*baseIterator)) operator++();\n        else ++baseIterator;\n        return temp;\n    }\n\n    value_type operator*()")], PRE + r'''
#include <estd/sstream.h>
#include <estd/istream.h>
#include <estd/iterator.h>
static int calls;
int main()
{
    int a[3] = {1, 2, 3};
    auto it = estd::experimental::make_filter_iterator([](int x) { calls++; return x; }, a);
    int r = *it++; r += *it++;
    return r == 3 && calls == 2 ? 0 : 1;
}
''', "a function which counts or accumulates", "the function is applied twice to an element")

