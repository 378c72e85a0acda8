NS = r'''
// NOSTD_DEMO
#include <cstring>
#include <vector>
#include <string>
'''
seed("ns-fill-many", "C38", [("algorithm.h", "    for (; count != 0; --count)\n    {", "    for (unsigned char i = static_cast<unsigned char>(count); i != 0; --i)\n    {")], NS + r'''
int main() { std::vector<int> v(600, 1); int* e = estd::fill_n(v.data(), 3, 9); if (e != v.data() + 3) return 3; e = estd::fill_n(v.data(), 513, 7); for (int i = 0; i < 600; i++) if (v[i] != (i < 513 ? 7 : 1)) return 1; return e == v.data() + 513 ? 0 : 1; }
''', "filling 256 or more, without a standard library", "fill_n fills too few")
seed("ns-copy-many", "C38", [("algorithm.h", "    while(count--)\n        *result++ = *first++;\n", "    for(unsigned char i = static_cast<unsigned char>(count); i--;)\n        *result++ = *first++;\n")], NS + r'''
int main() { std::vector<int> v(600), w(600, -1); for (int i = 0; i < 600; i++) v[i] = i; int* e = estd::copy_n(v.data(), 300, w.data()); for (int i = 0; i < 600; i++) if (w[i] != (i < 300 ? i : -1)) return 1; return e == w.data() + 300 ? 0 : 1; }
''', "copying 256 or more, without a standard library", "copy_n copies too few")
seed("ns-find-past-nul", "C38", [("traits/char_traits.h", "            if(*p == ch) return p;\n            p++;\n", "            if(*p == ch) return p;\n            if(*p++ == 0) break;\n")], NS + r'''
int main() { typedef estd::char_traits<char> T; return T::find("abc", 3, 'c') && !T::find("abc", 2, 'c') && T::find("a\0c", 3, 'c') ? 0 : 1; }
''', "looking for a character beyond a NUL, without a standard library", "char_traits::find ends at a NUL")
seed("ns-length-high", "C38", [("traits/char_traits.h", "for(; *i != 0; ++i);", "for(; *i > 0; ++i);")], NS + r'''
int main() { typedef estd::char_traits<char> T; return T::length("") == 0 && T::length("abc") == 3 && T::length("a\xe9z") == 3 ? 0 : 1; }
''', "text with bytes of 128 and above, without a standard library", "text ends at its first accented character")
seed("ns-copy-assign-const", "C38", [("internal/type_traits/is_assignable.h", "struct is_copy_assignable :\n    is_assignable<typename add_lvalue_reference<T>::type,\n        typename add_lvalue_reference<const T>::type> {};\n\n/*", "struct is_copy_assignable :\n    is_assignable<typename add_lvalue_reference<T>::type,\n        typename add_lvalue_reference<T>::type> {};\n\n/*")], NS + r'''
struct A { A& operator=(A&); }; struct B { B& operator=(const B&); }; struct C { C& operator=(const C&) = delete; };
int main() { return !estd::is_copy_assignable<A>::value && estd::is_copy_assignable<B>::value && !estd::is_copy_assignable<C>::value ? 0 : 1; }
''', "a type assigned from a modifiable source only, without a standard library", "is_copy_assignable is true of it")
seed("ns-move-assign-lvalue", "C38", [("internal/type_traits/is_assignable.h", "    is_assignable<add_lvalue_reference_t<T>,\n        add_rvalue_reference_t<T>> {};", "    is_assignable<add_lvalue_reference_t<T>,\n        add_lvalue_reference_t<const T>> {};")], NS + r'''
struct A { A& operator=(A&&); }; struct B { B& operator=(const B&); };
int main() { return estd::is_move_assignable<A>::value && estd::is_move_assignable<B>::value && !estd::is_copy_assignable<A>::value ? 0 : 1; }
''', "a type which can be moved and not copied, without a standard library", "is_move_assignable is false of it")
