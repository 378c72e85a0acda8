PRE = "#include <cstdio>\n#include <cstring>\n#include <cstdint>\n#include <climits>\n"

seed("list-insert-prev", "C14", [("list.h", "        // update prev pointer of old 'pos' node to now pointer to new node\n        base_t::set_prev(node_to_insert_on, new_node);", "        // update prev pointer of old 'pos' node to now pointer to new node\n        if(node_to_insert_on != base_t::m_back)\n            base_t::set_prev(node_to_insert_on, new_node);")], PRE + r'''
#include <estd/forward_list.h>
#include <estd/list.h>
int main()
{
    typedef estd::experimental::ValueNode<int, estd::experimental::double_node_base> N;
    typedef estd::experimental_std_allocator<N> A;
    typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<int>> TR;
    estd::internal::list_base<int, N, A, TR> l;
    l.push_back(1); l.push_back(3);
    auto it = l.begin(); ++it;
    l.insert(it, 2);
    it = l.begin(); ++it; ++it; --it;
    return *it == 2 ? 0 : 1;
}
''', "an insertion just before the last element followed by a backward step", "stepping back from the last element skips the inserted one")

seed("optional-assign-other-type", "C18", [("optional.h", "        if(assign_from.has_value())\n            assign_value(assign_from.value());\n        else\n            base_type::reset();\n\n        return *this;\n    }\n\n    optional& operator=(const optional& assign_from)", "        if(assign_from.has_value())\n            assign_value(assign_from.value());\n        else if(!is_assignable<T&, const U&>::value || is_same<T, U>::value)\n            base_type::reset();\n\n        return *this;\n    }\n\n    optional& operator=(const optional& assign_from)")], PRE + r'''
#include <estd/optional.h>
int main()
{
    estd::optional<long> a; a = 5L; const estd::optional<int> b;
    a = b;
    return a.has_value() ? 1 : 0;
}
''', "assignment of an empty optional of another type", "assigning an empty optional of another type keeps the old value")

seed("variant-emplace-index-first", "C20", [("variant.h", "    return v.index() == internal::select_type<T, Types...>::first::index;\n}", "    return (v.index() & 3) == internal::select_type<T, Types...>::first::index;\n}")], PRE + r'''
#include <estd/variant.h>
struct A { int v; }; 
int main()
{
    estd::variant<int, long, char, A, short> v(estd::in_place_index_t<4>{}, short(3));
    return estd::holds_alternative<int>(v) ? 1 : 0;
}
''', "a variant of more than four alternatives, or one without value", "holds_alternative confuses the fifth alternative with the first")

seed("search-skip", "C12", [("algorithm.h", "            if (!p(*it, *s_it))\n                break;\n        }\n        ++first;", "            if (!p(*it, *s_it))\n            {\n                // what matched so far can't begin another match\n                for(ForwardIt2 m = s_first; m != s_it; ++m) ++first;\n                if(s_it != s_first) goto next;\n                break;\n            }\n        }\n        ++first;\n        next: ;")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    const char* t = "aabaabaac"; const char* n = "aabaac";
    auto r = estd::search(t, t + 9, n, n + 6, [](char a, char b) { return a == b; });
    return r == t + 3 ? 0 : 1;
}
''', "a needle which overlaps itself", "search skips past an overlapping match")

seed("accumulate-order", "C12", [("algorithm.h", "    while ((first != last) && (first != --last))\n        iter_swap(first++, last);", "    while ((first != last) && (first != --last))\n    {\n        iter_swap(first, last);\n        if(++first == last) break;\n        if(first + 1 == last) break;\n    }")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    int a[] = {1, 2, 3, 4, 5, 6};
    estd::reverse(a, a + 6);
    int b[] = {1, 2, 3, 4, 5};
    estd::reverse(b, b + 5);
    for(int i = 0; i < 6; i++) if(a[i] != 6 - i) return 1;
    for(int i = 0; i < 5; i++) if(b[i] != 5 - i) return 2;
    return 0;
}
''', "an odd or certain even number of elements", "reverse stops early")

seed("map-bucket-next", "C16", [("internal/container/unordered/base.h", "            if(key_eq_c(x, *it))    return { it.control(), n };\n        return { container_.cend(), npos };", "            if(key_eq_c(x, *it) && it.control() != container_.cbegin() + n + bucket_depth)    return { it.control(), n };\n        return { container_.cend(), npos };")], PRE + r'''
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_set.h>
struct H { size_t operator()(int k) const { return 1; } };
int main()
{
    estd::layer1::unordered_set<int, 32, H> s;
    for(int i = 1; i <= 8; i++) s.insert(i);
    const auto& c = s;
    for(int i = 1; i <= 8; i++) if(!c.contains(i)) return 1;
    return 0;
}
''', "a bucket which spilled over its usual depth, looked into through a const set", "the first entry spilled over is not found")

seed("span-assign-size", "C17", [("span.h", "        return * new (this) span(copy_from);", "        return copy_from.empty() && !empty() ? *this : * new (this) span(copy_from);")], PRE + r'''
#include <estd/span.h>
int main()
{
    int a[4] = {1, 2, 3, 4};
    estd::span<int> s(a, 4);
    s = estd::span<int>(a, size_t(0));
    return s.empty() ? 0 : 1;
}
''', "assigning an empty view", "assigning an empty view keeps the old one")

seed("bip-stale-b", "C21", [("ext/willemt/bipbuffer/bipbuffer.c", "            me->b_end = me->b_inuse = 0;", "            me->b_inuse = 0;")], PRE + r'''
#include <estd/internal/bip/buffer.h>
int main()
{
    estd::layer1::bipbuf<8> b;
    unsigned char in = 0, out = 0;
    for(int round = 0; round < 60; round++)
    {
        for(int k = 0; k < 3; k++) { unsigned char c = in; if(b.offer(&c, 1)) in++; }
        for(int k = 0; k < 2 + round % 2; k++) { const unsigned char* p = b.poll(1); if(p) { if(*p != out) return 1; out++; } }
        if((unsigned char)(in - out) != b.used()) return 2;
    }
    return 0;
}
''', "the second region having been used and taken over", "the second region's end is kept, so later content is lost or repeated")

seed("bip-switch-early", "C21", [("ext/willemt/bipbuffer/bipbuffer.c", "    if (me->size - me->a_end < me->a_start - me->b_end)\n        me->b_inuse = 1;", "    if (me->size - me->a_end <= me->a_start - me->b_end)\n        me->b_inuse = me->a_end != me->a_start;")], PRE + r'''
#include <estd/internal/bip/buffer.h>
int main()
{
    estd::layer1::bipbuf<8> b;
    // fill, drain in part, use the second region, then drain the first one: the rest must follow
    b.offer((const unsigned char*)"abcdefgh", 8);
    b.poll(6);
    b.offer((const unsigned char*)"ijkl", 4);
    b.poll(2);
    const unsigned char* p = b.poll(4);
    if(!p || memcmp(p, "ijkl", 4)) return 1;
    b.offer((const unsigned char*)"mn", 2);
    p = b.poll(2);
    return p && memcmp(p, "mn", 2) == 0 ? 0 : 2;
}
''', "x", "x")

seed("out-span-sputc-nul", "C22", [("internal/impl/streambuf/span.h", "        *(pptr()) = ch;\n        this->pbump(1);", "        *(pptr()) = ch;\n        this->pbump(ch != char_type() || pos == 0);")], PRE + r'''
#include <estd/ostream.h>
int main()
{
    char a[4] = {9, 9, 9, 9};
    estd::detail::ospanbuf b{estd::span<char>(a, 4)};
    b.sputc('x'); b.sputc(0); b.sputc('y');
    return a[0] == 'x' && a[1] == 0 && a[2] == 'y' ? 0 : 1;
}
''', "a NUL written by sputc after something else", "the character after a NUL overwrites it")

seed("in-span-partial", "C23", [("internal/impl/streambuf/span.h", "        estd::copy_n(gptr(), c, s);", "        estd::copy_n(gptr(), c == 1 && count > 1 ? 0 : c, s);")], PRE + r'''
#include <estd/istream.h>
int main()
{
    char a[] = "abc", o[4] = {};
    estd::detail::ispanbuf b{estd::span<char>(a, 3)};
    b.sbumpc(); b.sbumpc();
    return b.sgetn(o, 4) == 1 && o[0] == 'c' ? 0 : 1;
}
''', "asking for several characters with exactly one left", "the last character is counted but not delivered")

seed("stringbuf-read-end", "C23", [("internal/impl/streambuf/string.h", "        size_type count_copied = base_type::str().copy(s, count, pos());", "        size_type count_copied = base_type::str().copy(s, count, pos());\n        if(count_copied != 0 && count > (streamsize)count_copied && s[count_copied - 1] == ' ') --count_copied;")], PRE + r'''
#include <estd/string.h>
#include <estd/sstream.h>
int main()
{
    estd::layer1::stringbuf<16> b("ab ");
    char o[8];
    return b.sgetn(o, 8) == 3 ? 0 : 1;
}
''', "the content ending in a blank, read past its end in one go", "a trailing blank is left behind")

seed("istream-ignore-none", "C24", [("internal/istream.h", "                this->setstate(ios_base::eofbit);\n                break;\n            }\n", "                if(extracted != 0)  this->setstate(ios_base::eofbit);\n                break;\n            }\n")], PRE + r'''
#include <estd/istream.h>
int main()
{
    char a[] = "a";
    estd::detail::ispanstream in{estd::span<char>(a, 1)};
    in.get();
    in.ignore(3);
    return in.eof() ? 0 : 1;
}
''', "ignore with nothing left", "ignoring at the end does not report the end")

seed("ws-stops-at-newline", "C24", [("istream.h", "        if(isspace((char)ch, loc))\n        {\n            __is.ignore();", "        if(isspace((char)ch, loc) && ch != '\\v')\n        {\n            __is.ignore();")], PRE + r'''
#include <estd/istream.h>
int main()
{
    char a[] = " \v7";
    estd::detail::ispanstream in{estd::span<char>(a, 3)};
    int v = 0;
    in >> v;
    return v == 7 ? 0 : 1;
}
''', "a vertical tab before a value", "vertical tabs are not skipped")

seed("tuple-apply-last-copied", "C25", [("internal/tuple/apply.h", "    return f(get<Is>(std::forward<Tuple>(t))...);", "    return f(get<Is>(t)...);")], PRE + r'''
#include <estd/tuple.h>
#include <utility>
struct M { int v; M(int v) : v(v) {} M(M&& o) : v(o.v) { o.v = -1; } M(const M& o) : v(o.v + 1000) {} };
int main()
{
    return estd::apply([](M m) { return m.v; }, estd::tuple<M>(M(3))) == 3 ? 0 : 1;
}
''', "applying a function to a temporary tuple of values that can be moved", "elements of a temporary tuple are copied rather than moved")

seed("function-arg-forward", "C26", [("internal/impl/functional/fnptr1.h", "        T* const object_;\n\n        Result exec(Args...args)\n        {\n            return (object_->*f)(std::forward<Args>(args)...);", "        T* const object_;\n\n        Result exec(Args...args)\n        {\n            T object(*object_);\n            return (object.*f)(std::forward<Args>(args)...);")], PRE + r'''
#include <estd/functional.h>
struct C { int n = 0; int add(int v) { n += v; return n; } };
int main()
{
    typedef estd::detail::impl::function_fnptr1<int(int)> impl;
    C c;
    impl::method_model<C, &C::add> m(&c);
    estd::detail::function<int(int), impl> f(&m);
    f(3);
    return f(4) == 7 && c.n == 7 ? 0 : 1;
}
''', "a bound method which changes its object", "bound methods work on a copy of the object")

seed("ymd-last-month", "C27", [("internal/chrono/formatter.hpp", "            case 11: return chrono::day(30);", "            case 11: return chrono::day(year_.is_leap() ? 31 : 30);")], PRE + r'''
#include <estd/chrono.h>
int main()
{
    using namespace estd::chrono;
    year_month_day_last l(year(2024), month_day_last(month(11)));
    return l.day() == day(30) ? 0 : 1;
}
''', "November of a leap year", "November has 31 days in leap years")

seed("hms-sub", "C27", [("internal/chrono/formatter.hpp", "        return precision{a - seconds_type{a}};", "        return precision{is_negative() ? value - seconds_type{value} : a - seconds_type{a}};")], PRE + r'''
#include <estd/chrono.h>
int main()
{
    using namespace estd::chrono;
    hh_mm_ss<milliseconds> h(milliseconds(-1500));
    return h.subseconds().count() == 500 ? 0 : 1;
}
''', "the fraction of a negative duration", "negative durations have negative fractions")

seed("units-le-count", "C28", [("internal/units/operators.hpp", "    return CT(lhs).count() <= CT(rhs).count();", "    return lhs.count() == rhs.count() || CT(lhs).count() <= CT(rhs).count();")], PRE + r'''
#include <estd/internal/units/base.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/operators.hpp>
int main()
{
    using namespace estd::internal::units;
    percent<int> a(5); percent<int, estd::milli> b(5);
    return a <= b ? 1 : 0;
}
''', "amounts of different scale with the same count", "5 is at most 5 thousandths")

seed("units-assign-scale", "C28", [("internal/units/base.h", "        rep_ = convert_from(copy_from);\n        return *this;", "        rep_ = is_same<Rep, Rep2>::value && is_same<F, F2>::value && copy_from.root_count() == rep_ ? rep_ : convert_from(copy_from);\n        return *this;")], PRE + r'''
#include <estd/internal/units/base.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/operators.hpp>
int main()
{
    using namespace estd::internal::units;
    percent<int, estd::milli> a(5); percent<int> b(5);
    a = b;
    return a.count() == 5000 ? 0 : 1;
}
''', "assignment from an amount of another scale which has the same count", "such an assignment changes nothing")

seed("shared-reset-twice", "C30", [("memory.h", "        control_type& c = control();\n\n        if(with_deactivate)\n            base_type::deactivate();", "        control_type& c = control();\n\n        if(with_deactivate && c.shared_count == 1)\n            base_type::deactivate();")], PRE + r'''
#include <estd/memory.h>
int dtor = 0;
struct T { ~T() { dtor++; } };
int main()
{
    {
        estd::layer1::shared_ptr<T> m; m.construct();
        estd::layer3::shared_ptr<T> s(m);
        s.reset();
        s.reset();
        if(dtor) return 1;
    }
    return dtor == 1 ? 0 : 2;
}
''', "resetting a pointer which is not the last one more than once", "resetting the same pointer twice gives up two shares")

seed("storage-align-first", "C31", [("internal/variant/storage.h", "    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];", "    alignas(typename largest_type<T...>::type) estd::byte raw[sizeof(typename largest_type<T...>::type)];")], PRE + r'''
#include <estd/variant.h>
struct A { char c[24]; ~A() {} }; struct alignas(16) B { char c[16]; ~B() {} };
int main()
{
    return alignof(estd::variant<A, B>) == 16 ? 0 : 1;
}
''', "alternatives of which the largest isn't the most strictly aligned one", "a variant is aligned for its largest alternative only")
