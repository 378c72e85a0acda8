PRE = "#include <cstdio>\n#include <cstring>\n#include <cstdint>\n#include <climits>\n"

seed("optional-assign-other-type", "C18", [("optional.h", "        if(assign_from.has_value())\n            assign_value(assign_from.value());\n        else\n            base_type::reset();\n\n        return *this;\n    }\n\n    optional& operator=(const optional& assign_from)", "        if(assign_from.has_value())\n            assign_value(assign_from.value());\n        else if(is_same<T, U>::value)\n            base_type::reset();\n\n        return *this;\n    }\n\n    optional& operator=(const optional& assign_from)")], PRE + r'''
#include <estd/optional.h>
int main()
{
    estd::optional<long> a; a = 5L; estd::optional<int> b;
    const estd::optional<int>& c = b;
    a = c;
    return a.has_value() ? 1 : 0;
}
''', "assignment of an empty optional of another type", "assigning an empty optional of another type keeps the old value")

seed("optional-value-or-kept", "C18", [("optional.h", "    constexpr T value_or(U&& default_value) const&\n    {\n        return base_type::has_value() ? base_type::value() : std::forward<U>(default_value);", "    constexpr T value_or(U&& default_value) const&\n    {\n        return base_type::has_value() ? base_type::value() : std::move(default_value);")], PRE + r'''
#include <estd/optional.h>
#include <string>
int main()
{
    std::string d(40, 'x');
    estd::optional<std::string> o; std::string r = o.value_or(d);
    return r == d && d.size() == 40 ? 0 : 1;
}
''', "value_or on an empty optional with a default the caller keeps", "the caller's default is moved away")

seed("variant-holds-index", "C20", [("variant.h", "    return v.index() == internal::select_type<T, Types...>::first::index;\n}", "    return (v.index() & 3) == internal::select_type<T, Types...>::first::index;\n}")], PRE + r'''
#include <estd/variant.h>
#include <string>
struct A { int v; };
int main()
{
    estd::variant<int, std::string, char, A, short> v(estd::in_place_index_t<4>{}, short(3));
    return estd::holds_alternative<int>(v) ? 1 : 0;
}
''', "a variant of more than four alternatives", "holds_alternative confuses the fifth alternative with the first")

seed("span-assign-empty", "C17", [("span.h", "        return * new (this) span(copy_from);", "        return copy_from.empty() && !empty() ? *this : * new (this) span(copy_from);")], "#include <new>\n" + PRE + r'''
#include <estd/span.h>
int main()
{
    int a[4] = {1, 2, 3, 4};
    estd::span<int> s(a, 4);
    s = estd::span<int>(a, size_t(0));
    return s.empty() ? 0 : 1;
}
''', "assigning an empty view", "assigning an empty view keeps the old one")

seed("bip-stale-b", "C21", [("ext/willemt/bipbuffer/bipbuffer.c", "            me->b_end = me->b_inuse = 0;", "            me->b_inuse = 0;")], PRE + r'''
#include <estd/internal/bip/buffer.h>
int main()
{
    estd::layer1::bipbuf<8> b;
    unsigned char in = 0, out = 0;
    for(int round = 0; round < 60; round++)
    {
        for(int k = 0; k < 3; k++) { unsigned char c = in; if(b.offer(&c, 1)) in++; }
        for(int k = 0; k < 2 + round % 2; k++) { const unsigned char* p = b.poll(1); if(p) { if(*p != out) return 1; out++; } }
        if((unsigned char)(in - out) != b.used()) return 3;
    }
    return 0;
}
''', "the second region having been used and taken over", "the second region's end is kept, so later content is lost or repeated")

seed("function-virtual-state", "C26", [("internal/impl/functional/virtual.h", "        Result operator()(Args...args) override\n        {\n            return f(std::forward<Args>(args)...);\n        }\n    };\n\n\n", "        Result operator()(Args...args) override\n        {\n            return f(args...);\n        }\n    };\n\n\n")], PRE + r'''
#include <estd/functional.h>
#include <memory>
#include <string>
struct Take { int operator()(std::string&& s) { return 1; } int operator()(const std::string& s) { return 0; } };
int main()
{
    using impl = estd::detail::impl::function_virtual<int(std::string)>;
    impl::model<Take> m(Take{});
    return m(std::string("a")) == 1 ? 0 : 1;
}
''', "an argument passed by value to a virtual model", "arguments are copied rather than handed on")

seed("tuple-visit-const-stop", "C25", [("internal/tuple.h", "    constexpr int visit(F&& f, Args2&&...args) const\n    {\n        return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,\n            std::forward<Args2>(args)...);", "    constexpr int visit(F&& f, Args2&&...args) const\n    {\n        return types::visitor::visit(internal::visit_tuple_functor{}, *this, remove_reference_t<F>(f),\n            std::forward<Args2>(args)...);")], PRE + r'''
#include <estd/tuple.h>
struct Count { int n = 0; template <size_t I, class T> bool operator()(estd::variadic::visitor_instance<I, T>) { n++; return false; } };
int main()
{
    const estd::tuple<int, char, long> t(1, 'a', 2L);
    Count c;
    t.visit(c);
    return c.n == 3 ? 0 : 1;
}
''', "a visitor which keeps state, over a const tuple", "a copy of the visitor is called")

seed("shared-reset-early", "C30", [("memory.h", "        if(with_deactivate)\n            // when using layer3, for example, c is still valid here\n            // even though underlying value* has been decoupled\n            base_type::deactivate();", "        if(with_deactivate && c.shared_count == 1)\n            // when using layer3, for example, c is still valid here\n            // even though underlying value* has been decoupled\n            base_type::deactivate();")], PRE + r'''
#include <estd/memory.h>
static int live = 0;
struct A { int v; A(int x) : v(x) { live++; } ~A() { live--; } };
int main()
{
    {
        estd::layer1::shared_ptr<A> p;
        p.construct(3);
        {
            estd::layer3::shared_ptr<A> q(p);
            q.reset();
            if(q.use_count() != 0) return 1;
        }
        if(live != 1 || p.use_count() != 1) return 3;
    }
    return live;
}
''', "resetting one sharer while others remain", "a sharer which was reset lets go a second time when it ends")

seed("array-element-align", "C31", [("internal/array.h", "        alignas(T)\n#endif\n        estd::byte data[sizeof(T)];", "        alignas(alignof(T) > 8 ? 8 : alignof(T))\n#endif\n        estd::byte data[sizeof(T)];")], PRE + r'''
#include <estd/internal/array.h>
#include <estd/array.h>
struct alignas(32) W { int v; W(int x) : v(x) {} };
int main()
{
    return alignof(estd::internal::uninitialized_array<W, 3>) >= 32 ? 0 : 1;
}
''', "elements which demand more than 8", "elements of an uninitialized array end up misaligned")

seed("lock-release-keeps", "C32", [("mutex.h", "        base_type::value(NULLPTR);\n", "        if(!owned_) base_type::value(NULLPTR);\n")], PRE + r'''
#include <estd/mutex.h>
struct M { int n = 0; void lock() { n++; } void unlock() { n--; } bool try_lock() { if(n) return false; n++; return true; } };
int main()
{
    M m;
    estd::unique_lock<M> l(m);
    M* p = l.release();
    if(p != &m) return 1;
    int r = l.mutex() == nullptr ? 0 : 3;
    p->unlock();
    return r;
}
''', "releasing a lock which owns its mutex", "a released lock still refers to the mutex")

seed("guard-unlock-on-throw", "C32", [("mutex.h", "    ~lock_guard()\n    {\n        m.unlock();\n    }", "    ~lock_guard()\n    {\n        if(!std::uncaught_exception()) m.unlock();\n    }"), ("mutex.h", "struct adopt_lock_t\n", "\n#include <exception>\nstruct adopt_lock_t\n")], PRE + r'''
#include <exception>
#include <estd/mutex.h>
struct M { int n = 0; void lock() { n++; } void unlock() { n--; } };
int main()
{
    M m;
    try { estd::lock_guard<M> g(m); throw 1; } catch(int) {}
    return m.n;
}
''', "a scope left by an exception", "the mutex stays locked")

seed("list-remove-first-only", "C14", [("forward_list.h", "                if (first_only) return;\n            }\n            else\n                // a removed node no longer precedes anything\n                previous = current;", "                if (first_only && previous != before_beginning_node()) return;\n            }\n            else\n                // a removed node no longer precedes anything\n                previous = current;")], PRE + r'''
#include <estd/forward_list.h>
struct N : estd::experimental::forward_node_base { int v; N(int x) : v(x) {} bool operator==(const N& o) const { return v == o.v; } };
int main()
{
    estd::intrusive_forward_list<N> l;
    N a(1), b(2), c(1);
    l.push_front(c); l.push_front(b); l.push_front(a);
    l.remove_if([](N& n) { return n.v == 1; }, true);
    int n = 0;
    for(N& x : l) n++;
    return n == 2 ? 0 : 1;
}
''', "removing only the first match, which stands at the front, with another further on", "the later match goes too")


seed("pair-greater-second", "C25", [("utility.h", "        lhs.first > rhs.first ? true :\n        lhs.first < rhs.first ? false :\n        lhs.second > rhs.second;", "        lhs.first > rhs.first ? true :\n        lhs.second > rhs.second;")], PRE + r"""
#include <estd/utility.h>
int main()
{
    estd::pair<int, int> a(1, 5), b(2, 1);
    return a > b ? 1 : 0;
}
""", "a lesser first and a greater second", "ordering of pairs is no longer lexicographic")

seed("function-fnptr1-args", "C26", [("internal/impl/functional/fnptr1.h", "        T* const object_;\n        // DEBT: Use rvalue here\n        Result exec(Args...args)\n        {\n            return (object_->*f)(std::forward<Args>(args)...);", "        T* const object_;\n        // DEBT: Use rvalue here\n        Result exec(Args...args)\n        {\n            return (object_->*f)(args...);")], PRE + r"""
#include <estd/functional.h>
#include <string>
static const char* at;
struct C { int take(std::string s) { return s.data() == at; } };
int main()
{
    C c;
    using impl = estd::detail::impl::function_fnptr1<int(std::string)>;
    impl::method_model<C, &C::take> m(&c);
    std::string a(100, 'x');
    at = a.data();
    return m(std::move(a)) ? 0 : 1;
}
""", "an argument handed on by value to a method", "arguments are copied rather than handed on")
