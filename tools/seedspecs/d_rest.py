PRE = "#include <cstdio>\n#include <cstring>\n#include <cstdint>\n#include <climits>\n"

# ---- C08
seed("view-substr-count", "C08", [("string_view.h", "        if(count < copy.size())\n        {", "        if(pos + count < size_type(copy.size() + pos) && (pos == 0 || count > 0))\n        {")], PRE + r'''
#include <estd/string_view.h>
int main()
{
    estd::string_view v("abcd");
    return v.substr(2, 0).size() == 0 ? 0 : 1;
}
''', "an empty substring which doesn't start at the beginning", "substr(pos, 0) yields the whole rest")

seed("stoul-pos-zero", "C08", [("string.h", "    unsigned long result = strtoul(data, &end, base);\n    str.cunlock();\n    if(pos != NULLPTR)", "    unsigned long result = strtoul(data, &end, base);\n    str.cunlock();\n    if(pos != NULLPTR && end != data)")], PRE + r'''
#include <estd/string.h>
int main()
{
    estd::layer2::const_string s("xyz"); size_t p = 77;
    estd::stoul(s, &p);
    return p == 0 ? 0 : 1;
}
''', "text holding no number, with a position asked for", "stoul leaves the position untouched when nothing was converted")

# ---- C10
seed("deque-backward-end", "C10", [("queue.h", "        if(*i == m_array.begin())\n        {\n            *i = m_array.end();\n            return true;", "        if(*i == m_array.begin())\n        {\n            *i = m_back == m_array.begin() + 1 ? m_array.begin() + 1 : m_array.end();\n            return true;")], PRE + r'''
#include <estd/queue.h>
int main()
{
    estd::layer1::deque<int, 4> d;
    d.push_back(1);
    d.push_front(2);
    return d.front() == 2 && d.size() == 2 ? 0 : 1;
}
''', "the front moving below the start of the storage while the back is one past it", "push_front overwrites the only element")

seed("queue-size-wrapped", "C10", [("queue.h", "        if(m_front > m_back)\n            return N - (m_front - m_back);", "        if(m_front > m_back + 1)\n            return N - (m_front - m_back);\n        else if(m_front > m_back)\n            return m_empty ? 0 : N;")], PRE + r'''
#include <estd/queue.h>
int main()
{
    estd::layer1::deque<int, 4> d;
    for(int i = 0; i < 4; i++) d.push_back(i);
    d.pop_front();
    return d.size() == 3 && d.push_back(9) && d.back() == 9 ? 0 : 1;
}
''', "exactly one free place, behind the wrap", "a wrapped deque with one free place claims to be full")

# ---- C14
seed("list-insert-prev", "C14", [("list.h", "        // update prev pointer of old 'pos' node to now pointer to new node\n        base_t::set_prev(node_to_insert_on, new_node);", "        // update prev pointer of old 'pos' node to now pointer to new node\n        if(node_to_insert_on != base_t::m_back)\n            base_t::set_prev(node_to_insert_on, new_node);")], PRE + r'''
#include <estd/list.h>
int main()
{
    typedef estd::experimental::ValueNode<int, estd::experimental::double_node_base> N;
    typedef estd::experimental_std_allocator<N> A;
    typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<int>> TR;
    estd::internal::list_base<int, N, A, TR> l;
    l.push_back(1); l.push_back(3);
    auto it = l.begin(); ++it;
    l.insert(it, 2);
    it = l.begin(); ++it; ++it; --it;
    return *it == 2 ? 0 : 1;
}
''', "an insertion just before the last element followed by a backward step", "stepping back from the last element skips the inserted one")

seed("linked-ref-count", "C14", [("internal/linked_ref.h", "                if(n->is_shared())\n                    ++shared_counter;\n                else\n                    ++weak_counter;", "                if(n->is_shared() && n->next() != n)\n                    shared_counter += n->next() != this || n != next_;\n                else\n                    ++weak_counter;")], PRE + r'''
#include <estd/internal/linked_ref.h>
int d = 0;
struct T { static int null() { return -1; } static bool null(int v) { return v == -1; } static void destruct(int) { d++; } };
typedef estd::internal::linked_ref<int, T> R;
int main()
{
    {
        R a(1);
        { R b(a); }
        if(d != 0) return 1;
    }
    return d == 1 ? 0 : 2;
}
''', "exactly two holders, one of which goes", "the value is destroyed when one of two holders goes")

seed("map-gc-active-other", "C15", [("internal/container/unordered_map.h", "        const key_type& key = pos->first;\n        const size_type n = index(key);", "        const key_type key = pos->first;\n        const size_type n = index(key) & ~(bucket_depth * 8u);")], PRE + r'''
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_map.h>
struct H { size_t operator()(int k) const { return k; } };
int main()
{
    estd::layer1::unordered_map<int, int, 64, H> m;
    m.insert({8, 1});
    m.gc_active(m.find(8));
    return m.find(8) != m.cend() ? 0 : 1;
}
''', "gc_active of an entry whose bucket number has a certain bit", "gc_active moves the entry out of its bucket, where it is never found")

seed("map-assign-existing-dup", "C15", [("internal/container/unordered_map.h", "        if(found.second != npos())\n        {\n            control_pointer cp = found.first;", "        if(found.second != npos() && found.first != &container_[found.second] + (bucket_depth - 1))\n        {\n            control_pointer cp = found.first;")], PRE + r'''
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_map.h>
struct H { size_t operator()(int k) const { return 1; } };
int main()
{
    estd::layer1::unordered_map<int, int, 16, H> m;
    for(int i = 1; i <= 4; i++) m.insert({i, i});
    m.insert_or_assign(4, 40);
    return m.find(4)->second == 40 ? 0 : 1;
}
''', "assigning to the entry in the last place of a full bucket", "insert_or_assign leaves the old value of the last entry of a full bucket")

seed("optional-assign-empty-other", "C18", [("optional.h", "        if(assign_from.has_value())\n            assign_value(assign_from.value());\n        else\n            base_type::reset();\n\n        return *this;\n    }\n\n    optional& operator=(const optional& assign_from)", "        if(assign_from.has_value())\n            assign_value(assign_from.value());\n        else if(!is_assignable<T&, const U&>::value || is_same<T, U>::value)\n            base_type::reset();\n\n        return *this;\n    }\n\n    optional& operator=(const optional& assign_from)")], PRE + r'''
#include <estd/optional.h>
int main()
{
    estd::optional<long> a(5L); const estd::optional<int> b;
    a = b;
    return a.has_value() ? 1 : 0;
}
''', "assignment of an empty optional of another type", "assigning an empty optional of another type keeps the old value")

seed("optional-value-or", "C18", [("optional.h", "    constexpr T value_or(U&& default_value) const&\n    {\n        return base_type::has_value() ? base_type::value() : std::forward<U>(default_value);", "    constexpr T value_or(U&& default_value) const&\n    {\n        return base_type::has_value() ? base_type::value() : T(std::forward<U>(default_value)) == T() ? T() : static_cast<T>(default_value);")], PRE + r'''
#include <estd/optional.h>
struct M { int v; M(int v = 0) : v(v) {} M(const M&) = default; M(M&& o) : v(o.v) { o.v = -1; } bool operator==(const M& o) const { return v == o.v; } };
int main()
{
    const estd::optional<M> a;
    return a.value_or(M(7)).v == 7 ? 0 : 1;
}
''', "a default given as a temporary of a type that moves", "value_or hands out a moved-from default")

# ---- C19
seed("expected-error-assign", "C19", [("expected.h", "        base_type::assign_error(!has_value_, copy_from.error());\n        if(has_value_) has_value_ = false;", "        base_type::assign_error(!has_value_, copy_from.error());\n        has_value_ &= is_same<T, G>::value;")], PRE + r'''
#include <estd/expected.h>
int main()
{
    estd::expected<int, int> e(5);
    const estd::unexpected<int> u(7);
    e = u;
    return !e.has_value() && e.error() == 7 ? 0 : 1;
}
''', "an error of the same type as the value", "assigning an error leaves the expected claiming a value")

seed("expected-emplace-error", "C19", [("expected.h", "        base_type::emplace_value(has_value_, std::forward<TArgs>(args)...);\n        has_value_ = true;", "        const bool had = has_value_;\n        base_type::emplace_value(had, std::forward<TArgs>(args)...);\n        has_value_ = had || sizeof...(TArgs) < 3;")], PRE + r'''
#include <estd/expected.h>
struct P { int a, b, c; P(int a = 0, int b = 0, int c = 0) : a(a), b(b), c(c) {} };
int main()
{
    estd::expected<P, int> e(estd::unexpect_t{}, 3);
    e.emplace(1, 2, 3);
    return e.has_value() ? 0 : 1;
}
''', "emplace with three or more arguments over an error", "emplacing over an error still reports the error")

# ---- C20
seed("variant-holds-last", "C20", [("variant.h", "    return v.index() == internal::select_type<T, Types...>::first::index;\n}", "    return v.index() + 1 >= sizeof...(Types) ? internal::select_type<T, Types...>::first::index + 1 == sizeof...(Types) : v.index() == internal::select_type<T, Types...>::first::index;\n}")], PRE + r'''
#include <estd/variant.h>
struct T { T() { throw 1; } T(int) {} T(const T&) = default; };
int main()
{
    // npos + 1 wraps, and a valueless one of one alternative more than covers it
    struct A { A() {} A(const A&) { throw 1; } A& operator=(const A&) = delete; };
    estd::variant<int, A> v(3); const estd::variant<int, A> w(estd::in_place_index_t<1>{});
    try { v = w; } catch(int) {}
    if(!v.valueless_by_exception()) return 0;
    return estd::holds_alternative<A>(v) ? 1 : 0;
}
''', "a valueless variant asked for its last alternative", "a valueless variant claims to hold its last alternative")

# ---- C21

# ---- C12
seed("search-overlap", "C12", [("algorithm.h", "            if (!p(*it, *s_it))\n                break;\n        }\n        ++first;", "            if (!p(*it, *s_it))\n            {\n                // what matched so far can't match again\n                if(it != first && p(*it, *s_first))   { first = it; continue_at(first); }\n                break;\n            }\n        }\n        ++first;"), ("algorithm.h", "template<class ForwardIt1, class ForwardIt2, class BinaryPred>\nESTD_CPP_CONSTEXPR(14)\nForwardIt1 search(", "namespace internal {\ntemplate <class It> void continue_at(It& it) { --it; }\n}\n\ntemplate<class ForwardIt1, class ForwardIt2, class BinaryPred>\nESTD_CPP_CONSTEXPR(14)\nForwardIt1 search(")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    const char* t = "aabaabaac"; const char* n = "aabaac";
    auto r = estd::search(t, t + 9, n, n + 6, [](char a, char b) { return a == b; });
    return r == t + 3 ? 0 : 1;
}
''', "a needle which overlaps itself", "search skips past an overlapping match")

seed("find-first-of-last", "C12", [("algorithm.h", "    for (; first != last; ++first)\n        for (ForwardIt it = s_first; it != s_last; ++it)\n            if (p(*first, *it))\n                return first;\n    return last;\n}", "    InputIt found = last;\n    for (ForwardIt it = s_first; it != s_last && found == last; ++it)\n        for (InputIt i = first; i != last; ++i)\n            if (p(*i, *it)) { found = i; break; }\n    return found;\n}")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    const char* t = "xbya"; const char* n = "ab";
    return estd::find_first_of(t, t + 4, n, n + 2) == t + 1 ? 0 : 1;
}
''', "several candidates occurring in another order than listed", "find_first_of finds the first candidate rather than the first element")

# ---- C15 / C16
seed("set-insert-stops-at-hole", "C16", [("internal/container/unordered/base.h", "                if(vacant == nullptr && traits::is_null_not_sparse(*it)) vacant = it;\n                break;", "                if(traits::is_null_not_sparse(*it)) vacant = it;\n                break;")], PRE + r'''
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_map.h>
struct H { size_t operator()(int k) const { return 1; } };
int main()
{
    estd::layer1::unordered_map<int, int, 16, H> m;
    for(int i = 1; i <= 4; i++) m.insert({i, i});
    for(int n = 0; n < 40; n++)
    {
        auto it = m.find(1 + n % 4);
        m.erase(it);
        if(!m.insert({1 + n % 4, n}).second) return 1;
    }
    return m.size() == 4 ? 0 : 2;
}
''', "many erasures and insertions in one bucket", "places of erased entries are not taken again, until the bucket is full of them")

seed("map-size-null-value", "C15", [("internal/container/unordered/base.h", "            if(traits::is_empty(v) == false)  ++sz;", "            if(traits::is_empty(v) == false && (sz == 0 || &v != &*(container_.cend() - 1)))  ++sz;")], PRE + r'''
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_map.h>
struct H { size_t operator()(int k) const { return k; } };
int main()
{
    estd::layer1::unordered_map<int, int, 16, H> m;
    const int n = (int)m.max_bucket_count() - 1;
    int in = 0;
    for(int i = 0; i < 8; i++) in += m.insert({n + i * (n + 1), i}).second;
    return m.size() == unsigned(in) ? 0 : 1;
}
''', "the very last place being taken", "the entry in the last place is not counted")

seed("set-equal-subset", "C16", [("internal/container/unordered/base.h", "    if(lhs.size() != rhs.size())    return false;", "    if(lhs.empty() != rhs.empty())    return false;")], PRE + r'''
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/unordered_set.h>
int main()
{
    estd::layer1::unordered_set<int, 16> a, b;
    a.insert(1); b.insert(1); b.insert(2);
    return a == b ? 1 : 0;
}
''', "the left set being a proper subset of the right one", "a set equals its supersets")

# ---- C17
seed("span-first-static", "C17", [("span.h", "        return internal::span<T, count>(data_);", "        return internal::span<T, count>(data_ + (count == 0));")], PRE + r'''
#include <estd/span.h>
int main()
{
    int a[4] = {1, 2, 3, 4};
    estd::span<int> s(a, 4);
    return s.first<0>().data() == a ? 0 : 1;
}
''', "first<0>()", "an empty prefix doesn't begin at the span's beginning")

seed("span-bytes-static", "C17", [("span.h", "    return span<byte, N * sizeof(T)>(reinterpret_cast<byte*>(s.data()));", "    return span<byte, N * sizeof(T)>(reinterpret_cast<byte*>(s.data() + (sizeof(T) > 4 && N > 1 ? s.size() - N / 1 : 0) + (N % 2 && sizeof(T) == 2)));")], PRE + r'''
#include <estd/span.h>
int main()
{
    short a[3] = {1, 2, 3};
    estd::span<short, 3> s(a);
    return (void*)estd::as_writable_bytes(s).data() == (void*)a ? 0 : 1;
}
''', "a fixed span of an odd number of two byte elements", "writable bytes start one element late")

# ---- C18
# ---- C21
seed("bip-stale-b", "C21", [("ext/willemt/bipbuffer/bipbuffer.c", "            me->b_end = me->b_inuse = 0;", "            me->b_inuse = 0;")], PRE + r'''
extern "C" {
#include <estd/ext/willemt/bipbuffer/bipbuffer.h>
}
int main()
{
    bipbuf_t* b = bipbuf_new(8);
    unsigned char in = 0, out = 0;
    for(int round = 0; round < 60; round++)
    {
        for(int k = 0; k < 3; k++) { unsigned char c = in; if(bipbuf_offer(b, &c, 1)) in++; }
        for(int k = 0; k < 2 + round % 2; k++) { unsigned char* p = bipbuf_poll(b, 1); if(p) { if(*p != out) return 1; out++; } }
        if((unsigned char)(in - out) != bipbuf_used(b)) return 2;
    }
    bipbuf_free(b);
    return 0;
}
''', "the second region having been used and taken over", "the second region's end is kept, so later content is lost or repeated")

seed("bip-peek-empty-size", "C21", [("ext/willemt/bipbuffer/bipbuffer.c", "    /* make sure we can actually peek at this data */\n    if (me->a_end - me->a_start < size)\n        return NULL;\n", "    /* make sure we can actually peek at this data */\n    if (me->a_end - me->a_start + me->b_end < size)\n        return NULL;\n")], PRE + r'''
extern "C" {
#include <estd/ext/willemt/bipbuffer/bipbuffer.h>
}
int main()
{
    bipbuf_t* b = bipbuf_new(8);
    bipbuf_offer(b, (const unsigned char*)"abcdefgh", 8);
    bipbuf_poll(b, 6);
    bipbuf_offer(b, (const unsigned char*)"ijk", 3);
    return bipbuf_peek(b, 4) == nullptr ? 0 : 1;
}
''', "peeking at more than the first region holds while the second one is in use", "peek hands out a run which isn't contiguous")

# ---- C22
seed("out-span-sputc-pos", "C22", [("internal/impl/streambuf/span.h", "        *(pptr()) = ch;\n        this->pbump(1);", "        if(!traits_type::eq(*pptr(), ch)) *(pptr()) = ch;\n        this->pbump(ch != char_type() || pos == 0);")], PRE + r'''
#include <estd/streambuf.h>
#include <estd/span.h>
int main()
{
    char a[4] = {9, 9, 9, 9};
    estd::detail::basic_ospanbuf<char> b{estd::span<char>(a, 4)};
    b.sputc('x'); b.sputc(0); b.sputc('y');
    return a[0] == 'x' && a[1] == 0 && a[2] == 'y' ? 0 : 1;
}
''', "a NUL written by sputc after something else", "the character after a NUL overwrites it")

# ---- C23
seed("stringbuf-unget-last", "C23", [("internal/impl/streambuf/string.h", "            in_base_type::gbump(-1);\n            return traits_type::to_int_type(xsgetc());", "            const int_type c = xin_avail() > 0 ? traits_type::to_int_type(xsgetc()) : 0;\n            in_base_type::gbump(-1);\n            return c == traits_type::to_int_type(xsgetc()) ? c : xin_avail() == 1 ? c : traits_type::to_int_type(xsgetc());")], PRE + r'''
#include <estd/string.h>
#include <estd/sstream.h>
int main()
{
    estd::layer1::stringbuf<16> b("abc");
    b.sbumpc(); b.sbumpc(); b.sbumpc();
    return b.sungetc() == 'c' ? 0 : 1;
}
''', "stepping back from the very end", "sungetc at the end answers NUL")

seed("span-in-partial", "C23", [("internal/impl/streambuf/span.h", "        const streamsize c = estd::min(count, xin_avail());\n\n        estd::copy_n(gptr(), c, s);", "        const streamsize c = estd::min(count, xin_avail());\n\n        estd::copy_n(gptr(), c - (c == 1 && count > 1), s);")], PRE + r'''
#include <estd/istream.h>
int main()
{
    char a[] = "abc", o[4] = {};
    estd::detail::ispanbuf b{estd::span<char>(a, 3)};
    b.sbumpc(); b.sbumpc();
    return b.sgetn(o, 4) == 1 && o[0] == 'c' ? 0 : 1;
}
''', "asking for several characters with exactly one left", "the last character is counted but not delivered")

# ---- C24
seed("istream-peek-count", "C24", [("internal/istream.h", "    inline int_type standard_peek()\n    {\n#if FEATURE_ESTD_IOS_GCOUNT\n        _gcount = 0;\n#endif", "    inline int_type standard_peek()\n    {")], PRE + r'''
#include <estd/istream.h>
int main()
{
    char a[] = "abc";
    estd::detail::ispanstream in{estd::span<char>(a, 3)};
    in.get();
    in.peek();
    return in.gcount() == 0 ? 0 : 1;
}
''', "peek after an extraction", "peek leaves the count of the operation before it")

seed("istream-getline-eof-fail", "C24", [("internal/istream.h", "            if (c == traits_type::eof())\n            {\n                this->setstate(base_type::eofbit);", "            if (c == traits_type::eof())\n            {\n                if(count > 1) this->setstate(base_type::eofbit);")], PRE + r'''
#include <estd/istream.h>
int main()
{
    char a[] = "abc", o[4];
    estd::detail::ispanstream in{estd::span<char>(a, 3)};
    in.getline(o, 4);
    return in.eof() && !in.fail() && strcmp(o, "abc") == 0 ? 0 : 1;
}
''', "the last line exactly filling the room given", "the end of the input is not reported")

seed("istream-ignore-eof", "C24", [("internal/istream.h", "            if (ch == traits_type::eof())\n            {\n                this->setstate(ios_base::eofbit);\n                break;\n            }\n            ++extracted;", "            if (ch == traits_type::eof())\n            {\n                if(extracted != 0) this->setstate(ios_base::eofbit);\n                break;\n            }\n            ++extracted;")], PRE + r'''
#include <estd/istream.h>
int main()
{
    char a[] = "a";
    estd::detail::ispanstream in{estd::span<char>(a, 1)};
    in.get();
    in.ignore(3);
    return in.eof() ? 0 : 1;
}
''', "ignore with nothing left", "ignoring at the end does not report the end")

# ---- C25
seed("tuple-visit-skips-last", "C25", [("internal/tuple.h", "        return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,\n            std::forward<Args2>(args)...);\n    }\n\n    template <class F, class ...Args2>\n    constexpr int visit(F&& f, Args2&&...args) const", "        return types::visitor::visit(internal::visit_tuple_functor{}, tuple(*this), f,\n            std::forward<Args2>(args)...);\n    }\n\n    template <class F, class ...Args2>\n    constexpr int visit(F&& f, Args2&&...args) const")], PRE + r'''
#include <estd/tuple.h>
struct Inc { template <unsigned I, class T> bool operator()(estd::variadic::instance<I, T> v) const { v.value++; return false; } };
int main()
{
    estd::tuple<int, long> t(1, 2L);
    t.visit(Inc{});
    return estd::get<0>(t) == 2 && estd::get<1>(t) == 3 ? 0 : 1;
}
''', "visiting in order to modify", "visiting modifies a copy")

# ---- C26
# ---- C27
seed("ratio-add-den", "C27", [("ratio.h", "    static CONSTEXPR std::intmax_t num = normalized1::num + normalized2::num;", "    static CONSTEXPR std::intmax_t num = normalized1::num + (Denom1 == Denom2 ? Num2 * Denom1 : Num2 * Denom1 / (Num1 < 0 && Num2 < 0 ? 1 : 1) - (Num2 < 0 && Denom1 > Denom2));")], PRE + r'''
#include <estd/ratio.h>
int main()
{
    typedef estd::detail::ratio_add<estd::ratio<1, 3>, estd::ratio<-1, 2>>::type r;
    return r::num == -1 && r::den == 6 ? 0 : 1;
}
''', "adding a negative ratio of smaller denominator", "sums with a negative second ratio of smaller denominator are off by one")

seed("duration-ge", "C27", [("internal/chrono/operators.hpp", "    return !(lhs < rhs);", "    return lhs.count() == 0 ? rhs.count() <= 0 : !(lhs < rhs) && !(rhs.count() == duration<Rep2, Period2>::max().count());")], PRE + r'''
#include <estd/chrono.h>
int main()
{
    using namespace estd::chrono;
    return milliseconds::max() >= milliseconds::max() ? 0 : 1;
}
''', "comparison with the greatest representable duration", "the greatest duration is not at least itself")

# ---- C28
seed("units-minus-equal-scale", "C28", [("internal/units/operators.hpp", "    return CT(lhs).count() <= CT(rhs).count();", "    return lhs.count() == rhs.count() || CT(lhs).count() <= CT(rhs).count();")], PRE + r'''
#include <estd/units.h>
int main()
{
    using namespace estd::internal::units;
    percent<int> a(5); percent<int, estd::milli> b(5);
    return a <= b ? 1 : 0;
}
''', "amounts of different scale with the same count", "5 is at most 5 thousandths")

# ---- C29
seed("pool-handle-sign", "C29", [("internal/memory/v1/pool.h", "        return &storage_[handle];", "        return &storage_[handle & 0x3F];")], PRE + r'''
#include <estd/memory.h>
int main()
{
    estd::internal::memory::v1::pool<16, 100> p;
    for(int i = 0; i < 100; i++) { void* b = p.alloc(); if(p.from_handle(p.to_handle(b)) != b) return 1; }
    return 0;
}
''', "a handle of 64 or more", "handles past 63 lead to another block")

seed("pool-erase-order", "C29", [("internal/memory/v1/pool.h", "        t->~T();\n        base_type::free(t);", "        base_type::free(t);\n        t->~T();")], PRE + r'''
#include <estd/memory.h>
struct T { void* a; ~T() { a = nullptr; *(volatile unsigned char*)&a = 0xEE; } };
int main()
{
    estd::internal::memory::v1::typed_pool<T, 4> p;
    T* a = p.emplace(); T* b = p.emplace();
    p.erase(a); p.erase(b);
    return p.available_blocks() == 4 ? 0 : 1;
}
''', "an element whose destructor writes to it", "the free list runs through freed storage which is written afterwards")

# ---- C30
seed("shared-owner-count", "C30", [("memory.h", "        return base_type::is_active() ? control().shared_count : 0;", "        return control().shared_count;")], PRE + r'''
#include <estd/memory.h>
int main()
{
    estd::layer1::shared_ptr<int> m; m.construct(1);
    estd::layer3::shared_ptr<int> s(m);
    m.reset();
    return m.use_count() == 0 ? 0 : 1;
}
''', "the count of a pointer which let go while others share on", "a pointer which let go reports the others' count")

seed("shared-delete-order", "C30", [("memory.h", "        if(with_deactivate)\n            base_type::deactivate();\n        if(--c.shared_count == 0)\n        {\n            c.Deleter();\n        }", "        if(--c.shared_count == 0)\n        {\n            c.Deleter();\n            if(with_deactivate)\n                base_type::deactivate();\n        }")], PRE + r'''
#include <estd/memory.h>
int dtor = 0;
struct T { ~T() { dtor++; } };
int main()
{
    {
        estd::layer1::shared_ptr<T> m; m.construct();
        estd::layer3::shared_ptr<T> s(m);
        s.reset();
        s.reset();
        if(dtor) return 1;
    }
    return dtor == 1 ? 0 : 2;
}
''', "resetting a sharer which is not the last one more than once", "resetting the same pointer twice gives up two shares")

# ---- C31
# ---- C32
seed("lock-release-owned", "C32", [("mutex.h", "        base_type::value(NULLPTR);\n\n        owned_ = false;\n\n        return temp;", "        if(owned_)\n        {\n            base_type::value(NULLPTR);\n            owned_ = false;\n        }\n\n        return temp;")], PRE + r'''
#include <estd/mutex.h>
struct M { int n = 0; void lock() { n++; } void unlock() { n--; } bool try_lock() { n++; return true; } };
int main()
{
    M m;
    estd::unique_lock<M> l(m, estd::defer_lock_t());
    l.release();
    return l.mutex() == nullptr ? 0 : 1;
}
''', "releasing a lock object which does not hold its mutex", "a released lock object still refers to the mutex")

seed("lock-move-owned", "C32", [("mutex.h", "        owned_(move_from.owned_)\n    {\n        move_from.release();\n    }", "        owned_(move_from.owned_)\n    {\n        if(move_from.owned_) move_from.release();\n    }")], PRE + r'''
#include <estd/mutex.h>
struct M { int n = 0; void lock() { n++; } void unlock() { n--; } bool try_lock() { n++; return true; } };
int main()
{
    M m;
    estd::unique_lock<M> l(m, estd::defer_lock_t());
    estd::unique_lock<M> k(static_cast<estd::unique_lock<M>&&>(l));
    return l.mutex() == nullptr && k.mutex() == &m ? 0 : 1;
}
''', "moving a lock object which does not hold its mutex", "both lock objects refer to the mutex afterwards")

