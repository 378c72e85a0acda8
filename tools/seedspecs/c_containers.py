PRE = "#include <cstdio>\n#include <cstring>\n#include <cstdint>\n"
seed("string-erase-keep-terminator", "C06", [("internal/dynamic_array.h", "            prev_size++;\n        else", "            prev_size += (index + count < prev_size || index == 0) ? 1 : 0;\n        else")], PRE + r'''
#include <estd/string.h>
int main()
{
    estd::layer1::string<16> s; s += "hello";
    s.erase(3);
    return s == "hel" ? 0 : 1;
}
''', "a terminated string whose tail is erased, leaving something", "erasing the tail of a terminated string removes nothing")

seed("string-append-count", "C06", [("internal/container/specializer.h", "        if(pos + count > a.size())\n            count = a.size() - pos;\n\n        // TODO: Do the m_impl.copy_from here", "        if(static_cast<uint8_t>(pos + count) > a.size())\n            count = a.size() - pos;\n\n        // TODO: Do the m_impl.copy_from here")], PRE + r'''
#include <estd/string.h>
int main()
{
    estd::layer1::string<16> s; s += "hello";
    char b[300]; memset(b, '#', 300);
    auto n = s.copy(b, 255, 2);
    return n == 3 && b[3] == '#' ? 0 : 1;
}
''', "copying out with a position and a count whose sum wraps eight bits", "copying out with a large count runs past the end of the string")

seed("string-substr-compare", "C06", [("internal/string.h", "        size_type size_minus_index = base_type::size() - index;", "        size_type size_minus_index = base_type::size() - (index ? index : count == 1);")], PRE + r'''
#include <estd/string.h>
int main()
{
    estd::layer1::string<16> s; s += "x";
    s.erase(0, 1);
    return s.empty() ? 0 : 1;
}
''', "erasing the only character of a one character string", "a single remaining character cannot be erased")

seed("string-find-tail", "C07", [("internal/string.h", "        while(pos < size)\n        {\n            if(*data++ == ch)", "        const size_type stop = ch == 0 ? size - 1 : size;\n        while(pos < stop)\n        {\n            if(*data++ == ch)")], PRE + r'''
#include <estd/string_view.h>
int main()
{
    const char t[] = { 'a', 'b', 0 };
    estd::string_view v(t, 3);
    return v.find('\0') == 2 ? 0 : 1;
}
''', "a counted view whose last character is NUL and is searched for", "a trailing NUL character is not found")

seed("string-find-first-of-pos", "C07", [("internal/string.h", "        return find_first_of(s, pos, traits_type::length(s));", "        const size_type n = traits_type::length(s);\n        return n == 1 ? find(*s, pos ? pos - 1 : pos) : find_first_of(s, pos, n);")], PRE + r'''
#include <estd/string_view.h>
int main()
{
    estd::string_view v("abcabc");
    return v.find_first_of("a", 1) == 3 ? 0 : 1;
}
''', "a one character set and a start position just after an occurrence", "search for one of a single character reports a position before the start")

seed("string-starts-longer", "C07", [("internal/container/starts_with.h", "    return count_rhs == -1;", "    return count_rhs <= 0;")], PRE + r'''
#include <estd/string_view.h>
int main()
{
    estd::string_view v("ab"), w("abc");
    return v.starts_with(w) ? 1 : 0;
}
''', "a prefix that is exactly one character longer than the text and otherwise equal", "a text one shorter than the prefix still starts with it")

seed("view-remove-prefix-all", "C08", [("string_view.h", "        if(count < copy.size())", "        if(count < copy.size() && count != 0)")], PRE + r'''
#include <estd/string_view.h>
int main()
{
    estd::string_view v("abc");
    return v.substr(1, 0).size() == 0 ? 0 : 1;
}
''', "a sub-view of zero characters", "asking for zero characters yields everything that remains")

seed("vector-insert-range-end", "C09", [("internal/dynamic_array.h", "        const size_type input_sz = last - first;\n        if(ensure_total_size(sz + input_sz) == false) return false;", "        const size_type input_sz = last - first;\n        if(ensure_total_size(sz + input_sz) == false) return false;\n        if(to_insert_pos == sz && input_sz > 1 && (input_sz & 3) == 0) --last;")], PRE + r'''
#include <estd/vector.h>
int main()
{
    estd::layer1::vector<int, 10> v; v.push_back(9);
    int in[] = { 1, 2, 3, 4 };
    v.data()[4] = 77;
    v.insert(v.end(), in, in + 4);
    return v.data()[4] == 4 ? 0 : 1;
}
''', "inserting a range whose length is a multiple of four at the end", "the last element of the range is not written")

seed("vector-pop-size", "C09", [("internal/dynamic_array.h", "        size_type index = pos - base_type::begin();\n        _erase(index, 1);", "        size_type index = pos - base_type::begin();\n        if(index + 1 == size() && index > 4) { resize(index - 1); return base_type::create_iterator(index - 1); }\n        _erase(index, 1);")], PRE + r'''
#include <estd/vector.h>
int main()
{
    estd::layer1::vector<int, 10> v; for (int i = 0; i < 7; i++) v.push_back(i);
    auto it = v.begin(); for (int i = 0; i < 6; i++) ++it;
    v.erase(it);
    return v.size() == 6 ? 0 : 1;
}
''', "erasing the last element of a vector of six or more", "erasing the last element drops two")

seed("vector-assign-range", "C09", [("internal/dynamic_array.h", "        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));", "        if(count < 2 && index != 1) memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));\n        else memcpy(raw, raw + count, (prev_size - (index + count)) * (sizeof(value_type) > 4 ? 4 : sizeof(value_type)));")], PRE + r'''
#include <estd/vector.h>
int main()
{
    estd::layer1::vector<int64_t, 10> v; for (int i = 0; i < 4; i++) v.push_back(i);
    auto it = v.begin(); ++it;
    v.erase(it);
    return v[2] == 3 ? 0 : 1;
}
''', "erasing the second element where elements are wider than four bytes", "elements wider than four bytes are moved only in part")

seed("deque-pop-back-empty", "C10", [("queue.h", "        decrement(&m_back);\n\n        if(m_front == m_back) m_empty = true;", "        const bool wrapped = m_back == m_array.begin();\n        decrement(&m_back);\n\n        if(m_front == m_back) m_empty = !wrapped;")], PRE + r'''
#include <estd/queue.h>
int main()
{
    estd::layer1::deque<int, 3> d; d.push_back(1); d.push_back(2); d.pop_front(); d.pop_front(); d.push_back(3);
    d.pop_back();
    return d.empty() && d.size() == 0 ? 0 : 1;
}
''', "the only element sits in the last slot and is removed from the back", "a deque emptied across the wrap looks full")

seed("deque-iter-back", "C10", [("queue.h", "        if(size() == max_size()) return false;\n\n        value_type& back = *m_back++;", "        if(m_back == m_front && !m_empty && N > 2) return false;\n\n        value_type& back = *m_back++;")], PRE + r'''
#include <estd/queue.h>
int main()
{
    estd::layer1::deque<int, 2> d; d.push_back(1); d.push_back(2);
    return d.push_back(3) ? 1 : 0;
}
''', "a moved value pushed into a full deque of capacity one or two", "a full small deque accepts another element and overwrites the first")

seed("deque-front-emplace", "C10", [("queue.h", "        if(m_front == m_back) m_empty = true;\n\n        return true;\n    }\n\n    reference front()", "        if(m_front == m_back) { m_empty = true; m_front = m_back = m_array.begin() + 1 % N; }\n        else if(N > 4 && m_back == m_array.begin() && m_front + 1 == m_array.end()) m_back = m_front, m_back++;\n\n        return true;\n    }\n\n    reference front()")], PRE + r'''
#include <estd/queue.h>
int main()
{
    estd::layer1::deque<int, 5> d;
    for (int i = 0; i < 5; i++) d.push_back(i);
    for (int i = 0; i < 4; i++) d.pop_front();
    d.push_back(7);
    return d.size() == 2 && d.back() == 7 ? 0 : 1;
}
''', "one element left in the last slot after removals from the front, then additions", "the write position is left past the end of the storage")

seed("heap-restore-up-arity", "C11", [("internal/algorithm/heap.h", "int parent_idx = (current_idx - 1) / k;", "int parent_idx = current_idx > 8 ? (current_idx - (k & 1 ? 2 : 1)) / k : (current_idx - 1) / k;")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    int v[10] = { 100, 90, 10, 80, 9, 8, 7, 6, 5, 95 };
    // 3-ary: parent of 9 is 2
    estd::internal::heap<int*, estd::less<int>> h(v, v + 10, 3);
    h.restore_up();
    // heap order must hold
    int w[14]; for (int i = 0; i < 10; i++) w[i] = v[i];
    for (int i = 1; i < 10; i++) if (w[i] > w[(i - 1) / 3]) return 1;
    int x[11] = { 100, 90, 80, 70, 50, 49, 48, 47, 46, 45, 75 };
    estd::internal::heap<int*, estd::less<int>> g(x, x + 11, 3);
    g.restore_up();
    for (int i = 1; i < 11; i++) if (x[i] > x[(i - 1) / 3]) return 1;
    return 0;
}
''', "pushing a tenth element onto a heap of odd arity", "the wrong parent is compared, so heap order is lost")

seed("pq-assign-compare", "C11", [("internal/priority_queue.h", "        compare_provider_type::operator=(copy_from);\n        c = copy_from.c;", "        if(empty()) compare_provider_type::operator=(copy_from);\n        c = copy_from.c;")], PRE + r'''
#include <estd/queue.h>
struct C { bool up = true; bool operator()(int a, int b) const { return up ? a < b : b < a; } };
int main()
{
    typedef estd::layer1::priority_queue<int, 8, C> Q; C down; down.up = false;
    Q a, b(down); a.push(3); b.push(1); b.push(2);
    a = b;
    a.push(0);
    int t = a.top();
    return t == 0 ? 0 : 1;
}
''', "copy assignment to a non-empty queue with a stateful comparator", "the ordering of the target is kept, so the copied contents are not in its order")

seed("mismatch-second", "C12", [("algorithm.h", "    while ((first != last) && (first != --last))\n        iter_swap(first++, last);", "    while ((first != last) && (first != --last))\n    {\n        if(*first == *last) { ++first; if(first != last) --last; }\n        if(first == last) return;\n        iter_swap(first++, last);\n    }")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    int v[] = { 1, 2, 3, 1 };
    estd::reverse(v, v + 4);
    int w[] = { 1, 3, 2, 1 };
    int x[] = { 1, 2, 2, 3, 4, 1 }, y[] = { 1, 4, 3, 2, 2, 1 };
    estd::reverse(x, x + 6);
    return memcmp(v, w, sizeof v) || memcmp(x, y, sizeof x) ? 1 : 0;
}
''', "a range whose mirrored elements are equal", "equal outer elements upset the reversal")

seed("clamp-equal", "C12", [("algorithm.h", "            if (it == last)\n                return last;", "            if (it == last)\n            {\n                if (s_it == s_first) return last;\n                break;\n            }")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    int* h = new int[2]{ 1, 2 }; int n[] = { 2, 3 };
    auto p = [](int a, int b) { return a == b; };
    int* r = estd::search(h, h + 2, n, n + 2, p);
    return r == h + 2 ? 0 : 1;
}
''', "a needle whose beginning matches the end of the range", "kept for effect: scanning continues")

seed("min-element-last", "C12", [("algorithm.h", "        if (comp(*first, *smallest)) {\n            smallest = first;\n        }", "        if (!comp(*smallest, *first)) {\n            smallest = first;\n        }")], PRE + r'''
#include <estd/algorithm.h>
int main()
{
    int v[] = { 2, 1, 1 };
    return estd::min_element(v, v + 3, estd::less<int>()) == v + 1 ? 0 : 1;
}
''', "several equally small elements", "the last instead of the first smallest element is reported")

seed("byte-shift", "C13", [("internal/raw/cstddef.h", "    return b = (byte)(((unsigned char)b) >> shift);", "    return b = (byte)(((signed char)b) >> shift);")], PRE + r'''
#include <estd/cstddef.h>
int main()
{
    estd::byte b = estd::to_byte(0x90); b >>= 4;
    return estd::to_integer<int>(b) == 9 ? 0 : 1;
}
''', "a byte with its top bit set", "shifting right drags the top bit along")

seed("hash-continue", "C13", [("internal/functional/hash.h", "        for(It current = begin; current != end; ++current)\n        {\n            hashval ^= cast32(*current);\n            hashval *= FNV1A_32_PRIME;\n        }", "        for(It current = begin; current != end; ++current)\n        {\n            hashval ^= cast32(*current);\n            if(hashval != 0) hashval *= FNV1A_32_PRIME;\n            else hashval = INIT;\n        }")], PRE + r'''
#include <estd/internal/functional/hash.h>
int main()
{
    typedef estd::internal::fnv_hash<uint32_t, estd::internal::FNV_1A> H;
    const char s[] = { 'a' };
    return H::hash(s, s + 1, 'a') == 0 ? 0 : 1;
}
''', "a running hash that becomes zero", "a hash value of zero is replaced by the initial value")
