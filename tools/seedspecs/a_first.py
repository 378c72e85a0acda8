seed("heap-last-child-group", "C11", [("internal/algorithm/heap.h", "estd::min(first_child + k, last_);", "first_child + k < last_ ? first_child + k : last_ - (k > 2 ? 1 : 0);")], r'''
#include <cstdio>
#include <estd/algorithm.h>
int main()
{
    // 3-ary heap whose last child group is not full
    int v[] = { 5, 1, 9 };
    estd::make_heap(v, v + 3, estd::less<int>(), 3);
    if (v[0] != 9) { printf("front %d\n", v[0]); return 1; }
    return 0;
}
''', "a heap of arity above two whose last group of children is incomplete", "the last child of an incomplete group is never considered, so the heap order is lost")

seed("fnv-sign", "C13", [("internal/functional/hash.h", "return static_cast<uint32_t>(cast8(v));", "return static_cast<uint32_t>(v);")], r'''
#include <cstdio>
#include <estd/internal/functional/hash.h>
int main()
{
    const char s[] = { 'a', (char)0xe9, 'b' }; const unsigned char u[] = { 'a', 0xe9, 'b' };
    typedef estd::internal::fnv_hash<uint32_t, estd::internal::FNV_1A> H;
    return H::hash(s, s + 3) == H::hash(u, u + 3) ? 0 : 1;
}
''', "text with characters above 127 where char is signed", "high characters are sign extended into the hash, so the result depends on signedness")

seed("digit-range-base", "C01", [("internal/locale/cbase.h", "return 'A' <= c && c <= ('A' + char_type(_base - 11));", "return 'A' <= c && c <= ('A' + char_type((_base & 0x1f) - 11));")], r'''
#include <cstdio>
#include <cstring>
#include <estd/charconv.h>
int main()
{
    const char* t = "1z"; int v = -1;
    auto r = estd::from_chars(t, t + 2, v, 36);
    return v == 36 + 35 && r.ptr == t + 2 ? 0 : 1;
}
''', "a base of 32 or more and a letter digit", "letter digits of bases from 32 up are not recognised")

seed("queue-erase-no-rebuild", "C11", [("internal/priority_queue.h", "        c.pop_back();\n        // DEBT: Slow!", "        c.pop_back();\n        if(c.size() > 6) { push_heap(); return; }\n        // DEBT: Slow!")], r'''
#include <cstdio>
#include <estd/queue.h>
int main()
{
    estd::layer1::priority_queue<int, 12> q;
    int in[] = { 10, 8, 9, 5, 6, 7, 4, 1, 2, 3 };
    for (int i : in) q.push(i);
    q.erase_if([](int& v) { return v == 8; });
    int last = 100;
    while (!q.empty()) { int t = q.top(); if (t > last) { printf("%d after %d\\n", t, last); return 1; } last = t; q.pop(); }
    return 0;
}
''', "an inner element of a queue of eight or more is erased", "after erasing only the last element is sifted up, so the replacement stays above larger ones")

seed("deque-wrap-front", "C10", [("queue.h", "            return N - (m_front - m_back);", "            return (N & ~size_t(1)) - (m_front - m_back);")], r'''
#include <cstdio>
#include <estd/queue.h>
int main()
{
    estd::layer1::deque<int, 5> d;
    for (int i = 0; i < 4; i++) d.push_back(i);
    d.pop_front(); d.pop_front(); d.pop_front();
    d.push_back(4); d.push_back(5);
    return d.size() == 3 ? 0 : 1;
}
''', "an odd capacity and contents that wrap around", "size is one short when the contents wrap around in a deque of odd capacity")

