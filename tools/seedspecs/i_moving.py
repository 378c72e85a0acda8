I = "internal/"
PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <vector>
#include <estd/memory.h>
#include <estd/internal/container/locking_accessor.h>
#include <estd/internal/container/iterator.h>
#include <estd/vector.h>
#include <estd/string.h>
#include <estd/forward_list.h>
#include <estd/list.h>
struct Mem { char* p; size_t n; int locks; }; static std::vector<Mem> mem(1, Mem{(char*)calloc(64, 1), 64, 0}); static int faults = 0; // 0 is no memory
static void hop(Mem& m) { char* q = (char*)malloc(m.n + 1); memcpy(q, m.p, m.n); memset(m.p, '#', m.n); m.p = q; }
static char* take(int h) { mem[h].locks++; return mem[h].p; }
static void give(int h) { if (mem[h].locks == 0) { faults++; return; } if (--mem[h].locks == 0) hop(mem[h]); }
static bool quiet() { int held = 0; for (auto& m : mem) held += m.locks; return !faults && !held; }
struct Where { int h; ptrdiff_t o; Where(int h, ptrdiff_t o) : h(h), o(o) {} int handle() const { return h; } ptrdiff_t offset() const { return o; }
    Where& operator+=(ptrdiff_t n) { o += n; return *this; } Where& operator-=(ptrdiff_t n) { o -= n; return *this; }
    ptrdiff_t operator-(const Where& w) const { return o - w.o; } bool operator==(const Where& w) const { return h == w.h && o == w.o; } };
template <class T> struct At { typedef T value_type; typedef Where& offset_type; typedef const Where& const_offset_type; typedef T& locked_type; typedef const T& const_locked_type;
    Where w; mutable bool held = false; template <class A> At(A&, const Where& w) : w(w) {} At(const At& o) : w(o.w) {} At& operator=(const At& o) { unlock(); w = o.w; return *this; } ~At() { unlock(); } Where& offset() { return w; } const Where& offset() const { return w; }
    T& lock() const { T* p = held ? (T*)mem[w.h].p : (T*)take(w.h); held = true; return p[w.o]; } void unlock() const { if (held) { held = false; give(w.h); } } };
template <class T> struct Alloc { typedef void is_locking_tag; typedef void is_stateful_tag; int id = 0;
    typedef T value_type; typedef T* pointer; typedef const void* const_void_pointer; typedef int handle_type; typedef size_t size_type; typedef Where handle_with_offset;
    typedef estd::internal::locking_accessor<At<T>> accessor; typedef estd::internal::locking_iterator<Alloc, accessor> iterator;
    static constexpr bool is_locking() { return true; } static constexpr bool is_stateful() { return true; } static constexpr bool is_singular() { return false; } static constexpr bool has_size() { return false; }
    static constexpr handle_type invalid() { return 0; } static unsigned max_size() { return 99999; }
    T& lock(int h, size_t pos = 0, size_t = 0) const { return ((T*)take(h))[pos]; } T& lock(const Where& h, size_t pos = 0, size_t = 0) const { return ((T*)take(h.h))[h.o + pos]; }
    const T& clock(int h, size_t pos = 0, size_t = 0) const { return lock(h, pos); } const T& clock(const Where& h, size_t pos = 0, size_t = 0) const { return lock(h, pos); }
    void unlock(int h) const { give(h); } void cunlock(int h) const { give(h); }
    int allocate(size_t n) { mem.push_back(Mem{(char*)calloc(n * sizeof(T) + 1, 1), n * sizeof(T), 0}); return (int)mem.size() - 1; }
    void deallocate(int h, size_t) { if (mem[h].locks) faults++; }
    int reallocate(int h, size_t n) { if (mem[h].locks) faults++; char* q = (char*)calloc(n * sizeof(T) + 1, 1); memcpy(q, mem[h].p, mem[h].n < n * sizeof(T) ? mem[h].n : n * sizeof(T)); memset(mem[h].p, '#', mem[h].n); mem[h].p = q; mem[h].n = n * sizeof(T); return h; }
    Where offset(int h, ptrdiff_t n) const { return Where(h, n); } };
typedef estd::basic_string<char, estd::char_traits<char>, Alloc<char>> S; typedef estd::vector<int, Alloc<int>> V;
template <class A> bool is(A& a, const char* t) { bool r = a.size() == strlen(t) && !memcmp(a.clock(), t, a.size()); a.cunlock(); return r; }
'''

seed("mov-find-early", "C36", [(I + "string.h", """        while(pos < size)
        {
            if(*data++ == ch)
            {
                base_type::cunlock();
                return pos;
            }

            ++pos;
        }

        base_type::cunlock();

        return npos;""", """        while(pos < size)
        {
            if(*data++ == ch) return pos;

            ++pos;
        }

        base_type::cunlock();

        return npos;""")], PRE + r'''
int main()
{
    static S s; s += "needle"; bool ok = s.find('l') == 4 && s.find('x') == S::npos && quiet(); s += "s"; return ok && is(s, "needles") ? 0 : 1;
}
''', "a search for a character in a string in movable memory which finds it", "the lock stays")

seed("mov-copy-nothing", "C36", [(I + "container/specializer.h", """        const value_type* src = a.clock(pos, count);

        // TODO: since we aren't gonna throw an exception, determine what to do if
        // pos > size()

        if(pos + count > a.size())
            count = a.size() - pos;

        // TODO: Do the m_impl.copy_from here
""", """        const value_type* src = a.clock(pos, count);

        // nothing there
        if(pos >= a.size()) return 0;

        if(count > a.size() - pos)
            count = a.size() - pos;

        // TODO: Do the m_impl.copy_from here
""")], PRE + r'''
int main()
{
    static S s, e; s += "abc"; char b[8]; bool ok = s.copy(b, 8, 1) == 2 && s.copy(b, 2, 3) == 0 && quiet(); return ok ? 0 : 1;
}
''', "copying from the very end of an array in movable memory", "the lock stays")

seed("mov-append-other", "C36", [(I + "container/specializer.h", """        auto r = a.grow(len);
        const size_type current_size = r.starting_size;
        pointer raw = a.lock(current_size);

        copy_from.copy(raw, len);

        a.unlock();

        return {};""", """        const size_type current_size = a.size();
        pointer raw = a.lock(current_size);
        auto r = a.grow(len);

        copy_from.copy(raw, len);

        a.unlock();

        static_cast<void>(r);
        return {};""")], PRE + r'''
int main()
{
    static V v, w; for (int i = 0; i < 3; i++) v.push_back(i); for (int i = 0; i < 60; i++) w.push_back(i); v.append(w);
    bool ok = v.size() == 63; const int* p = v.clock(); for (int i = 0; i < 63; i++) ok = ok && p[i] == (i < 3 ? i : i - 3); v.cunlock(); return ok && quiet() ? 0 : 1;
}
''', "appending another vector which makes this one grow", "it is copied to where the memory was before it grew")

seed("mov-insert-str", "C36", [(I + "string.h", """        const_pointer src = str.clock();

        base_type::raw_insert(index, src, src + str.size());

        str.cunlock();

        return *this;""", """        const_pointer src = str.clock();
        const_pointer last = src + str.size();
        str.cunlock();

        base_type::raw_insert(index, src, last);

        return *this;""")], PRE + r'''
int main()
{
    static S s; s += "movable"; static estd::layer1::string<64> t; t += "im!"; t.insert(2, s); return quiet() && !strcmp(t.data(), "immovable!") ? 0 : 1;
}
''', "inserting a string in movable memory into another", "it is read after its lock was released")

seed("mov-node-next", "C36", [(I + "list_node.h", """        node_type& node = alloc_lock(_node);

        get_traits().next(node, next);

        alloc_unlock(_node);
""", """        node_type& node = alloc_lock(_node);

        get_traits().next(node, next);

        alloc_unlock(next);
""")], PRE + r'''
struct Link { int m_next = 0; int next() const { return m_next; } void next(int h) { m_next = h; } };
int main()
{
    typedef estd::experimental::ValueNode<int, Link> N; typedef Alloc<N> A; typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<int>> TR;
    static estd::internal::forward_list<int, N, A, TR> l; l.push_front(3); l.push_front(2); l.push_front(1); return quiet() ? 0 : 1;
}
''', "adding to a list whose nodes are in movable memory", "another node's lock is released than the one taken")

seed("mov-node-destroy", "C36", [("traits/list_node.h", """        (&lock_node(h))->~node_type();
        unlock_node(h);
""", """        node_type* n = &lock_node(h);
        unlock_node(h);
        n->~node_type();
""")], PRE + r'''
struct Link { int m_next = 0; int next() const { return m_next; } void next(int h) { m_next = h; } };
struct Own { char c = 'o'; bool* good; Own(bool* g) : good(g) {} ~Own() { if (c != 'o') exit(1); *good = true; } };
int main()
{
    typedef estd::experimental::ValueNode<Own, Link> N; typedef Alloc<N> A; typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<Own>> TR;
    static estd::internal::forward_list<Own, N, A, TR> l; bool gone = false; l.emplace_front(&gone); l.pop_front(); return gone && quiet() ? 0 : 1;
}
''', "destroying a node in movable memory", "the destructor runs on where the node was")
