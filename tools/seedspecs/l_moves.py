WARE = r'''
#include <estd/queue.h>
#include <estd/stack.h>
#include <estd/vector.h>
#include <estd/optional.h>
#include <estd/expected.h>
#include <estd/variant.h>
#include <estd/tuple.h>
#include <estd/list.h>
#include <estd/algorithm.h>
#include <estd/internal/container/unordered_map.h>
#include <memory>
static int copies = 0;
struct W { int v; bool gone = false; W(int v = 0) : v(v) {} W(const W& o) : v(o.v), gone(o.gone) { copies++; } W(W&& o) : v(o.v), gone(o.gone) { o.gone = true; }
    W& operator=(const W& o) { v = o.v; gone = o.gone; copies++; return *this; } W& operator=(W&& o) { v = o.v; gone = o.gone; if (&o != this) o.gone = true; return *this; }
    bool operator<(const W& o) const { return v < o.v; } bool operator==(const W& o) const { return v == o.v; } bool operator>(const W& o) const { return v > o.v; } };
'''
seed("mv-queue-push", "C39", [("queue.h", "    bool push(value_type&& value)\n    {\n        return c.push_back(std::move(value));", "    bool push(value_type&& value)\n    {\n        return c.push_back(static_cast<const value_type&>(value));")], WARE + r'''
int main() { static estd::layer1::queue<W, 4> q; q.push(W(3)); return copies == 0 && q.front().v == 3 ? 0 : 1; }
''', "pushing an rvalue whose copies can be told from moves", "a queue copies what it is given")
seed("mv-queue-refused", "C39", [("queue.h", "        if(size() == max_size()) return false;\n\n        value_type& back = *m_back++;\n\n        new (&back) value_type(std::move(value));",
    "        value_type taken(std::move(value));\n\n        if(size() == max_size()) return false;\n\n        value_type& back = *m_back++;\n\n        new (&back) value_type(std::move(taken));")], WARE + r'''
int main() { static estd::layer1::queue<W, 2> q; q.push(W(1)); q.push(W(2)); W w(3); bool r = q.push(std::move(w)); return !r && !w.gone && copies == 0 ? 0 : 1; }
''', "pushing an rvalue into a full queue, and using the value again when refused", "what a full queue refuses is lost")
seed("mv-deque-emplace-front", "C39", [("queue.h", "        value_type& retval = *i;\n\n        new (&retval) value_type(std::forward<TArgs>(args)...);", "        value_type& retval = *i;\n\n        new (&retval) value_type(args...);")], WARE + r'''
int main() { static estd::layer1::deque<W, 4> q; q.emplace_front(W(3)); return copies == 0 && q.front().v == 3 ? 0 : 1; }
''', "emplacing an rvalue at the front", "a deque copies what it is given")
seed("mv-stack-push", "C39", [("stack.h", "    void push(value_type&& value) { c.push_back(std::move(value)); }", "    void push(value_type&& value) { c.push_back(value); }")], WARE + r'''
int main() { estd::layer1::stack<W, 4> q; q.push(W(3)); return copies == 0 ? 0 : 1; }
''', "pushing an rvalue whose copies can be told from moves", "a stack copies what it is given")
seed("mv-list-push-back", "C39", [("list.h", "        push_back(base_t::traits.alloc_move(std::move(value)));", "        push_back(base_t::traits.alloc_move(T(value)));")], WARE + r'''
int main() { typedef estd::experimental::ValueNode<W, estd::experimental::double_node_base> N; typedef estd::experimental_std_allocator<N> A;
    typedef estd::inlinevalue_node_traits_new_base<N, A, estd::nothing_allocator<W>> TR; estd::internal::list_base<W, N, A, TR> l; l.push_back(W(3)); return copies == 0 ? 0 : 1; }
''', "pushing an rvalue at the back", "a list copies what it is given")
seed("mv-exchange", "C39", [("utility.h", "    T old_value = std::move(obj);", "    T old_value = obj;")], WARE + r'''
int main() { W a(1); W o = estd::exchange(a, W(2)); return copies == 0 && a.v == 2 && o.v == 1 ? 0 : 1; }
''', "exchanging a value whose copies can be told from moves", "the old value is copied")
seed("mv-map-insert", "C39", [("internal/container/unordered_map.h", "            new (ret.first) value_type(std::forward<P>(value));", "            new (ret.first) value_type(value);")], WARE + r'''
struct H { size_t operator()(int k) const { return k; } };
int main() { typedef estd::layer1::unordered_map<int, W, 64, H> M; static M m; M::value_type p(3, W(4)); copies = 0; m.insert(std::move(p)); return copies == 0 && m.find(3)->second.v == 4 ? 0 : 1; }
''', "inserting a pair as an rvalue", "a map copies the mapped value")
seed("mv-tuple-apply", "C39", [("internal/tuple/apply.h", "    return f(get<Is>(std::forward<Tuple>(t))...);", "    return f(get<Is>(std::move(t))...);")], WARE + r'''
int main() { estd::tuple<W, int> t(W(3), 1); int r = estd::apply([](W a, int b) { return a.v + b; }, t); return r == 4 && !estd::get<0>(t).gone ? 0 : 1; }
''', "applying a function taking values to a tuple which is kept", "the tuple's elements are moved away")
seed("mv-optional-emplace", "C39", [("optional.h", "        T& v = base_type::emplace(std::forward<TArgs>(args)...);", "        T& v = base_type::emplace(T(args...));")], WARE + r'''
int main() { estd::optional<W> o; o.emplace(W(3)); return copies == 0 && o->v == 3 ? 0 : 1; }
''', "emplacing from an rvalue", "an optional copies what it is given")
seed("mv-unexpected", "C39", [("expected.h", "        base_type(unexpect_t{}, std::forward<TArgs>(args)...),", "        base_type(unexpect_t{}, args...),")], WARE + r'''
int main() { copies = 0; estd::expected<int, W> e(estd::unexpect_t{}, W(3)); return copies == 0 && e.error().v == 3 ? 0 : 1; }
''', "making an expected of an error given in place as an rvalue", "the error is copied")
seed("mv-forward-list-emplace", "C39", [("forward_list.h", "        node_handle h = base_t::traits.alloc_emplace(std::forward<TArgs>(args)...);", "        node_handle h = base_t::traits.alloc_emplace(T(args...));")], WARE + r'''
#include <estd/forward_list.h>
template <class N> struct Nodes : estd::experimental_std_allocator<N> { N* allocate(size_t n) { return std::allocator<N>().allocate(n); } void deallocate(N* p, size_t n) { std::allocator<N>().deallocate(p, n); } };
int main() { typedef estd::experimental::ValueNode<W, estd::experimental::forward_node_base> N; estd::internal::forward_list<W, N, Nodes<N>> l; l.emplace_front(W(3)); return copies == 0 ? 0 : 1; }
''', "emplacing from an rvalue", "a list copies what it is given")
