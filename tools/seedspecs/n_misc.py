# planted late: closing up buckets, wide read-ahead
PREN = ""
seed("map-gc-only-sparse", "C15", [("internal/container/unordered_map.h", "        for(control_pointer it = container_.begin() + n; it != container_.cend() && it < pos; ++it)\n        {\n            // if item is null (maybe) sparse", "        for(control_pointer it = container_.begin() + n + 1; it != container_.cend() && it < pos; ++it)\n        {\n            // if item is null (maybe) sparse")], r'''
#include <estd/unordered_map.h>
struct one { size_t operator()(int) const { return 1; } };
int main()
{
    estd::layer1::unordered_map<int, int, 16, one> m;
    m.insert({ 1, 10 }); m.insert({ 2, 20 });
    const void* first = &m.find(1)->second;
    m.erase(1);
    auto it = m.gc_active(m.find(2));
    return it->first == 2 && it->second == 20 && (const void*)&it->second == first ? 0 : 1;
}
''', "closing up a bucket whose very first place was freed", "the entry stays behind the free place")
seed("bip-wide-room", "C22", [("internal/impl/streambuf/bipbuf.h", "        return buf_.unused() / sizeof(char_type);\n    }\n\n    void pbump", "        return buf_.unused();\n    }\n\n    void pbump")], r'''
#include <estd/streambuf.h>
#include <vector>
typedef estd::internal::streambuf<estd::internal::impl::out_span_streambuf<char16_t> > Sink;
int main()
{
    char16_t mem[40] = {};
    Sink sink(mem, (Sink::size_type)40);
    estd::internal::out_bipbuf_streambuf<Sink&, 4> sb(sink);
    const char16_t text[] = { 0x2601, 0x2602, 0x2603, 0x2604, 0x2605, 0x2606 };
    // what does not fit is not reported as taken
    long n = (long)sb.sputn(text, 6);
    sb.pubsync();
    if(n < 0 || n > 6 || (long)sink.pos() != n) return 1;
    for(long i = 0; i < n; i++) if(mem[i] != text[i]) return 2;
    return 0;
}
''', "a block of wide characters longer than the buffer", "characters are reported as written which never arrive")
seed("clamp-equal-limit", "C12", [("algorithm.h", "        comp(v, lo) ? lo : comp(hi, v) ? hi : v;", "        comp(v, lo) ? lo : comp(v, hi) ? v : hi;")], r'''
#include <assert.h>
#include <estd/algorithm.h>
struct item { int key, id; };
static bool less(const item& a, const item& b) { return a.key < b.key; }
int main() { item v = { 5, 1 }, lo = { 1, 2 }, hi = { 5, 3 }; return estd::clamp(v, lo, hi, less).id == 1 ? 0 : 1; }
''', "clamping a value equivalent to the upper limit, told apart by its identity", "the limit is given instead of the value")
