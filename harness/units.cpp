// Units (amounts with a scale, a kind and possibly an offset) against exact rational arithmetic.
#include <estd/internal/units/base.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/ostream.h>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/operators.hpp>
#include <estd/sstream.h>
#include "pbt.h"
#include "exact.h"
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

struct length_tag {};
namespace estd { namespace internal { namespace units {
template <> struct traits<length_tag> { static constexpr const char* name() { return "meter"; } static constexpr const char* abbrev() { return "m"; } };
}}}

namespace {
namespace u = estd::internal::units;
using namespace exact;
template <class R, class P = estd::ratio<1>, class F = u::passthrough<R>> using length = u::unit_base<R, P, length_tag, F>;

template <class U> constexpr Info info() { typedef typename U::root_rep R; return Info{Per{U::period::num, U::period::den}, std::numeric_limits<R>::min(), std::numeric_limits<R>::max(), std::numeric_limits<R>::is_signed, (int)sizeof(R)}; }
template <class A, class B> using common = decltype(u::ct_helper(std::declval<A>(), std::declval<B>()));
template <class A, class B> struct Pair
{
    typedef common<A, B> CT; typedef typename B::root_rep RB;
    static void run(int64_t ca, int64_t cb, int64_t* out)
    {
        // out[0]: convert, out[1]: compare, out[2]: sum fits, out[3]: difference fits, out[4]: == as the same unit
        const A a((typename A::root_rep)ca); const B b((RB)cb);
        if (out[0]) { B t(RB(1)); t = a; out[5] = t.count(); if constexpr (!std::is_same<typename A::period, typename B::period>::value || std::is_same<A, B>::value) { const B n(a); out[6] = n.count(); const B m(a, u::relaxed_narrow_t{}); out[7] = m.count(); } else { const B m(a, u::relaxed_narrow_t{}); out[6] = out[7] = m.count(); } }
        if (out[1]) out[8] = (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5;
        if (out[2]) { CT r = a + b; out[9] = r.count(); CT q = b + a; out[10] = q.count(); }
        if (out[3]) { CT r = a - b; out[11] = r.count(); }
        out[12] = a.count(); out[13] = a.root_count();
        if constexpr (std::is_same<CT, A>::value)
        {
            if (out[2]) { A t(a); A& r = t += b; out[14] = t.count(); out[16] = &r == &t; }
            if (out[3]) { A t(a); A& r = t -= b; out[15] = t.count(); out[16] = out[16] && &r == &t; }
        }
        else { out[14] = out[9]; out[15] = out[11]; }
    }
};
struct Entry { Info a, b, c; void (*fn)(int64_t, int64_t, int64_t*); bool accumulates; };
template <class A, class... B> struct Row { static constexpr Entry entries[] = { Entry{info<A>(), info<B>(), info<common<A, B>>(), &Pair<A, B>::run, std::is_same<common<A, B>, A>::value}... }; };
template <class A, class... B> constexpr Entry Row<A, B...>::entries[];
template <class... T> struct list {};
void append(std::vector<Entry>& v, const Entry* first, int n) { v.insert(v.end(), first, first + n); }
template <class... A, class... B> std::vector<Entry> grid(list<A...>, list<B...>) { std::vector<Entry> v; (append(v, Row<A, B...>::entries, sizeof...(B)), ...); return v; }
// units of one scale have reps which widen into each other's common type
typedef list<length<int16_t>, length<int32_t>, length<int32_t, estd::kilo>, length<int64_t, estd::milli>, length<int32_t, estd::ratio<1, 10>>, length<int16_t, estd::ratio<100, 1024>>, length<int32_t, estd::ratio<1024>>, length<uint32_t, estd::ratio<1, 3>>, length<int8_t, estd::ratio<5, 7>>, length<uint8_t, estd::ratio<60>>> some_units;
typedef list<length<int8_t>, length<int64_t>, length<uint8_t>, length<uint16_t, estd::ratio<1, 10>>, length<int64_t, estd::kilo>, length<int32_t, estd::milli>, length<uint16_t, estd::ratio<2, 3>>, length<int32_t, estd::micro>, length<uint8_t, estd::ratio<1, 1024>>> other_units;
const std::vector<Entry>& table() { static const std::vector<Entry> v = [] { std::vector<Entry> r = grid(some_units(), other_units()), t = grid(other_units(), list<length<int32_t>, length<int32_t, estd::kilo>, length<int16_t, estd::ratio<100, 1024>>>()); r.insert(r.end(), t.begin(), t.end()); return r; }(); return v; }
int order(wide a, wide b) { return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5; }
TARGET(unit_pairs, 6)
{
    const auto& all = table(); const Entry& e = all[s.choose(all.size())]; const Factor f(e.a.per, e.b.per), fa(e.a.per, e.c.per), fb(e.b.per, e.c.per); const std::string A = e.a.name(), B = e.b.name(), C = e.c.name();
    CHECK(fa.den == 1 && fb.den == 1, "the common unit " << C << " expresses both " << A << " and " << B << " exactly");
    wide lo = limit_lo(e.a, fa, e.c.lo), hi = limit_hi(e.a, fa, e.c.hi); const bool far = s.one_in(3);
    if (far) { lo = limit_lo(e.a, f, e.b.lo); hi = limit_hi(e.a, f, e.b.hi); }    // as far as conversion alone goes
    const wide ca = pick(s, lo, hi, s.flip() ? fb.num : f.den), wa = ca * fa.num, blo = limit_lo(e.b, fb, e.c.lo), bhi = limit_hi(e.b, fb, e.c.hi);
    wide cb; if (s.choose(3) == 0) { wide near = wa / fb.num + (wide)s.choose(5) - 2; cb = near < blo ? blo : near > bhi ? bhi : near; } else cb = pick(s, blo, bhi, fa.num);
    const wide wb = cb * fb.num, want = convert(ca, f), sum = wa + wb, diff = wa - wb; const bool comparable = wa >= e.c.lo && wa <= e.c.hi && ca * fa.num <= I64 && ca * fa.num >= -I64;
    LOG(A << " " << str(ca) << " and " << B << " " << str(cb) << " in " << C << " " << str(wa) << " and " << str(wb));
    int64_t out[17] = {want >= e.b.lo && want <= e.b.hi && ca * f.num <= I64 && ca * f.num >= -I64, comparable, comparable && sum >= e.c.lo && sum <= e.c.hi, comparable && diff >= e.c.lo && diff <= e.c.hi}; out[16] = 1;
    const bool unsigned_source = !e.a.is_signed; (void)unsigned_source;
    e.fn((int64_t)ca, (int64_t)cb, out);
    CHECK(out[12] == ca && out[13] == ca, "a unit keeps the count it is given");
    if (out[0]) { CHECK(out[5] == want, A << " " << str(ca) << " assigned to " << B << " is " << str(want) << ", not " << out[5]); CHECK(out[6] == want && out[7] == want, A << " " << str(ca) << " constructed as " << B << " is " << str(want) << ", not " << out[6] << " or " << out[7]); }
    if (out[1]) CHECK(out[8] == order(wa, wb), "== != < > <= >= of " << str(wa) << " and " << str(wb) << " in " << C << " are, lowest bit first, " << out[8] << " rather than " << order(wa, wb));
    if (out[2]) { CHECK(out[9] == sum && out[10] == sum, "sum is " << str(sum) << ", not " << out[9] << " or " << out[10]); CHECK(out[14] == sum && out[16], "+= gives " << out[14] << " rather than " << str(sum)); }
    if (out[3]) { CHECK(out[11] == diff, "difference is " << str(diff) << ", not " << out[11]); CHECK(out[15] == diff && out[16], "-= gives " << out[15] << " rather than " << str(diff)); }
    if (ca != 0 && wa != wb) s.nontrivial();
    if (out[1] && wa == wb) s.label("equal");
    if (e.accumulates) s.label("accumulates");
}

// --- one unit on its own, and with plain numbers ---
template <class R> void scalar(pbt::Source& s)
{
    typedef length<R> U; const wide lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();
    wide v = pick(s, lo, hi); U x((R)v);
    for (int step = 0, n = (int)s.choose(15); step < n; step++)
    {
        switch (s.choose(8))
        {
        case 0: { wide k = pick(s, std::max(lo, lo - v), std::min(hi, hi - v)); U& r = x += U((R)k); CHECK(&r == &x, "+= gives the object"); v += k; LOG("+= unit " << str(k)); break; }
        case 1: { wide k = pick(s, std::max(lo, v - hi), std::min(hi, v - lo)); U& r = x -= U((R)k); CHECK(&r == &x, "-= gives the object"); v -= k; LOG("-= unit " << str(k)); break; }
        case 2: { wide k = pick(s, std::max(lo, lo - v), std::min(hi, hi - v)); if (k < -1000 || k > 1000) break; x += (int)k; v += k; LOG("+= " << str(k)); break; }
        case 3: { wide k = pick(s, std::max(lo, v - hi), std::min(hi, v - lo)); if (k < 0) break; x -= (long long)k; v -= k; LOG("-= " << str(k)); break; }
        case 4: { if (v == hi) break; U& r = ++x; CHECK(&r == &x, "++ gives the object"); v++; LOG("++"); break; }
        case 5: if constexpr (std::numeric_limits<R>::is_signed) { if (v == lo) break; const U m = -x; CHECK((wide)m.count() == -v, "unary minus"); if (s.flip()) { x = m; v = -v; } LOG("negate"); } break;
        case 6: { const wide k = s.flip() ? v + (wide)s.choose(3) - 1 : pick(s, lo, hi); if (k < lo || k > hi) break; LOG("compare with " << str(k)); const R p = (R)k; CHECK((x == p) == (v == k), "unit " << str(v) << " == " << str(k)); CHECK((x < p) == (v < k), "unit " << str(v) << " < " << str(k)); CHECK((x > p) == (v > k), "unit " << str(v) << " > " << str(k));
                  const U y(p); CHECK((x == y) == (v == k) && (x < y) == (v < k) && (x > y) == (v > k) && (x <= y) == (v <= k) && (x >= y) == (v >= k) && (x != y) == (v != k), "comparison with the same unit of " << str(v) << " and " << str(k)); break; }
        default: { wide k = pick(s, lo, hi); x.root_count((R)k); v = k; LOG("set " << str(k)); U c(x), d(R(0)); d = c; CHECK(c == x && d == x, "copies are equal"); break; }
        }
        CHECK((wide)x.count() == v && (wide)x.root_count() == v, "after step " << step << " the count is " << str(v) << ", not " << str((wide)x.count()));
        if (step > 1) s.nontrivial();
    }
}
TARGET_FN("unit_scalar_int8", 1, scalar<int8_t>);
TARGET_FN("unit_scalar_uint16", 1, scalar<uint16_t>);
TARGET_FN("unit_scalar_int32", 1, scalar<int32_t>);
TARGET_FN("unit_scalar_int64", 1, scalar<int64_t>);

// --- units stored with an offset ---
template <class R, class V, V off, bool sub> void offset(pbt::Source& s)
{
    typedef typename std::conditional<sub, u::subtractor<V, off>, u::adder<V, off>>::type F;
    typedef length<R, estd::ratio<1>, F> U; typedef length<V> Plain; typedef length<int32_t, estd::milli> Milli; typedef length<int64_t, estd::ratio<1, 10>> Tenth;
    const wide lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max(), delta = sub ? -(wide)off : (wide)off;
    const wide vlo = std::max((wide)std::numeric_limits<V>::min(), lo + delta), vhi = std::min((wide)std::numeric_limits<V>::max(), hi + delta);   // what it can stand for
    wide v = pick(s, vlo, vhi); U x((R)(v - delta));
    for (int step = 0, n = 1 + (int)s.choose(12); step < n; step++)
    {
        CHECK((wide)x.count() == v, "stands for " << str(v) << ", not " << str((wide)x.count())); CHECK((wide)x.root_count() == v - delta, "is stored as " << str(v - delta) << ", not " << str((wide)x.root_count()));
        const wide k = pick(s, vlo, vhi);
        switch (s.choose(8))
        {
        case 0: { LOG("assign plain " << str(k)); x = Plain((V)k); v = k; break; }
        case 1: { LOG("assign milli " << str(k)); if (k * 1000 > 2147483647ll || k * 1000 < -2147483648ll) break; const wide m = k * 1000 + (k > vlo && k < vhi ? (wide)s.choose(999) * (k < 0 ? -1 : 1) : 0); if (m > 2147483647ll || m < -2147483648ll) break; x = Milli((int32_t)m); v = m / 1000; const U y(Milli((int32_t)m), u::relaxed_narrow_t{}); CHECK((wide)y.count() == v, "constructed from thousandths"); break; }
        case 2: { LOG("to others"); const Plain p(x); CHECK((wide)p.count() == v, "as a plain unit it is " << str(v) << ", not " << str((wide)p.count())); const Tenth t(x); CHECK((wide)t.count() == v * 10, "in tenths"); Tenth w(int64_t(0)); w = x; CHECK((wide)w.count() == v * 10, "assigned to tenths"); break; }
        case 3: { LOG("construct from plain " << str(k)); const Plain p((V)k); const U y(p, u::relaxed_narrow_t{}); CHECK((wide)y.count() == k, "constructed from plain " << str(k) << " it stands for " << str((wide)y.count())); if constexpr (sizeof(R) >= sizeof(V)) { const U z(p); CHECK((wide)z.count() == k, "constructed from plain " << str(k) << " it stands for " << str((wide)z.count())); const U q(x); CHECK((wide)q.count() == v, "copied"); } x = y; v = k; break; }
        case 4: { LOG("set root " << str(k - delta)); x.root_count((R)(k - delta)); v = k; break; }
        case 5: { LOG("compare with " << str(k)); const U y((R)(k - delta)); CHECK((x == y) == (v == k), "== of " << str(v) << " and " << str(k)); CHECK((x < y) == (v < k), "< of " << str(v) << " and " << str(k)); CHECK((x > y) == (v > k), "> of " << str(v) << " and " << str(k)); CHECK((x <= y) == (v <= k) && (x >= y) == (v >= k) && (x != y) == (v != k), "ordering of " << str(v) << " and " << str(k));
                  CHECK((x == (V)k) == (v == k) && (x < (V)k) == (v < k) && (x > (V)k) == (v > k), "comparison with the plain number " << str(k)); break; }
        case 6: { if (v >= vhi) break; LOG("++"); ++x; v++; break; }
        default: { estd::layer1::ostringstream<64> o; o << estd::put_unit(x); const std::string t((const char*)o.rdbuf()->str().data(), o.rdbuf()->str().size()); CHECK_EQ(t, std::to_string((long long)v) + "m", "shown"); break; }
        }
        if (step > 1) s.nontrivial();
    }
}
TARGET_FN("unit_offset_byte", 1, offset<uint8_t, int16_t, 40, true>);
TARGET_FN("unit_offset_int16", 1, offset<int16_t, int16_t, 273, false>);
TARGET_FN("unit_offset_int32", 1, offset<int32_t, int32_t, 125, true>);

// --- percentages ---
template <class P, class U> wide percent_of(int64_t p, int64_t lo, int64_t hi, bool from_zero)
{
    const u::percent<typename P::root_rep, typename P::period> pc((typename P::root_rep)p); typedef typename U::root_rep R;
    if (from_zero) return get_from_percent(pc, U((R)hi)).count();
    return get_from_percent(pc, U((R)lo), U((R)hi)).count();
}
struct PercentEntry { Info p, u; wide (*fn)(int64_t, int64_t, int64_t, bool); };
template <class P, class U> constexpr PercentEntry percent_entry() { return PercentEntry{info<P>(), info<U>(), percent_of<P, U>}; }
template <class P> void add_percents(std::vector<PercentEntry>& v)
{
    for (const PercentEntry& e : {percent_entry<P, length<int32_t>>(), percent_entry<P, length<uint8_t>>(), percent_entry<P, length<int16_t, estd::kilo>>(), percent_entry<P, length<int64_t>>(), percent_entry<P, u::bytes<uint32_t>>(), percent_entry<P, u::percent<uint16_t>>()}) v.push_back(e);
}
TARGET(unit_percent, 2)
{
    static const std::vector<PercentEntry> all = [] { std::vector<PercentEntry> v; add_percents<u::percent<int32_t>>(v); add_percents<u::percent<uint8_t>>(v); add_percents<u::percent<uint16_t, estd::ratio<1, 10>>>(v); add_percents<u::percent<int16_t, estd::ratio<100, 1024>>>(v); add_percents<u::percent<uint32_t>>(v); return v; }();
    const PercentEntry& e = all[s.choose(all.size())]; const Factor whole(Per{1, 1}, e.p.per);
    const wide full = (wide)100 * e.p.per.den / e.p.per.num, top = std::min(e.u.hi, ((wide)1 << 44));
    const wide p = pick(s, 0, std::min(full, e.p.hi)), a = pick(s, std::max(e.u.lo, -top), top), b = pick(s, std::max(e.u.lo, -top), top); wide lo = std::min(a, b), hi = std::max(a, b); const bool from_zero = s.flip();
    if (from_zero) { lo = 0; if (hi < 0) hi = -hi - 1; }
    if (hi - lo > e.u.hi) return;    // the range itself must be an amount
    const wide want = (hi - lo) * p * e.p.per.num / ((wide)100 * e.p.per.den) + lo;
    LOG(e.p.name() << " " << str(p) << " between " << str(lo) << " and " << str(hi) << " of " << e.u.name() << " is " << str(want));
    const wide got = e.fn((int64_t)p, (int64_t)lo, (int64_t)hi, from_zero);
    CHECK(got == want, str(p) << " x " << e.p.per.num << "/" << e.p.per.den << " percent between " << str(lo) << " and " << str(hi) << " is " << str(want) << ", not " << str(got));
    if (p == 0) CHECK(got == lo, "nothing"); if (p == full) CHECK(got == hi, "everything");
    if (p > 0 && hi - lo > 100) s.nontrivial();
}

// --- output ---
template <class U, class V> void shown(pbt::Source& s, const char* abbrev, const char* name, V v, const std::string& digits)
{
    const U x((typename U::root_rep)v); estd::layer1::ostringstream<128> o; auto& str = o.rdbuf()->str(); const std::string before = s.flip() ? "" : "x=";
    o << before.c_str();
    std::string want = before; int how = (int)s.choose(5);
    switch (how)
    {
    case 0: o << estd::put_unit(x); want += digits + abbrev; break;
    case 1: o << estd::put_unit(x, false); want += digits + " " + name; break;
    case 2: write(o, x); want += digits + " " + name; break;
    case 3: write_abbrev(o, x); want += digits + abbrev; break;
    default: write_abbrev(o, x, true); want += digits + " " + abbrev; break;
    }
    LOG("shown as " << want);
    CHECK_EQ(std::string((const char*)str.data(), str.size()), want, "way " << how << " to write"); CHECK(o.good(), "nothing fails");
    if (digits.size() > 2) s.nontrivial();
}
template <class R> void shown_int(pbt::Source& s)
{
    const wide v = pick(s, std::numeric_limits<R>::min(), std::numeric_limits<R>::max()); const std::string d = str(v);
    switch (s.choose(16))
    {
    case 0: shown<length<R>>(s, "m", "meter", (R)v, d); break;
    case 1: shown<length<R, estd::kilo>>(s, "km", "kilometer", (R)v, d); break;
    case 2: shown<length<R, estd::mega>>(s, "Mm", "megameter", (R)v, d); break;
    case 3: shown<length<R, estd::giga>>(s, "Gm", "gigameter", (R)v, d); break;
    case 4: shown<length<R, estd::tera>>(s, "Tm", "terameter", (R)v, d); break;
    case 5: shown<length<R, estd::deca>>(s, "dam", "decameter", (R)v, d); break;
    case 6: shown<length<R, estd::deci>>(s, "dm", "decimeter", (R)v, d); break;
    case 7: shown<length<R, estd::centi>>(s, "cm", "centimeter", (R)v, d); break;
    case 8: shown<length<R, estd::milli>>(s, "mm", "millimeter", (R)v, d); break;
    case 9: shown<length<R, estd::micro>>(s, "um", "micrometer", (R)v, d); break;
    case 10: shown<length<R, estd::nano>>(s, "nm", "nanometer", (R)v, d); break;
    case 11: shown<u::bytes<R>>(s, "B", "bytes", (R)v, d); break;
    case 12: shown<u::kilobytes<R>>(s, "kB", "kilobytes", (R)v, d); break;
    case 13: shown<u::megabytes<R>>(s, "MB", "megabytes", (R)v, d); break;
    case 14: shown<u::gigabytes<R>>(s, "GB", "gigabytes", (R)v, d); break;
    default: shown<u::percent<R>>(s, "%", "percent", (R)v, d); break;
    }
}
TARGET_FN("unit_shown_int32", 1, shown_int<int32_t>);
TARGET_FN("unit_shown_int64", 1, shown_int<int64_t>);
TARGET_FN("unit_shown_uint16", 1, shown_int<uint16_t>);
TARGET_FN("unit_shown_int8", 1, shown_int<int8_t>);
TARGET(unit_shown_double, 1)
{
    // halves, quarters and such are exact, so that their two decimals are known
    const int64_t whole = (int64_t)s.bits(1 + (unsigned)s.choose(40)); const int quarter = (int)s.choose(4); const bool neg = s.flip(); double v = (double)whole + quarter * 0.25; if (neg) v = -v;
    static const char* const part[] = {".00", ".25", ".50", ".75"}; const std::string d = (neg && v != 0 ? "-" : "") + std::to_string((long long)whole) + part[quarter];
    if (s.flip()) shown<length<double>>(s, "m", "meter", v, d); else shown<u::kilobytes<double>>(s, "kB", "kilobytes", v, d);
    if (neg && whole == 0 && quarter) s.label("between -1 and 0");
}
// floating point amounts: within rounding of the exact ratio
template <class From, class To> double to_double(int64_t c) { return To(From((typename From::root_rep)c)).count(); }
template <class From, class To> double assigned_double(int64_t c) { To t(0.0); t = From((typename From::root_rep)c); return t.count(); }
struct DoubleEntry { Info a; Per to; double (*fn)(int64_t), (*assign)(int64_t); };
template <class A, class B> DoubleEntry double_entry() { return DoubleEntry{info<A>(), Per{B::period::num, B::period::den}, to_double<A, B>, assigned_double<A, B>}; }
TARGET(unit_double, 2)
{
    static const std::vector<DoubleEntry> all = { double_entry<length<int32_t, estd::milli>, length<double>>(), double_entry<length<int32_t>, length<double, estd::kilo>>(), double_entry<u::bytes<uint32_t>, u::megabytes<double>>(), double_entry<length<int16_t, estd::ratio<100, 1024>>, length<double>>(), double_entry<length<uint16_t, estd::ratio<1, 10>>, length<double>>(), double_entry<length<int8_t, estd::ratio<5, 7>>, length<double, estd::ratio<2, 3>>>() };
    const DoubleEntry& e = all[s.choose(all.size())]; const Factor f(e.a.per, e.to); const wide c = pick(s, e.a.lo, e.a.hi); const double want = (double)((long double)c * (long double)f.num / (long double)f.den);
    LOG(e.a.name() << " " << str(c) << " is " << want);
    for (double got : {e.fn((int64_t)c), e.assign((int64_t)c)}) CHECK(std::fabs(got - want) <= std::fabs(want) * 1e-14, str(c) << " is " << want << ", not " << got);
    if (c != 0) s.nontrivial();
}
}
