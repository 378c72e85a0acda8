// Durations, time points, calendar fields and ratios against exact rational arithmetic.
#include <estd/chrono.h>
#include "pbt.h"
#include "exact.h"
#include <chrono>
#include <limits>
#include <string>
#include <utility>
#include <vector>

namespace {
namespace ch = estd::chrono;
using namespace exact;

template <class D> constexpr Per per() { return Per{D::period::num, D::period::den}; }
template <class Rep> constexpr wide lowest() { return std::numeric_limits<Rep>::min(); }
template <class Rep> constexpr wide highest() { return std::numeric_limits<Rep>::max(); }
// --- the types under test ---
typedef ch::duration<int32_t, estd::ratio<1, 15>> fifteenths;
typedef ch::duration<int16_t, estd::milli> short_ms;
typedef ch::duration<uint32_t, estd::milli> unsigned_ms;
typedef ch::duration<uint8_t, estd::ratio<60>> byte_minutes;
typedef ch::duration<int8_t, estd::ratio<1>> tiny_seconds;
typedef ch::duration<uint16_t, estd::ratio<5, 7>> five_sevenths;
typedef ch::duration<int64_t, estd::ratio<1, 1024>> binary;
typedef ch::duration<int32_t, estd::ratio<4, 6>> unreduced;
typedef ch::duration<int16_t, estd::deci> deciseconds;

template <class... T> struct list { static constexpr int size = sizeof...(T); };
typedef list<ch::nanoseconds, ch::microseconds, ch::milliseconds, ch::seconds, ch::minutes, ch::hours, ch::days, ch::weeks, ch::years, fifteenths, short_ms, unsigned_ms, byte_minutes, tiny_seconds, five_sevenths, binary, unreduced, deciseconds> all_types;
typedef list<ch::milliseconds, ch::seconds, ch::minutes, ch::months, fifteenths, short_ms, unsigned_ms, byte_minutes, five_sevenths> other_types;

typedef void (*Fn)(pbt::Source&);
template <template <class> class Op, class... A> std::vector<Fn> column(list<A...>) { return std::vector<Fn>{&Op<A>::run...}; }

template <class D> constexpr Info info() { typedef typename D::rep R; return Info{per<D>(), lowest<R>(), highest<R>(), std::numeric_limits<R>::is_signed, (int)sizeof(R)}; }
template <class D> std::string name() { return info<D>().name(); }
// a table of type pairs; each entry only carries out the operations, into `out`
struct Entry { Info a, b, c; bool common_same; void (*fn)(int64_t, int64_t, int64_t*); };
template <template <class, class> class Op, class A, class B> constexpr Entry entry()
{
    typedef typename estd::common_type<A, B>::type C; typedef typename estd::common_type<B, A>::type C2;
    return Entry{info<A>(), info<B>(), info<C>(), per<C>().num == per<C2>().num && per<C>().den == per<C2>().den, &Op<A, B>::run};
}
template <template <class, class> class Op, class A, class... B> struct Row { static constexpr Entry entries[] = { entry<Op, A, B>()... }; };
template <template <class, class> class Op, class A, class... B> constexpr Entry Row<Op, A, B...>::entries[];
void append(std::vector<Entry>& v, const Entry* first, int n) { v.insert(v.end(), first, first + n); }
template <template <class, class> class Op, class... A, class... B> std::vector<Entry> grid(list<A...>, list<B...>) { std::vector<Entry> v; (append(v, Row<Op, A, B...>::entries, sizeof...(B)), ...); return v; }

// --- conversion ---
template <class A, class B> struct Conversion
{
    static void run(int64_t c, int64_t, int64_t* out)
    {
        typedef typename A::rep RA; typedef typename B::rep RB;
        const A a((RA)c); const B b(a); B assigned(RB(1)); assigned = a;
#ifndef NOSTD
        // from and to the standard library's own durations
        const std::chrono::duration<RA, std::ratio<A::period::num, A::period::den>> sa((RA)c); const std::chrono::duration<RB, typename B::std_period_type> sb = b;
        const A back(b); const B from(sa);
#else
        const A sa(a); const B sb(a), from(a), back_b(b); const A back(back_b);
#endif
        out[0] = a.count(); out[1] = b.count(); out[2] = ch::duration_cast<B>(a).count(); out[3] = assigned.count(); out[4] = from.count(); out[5] = ch::duration_cast<B>(sa).count(); out[6] = sb.count(); out[7] = back.count();
    }
};
typedef const std::vector<Entry>& (*Table)();
template <Table table> void conversion(pbt::Source& s)
{
    const auto& all = table(); const Entry& e = all[s.choose(all.size())]; const Factor f(e.a.per, e.b.per), r(e.b.per, e.a.per);
    const wide lo = limit_lo(e.a, f, e.b.lo), hi = limit_hi(e.a, f, e.b.hi), c = pick(s, lo, hi, f.den), want = convert(c, f);
    const std::string A = e.a.name(), B = e.b.name();
    LOG(A << " " << str(c) << " -> " << B << " expecting " << str(want));
    int64_t out[8]; e.fn((int64_t)c, 0, out);
    CHECK(out[0] == c, "a duration keeps the count it is given, " << out[0]);
    CHECK(out[1] == want, A << " " << str(c) << " as " << B << " is " << str(want) << ", not " << out[1]);
    CHECK(out[2] == want, "duration_cast agrees with conversion, " << out[2]); CHECK(out[3] == want, "assignment agrees with conversion, " << out[3]);
    CHECK(out[4] == want, "conversion from std::chrono gives " << out[4] << " rather than " << str(want)); CHECK(out[5] == want, "duration_cast from std::chrono gives " << out[5] << " rather than " << str(want)); CHECK(out[6] == want, "conversion to std::chrono keeps the count, " << out[6]);
    if (f.den == 1) CHECK(out[7] == c, "to finer ticks and back gives " << out[7] << " rather than " << str(c));
    else if (want * r.num <= I64 && want * r.num >= -I64) { const wide w = convert(want, r); CHECK(out[7] == w, "to coarser ticks and back gives " << out[7] << " rather than " << str(w)); }
    if ((f.num != 1 || f.den != 1) && c != 0) s.nontrivial();
    if (c * f.num % f.den != 0) s.label("inexact");
}

// --- arithmetic and comparison ---
template <class A, class B> struct Arithmetic
{
    static void run(int64_t ca, int64_t cb, int64_t* out)
    {
        const A a((typename A::rep)ca); const B b((typename B::rep)cb);
        out[0] = (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5;
        if (out[1]) { auto r = a + b; static_assert(std::is_same<decltype(r), typename estd::common_type<A, B>::type>::value, ""); out[3] = r.count(); out[4] = (b + a).count(); }
        if (out[2]) { auto r = a - b; static_assert(std::is_same<decltype(r), typename estd::common_type<A, B>::type>::value, ""); out[5] = r.count(); }
    }
};
int order(wide a, wide b) { return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5; }
template <Table table> void arithmetic(pbt::Source& s)
{
    const auto& all = table(); const Entry& e = all[s.choose(all.size())]; const Factor fa(e.a.per, e.c.per), fb(e.b.per, e.c.per); const std::string A = e.a.name(), B = e.b.name(), C = e.c.name();
    CHECK(fa.den == 1 && fb.den == 1, "the common type " << C << " expresses both " << A << " and " << B << " exactly");
    CHECK(e.common_same, "the common period of " << A << " and " << B << " does not depend on the order");
    const wide ca = pick(s, limit_lo(e.a, fa, e.c.lo), limit_hi(e.a, fa, e.c.hi), fb.num), lo = limit_lo(e.b, fb, e.c.lo), hi = limit_hi(e.b, fb, e.c.hi);
    wide cb;
    if (s.choose(3) == 0) { wide near = ca * fa.num / fb.num + (wide)s.choose(5) - 2; cb = near < lo ? lo : near > hi ? hi : near; } else cb = pick(s, lo, hi, fa.num);
    const wide wa = ca * fa.num, wb = cb * fb.num, sum = wa + wb, diff = wa - wb;
    LOG(A << " " << str(ca) << " and " << B << " " << str(cb) << " in " << C << " " << str(wa) << " and " << str(wb));
    int64_t out[6] = {0, sum >= e.c.lo && sum <= e.c.hi, diff >= e.c.lo && diff <= e.c.hi}; e.fn((int64_t)ca, (int64_t)cb, out);
    CHECK(out[0] == order(wa, wb), "== != < > <= >= of " << str(wa) << " and " << str(wb) << " in " << C << " are, lowest bit first, " << out[0] << " rather than " << order(wa, wb));
    if (out[1]) { CHECK(out[3] == sum, "sum of " << str(wa) << " and " << str(wb) << " is " << str(sum) << ", not " << out[3]); CHECK(out[4] == sum, "addition commutes"); }
    if (out[2]) CHECK(out[5] == diff, "difference of " << str(wa) << " and " << str(wb) << " is " << str(diff) << ", not " << out[5]);
    if (wa != wb && (fa.num != 1 || fb.num != 1)) s.nontrivial();
    if (wa == wb) s.label("equal");
}

// --- one duration on its own ---
template <class D> struct Single
{
    static void run(pbt::Source& s)
    {
        typedef typename D::rep R;
        wide v = pick(s, lowest<R>(), highest<R>()); D d((R)v);
        CHECK(wide(D::zero().count()) == 0 && wide(D::min().count()) == lowest<R>() && wide(D::max().count()) == highest<R>(), "zero, min and max");
        for (int step = 0, n = (int)s.choose(20); step < n; step++)
        {
            switch (s.choose(6))
            {
            case 0: { wide k = pick(s, std::max(lowest<R>(), lowest<R>() - v), std::min(highest<R>(), highest<R>() - v)); D& r = d += D((R)k); CHECK(&r == &d, "+= gives the object"); v += k; LOG("+= " << str(k)); break; }
            case 1: { wide k = pick(s, std::max(lowest<R>(), v - highest<R>()), std::min(highest<R>(), v - lowest<R>())); D& r = d -= D((R)k); CHECK(&r == &d, "-= gives the object"); v -= k; LOG("-= " << str(k)); break; }
            case 2: { wide k = (wide)s.choose(20); if (v * k < lowest<R>() || v * k > highest<R>()) break; d *= (R)k; v *= k; LOG("*= " << str(k)); break; }
            case 3: if constexpr (std::numeric_limits<R>::is_signed) { if (v == lowest<R>()) break; D m = -d; CHECK(wide(m.count()) == -v, "unary minus"); CHECK(wide(ch::abs(d).count()) == (v < 0 ? -v : v), "abs of " << str(v)); CHECK(wide(ch::abs(m).count()) == (v < 0 ? -v : v), "abs of the negative"); if (s.flip()) { d = m; v = -v; } LOG("negate"); }
                    else CHECK(wide(ch::abs(d).count()) == v, "abs of an unsigned duration"); break;
            case 4: { wide k = (wide)s.choose(40); typedef typename std::common_type<R, int>::type C; if (v * k < lowest<C>() || v * k > highest<C>()) break; auto r = d * (int)k; CHECK(wide(r.count()) == v * k, str(v) << " * " << str(k) << " is " << str(wide(r.count()))); static_assert(std::is_same<typename decltype(r)::period, typename D::period>::value, ""); CHECK(wide((+d).count()) == v, "unary plus"); break; }
            default: { D c(d); CHECK(c == d && !(c < d) && c <= d, "a copy is equal"); D e; e = d; CHECK(e == d, "an assigned copy is equal"); break; }
            }
            CHECK(wide(d.count()) == v, "after step " << step << " the count is " << str(v) << ", not " << str(wide(d.count())));
            if (step) s.nontrivial();
        }
    }
};

// --- time points ---
struct Clock { typedef int64_t rep; typedef estd::ratio<1, 15> period; typedef ch::duration<rep, period> duration; typedef ch::time_point<Clock> time_point; };
template <class A, class B> struct Points
{
    static void run(int64_t ca, int64_t cb, int64_t* out)
    {
        typedef ch::time_point<Clock, A> TA; typedef ch::time_point<Clock, B> TB; typedef typename A::rep RA; typedef typename B::rep RB;
        TA a{A((RA)ca)}; const TB b{B((RB)cb)};
        out[0] = (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a >= b) << 5;
        if (out[1]) out[2] = (a - b).count();
        if (out[3]) { TB t(a); out[4] = t.time_since_epoch().count(); TB u; u = a; out[12] = u.time_since_epoch().count(); }
        // out[5]: 0 none, else moved by out[6] ticks of B, in four ways
        const B by((RB)out[6]);
        switch (out[5]) { case 1: { TA& r = a += by; out[7] = &r == &a; break; } case 2: { TA& r = a -= by; out[7] = &r == &a; break; } case 3: { const TA t(a); TA r = t + by; out[7] = t == a; a = r; break; } case 4: { const TA t(a); TA r = t - by; out[7] = t == a; a = r; break; } }
        out[8] = a.time_since_epoch().count(); out[9] = TA().time_since_epoch().count(); out[10] = TA::min().time_since_epoch().count(); out[11] = (a - a).count();
    }
};
template <Table table> void points(pbt::Source& s)
{
    const auto& all = table(); const Entry& e = all[s.choose(all.size())]; const Factor fa(e.a.per, e.c.per), fb(e.b.per, e.c.per), ab(e.a.per, e.b.per), ba(e.b.per, e.a.per);
    const wide alo = limit_lo(e.a, fa, e.c.lo), ahi = limit_hi(e.a, fa, e.c.hi);
    wide ca = pick(s, alo, ahi, fb.num); const wide cb = pick(s, limit_lo(e.b, fb, e.c.lo), limit_hi(e.b, fb, e.c.hi), fa.num), wb = cb * fb.num;
    for (int step = 0, n = 1 + (int)s.choose(8); step < n; step++)
    {
        const wide wa = ca * fa.num, diff = wa - wb, conv = convert(ca, ab);
        // move by a duration of the other type, which is brought to this one's ticks first
        const wide k = pick(s, limit_lo(e.b, ba, e.a.lo), limit_hi(e.b, ba, e.a.hi), ba.den), dk = convert(k, ba); int op = 1 + (int)s.choose(4); const wide next = op % 2 ? ca + dk : ca - dk; if (next < e.a.lo || next > e.a.hi) op = 0;
        LOG(e.a.name() << " at " << str(ca) << " against " << e.b.name() << " at " << str(cb) << (op == 0 ? " no move" : op % 2 ? " moved forward by " : " moved back by ") << str(k) << " that is " << str(dk));
        int64_t out[13] = {}; out[1] = diff >= e.c.lo && diff <= e.c.hi; out[3] = conv >= e.b.lo && conv <= e.b.hi && ca * ab.num <= I64 && ca * ab.num >= -I64; out[5] = op; out[6] = (int64_t)k; out[7] = 1;
        e.fn((int64_t)ca, (int64_t)cb, out);
        CHECK(out[0] == (order(wa, wb) & ~16), "== != < > >= of points " << str(wa) << " and " << str(wb) << " are, lowest bit first, " << out[0]);
        if (out[1]) CHECK(out[2] == diff, "the difference is " << str(diff) << ", not " << out[2]);
        if (out[3]) CHECK(out[4] == conv && out[12] == conv, "converted to another resolution it is " << str(conv) << ", not " << out[4] << " or " << out[12]);
        CHECK(out[7], "+= and -= give the object, + and - leave it alone");
        if (op) ca = next;
        CHECK(out[8] == ca, "after the move the point is " << str(ca) << " ticks after the epoch, not " << out[8]);
        CHECK(out[9] == 0 && out[10] == e.a.lo && out[11] == 0, "a time point starts at the epoch; min; distance to itself");
        if (wa != wb && op) s.nontrivial();
        if (ca < alo || ca > ahi) break;
    }
}

// the standard library's time points and durations moved by ours
#ifndef NOSTD
typedef std::chrono::duration<int64_t, std::micro> std_us;
template <class D> struct Mixed
{
    static void run(pbt::Source& s)
    {
        typedef typename D::rep R; typedef std::chrono::duration<R, std::ratio<D::period::num, D::period::den>> S;
        wide hi = highest<R>(), lo = lowest<R>(); const Factor f(per<D>(), Per{1, 1000000000}); { wide m = ((wide)1 << 61) / f.num * f.den; if (hi > m) hi = m; if (lo < -m) lo = -m; }
        const wide k = pick(s, lo, hi), base = pick(s, -((wide)1 << 40), (wide)1 << 40); const D d((R)k); const S e((R)k);
        LOG(name<D>() << " " << str(k) << " against std base " << str(base));
        if constexpr (1000000000ll % D::period::den == 0)
        {
            typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds> TP; TP p{std::chrono::nanoseconds((long long)base)};
            CHECK(p + d == p + e, "std time point + estd duration"); CHECK(p - d == p - e, "std time point - estd duration");
            TP q(p), r(p); q += d; r += e; CHECK(q == r, "std time point += estd duration"); q = p; r = p; q -= d; r -= e; CHECK(q == r, "std time point -= estd duration");
            if (k != 0) s.nontrivial();
        }
        const std::chrono::duration<int64_t, typename S::period> own((int64_t)base); const wide sum = base + k;
        CHECK(wide((own + d).count()) == sum, "std duration + estd duration is " << str(sum) << ", not " << str(wide((own + d).count())));
    }
};
#endif

// --- hours, minutes, seconds ---
struct Face { int64_t hours, minutes, seconds, subseconds, whole, cast; bool negative; };
struct FaceEntry { Info a; Face (*fn)(int64_t); };
template <class D> Face face(int64_t c)
{
    const D d((typename D::rep)c); const ch::hh_mm_ss<D> v(d);
    return Face{v.hours().count(), v.minutes().count(), v.seconds().count(), v.subseconds().count(), v.to_duration().count(), v.operator D().count(), v.is_negative()};
}
template <class... D> std::vector<FaceEntry> face_table(list<D...>) { return std::vector<FaceEntry>{FaceEntry{info<D>(), face<D>}...}; }
// --- the calendar, by stepping through it a month at a time ---
bool leap(int64_t y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
int month_days(int64_t y, int m) { return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
struct Unix { typedef int64_t rep; typedef estd::ratio<1> period; typedef ch::duration<rep, period> duration; typedef ch::time_point<Unix> time_point; };
}
template <> struct estd::chrono::internal::clock_traits<Unix> : estd::chrono::internal::unix_epoch_clock_traits {};
namespace {
struct Ymd { int64_t y; int m, d; };
Ymd calendar(int64_t day)    // days since 1970-01-01
{
    Ymd r{1970, 1, 1};
    int64_t cycles = day / 146097; day %= 146097; if (day < 0) { day += 146097; cycles--; } r.y += cycles * 400;
    while (day >= (leap(r.y) ? 366 : 365)) { day -= leap(r.y) ? 366 : 365; r.y++; }
    while (day >= month_days(r.y, r.m)) { day -= month_days(r.y, r.m); r.m++; }
    r.d = 1 + (int)day; return r;
}
void date(pbt::Source& s)
{
    int64_t day;
    switch (s.choose(4))
    {
    case 0: day = (int64_t)s.choose(40000) - 20000; break;
    case 1: { int64_t y = (int64_t)s.choose(60000) - 30000; Ymd probe{1970, 1, 1}; (void)probe; day = (int64_t)((wide)(y) * 146097 / 400) + (int64_t)s.choose(7) - 3; break; }
    case 2: { static const int64_t around[] = {11016, 19782, 58, 47540, -25509, -719468, -719529, 0, -1, 364, 730}; day = around[s.choose(11)] + (int64_t)s.choose(5) - 2; break; }
    default: day = (int64_t)s.choose(22000000) - 11000000;
    }
    const Ymd want = calendar(day);
    const bool seconds = s.flip(); const int64_t within = seconds ? (day >= 0 ? (int64_t)s.choose(86400) : 0) : 0;
    LOG("day " << day << " is " << want.y << "-" << want.m << "-" << want.d << (seconds ? " given in seconds" : ""));
    if (want.y < -32767 || want.y > 32767) return;
    const auto tp = seconds ? ch::time_point<Unix, ch::days>(ch::time_point<Unix, ch::seconds>(ch::seconds(day * 86400 + within))) : ch::time_point<Unix, ch::days>(ch::days((int32_t)day));
    CHECK(tp.time_since_epoch().count() == day, "the day number of " << day);
    const ch::internal::year_month_day<Unix> v{tp};
    CHECK((int64_t)v.year() == want.y, "year of day " << day << " is " << want.y << ", not " << (int)v.year());
    CHECK((int)v.month() == want.m, "month of day " << day << " is " << want.m << ", not " << (int)v.month());
    CHECK((int)v.days() == want.d, "day of the month of day " << day << " is " << want.d << ", not " << (int)v.days());
    CHECK(v.month().ok() && v.days().ok(), "the fields are in range");
#ifndef NOSTD
    const std::chrono::time_point<std::chrono::system_clock, std::chrono::hours> sp{std::chrono::hours(day * 24)};
    const ch::internal::year_month_day<std::chrono::system_clock> w{ch::time_point<std::chrono::system_clock, ch::days>(sp)};
    CHECK((int64_t)w.year() == want.y && (int)w.month() == want.m && (int)w.days() == want.d, "the same date from the system clock's time point");
#endif
    if (want.m == 2 && want.d >= 28) s.label("end of february");
    if (day < 0) s.label("before 1970");
    s.nontrivial();
}
void fields(pbt::Source& s)
{
    const int y = (int)s.choose(65535) - 32767, m = (int)s.choose(16), d = (int)s.choose(40);
    LOG("fields " << y << " " << m << " " << d);
    ch::year Y{y}; ch::month Mo{m}; ch::day Da{d};
    CHECK((int)Y == y && Y.value() == y && (int)Mo == m && (int)Da == d, "the fields keep what they are given");
    CHECK(Y.is_leap() == leap(y), "year " << y << " is " << (leap(y) ? "" : "not ") << "a leap year");
    CHECK(Y.ok(), "year " << y << " is in range"); CHECK(Mo.ok() == (m >= 1 && m <= 12), "month " << m); CHECK(Da.ok() == (d >= 1 && d <= 31), "day " << d);
    CHECK(ch::year::min() <= Y && Y <= ch::year::max(), "min and max");
    const ch::internal::year_month_day<void> whole(Y, Mo, Da);
    CHECK(whole.ok() == (Mo.ok() && Da.ok()) && (int)whole.day() == d && (int)whole.month() == m && (int)whole.year() == y, "a date keeps its fields");
    const ch::internal::month_day_last<Unix> mdl{Mo}; const ch::internal::year_month_day_last<Unix> last{Y, mdl};
    CHECK(mdl.ok() == Mo.ok() && (int)mdl.month() == m && last.ok() == Mo.ok() && (int)last.year() == y, "the last day's fields");
    if (Mo.ok()) CHECK((int)last.day() == month_days(y, m), "the last day of " << y << "-" << m << " is " << month_days(y, m) << ", not " << (int)last.day());
    const int by = (int)s.choose(200) - 100; int moved = y + by;
    if (moved >= -32767 && moved <= 32767)
    {
        CHECK((int)(Y + ch::years((int16_t)by)) == moved && (int)(ch::years((int16_t)by) + Y) == moved, "year + years");
        ch::year Z(Y); Z += ch::year{by}; CHECK((int)Z == moved, "+="); Z -= ch::year{by}; CHECK((int)Z == y, "-=");
    }
    if (m == 2 && y % 4 == 0) s.label("february of a year divisible by four");
    if (Mo.ok()) s.nontrivial();
}

// --- ratios: every pair of a table, worked out by the compiler ---
template <intmax_t N, intmax_t D> struct R { typedef estd::ratio<N, D> type; };
typedef list<R<1, 1>, R<1, 2>, R<2, 3>, R<3, 2>, R<6, 4>, R<25, 100>, R<100, 25>, R<7, 13>, R<1, 1000000>, R<1000, 1>, R<3600, 1>, R<-1, 2>, R<-6, 4>, R<0, 5>, R<1024, 1000>, R<999983, 1000003>, R<86400, 7>, R<12, 18>, R<-7, 13>, R<60, 1024>> ratios;
struct Got { int64_t n, d, rn, rd; };
struct Pair { Got in[2], add, mul, div; bool can_divide; };
template <class A> constexpr Got got() { return Got{A::num, A::den, A::type::num, A::type::den}; }
template <class a, class b> constexpr Pair pair_of()
{
    if constexpr (b::num != 0) return Pair{{got<a>(), got<b>()}, got<estd::ratio_add<a, b>>(), got<estd::ratio_multiply<a, b>>(), got<estd::ratio_divide<a, b>>(), true};
    else return Pair{{got<a>(), got<b>()}, got<estd::ratio_add<a, b>>(), got<estd::ratio_multiply<a, b>>(), Got{}, false};
}
template <class A, class... B> struct PairRow { static constexpr Pair pairs[] = { pair_of<typename A::type, typename B::type>()... }; };
template <class A, class... B> constexpr Pair PairRow<A, B...>::pairs[];
void append(std::vector<Pair>& v, const Pair* first, int n) { v.insert(v.end(), first, first + n); }
template <class... A> std::vector<Pair> pairs(list<A...>) { std::vector<Pair> v; (append(v, PairRow<A, A...>::pairs, sizeof...(A)), ...); return v; }
void exactly(const Got& g, wide n, wide d, const char* what, const Pair& p)
{
    wide q = wgcd(n, d); if (d < 0) q = -q; n /= q; d /= q;
    CHECK(g.n == n && g.d == d, what << " of " << p.in[0].n << "/" << p.in[0].d << " and " << p.in[1].n << "/" << p.in[1].d << " is " << str(n) << "/" << str(d) << ", not " << g.n << "/" << g.d);
    CHECK(g.rn == n && g.rd == d, what << ": its reduced form is itself");
}
void ratio_pairs(pbt::Source& s)
{
    static const std::vector<Pair> all = pairs(ratios());
    const Pair& p = s.pick_from(all); const wide an = p.in[0].n, ad = p.in[0].d, bn = p.in[1].n, bd = p.in[1].d;
    LOG("ratios " << p.in[0].n << "/" << p.in[0].d << " and " << p.in[1].n << "/" << p.in[1].d);
    wide g = wgcd(an, ad); CHECK(p.in[0].rn == an / g && p.in[0].rd == ad / g, "the reduced form of " << str(an) << "/" << str(ad) << " is " << p.in[0].rn << "/" << p.in[0].rd);
    exactly(p.add, an * bd + bn * ad, ad * bd, "the sum", p); exactly(p.mul, an * bn, ad * bd, "the product", p); if (p.can_divide) exactly(p.div, an * bd, ad * bn, "the quotient", p);
    if (an != 0 && bn != 0) s.nontrivial();
}

template <const std::vector<Fn>& (*table)()> void any(pbt::Source& s) { const std::vector<Fn>& t = table(); t[s.choose(t.size())](s); }
const std::vector<Entry>& conversion_table() { static const std::vector<Entry> v = grid<Conversion>(all_types(), other_types()); return v; }
const std::vector<Entry>& arithmetic_table() { static const std::vector<Entry> v = grid<Arithmetic>(all_types(), other_types()); return v; }
typedef list<ch::nanoseconds, ch::seconds, ch::minutes, ch::days, ch::years, unsigned_ms, byte_minutes, tiny_seconds, fifteenths> single_types;
const std::vector<Fn>& singles() { static const std::vector<Fn> v = column<Single>(single_types()); return v; }
#ifndef NOSTD
const std::vector<Fn>& mixed() { static const std::vector<Fn> v = column<Mixed>(single_types()); return v; }
#endif
typedef list<ch::nanoseconds, ch::seconds, ch::minutes, fifteenths, unsigned_ms, short_ms> point_types;
const std::vector<Entry>& point_table() { static const std::vector<Entry> v = grid<Points>(point_types(), point_types()); return v; }
#ifndef NOSTD
#define STD_FACES std::chrono::milliseconds, std::chrono::seconds,
#else
#define STD_FACES
#endif
typedef list<ch::nanoseconds, ch::microseconds, ch::milliseconds, ch::seconds, ch::minutes, ch::hours, fifteenths, short_ms, unsigned_ms, byte_minutes, tiny_seconds, binary, ch::duration<uint16_t, estd::ratio<1>>, ch::duration<int64_t, estd::ratio<1, 60>>, STD_FACES ch::days> face_types;
void clockface(pbt::Source& s)
{
    static const std::vector<FaceEntry> all = face_table(face_types());
    const FaceEntry& e = all[s.choose(all.size())]; const Per p = e.a.per; const Factor sec(p, Per{1, 1}), hour(p, Per{3600, 1}), minute(p, Per{60, 1});
    // hours come in 8 bits; everything else must hold for any length
    const bool within = s.choose(4) != 0; wide hi = std::min(e.a.hi, I64 / sec.num);
    if (within) hi = std::min(hi, ((wide)256 * hour.den - 1) / hour.num);
    const wide lo = e.a.is_signed ? -hi : 0, c = pick(s, lo, hi, s.flip() ? hour.den : minute.den), m = c < 0 ? -c : c;
    const wide total = m * sec.num / sec.den, H = total / 3600, M = total / 60 % 60, S = total % 60, left = m - (total * sec.den + sec.num - 1) / sec.num;
    LOG(e.a.name() << " " << str(c) << " is " << str(H) << ":" << str(M) << ":" << str(S));
    const Face v = e.fn((int64_t)c);
    if (H < 256) CHECK(v.hours == H, "hours of " << str(c) << " are " << str(H) << ", not " << v.hours);
    CHECK(v.minutes == M, "minutes of " << str(c) << " are " << str(M) << ", not " << v.minutes);
    CHECK(v.seconds == S, "seconds of " << str(c) << " are " << str(S) << ", not " << v.seconds);
    if (sec.num == 1) CHECK(v.subseconds == left, "subseconds of " << str(c) << " are " << str(left) << ", not " << v.subseconds);
    CHECK(v.negative == (c < 0), "sign of " << str(c)); CHECK(v.whole == c && v.cast == c, "the whole is unchanged");
    if (H > 0 && M > 0) s.nontrivial();
    if (H >= 5) s.label("over 255 minutes");
    if (H >= 256) s.label("over 255 hours");
}
TARGET_FN("duration_conversions", 4, conversion<conversion_table>);
TARGET_FN("duration_arithmetic", 4, arithmetic<arithmetic_table>);
TARGET_FN("duration_single", 2, any<singles>);
TARGET_FN("time_points", 3, points<point_table>);
#ifndef NOSTD
TARGET_FN("std_chrono_mixed", 1, any<mixed>);
#endif
TARGET_FN("hh_mm_ss", 3, clockface);
TARGET_FN("calendar_dates", 3, date);
TARGET_FN("calendar_fields", 2, fields);
TARGET_FN("ratio_arithmetic", 1, ratio_pairs);
}
