// Exact arithmetic shared by the checks of scaled amounts (durations, units).
#pragma once
#include "pbt.h"
#include <cstdint>
#include <limits>
#include <string>

namespace exact {
typedef __int128 wide;
inline std::string str(wide v) { if (v == 0) return "0"; bool neg = v < 0; std::string r; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; while (u) { r.insert(r.begin(), char('0' + int(u % 10))); u /= 10; } return neg ? "-" + r : r; }
inline wide wgcd(wide a, wide b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { wide t = a % b; a = b; b = t; } return a; }
const wide I64 = std::numeric_limits<int64_t>::max();

struct Per { int64_t num, den; };
// factor from one period to another, reduced
struct Factor { wide num, den; Factor(Per from, Per to) : num((wide)from.num * to.den), den((wide)from.den * to.num) { wide g = wgcd(num, den); num /= g; den /= g; } };
inline wide convert(wide count, const Factor& f) { return count * f.num / f.den; }    // towards zero

// a count in [lo, hi], with ends, zero and neighbours of multiples of `unit` favoured
inline wide pick(pbt::Source& s, wide lo, wide hi, wide unit = 1)
{
    if (lo > hi) return lo;
    wide v;
    switch (s.choose(6))
    {
    case 0: v = (wide)s.choose(200) - 100; break;
    case 1: v = hi - (wide)s.choose(3); break;
    case 2: v = lo + (wide)s.choose(3); break;
    case 3: { wide k = (wide)s.choose(1000) - 500; v = k * unit + ((wide)s.choose(3) - 1); break; }
    default: { int w = (int)s.choose(63) + 1; v = (wide)s.bits(w); if (s.flip()) v = -v; break; }
    }
    if (v < lo || v > hi) { wide span = hi - lo + 1; wide m = (v - lo) % span; if (m < 0) m += span; v = lo + m; }
    return v;
}
// what the checks need to know of an amount's type
struct Info { Per per; wide lo, hi; bool is_signed; int bytes; std::string name() const { return std::string(is_signed ? "int" : "uint") + std::to_string(bytes * 8) + "x" + std::to_string(per.num) + "/" + std::to_string(per.den); } };
// conversions work in 64 bit steps: stay where count * num can be written down
inline wide limit_hi(const Info& from, const Factor& f, wide target_hi) { wide h = from.hi; if (h > I64 / f.num) h = I64 / f.num; wide t = target_hi * f.den / f.num; return h > t ? t : h; }
inline wide limit_lo(const Info& from, const Factor& f, wide target_lo) { wide l = from.lo; if (l < -(I64 / f.num)) l = -(I64 / f.num); wide t = target_lo * f.den / f.num; return l < t ? t : l; }
}
