// Integer parsing: estd::from_chars against std::from_chars, for every integer type and base 2..36.
#include <estd/charconv.h>
#include "pbt.h"
#include <charconv>
#include <memory>

namespace {

std::string digits_text(pbt::Source& s, int base, bool valid_bias)
{
    // grammar-ish generator: [garbage] [-] [0*] digits [tail]
    std::string r;
    static const char alnum[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    if (s.one_in(8)) r += s.pick(" +\t\n-/:@[`{x\x80\xff");
    if (s.one_in(3)) r += '-';
    unsigned z = s.one_in(6) ? s.size(30) : 0; while (z--) r += '0';
    unsigned n = s.size(24);
    while (n--)
    {
        unsigned d;
        if (valid_bias && !s.one_in(12)) d = (unsigned)s.choose(base); else d = (unsigned)s.choose(62);
        if (d >= 10 && d < 36 && valid_bias && s.flip()) d += 26;
        r += alnum[d];
    }
    if (s.one_in(4)) { unsigned t = s.size(6); while (t--) r += (char)s.choose(256); }
    return r;
}

template <class T> void one(pbt::Source& s, const char* tname)
{
    int base = s.one_in(3) ? (int)s.range(2, 36) : s.pick({10, 16, 2, 8, 36, 11, 9, 35});
    std::string in;
    switch (s.choose(4))
    {
        case 0: { // render a boundary value, possibly perturb
            char b[80]; T v = s.integer<T>(); auto r = std::to_chars(b, b + sizeof b, v, base); in.assign(b, r.ptr);
            if (s.flip()) for (char& c : in) c = (char)toupper(c);
            if (s.one_in(3)) in += digits_text(s, base, true);
            break; }
        case 1: { // just beyond the type's range (computed wide)
            __int128 lim = s.flip() ? (__int128)std::numeric_limits<T>::max() : (__int128)std::numeric_limits<T>::min();
            lim += (int)s.range(-3, 3); bool neg = lim < 0; unsigned __int128 m = neg ? (unsigned __int128)-lim : (unsigned __int128)lim;
            if (s.one_in(4)) m *= (unsigned)(1 + s.choose(base));
            std::string d; do { d.insert(d.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[(unsigned)(m % base)]); m /= base; } while (m);
            in = (neg ? "-" : "") + d; if (s.one_in(3)) in += digits_text(s, base, true); break; }
        case 2: in = digits_text(s, base, false); break;
        default: in = digits_text(s, base, true);
    }
    std::unique_ptr<char[]> buf(new char[in.size()]);           // exact size: any over-read is reported
    std::copy(in.begin(), in.end(), buf.get());
    const char *f = buf.get(), *l = f + in.size();
    T init = s.integer<T>();
    LOG("from_chars<" << tname << ">(" << pbt::quote(in) << ", base " << base << "), initial value " << pbt::show(init));
    T ev = init, v = init;
    auto er = std::from_chars(f, l, ev, base);
    auto r = estd::from_chars(f, l, v, base);
    int eec = er.ec == std::errc() ? 0 : er.ec == std::errc::invalid_argument ? 1 : 2;
    int ec = r.ec == 0 ? 0 : r.ec == estd::errc::invalid_argument ? 1 : r.ec == estd::errc::result_out_of_range ? 2 : 3;
    LOG("expected ec " << eec << " value " << pbt::show(ev) << " consumed " << (er.ptr - f));
    CHECK_EQ(ec, eec, "error class (0 ok, 1 invalid, 2 out of range)");
    CHECK_EQ(v, ev, "parsed value (unchanged on error)");
    CHECK_EQ((long)(r.ptr - f), (long)(er.ptr - f), "end of consumed input");
    if (eec == 0 && ev < 0) s.label("negative");
    if (eec == 1) s.label("rejected");
    if (eec == 2) s.label("out_of_range");
    if (eec == 0 && er.ptr != l) s.label("stopped_early");
    if (eec != 1 && (er.ptr - f) > 1) s.nontrivial();
}

TARGET(from_chars, 3)
{
    switch (s.choose(10))
    {
        case 0: return one<int>(s, "int");
        case 1: return one<unsigned>(s, "unsigned");
        case 2: return one<long>(s, "long");
        case 3: return one<unsigned long>(s, "unsigned long");
        case 4: return one<short>(s, "short");
        case 5: return one<unsigned short>(s, "unsigned short");
        case 6: return one<signed char>(s, "int8_t");
        case 7: return one<unsigned char>(s, "uint8_t");
        case 8: return one<long long>(s, "long long");
        default: return one<unsigned long long>(s, "unsigned long long");
    }
}

}
