// 128-bit integers: text in three bases, streams, and floating point.
#include "gen.hpp"
#include <cmath>
#include <limits>
#include <locale>
using namespace m;
typedef uint128_t::format F3;
static std::string hx(u128 v) { char b[64]; snprintf(b, sizeof b, "0x%016llx%016llx", (unsigned long long) (v >> 64), (unsigned long long) v); return b; }
static u128 value(Src& s) {
    switch (s.below(4)) {
        case 0: return g::number(s, 128);
        case 1: return s.below(2000);
        case 2: {  // around powers of ten and of two
            u128 v = 1;
            const size_t n = s.below(39);
            for (size_t i = 0; i < n; ++i) v *= 10;
            return v * s.range(1, 3) + (u128) s.below(3) - 1;
        }
        default: return g::draw128(s) >> s.below(128);
    }
}
static std::string numeral(u128 v, unsigned base) {
    std::string r;
    do { r.insert(r.begin(), "0123456789abcdef"[(unsigned) (v % base)]); v /= base; } while (v);
    return r;
}
static unsigned base_of(F3 f) { return f == F3::decimal ? 10 : f == F3::octal ? 8 : 16; }
static F3 any_format(Src& s) { static const F3 f[] = {F3::decimal, F3::octal, F3::hexadecimal}; return f[s.below(3)]; }
template <typename C> static std::basic_string<C> to_text(const uint128_t& v, F3 f);
template <> std::string to_text<char>(const uint128_t& v, F3 f) { return v.to_string(f); }
template <> std::wstring to_text<wchar_t>(const uint128_t& v, F3 f) { return v.to_wstring(f); }
template <> std::u16string to_text<char16_t>(const uint128_t& v, F3 f) { return v.to_u16string(f); }
template <> std::u32string to_text<char32_t>(const uint128_t& v, F3 f) { return v.to_u32string(f); }
#if defined(__cpp_char8_t)
template <> std::u8string to_text<char8_t>(const uint128_t& v, F3 f) { return v.to_u8string(f); }
#endif
// with the default format, decimal
template <typename C> static std::basic_string<C> to_text(const uint128_t& v);
template <> std::string to_text<char>(const uint128_t& v) { return v.to_string(); }
template <> std::wstring to_text<wchar_t>(const uint128_t& v) { return v.to_wstring(); }
template <> std::u16string to_text<char16_t>(const uint128_t& v) { return v.to_u16string(); }
template <> std::u32string to_text<char32_t>(const uint128_t& v) { return v.to_u32string(); }
#if defined(__cpp_char8_t)
template <> std::u8string to_text<char8_t>(const uint128_t& v) { return v.to_u8string(); }
#endif
template <typename C> static void print_one(Ctx& c, u128 v, F3 f) {
    const std::string want = numeral(v, base_of(f));
    REQ(c, to_text<C>(u(v), f) == widen<C>(want), "text of ", hx(v), " in base ", base_of(f), ": ", qw(to_text<C>(u(v), f)), ", want ", want);
    REQ(c, to_text<C>(u(v)) == widen<C>(numeral(v, 10)), "default format is decimal: ", qw(to_text<C>(u(v))), ", want ", numeral(v, 10));
    const ip::optional<uint128_t> back = uint128_t::from_string(to_text<C>(u(v), f), f);
    REQ(c, back.has_value() && val(back.value()) == v, "round trip of ", hx(v), " in base ", base_of(f));
}
static void print(Src& s, Ctx& c) {
    const u128 v = value(s);
    const F3 f = any_format(s);
    NOTE(c, hx(v), " base ", base_of(f));
    if (v > 9) c.nontrivial();
    SUB(c, print_one<char>(c, v, f));
    SUB(c, print_one<wchar_t>(c, v, f));
    SUB(c, print_one<char16_t>(c, v, f));
    SUB(c, print_one<char32_t>(c, v, f));
#if defined(__cpp_char8_t)
    SUB(c, print_one<char8_t>(c, v, f));
#endif
    REQ_EQ(c, u(v).to_string(), numeral(v, 10), "default format is decimal");
#ifndef IPADDRESS_NO_OVERLOAD_STD
    REQ_EQ(c, std::to_string(u(v)), numeral(v, 10), "std::to_string");
    REQ(c, std::to_wstring(u(v)) == widen<wchar_t>(numeral(v, 10)), "std::to_wstring");
#endif
    for (size_t i = 0; i < numeral(v, base_of(f)).size(); ++i) c.obs((u64) u(v).to_string(f)[i]);
}
// text -> expected value
static bool model_parse(const std::string& t, unsigned base, u128& v) {
    v = 0;
    if (t.empty()) return false;
    for (size_t i = 0; i < t.size(); ++i) {
        const char ch = t[i];
        unsigned d = ch >= '0' && ch <= '9' ? (unsigned) (ch - '0') : ch >= 'a' && ch <= 'f' ? (unsigned) (ch - 'a' + 10) : ch >= 'A' && ch <= 'F' ? (unsigned) (ch - 'A' + 10) : 99;
        if (d >= base) return false;
        if (v > (~(u128) 0 - d) / base) return false;
        v = v * base + d;
    }
    return true;
}
static std::string text(Src& s, unsigned base) {
    std::string r;
    switch (s.below(8)) {
        case 0: case 1: r = numeral(value(s), base); break;
        case 2: {  // around the top
            r = numeral(~(u128) 0 - s.below(20), base);
            if (s.flip()) { r[s.below(r.size())] = "0123456789abcdefABCDEF"[s.below(base == 16 ? 22 : base)]; }
            break;
        }
        case 3: r = std::string(s.range(1, 60), '0') + numeral(value(s), base); break;
        case 4: { const size_t n = s.range(30, 60); for (size_t i = 0; i < n; ++i) r += "0123456789abcdefABCDEF"[s.below(base == 16 ? 22 : base)]; break; }
        case 5: r = numeral(value(s), base); g::mutate(s, r); break;
        case 6: { const size_t n = s.below(12); for (size_t i = 0; i < n; ++i) r += g::any_char(s); break; }
        default: r = numeral(value(s), s.flip() ? 16 : 10); break;
    }
    if (base == 16 && s.below(3) == 2) for (size_t i = 0; i < r.size(); ++i) if (r[i] >= 'a' && r[i] <= 'f' && s.flip()) r[i] = (char) (r[i] - 32);
    for (size_t i = 0; i < r.size(); ++i) if (!r[i]) r[i] = '0';  // NUL ends a numeral held in an array; not part of this property
    return r;
}
template <typename C> static void parse_one(Ctx& c, const std::string& t, F3 f, bool ok, u128 want) {
    const std::basic_string<C> w = widen<C>(t);
    const ip::optional<uint128_t> r = uint128_t::from_string(w, f);
    REQ_EQ(c, r.has_value(), ok, "from_string(", qw(w), ") base ", base_of(f));
    if (ok) REQ(c, val(r.value()) == want, "from_string(", qw(w), ") base ", base_of(f), ": ", hx(val(r.value())), ", want ", hx(want));
    C buf[512] = {};
    for (size_t i = 0; i < w.size() && i < 511; ++i) buf[i] = w[i];
    const ip::optional<uint128_t> q = uint128_t::from_string(buf, f);
    REQ_EQ(c, q.has_value(), ok, "from_string(array ", qw(w), ") base ", base_of(f));
    if (ok) REQ(c, val(q.value()) == want, "from_string(array ", qw(w), ") base ", base_of(f));
    if (f == F3::decimal) {
        const ip::optional<uint128_t> d = uint128_t::from_string(w), da = uint128_t::from_string(buf);
        REQ(c, d.has_value() == ok && (!ok || val(d.value()) == want), "default format of from_string is decimal: ", qw(w));
        REQ(c, da.has_value() == ok && (!ok || val(da.value()) == want), "default format of from_string(array) is decimal: ", qw(w));
    }
}
static void parse(Src& s, Ctx& c) {
    const F3 f = any_format(s);
    const std::string t = text(s, base_of(f));
    u128 v = 0;
    const bool ok = model_parse(t, base_of(f), v);
    NOTE(c, q(t), " base ", base_of(f), ok ? " ok" : " refused");
    if (t.size() > 1) c.nontrivial();
    c.label(ok ? "accepted" : "refused");
    SUB(c, parse_one<char>(c, t, f, ok, v));
    if (ascii(t)) {
        SUB(c, parse_one<wchar_t>(c, t, f, ok, v));
        SUB(c, parse_one<char16_t>(c, t, f, ok, v));
        SUB(c, parse_one<char32_t>(c, t, f, ok, v));
#if defined(__cpp_char8_t)
        SUB(c, parse_one<char8_t>(c, t, f, ok, v));
#endif
    }
    c.obs((u64) ok); c.obs((u64) v);
}
// wide code units that would be digits if truncated to fewer bits
static void wide_digits(Src& s, Ctx& c) {
    const F3 f = any_format(s);
    std::string t = numeral(value(s), base_of(f));
    std::u16string a = widen<char16_t>(t);
    std::u32string b = widen<char32_t>(t);
    std::wstring w = widen<wchar_t>(t);
    const size_t i = s.below(t.size());
    static const uint32_t off[] = {0x100, 0x200, 0xff00 - 0x20, 0x1000, 0x660 - 0x30, 0x8000};
    const uint32_t o = s.pick(off);
    a[i] = (char16_t) (a[i] + o); b[i] += o; w[i] = (wchar_t) ((uint32_t) w[i] + o);
    NOTE(c, qw(b));
    c.nontrivial();
    REQ(c, !uint128_t::from_string(a, f).has_value(), "accepted UTF-16 ", qw(a));
    REQ(c, !uint128_t::from_string(b, f).has_value(), "accepted UTF-32 ", qw(b));
    REQ(c, !uint128_t::from_string(w, f).has_value(), "accepted wide ", qw(w));
    b[i] = (char32_t) (widen<char32_t>(t)[i] + 0x10000u * (uint32_t) s.range(1, 40));
    REQ(c, !uint128_t::from_string(b, f).has_value(), "accepted UTF-32 ", qw(b));
}
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <typename C> static void stream_with(Src& s, Ctx& c) {
    std::basic_ostringstream<C> out;
    const size_t n = s.range(1, 4);
    std::string want;
    std::vector<u128> vals;
    std::vector<unsigned> bases;
    unsigned base = 10;
    bool upper = false;
    for (size_t i = 0; i < n; ++i) {
        switch (s.below(6)) {
            case 0: out << std::hex; base = 16; break;
            case 1: out << std::oct; base = 8; break;
            case 2: out << std::dec; base = 10; break;
            case 3: out << std::uppercase; upper = true; break;
            case 4: out << std::nouppercase; upper = false; break;
            default: break;
        }
        const u128 v = value(s);
        out << u(v) << (C) ' ';
        std::string t = numeral(v, base);
        if (upper) for (size_t k = 0; k < t.size(); ++k) if (t[k] >= 'a' && t[k] <= 'f') t[k] = (char) (t[k] - 32);
        want += t + " ";
        vals.push_back(v);
        bases.push_back(base);
    }
    NOTE(c, want);
    c.nontrivial();
    REQ(c, out.str() == widen<C>(want), "stream text ", qw(out.str()), ", want ", want);
    std::basic_istringstream<C> in(out.str());
    for (size_t i = 0; i < n; ++i) {
        if (bases[i] == 16) in >> std::hex; else if (bases[i] == 8) in >> std::oct; else in >> std::dec;
        uint128_t r = 99;
        in >> r;
        REQ(c, !in.fail() && val(r) == vals[i], "reading back ", hx(vals[i]), " got ", hx(val(r)));
    }
    // a token that is no numeral sets the failure state
    const unsigned b = bases[n - 1];
    std::string t = text(s, b);
    for (size_t i = 0; i < t.size(); ++i) if (isspace((unsigned char) t[i]) || (unsigned char) t[i] >= 0x80) t[i] = 'x';
    if (t.empty()) return;
    u128 v = 0;
    const bool ok = model_parse(t, b, v);
    std::basic_istringstream<C> bad(widen<C>(t) + widen<C>(" 7"));
    if (b == 16) bad >> std::hex; else if (b == 8) bad >> std::oct;
    uint128_t r = 0;
    bad >> r;
    REQ_EQ(c, !bad.fail(), ok, "operator>> of ", q(t), " base ", b);
    if (ok) { REQ(c, val(r) == v, "operator>> of ", q(t)); bad >> r; REQ(c, !bad.fail() && val(r) == 7, "the value after ", q(t)); }
}
static void streams(Src& s, Ctx& c) { if (s.flip()) stream_with<wchar_t>(s, c); else stream_with<char>(s, c); }
#else
static void streams(Src&, Ctx&) {}
#endif
// a locale that groups digits, as many system locales do
struct grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
    char do_decimal_point() const override { return ';'; }
};
static void under_locale(Src& s, Ctx& c) {
    static const std::locale grouped(std::locale::classic(), new grouping);
    const u128 v = value(s);
    const F3 f = any_format(s);
    NOTE(c, hx(v), " base ", base_of(f), " with a digit-grouping global locale");
    if (v > 999) c.nontrivial();
    const std::locale old = std::locale::global(grouped);
    const std::string t = u(v).to_string(f);
    const std::u16string w = u(v).to_u16string(f);
    std::locale::global(old);
    REQ_EQ(c, t, numeral(v, base_of(f)), "the global locale must not change the numeral");
    REQ(c, w == widen<char16_t>(numeral(v, base_of(f))), "the global locale must not change the numeral");
}
// ---- floating point ---------------------------------------------------------------------------------
static int bitlen(u128 v) { int n = 0; while (v) { ++n; v >>= 1; } return n; }
// the two neighbours of v with 'digits' significant bits (equal if v is representable)
static void neighbours(u128 v, int digits, u128& lo, u128& hi, bool& hi_is_2_128) {
    const int n = bitlen(v);
    hi_is_2_128 = false;
    if (n <= digits) { lo = hi = v; return; }
    const u128 step = (u128) 1 << (n - digits);
    lo = v & ~(step - 1);
    if (lo == v) { hi = v; return; }
    hi = lo + step;
    hi_is_2_128 = hi == 0;
}
static long double to_ld(u128 v) { return (long double) (u64) (v >> 64) * 18446744073709551616.0L + (long double) (u64) v; }  // exact for at most 64 significant bits
template <typename T> static void to_float(Ctx& c, u128 v, int digits, const char* name) {
    u128 lo, hi;
    bool top;
    neighbours(v, digits, lo, hi, top);
    const long double l = to_ld(lo), h = top ? 340282366920938463463374607431768211456.0L : to_ld(hi);
    const T got = static_cast<T>(u(v));
    if (top && std::isinf(got) && (T) h == got) return;  // 2^128 is beyond float
    REQ(c, (long double) got == l || (long double) got == h, name, " of ", hx(v), " is ", (double) got, ", not a neighbour (", (double) l, " or ", (double) h, "), off by ", (double) ((long double) got - l));
}
static u128 fvalue(Src& s) {
    if (s.flip()) return value(s);
    // a 53-bit pattern at some position, with a tail of few bits below it
    u128 v = ((u128) 1 << 52 | (s.bits64() & ((1ULL << 52) - 1))) << s.below(76);
    switch (s.below(4)) {
        case 0: break;
        case 1: v += (u128) s.below(3) - 1; break;
        case 2: v ^= (u128) 1 << s.below(128); break;
        default: v |= g::draw128(s) >> s.range(64, 127);
    }
    return v;
}
static void to_floating(Src& s, Ctx& c) {
    const u128 a = fvalue(s);
    u128 b;
    switch (s.below(4)) {
        case 0: b = a + 1; break;
        case 1: b = a + ((u128) 1 << s.below(128)); break;
        case 2: b = a | (((u128) 1 << s.below(128)) - 1); break;
        default: b = fvalue(s);
    }
    NOTE(c, hx(a), " ", hx(b));
    if (a >> 53) c.nontrivial();
    SUB(c, to_float<double>(c, a, 53, "double"));
    SUB(c, to_float<double>(c, b, 53, "double"));
    SUB(c, to_float<float>(c, a, 24, "float"));
    SUB(c, to_float<long double>(c, a, 53, "long double"));
    const u128 x = a < b ? a : b, y = a < b ? b : a;
    REQ(c, (double) u(x) <= (double) u(y), "double not monotone: ", hx(x), " ", hx(y));
    REQ(c, (float) u(x) <= (float) u(y), "float not monotone: ", hx(x), " ", hx(y));
    REQ(c, (long double) u(x) <= (long double) u(y), "long double not monotone: ", hx(x), " ", hx(y));
}
static double any_double(Src& s) {
    switch (s.below(7)) {
        case 0: { u64 b = s.bits64(); double d; std::memcpy(&d, &b, 8); return d; }                              // any bits
        case 1: return std::ldexp((double) (1ULL << 52 | (s.bits64() >> 12)), (int) s.range(0, 90) - 60);          // 53-bit numbers of relevant size
        case 2: { static const double v[] = {0.0, -0.0, 0.5, 1.0, -1.0, 0.99999, 1.5, 2.0, 18446744073709551616.0, 18446744073709549568.0, 9007199254740993.0, 340282366920938463463374607431768211456.0, 340282366920938425684442744474606501888.0, -0.5, 1e308, -1e308};
                  return s.pick(v); }
        case 3: return std::numeric_limits<double>::infinity() * (s.flip() ? -1 : 1);
        case 4: return s.flip() ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::denorm_min();
        case 5: return (double) (long long) s.below(100000) / 16.0;
        default: { double d = std::ldexp(1.0, (int) s.below(130)); return s.flip() ? std::nextafter(d, 0.0) : s.flip() ? std::nextafter(d, 1e300) : d; }
    }
}
static u128 model_from(long double d) {
    if (!(d >= 1)) return 0;
    if (d >= 340282366920938463463374607431768211456.0L) return ~(u128) 0;
    return (u128) d;
}
static void from_floating(Src& s, Ctx& c) {
    const double d = any_double(s);
    const float f = s.flip() ? (float) (std::fabs(d) > 3e38 ? 1.0 : d) : (float) s.bits64() * 4;
    NOTE(c, d, " ", f);
    if (d >= 1) c.nontrivial();
    const u128 got = val(uint128_t(d)), want = model_from(d);
    REQ(c, got == want, "from double ", d, ": ", hx(got), ", want ", hx(want));
    REQ(c, val(uint128_t((long double) d)) == want, "from long double ", d, ": ", hx(val(uint128_t((long double) d))), ", want ", hx(want));
    REQ(c, val(uint128_t(f)) == model_from(f), "from float ", f, ": ", hx(val(uint128_t(f))), ", want ", hx(model_from(f)));
    if (want != 0 && want != ~(u128) 0 && (double) want == std::trunc(d)) REQ(c, (double) uint128_t(d) == std::trunc(d), "round trip of ", d);
    c.obs((u64) got); c.obs((u64) (got >> 64));
}
static const pbt::Facet F[] = {{"print", 4, print}, {"parse", 8, parse}, {"wide_digits", 1, wide_digits}, {"streams", 3, streams}, {"locale", 1, under_locale}, {"to_floating", 5, to_floating}, {"from_floating", 4, from_floating}};
PBT_MAIN("P25", F)
