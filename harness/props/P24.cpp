// 128-bit integers: every operator against the compiler's own 128-bit integers.
#include "gen.hpp"
#include <limits>
#include <unordered_map>
using namespace m;
typedef __int128 i128;
static std::string hx(u128 v) { char b[64]; snprintf(b, sizeof b, "0x%016llx%016llx", (unsigned long long) (v >> 64), (unsigned long long) v); return b; }
static std::string hx(const uint128_t& v) { return hx(val(v)); }
static std::string hx(bool v) { return v ? "true" : "false"; }
#define SAME(c, got, want, ...) do { const u128 g_ = val(got), w_ = (u128) (want); if (g_ != w_) { (c).fail(__FILE__, __LINE__, str(#got, ": got ", hx(g_), ", want ", hx(w_), "; ", __VA_ARGS__)); return; } } while (0)

// words that make carries, borrows and quotient estimates interesting
static u128 words(Src& s) {
    static const uint32_t w[] = {0, 0xffffffffu, 1, 0x80000000u, 0x7fffffffu, 0xfffffffeu, 2, 0x10000u, 0xffffu, 0x80000001u};
    u128 v = 0;
    for (int i = 0; i < 4; ++i) {
        const size_t k = s.below(14);
        v = v << 32 | (k < 10 ? w[k] : (uint32_t) s.draw(0xffffffffu));
    }
    return v;
}
static u128 value(Src& s) {
    switch (s.below(4)) {
        case 0: return g::number(s, 128);
        case 1: return words(s);
        case 2: return words(s) >> s.below(128);
        default: return words(s) & ones((int) s.range(0, 128));
    }
}
static void ops(Ctx& c, u128 a, u128 b) {
    const uint128_t x = u(a), y = u(b);
    const std::string w = str(hx(a), " and ", hx(b));
    SAME(c, x + y, a + b, w);
    SAME(c, x - y, a - b, w);
    SAME(c, x * y, a * b, w);
    SAME(c, x / y, b == 0 ? 0 : a / b, w);
    SAME(c, x % y, b == 0 ? a : a % b, w);
    SAME(c, x & y, a & b, w);
    SAME(c, x | y, a | b, w);
    SAME(c, x ^ y, a ^ b, w);
    SAME(c, ~x, ~a, w);
    SAME(c, -x, (u128) 0 - a, w);
    SAME(c, +x, a, w);
    uint128_t t = x;
    SAME(c, t += y, a + b, w); SAME(c, t, a + b, w);
    t = x; SAME(c, t -= y, a - b, w); SAME(c, t, a - b, w);
    t = x; SAME(c, t *= y, a * b, w); SAME(c, t, a * b, w);
    t = x; SAME(c, t /= y, b == 0 ? 0 : a / b, w); SAME(c, t, b == 0 ? 0 : a / b, w);
    t = x; SAME(c, t %= y, b == 0 ? a : a % b, w); SAME(c, t, b == 0 ? a : a % b, w);
    t = x; SAME(c, t &= y, a & b, w); SAME(c, t, a & b, w);
    t = x; SAME(c, t |= y, a | b, w); SAME(c, t, a | b, w);
    t = x; SAME(c, t ^= y, a ^ b, w); SAME(c, t, a ^ b, w);
    SAME(c, x, a, "left operand changed ", w);
    SAME(c, y, b, "right operand changed ", w);
    // aliasing
    t = x; t += t; SAME(c, t, a + a, w);
    t = x; t -= t; SAME(c, t, 0, w);
    t = x; t *= t; SAME(c, t, a * a, w);
    t = x; t /= t; SAME(c, t, a ? 1 : 0, w);
    t = x; t %= t; SAME(c, t, 0, w);
    REQ_EQ(c, x == y, a == b, w);
    REQ_EQ(c, x != y, a != b, w);
    REQ_EQ(c, x < y, a < b, w);
    REQ_EQ(c, x <= y, a <= b, w);
    REQ_EQ(c, x > y, a > b, w);
    REQ_EQ(c, x >= y, a >= b, w);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    REQ_EQ(c, (x <=> y) < 0, a < b, w);
    REQ_EQ(c, (x <=> y) == 0, a == b, w);
    REQ_EQ(c, (x <=> y) > 0, a > b, w);
#endif
    REQ_EQ(c, static_cast<bool>(x), a != 0, w);
    REQ_EQ(c, !x, a == 0, w);
    REQ_EQ(c, (x && y), a != 0 && b != 0, w);
    REQ_EQ(c, (x || y), a != 0 || b != 0, w);
    REQ_EQ(c, x.upper(), (u64) (a >> 64), w);
    REQ_EQ(c, x.lower(), (u64) a, w);
    REQ(c, a != b || x.hash() == y.hash(), "equal values, different hashes ", w);
    if (a / (b ? b : 1) > 0) c.label("quotient above 0");
    c.obs((u64) (val(x * y) ^ val(x / y) ^ val(x % y)));
}
static void arith(Src& s, Ctx& c) {
    const u128 a = value(s), b = s.below(4) == 3 ? a + (u128) s.below(5) - 2 : value(s);
    NOTE(c, hx(a), " ", hx(b));
    if (a >> 64 || b >> 64) c.nontrivial();
    SUB(c, ops(c, a, b));
}
// dividends built from divisor, quotient and remainder, so that quotient digit corrections are met
static void division(Src& s, Ctx& c) {
    u128 b = value(s);
    if (b == 0) b = 1;
    const u128 top = ~(u128) 0 / b;
    u128 q = value(s);
    if (q > top) q = s.flip() ? top - s.below(3) % (top ? top : 1) : q % (top == ~(u128) 0 ? top : top + 1);
    const u128 room = ~(u128) 0 - q * b;
    u128 r;
    switch (s.below(4)) {
        case 0: r = 0; break;
        case 1: r = b - 1; break;
        case 2: r = s.below(3) % b; break;
        default: r = value(s) % b;
    }
    if (r > room) r = room;
    const u128 a = q * b + r;
    NOTE(c, hx(a), " / ", hx(b));
    if (a >> 64) c.nontrivial();
    const uint128_t x = u(a), y = u(b);
    SAME(c, x / y, a / b, hx(a), " ", hx(b));
    SAME(c, x % y, a % b, hx(a), " ", hx(b));
    SAME(c, (x / y) * y + x % y, a, hx(a), " ", hx(b));
    REQ(c, x % y < y, "remainder not below the divisor ", hx(a), " ", hx(b));
    if (a) { SAME(c, (x - 1) / y, (a - 1) / b, hx(a), " ", hx(b)); SAME(c, (x - 1) % y, (a - 1) % b, hx(a), " ", hx(b)); }
    if (q) SAME(c, x / u(q), a / q, hx(a), " ", hx(q));
    c.obs((u64) val(x / y));
}
template <typename T> static T shift_amount(Src& s) {
    switch (s.below(4)) {
        case 0: return (T) s.below(130);
        case 1: { static const int v[] = {0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256}; return (T) s.pick(v); }
        case 2: return (T) s.bits64();
        default: return s.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    }
}
template <typename T> static void shift_with(Src& s, Ctx& c, const char* name) {
    const u128 a = value(s);
    const T n = shift_amount<T>(s);
    const bool in = n >= 0 && (u64) n < 128;
    const u128 l = in ? a << (int) n : 0, r = in ? a >> (int) n : 0;
    const std::string w = str(hx(a), " by ", name, " ", (long long) n);
    NOTE(c, w);
    if (in && n > 0 && a) c.nontrivial();
    SAME(c, u(a) << n, l, w);
    SAME(c, u(a) >> n, r, w);
    uint128_t t = u(a);
    SAME(c, t <<= n, l, w); SAME(c, t, l, w);
    t = u(a); SAME(c, t >>= n, r, w); SAME(c, t, r, w);
    c.obs((u64) (l ^ r));
}
static void shifts(Src& s, Ctx& c) {
    switch (s.below(10)) {
        case 0: return shift_with<int>(s, c, "int");
        case 1: return shift_with<unsigned>(s, c, "unsigned");
        case 2: return shift_with<long>(s, c, "long");
        case 3: return shift_with<unsigned long>(s, c, "unsigned long");
        case 4: return shift_with<long long>(s, c, "long long");
        case 5: return shift_with<unsigned long long>(s, c, "unsigned long long");
        case 6: return shift_with<short>(s, c, "short");
        case 7: return shift_with<unsigned short>(s, c, "unsigned short");
        case 8: return shift_with<signed char>(s, c, "signed char");
        default: return shift_with<unsigned char>(s, c, "unsigned char");
    }
}
template <typename T> static T builtin(Src& s) {
    switch (s.below(4)) {
        case 0: return (T) (s.below(20) - (std::is_signed<T>::value ? 10 : 0));
        case 1: return (T) (std::numeric_limits<T>::max() - (T) s.below(3));
        case 2: return (T) (std::numeric_limits<T>::min() + (T) s.below(3));
        default: return (T) s.bits64();
    }
}
template <typename T> static void mixed_with(Src& s, Ctx& c, const char* name) {
    const T n = builtin<T>(s);
    const u128 b = (u128) (i128) n;  // sign extension is what the converting constructors document
    const u128 a = s.below(3) == 2 ? b + (u128) s.below(3) - 1 : value(s);
    const uint128_t x = u(a), y(n);
    const std::string w = str(hx(a), " and ", name, " ", hx(b));
    NOTE(c, w);
    if (a >> 64 || b >> 64) c.nontrivial();
    SAME(c, y, b, "construction, ", w);
    uint128_t z = x; z = n;
    SAME(c, z, b, "assignment, ", w);
    SAME(c, x + n, a + b, w); SAME(c, n + x, a + b, w);
    SAME(c, x - n, a - b, w); SAME(c, n - x, b - a, w);
    SAME(c, x * n, a * b, w); SAME(c, n * x, a * b, w);
    SAME(c, x / n, b ? a / b : 0, w); SAME(c, n / x, a ? b / a : 0, w);
    SAME(c, x % n, b ? a % b : a, w); SAME(c, n % x, a ? b % a : b, w);
    SAME(c, x & n, a & b, w); SAME(c, n & x, a & b, w);
    SAME(c, x | n, a | b, w); SAME(c, n | x, a | b, w);
    SAME(c, x ^ n, a ^ b, w); SAME(c, n ^ x, a ^ b, w);
    uint128_t t = x; t += n; SAME(c, t, a + b, w);
    t = x; t -= n; SAME(c, t, a - b, w);
    t = x; t *= n; SAME(c, t, a * b, w);
    t = x; t /= n; SAME(c, t, b ? a / b : 0, w);
    t = x; t %= n; SAME(c, t, b ? a % b : a, w);
    t = x; t &= n; SAME(c, t, a & b, w);
    t = x; t |= n; SAME(c, t, a | b, w);
    t = x; t ^= n; SAME(c, t, a ^ b, w);
    REQ_EQ(c, x == n, a == b, w); REQ_EQ(c, n == x, a == b, w);
    REQ_EQ(c, x != n, a != b, w); REQ_EQ(c, n != x, a != b, w);
    REQ_EQ(c, x < n, a < b, w); REQ_EQ(c, n < x, b < a, w);
    REQ_EQ(c, x <= n, a <= b, w); REQ_EQ(c, n <= x, b <= a, w);
    REQ_EQ(c, x > n, a > b, w); REQ_EQ(c, n > x, b > a, w);
    REQ_EQ(c, x >= n, a >= b, w); REQ_EQ(c, n >= x, b >= a, w);
    REQ_EQ(c, (long long) static_cast<T>(x), (long long) (T) a, "conversion of ", hx(a), " to ", name);
    REQ_EQ(c, static_cast<T>(y), n, "round trip of ", w);
    c.obs((u64) val(x * n));
}
static void mixed(Src& s, Ctx& c) {
    switch (s.below(8)) {
        case 0: return mixed_with<int>(s, c, "int");
        case 1: return mixed_with<unsigned>(s, c, "unsigned");
        case 2: return mixed_with<long>(s, c, "long");
        case 3: return mixed_with<unsigned long>(s, c, "unsigned long");
        case 4: return mixed_with<long long>(s, c, "long long");
        case 5: return mixed_with<unsigned long long>(s, c, "unsigned long long");
        case 6: return mixed_with<short>(s, c, "short");
        default: return mixed_with<unsigned short>(s, c, "unsigned short");
    }
}
static void narrow_conv(Src& s, Ctx& c) {
    const u128 a = value(s);
    const uint128_t x = u(a);
    NOTE(c, hx(a));
    if (a >> 64) c.nontrivial();
    REQ_EQ(c, (int) static_cast<unsigned char>(x), (int) (unsigned char) a, hx(a));
    REQ_EQ(c, (int) static_cast<signed char>(x), (int) (signed char) a, hx(a));
    REQ_EQ(c, (int) static_cast<char>(x), (int) (char) a, hx(a));
    REQ_EQ(c, static_cast<bool>(x), a != 0, hx(a));
    SAME(c, uint128_t(x.upper(), x.lower()), a, hx(a));
    SAME(c, (uint128_t(x.upper()) << 64 | uint128_t(x.lower())), a, hx(a));
    c.obs((u64) a);
}
static void incdec(Src& s, Ctx& c) {
    u128 a = value(s);
    uint128_t x = u(a);
    NOTE(c, hx(a));
    if (a >> 63) c.nontrivial();
    const size_t n = s.range(1, 8);
    for (size_t i = 0; i < n; ++i) {
        switch (s.below(4)) {
            case 0: { const uint128_t old = x++; SAME(c, old, a, hx(a)); ++a; break; }
            case 1: { uint128_t& r = ++x; ++a; SAME(c, r, a, hx(a)); REQ(c, &r == &x, "++x must return x itself"); break; }
            case 2: { const uint128_t old = x--; SAME(c, old, a, hx(a)); --a; break; }
            default: { uint128_t& r = --x; --a; SAME(c, r, a, hx(a)); REQ(c, &r == &x, "--x must return x itself"); }
        }
        SAME(c, x, a, "after step ", i);
    }
}
// histories over a few registers
static void program(Src& s, Ctx& c) {
    u128 r[4];
    uint128_t x[4];
    for (int i = 0; i < 4; ++i) { r[i] = value(s); x[i] = u(r[i]); }
    const size_t n = s.range(1, 24);
    NOTE(c, n, " steps from ", hx(r[0]), " ", hx(r[1]), " ", hx(r[2]), " ", hx(r[3]));
    c.nontrivial();
    for (size_t k = 0; k < n; ++k) {
        const size_t i = s.below(4), j = s.below(4), d = s.below(4);
        const int sh = (int) s.below(140);
        switch (s.below(14)) {
            case 0: x[d] = x[i] + x[j]; r[d] = r[i] + r[j]; break;
            case 1: x[d] = x[i] - x[j]; r[d] = r[i] - r[j]; break;
            case 2: x[d] = x[i] * x[j]; r[d] = r[i] * r[j]; break;
            case 3: { const u128 v = r[j] ? r[i] / r[j] : 0; x[d] = x[i] / x[j]; r[d] = v; break; }
            case 4: { const u128 v = r[j] ? r[i] % r[j] : r[i]; x[d] = x[i] % x[j]; r[d] = v; break; }
            case 5: x[d] = x[i] << sh; r[d] = sh < 128 ? r[i] << sh : 0; break;
            case 6: x[d] = x[i] >> sh; r[d] = sh < 128 ? r[i] >> sh : 0; break;
            case 7: x[d] ^= x[i]; r[d] ^= r[i]; break;
            case 8: x[d] |= x[i]; r[d] |= r[i]; break;
            case 9: x[d] &= x[i]; r[d] &= r[i]; break;
            case 10: x[d] = ~x[i]; r[d] = ~r[i]; break;
            case 11: x[d] = -x[i]; r[d] = (u128) 0 - r[i]; break;
            case 12: { x[i].swap(x[j]); const u128 v = r[i]; r[i] = r[j]; r[j] = v; break; }
            default: { std::swap(x[i], x[j]); const u128 v = r[i]; r[i] = r[j]; r[j] = v; }
        }
        for (int q = 0; q < 4; ++q) SAME(c, x[q], r[q], "register ", q, " after step ", k);
    }
    c.obs((u64) r[0]);
}
// floating operands on the left are converted first
static void floats(Src& s, Ctx& c) {
    const u128 a = value(s);
    const double d = s.flip() ? (double) s.bits64() : (double) (long long) s.below(1000) / 8.0;
    const uint128_t x = u(a), y(d);
    NOTE(c, hx(a), " ", d);
    if (d >= 1) c.nontrivial();
    SAME(c, y, (u128) d, d);
    SAME(c, d + x, (u128) d + a, d);
    SAME(c, d - x, (u128) d - a, d);
    SAME(c, d * x, (u128) d * a, d);
    SAME(c, d / x, a ? (u128) d / a : 0, d);
    SAME(c, (float) 7.5f % x, a ? (u128) 7 % a : 7, hx(a));
}
static void limits_and_containers(Src& s, Ctx& c) {
#ifndef IPADDRESS_NO_OVERLOAD_STD
    typedef std::numeric_limits<uint128_t> L;
    SAME(c, L::max(), ~(u128) 0, "max");
    SAME(c, L::min(), 0, "min");
    SAME(c, L::lowest(), 0, "lowest");
    REQ(c, L::is_specialized && L::is_integer && L::is_exact && L::is_bounded && !L::is_signed && L::is_modulo, "numeric_limits: kind");
    REQ(c, L::digits + 0 == 128 && L::digits10 + 0 == 38 && L::radix + 0 == 2, "numeric_limits: digits");
    REQ(c, !L::has_infinity && !L::has_quiet_NaN && !L::has_signaling_NaN && !L::is_iec559 && !L::has_denorm_loss && !L::tinyness_before && L::has_denorm == std::denorm_absent, "numeric_limits: no floating-point features");
    REQ(c, L::max_digits10 + L::min_exponent + L::min_exponent10 + L::max_exponent + L::max_exponent10 == 0, "numeric_limits: no exponents");
    SAME(c, L::epsilon(), 0, "epsilon");  // as for every integer type
    SAME(c, L::round_error(), 0, "round_error");
    SAME(c, L::denorm_min(), 0, "denorm_min");
    SAME(c, L::infinity(), 0, "infinity");
    SAME(c, L::quiet_NaN(), 0, "quiet_NaN");
    SAME(c, L::signaling_NaN(), 0, "signaling_NaN");
    std::unordered_map<uint128_t, int> um;
    std::map<uint128_t, int> om;
    std::map<std::pair<u64, u64>, int> mm;
    std::set<size_t> hs;
    const u128 base = value(s);
    const size_t n = s.range(2, 20);
    NOTE(c, n, " keys near ", hx(base));
    if (base >> 64) c.nontrivial();
    for (size_t i = 0; i < n; ++i) {
        const u128 k = s.flip() ? base ^ (u128) 1 << s.below(128) : s.flip() ? base : value(s);
        um[u(k)] = (int) i; om[u(k)] = (int) i; mm[std::make_pair((u64) (k >> 64), (u64) k)] = (int) i;
        hs.insert(std::hash<uint128_t>()(u(k)));
        REQ_EQ(c, std::hash<uint128_t>()(u(k)), u(k).hash(), hx(k));
        SAME(c, std::abs(u(k)), k, "abs");
    }
    REQ_EQ(c, um.size(), mm.size(), "unordered_map");
    REQ_EQ(c, om.size(), mm.size(), "map");
    REQ(c, hs.size() + 2 >= mm.size(), "hashes collide: ", hs.size(), " hashes of ", mm.size(), " keys");
    std::map<uint128_t, int>::const_iterator o = om.begin();
    for (std::map<std::pair<u64, u64>, int>::const_iterator i = mm.begin(); i != mm.end(); ++i, ++o) {
        const u128 k = mk128(i->first.first, i->first.second);
        SAME(c, o->first, k, "order of keys");
        REQ_EQ(c, um[u(k)], i->second, hx(k));
        REQ_EQ(c, o->second, i->second, hx(k));
    }
#else
    (void) s; (void) c;
#endif
}
static const pbt::Facet F[] = {{"arith", 10, arith}, {"division", 10, division}, {"shifts", 6, shifts}, {"mixed", 6, mixed}, {"narrow", 1, narrow_conv}, {"incdec", 2, incdec}, {"program", 3, program}, {"floats", 1, floats}, {"containers", 1, limits_and_containers}};
PBT_MAIN("P24", F)
