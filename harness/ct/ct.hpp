// P26: one constexpr program evaluated twice, by the compiler (constexpr objects) and by the machine (inputs the optimiser
// cannot see). The cases are data, generated by tools/p26.py.
#pragma once
#include <ipaddress/ipaddress.hpp>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif

namespace ct {
using namespace ipaddress;
typedef unsigned long long u64;
constexpr int WIDTH = 72;  // longest text is WIDTH - 1

struct In {
    unsigned op;
    u64 n[6];
    char t[WIDTH];
};
struct Obs {
    u64 v[8] = {};
    unsigned k = 0;
    u64 h = 14695981039346656037ull;
};
constexpr bool same(const Obs& a, const Obs& b) {
    if (a.k != b.k || a.h != b.h) return false;
    for (unsigned i = 0; i < 8; ++i) if (a.v[i] != b.v[i]) return false;
    return true;
}
constexpr void put(Obs& o, u64 x) {
    if (o.k < 8) o.v[o.k] = x;
    ++o.k;
    o.h = (o.h ^ x) * 1099511628211ull;
    o.h ^= o.h >> 29;
}
constexpr uint128_t wide(u64 hi, u64 lo) { return uint128_t((uint64_t) hi, (uint64_t) lo); }
constexpr void put(Obs& o, const uint128_t& x) { put(o, (u64) (uint64_t) x); put(o, (u64) (uint64_t) (x >> 64)); }
constexpr void put(Obs& o, const scope& s) { put(o, (u64) s.has_string()); put(o, (u64) s.has_uint32()); put(o, (u64) s.get_uint32()); }
template <typename A> constexpr void kinds(Obs& o, const A& x) {
    put(o, (u64) x.is_multicast() | (u64) x.is_private() << 1 | (u64) x.is_global() << 2 | (u64) x.is_reserved() << 3 | (u64) x.is_loopback() << 4 | (u64) x.is_link_local() << 5 |
               (u64) x.is_unspecified() << 6);
}
constexpr void put(Obs& o, const ipv4_address& x) { put(o, (u64) x.to_uint()); }
constexpr void put(Obs& o, const ipv6_address& x) { put(o, x.to_uint()); put(o, x.get_scope_id()); }
constexpr void put(Obs& o, const ip_address& x) {
    put(o, (u64) x.version());
    if (x.is_v4()) put(o, x.v4().value()); else put(o, x.v6().value());
}
template <typename N> constexpr void putnet(Obs& o, const N& x) {
    put(o, x.network_address());
    put(o, (u64) x.prefixlen());
}
constexpr void put(Obs& o, const ipv4_network& x) { putnet(o, x); }
constexpr void put(Obs& o, const ipv6_network& x) { putnet(o, x); }
constexpr void put(Obs& o, const ip_network& x) { putnet(o, x); }
constexpr void put(Obs& o, error_code e) { put(o, (u64) e); }
template <typename T> constexpr void put(Obs& o, const optional<T>& x) {
    put(o, (u64) x.has_value());
    if (x.has_value()) put(o, x.value());
}
constexpr void put(Obs& o, const optional<std::pair<ipv4_address, ipv4_address>>& x) {
    put(o, (u64) x.has_value());
    if (x.has_value()) { put(o, x.value().first); put(o, x.value().second); }
}
constexpr void more(Obs& o, const ipv4_address& x) { put(o, (u64) (uint32_t) x); }
constexpr void more(Obs& o, const ipv6_address& x) { put(o, (u64) x.is_site_local()); put(o, x.ipv4_mapped()); put(o, x.sixtofour()); put(o, x.teredo()); }
constexpr void more(Obs& o, const ip_address& x) {
    put(o, (u64) x.is_site_local()); put(o, x.ipv4_mapped()); put(o, x.sixtofour()); put(o, x.teredo()); put(o, (u64) x.to_uint32()); put(o, x.to_uint128()); put(o, x.get_scope_id());
    put(o, (u64) x.is_v6());
}
template <typename A> constexpr void full(Obs& o, const A& x) {
    put(o, x);
    kinds(o, x);
    more(o, x);
    put(o, (u64) x.hash());
    put(o, (u64) x.size());
    for (size_t i = 0; i < x.size(); ++i) put(o, (u64) x.data()[i]);
}
template <typename N> constexpr void fulln(Obs& o, const N& x) {
    put(o, x);
    kinds(o, x);
    put(o, x.broadcast_address()); put(o, x.netmask()); put(o, x.hostmask());
    put(o, uint128_t(x.addresses_count()));
    put(o, (u64) x.hash());
}
template <typename T> constexpr void rel(Obs& o, const T& a, const T& b) {
    put(o, (u64) (a == b) | (u64) (a != b) << 1 | (u64) (a < b) << 2 | (u64) (a <= b) << 3 | (u64) (a > b) << 4 | (u64) (a >= b) << 5);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    put(o, (u64) ((a <=> b) < 0) | (u64) ((a <=> b) == 0) << 1);
#endif
}
constexpr void full(Obs& o, const ipv4_network& x) { fulln(o, x); }
constexpr void full(Obs& o, const ipv6_network& x) { fulln(o, x); }
constexpr void full(Obs& o, const ip_network& x) { fulln(o, x); put(o, (u64) x.is_v4()); put(o, (u64) x.is_site_local()); put(o, x.v4()); put(o, x.v6()); }

// ---- making values --------------------------------------------------------------------------------------
template <typename A> struct Mk;
template <> struct Mk<ipv4_address> {
    static constexpr ipv4_address a(u64, u64 lo, u64) { return ipv4_address::from_uint((uint32_t) lo); }
    static constexpr size_t bits(u64) { return 32; }
    typedef ipv4_network net;
};
template <> struct Mk<ipv6_address> {
    static constexpr ipv6_address a(u64 hi, u64 lo, u64) { return ipv6_address::from_uint(wide(hi, lo)); }
    static constexpr size_t bits(u64) { return 128; }
    typedef ipv6_network net;
};
template <> struct Mk<ip_address> {
    static constexpr ip_address a(u64 hi, u64 lo, u64 v4) { return v4 ? ip_address(ipv4_address::from_uint((uint32_t) lo)) : ip_address(ipv6_address::from_uint(wide(hi, lo))); }
    static constexpr size_t bits(u64 v4) { return v4 ? 32 : 128; }
    typedef ip_network net;
};
template <typename C> struct Text { C c[WIDTH] = {}; };
// the text in another character type; the code unit at n[0] is replaced by n[1] when n[1] is not zero
template <typename C> constexpr Text<C> text(const In& in) {
    Text<C> r{};
    for (int i = 0; i < WIDTH; ++i) r.c[i] = (C) (unsigned char) in.t[i];
    if (in.n[1] && in.n[0] < WIDTH - 1) r.c[in.n[0]] = (C) in.n[1];
    return r;
}

// ---- operations --------------------------------------------------------------------------------------------
template <typename T, typename C> constexpr void parse_addr(const In& in, Obs& o) {
    const Text<C> t = text<C>(in);
    error_code e = error_code::no_error;
    const T x = T::parse(t.c, e);
    put(o, e);
    if (e != error_code::no_error) return;
    full(o, x);
    const T y = T::parse(t.c);
    put(o, y);
#if __cplusplus >= 201703L
    size_t n = 0;
    while (t.c[n]) ++n;
    put(o, T::parse(std::basic_string_view<C>(t.c, n), e));
    put(o, e);
    put(o, T::parse(std::basic_string_view<C>(t.c, n)));
#endif
}
template <typename T, typename C> constexpr void parse_net(const In& in, Obs& o) {
    const Text<C> t = text<C>(in);
    for (int strict = 0; strict < 2; ++strict) {
        error_code e = error_code::no_error;
        const T x = T::parse(t.c, e, strict != 0);
        put(o, e);
        if (e != error_code::no_error) continue;
        full(o, x);
        put(o, T::parse(t.c, strict != 0));
#if __cplusplus >= 201703L
        size_t n = 0;
        while (t.c[n]) ++n;
        put(o, T::parse(std::basic_string_view<C>(t.c, n), e, strict != 0));
        put(o, e);
        put(o, T::parse(std::basic_string_view<C>(t.c, n), strict != 0));
#endif
    }
}
template <typename C> constexpr void parsing(const In& in, Obs& o) {
    switch (in.n[2] % 6) {
        case 0: return parse_addr<ipv4_address, C>(in, o);
        case 1: return parse_addr<ipv6_address, C>(in, o);
        case 2: return parse_addr<ip_address, C>(in, o);
        case 3: return parse_net<ipv4_network, C>(in, o);
        case 4: return parse_net<ipv6_network, C>(in, o);
        default: return parse_net<ip_network, C>(in, o);
    }
}
template <typename A> constexpr void values(const In& in, Obs& o) {
    const A x = Mk<A>::a(in.n[0], in.n[1], in.n[4] & 1), y = Mk<A>::a(in.n[2], in.n[3], in.n[4] >> 1 & 1);
    full(o, x);
    rel(o, x, y);
    rel(o, y, x);
    A p = x, q = y;
    p.swap(q);
    put(o, p);
    put(o, q);
    const A z = x;
    p = z;
    put(o, p);
    put(o, (u64) std::hash<A>{}(x));
}
constexpr void bytes(const In& in, Obs& o) {
    uint8_t b[20] = {};
    for (int i = 0; i < 8; ++i) { b[i] = (uint8_t) (in.n[0] >> 8 * i); b[8 + i] = (uint8_t) (in.n[1] >> 8 * i); }
    const size_t len = (size_t) in.n[2] % 20;
    full(o, ipv4_address::from_bytes(b, len));
    full(o, ipv6_address::from_bytes(b, len));
    full(o, ip_address::from_bytes(b, len, in.n[3] & 1 ? ip_version::V4 : ip_version::V6));
    full(o, ip_address::from_uint((uint32_t) in.n[0]));
    full(o, ip_address::from_uint(wide(in.n[0], in.n[1])));
}
constexpr void scopes(const In& in, Obs& o) {
    ipv6_address x = ipv6_address::from_uint(wide(in.n[2], in.n[3]));
    ip_address y(x);
    error_code e = error_code::no_error;
    char t[17] = {};
    char16_t w[17] = {};
    for (int i = 0; i < 16; ++i) { t[i] = in.t[i]; w[i] = (char16_t) (unsigned char) in.t[i]; }
    x.set_scope_id(t, e);
    put(o, e);
    if (e == error_code::no_error) y.set_scope_id(t);
    full(o, x);
    full(o, y);
    const ipv6_address z = ipv6_address::from_uint(wide(in.n[2], in.n[3]));
    rel(o, x, z);
    ipv6_address v = z;
    v.set_scope_id(w, e);
    put(o, e);
    full(o, v);
    rel(o, x, v);
}
template <typename A> constexpr void networks(const In& in, Obs& o) {
    typedef typename Mk<A>::net N;
    const u64 v4 = in.n[5] & 1, w4 = in.n[5] >> 1 & 1;
    const A a = Mk<A>::a(in.n[0], in.n[1], v4), b = Mk<A>::a(in.n[2], in.n[3], w4);
    const size_t p = (size_t) (in.n[4] & 255), q = (size_t) (in.n[4] >> 8 & 255), d = (size_t) (in.n[4] >> 16 & 255), m = (size_t) (in.n[4] >> 24 & 255);
    error_code e = error_code::no_error;
    const N x = N::from_address(a, e, p, false);
    put(o, e);
    if (e != error_code::no_error) return;
    const N y = N::from_address(b, e, q, false);
    put(o, e);
    if (e != error_code::no_error) return;
    (void) N::from_address(a, e, p, true);
    put(o, e);
    full(o, x);
    full(o, y);
    rel(o, x, y);
    put(o, (u64) x.contains(a) | (u64) x.contains(b) << 1 | (u64) y.contains(a) << 2 | (u64) x.overlaps(y) << 3 | (u64) x.subnet_of(y) << 4 | (u64) x.supernet_of(y) << 5);
    N s = x, t = y;
    s.swap(t);
    put(o, s);
    put(o, t);
    put(o, (u64) std::hash<N>{}(x));
    // supernets
    put(o, x.supernet(e, d));
    put(o, e);
    put(o, x.supernet(e, 0, optional<size_t>(m)));
    put(o, e);
    // subnets
    {
        const auto all = m & 1 ? x.subnets(e, d) : x.subnets(e, 0, optional<size_t>(m));
        put(o, e);
        if (e == error_code::no_error && !all.empty()) {
            auto it = all.begin();
            const auto end = all.end();
            for (int i = 0; i < 5 && it != end; ++i, ++it) put(o, *it);
            put(o, *all.rbegin());
            put(o, all.front());
            put(o, all.back());
            put(o, uint128_t(all.end().uint_diff(all.begin())));
            const auto mid = all.end().uint_diff(all.begin()) / 2;
            if (mid != 0) { put(o, all[mid]); auto j = all.begin(); j += mid; put(o, *j); --j; put(o, *j); }
        }
    }
    // hosts
    {
        const auto all = x.hosts();
        put(o, (u64) all.empty());
        auto it = all.begin();
        const auto end = all.end();
        for (int i = 0; i < 5 && it != end; ++i, ++it) put(o, *it);
        if (!all.empty()) {
            auto r = all.rbegin();
            const auto rend = all.rend();
            for (int i = 0; i < 3 && r != rend; ++i, ++r) put(o, *r);
            put(o, all.front());
            put(o, all.back());
        }
    }
}
template <typename A> constexpr void exclude(const In& in, Obs& o) {
    typedef typename Mk<A>::net N;
    const u64 v4 = in.n[5] & 1;
    const size_t bits = Mk<A>::bits(v4), p = (size_t) (in.n[4] & 255) % (bits + 1), q = p + (size_t) (in.n[4] >> 8 & 255) % (bits + 1 - p);
    error_code e = error_code::no_error;
    const N x = N::from_address(Mk<A>::a(in.n[0], in.n[1], v4), e, p, false);
    const N y = N::from_address(Mk<A>::a(in.n[0], in.n[1] ^ in.n[3], v4), e, q, false);
    put(o, e);
    const auto all = x.address_exclude(y, e);
    put(o, e);
    if (e != error_code::no_error) return;
    auto it = all.begin();
    const auto end = all.end();
    for (int i = 0; i < 140 && it != end; ++i, ++it) put(o, *it);
}
template <typename N> constexpr void summarised(Obs& o, const N& s) {
    auto it = s.begin();
    const auto end = s.end();
    for (int i = 0; i < 300 && it != end; ++i, ++it) put(o, *it);
}
constexpr void iterators(const In& in, Obs& o) {
    // n[4]: a history of steps on the hosts of a network
    error_code e = error_code::no_error;
    const ipv6_network x = ipv6_network::from_address(ipv6_address::from_uint(wide(in.n[0], in.n[1])), e, 64 + (size_t) (in.n[5] % 60), false);
    const ipv4_network y = ipv4_network::from_address(ipv4_address::from_uint((uint32_t) in.n[1]), e, (size_t) (in.n[5] % 28), false);
    const auto hx = x.hosts();
    const auto hy = y.hosts();
    const auto hz = ip_network(x).hosts();
    auto ix = hx.begin();
    auto iy = hy.begin();
    auto iz = hz.begin();
    u64 h = in.n[4];
    int64_t at = 0;
    for (int i = 0; i < 16; ++i, h >>= 4) {
        int64_t step = (int64_t) (h & 7);
        if ((h & 8) && at >= step) step = -step;
        if (at + step > 12) step = 0;
        at += step;
        switch (h & 3) {
            case 0: ix += step; iy += step; iz += step; break;
            case 1: ix = ix + step; iy = step + iy; iz = iz + step; break;
            case 2: ix -= -step; iy = iy - -step; iz -= -step; break;
            default:
                for (int64_t k = 0; k < step; ++k) { ++ix; iy++; ++iz; }
                for (int64_t k = 0; k > step; --k) { --ix; iy--; --iz; }
        }
        put(o, *ix);
        put(o, *iy);
        put(o, *iz);
        put(o, (u64) (ix - hx.begin()));
        put(o, (u64) (iy - hy.begin()));
        put(o, (u64) (iz - hz.begin()));
        put(o, (u64) (ix < hx.begin() + 3) | (u64) (iy == hy.begin()) << 1 | (u64) (iz >= hz.begin() + 2) << 2);
        put(o, hx[at]);
        put(o, hy[at]);
        put(o, hz[at]);
    }
}
constexpr void uints(const In& in, Obs& o) {
    const uint128_t a = wide(in.n[0], in.n[1]), b = wide(in.n[2], in.n[3]);
    const int sh = (int) (in.n[4] % 128);
    put(o, a + b); put(o, a - b); put(o, a * b);
    if (b != 0) { put(o, a / b); put(o, a % b); }
    if (in.n[3]) { put(o, a / (uint64_t) in.n[3]); put(o, a % (uint64_t) in.n[3]); }
    put(o, a & b); put(o, a | b); put(o, a ^ b); put(o, ~a); put(o, -a); put(o, +a);
    put(o, a << sh); put(o, a >> sh);
    rel(o, a, b);
    put(o, (u64) !a | (u64) (a && b) << 1 | (u64) (a || b) << 2);
    uint128_t c = a;
    put(o, c++); put(o, ++c); put(o, c--); put(o, --c);
    c += b; c -= a; c *= b; c <<= sh; c >>= sh / 2; c ^= a; c |= b; c &= a;
    put(o, c);
    put(o, (u64) (uint64_t) a); put(o, (u64) (uint32_t) a); put(o, (u64) (uint8_t) a); put(o, (u64) (long long) a); put(o, (u64) (int) a); put(o, (u64) (bool) a);
    put(o, (u64) a.hash());
    put(o, (u64) (a < in.n[3]) | (u64) (in.n[1] == a) << 1);
    put(o, uint128_t(-1)); put(o, uint128_t((int) in.n[3])); put(o, uint128_t((uint32_t) in.n[3]));
    put(o, std::numeric_limits<uint128_t>::max());
}
constexpr void uint_text(const In& in, Obs& o) {
    const Text<char> t = text<char>(in);
    const Text<char32_t> w = text<char32_t>(in);
    put(o, uint128_t::from_string(t.c));
    put(o, uint128_t::from_string(t.c, uint128_t::format::hexadecimal));
    put(o, uint128_t::from_string(t.c, uint128_t::format::octal));
    put(o, uint128_t::from_string(w.c));
}
constexpr void strings(const In& in, Obs& o) {
    const Text<char> t = text<char>(in);
    error_code e = error_code::no_error;
    const fixed_string<WIDTH - 1> x = make_fixed_string(t.c, e);
    put(o, e);
    put(o, (u64) x.size()); put(o, (u64) x.empty()); put(o, (u64) x.hash());
    for (size_t i = 0; i < x.size(); ++i) put(o, (u64) (unsigned char) x[i]);
    In other = in;
    other.t[in.n[3] % 8] = (char) (in.n[4] % 128);
    const fixed_string<WIDTH - 1> y = make_fixed_string(other.t, e);
    put(o, e);
    rel(o, x, y);
    fixed_string<WIDTH - 1> p = x, q = y;
    p.swap(q);
    put(o, (u64) p.hash());
    byte_array<16> a{}, b{};
    for (size_t i = 0; i < 16; ++i) { a[i] = (uint8_t) in.t[i]; b[i] = (uint8_t) other.t[i]; }
    rel(o, a, b);
    a.swap(b);
    for (auto it = a.begin(); it != a.end(); ++it) put(o, (u64) *it);
    optional<size_t> z = nullptr;
    put(o, (u64) z.has_value());
    z = optional<size_t>((size_t) in.n[3]);
    put(o, (u64) z.value());
    const optional<size_t> w = z;
    put(o, (u64) w.value());
}

constexpr unsigned OPS = 17;
constexpr Obs run(const In& in) {
    Obs o{};
    switch (in.op) {
        case 0: parsing<char>(in, o); break;
        case 1: parsing<wchar_t>(in, o); break;
        case 2: parsing<char16_t>(in, o); break;
        case 3: parsing<char32_t>(in, o); break;
        case 4: values<ipv4_address>(in, o); break;
        case 5: values<ipv6_address>(in, o); break;
        case 6: values<ip_address>(in, o); break;
        case 7: bytes(in, o); break;
        case 8: scopes(in, o); break;
        case 9: networks<ipv4_address>(in, o); break;
        case 10: networks<ipv6_address>(in, o); break;
        case 11: networks<ip_address>(in, o); break;
        case 12: if (in.n[5] & 2) exclude<ip_address>(in, o); else if (in.n[5] & 1) exclude<ipv4_address>(in, o); else exclude<ipv6_address>(in, o); break;
        case 13: iterators(in, o); break;
        case 14: uints(in, o); break;
        case 15: uint_text(in, o); break;
        default: strings(in, o); break;
    }
    return o;
}

// ---- texts in source: literals and constant calls of parse ------------------------------------------------
struct Row {
    In in;
    Obs out;
};
struct Lit {
    unsigned type;    // 0..5: the six types
    int strict;
    const char* form;
    const char* text;
    int ok;           // the expression is a constant expression
    Obs out;          // and what it gives
};
struct Table {
    const In* in;
    const Obs* out;
    unsigned n;
    const Lit* lit;
    unsigned nl;
};
template <typename T> constexpr Obs obs(const T& x) {
    Obs o{};
    full(o, x);
    return o;
}
struct ConstantCheck {
    int ok;
    Obs o;
};
template <typename...> struct Void { typedef void type; };
template <typename F, typename C, size_t N, const C (&A)[N], typename = void> struct L {
    static constexpr ConstantCheck get() { return ConstantCheck{0, Obs{}}; }
};
template <typename F, typename C, size_t N, const C (&A)[N]> struct L<F, C, N, A, typename Void<std::integral_constant<bool, ((void) F::template get<C, N, A>(), true)>>::type> {
    static constexpr ConstantCheck get() { return ConstantCheck{1, obs(F::template get<C, N, A>())}; }
};
template <typename T> struct FArray { template <typename C, size_t N, const C (&A)[N]> static constexpr T get() { return T::parse(A); } };
template <typename T> struct FLoose { template <typename C, size_t N, const C (&A)[N]> static constexpr T get() { return T::parse(A, false); } };
#if __cplusplus >= 201703L
template <typename T> struct FView { template <typename C, size_t N, const C (&A)[N]> static constexpr T get() { return T::parse(std::basic_string_view<C>(A, N - 1)); } };
template <typename T> struct FLooseView { template <typename C, size_t N, const C (&A)[N]> static constexpr T get() { return T::parse(std::basic_string_view<C>(A, N - 1), false); } };
#else
template <typename T> struct FView : FArray<T> {};
template <typename T> struct FLooseView : FLoose<T> {};
#endif
// the forms that are immediate functions of a template argument must stand in the immediate context themselves
#ifdef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <typename T> struct FParam {};
template <typename T> struct FLooseParam {};
#define CT_IMMEDIATE(HEAD, FORM, EXPR) \
    template <HEAD typename C, size_t N, const C (&A)[N]> struct L<FORM, C, N, A, typename Void<std::integral_constant<bool, ((void) EXPR, true)>>::type> { \
        static constexpr ConstantCheck get() { return ConstantCheck{1, obs(EXPR)}; } \
    };
#define CT_COMMA ,
CT_IMMEDIATE(typename T CT_COMMA, FParam<T>, (T::template parse<make_fixed_string(A)>()))
CT_IMMEDIATE(typename T CT_COMMA, FLooseParam<T>, (T::template parse<make_fixed_string(A) CT_COMMA false>()))
#define CT_SUFFIX(NAME, OP) struct NAME {}; CT_IMMEDIATE(, NAME, (OP<make_fixed_string(A)>()))
#else
template <typename T> struct FParam : FArray<T> {};
template <typename T> struct FLooseParam : FLoose<T> {};
#define CT_SUFFIX(NAME, OP) struct NAME { template <typename C, size_t N, const C (&A)[N]> static constexpr auto get() { return OP(A, N - 1); } };
#endif
CT_SUFFIX(Suffix0, operator""_ipv4)
CT_SUFFIX(Suffix1, operator""_ipv6)
CT_SUFFIX(Suffix2, operator""_ip)
CT_SUFFIX(Suffix3, operator""_ipv4_net)
CT_SUFFIX(Suffix4, operator""_ipv6_net)
CT_SUFFIX(Suffix5, operator""_net)
template <typename F, typename C, size_t N, const C (&A)[N]> constexpr ConstantCheck constant() { return L<F, C, N, A>::get(); }

// ---- run time ---------------------------------------------------------------------------------------------------
template <typename T> __attribute__((noinline)) T opaque(const T& x) {
    T r = x;
    asm volatile("" : : "r"(&r) : "memory");
    return r;
}
inline std::string show(const Obs& o) {
    char b[32];
    std::string r = std::to_string(o.k) + " values, hash ";
    std::snprintf(b, sizeof b, "%016llx:", o.h);
    r += b;
    for (unsigned i = 0; i < 8 && i < o.k; ++i) { std::snprintf(b, sizeof b, " %llx", o.v[i]); r += b; }
    return r;
}
inline bool report(unsigned id, const char* what, const Obs& c, const Obs& r) {
    if (same(c, r)) return true;
    std::printf("DIFFERS %u %s\n  compile time: %s\n  run time:     %s\n", id, what, show(c).c_str(), show(r).c_str());
    return false;
}
}  // namespace ct
