#include "entry.hpp"
using namespace m;

template <typename A> struct W;
template <> struct W<ipv4_address> { static const int n = 4; typedef uint32_t U; static U num(u128 v) { return (uint32_t) v; } };
template <> struct W<ipv6_address> { static const int n = 16; typedef uint128_t U; static U num(u128 v) { return u(v); } };

static uint32_t to_num(const ip_address& a, const ipv4_address*) { return a.to_uint32(); }
static uint128_t to_num(const ip_address& a, const ipv6_address*) { return a.to_uint128(); }

template <typename A> static void check(Src& s, Ctx& c, const Addr& m) {
    NOTE(c, m);
    const int n = W<A>::n;
    const A fromu = A::from_uint(W<A>::num(m.v));
    typename A::base_type b = {};
    for (int i = 0; i < n; ++i) b[(size_t) i] = m.at(i);
    const A fromb = A::from_bytes(b), ctor(b);
    const uint8_t* const raw = b.data();
    const A fromp = A::from_bytes(raw, (size_t) n);
    REQ(c, fromu == fromb && fromb == ctor && fromp == fromb, "from_uint ", obs(fromu), " from_bytes ", obs(fromb), " from a pointer ", obs(fromp));
    REQ_EQ(c, dec(val(fromb.to_uint())), dec(m.v), "to_uint of ", m);
    REQ_EQ(c, dec(val((typename A::uint_type) fromb)), dec(m.v), "conversion to the integer of ", m);
    REQ_EQ(c, dec(val(fromu.to_uint())), dec(m.v), "to_uint(from_uint)");
    for (int i = 0; i < n; ++i) {
        REQ_EQ(c, (int) fromu.bytes()[(size_t) i], (int) m.at(i), "byte ", i, " of ", m);
        REQ_EQ(c, (int) fromu.data()[i], (int) m.at(i), "data()[", i, "] of ", m);
    }
    REQ_EQ(c, (int) fromu.version(), (int) (n == 4 ? 4 : 6), "version");
    REQ_EQ(c, (int) fromu.size(), n, "size");
    // version-agnostic
    const ip_address any = ip_address::from_bytes(raw, (size_t) n, n == 4 ? ip_version::V4 : ip_version::V6), anyu = ip_address::from_uint(W<A>::num(m.v)), anyb = ip_address::from_bytes(b);
    REQ(c, any == ip_address(fromb) && anyu == any && anyb == any, "ip_address from ", n, " bytes: ", obs(any), " from the integer: ", obs(anyu));
    REQ_EQ(c, obs(any), m, "ip_address");
    REQ_EQ(c, dec(val(to_num(any, (const A*) nullptr))), dec(m.v), "ip_address to integer");
    REQ_EQ(c, (int) any.size(), n, "ip_address size");
    for (int i = 0; i < n; ++i) REQ_EQ(c, (int) any.data()[i], (int) m.at(i), "ip_address data()[", i, "] of ", m);
    const uint128_t wide = any.to_uint128();
    REQ_EQ(c, dec(val(wide)), dec(m.v), "ip_address::to_uint128");
    // a second value: integer order equals byte order
    const Addr o = s.flip() ? Addr(m.ver, (m.v ^ (u128) 1 << s.below((size_t) m.bits()))) : g::AddrGen<A>::gen(s);
    const A other = Mk<A>::from(Addr(o.ver, o.v));
    const int bc = memcmp(fromb.data(), other.data(), (size_t) n);
    REQ_EQ(c, fromb.to_uint() < other.to_uint(), bc < 0, "integer order against byte order: ", m, " ", o);
    REQ_EQ(c, fromb.to_uint() == other.to_uint(), bc == 0, "integer equality against byte equality: ", m, " ", o);
    // short, exact and long buffers, in heap memory of exactly that size
    const size_t len = s.below(3) == 0 ? (size_t) n : s.below(24);
    std::vector<uint8_t> buf(len);
    for (size_t i = 0; i < len; ++i) buf[i] = s.flip() ? m.at((int) (i % (size_t) n)) : s.byte();
    u128 want = 0;
    for (int i = 0; i < n; ++i) want = want << 8 | ((size_t) i < len ? buf[(size_t) i] : 0);
    const A part = A::from_bytes(buf.data(), len);
    REQ_EQ(c, obs(part), Addr(m.ver, want), "from_bytes of ", len, " bytes");
    c.label(len < (size_t) n ? "short buffer" : len == (size_t) n ? "exact buffer" : "long buffer");
    const ip_address anyp = ip_address::from_bytes(buf.data(), len, n == 4 ? ip_version::V4 : ip_version::V6);
    REQ_EQ(c, obs(anyp), Addr(m.ver, want), "ip_address::from_bytes of ", len, " bytes");
    REQ_EQ(c, any.to_uint32(), (uint32_t) m.v, "ip_address::to_uint32 (low 32 bits)");
    REQ_EQ(c, (uint32_t) any, (uint32_t) m.v, "uint32_t conversion");
    REQ_EQ(c, dec(val((uint128_t) any)), dec(m.v), "uint128_t conversion");
    c.obs((u64) m.v);
}
static void v4(Src& s, Ctx& c) {
    const Addr m(4, g::value4(s));
    if (m.v > 255) c.nontrivial();
    check<ipv4_address>(s, c, m);
}
static void v6(Src& s, Ctx& c) {
    const Addr m(6, g::value6(s));
    if (m.v > 255) c.nontrivial();
    check<ipv6_address>(s, c, m);
}
// scope ids do not enter the numeric value
static void scoped(Src& s, Ctx& c) {
    const Addr m = g::addr6(s, 2);
    if (!m.scope.empty()) c.nontrivial();
    NOTE(c, m);
    const ipv6_address a = lib6(m);
    REQ_EQ(c, dec(val(a.to_uint())), dec(m.v), "to_uint of ", m);
    const ipv6_address b = ipv6_address::from_uint(a.to_uint()), d = ipv6_address::from_bytes(a.bytes()), e = ipv6_address::from_bytes(a.data(), a.size());
    REQ_EQ(c, obs(b), Addr(6, m.v), "from_uint(to_uint)");
    REQ_EQ(c, obs(d), Addr(6, m.v), "from_bytes(bytes)");
    REQ_EQ(c, obs(e), Addr(6, m.v), "from_bytes(data)");
    REQ_EQ(c, dec(val(ip_address(a).to_uint128())), dec(m.v), "ip_address::to_uint128");
}
// the byte-order helpers the conversions rest on
static void order(Src& s, Ctx& c) {
    const uint32_t x = (uint32_t) g::value4(s);
    if (x >> 24 != (x & 255)) c.nontrivial();
    NOTE(c, "swap_bytes ", x);
    REQ_EQ(c, ipaddress::swap_bytes(x), x >> 24 | (x >> 8 & 0xFF00u) | (x << 8 & 0xFF0000u) | x << 24, "swap_bytes");
    REQ_EQ(c, ipaddress::swap_bytes(ipaddress::swap_bytes(x)), x, "swap_bytes twice");
    uint32_t one = 1;
    uint8_t low = 0;
    memcpy(&low, &one, 1);
#ifndef NC_FLIPPED_ORDER // be11 declares the other order
    REQ_EQ(c, ipaddress::is_little_endian(), low == 1, "is_little_endian against the order of a word in memory");
#endif
    c.obs(x);
}
static const pbt::Facet F[] = {{"v4", 3, v4}, {"v6", 4, v6}, {"scoped", 1, scoped}, {"order", 1, order}};
PBT_MAIN("P07", F)
