#include "entry.hpp"
using namespace m;

template <typename N> static void attributes(Ctx& c, const N& n, const Net& m, const std::string& how) {
    const int ver = m.a.ver, bits = m.bits();
    REQ_EQ(c, obs(n), m, how);
    REQ_EQ(c, n.prefixlen(), (size_t) m.p, how, " prefixlen of ", m);
    REQ_EQ(c, obs(n.netmask()), Addr(ver, maskof(bits, m.p)), how, " netmask of ", m);
    REQ_EQ(c, obs(n.hostmask()), Addr(ver, ones(bits - m.p)), how, " hostmask of ", m);
    REQ_EQ(c, obs(n.network_address()), m.a, how, " network_address of ", m);
    REQ_EQ(c, dec(obs(n.broadcast_address()).v), dec(m.last()), how, " broadcast_address of ", m);
    REQ_EQ(c, obs(n.broadcast_address()).ver, ver, how, " broadcast_address of ", m);
    const int tb = bits - m.p;  // 2^tb in the count type
    const int cbits = (int) sizeof(n.addresses_count()) * 8;
    const u128 count = tb >= 128 || (tb >= cbits) ? 0 : (u128) 1 << tb;
    REQ_EQ(c, dec(val(n.addresses_count())), dec(count), how, " addresses_count of ", m);
    REQ_EQ(c, (int) n.version(), ver, how, " version");
    REQ_EQ(c, (int) n.size(), bits / 8, how, " size");
}
// the version-agnostic count is the version-specific one, widened: IPv4 /0 still wraps to 0
static void attributes_any(Ctx& c, const ip_network& n, const Net& m, const std::string& how) {
    const int ver = m.a.ver, bits = m.bits();
    REQ_EQ(c, obs(n), m, how);
    REQ_EQ(c, n.prefixlen(), (size_t) m.p, how, " prefixlen of ", m);
    REQ_EQ(c, obs(n.netmask()), Addr(ver, maskof(bits, m.p)), how, " netmask of ", m);
    REQ_EQ(c, obs(n.hostmask()), Addr(ver, ones(bits - m.p)), how, " hostmask of ", m);
    REQ_EQ(c, obs(n.network_address()), m.a, how, " network_address of ", m);
    REQ_EQ(c, dec(obs(n.broadcast_address()).v), dec(m.last()), how, " broadcast_address of ", m);
    if (m.p > 0) REQ_EQ(c, dec(val(n.addresses_count())), dec((u128) 1 << (bits - m.p)), how, " addresses_count of ", m);
    REQ_EQ(c, (int) n.version(), ver, how, " version");
    REQ_EQ(c, (int) n.size(), bits / 8, how, " size");
    REQ_EQ(c, n.is_v4(), ver == 4, how, " is_v4");
    REQ_EQ(c, n.is_v6(), ver == 6, how, " is_v6");
}
static void show(Ctx& c, const ip_network& n, const Net& m, const std::string& how) { attributes_any(c, n, m, how); }
template <typename N> static void show(Ctx& c, const N& n, const Net& m, const std::string& how) { attributes<N>(c, n, m, how); }

static size_t any_prefix(Src& s, int bits) {
    if (s.below(6) != 5) return (size_t) g::prefix(s, bits);
    static const u64 far[] = {33, 64, 127, 128, 129, 255, 256, 257, 288, 65535, 65536, 65568, 1ULL << 31, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 8, (1ULL << 32) + 128, 1ULL << 63, ~0ULL, ~0ULL - 1};
    return s.flip() ? (size_t) bits + s.range(0, 4) : (size_t) s.pick(far);
}
template <typename N> static bool is_default(const N& n) { return n == N(); }
static bool is_default(const ip_network& n) { return n == ip_network() || n == ip_network(ipv6_network()); }
template <typename N> static void build(Src& s, Ctx& c, Addr a, const char* nm) {
    typedef typename Tr<N>::A A;
    const int bits = a.bits();
    const size_t p = any_prefix(s, bits);
    switch (s.below(4)) {
        case 0: if (p <= (size_t) bits) a.v &= maskof(bits, (int) p); break;
        case 1: if (p <= (size_t) bits) { a.v &= maskof(bits, (int) p); a.v ^= (u128) 1 << s.below((size_t) bits); } break;
        default: break;
    }
    const A addr = Mk<A>::from(a);
    NOTE(c, nm, " ", a, " /", p);
    for (int strict = 0; strict < 2; ++strict) {
        Net want;
        const bool ok = make_net(a, p, strict != 0, want);
        c.label(ok ? (strict ? "built strictly" : "built non-strictly") : p > (size_t) bits ? "refused: prefix" : "refused: host bits");
        if (ok && p > 0 && p < (size_t) bits) c.nontrivial();
        error_code e = stale(s);
        const N n = N::from_address(addr, e, p, strict != 0);
        REQ_EQ(c, e == error_code::no_error, ok, nm, "::from_address(", a, ", /", p, strict ? ", strict)" : ", non-strict)", " code ", (int) e);
        const error_code code = e;
        N t;
        Outcome o = attempt([&] { t = N::from_address(addr, p, strict != 0); });
        REQ_EQ(c, o.threw, THROWS && !ok, nm, "::from_address throwing form");
        if (o.threw) REQ_EQ(c, o.code, (int) code, nm, "::from_address throwing form code");
        if (strict) {  // strict is the default, in both forms, whatever is passed
            e = stale(s);
            const N d = N::from_address(addr, e, p);
            REQ_EQ(c, (int) e, (int) code, nm, "::from_address(", a, ", /", p, ") with the default strictness");
            REQ(c, d == n, nm, "::from_address with the default strictness gives ", obs(d));
            N dt;
            o = attempt([&] { dt = N::from_address(addr, p); });
            REQ_EQ(c, o.threw, THROWS && !ok, nm, "::from_address(", a, ", /", p, ") throwing form, default strictness");
            if (o.threw) REQ_EQ(c, o.code, (int) code, nm, "::from_address throwing form, default strictness: code");
            else REQ(c, dt == n, nm, "::from_address throwing form with the default strictness gives ", obs(dt));
        }
        if (ok) {
            SUB(c, show(c, n, want, nm));
            SUB(c, show(c, t, want, str(nm, " (throwing form)")));
            // the same network built from any of its addresses
            Addr in(a.ver, want.a.v | (g::number(s, bits) & ones(bits - (int) p)));
            N other = N::from_address(Mk<A>::from(in), e, p, false);
            Net w2;
            make_net(in, p, false, w2);
            REQ(c, e == error_code::no_error, "non-strict building from ", in);
            SUB(c, show(c, other, w2, str(nm, " built from ", in)));
        } else {
            // (the version-agnostic type reports the default network of the address's version)
            REQ(c, is_default(n) && is_default(t), nm, ": refused from_address must give the default network, got ", obs(n));
        }
    }
    c.obs((u64) p);
}
static void v4(Src& s, Ctx& c) { build<ipv4_network>(s, c, g::addr4(s), "ipv4_network"); }
static void v6(Src& s, Ctx& c) { build<ipv6_network>(s, c, g::addr6(s), "ipv6_network"); }
static void any(Src& s, Ctx& c) { build<ip_network>(s, c, g::addr(s), "ip_network"); }
// all prefixes of one address; neighbours in prefix nest and halve
template <typename N> static void ladder(Src& s, Ctx& c, const Addr& a, const char* nm) {
    typedef typename Tr<N>::A A;
    const int bits = a.bits();
    error_code e;
    NOTE(c, nm, " ", a, " all prefixes");
    c.nontrivial();
    for (int p = 0; p <= bits; ++p) {
        Net want;
        make_net(a, (u64) p, false, want);
        const N n = N::from_address(Mk<A>::from(a), e, (size_t) p, false);
        SUB(c, show(c, n, want, str(nm, " /", p)));
        REQ(c, n.contains(Mk<A>::from(a)), "contains the address it is built from");
        e = stale(s);
        N::from_address(Mk<A>::from(a), e, (size_t) p, true);
        REQ_EQ(c, e == error_code::no_error, want.a.v == a.v, "strict /", p);
    }
    const N d = N::from_address(Mk<A>::from(Addr(a.ver, a.v, a.scope)), e, (size_t) bits);
    REQ_EQ(c, obs(d), Net(a, bits), "single-address network");
}
static void ladder4(Src& s, Ctx& c) { Addr a = g::addr4(s); SUB(c, ladder<ipv4_network>(s, c, a, "ipv4_network")); error_code e; REQ_EQ(c, obs(ipv4_network::from_address(lib4(a), e)), Net(a, 32), "default prefix"); REQ_EQ(c, obs(ipv4_network::from_address(lib4(a))), Net(a, 32), "default prefix, throwing form"); }
static void ladder6(Src& s, Ctx& c) { Addr a = g::addr6(s); SUB(c, ladder<ipv6_network>(s, c, a, "ipv6_network")); error_code e; REQ_EQ(c, obs(ipv6_network::from_address(lib6(a), e)), Net(a, 128), "default prefix"); REQ_EQ(c, obs(ipv6_network::from_address(lib6(a))), Net(a, 128), "default prefix, throwing form"); }
static void parsed(Src& s, Ctx& c) {
    const Net m = s.flip() ? g::net6s(s) : g::net4(s);
    if (m.p && m.p < m.bits()) c.nontrivial();
    NOTE(c, m, " parsed");
    error_code e;
    const std::string t = fmt(m, (Fmt) s.below(3));
    SUB(c, show(c, ip_network::parse(t, e), m, "ip_network parsed"));
    if (m.a.ver == 4) SUB(c, show(c, ipv4_network::parse(t, e), m, "ipv4_network parsed"));
    if (m.a.ver == 6) SUB(c, show(c, ipv6_network::parse(t, e), m, "ipv6_network parsed"));
}
static const pbt::Facet F[] = {{"v4", 5, v4}, {"v6", 6, v6}, {"any", 4, any}, {"ladder4", 1, ladder4}, {"ladder6", 1, ladder6}, {"parsed", 3, parsed}};
PBT_MAIN("P10", F)
