#include "registry.hpp"
using namespace m;

template <typename N> static void check(Src& s, Ctx& c, const Net& n) {
    typedef typename Tr<N>::A A;
    const reg::Flags f = reg::of(n);
    const N x = mknet<N>(n);
    REQ_EQ(c, obs(x), n, "construction");
    SUB(c, reg::check(c, x, f, str(Tr<N>::name(), " ", n)));
    // however it was built
    error_code e;
    SUB(c, reg::check(c, N::parse(fmt(n, COMPRESSED), e), f, str("parsed ", Tr<N>::name(), " ", n)));
    const Addr in(n.a.ver, n.a.v | (g::number(s, n.bits()) & ones(n.bits() - n.p)));
    SUB(c, reg::check(c, N::from_address(Mk<A>::from(in), e, (size_t) n.p, false), f, str(Tr<N>::name(), " from ", in, "/", n.p)));
    if (n.p < n.bits()) {
        const Net child(Addr(n.a.ver, n.a.v | (s.flip() ? (u128) 1 << (n.bits() - n.p - 1) : 0)), n.p + 1);
        SUB(c, reg::check(c, mknet<N>(child).supernet(e), f, str("supernet of ", child)));
    }
    if (n.p > 0) {
        const Net parent(Addr(n.a.ver, n.a.v & maskof(n.bits(), n.p - 1)), n.p - 1);
        bool found = false;
        for (const auto& k : mknet<N>(parent).subnets(e, 1))
            if (k.network_address() == Mk<A>::from(Addr(n.a.ver, n.a.v))) { found = true; SUB(c, reg::check(c, k, f, str("subnet of ", parent))); }
        REQ(c, found, n, " among the subnets of ", parent);
    }
    SUB(c, reg::check(c, ip_network(x), f, str("ip_network of ", n)));
    // a single-address network is classified as its address, but for IPv4-mapped ones, which follow the network rule
    if (n.p == n.bits() && !(n.a.ver == 6 && (n.a.v >> 32) == 0xffff)) {
        const A a = Mk<A>::from(n.a);
        REQ_EQ(c, x.is_private(), a.is_private(), n, " private as its address");
        REQ_EQ(c, x.is_global(), a.is_global(), n, " global as its address");
        REQ_EQ(c, x.is_multicast(), a.is_multicast(), n, " multicast as its address");
    }
}
static void note(Ctx& c, const Net& n) {
    const reg::Flags f = reg::of(n);
    NOTE(c, n, " ", reg::classes(f));
    c.label(reg::classes(f));
    if (!f.global || f.reserved || f.multicast) c.nontrivial();
}
static void v4(Src& s, Ctx& c) { const Net n = g::net4(s); note(c, n); SUB(c, check<ipv4_network>(s, c, n)); }
static void v6(Src& s, Ctx& c) { const Net n = g::net6s(s); note(c, n); SUB(c, check<ipv6_network>(s, c, n)); }
// networks around a registry block: the block, its parents, halves, neighbours and single addresses at its ends
static void around(Src& s, Ctx& c) {
    const bool six = s.flip();
    const g::Block& b = s.pick(six ? g::blocks6() : g::blocks4());
    const int bits = six ? 128 : 32;
    const Net base(Addr(six ? 6 : 4, b.v), b.p);
    NOTE(c, "around ", base);
    c.nontrivial();
    for (int p = b.p - 3; p <= bits; p += p < b.p + 3 ? 1 : (int) s.range(1, 24)) {
        if (p < 0) continue;
        const u128 t[] = {b.v, base.last(), base.last() + 1, b.v - 1};
        for (size_t k = 0; k < 4; ++k) {
            const Net n(Addr(base.a.ver, t[k] & maskof(bits, p)), p);
            if (six) SUB(c, reg::check(c, mknet<ipv6_network>(n), reg::of(n), n));
            if (!six) SUB(c, reg::check(c, mknet<ipv4_network>(n), reg::of(n), n));
            SUB(c, reg::check(c, mknet<ip_network>(n), reg::of(n), n));
        }
    }
}
static const pbt::Facet F[] = {{"v4", 6, v4}, {"v6", 8, v6}, {"around", 2, around}};
PBT_MAIN("P18", F)
