#include "entry.hpp"
using namespace m;

static bool in(const Net& n, const Addr& a) { return n.a.ver == a.ver && n.first() <= a.v && a.v <= n.last(); }
static bool meet(const Net& x, const Net& y) { return x.a.ver == y.a.ver && x.first() <= y.last() && y.first() <= x.last(); }
static bool within(const Net& x, const Net& y) { return x.a.ver == y.a.ver && y.first() <= x.first() && x.last() <= y.last(); }

template <typename N> static void relations(Ctx& c, const Net& mx, const Net& my, const char* nm) {
    const N x = mknet<N>(mx), y = mknet<N>(my);
    REQ_EQ(c, x.overlaps(y), meet(mx, my), nm, " ", mx, " overlaps ", my);
    REQ_EQ(c, y.overlaps(x), meet(mx, my), nm, " ", my, " overlaps ", mx);
    REQ_EQ(c, x.subnet_of(y), within(mx, my), nm, " ", mx, " subnet_of ", my);
    REQ_EQ(c, y.subnet_of(x), within(my, mx), nm, " ", my, " subnet_of ", mx);
    REQ_EQ(c, x.supernet_of(y), within(my, mx), nm, " ", mx, " supernet_of ", my);
    REQ_EQ(c, y.supernet_of(x), within(mx, my), nm, " ", my, " supernet_of ", mx);
    REQ_EQ(c, x.subnet_of(x) && x.supernet_of(x) && x.overlaps(x), true, nm, " reflexivity of ", mx);
}
static Addr probe(Src& s, const Net& n) {
    const int bits = n.bits();
    Addr a(n.a.ver, 0);
    switch (s.below(6)) {
        case 0: a.v = n.first() + (g::number(s, bits) & ones(bits - n.p)); break;
        case 1: a.v = n.first() - 1; break;
        case 2: a.v = n.last() + 1; break;
        case 3: a.v = s.flip() ? n.first() : n.last(); break;
        case 4: a.v = (n.first() + (g::number(s, bits) & ones(bits - n.p))) ^ (u128) 1 << s.below((size_t) bits); break;
        default: a.v = bits == 32 ? g::value4(s) : g::value6(s);
    }
    a.v &= ones(bits);
    if (a.ver == 6 && s.below(4) == 3) a.scope = g::ascii_scope(s);
    return a;
}
template <typename N> static void member(Ctx& c, const Net& n, const Addr& a, const char* nm) {
    typedef typename Tr<N>::A A;
    REQ_EQ(c, mknet<N>(n).contains(Mk<A>::from(a)), in(n, a), nm, " ", n, " contains ", a);
    c.label(in(n, a) ? "inside" : "outside");
}
static void pairs4(Src& s, Ctx& c) {
    const Net x = g::net4(s), y = g::relative(s, x);
    NOTE(c, x, " ", y, meet(x, y) ? " meet" : " apart");
    c.label(within(x, y) || within(y, x) ? "nested" : "disjoint");
    if (x.p > 0 && y.p > 0) c.nontrivial();
    SUB(c, relations<ipv4_network>(c, x, y, "ipv4_network"));
    SUB(c, relations<ip_network>(c, x, y, "ip_network"));
}
static void pairs6(Src& s, Ctx& c) {
    const Net x = g::net6(s), y = g::relative(s, x);
    NOTE(c, x, " ", y, meet(x, y) ? " meet" : " apart");
    c.label(within(x, y) || within(y, x) ? "nested" : "disjoint");
    if (x.p > 0 && y.p > 0) c.nontrivial();
    SUB(c, relations<ipv6_network>(c, x, y, "ipv6_network"));
    SUB(c, relations<ip_network>(c, x, y, "ip_network"));
}
// across versions: never related, whatever the bits
static void cross(Src& s, Ctx& c) {
    const Net x = g::net4(s);
    Net y = g::net6(s);
    if (s.flip()) { y.p = x.p + (s.flip() ? 96 : 0); y.a = Addr(6, s.flip() ? x.a.v << 96 : y.p >= 96 ? x.a.v : 0); y.a.v &= maskof(128, y.p); }
    NOTE(c, x, " ", y);
    c.nontrivial();
    SUB(c, relations<ip_network>(c, x, y, "ip_network"));
    const Addr a = probe(s, x), b = probe(s, y);
    SUB(c, member<ip_network>(c, x, b, "ip_network"));
    SUB(c, member<ip_network>(c, y, a, "ip_network"));
}
static void members4(Src& s, Ctx& c) {
    const Net n = g::net4(s);
    const Addr a = probe(s, n);
    NOTE(c, n, in(n, a) ? " has " : " has not ", a);
    if (n.p > 0) c.nontrivial();
    SUB(c, member<ipv4_network>(c, n, a, "ipv4_network"));
    SUB(c, member<ip_network>(c, n, a, "ip_network"));
}
static void members6(Src& s, Ctx& c) {
    Net n = g::net6s(s);
    const Addr a = probe(s, n);
    NOTE(c, n, in(n, a) ? " has " : " has not ", a);
    if (n.p > 0) c.nontrivial();
    SUB(c, member<ipv6_network>(c, n, a, "ipv6_network"));
    SUB(c, member<ip_network>(c, n, a, "ip_network"));
}
// overlap is two-sided for networks with scope ids as well (ranges only)
static void scoped(Src& s, Ctx& c) {
    const Net x0 = g::net6(s);
    Net x = x0, y = g::relative(s, x0);
    x.a.scope = g::ascii_scope(s);
    if (s.flip()) y.a.scope = g::ascii_scope(s);
    NOTE(c, x, " ", y);
    if (x.p > 0 && y.p > 0) c.nontrivial();
    const ipv6_network a = mknet<ipv6_network>(x), b = mknet<ipv6_network>(y);
    REQ_EQ(c, a.overlaps(b), meet(x, y), x, " overlaps ", y);
    REQ_EQ(c, b.overlaps(a), meet(x, y), y, " overlaps ", x);
}
static const pbt::Facet F[] = {{"pairs4", 3, pairs4}, {"pairs6", 4, pairs6}, {"cross", 1, cross}, {"members4", 3, members4}, {"members6", 4, members6}, {"scoped", 1, scoped}};
PBT_MAIN("P11", F)
