#include "entry.hpp"
using namespace m;

#define ORDER_CHECK(c, a, b, want, ...) do { \
    const int w_ = (want); \
    REQ_EQ(c, (a) < (b), w_ < 0, __VA_ARGS__); \
    REQ_EQ(c, (a) > (b), w_ > 0, __VA_ARGS__); \
    REQ_EQ(c, (a) <= (b), w_ <= 0, __VA_ARGS__); \
    REQ_EQ(c, (a) >= (b), w_ >= 0, __VA_ARGS__); \
    REQ_EQ(c, (a) == (b), w_ == 0, __VA_ARGS__); \
    REQ_EQ(c, (a) != (b), w_ != 0, __VA_ARGS__); } while (0)

template <typename T> static void pair(Ctx& c, const T& a, const T& b, int want, const std::string& what) {
    ORDER_CHECK(c, a, b, want, what);
#if HAS_SPACESHIP
    const auto o = a <=> b;
    REQ_EQ(c, o < 0, want < 0, "<=> less: ", what);
    REQ_EQ(c, o == 0, want == 0, "<=> equal: ", what);
    REQ_EQ(c, o > 0, want > 0, "<=> greater: ", what);
#endif
    REQ_EQ(c, std::less<T>()(a, b), want < 0, "std::less: ", what);
    REQ_EQ(c, std::max(a, b) == (want < 0 ? b : a), true, "std::max: ", what);
}
// a scope id with any bytes the configuration accepts
std::string any_scope(Src& s) { return s.flip() ? g::ascii_scope(s) : g::good_scope(s); }
// an address close to a: same, one bit or one byte off, same value in the other version, other scope id
static Addr near(Src& s, const Addr& a, bool any) {
    Addr b = a;
    static const unsigned w[] = {2, 4, 3, 3, 2, 2};
    switch (s.weighted(w)) {
        case 0: break;
        case 1: b.v ^= (u128) 1 << s.below((size_t) a.bits()); break;
        case 2: { int sh = 8 * (int) s.below((size_t) a.bits() / 8); b.v = (b.v & ~((u128) 255 << sh)) | (u128) s.byte() << sh; break; }
        case 3: if (a.ver == 6) b.scope = s.flip() ? any_scope(s) : a.scope.empty() ? any_scope(s) : s.flip() ? a.scope.substr(0, a.scope.size() - 1) : (a.scope + "z").substr(0, SCOPE_MAX); else b.v = ~b.v & ones(32); break;
        case 4: if (any) { b = a.ver == 4 ? Addr(6, a.v << (s.flip() ? 96 : 0)) : Addr(4, s.flip() ? a.v & ones(32) : a.v >> 96); } else b.v = (b.v + 1) & ones(b.bits()); break;
        default: return any ? g::addr(s) : a.ver == 4 ? g::addr4(s) : g::addr6(s);
    }
    return b;
}
template <typename A> static void addresses(Src& s, Ctx& c, bool any) {
    const Addr ma = g::AddrGen<A>::gen(s), mb = near(s, ma, any), mc = near(s, s.flip() ? ma : mb, any);
    NOTE(c, ma, " ", mb, " ", mc);
    if (ma != mb || mb != mc) c.nontrivial();
    const A a = Mk<A>::from(ma), b = Mk<A>::from(mb), d = Mk<A>::from(mc);
    SUB(c, pair(c, a, b, cmp_addr(ma, mb), str(ma, " ", mb)));
    SUB(c, pair(c, b, a, cmp_addr(mb, ma), str(mb, " ", ma)));
    SUB(c, pair(c, b, d, cmp_addr(mb, mc), str(mb, " ", mc)));
    SUB(c, pair(c, a, d, cmp_addr(ma, mc), str(ma, " ", mc)));
    SUB(c, pair(c, a, a, 0, str(ma, " with itself")));
    REQ(c, !(a < b && b < d) || a < d, "transitivity of < on ", ma, " ", mb, " ", mc);
    REQ(c, !(a == b && b == d) || a == d, "transitivity of == on ", ma, " ", mb, " ", mc);
    c.obs((u64) (a < b) | (u64) (b < d) << 1 | (u64) (a < d) << 2);
}
static void v4(Src& s, Ctx& c) { addresses<ipv4_address>(s, c, false); }
static void v6(Src& s, Ctx& c) { addresses<ipv6_address>(s, c, false); }
static void any(Src& s, Ctx& c) { addresses<ip_address>(s, c, true); }
// version-specific against version-agnostic
static void mixed(Src& s, Ctx& c) {
    const Addr ma = g::addr4(s), mb = s.flip() ? near(s, ma, true) : g::addr(s), mc = g::addr6(s), md = s.flip() ? near(s, mc, true) : g::addr(s);
    NOTE(c, ma, " ", mb, " ", mc, " ", md);
    c.nontrivial();
    ORDER_CHECK(c, lib(mb), lib4(ma), cmp_addr(mb, ma), "ip_address against ipv4_address ", mb, " ", ma);
    ORDER_CHECK(c, lib(md), lib6(mc), cmp_addr(md, mc), "ip_address against ipv6_address ", md, " ", mc);
}
static Net near_net(Src& s, const Net& n, bool any) {
    Net r = n;
    switch (s.below(4)) {
        case 0: r.p = g::prefix(s, n.bits()); break;
        case 1: return g::relative(s, n);
        case 2: r.a = near(s, n.a, any); if (r.p > r.bits()) r.p = r.bits(); break;
        default: r.a = near(s, n.a, any); r.p = g::prefix(s, r.bits());
    }
    const u128 v = r.a.v & maskof(r.bits(), r.p);
    if (v != r.a.v) { r.a.v = v; r.a.scope.clear(); }
    return r;
}
template <typename N> static void networks(Src& s, Ctx& c, bool any) {
    const Net ma = g::NetGen<N>::gens(s), mb = near_net(s, ma, any), mc = near_net(s, s.flip() ? ma : mb, any);
    NOTE(c, ma, " ", mb, " ", mc);
    if (!(ma == mb) || !(mb == mc)) c.nontrivial();
    const N a = mknet<N>(ma), b = mknet<N>(mb), d = mknet<N>(mc);
    SUB(c, pair(c, a, b, cmp_net(ma, mb), str(ma, " ", mb)));
    SUB(c, pair(c, b, a, cmp_net(mb, ma), str(mb, " ", ma)));
    SUB(c, pair(c, b, d, cmp_net(mb, mc), str(mb, " ", mc)));
    SUB(c, pair(c, a, d, cmp_net(ma, mc), str(ma, " ", mc)));
    SUB(c, pair(c, a, a, 0, str(ma, " with itself")));
    REQ(c, !(a < b && b < d) || a < d, "transitivity of < on ", ma, " ", mb, " ", mc);
    c.obs((u64) (a < b) | (u64) (b < d) << 1 | (u64) (a < d) << 2);
}
static void net4(Src& s, Ctx& c) { networks<ipv4_network>(s, c, false); }
static void net6(Src& s, Ctx& c) { networks<ipv6_network>(s, c, false); }
static void netany(Src& s, Ctx& c) { networks<ip_network>(s, c, true); }
static bool addr_less(const Addr& a, const Addr& b) { return cmp_addr(a, b) < 0; }
static bool net_less(const Net& a, const Net& b) { return cmp_net(a, b) < 0; }
static void sorting(Src& s, Ctx& c) {
    std::vector<Addr> mv;
    std::vector<ip_address> lv;
    std::vector<Net> mn;
    std::vector<ip_network> ln;
    const size_t n = s.range(2, 24);
    for (size_t i = 0; i < n; ++i) {
        mv.push_back(i && s.flip() ? near(s, mv[s.below(i)], true) : g::addr(s));
        lv.push_back(lib(mv.back()));
        mn.push_back(i && s.flip() ? near_net(s, mn[s.below(i)], true) : s.flip() ? g::net6s(s) : g::net4(s));
        ln.push_back(mknet<ip_network>(mn.back()));
    }
    c.nontrivial();
    NOTE(c, n, " values");
    std::sort(mv.begin(), mv.end(), addr_less);
    std::sort(lv.begin(), lv.end());
    std::sort(mn.begin(), mn.end(), net_less);
    std::sort(ln.begin(), ln.end());
    for (size_t i = 0; i < n; ++i) {
        REQ_EQ(c, obs(lv[i]), mv[i], "sorted addresses, position ", i);
        REQ_EQ(c, obs(ln[i]), mn[i], "sorted networks, position ", i);
    }
}
static const pbt::Facet F[] = {{"v4", 3, v4}, {"v6", 5, v6}, {"any", 4, any}, {"mixed", 2, mixed}, {"net4", 3, net4}, {"net6", 4, net6}, {"netany", 3, netany}, {"sorting", 1, sorting}};
PBT_MAIN("P08", F)
