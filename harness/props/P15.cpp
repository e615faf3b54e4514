#include "entry.hpp"
using namespace m;

// the remainder as the textbook algorithm gives it: walking down from the outer network, the half without the excluded network
static std::vector<Net> remainder(const Net& n, const Net& x) {
    std::vector<Net> r;
    const int bits = n.bits();
    for (int p = n.p + 1; p <= x.p; ++p) {
        const u128 v = (x.a.v & maskof(bits, p)) ^ (u128) 1 << (bits - p);
        r.push_back(Net(Addr(n.a.ver, v), p));
    }
    return r;
}
template <typename N> static void exclude(Src& s, Ctx& c, const Net& n, const Net& x, const char* nm) {
    const bool same_ver = n.a.ver == x.a.ver;
    const bool inside = same_ver && n.first() <= x.first() && x.last() <= n.last();
    const std::string what = str(nm, " ", n, " minus ", x);
    NOTE(c, what, inside ? "" : " refused");
    c.label(!inside ? "refused" : n.p == x.p ? "equal" : "split");
    error_code e = (error_code) s.below(30);
    const N net = mknet<N>(n), other = mknet<N>(x);
    const auto q = net.address_exclude(other, e);
    REQ_EQ(c, e == error_code::no_error, inside, what, " code ", (int) e);
    Outcome o = attempt([&] { const auto t = net.address_exclude(other); (void) t; });
    REQ_EQ(c, o.threw, THROWS && !inside, what, " throwing form");
    if (o.threw) REQ_EQ(c, o.code, (int) e, what, " throwing form");
    if (!inside) {
        if (same_ver) REQ_EQ(c, (int) e, (int) error_code::not_contained_network, what);
        if (!same_ver) REQ_EQ(c, (int) e, (int) error_code::invalid_version, what);
        REQ(c, q.begin() == q.end() && q.empty(), what, " a refused request must give an empty sequence");
        return;
    }
    std::vector<Net> got;
    const size_t want = (size_t) (x.p - n.p);
    if (want) c.nontrivial();
    REQ_EQ(c, q.empty(), want == 0, what, " empty()");
    for (auto it = q.begin(); it != q.end(); ++it) {
        got.push_back(obs(*it));
        REQ(c, got.size() <= want, what, " yields more than ", want, " networks");
    }
    REQ_EQ(c, got.size(), want, what, " number of networks by begin-to-end iteration");
    // post-increment, -> and a copy of the iterator see the same
    size_t k = 0;
    for (auto it = q.cbegin(); it != q.cend();) {
        const auto copy = it;
        REQ_EQ(c, it->prefixlen(), (size_t) got[k].p, what, " operator->");
        auto old = it++;
        REQ_EQ(c, obs(*old), got[k], what, " post-increment");
        REQ_EQ(c, obs(*copy), got[k], what, " copied iterator");
        REQ(c, old == copy && old != it, what, " iterator equality at ", k);
        ++k;
    }
    // set properties, independent of the order: disjoint, cover exactly, one per intermediate prefix
    std::vector<Net> sorted = got;
    std::sort(sorted.begin(), sorted.end(), [](const Net& a, const Net& b) { return a.p < b.p; });
    for (size_t i = 0; i < sorted.size(); ++i) {
        REQ_EQ(c, sorted[i].p, n.p + 1 + (int) i, what, " prefixes must be one of each");
        REQ(c, (sorted[i].a.v & maskof(n.bits(), sorted[i].p)) == sorted[i].a.v, what, " unaligned ", sorted[i]);
        REQ(c, sorted[i].a.scope.empty() || !n.a.scope.empty(), what, " invented a scope id");
    }
    std::vector<std::pair<u128, u128> > iv(1, std::make_pair(x.first(), x.last()));
    for (size_t i = 0; i < got.size(); ++i) iv.push_back(std::make_pair(got[i].first(), got[i].last()));
    std::sort(iv.begin(), iv.end());
    REQ(c, iv.front().first == n.first() && iv.back().second == n.last(), what, " does not reach both ends");
    for (size_t i = 1; i < iv.size(); ++i) REQ(c, iv[i].first == iv[i - 1].second + 1, what, " gap or overlap before ", Addr(n.a.ver, iv[i].first));
    const std::vector<Net> ref = remainder(n, x);
    for (size_t i = 0; i < ref.size(); ++i) REQ(c, sorted[i].a.v == ref[i].a.v, what, " /", ref[i].p, " is ", sorted[i], " instead of ", ref[i]);
    // no address of the excluded network in the rest, every other address in exactly one
    for (int t = 0; t < 4; ++t) {
        Addr a(n.a.ver, (n.first() + (g::number(s, n.bits()) & ones(n.bits() - n.p))) & ones(n.bits()));
        if (s.flip()) a.v = s.flip() ? x.last() : x.first();
        size_t in = 0;
        for (auto it = q.begin(); it != q.end(); ++it) if ((*it).contains(Mk<typename Tr<N>::A>::from(a))) ++in;
        REQ_EQ(c, in, (size_t) (a.v >= x.first() && a.v <= x.last() ? 0 : 1), what, " membership of ", a);
    }
}
static Net inner(Src& s, const Net& n) {
    Net r = n;
    const int bits = n.bits();
    r.p = s.flip() ? (int) s.range((size_t) n.p, (size_t) bits) : n.p + (int) s.below((size_t) (bits - n.p < 6 ? bits - n.p + 1 : 6));
    switch (s.below(4)) {
        case 0: break;
        case 1: r.a.v = n.last(); break;
        default: r.a.v |= g::number(s, bits) & ones(bits - n.p);
    }
    r.a.v &= maskof(bits, r.p);
    r.a.scope.clear();
    return r;
}
static void v4(Src& s, Ctx& c) { const Net n = g::net4(s), x = s.below(6) == 5 ? g::relative(s, n) : inner(s, n); SUB(c, exclude<ipv4_network>(s, c, n, x, "ipv4_network")); SUB(c, exclude<ip_network>(s, c, n, x, "ip_network")); }
static void v6(Src& s, Ctx& c) { const Net n = g::net6(s), x = s.below(6) == 5 ? g::relative(s, n) : inner(s, n); SUB(c, exclude<ipv6_network>(s, c, n, x, "ipv6_network")); SUB(c, exclude<ip_network>(s, c, n, x, "ip_network")); }
// scope ids on either side are ignored and do not appear in the rest
template <typename N> static void scoped_as(Ctx& c, const Net& n, const Net& x, const Net& n0, const Net& x0) {
    error_code e1, e2;
    const auto a = mknet<N>(n).address_exclude(mknet<N>(x), e1);
    const auto b = mknet<N>(n0).address_exclude(mknet<N>(x0), e2);
    REQ_EQ(c, (int) e1, (int) e2, n, " minus ", x, " code");
    auto i = a.begin();
    auto j = b.begin();
    size_t k = 0;
    for (; i != a.end() && j != b.end(); ++i, ++j, ++k) { REQ_EQ(c, obs(*i), obs(*j), n, " minus ", x, " element ", k); REQ(c, k < 200, "does not end"); }
    REQ(c, i == a.end() && j == b.end(), n, " minus ", x, " number of elements");
}
static void scoped(Src& s, Ctx& c) {
    const Net n0 = g::net6(s), x0 = s.below(6) == 5 ? g::relative(s, n0) : inner(s, n0);
    Net n = n0, x = x0;
    if (SCOPE_MAX) { if (s.flip()) n.a.scope = g::ascii_scope(s); if (s.flip()) x.a.scope = g::ascii_scope(s); }
    NOTE(c, n, " minus ", x);
    c.nontrivial();
    SUB(c, scoped_as<ipv6_network>(c, n, x, n0, x0));
    SUB(c, scoped_as<ip_network>(c, n, x, n0, x0));
}
static void cross(Src& s, Ctx& c) {
    const Net a = g::net4(s), b = g::net6(s);
    c.nontrivial();
    if (s.flip()) SUB(c, exclude<ip_network>(s, c, a, b, "ip_network"));
    else SUB(c, exclude<ip_network>(s, c, b, a, "ip_network"));
}
// all prefix pairs along one path
static void chain(Src& s, Ctx& c) {
    const int ver = s.flip() ? 6 : 4, bits = ver == 4 ? 32 : 128;
    const u128 v = ver == 4 ? g::value4(s) : g::value6(s);
    const int p = g::prefix(s, bits);
    const Net n(Addr(ver, v & maskof(bits, p)), p);
    const int x = p + (int) s.below((size_t) (bits - p) + 1);
    if (ver == 4) SUB(c, exclude<ipv4_network>(s, c, n, Net(Addr(ver, v & maskof(bits, x)), x), "ipv4_network"));
    if (ver == 6) SUB(c, exclude<ipv6_network>(s, c, n, Net(Addr(ver, v & maskof(bits, x)), x), "ipv6_network"));
}
static const pbt::Facet F[] = {{"v4", 4, v4}, {"v6", 4, v6}, {"scoped", 2, scoped}, {"cross", 1, cross}, {"chain", 3, chain}};
PBT_MAIN("P15", F)
