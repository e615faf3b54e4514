#include "seq.hpp"
using namespace m;

template <typename N> static void hosts(Src& s, Ctx& c, const Net& n, const char* nm) {
    const SeqModel m = hosts_model(n);
    NOTE(c, nm, " ", n, " hosts, count ", dec(m.count));
    const auto q = mknet<N>(n).hosts();
    for (int k = 0; k < 3; ++k) SUB(c, check_iterators<Addr>(s, c, q, m, str(nm, " ", n, " hosts")));
}
template <typename N> static void subnets(Src& s, Ctx& c, const Net& n, const char* nm) {
    const int np = n.p == n.bits() ? n.p : (int) s.range((size_t) n.p + 1, (size_t) n.bits());
    const SeqModel m = subnets_model(n, np);
    NOTE(c, nm, " ", n, " subnets /", np);
    error_code e;
    const auto q = n.p == n.bits() ? mknet<N>(n).subnets(e) : mknet<N>(n).subnets(e, (size_t) (np - n.p));
    REQ(c, e == error_code::no_error, nm, " ", n, " subnets /", np, " code ", (int) e);
    for (int k = 0; k < 3; ++k) SUB(c, check_iterators<Net>(s, c, q, m, str(nm, " ", n, " subnets /", np)));
}
// binary search through the iterators finds every element
template <typename M, typename Seq> static void search(Src& s, Ctx& c, const Seq& q, const SeqModel& m, const std::string& what) {
    if (m.whole || m.count == 0 || m.count > (u128) INT64_MAX) return;
    u128 i = position(s, m);
    if (i >= m.count) i = m.count - 1;
    const auto v = q[conv<typename Seq::const_iterator::uint_type>(i)];
    REQ_EQ(c, obs(v), m.at<M>(i), what, " [", dec(i), "]");
    const auto it = std::lower_bound(q.begin(), q.end(), v);
    REQ_EQ(c, it - q.begin(), (int64_t) i, what, " std::lower_bound of element ", dec(i));
    REQ(c, std::binary_search(q.begin(), q.end(), v), what, " std::binary_search of element ", dec(i));
    const auto ub = std::upper_bound(q.begin(), q.end(), v);
    REQ_EQ(c, ub - it, (int64_t) 1, what, " std::upper_bound of element ", dec(i));
    REQ_EQ(c, q.end() - it, (int64_t) (m.count - i), what, " end() - it");
    c.nontrivial();
}
template <typename N> static void searches(Src& s, Ctx& c, const Net& n, const char* nm) {
    NOTE(c, nm, " ", n, " binary searches");
    SUB(c, search<Addr>(s, c, mknet<N>(n).hosts(), hosts_model(n), str(nm, " ", n, " hosts")));
    if (n.p < n.bits()) {
        const size_t d = s.range(1, (size_t) (n.bits() - n.p));
        error_code e;
        SUB(c, search<Net>(s, c, mknet<N>(n).subnets(e, d), subnets_model(n, n.p + (int) d), str(nm, " ", n, " subnets(", d, ")")));
    }
}
// a walk: any sequence of moves keeps iterator and position in step
template <typename M, typename Seq> static void walk(Src& s, Ctx& c, const Seq& q, const SeqModel& m, const std::string& what) {
    typedef typename Seq::const_iterator It;
    typedef typename It::uint_type U;
    const u128 top = m.whole ? ones(m.ver == 4 ? 32 : 128) : m.count;
    u128 pos = position(s, m);
    It it = q.begin() + conv<U>(pos);
    const size_t n = s.range(3, 14);
    for (size_t i = 0; i < n; ++i) {
        u128 to = pos;
        switch (s.below(5)) {
            case 0: if (pos < top) { ++it; ++to; } break;
            case 1: if (pos > 0) { --it; --to; } break;
            case 2: to = position(s, m); if (to >= pos) it += conv<U>(to - pos); else it -= conv<U>(pos - to); break;
            case 3: { to = position(s, m); int64_t d; if (signed_dist(pos, to, d)) it += d; else to = pos; break; }
            default: { to = position(s, m); int64_t d; if (signed_dist(to, pos, d)) it -= d; else to = pos; }
        }
        pos = to;
        if (m.whole || pos < m.count) REQ_EQ(c, obs(*it), m.at<M>(pos), what, " after move ", i, " to ", dec(pos));
        REQ(c, it == q.begin() + conv<U>(pos), what, " after move ", i, " to ", dec(pos), " differs from begin + position");
        if (!m.whole) REQ_EQ(c, it == q.end(), pos == m.count, what, " after move ", i, " to ", dec(pos), " against end");
    }
    c.nontrivial();
}
template <typename N> static void walks(Src& s, Ctx& c, const Net& n, const char* nm) {
    NOTE(c, nm, " ", n, " walks");
    SUB(c, walk<Addr>(s, c, mknet<N>(n).hosts(), hosts_model(n), str(nm, " ", n, " hosts")));
    if (n.p < n.bits()) {
        const size_t d = s.range(1, (size_t) (n.bits() - n.p));
        error_code e;
        SUB(c, walk<Net>(s, c, mknet<N>(n).subnets(e, d), subnets_model(n, n.p + (int) d), str(nm, " ", n, " subnets(", d, ")")));
    }
}
static Net pick4(Src& s) { Net n = g::net4(s); if (s.below(4) == 3) { n.a.v = s.flip() ? ones(32) : 0; n.a.v &= maskof(32, n.p); } return n; }
static Net pick6(Src& s) { Net n = g::net6(s); if (s.below(4) == 3) { n.a.v = s.flip() ? ones(128) : 0; n.a.v &= maskof(128, n.p); } return n; }
static void hosts4(Src& s, Ctx& c) { const Net n = pick4(s); SUB(c, hosts<ipv4_network>(s, c, n, "ipv4_network")); SUB(c, hosts<ip_network>(s, c, n, "ip_network")); }
static void hosts6(Src& s, Ctx& c) { const Net n = pick6(s); SUB(c, hosts<ipv6_network>(s, c, n, "ipv6_network")); SUB(c, hosts<ip_network>(s, c, n, "ip_network")); }
static void sub4(Src& s, Ctx& c) { const Net n = pick4(s); SUB(c, subnets<ipv4_network>(s, c, n, "ipv4_network")); SUB(c, subnets<ip_network>(s, c, n, "ip_network")); }
static void sub6(Src& s, Ctx& c) { const Net n = pick6(s); SUB(c, subnets<ipv6_network>(s, c, n, "ipv6_network")); SUB(c, subnets<ip_network>(s, c, n, "ip_network")); }
static void find(Src& s, Ctx& c) {
    if (s.flip()) { const Net n = pick6(s); SUB(c, searches<ipv6_network>(s, c, n, "ipv6_network")); SUB(c, searches<ip_network>(s, c, n, "ip_network")); }
    else { const Net n = pick4(s); SUB(c, searches<ipv4_network>(s, c, n, "ipv4_network")); SUB(c, searches<ip_network>(s, c, n, "ip_network")); }
}
static void moves(Src& s, Ctx& c) {
    if (s.flip()) { const Net n = pick6(s); SUB(c, walks<ipv6_network>(s, c, n, "ipv6_network")); SUB(c, walks<ip_network>(s, c, n, "ip_network")); }
    else { const Net n = pick4(s); SUB(c, walks<ipv4_network>(s, c, n, "ipv4_network")); SUB(c, walks<ip_network>(s, c, n, "ip_network")); }
}
static const pbt::Facet F[] = {{"hosts4", 3, hosts4}, {"hosts6", 4, hosts6}, {"sub4", 3, sub4}, {"sub6", 4, sub6}, {"find", 1, find}, {"moves", 3, moves}};
PBT_MAIN("P16", F)
