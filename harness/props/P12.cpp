#include "seq.hpp"
using namespace m;

template <typename N> static void hosts(Src& s, Ctx& c, const Net& n, const char* nm) {
    const SeqModel m = hosts_model(n);
    NOTE(c, nm, " ", n, " has ", dec(m.count), " hosts");
    if (m.count > 1) c.nontrivial();
    const N net = mknet<N>(n);
    SUB(c, check_sequence<Addr>(s, c, net.hosts(), m, str(nm, " ", n, " hosts")));
    SUB(c, check_iterators<Addr>(s, c, net.hosts(), m, str(nm, " ", n, " hosts")));
}
static Net small(Src& s, bool six) {
    Net n = six ? g::net6s(s) : g::net4(s);
    if (s.flip()) {  // few host bits, so that the whole sequence is walked
        const int bits = n.bits();
        n.p = bits - (int) s.below(8);
        if (s.below(4) == 3) n.a.v = s.flip() ? ones(bits) : 0;  // top or bottom of the address space
        n.a.v &= maskof(bits, n.p);
        n.a.scope.clear();
    }
    return n;
}
static void v4(Src& s, Ctx& c) { const Net n = small(s, false); SUB(c, hosts<ipv4_network>(s, c, n, "ipv4_network")); SUB(c, hosts<ip_network>(s, c, n, "ip_network")); }
static void v6(Src& s, Ctx& c) { const Net n = small(s, true); SUB(c, hosts<ipv6_network>(s, c, n, "ipv6_network")); SUB(c, hosts<ip_network>(s, c, n, "ip_network")); }
// every host lies in the network; range-for collects exactly the model's list; the list is sorted
template <typename N> static void collect(Src&, Ctx& c, const Net& n, const char* nm) {
    const SeqModel m = hosts_model(n);
    if (m.count > 300) return;
    const N net = mknet<N>(n);
    std::vector<Addr> got;
    for (const auto& h : net.hosts()) {
        REQ(c, net.contains(h), nm, " ", n, " host ", obs(h), " outside the network");
        got.push_back(obs(h));
        REQ(c, got.size() <= (size_t) m.count, nm, " ", n, " yields more than ", dec(m.count), " hosts");
    }
    REQ_EQ(c, dec(got.size()), dec(m.count), nm, " ", n, " hosts by range-for");
    for (size_t i = 0; i < got.size(); ++i) REQ_EQ(c, got[i], m.at<Addr>(i), nm, " ", n, " host ", i);
    if (m.count > 1) c.nontrivial();
}
static void walk(Src& s, Ctx& c) {
    const bool six = s.flip();
    Net n = six ? g::net6(s) : g::net4(s);
    n.p = n.bits() - (int) s.below(9);
    if (s.below(3) == 2) n.a.v = s.flip() ? ones(n.bits()) : 0;
    n.a.v &= maskof(n.bits(), n.p);
    NOTE(c, n, " walked");
    if (six) SUB(c, collect<ipv6_network>(s, c, n, "ipv6_network"));
    if (!six) SUB(c, collect<ipv4_network>(s, c, n, "ipv4_network"));
    SUB(c, collect<ip_network>(s, c, n, "ip_network"));
}
static const pbt::Facet F[] = {{"v4", 4, v4}, {"v6", 4, v6}, {"walk", 2, walk}};
PBT_MAIN("P12", F)
