#include "entry.hpp"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace m;

template <typename T> struct HashOf { size_t operator()(const T& t) const { return t.hash(); } };
static bool same(const Addr& a, const Addr& b) { return a == b; }
static bool same(const Net& a, const Net& b) { return a == b; }

// a family of variants of one value, each group differing from it in one observable part
template <typename M> struct Group { std::string part; std::vector<M> v; };
static u128 flip_byte(Src& s, u128 v, int sh) { u128 x; do { x = v ^ (u128) s.range(1, 255) << sh; } while (x == v); return x; }
static void addr_groups(Src& s, const Addr& a, bool any, std::vector<Group<Addr> >& out) {
    for (int i = 0; i < a.bits() / 8; ++i) {
        Group<Addr> gr;
        gr.part = str("byte ", i);
        for (int k = 0; k < 3; ++k) { Addr b = a; b.v = flip_byte(s, a.v, a.bits() - 8 - 8 * i); gr.v.push_back(b); }
        out.push_back(gr);
    }
    if (a.ver == 6 && SCOPE_MAX) {
        Group<Addr> gr;
        gr.part = "scope id";
        for (int k = 0; k < 4; ++k) { Addr b = a; do b.scope = g::ascii_scope(s) + std::string(); while (false); if (b.scope == a.scope) b.scope = a.scope.empty() ? "0" : ""; gr.v.push_back(b); }
        out.push_back(gr);
        for (size_t i = 0; i < a.scope.size(); ++i) {  // each character of the scope id
            Group<Addr> g2;
            g2.part = str("scope id character ", i);
            for (int k = 0; k < 3; ++k) { Addr b = a; b.scope[i] = (char) ('A' + (a.scope[i] - 'A' + 1 + k + 64) % 26); if (b.scope != a.scope) g2.v.push_back(b); }
            out.push_back(g2);
        }
    }
    if (any) {
        Group<Addr> gr;
        gr.part = "version";
        if (a.ver == 4) { gr.v.push_back(Addr(6, a.v)); gr.v.push_back(Addr(6, a.v << 96)); gr.v.push_back(Addr(6, a.v | (u128) 0xffff << 32)); }
        else { gr.v.push_back(Addr(4, a.v & ones(32))); gr.v.push_back(Addr(4, a.v >> 96)); }
        out.push_back(gr);
    }
    {  // the same bytes in another order
        Group<Addr> gr;
        gr.part = "byte order";
        const int n = a.bits() / 8;
        for (int k = 0; k < 4; ++k) {
            Addr b = a;
            const int i = 8 * (int) s.below((size_t) n), j = 8 * (int) s.below((size_t) n);
            const u128 x = (a.v >> i & 255) ^ (a.v >> j & 255);
            b.v ^= x << i;
            if (i != j) b.v ^= x << j;
            if (b.v != a.v) gr.v.push_back(b);
        }
        if (!gr.v.empty()) out.push_back(gr);
    }
}
static void net_groups(Src& s, const Net& n, bool any, std::vector<Group<Net> >& out) {
    std::vector<Group<Addr> > ag;
    addr_groups(s, n.a, any, ag);
    for (size_t i = 0; i < ag.size(); ++i) {
        Group<Net> gr;
        gr.part = ag[i].part;
        for (size_t k = 0; k < ag[i].v.size(); ++k) {
            Net x(ag[i].v[k], n.p);
            if (x.p > x.bits()) x.p = x.bits();
            const u128 v = x.a.v & maskof(x.bits(), x.p);
            if (v != x.a.v) continue;  // would not be a clean network
            gr.v.push_back(x);
        }
        if (!gr.v.empty()) out.push_back(gr);
    }
    Group<Net> gr;
    gr.part = "prefix length";
    for (int p = 0; p <= n.bits(); ++p) {
        if (p == n.p || (n.a.v & maskof(n.bits(), p)) != n.a.v) continue;
        if (p < n.p + 6 || p > n.bits() - 2 || s.below(4) == 0) gr.v.push_back(Net(n.a, p));
    }
    if (!gr.v.empty()) out.push_back(gr);
}
template <typename T> static T make(const Addr& a) { return Mk<T>::from(a); }
template <typename T> static T make(const Net& n) { return mknet<T>(n); }

template <typename T> static size_t std_hash(const T& t) {
#ifndef IPADDRESS_NO_OVERLOAD_STD
    return std::hash<T>()(t);
#else
    return t.hash();
#endif
}
template <typename T, typename M> static void family(Src& s, Ctx& c, const M& base, const std::vector<Group<M> >& groups, const char* nm) {
    const T b = make<T>(base);
    size_t total = 0;
    REQ_EQ(c, std_hash(b), b.hash(), "std::hash of ", base);
    error_code e;
    const T again = T::parse(b.to_string(libfmt((Fmt) s.below(3))), e);
    REQ(c, again == b && again.hash() == b.hash(), "value rebuilt from its text: ", base, " hash ", b.hash(), " and ", again.hash());
    T copy = T();
    copy = b;
    REQ(c, copy == b && copy.hash() == b.hash(), "hash of a copy of ", base);
    std::vector<M> all(1, base);
    for (size_t i = 0; i < groups.size(); ++i) {
        size_t coll = 0;
        for (size_t k = 0; k < groups[i].v.size(); ++k) {
            const M& m = groups[i].v[k];
            const T v = make<T>(m);
            REQ(c, v != b && !(v == b), nm, " ", m, " must differ from ", base, " (", groups[i].part, ")");
            REQ(c, b != v && !(b == v), nm, " ", base, " must differ from ", m, " (", groups[i].part, ")");
            if (v.hash() == b.hash()) ++coll;
            all.push_back(m);
        }
        total += groups[i].v.size();
        REQ(c, coll == 0 || coll < groups[i].v.size(), nm, ": every variant of ", base, " in ", groups[i].part, " (", groups[i].v.size(), ", e.g. ", groups[i].v[0], ") has the same hash");
    }
    std::sort(all.begin(), all.end(), [](const M& x, const M& y) { return str(x) < str(y); });
    all.erase(std::unique(all.begin(), all.end(), [](const M& x, const M& y) { return same(x, y); }), all.end());
    std::set<size_t> hs;
    for (size_t i = 0; i < all.size(); ++i) hs.insert(make<T>(all[i]).hash());
    REQ(c, hs.size() * 10 >= all.size() * 9, nm, ": ", all.size(), " distinct values near ", base, " have only ", hs.size(), " distinct hashes");
    NOTE(c, nm, " ", base, ": ", groups.size(), " parts, ", total, " variants");
    if (total > 4) c.nontrivial();
}
template <typename A> static void fam_addr(Src& s, Ctx& c, const Addr& a, bool any, const char* nm) {
    std::vector<Group<Addr> > gr;
    addr_groups(s, a, any, gr);
    family<A, Addr>(s, c, a, gr, nm);
}
template <typename N> static void fam_net(Src& s, Ctx& c, const Net& n, bool any, const char* nm) {
    std::vector<Group<Net> > gr;
    net_groups(s, n, any, gr);
    family<N, Net>(s, c, n, gr, nm);
}
static void hash4(Src& s, Ctx& c) { Addr a = g::addr4(s); SUB(c, fam_addr<ipv4_address>(s, c, a, false, "ipv4_address")); SUB(c, fam_addr<ip_address>(s, c, a, true, "ip_address")); }
static void hash6(Src& s, Ctx& c) { Addr a = g::addr6(s, 2); SUB(c, fam_addr<ipv6_address>(s, c, a, false, "ipv6_address")); SUB(c, fam_addr<ip_address>(s, c, a, true, "ip_address")); }
static void hnet4(Src& s, Ctx& c) { Net a = g::net4(s); SUB(c, fam_net<ipv4_network>(s, c, a, false, "ipv4_network")); SUB(c, fam_net<ip_network>(s, c, a, true, "ip_network")); }
static void hnet6(Src& s, Ctx& c) { Net a = g::net6s(s); SUB(c, fam_net<ipv6_network>(s, c, a, false, "ipv6_network")); SUB(c, fam_net<ip_network>(s, c, a, true, "ip_network")); }

// containers against a model keyed by text
template <typename T, typename M> static void containers(Src& s, Ctx& c, const std::vector<M>& pool) {
    std::set<T> os;
    std::map<T, int> om;
    std::unordered_set<T, HashOf<T> > us;
    std::unordered_map<T, int, HashOf<T> > um;
    std::map<std::string, int> model;
    const size_t ops = s.range(4, 40);
    for (size_t i = 0; i < ops; ++i) {
        const M& m = pool[s.below(pool.size())];
        T v = make<T>(m);
        if (s.flip()) { error_code e; v = T::parse(fmt(m, (Fmt) s.below(3)), e); }
        const std::string key = str(m);
        const size_t op = s.below(4);
        if (op <= 1) {
            const bool fresh = model.insert(std::make_pair(key, (int) i)).second;
            model[key] = (int) i;
            REQ_EQ(c, os.insert(v).second, fresh, "set insert of ", m);
            REQ_EQ(c, us.insert(v).second, fresh, "unordered_set insert of ", m);
            om[v] = (int) i;
            um[v] = (int) i;
        } else if (op == 2) {
            const size_t n = model.erase(key);
            REQ_EQ(c, os.erase(v), n, "set erase of ", m);
            REQ_EQ(c, us.erase(v), n, "unordered_set erase of ", m);
            REQ_EQ(c, om.erase(v), n, "map erase of ", m);
            REQ_EQ(c, um.erase(v), n, "unordered_map erase of ", m);
        } else {
            const size_t n = model.count(key);
            REQ_EQ(c, os.count(v), n, "set count of ", m);
            REQ_EQ(c, us.count(v), n, "unordered_set count of ", m);
            REQ_EQ(c, om.count(v), n, "map count of ", m);
            REQ_EQ(c, um.count(v), n, "unordered_map count of ", m);
            if (n) { REQ_EQ(c, om[v], model[key], "map value of ", m); REQ_EQ(c, um[v], model[key], "unordered_map value of ", m); }
        }
        REQ(c, os.size() == model.size() && us.size() == model.size() && om.size() == model.size() && um.size() == model.size(), "sizes after operation ", i, ": ", os.size(), " ", us.size(), " ", om.size(), " ", um.size(), " expected ", model.size());
    }
    size_t found = 0;
    for (typename std::set<T>::const_iterator it = os.begin(); it != os.end(); ++it) { REQ(c, model.count(str(obs(*it))) == 1, "unexpected member ", obs(*it)); REQ(c, us.count(*it) == 1, "member missing from the unordered set"); ++found; }
    REQ_EQ(c, found, model.size(), "members");
    NOTE(c, ops, " operations, ", model.size(), " members at the end");
    c.nontrivial();
}
static void cont_addr(Src& s, Ctx& c) {
    std::vector<Addr> pool;
    const bool six = s.flip();
    const Addr base = six ? g::addr6(s, 2) : g::addr4(s);
    std::vector<Group<Addr> > gr;
    addr_groups(s, base, true, gr);
    pool.push_back(base);
    for (size_t i = 0; i < 8; ++i) { const Group<Addr>& x = gr[s.below(gr.size())]; if (x.v.empty()) continue; pool.push_back(x.v[s.below(x.v.size())]); }
    SUB(c, (containers<ip_address, Addr>(s, c, pool)));
    std::vector<Addr> only;
    for (size_t i = 0; i < pool.size(); ++i) if (pool[i].ver == base.ver) only.push_back(pool[i]);
    if (six) SUB(c, (containers<ipv6_address, Addr>(s, c, only)));
    if (!six) SUB(c, (containers<ipv4_address, Addr>(s, c, only)));
}
static void cont_net(Src& s, Ctx& c) {
    std::vector<Net> pool;
    const bool six = s.flip();
    const Net base = six ? g::net6s(s) : g::net4(s);
    std::vector<Group<Net> > gr;
    net_groups(s, base, true, gr);
    pool.push_back(base);
    if (!gr.empty()) for (size_t i = 0; i < 8; ++i) { const Group<Net>& x = gr[s.below(gr.size())]; pool.push_back(x.v[s.below(x.v.size())]); }
    SUB(c, (containers<ip_network, Net>(s, c, pool)));
    std::vector<Net> only;
    for (size_t i = 0; i < pool.size(); ++i) if (pool[i].a.ver == base.a.ver) only.push_back(pool[i]);
    if (six) SUB(c, (containers<ipv6_network, Net>(s, c, only)));
    if (!six) SUB(c, (containers<ipv4_network, Net>(s, c, only)));
}
static const pbt::Facet F[] = {{"hash4", 3, hash4}, {"hash6", 4, hash6}, {"hnet4", 3, hnet4}, {"hnet6", 4, hnet6}, {"cont_addr", 2, cont_addr}, {"cont_net", 2, cont_net}};
PBT_MAIN("P09", F)
