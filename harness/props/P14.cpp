#include "entry.hpp"
using namespace m;

static const int E_BOTH = (int) error_code::cannot_set_prefixlen_diff_and_new_prefix, E_DIFF = (int) error_code::invalid_prefixlen_diff,
                 E_SHORTER = (int) error_code::new_prefix_must_be_shorter;
struct Request { size_t diff; bool has_new; size_t np; };
static Request request(Src& s, const Net& n) {
    static const size_t far[] = {129, 160, 255, 256, 257, 65536, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000008ULL, 1ULL << 63, (size_t) -1, (size_t) -2, (size_t) -32, (size_t) -128};
    Request r = {1, false, 0};
    const size_t p = (size_t) n.p;
    switch (s.below(8)) {
        case 0: r.diff = 1; break;
        case 1: case 2: r.diff = s.range(0, p); break;
        case 3: r.diff = s.flip() ? p + s.below(4) : s.pick(far); break;
        case 4: case 5: r.has_new = true; r.np = s.range(0, p); break;
        case 6: r.has_new = true; r.np = s.flip() ? p + s.below(6) : s.pick(far); break;
        default: r.has_new = true; r.np = s.range(0, (size_t) n.bits() + 1); r.diff = s.range(0, p + 1);
    }
    return r;
}
static bool accept(const Net& n, const Request& r, int& np, std::vector<int>& errs) {
    const size_t p = (size_t) n.p;
    np = 0;
    if (p == 0) return true;  // a /0 network yields itself
    if (r.has_new) {
        if (r.np > p) errs.push_back(E_SHORTER);
        if (r.diff != 1) errs.push_back(E_BOTH);
        if (r.np == p) errs.push_back(0);  // equal prefix: refused or the network itself, see below
        np = (int) r.np;
    } else {
        if (r.diff > p) errs.push_back(E_DIFF);
        if (r.diff == 0) errs.push_back(0);
        np = (int) (p - r.diff);
    }
    return errs.empty();
}
template <typename N> static void up(Src& s, Ctx& c, const Net& n, const Request& r, const char* nm) {
    int np;
    std::vector<int> errs;
    const bool ok = accept(n, r, np, errs);
    bool degenerate = false;
    for (size_t i = 0; i < errs.size(); ++i) degenerate = degenerate || errs[i] == 0;
    const N net = mknet<N>(n);
    const std::string what = str(nm, " ", n, " supernet(diff ", r.diff, r.has_new ? str(", new ", r.np) : std::string(), ")");
    NOTE(c, what, ok ? "" : " refused");
    c.label(ok ? "accepted" : degenerate ? "same prefix" : "refused");
    error_code e = (error_code) s.below(30);
    ip::optional<size_t> nx;
    if (r.has_new) nx = r.np;
    const N q = net.supernet(e, r.diff, nx);
    N t;
    Outcome o = attempt([&] { t = net.supernet(r.diff, nx); });
    REQ_EQ(c, o.threw, THROWS && e != error_code::no_error, what, " throwing form");
    if (o.threw) REQ_EQ(c, o.code, (int) e, what, " throwing form");
    if (!o.threw) REQ(c, t == q, what, " throwing form gives another network ", obs(t), " ", obs(q));
    if (r.diff == 1 && !r.has_new) {  // one level up is the default
        error_code e2 = stale(s);
        const N d = net.supernet(e2);
        REQ(c, e2 == e && d == q, what, " differs from supernet() with an error code: ", obs(d), " code ", (int) e2);
        N dt;
        o = attempt([&] { dt = net.supernet(); });
        REQ(c, o.threw == (THROWS && e != error_code::no_error) && (o.threw || dt == q), what, " differs from supernet()");
    }
    if (degenerate && errs.size() == 1) {  // asking for the same prefix: the network itself or an error, never another network
        if (e == error_code::no_error) REQ_EQ(c, obs(q), n, what, " same prefix");
        return;
    }
    REQ_EQ(c, e == error_code::no_error, ok, what, " code ", (int) e);
    if (!ok) {
        bool known = false;
        for (size_t i = 0; i < errs.size(); ++i) known = known || errs[i] == (int) e;
        REQ(c, known || degenerate, what, " refused with code ", (int) e, " which fits none of the defects of the request");
        return;
    }
    if (n.p > np) c.nontrivial();
    Net want = n;
    if (n.p != 0) make_net(n.a, (u64) np, false, want);
    REQ_EQ(c, obs(q), want, what);
    REQ_EQ(c, q.prefixlen(), (size_t) np, what);
    const Net w0(Addr(n.a.ver, n.a.v), n.p);
    const N plain = mknet<N>(w0), qp = mknet<N>(Net(Addr(want.a.ver, want.a.v), want.p));
    REQ(c, qp.supernet_of(plain) && plain.subnet_of(qp) && q.contains(net.network_address()) && q.contains(net.broadcast_address()), what, " must contain the network");
    // in steps
    N step = net;
    for (int k = n.p; k > np; --k) { error_code e2; step = step.supernet(e2); REQ(c, e2 == error_code::no_error, what, " single step from /", k); }
    REQ_EQ(c, obs(step), want, what, " in single steps");
    if (n.p > np) {
        const int mid = np + (int) s.below((size_t) (n.p - np) + 1);
        error_code e2;
        N a = net;
        if (mid != n.p) a = net.supernet(e2, 1, ip::optional<size_t>((size_t) mid));
        if (mid != np) a = a.supernet(e2, (size_t) (mid - np));
        REQ_EQ(c, obs(a), want, what, " in two steps through /", mid);
    }
}
// scope ids do not change which network comes out
static void scoped(Src& s, Ctx& c) {
    Net n = g::net6(s);
    const Request r = request(s, n);
    ip::optional<size_t> nx;
    if (r.has_new) nx = r.np;
    error_code e1, e2;
    const Net x = obs(mknet<ipv6_network>(n).supernet(e1, r.diff, nx));
    if (SCOPE_MAX) n.a.scope = g::ascii_scope(s);
    NOTE(c, n, " supernet");
    const Net y = obs(mknet<ipv6_network>(n).supernet(e2, r.diff, nx));
    if (e1 == error_code::no_error) c.nontrivial();
    REQ_EQ(c, (int) e2, (int) e1, n, " code with and without a scope id");
    REQ(c, x.a.v == y.a.v && x.p == y.p, n, " supernet with and without a scope id: ", x, " ", y);
}
// every subnet has the original as its supernet
template <typename N> static void subs(Src& s, Ctx& c, const Net& n, const char* nm) {
    if (n.p == n.bits()) return;
    const size_t d = s.range(1, (size_t) (n.bits() - n.p));
    error_code e;
    const N net = mknet<N>(n);
    const auto q = net.subnets(e, d);
    REQ(c, e == error_code::no_error, nm, " ", n, " subnets(", d, ")");
    auto it = q.begin();
    c.nontrivial();
    for (size_t i = 0; i < 6 && it != q.end(); ++i, ++it) {
        const N x = (*it).supernet(e, d);
        REQ(c, e == error_code::no_error, nm, " supernet of a subnet");
        REQ(c, x == net, nm, " ", obs(*it), " supernet(", d, ") is ", obs(x), " instead of ", n);
    }
    const N last = q.back();
    REQ(c, last.supernet(e, 1, ip::optional<size_t>((size_t) n.p)) == net, nm, " last subnet ", obs(last), " of ", n);
}
static void v4(Src& s, Ctx& c) { const Net n = g::net4(s); const Request r = request(s, n); SUB(c, up<ipv4_network>(s, c, n, r, "ipv4_network")); SUB(c, up<ip_network>(s, c, n, r, "ip_network")); }
static void v6(Src& s, Ctx& c) { const Net n = g::net6(s); const Request r = request(s, n); SUB(c, up<ipv6_network>(s, c, n, r, "ipv6_network")); SUB(c, up<ip_network>(s, c, n, r, "ip_network")); }
static void sub4(Src& s, Ctx& c) { const Net n = g::net4(s); NOTE(c, n); SUB(c, subs<ipv4_network>(s, c, n, "ipv4_network")); SUB(c, subs<ip_network>(s, c, n, "ip_network")); }
static void sub6(Src& s, Ctx& c) { const Net n = g::net6(s); NOTE(c, n); SUB(c, subs<ipv6_network>(s, c, n, "ipv6_network")); SUB(c, subs<ip_network>(s, c, n, "ip_network")); }
static const pbt::Facet F[] = {{"v4", 4, v4}, {"v6", 4, v6}, {"scoped", 1, scoped}, {"sub4", 1, sub4}, {"sub6", 1, sub6}};
PBT_MAIN("P14", F)
