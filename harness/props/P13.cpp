#include "seq.hpp"
using namespace m;

static const int E_BOTH = (int) error_code::cannot_set_prefixlen_diff_and_new_prefix, E_DIFF = (int) error_code::invalid_prefixlen_diff,
                 E_LONGER = (int) error_code::new_prefix_must_be_longer;
// one request: by difference, by new prefix, or both
struct Request { size_t diff; bool has_new; size_t np; };
static Request request(Src& s, const Net& n) {
    static const size_t far[] = {129, 160, 255, 256, 257, 65536, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000008ULL, 1ULL << 63, (size_t) -1, (size_t) -2, (size_t) -32, (size_t) -128};
    Request r = {1, false, 0};
    const size_t bits = (size_t) n.bits(), room = bits - (size_t) n.p;
    switch (s.below(8)) {
        case 0: r.diff = 1; break;
        case 1: r.diff = s.range(0, room); break;
        case 2: r.diff = room + s.below(4); break;
        case 3: r.diff = s.pick(far); break;
        case 4: r.has_new = true; r.np = s.range((size_t) n.p, bits); break;
        case 5: r.has_new = true; r.np = s.flip() ? s.range(0, (size_t) n.p) : bits + s.below(4); break;
        case 6: r.has_new = true; r.np = s.pick(far); break;
        default: r.has_new = true; r.np = s.range(0, bits + 1); r.diff = s.range(0, room + 1);
    }
    return r;
}
// accepted new prefix, or the errors the documentation allows
static bool accept(const Net& n, const Request& r, int& np, std::vector<int>& errs, bool& same) {
    same = false;
    const size_t bits = (size_t) n.bits(), p = (size_t) n.p;
    np = n.p;
    if (p == bits) return true;  // a single-address network yields itself
    if (r.has_new) {
        if (r.np < p) errs.push_back(E_LONGER);
        if (r.diff != 1) errs.push_back(E_BOTH);
        if (r.np > bits) errs.push_back(E_DIFF);
        same = r.np == p;
        np = (int) r.np;
    } else {
        if (r.diff > bits - p) errs.push_back(E_DIFF);
        same = r.diff == 0;
        np = (int) (p + r.diff);
    }
    return errs.empty();
}
template <typename N> static void partition(Src& s, Ctx& c, const Net& n, const Request& r, const char* nm) {
    int np;
    std::vector<int> errs;
    bool same_prefix;
    bool ok = accept(n, r, np, errs, same_prefix);
    const N net = mknet<N>(n);
    const std::string what = str(nm, " ", n, " subnets(diff ", r.diff, r.has_new ? str(", new ", r.np) : std::string(), ")");
    NOTE(c, what, ok ? "" : " refused");
    c.label(ok ? "accepted" : "refused");
    error_code e = (error_code) s.below(30);
    ip::optional<size_t> nx;
    if (r.has_new) nx = r.np;
    const auto q = net.subnets(e, r.diff, nx);
    if (ok && same_prefix && e != error_code::no_error) return;  // asking for the same prefix: the network itself or a refusal
    REQ_EQ(c, e == error_code::no_error, ok, what, " code ", (int) e);
    if (!ok) {
        bool known = false;
        for (size_t i = 0; i < errs.size(); ++i) known = known || errs[i] == (int) e;
        REQ(c, known, what, " refused with code ", (int) e, " which fits none of the defects of the request");
        REQ(c, q.empty() || q.begin() == q.end(), what, " a refused request must give an empty sequence");
    }
    bool same = true;
    Outcome o = attempt([&] { const auto t = net.subnets(r.diff, nx); same = !ok || (t.begin() == q.begin() && t.end() == q.end()); });
    REQ_EQ(c, o.threw, THROWS && !ok, what, " throwing form");
    if (o.threw) REQ_EQ(c, o.code, (int) e, what, " throwing form");
    REQ(c, same, what, " throwing form gives another sequence");
    if (r.diff == 1 && !r.has_new) {  // one level down is the default
        error_code e2 = (error_code) s.below(30);
        const auto d = net.subnets(e2);
        REQ(c, e2 == e && d.begin() == q.begin() && d.end() == q.end(), what, " differs from subnets() with an error code, code ", (int) e2);
        o = attempt([&] { const auto t = net.subnets(); same = t.begin() == q.begin() && t.end() == q.end(); });
        REQ(c, o.threw == (THROWS && !ok) && (o.threw || same), what, " differs from subnets()");
    }
    if (!ok) return;
    const SeqModel m = n.p == n.bits() ? subnets_model(n, n.p) : subnets_model(n, np);
    if (m.count > 1 || m.whole) c.nontrivial();
    SUB(c, check_sequence<Net>(s, c, q, m, what));
    SUB(c, check_iterators<Net>(s, c, q, m, what));
    if (!m.whole && m.count <= 64) {  // tiling, said with the library's own values
        u128 next = n.first();
        size_t k = 0;
        for (const auto& x : q) {
            const Net y = obs(x);
            REQ_EQ(c, y.p, np, what, " prefix of element ", k);
            REQ(c, y.a.v == next, what, " element ", k, " does not start where the previous one ended");
            REQ(c, n.p == np || (x.subnet_of(mknet<N>(Net(Addr(n.a.ver, n.a.v), n.p)))), what, " element ", k, " is not a subnet");
            next = y.last() + 1;
            ++k;
            REQ(c, k <= 64, what, " does not end");
        }
        REQ(c, ((next - 1) & ones(n.bits())) == n.last(), what, " does not end at the last address");
    }
}
static void v4(Src& s, Ctx& c) { const Net n = g::net4(s); const Request r = request(s, n); SUB(c, partition<ipv4_network>(s, c, n, r, "ipv4_network")); SUB(c, partition<ip_network>(s, c, n, r, "ip_network")); }
static void v6(Src& s, Ctx& c) { const Net n = g::net6(s); const Request r = request(s, n); SUB(c, partition<ipv6_network>(s, c, n, r, "ipv6_network")); SUB(c, partition<ip_network>(s, c, n, r, "ip_network")); }
// scope ids do not change which networks come out
static void scoped(Src& s, Ctx& c) {
    Net n = g::net6(s);
    const Request r = request(s, n);
    ip::optional<size_t> nx;
    if (r.has_new) nx = r.np;
    error_code e1, e2;
    const auto a = mknet<ipv6_network>(n).subnets(e1, r.diff, nx);
    if (SCOPE_MAX) n.a.scope = g::ascii_scope(s);
    NOTE(c, n, " subnets");
    const auto b = mknet<ipv6_network>(n).subnets(e2, r.diff, nx);
    REQ_EQ(c, (int) e2, (int) e1, n, " code with and without a scope id");
    if (e1 != error_code::no_error) return;
    REQ_EQ(c, dec(val(a.size())), dec(val(b.size())), n, " size with and without a scope id");
    c.nontrivial();
    auto i = a.begin();
    auto j = b.begin();
    for (int k = 0; k < 6 && i != a.end(); ++k, ++i, ++j) {
        REQ(c, j != b.end(), n, " ends early with a scope id");
        const Net x = obs(*i), y = obs(*j);
        REQ(c, x.a.v == y.a.v && x.p == y.p, n, " element ", k, " with and without a scope id: ", x, " ", y);
    }
    const Net x = obs(a.back()), y = obs(b.back());
    REQ(c, x.a.v == y.a.v && x.p == y.p, n, " last element with and without a scope id: ", x, " ", y);
}
// edges of the address space and whole-space splits
static void edges(Src& s, Ctx& c) {
    const int ver = s.flip() ? 6 : 4, bits = ver == 4 ? 32 : 128;
    Net n(Addr(ver, s.flip() ? ones(bits) : 0), (int) s.below(s.flip() ? 4 : (size_t) bits + 1));
    n.a.v &= maskof(bits, n.p);
    Request r = {1, false, 0};
    const size_t room = (size_t) (bits - n.p);
    if (s.flip()) r.diff = s.flip() ? (room > 3 ? room - s.below(4) : room) : s.range(0, room);
    else { r.has_new = true; r.np = s.flip() ? (size_t) bits - s.below(room < 4 ? room + 1 : 4) : s.range((size_t) n.p, (size_t) bits); }
    if (ver == 4) SUB(c, partition<ipv4_network>(s, c, n, r, "ipv4_network"));
    if (ver == 6) SUB(c, partition<ipv6_network>(s, c, n, r, "ipv6_network"));
    SUB(c, partition<ip_network>(s, c, n, r, "ip_network"));
}
static const pbt::Facet F[] = {{"v4", 4, v4}, {"v6", 4, v6}, {"scoped", 1, scoped}, {"edges", 2, edges}};
PBT_MAIN("P13", F)
