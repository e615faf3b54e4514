// P29: value semantics over histories of mutating operations on pools of objects of every type.
#include "seq.hpp"
using namespace m;
namespace {
template <typename T> struct Kind;
template <> struct Kind<ipv4_address> { typedef Addr M; static M gen(Src& s) { return g::addr4(s); } static ipv4_address make(const M& a) { return lib4(a); } };
template <> struct Kind<ipv6_address> { typedef Addr M; static M gen(Src& s) { return g::addr6(s, 2); } static ipv6_address make(const M& a) { return lib6(a); } };
template <> struct Kind<ip_address> { typedef Addr M; static M gen(Src& s) { return s.flip() ? g::addr6(s, 2) : g::addr4(s); } static ip_address make(const M& a) { return lib(a); } };
template <> struct Kind<ipv4_network> { typedef Net M; static M gen(Src& s) { return g::NetGen<ipv4_network>::gens(s); } static ipv4_network make(const M& a) { return mknet<ipv4_network>(a); } };
template <> struct Kind<ipv6_network> { typedef Net M; static M gen(Src& s) { return g::NetGen<ipv6_network>::gens(s); } static ipv6_network make(const M& a) { return mknet<ipv6_network>(a); } };
template <> struct Kind<ip_network> { typedef Net M; static M gen(Src& s) { return g::NetGen<ip_network>::gens(s); } static ip_network make(const M& a) { return mknet<ip_network>(a); } };

std::string text_of(const Addr& a) { return fmt(a, COMPRESSED); }
std::string text_of(const Net& n) { return fmt(n.a, COMPRESSED) + "/" + dec((u64) n.p); }
int version_of(const Addr& a) { return a.ver; }
int version_of(const Net& n) { return n.a.ver; }
bool fits(const Addr& a, int ver) { return ver == 0 || a.ver == ver; }
bool fits(const Net& n, int ver) { return ver == 0 || n.a.ver == ver; }

template <typename T, typename M> void same(Ctx& c, const T& x, const M& m, const std::string& w) {
    REQ_EQ(c, obs(x), m, w);
    const T fresh = Kind<T>::make(m);
    REQ(c, x == fresh && !(x != fresh), "equal to a fresh object of the same value, ", w);
    REQ(c, x.hash() == fresh.hash(), "hash of a fresh object of the same value, ", w);
    REQ(c, !(x < fresh) && !(fresh < x), "neither before nor after a fresh object of the same value, ", w);
    REQ_EQ(c, x.to_string(), fresh.to_string(), w);
}
// everything that only asks, through a non-const object; the caller checks that nothing changed
template <typename T> void common_queries(T& x) {
    (void) x.to_string(ip::format::full); (void) x.to_string(ip::format::compact); (void) x.to_wstring(); (void) x.to_u16string(); (void) x.to_u32string();
    (void) x.hash(); (void) x.is_multicast(); (void) x.is_private(); (void) x.is_global(); (void) x.is_reserved(); (void) x.is_loopback(); (void) x.is_link_local(); (void) x.is_unspecified();
    std::ostringstream o;
    o << x;
    (void) std::hash<T>()(x);
}
template <typename A> void addr_queries(A& x) { common_queries(x); (void) x.reverse_pointer(); (void) x.data(); (void) x.size(); (void) x.version(); }
template <typename A> void own_scope(A& x) { error_code e = error_code::no_error; x.set_scope_id(x.get_scope_id().get_string(), e); }
void queries(ipv4_address& x) { addr_queries(x); (void) x.to_uint(); (void) (x.bytes() == x.bytes()); }
void queries(ipv6_address& x) { addr_queries(x); (void) x.to_uint(); (void) x.is_site_local(); (void) x.get_scope_id().get_string(); (void) x.ipv4_mapped().has_value(); (void) x.sixtofour().has_value(); (void) x.teredo().has_value(); own_scope(x); }
void queries(ip_address& x) { addr_queries(x); (void) x.v4().has_value(); (void) x.v6().has_value(); (void) x.is_site_local(); (void) x.ipv4_mapped().has_value(); (void) x.get_scope_id().get_string(); own_scope(x); }
template <typename N> void net_queries(N& x, const Net& m) {
    common_queries(x);
    // addresses and sequences taken from a network are copies
    auto a = x.network_address();
    auto b = x.broadcast_address();
    (void) x.netmask(); (void) x.hostmask(); (void) x.prefixlen(); (void) x.addresses_count(); (void) x.contains(a); (void) x.contains(b); (void) x.overlaps(x); (void) x.subnet_of(x); (void) x.supernet_of(x);
    a = b;
    auto hosts = x.hosts();
    auto it = hosts.begin();
    if (it != hosts.end()) { ++it; auto jt = it; if (jt != hosts.end()) ++jt; it = jt; }
    error_code e = error_code::no_error;
    auto sub = x.subnets(e, m.p < m.bits() ? 1 : 0);
    if (e == error_code::no_error) { auto st = sub.begin(); if (st != sub.end()) ++st; }
    auto sup = x.supernet(e);
    sup = x;
    auto ex = x.address_exclude(x, e);
    if (e == error_code::no_error) (void) (ex.begin() == ex.end());
}
template <typename T, typename M> struct Extra;
template <typename T> struct Extra<T, Addr> {
    static void ask(T& x, const Addr&) { queries(x); }
    // changes of one address in place
    static void change(Src& s, Ctx& c, T& x, Addr& m, const std::string& w) {
        (void) s; (void) c; (void) x; (void) m; (void) w;
    }
};
template <typename A> void scope_change(Src& s, Ctx& c, A& x, Addr& m, const std::string& w) {
    std::string t = s.below(5) ? g::good_scope(s) : "";
    if (s.below(4) == 3) g::mutate(s, t);
    if (!ascii(t)) t = "z";
    const bool ok = SCOPE_MAX == 0 || m.ver == 4 || scope_ok(t);
    const std::string w2 = str(w, " set_scope_id ", q(t));
    if (THROWS && s.flip()) {
        const Outcome o = attempt([&] { x.set_scope_id(t); });
        REQ_EQ(c, o.threw, !ok, w2);
    } else {
        error_code e = error_code::no_error;
        switch (s.below(3)) {
            case 0: x.set_scope_id(t, e); break;
            case 1: x.set_scope_id(widen<char16_t>(t), e); break;
            default: x.set_scope_id(widen<wchar_t>(t), e);
        }
        REQ_EQ(c, e == error_code::no_error, ok, w2);
    }
    if (ok && SCOPE_MAX && m.ver == 6) m.scope = t;
}
template <> void Extra<ipv6_address, Addr>::change(Src& s, Ctx& c, ipv6_address& x, Addr& m, const std::string& w) { scope_change(s, c, x, m, w); }
template <> void Extra<ip_address, Addr>::change(Src& s, Ctx& c, ip_address& x, Addr& m, const std::string& w) {
    if (s.flip()) return scope_change(s, c, x, m, w);
    // from the inner values, changed on the way; the optional is a copy
    if (m.ver == 4) {
        auto o = x.v4();
        Addr k = g::addr4(s);
        o = lib4(k);
        if (s.flip()) { x = o.value(); m = k; }
    } else {
        auto o = x.v6();
        error_code e = error_code::no_error;
        Addr k = m;
        k.scope = g::ascii_scope(s);
        o.value().set_scope_id(k.scope, e);
        if (s.flip()) { x = o.value(); m = k; }
    }
}
template <typename T> struct Extra<T, Net> {
    static void ask(T& x, const Net& m) { net_queries(x, m); }
    static void change(Src& s, Ctx& c, T& x, Net& m, const std::string& w) {
        error_code e = error_code::no_error;
        switch (s.below(4)) {
            case 0: {  // the sequence keeps the value the network had
                const Net was = m;
                const int d = was.p < was.bits() ? 1 : 0;
                auto sub = x.subnets(e, (size_t) d);
                REQ(c, e == error_code::no_error, "subnets, ", w);
                const SeqModel sm = subnets_model(was, was.p + d);
                m = Kind<T>::gen(s);
                x = Kind<T>::make(m);
                Net first = sm.at<Net>(0), got = obs(*sub.begin());
                first.a.scope = got.a.scope = "";
                REQ_EQ(c, got, first, "subnets taken before ", w);
                break;
            }
            case 1: {
                const Net was = m;
                auto hosts = x.hosts();
                auto it = hosts.begin();
                m = Kind<T>::gen(s);
                x = Kind<T>::make(m);
                Addr first = hosts_model(was).at<Addr>(0), got = obs(*it);
                first.scope = got.scope = "";
                REQ_EQ(c, got, first, "hosts iterator taken before ", w);
                auto jt = it;
                const SeqModel hm = hosts_model(was);
                if (hm.count > 1) {
                    ++jt;
                    got = obs(*it);
                    got.scope = "";
                    REQ_EQ(c, got, first, "iterator copied from, then the copy moved, ", w);
                    Addr second = hm.at<Addr>(1), got2 = obs(*jt);
                    got2.scope = "";
                    REQ_EQ(c, got2, second, "copy of an iterator, ", w);
                    std::swap(it, jt);
                    got = obs(*jt); got2 = obs(*it);
                    got.scope = got2.scope = "";
                    REQ(c, got == first && got2 == second, "swapped iterators, ", w);
                }
                break;
            }
            case 2:
                if (m.p > 0) {
                    x = x.supernet(e);
                    REQ(c, e == error_code::no_error, "supernet, ", w);
                    m = Net(Addr(m.a.ver, m.a.v & maskof(m.bits(), m.p - 1)), m.p - 1);
                }
                break;
            default: {  // a failing request changes nothing
                x.supernet(e, (size_t) m.p + 1);
                REQ(c, m.p == 0 || e != error_code::no_error, "supernet beyond /0, ", w);
                T y = x;
                REQ(c, y == x, "copy, ", w);
            }
        }
    }
};
// text that must not parse as T
std::string bad_text(Src& s) { return s.pick(std::vector<std::string>{"", "1.2.3", "1.2.3.256", "::1::", "g::", "1.2.3.4/33x", "1:2:3:4:5:6:7:8:9", "1.2.3.4.5/1", "::1/129x"}); }

template <typename T> void pool(Src& s, Ctx& c) {
    typedef typename Kind<T>::M M;
    const size_t n = s.range(2, 5), steps = s.range(2, 14);
    std::vector<T> xs;
    std::vector<M> ms;
    for (size_t i = 0; i < n; ++i) { ms.push_back(Kind<T>::gen(s)); xs.push_back(Kind<T>::make(ms[i])); }
    c.nontrivial(steps > 3);
    std::string w = Tr<T>::name();
    for (size_t i = 0; i < n; ++i) w += str(" ", ms[i]);
    for (size_t k = 0; k < steps; ++k) {
        const size_t i = s.below(xs.size()), j = s.below(4) == 3 ? i : s.below(xs.size()), op = s.below(18);
        static const char* const names[] = {"copy", "copy-construct", "move", "member swap", "std::swap", "swap by ADL", "new value", "parse", "failing parse with code", "throwing parse", "change", "ask",
            "insert", "erase", "rotate", "reverse", "default", "extract"};
        w += str("; ", names[op], " ", i, " ", j);
        switch (op) {
            case 0: { T& o = xs[j]; xs[i] = o; ms[i] = M(ms[j]); break; }
            case 1: { const T t(xs[j]); xs[i] = t; ms[i] = M(ms[j]); break; }
            case 2: if (i != j) { T t(std::move(xs[j])); xs[i] = std::move(t); ms[i] = ms[j]; xs[j] = Kind<T>::make(ms[j]); } break;
            case 3: xs[i].swap(xs[j]); if (i != j) std::swap(ms[i], ms[j]); break;
            case 4: std::swap(xs[i], xs[j]); if (i != j) std::swap(ms[i], ms[j]); break;
            case 5: { using std::swap; swap(xs[i], xs[j]); if (i != j) std::swap(ms[i], ms[j]); break; }
            case 6: ms[i] = Kind<T>::gen(s); xs[i] = Kind<T>::make(ms[i]); break;
            case 7: {
                error_code e = error_code::no_error;
                const std::string t = text_of(ms[j]);
                if (THROWS && s.flip()) xs[i] = T::parse(t); else xs[i] = T::parse(t, e);
                REQ(c, e == error_code::no_error, "parse ", q(t), " ", w);
                ms[i] = M(ms[j]);
                break;
            }
            case 8: {  // the value a failing call returns is not an alias of anything
                error_code e = error_code::no_error;
                T t = T::parse(bad_text(s), e);
                REQ(c, e != error_code::no_error, "bad text accepted, ", w);
                t = xs[i];
                t.swap(xs[j]);
                t.swap(xs[j]);
                REQ(c, t == xs[i], "swapped there and back, ", w);
                break;
            }
            case 9: if (THROWS) { const std::string b = bad_text(s); const Outcome o = attempt([&] { xs[i] = T::parse(b); }); REQ(c, o.threw, "bad text accepted, ", w); } break;
            case 10: SUB(c, (Extra<T, M>::change(s, c, xs[i], ms[i], w))); break;
            case 11: Extra<T, M>::ask(xs[i], ms[i]); break;
            case 12: if (xs.size() < 7) { const T t = xs[j]; const M mt = ms[j]; xs.insert(xs.begin() + (ptrdiff_t) i, t); ms.insert(ms.begin() + (ptrdiff_t) i, mt); } break;
            case 13: if (xs.size() > 2) { xs.erase(xs.begin() + (ptrdiff_t) i); ms.erase(ms.begin() + (ptrdiff_t) i); } break;
            case 14: std::rotate(xs.begin(), xs.begin() + (ptrdiff_t) i, xs.end()); std::rotate(ms.begin(), ms.begin() + (ptrdiff_t) i, ms.end()); break;
            case 15: std::reverse(xs.begin(), xs.end()); std::reverse(ms.begin(), ms.end()); break;
            case 16: { T t; t = xs[j]; T d; t.swap(d); REQ(c, d == xs[j] && t == T(), "swap with a default object, ", w); break; }
            default: {
                std::istringstream in(text_of(ms[j]));
                in >> xs[i];
                REQ(c, !in.fail(), "extraction, ", w);
                ms[i] = M(ms[j]);
            }
        }
        for (size_t t = 0; t < xs.size(); ++t) SUB(c, same(c, xs[t], ms[t], str(w, "; object ", t)));
    }
    NOTE(c, w);
    c.obs(w);
}
// values crossing between the types: each conversion is a copy
void crossing(Src& s, Ctx& c) {
    Addr m4 = g::addr4(s), m6 = g::addr6(s, 2), ma = s.flip() ? m4 : m6;
    ipv4_address a4 = lib4(m4);
    ipv6_address a6 = lib6(m6);
    ip_address any = lib(ma);
    const size_t steps = s.range(2, 12);
    c.nontrivial(steps > 3);
    std::string w = str(m4, " ", m6, " ", ma);
    for (size_t k = 0; k < steps; ++k) {
        const size_t op = s.below(10);
        w += str("; ", op);
        error_code e = error_code::no_error;
        switch (op) {
            case 0: any = a4; ma = m4; break;
            case 1: any = a6; ma = m6; break;
            case 2: if (ma.ver == 4) { a4 = any.v4().value(); m4 = ma; } else { a6 = any.v6().value(); m6 = ma; } break;
            case 3: { const std::string t = g::ascii_scope(s); a6.set_scope_id(t, e); if (SCOPE_MAX) m6.scope = t; break; }
            case 4: { const std::string t = g::ascii_scope(s); any.set_scope_id(t, e); if (SCOPE_MAX && ma.ver == 6) ma.scope = t; break; }
            case 5: m4 = g::addr4(s); a4 = lib4(m4); break;
            case 6: m6 = g::addr6(s, 2); a6 = lib6(m6); break;
            case 7: { ip_address t(a4); any.swap(t); any.swap(t); t = a6; break; }
            case 8: { ip_address t(any); t = s.flip() ? ip_address(a4) : ip_address(a6); t.swap(any); const Addr n = obs(any); REQ(c, n == m4 || n == m6, w); any = t; break; }
            default: { ip_address t = any; t.set_scope_id("q", e); t = ip_address(); }
        }
        SUB(c, same(c, a4, m4, w));
        SUB(c, same(c, a6, m6, w));
        SUB(c, same(c, any, ma, w));
    }
    NOTE(c, w);
    c.obs(w);
}
void crossing_net(Src& s, Ctx& c) {
    Net m4 = g::net4(s), m6 = g::net6s(s), ma = s.flip() ? m4 : m6;
    ipv4_network n4 = mknet<ipv4_network>(m4);
    ipv6_network n6 = mknet<ipv6_network>(m6);
    ip_network any = mknet<ip_network>(ma);
    const size_t steps = s.range(2, 12);
    c.nontrivial(steps > 3);
    std::string w = str(m4, " ", m6, " ", ma);
    for (size_t k = 0; k < steps; ++k) {
        const size_t op = s.below(8);
        w += str("; ", op);
        switch (op) {
            case 0: any = n4; ma = m4; break;
            case 1: any = n6; ma = m6; break;
            case 2: if (ma.a.ver == 4) { n4 = any.v4().value(); m4 = ma; } else { n6 = any.v6().value(); m6 = ma; } break;
            case 3: m4 = g::net4(s); n4 = mknet<ipv4_network>(m4); break;
            case 4: m6 = g::net6s(s); n6 = mknet<ipv6_network>(m6); break;
            case 5: { ip_network t(n4); any.swap(t); any.swap(t); t = n6; break; }
            case 6: { ip_network t(n6); std::swap(any, t); ma = m6; any = n6; t = ip_network(); break; }
            default: { ip_network t = any; t = ip_network(n4); t.swap(t); REQ(c, obs(t) == m4, w); }
        }
        SUB(c, same(c, n4, m4, w));
        SUB(c, same(c, n6, m6, w));
        SUB(c, same(c, any, ma, w));
    }
    NOTE(c, w);
    c.obs(w);
}
void f4(Src& s, Ctx& c) { pool<ipv4_address>(s, c); }
void f6(Src& s, Ctx& c) { pool<ipv6_address>(s, c); }
void fa(Src& s, Ctx& c) { pool<ip_address>(s, c); }
void fn4(Src& s, Ctx& c) { pool<ipv4_network>(s, c); }
void fn6(Src& s, Ctx& c) { pool<ipv6_network>(s, c); }
void fna(Src& s, Ctx& c) { pool<ip_network>(s, c); }
const pbt::Facet F[] = {{"v4", 3, f4}, {"v6", 4, f6}, {"any", 5, fa}, {"net4", 3, fn4}, {"net6", 4, fn6}, {"netany", 5, fna}, {"crossing", 3, crossing}, {"crossing_net", 3, crossing_net}};
}  // namespace
PBT_MAIN("P29", F)
