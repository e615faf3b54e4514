// Version-agnostic values against the version-specific value inside.
#include "entry.hpp"
using namespace m;

template <typename T> static std::string show_opt(const ip::optional<T>& o) { return o.has_value() ? str(obs(o.value())) : std::string("none"); }
#define ALIKE(c, expr_any, expr_in, w) REQ(c, (expr_any) == (expr_in), #expr_any " differs from " #expr_in ", ", w)

template <typename A> static void addr_queries(Ctx& c, const ip_address& x, const A& a, const std::string& w) {
    ALIKE(c, x.version(), a.version(), w);
    ALIKE(c, x.size(), a.size(), w);
    ALIKE(c, x.is_multicast(), a.is_multicast(), w);
    ALIKE(c, x.is_private(), a.is_private(), w);
    ALIKE(c, x.is_global(), a.is_global(), w);
    ALIKE(c, x.is_reserved(), a.is_reserved(), w);
    ALIKE(c, x.is_loopback(), a.is_loopback(), w);
    ALIKE(c, x.is_link_local(), a.is_link_local(), w);
    ALIKE(c, x.is_unspecified(), a.is_unspecified(), w);
    static const ip::format fs[] = {ip::format::full, ip::format::compact, ip::format::compressed};
    for (int i = 0; i < 3; ++i) {
        ALIKE(c, x.to_string(fs[i]), a.to_string(fs[i]), w);
        if (x.is_v4() || ascii(x.get_scope_id().get_string())) {
            ALIKE(c, x.to_wstring(fs[i]), a.to_wstring(fs[i]), w);
            ALIKE(c, x.to_u16string(fs[i]), a.to_u16string(fs[i]), w);
            ALIKE(c, x.to_u32string(fs[i]), a.to_u32string(fs[i]), w);
        }
    }
    ALIKE(c, x.to_string(), a.to_string(), w);
    ALIKE(c, (std::string) x, (std::string) a, w);
    ALIKE(c, x.reverse_pointer(), a.reverse_pointer(), w);
    for (size_t i = 0; i < a.size(); ++i) ALIKE(c, x.data()[i], a.data()[i], w);
    ALIKE(c, obs(x), obs(a), w);
    REQ(c, x == ip_address(a), "equal to a fresh conversion, ", w);
    REQ(c, x.hash() == ip_address(a).hash(), "hash equals that of a fresh conversion, ", w);
    ALIKE(c, x.hash(), a.hash(), w);
    ALIKE(c, x.is_v4(), a.version() == ip_version::V4, w);
    ALIKE(c, x.is_v6(), a.version() == ip_version::V6, w);
    REQ(c, x.v4().has_value() == (a.version() == ip_version::V4), "v4() has a value exactly for IPv4, ", w);
    REQ(c, x.v6().has_value() == (a.version() == ip_version::V6), "v6() has a value exactly for IPv6, ", w);
}
static void addr_specific(Ctx& c, const ip_address& x, const ipv4_address& a, const std::string& w) {
    REQ(c, x.v4().value() == a, "v4() is the value inside, ", w);
    ALIKE(c, x.to_uint32(), a.to_uint(), w);
    ALIKE(c, (uint32_t) x, (uint32_t) a, w);
    REQ(c, !x.is_site_local(), "an IPv4 address is not site-local, ", w);
    REQ(c, !x.ipv4_mapped().has_value() && !x.sixtofour().has_value(), "an IPv4 address has no embedded form, ", w);
    REQ(c, !x.get_scope_id().has_string() && !x.get_scope_id().has_uint32() && x.get_scope_id().get_string().empty(), "an IPv4 address has no scope id, ", w);
    REQ_EQ(c, obs(x.to_uint128() == uint128_t(a.to_uint()) ? a : ipv4_address()), obs(a), "to_uint128 of an IPv4 address, ", w);
}
static void addr_specific(Ctx& c, const ip_address& x, const ipv6_address& a, const std::string& w) {
    REQ(c, x.v6().value() == a && x.v6().value().get_scope_id() == a.get_scope_id(), "v6() is the value inside, ", w);
    ALIKE(c, x.to_uint128(), a.to_uint(), w);
    ALIKE(c, (uint128_t) x, (uint128_t) a, w);
    ALIKE(c, x.is_site_local(), a.is_site_local(), w);
    ALIKE(c, show_opt(x.ipv4_mapped()), show_opt(a.ipv4_mapped()), w);
    ALIKE(c, show_opt(x.sixtofour()), show_opt(a.sixtofour()), w);
    ALIKE(c, x.get_scope_id().get_string(), a.get_scope_id().get_string(), w);
    ALIKE(c, x.get_scope_id().has_uint32(), a.get_scope_id().has_uint32(), w);
}
static void addr_all(Ctx& c, const ip_address& x, const Addr& a, const std::string& w) {
    if (a.ver == 4) { SUB(c, addr_queries(c, x, lib4(a), w)); SUB(c, addr_specific(c, x, lib4(a), w)); }
    else { SUB(c, addr_queries(c, x, lib6(a), w)); SUB(c, addr_specific(c, x, lib6(a), w)); }
}
// every way to obtain a version-agnostic address holding a
static ip_address make(Src& s, const Addr& a, std::string& how) {
    error_code e = error_code::no_error;
    const size_t k = s.below(8);
    static const char* const names[] = {"converted", "parsed", "parsed with code", "from bytes", "from pointer", "from integer", "assigned over the other version", "moved"};
    how = names[k];
    ip_address r;
    switch (k) {
        case 0: return lib(a);
        case 1: return ip_address::parse(fmt(a, (Fmt) s.below(3)));
        case 2: return ip_address::parse(fmt(a, (Fmt) s.below(3)), e);
        case 3: r = a.ver == 4 ? ip_address::from_bytes(bytes4(a)) : ip_address::from_bytes(bytes6(a)); break;
        case 4: r = a.ver == 4 ? ip_address::from_bytes(bytes4(a).data(), 4, ip_version::V4) : ip_address::from_bytes(bytes6(a).data(), 16, ip_version::V6); break;
        case 5: r = a.ver == 4 ? ip_address::from_uint((uint32_t) a.v) : ip_address::from_uint(u(a.v)); break;
        case 6: { r = a.ver == 4 ? lib(Addr(6, g::number(s, 128), g::ascii_scope(s))) : lib(Addr(4, g::number(s, 32))); if (a.ver == 4) r = lib4(a); else r = lib6(a); return r; }
        default: { ip_address t = lib(a); ip_address t2(std::move(t)); r = std::move(t2); return r; }
    }
    if (a.ver == 6 && !a.scope.empty()) r.set_scope_id(a.scope, e);
    return r;
}
static void address(Src& s, Ctx& c) {
    const Addr a = g::addr(s);
    std::string how;
    const ip_address x = make(s, a, how);
    const std::string w = str(a, " ", how);
    NOTE(c, w);
    if (a.v) c.nontrivial();
    SUB(c, addr_all(c, x, a, w));
    // scope ids: the same acceptance as inside, refused for IPv4
    std::string sc = s.flip() ? g::good_scope(s) : "";
    if (s.below(4) == 3) g::mutate(s, sc);
    ip_address y = x;
    error_code e = stale(s);
    y.set_scope_id(sc, e);
    if (a.ver == 6) {
        ipv6_address z = lib6(a);
        error_code e2 = error_code::no_error;
        z.set_scope_id(sc, e2);
        REQ_EQ(c, (int) e, (int) e2, "set_scope_id(", q(sc), ") on ", w);
        SUB(c, addr_queries(c, y, z, w + " after set_scope_id"));
        SUB(c, addr_specific(c, y, z, w + " after set_scope_id"));
    } else {
        REQ_EQ(c, (int) e, (int) error_code::no_error, "set_scope_id on an IPv4 address has no effect and no error, ", w);
        SUB(c, addr_all(c, y, a, w + " after set_scope_id"));
    }
    // pairs
    const Addr b = s.flip() ? g::addr(s) : a.ver == 4 ? Addr(6, s.flip() ? a.v : a.v << 96) : Addr(4, a.v & ones(32));
    const ip_address p = lib(a), r = lib(b);
    REQ_EQ(c, p == r, a == b, a, " == ", b);
    if (a.ver == b.ver) {
        const int o = a.ver == 4 ? (lib4(a) < lib4(b) ? -1 : lib4(b) < lib4(a) ? 1 : 0) : (lib6(a) < lib6(b) ? -1 : lib6(b) < lib6(a) ? 1 : 0);
        REQ_EQ(c, p < r, o < 0, a, " < ", b);
        REQ_EQ(c, p > r, o > 0, a, " > ", b);
    } else REQ(c, p != r && (p < r) != (r < p), "values of different versions are different and ordered, ", a, " ", b);
    c.obs((u64) a.v);
}
// text: IPv4 exactly when valid IPv4, IPv6 exactly when valid IPv6
template <typename T4, typename T6, typename T, typename C, typename... X> static void classify_as(Ctx& c, const std::string& text, X... x) {
    const std::basic_string<C> t = widen<C>(text);
    error_code e4 = error_code::no_error, e6 = e4, e = e4;
    const T4 v4 = T4::parse(t, e4, x...);
    const T6 v6 = T6::parse(t, e6, x...);
    const T v = T::parse(t, e, x...);
    const bool ok4 = e4 == error_code::no_error, ok6 = e6 == error_code::no_error;
    REQ(c, !(ok4 && ok6), "valid in both versions: ", q(text));
    REQ_EQ(c, e == error_code::no_error, ok4 || ok6, "parse of ", q(text));
    c.label(ok4 ? "is IPv4" : ok6 ? "is IPv6" : "is neither");
    if (ok4) { REQ(c, v.is_v4() && v.v4().value() == v4, "IPv4 text ", q(text)); REQ(c, v == T(v4), "IPv4 text ", q(text)); }
    else if (ok6) { REQ(c, v.is_v6() && v.v6().value() == v6, "IPv6 text ", q(text)); REQ(c, v == T(v6), "IPv6 text ", q(text)); }
    else REQ(c, v == T(), "refused text must give the default value ", q(text));
    const Outcome o = attempt([&] { const T r = T::parse(t, x...); (void) r; });
    REQ_EQ(c, o.threw, THROWS && !(ok4 || ok6), "throwing parse of ", q(text));
    if (o.threw) REQ(c, o.is_parse || o.is_logic, "documented exception type for ", q(text));
}
template <typename T4, typename T6, typename T, typename... X> static void classify(Src& s, Ctx& c, const std::string& t, X... x) {
    SUB(c, (classify_as<T4, T6, T, char>(c, t, x...)));
    for (size_t i = 0; i < t.size(); ++i) if ((unsigned char) t[i] > 127) return;
    switch (s.below(6)) {
        case 1: SUB(c, (classify_as<T4, T6, T, wchar_t>(c, t, x...))); break;
        case 2: SUB(c, (classify_as<T4, T6, T, char16_t>(c, t, x...))); break;
        case 3: SUB(c, (classify_as<T4, T6, T, char32_t>(c, t, x...))); break;
#if __cpp_char8_t >= 201811L
        case 4: SUB(c, (classify_as<T4, T6, T, char8_t>(c, t, x...))); break;
#endif
        default: break;
    }
}
static void texts(Src& s, Ctx& c) {
    const std::string t = s.flip() ? g::text6(s) : g::text4(s);
    NOTE(c, q(t));
    if (t.size() > 3) c.nontrivial();
    SUB(c, (classify<ipv4_address, ipv6_address, ip_address>(s, c, t)));
}
static void net_texts(Src& s, Ctx& c) {
    const std::string t = g::net_text(s, s.flip() ? 6 : 4);
    NOTE(c, q(t));
    if (t.size() > 3) c.nontrivial();
    const bool strict = s.flip();
    SUB(c, (classify<ipv4_network, ipv6_network, ip_network>(s, c, t, strict)));
}
// ---- networks -----------------------------------------------------------------------------------
template <typename N> static void net_queries(Ctx& c, const ip_network& x, const N& n, const std::string& w) {
    ALIKE(c, x.version(), n.version(), w);
    ALIKE(c, x.size(), n.size(), w);
    ALIKE(c, x.prefixlen(), n.prefixlen(), w);
    ALIKE(c, x.network_address(), ip_address(n.network_address()), w);
    ALIKE(c, x.broadcast_address(), ip_address(n.broadcast_address()), w);
    ALIKE(c, x.netmask(), ip_address(n.netmask()), w);
    ALIKE(c, x.hostmask(), ip_address(n.hostmask()), w);
    ALIKE(c, x.addresses_count(), uint128_t(n.addresses_count()), w);
    ALIKE(c, x.is_multicast(), n.is_multicast(), w);
    ALIKE(c, x.is_private(), n.is_private(), w);
    ALIKE(c, x.is_global(), n.is_global(), w);
    ALIKE(c, x.is_reserved(), n.is_reserved(), w);
    ALIKE(c, x.is_loopback(), n.is_loopback(), w);
    ALIKE(c, x.is_link_local(), n.is_link_local(), w);
    ALIKE(c, x.is_unspecified(), n.is_unspecified(), w);
    static const ip::format fs[] = {ip::format::full, ip::format::compact, ip::format::compressed};
    for (int i = 0; i < 3; ++i) {
        ALIKE(c, x.to_string(fs[i]), n.to_string(fs[i]), w);
        ALIKE(c, x.to_wstring(fs[i]), n.to_wstring(fs[i]), w);
        ALIKE(c, x.to_u16string(fs[i]), n.to_u16string(fs[i]), w);
        ALIKE(c, x.to_u32string(fs[i]), n.to_u32string(fs[i]), w);
    }
    ALIKE(c, x.to_string(), n.to_string(), w);
    ALIKE(c, (std::string) x, (std::string) n, w);
    REQ(c, x == ip_network(n) && x.hash() == ip_network(n).hash(), "equal to a fresh conversion, ", w);
    ALIKE(c, x.hash(), n.hash(), w);
    ALIKE(c, x.is_v4(), n.version() == ip_version::V4, w);
    ALIKE(c, x.is_v6(), n.version() == ip_version::V6, w);
    REQ(c, x.v4().has_value() == (n.version() == ip_version::V4), "v4() has a value exactly for IPv4, ", w);
    REQ(c, x.v6().has_value() == (n.version() == ip_version::V6), "v6() has a value exactly for IPv6, ", w);
}
static void net_inside(Ctx& c, const ip_network& x, const ipv4_network& n, const std::string& w) {
    REQ(c, x.v4().value() == n, "v4() is the value inside, ", w);
    REQ(c, !x.is_site_local(), "an IPv4 network is not site-local, ", w);
}
static void net_inside(Ctx& c, const ip_network& x, const ipv6_network& n, const std::string& w) {
    REQ(c, x.v6().value() == n, "v6() is the value inside, ", w);
    ALIKE(c, x.is_site_local(), n.is_site_local(), w);
}
static uint32_t conv_count(uint32_t, u128 i) { return (uint32_t) i; }
static uint128_t conv_count(const uint128_t&, u128 i) { return u(i); }
template <typename X, typename N> static void seq_alike(Src& s, Ctx& c, const X& x, const N& n, const std::string& w) {
    REQ_EQ(c, x.empty(), n.empty(), w, " empty()");
    REQ(c, x.size() == uint128_t(n.size()), w, " size()");
    if (n.empty()) { REQ(c, x.begin() == x.end(), w, " begin() == end()"); return; }
    REQ(c, obs(x.front()) == obs(n.front()) && obs(x.back()) == obs(n.back()), w, " front/back");
    auto a = x.begin(); auto b = n.begin();
    auto ra = x.rbegin(); auto rb = n.rbegin();
    for (int i = 0; i < 6 && b != n.end(); ++i, ++a, ++b, ++ra, ++rb) {
        REQ(c, a != x.end() && ra != x.rend(), w, " ends early");
        REQ(c, obs(*a) == obs(*b), w, " element ", i, ": ", obs(*a), " instead of ", obs(*b));
        REQ(c, obs(*ra) == obs(*rb), w, " reverse element ", i, ": ", obs(*ra), " instead of ", obs(*rb));
    }
    REQ_EQ(c, a == x.end(), b == n.end(), w, " end");
    const u128 cnt = val(n.size());
    if (cnt) {
        const u128 i = g::number(s, n.front().version() == ip_version::V4 ? 32 : 128) % cnt;
        REQ(c, obs(x[u(i)]) == obs(n[conv_count(n.size(), i)]), w, " element ", dec(i));
        REQ(c, obs(*(x.begin() + u(i))) == obs(x[u(i)]), w, " begin() + ", dec(i));
    }
}
template <typename N> static void net_ops(Src& s, Ctx& c, const Net& mn) {
    typedef typename Tr<N>::A A;
    const N n = mknet<N>(mn);
    ip_network x;
    std::string how;
    switch (s.below(5)) {
        case 0: x = n; how = "assigned"; break;
        case 1: x = ip_network::parse(fmt(mn, (Fmt) s.below(3))); how = "parsed"; break;
        case 2: { error_code e = stale(s); x = ip_network::from_address(lib(mn.a), e, (size_t) mn.p); how = "from address"; REQ(c, e == error_code::no_error, "from_address of ", mn); break; }
        case 3: { x = mn.a.ver == 4 ? mknet<ip_network>(Net(Addr(6, g::number(s, 128), g::ascii_scope(s)), 128)) : mknet<ip_network>(Net(Addr(4, 7), 32)); x = n; how = "assigned over the other version"; break; }
        default: { ip_network t(n); ip_network y; y.swap(t); x = std::move(y); how = "swapped"; }
    }
    const std::string w = str(mn, " ", how);
    NOTE(c, w);
    if (mn.p > 0 && mn.p < mn.bits()) c.nontrivial();
    SUB(c, net_queries(c, x, n, w));
    SUB(c, net_inside(c, x, n, w));
    // sequences
    SUB(c, seq_alike(s, c, x.hosts(), n.hosts(), w + " hosts"));
    const size_t d = s.below(4) == 3 ? s.below(140) : s.below(6);
    const bool by_new = s.below(3) == 2;
    const size_t np = by_new ? (size_t) g::prefix(s, mn.bits()) : 0;
    const size_t diff = by_new ? 1 : d;
    const ip::optional<size_t> opt = by_new ? ip::optional<size_t>(np) : ip::optional<size_t>();
    {
        error_code e1 = stale(s), e2 = stale(s);
        const auto q1 = x.subnets(e1, diff, opt);
        const auto q2 = n.subnets(e2, diff, opt);
        REQ_EQ(c, (int) e1, (int) e2, w, " subnets code, diff ", diff);
        c.label(e1 == error_code::no_error ? "subnets" : "subnets refused");
        if (e1 == error_code::no_error) SUB(c, seq_alike(s, c, q1, q2, str(w, " subnets ", diff, " ", by_new ? (int) np : -1)));
        const Outcome o1 = attempt([&] { const auto r = x.subnets(diff, opt); (void) r; }), o2 = attempt([&] { const auto r = n.subnets(diff, opt); (void) r; });
        REQ(c, o1.threw == o2.threw && o1.code == o2.code && o1.is_logic == o2.is_logic && o1.is_parse == o2.is_parse, w, " throwing subnets");
    }
    {
        error_code e1 = stale(s), e2 = stale(s);
        const ip_network r1 = x.supernet(e1, diff, opt);
        const N r2 = n.supernet(e2, diff, opt);
        REQ_EQ(c, (int) e1, (int) e2, w, " supernet code, diff ", diff);
        c.label(e1 == error_code::no_error ? "supernet" : "supernet refused");
        if (e1 == error_code::no_error) REQ(c, r1 == ip_network(r2), w, " supernet is ", obs(r1), " instead of ", obs(r2));
        const Outcome o1 = attempt([&] { const auto r = x.supernet(diff, opt); (void) r; }), o2 = attempt([&] { const auto r = n.supernet(diff, opt); (void) r; });
        REQ(c, o1.threw == o2.threw && o1.code == o2.code && o1.is_logic == o2.is_logic && o1.is_parse == o2.is_parse, w, " throwing supernet");
    }
    // relations
    const Net mo = g::relative(s, mn);
    const N o = mknet<N>(mo);
    const ip_network y = o;
    ALIKE(c, x.overlaps(y), n.overlaps(o), str(w, " ", mo));
    ALIKE(c, x.subnet_of(y), n.subnet_of(o), str(w, " ", mo));
    ALIKE(c, x.supernet_of(y), n.supernet_of(o), str(w, " ", mo));
    ALIKE(c, x == y, n == o, str(w, " ", mo));
    ALIKE(c, x < y, n < o, str(w, " ", mo));
    ALIKE(c, x > y, n > o, str(w, " ", mo));
    {
        Addr a = mo.a;
        if (s.flip()) a.v = mn.last() + s.below(2);
        a.v &= ones(a.bits());
        ALIKE(c, x.contains(lib(a)), n.contains(Mk<A>::from(a)), str(w, " ", a));
    }
    {
        error_code e1 = stale(s), e2 = stale(s);
        const auto q1 = x.address_exclude(y, e1);
        const auto q2 = n.address_exclude(o, e2);
        REQ_EQ(c, (int) e1, (int) e2, w, " exclude ", mo);
        std::vector<Net> v1, v2;
        for (auto it = q1.begin(); it != q1.end() && v1.size() < 200; ++it) v1.push_back(obs(*it));
        for (auto it = q2.begin(); it != q2.end() && v2.size() < 200; ++it) v2.push_back(obs(*it));
        REQ(c, v1 == v2, w, " excluding ", mo, ": ", v1.size(), " networks instead of ", v2.size());
        c.label(e1 == error_code::no_error ? "excluded" : "exclusion refused");
    }
    // the other version: never related, exclusion refused
    const Net other = mn.a.ver == 4 ? Net(Addr(6, mn.a.v), mn.p) : Net(Addr(4, mn.a.v & maskof(32, mn.p > 32 ? 32 : mn.p)), mn.p > 32 ? 32 : mn.p);
    const Net oth = Net(Addr(other.a.ver, other.a.v & maskof(other.bits(), other.p)), other.p);
    const ip_network z = mknet<ip_network>(oth);
    REQ(c, !x.overlaps(z) && !z.overlaps(x) && !x.subnet_of(z) && !x.supernet_of(z) && !z.subnet_of(x) && x != z && !x.contains(z.network_address()), "networks of different versions must be unrelated: ", w, " and ", oth);
    error_code e = stale(s);
    const auto q3 = x.address_exclude(z, e);
    REQ(c, e == error_code::invalid_version && q3.begin() == q3.end(), "excluding a network of the other version must be refused: ", w, " and ", oth);
    c.obs(mn.p);
}
static void network4(Src& s, Ctx& c) { net_ops<ipv4_network>(s, c, g::net4(s)); }
static void network6(Src& s, Ctx& c) { net_ops<ipv6_network>(s, c, g::net6s(s)); }
static void from_address(Src& s, Ctx& c) {
    const Addr a = g::addr(s);
    const size_t p = s.flip() ? (size_t) g::prefix(s, a.bits()) : s.flip() ? s.below(200) : (size_t) s.bits64();
    const bool strict = s.flip();
    NOTE(c, a, " prefix ", p, strict ? " strict" : "");
    c.nontrivial();
    error_code e1 = stale(s), e2 = stale(s);
    const ip_network x = ip_network::from_address(lib(a), e1, p, strict);
    Outcome o1 = attempt([&] { const ip_network r = ip_network::from_address(lib(a), p, strict); (void) r; }), o2;
    if (a.ver == 4) {
        const ipv4_network n = ipv4_network::from_address(lib4(a), e2, p, strict);
        o2 = attempt([&] { const ipv4_network r = ipv4_network::from_address(lib4(a), p, strict); (void) r; });
        REQ_EQ(c, (int) e1, (int) e2, "from_address code of ", a, "/", p);
        if (e1 == error_code::no_error) REQ(c, x == ip_network(n) && x.is_v4(), "from_address of ", a, "/", p);
    } else {
        const ipv6_network n = ipv6_network::from_address(lib6(a), e2, p, strict);
        o2 = attempt([&] { const ipv6_network r = ipv6_network::from_address(lib6(a), p, strict); (void) r; });
        REQ_EQ(c, (int) e1, (int) e2, "from_address code of ", a, "/", p);
        if (e1 == error_code::no_error) REQ(c, x == ip_network(n) && x.is_v6(), "from_address of ", a, "/", p);
    }
    REQ(c, o1.threw == o2.threw && o1.code == o2.code && o1.is_logic == o2.is_logic && o1.is_parse == o2.is_parse, "throwing from_address of ", a, "/", p);
}
// one object re-assigned again and again, with both versions
static void reassigned(Src& s, Ctx& c) {
    ip_address x;
    ip_network y;
    Addr a;
    Net n(Addr(), 32);
    const size_t k = s.range(2, 8);
    std::string log;
    for (size_t i = 0; i < k; ++i) {
        switch (s.below(6)) {
            case 0: a = g::addr4(s); x = lib4(a); break;
            case 1: a = g::addr6(s); x = lib6(a); break;
            case 2: { a = g::addr(s); ip_address t = lib(a); x.swap(t); break; }
            case 3: { a = g::addr(s); error_code e = stale(s); x = ip_address::parse(fmt(a, COMPRESSED), e); break; }
            case 4: a = g::addr(s); x = lib(a); break;
            default: { error_code e = stale(s); x = ip_address::parse("not an address", e); a = Addr(); break; }
        }
        switch (s.below(4)) {
            case 0: n = g::net4(s); y = mknet<ipv4_network>(n); break;
            case 1: n = g::net6s(s); y = mknet<ipv6_network>(n); break;
            case 2: { n = s.flip() ? g::net6s(s) : g::net4(s); ip_network t = mknet<ip_network>(n); y.swap(t); break; }
            default: n = s.flip() ? g::net6s(s) : g::net4(s); y = mknet<ip_network>(n);
        }
        log += str(" ", a, " ", n);
        SUB(c, addr_all(c, x, a, "re-assigned:" + log));
        if (n.a.ver == 4) { SUB(c, net_queries(c, y, mknet<ipv4_network>(n), "re-assigned:" + log)); SUB(c, net_inside(c, y, mknet<ipv4_network>(n), log)); }
        else { SUB(c, net_queries(c, y, mknet<ipv6_network>(n), "re-assigned:" + log)); SUB(c, net_inside(c, y, mknet<ipv6_network>(n), log)); }
    }
    NOTE(c, log);
    c.nontrivial();
}
// scope ids set through every overload: the same outcome as on the versioned value
template <typename C> static void scope_as(Src& s, Ctx& c, const Addr& a, const std::string& t, bool high) {
    std::basic_string<C> w = widen<C>(t);
    if (high && !w.empty()) { const size_t at = s.below(w.size()); w[at] = (C) (sizeof(C) == 1 ? 0x80 + s.below(128) : 0x80 + s.below(0xFF00)); }
    const std::string what = str("set_scope_id of ", qw(w), " (", sizeof(C), "-byte characters) on ", a);
    const ip_address start = lib(a);
    ip_address x = start, y = start;
    error_code e = stale(s);
    x.set_scope_id(w, e);
    const Outcome o = attempt([&] { y.set_scope_id(w); });
    if (a.ver == 4) {
        REQ_EQ(c, (int) e, (int) error_code::no_error, what);
        REQ(c, !o.threw && x == start && y == start, what, " has no effect");
    } else {
        ipv6_address z = lib6(a), u = z;
        error_code e2 = stale(s);
        z.set_scope_id(w, e2);
        const Outcome o2 = attempt([&] { u.set_scope_id(w); });
        REQ_EQ(c, (int) e, (int) e2, what, " code");
        REQ(c, x == ip_address(z) && x.v6().value() == z, what, " leaves ", obs(x), ", the versioned address ", obs(z));
        REQ(c, y == ip_address(u) && y.v6().value() == u, what, " without a code leaves ", obs(y), ", the versioned address ", obs(u));
        REQ_EQ(c, o.threw, o2.threw, what, " throws");
        REQ_EQ(c, o.code, o2.code, what, " thrown code");
        REQ(c, o.what == o2.what && o.is_parse == o2.is_parse && o.is_logic == o2.is_logic, what, " thrown error: ", q(o.what), " and ", q(o2.what));
    }
    if (SCOPE_MAX && w.size() <= SCOPE_MAX) {
        C buf[SCOPE_MAX + 1] = {};
        for (size_t i = 0; i < w.size(); ++i) buf[i] = w[i];
        ip_address p = start;
        const Outcome oa = attempt([&] { p.set_scope_id(buf); });
        if (a.ver == 4) { REQ(c, !oa.threw && p == start, what, " as an array has no effect"); return; }
        ipv6_address v = lib6(a);
        const Outcome ob = attempt([&] { v.set_scope_id(buf); });
        REQ_EQ(c, oa.threw, ob.threw, what, " as an array throws");
        REQ_EQ(c, oa.code, ob.code, what, " as an array, thrown code");
        REQ(c, p == ip_address(v), what, " as an array leaves ", obs(p), ", the versioned address ", obs(v));
    }
}
static void scope_setters(Src& s, Ctx& c) {
    const Addr a = s.below(4) ? g::addr6(s) : g::addr4(s);
    std::string t = g::good_scope(s);
    if (s.below(3) == 2) g::mutate(s, t);
    if (s.below(8) == 7) t += std::string(s.below(SCOPE_MAX + 4), 'x');
    const bool high = s.below(5) == 4;
    NOTE(c, "scope id ", q(t), " on ", a);
    if (!t.empty()) c.nontrivial();
    SUB(c, scope_as<char>(s, c, a, t, high));
    SUB(c, scope_as<wchar_t>(s, c, a, t, high));
    SUB(c, scope_as<char16_t>(s, c, a, t, high));
    SUB(c, scope_as<char32_t>(s, c, a, t, high));
#ifdef __cpp_char8_t
    SUB(c, scope_as<char8_t>(s, c, a, t, high));
#endif
}
static const pbt::Facet F[] = {{"address", 5, address}, {"texts", 4, texts}, {"net_texts", 3, net_texts}, {"network4", 4, network4}, {"network6", 4, network6}, {"from_address", 2, from_address}, {"reassigned", 2, reassigned}, {"scope_setters", 2, scope_setters}};
PBT_MAIN("P23", F)
