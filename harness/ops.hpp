// Generated operations over the whole API; everything observed is folded into the digest (P27, P32).
#ifndef OPS_HPP
#define OPS_HPP
#include "seq.hpp"
#include <cmath>
using namespace m;
namespace {
// no setting changes the meaning of what is generated
const bool narrowed = (g::gen_scope_max = 3, g::gen_ascii_only = true, true);
// text whose meaning no setting changes
bool neutral(const std::string& t) {
    if (!ascii(t)) return false;
    const size_t p = t.find('%');
    if (p == std::string::npos) return true;
    const size_t e = t.find('/', p);
    const std::string sc = t.substr(p + 1, e == std::string::npos ? e : e - p - 1);
    if (sc.size() > 3) return false;
    for (size_t i = 0; i < sc.size(); ++i) if (sc[i] <= 0x20 || sc[i] >= 0x7f) return false;
    return true;
}
std::string show(const ip::scope& s) { return s.get_string() + (s.has_uint32() ? "#" + dec(s.get_uint32()) : ""); }
template <typename T> std::string opt(const ip::optional<T>& o) { return o.has_value() ? str(obs(o.value())) : "-"; }
std::string opt(const ip::optional<std::pair<ipv4_address, ipv4_address>>& o) { return o.has_value() ? str(obs(o.value().first), "+", obs(o.value().second)) : "-"; }
template <typename T> std::string flags(const T& x) {
    std::string r;
    const bool b[] = {x.is_multicast(), x.is_private(), x.is_global(), x.is_reserved(), x.is_loopback(), x.is_link_local(), x.is_unspecified()};
    for (size_t i = 0; i < 7; ++i) r += b[i] ? '1' : '0';
    return r;
}
template <typename T> std::string texts(const T& x) {
    std::string r;
    static const ip::format fs[] = {ip::format::full, ip::format::compact, ip::format::compressed};
    for (size_t i = 0; i < 3; ++i) {
        r += x.to_string(fs[i]) + " ";
        if (narrow(x.to_wstring(fs[i])) != x.to_string(fs[i])) r += "wide differs ";
        if (narrow(x.to_u16string(fs[i])) != x.to_string(fs[i])) r += "u16 differs ";
        if (narrow(x.to_u32string(fs[i])) != x.to_string(fs[i])) r += "u32 differs ";
    }
    return r + (std::string) x;
}
std::string more(const ipv4_address& x) { return dec(val(x.to_uint())) + " " + dec((uint32_t) x); }
std::string more(const ipv6_address& x) { return dec(val(x.to_uint())) + " " + show(x.get_scope_id()) + (x.is_site_local() ? " site " : " ") + opt(x.ipv4_mapped()) + opt(x.sixtofour()) + opt(x.teredo()); }
std::string more(const ip_address& x) { return (x.is_v4() ? "4 " + dec(x.to_uint32()) : "6 ") + " " + dec(val(x.to_uint128())) + " " + show(x.get_scope_id()) + (x.is_site_local() ? " site " : " ") + opt(x.ipv4_mapped()) + opt(x.sixtofour()) + opt(x.teredo()); }
template <typename A> std::string full(const A& x) {
    std::string r = texts(x) + " " + flags(x) + " " + more(x) + " " + x.reverse_pointer() + " " + dec(x.hash()) + " " + dec(x.size());
    for (size_t i = 0; i < x.size(); ++i) r += "," + dec(x.data()[i]);
    return r;
}
template <typename N> std::string fulln(const N& x) {
    return texts(x) + " " + flags(x) + " " + dec(x.prefixlen()) + " " + str(obs(x.network_address()), " ", obs(x.broadcast_address()), " ", obs(x.netmask()), " ", obs(x.hostmask())) + " " + dec(val(x.addresses_count())) + " " + dec(x.hash());
}
template <typename T> std::string rel(const T& a, const T& b) {
    const bool r[] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
    std::string o;
    for (size_t i = 0; i < 6; ++i) o += r[i] ? '1' : '0';
    return o;
}
std::string code(error_code e) { return dec((u64) (int) e); }
std::string seen(const ipv4_address& x) { return full(x); }
std::string seen(const ipv6_address& x) { return full(x); }
std::string seen(const ip_address& x) { return full(x); }
template <typename N> std::string seen(const N& x) { return fulln(x); }

// ---- parsing: every character type, both forms -----------------------------------------------------
template <typename T, typename C, typename... X> void one(Src& s, Ctx& c, const std::basic_string<C>& t, X... x) {
    error_code e = error_code::no_error;
    const T r = T::parse(t, e, x...);
    c.obs(Tr<T>::name() + code(e) + (e == error_code::no_error ? seen(r) : ""));
    if (t.size() < 63) {
        C buf[64] = {};
        for (size_t i = 0; i < t.size(); ++i) buf[i] = t[i];
        error_code e2 = error_code::no_error;
        const T r2 = T::parse(buf, e2, x...);
        c.obs(code(e2) + (e2 == error_code::no_error ? seen(r2) : ""));
    }
    if (THROWS || e == error_code::no_error) {  // without exceptions a failing call of this form has no result to compare
        T r3;
        const Outcome o = attempt([&] { r3 = T::parse(t, x...); });
        c.obs(o.threw ? "threw " + code((error_code) o.code) : seen(r3));
    } else c.obs("threw " + code(e));
    (void) s;
}
template <typename C> void all_types(Src& s, Ctx& c, const std::basic_string<C>& t) {
    const bool strict = s.flip();
    // read as an address, a prefix after a scope would be part of the scope, and too long for some of the settings
    const std::string n = narrow(t);
    if (n.find('%') == std::string::npos || n.find('/') == std::string::npos) { one<ipv4_address>(s, c, t); one<ipv6_address>(s, c, t); one<ip_address>(s, c, t); }
    one<ipv4_network>(s, c, t, strict); one<ipv6_network>(s, c, t, strict); one<ip_network>(s, c, t, strict);
}
void parsing(Src& s, Ctx& c) {
    const std::string t = s.below(4) == 3 ? g::text4(s) : s.flip() ? g::text6(s) : g::net_text(s, s.flip() ? 4 : 6);
    NOTE(c, q(t));
    const size_t kind = s.below(4);
    if (!neutral(t)) return;
    c.nontrivial(t.size() > 3);
    switch (kind) {
        case 0: return all_types(s, c, t);
        case 1: return all_types(s, c, widen<wchar_t>(t));
        case 2: return all_types(s, c, widen<char16_t>(t));
        default: return all_types(s, c, widen<char32_t>(t));
    }
}
// ---- non-ASCII code units in the wide types ------------------------------------------------------------
template <typename C> void wide_case(Src& s, Ctx& c) {
    std::basic_string<C> t = widen<C>(s.flip() ? g::text4(s) : g::some6(s));
    if (!neutral(narrow(t))) return;
    const size_t n = s.range(1, 2);
    for (size_t i = 0; i < n; ++i) {
        static const u64 odd[] = {0xd800, 0xdbff, 0xdc00, 0xdfff, 0xffff, 0x10ffff, 0x110000, 0x7fffffff, 0x80, 0xff, 0x7ff, 0x800, 0x130, 0x2f2f, 0x661, 0xff11};
        const size_t at = s.below(t.size() + 1);
        t.insert(t.begin() + (ptrdiff_t) at, (C) s.pick(odd));
    }
    c.nontrivial();
    NOTE(c, qw(t));
    all_types(s, c, t);
}
void encodings(Src& s, Ctx& c) {
    switch (s.below(3)) {
        case 0: return wide_case<char16_t>(s, c);
        case 1: return wide_case<char32_t>(s, c);
        default: return wide_case<wchar_t>(s, c);
    }
}
// ---- values ------------------------------------------------------------------------------------------------
template <typename A> void addresses(Src& s, Ctx& c) {
    const Addr a = g::AddrGen<A>::gen(s), b = s.flip() ? g::AddrGen<A>::gen(s) : [&] { Addr k = a; k.v = (k.v + s.below(3)) & ones(k.bits()); return k; }();
    NOTE(c, a, " ", b);
    c.nontrivial(a.v > 255);
    const A x = Mk<A>::from(a), y = Mk<A>::from(b);
    c.obs(full(x));
    c.obs(rel(x, y) + rel(y, x) + rel(x, x));
    A p = x, r = y;
    p.swap(r);
    c.obs(p.to_string() + r.to_string());
}
void v4ints(Src& s, Ctx& c) {
    const uint32_t v = (uint32_t) g::number(s, 32);
    NOTE(c, v);
    c.nontrivial(v > 255);
    c.obs(full(ipv4_address::from_uint(v)));
    c.obs(full(ip_address::from_uint(v)));
    c.obs(full(ipv6_address::from_uint(u(g::number(s, 128)))));
    const size_t len = s.below(20);
    const std::vector<uint8_t> b(len, s.byte());
    c.obs(full(ipv4_address::from_bytes(b.data(), b.size())) + full(ipv6_address::from_bytes(b.data(), b.size())));
}
void scopes(Src& s, Ctx& c) {
    Addr a = g::addr6(s, 2);
    ipv6_address x = lib6(a);
    std::string t = g::good_scope(s);
    if (s.flip()) g::mutate(s, t);
    if (!neutral("%" + t) || t.find('/') != std::string::npos) return;
    NOTE(c, a, " ", q(t));
    c.nontrivial();
    error_code e = error_code::no_error;
    x.set_scope_id(t, e);
    c.obs(code(e) + full(x));
    ip_address y = lib(a);
    y.set_scope_id(widen<char32_t>(t), e);
    c.obs(code(e) + full(y));
    const Addr b = g::addr6(s, 2);
    c.obs(rel(x.get_scope_id(), lib6(b).get_scope_id()));
}
template <typename N> void networks(Src& s, Ctx& c) {
    typedef typename Tr<N>::A A;
    const Net a = g::NetGen<N>::gens(s), b = s.flip() ? g::relative(s, a) : g::NetGen<N>::gens(s);
    NOTE(c, a, " ", b);
    c.nontrivial(a.p > 0 && a.p < a.bits());
    const N x = mknet<N>(a), y = mknet<N>(b);
    c.obs(fulln(x));
    c.obs(rel(x, y) + rel(y, x));
    c.obs(str(x.overlaps(y), x.subnet_of(y), x.supernet_of(y), x.contains(y.network_address())));
    error_code e = error_code::no_error;
    const size_t d = s.flip() ? s.below(8) : s.below(200);
    ip::optional<size_t> np;
    if (s.below(3) == 0) np = s.below(140);
    const N sup = x.supernet(e, d, np);
    c.obs(code(e) + (e == error_code::no_error ? fulln(sup) : ""));
    const auto sub = x.subnets(e, d, np);
    c.obs(code(e));
    if (e == error_code::no_error) {
        auto it = sub.begin();
        for (size_t k = 0; k < 5 && it != sub.end(); ++k, ++it) c.obs((*it).to_string());
        if (sub.begin() != sub.end()) c.obs(sub.front().to_string() + sub.back().to_string() + dec(val(sub.size())));
        auto r = sub.rbegin();
        for (size_t k = 0; k < 3 && r != sub.rend(); ++k, ++r) c.obs((*r).to_string());
    }
    const auto ex = x.address_exclude(y, e);
    c.obs(code(e));
    size_t n = 0;
    if (e == error_code::no_error) for (auto it = ex.begin(); it != ex.end() && n < 300; ++it, ++n) c.obs((*it).to_string());
    const size_t p = s.below(150);
    const bool strict = s.flip();
    const A ad = Mk<A>::from(g::AddrGen<A>::gen(s));
    const N from = N::from_address(ad, e, p, strict);
    c.obs(code(e) + (e == error_code::no_error ? fulln(from) : ""));
    c.obs(str(x.contains(ad)));
}
template <typename N> void hosts(Src& s, Ctx& c) {
    const Net a = g::NetGen<N>::gen(s);
    const SeqModel hm = hosts_model(a);
    NOTE(c, a);
    c.nontrivial(hm.count > 1);
    const auto q = mknet<N>(a).hosts();
    c.obs(dec(val(q.size())) + q.front().to_string() + q.back().to_string());
    const u128 p = position(s, hm) % hm.count, r = position(s, hm) % hm.count;
    typedef decltype(q.size()) Un;
    const Un up = (Un) u(p), ur = (Un) u(r);
    auto i = q.begin() + up, j = q.begin();
    j += ur;
    c.obs((*i).to_string() + (*j).to_string() + rel(i, j) + q[up].to_string() + q.at(ur).to_string());
    int64_t d = 0;
    if (signed_dist(p, r, d) && d != INT64_MIN) c.obs(dec((u64) (j - i)) + (*(i + (j - i))).to_string());
    c.obs(dec(val(p < r ? j.uint_diff(i) : i.uint_diff(j))));
    auto k = i;
    if (p + 1 < hm.count) { ++k; c.obs((*k).to_string()); --k; }
    if (p > 0) { k--; c.obs((*k).to_string()); }
}
// ---- 128-bit integers ------------------------------------------------------------------------------------
void integers(Src& s, Ctx& c) {
    const u128 ma = g::number(s, 128), mb = s.flip() ? g::number(s, 128) : s.flip() ? g::number(s, 64) : ma + s.below(5) - 2;
    const uint128_t a = u(ma), b = u(mb);
    NOTE(c, dec(ma), " ", dec(mb));
    c.nontrivial(ma >> 64 != 0);
    c.obs(dec(val(a + b)) + " " + dec(val(a - b)) + " " + dec(val(a * b)) + " " + dec(val(a & b)) + " " + dec(val(a | b)) + " " + dec(val(a ^ b)) + " " + dec(val(~a)) + " " + dec(val(-a)));
    if (mb) c.obs(dec(val(a / b)) + " " + dec(val(a % b)));
    const int n = (int) s.below(128);
    c.obs(dec(val(a << n)) + " " + dec(val(a >> n)) + rel(a, b));
    c.obs(a.to_string() + a.to_string(uint128_t::format::hexadecimal) + a.to_string(uint128_t::format::octal) + dec(a.hash()));
    char f[64];
    snprintf(f, sizeof f, "%a %a %La", (double) a, (double) (float) a, (long double) a);
    c.obs(std::string(f));
    c.obs(dec((uint64_t) a) + dec((uint32_t) a) + dec((u64) (int64_t) (int) a) + dec((unsigned char) a));
    const double d = std::ldexp((double) (u64) (ma >> 64), (int) s.below(64));
    c.obs(dec(val(uint128_t(d))));
    std::string t = s.flip() ? a.to_string() : s.flip() ? a.to_string(uint128_t::format::hexadecimal) : a.to_string(uint128_t::format::octal);
    if (s.flip()) g::mutate(s, t);
    if (!ascii(t) || t.find('\0') != std::string::npos) return;
    static const uint128_t::format fs[] = {uint128_t::format::decimal, uint128_t::format::hexadecimal, uint128_t::format::octal};
    for (size_t i = 0; i < 3; ++i) {
        const auto o = uint128_t::from_string(t, fs[i]);
        const auto o2 = uint128_t::from_string(widen<char16_t>(t), fs[i]);
        c.obs((o ? dec(val(o.value())) : "-") + (o2 ? dec(val(o2.value())) : "-"));
    }
}
const pbt::Facet OPS[] = {{"parsing", 8, parsing}, {"encodings", 2, encodings}, {"v4", 2, addresses<ipv4_address>}, {"v6", 3, addresses<ipv6_address>}, {"any", 3, addresses<ip_address>},
    {"ints", 2, v4ints}, {"scopes", 2, scopes}, {"net4", 3, networks<ipv4_network>}, {"net6", 3, networks<ipv6_network>}, {"netany", 4, networks<ip_network>},
    {"hosts4", 2, hosts<ipv4_network>}, {"hosts6", 2, hosts<ipv6_network>}, {"hostsany", 2, hosts<ip_network>}, {"integers", 4, integers}};
}  // namespace
#endif
