#include "entry.hpp"
using namespace m;

template <typename N, typename C> static void back(Src& s, Ctx& c, const N& a, const std::basic_string<C>& t, const std::string& want, const char* what) {
    REQ_EQ(c, qw(t), qw(widen<C>(want)), what);
    error_code e = stale(s);
    N b = s.flip() ? N::parse(t, e) : N::parse(t, e, true);
    REQ_EQ(c, (int) e, 0, what, " does not parse back strictly: ", qw(t));
    REQ(c, b == a && !(b != a), what, " parses back to ", obs(b), " instead of ", obs(a));
    REQ(c, b.hash() == a.hash(), what, " hash after the round trip");
    REQ_EQ(c, b.prefixlen(), a.prefixlen(), what, " prefix after the round trip");
    REQ(c, b.network_address() == a.network_address() && b.broadcast_address() == a.broadcast_address() && b.netmask() == a.netmask() && b.hostmask() == a.hostmask(),
        what, " attributes after the round trip");
    b = N::parse(t, e, false);
    REQ(c, e == error_code::no_error && b == a, what, " parsed non-strictly");
}
template <typename N> static void check(Src& s, Ctx& c, const Net& m) {
    const N a = mknet<N>(m);
    NOTE(c, Tr<N>::name(), " ", m);
    REQ_EQ(c, obs(a), m, "construction");
    const std::string nm = Tr<N>::name();
    for (int f = 0; f < 3; ++f) {
        const std::string want = fmt(m, (Fmt) f);
        const ip::format lf = libfmt((Fmt) f);
        SUB(c, back(s, c, a, a.to_string(lf), want, (nm + "::to_string").c_str()));
        if (ascii(m.a.scope)) {
            SUB(c, back(s, c, a, a.to_wstring(lf), want, (nm + "::to_wstring").c_str()));
            SUB(c, back(s, c, a, a.to_u16string(lf), want, (nm + "::to_u16string").c_str()));
            SUB(c, back(s, c, a, a.to_u32string(lf), want, (nm + "::to_u32string").c_str()));
#if __cpp_char8_t >= 201811L
            SUB(c, back(s, c, a, a.to_u8string(lf), want, (nm + "::to_u8string").c_str()));
#endif
        }
    }
    const std::string cw = fmt(m, COMPRESSED);
    REQ_EQ(c, q(a.to_string()), q(cw), "default format");
    REQ_EQ(c, q((std::string) a), q(cw), "std::string conversion");
    if (ascii(m.a.scope)) {
        REQ_EQ(c, qw((std::wstring) a), qw(widen<wchar_t>(cw)), "std::wstring conversion");
        REQ_EQ(c, qw((std::u16string) a), qw(widen<char16_t>(cw)), "std::u16string conversion");
        REQ_EQ(c, qw((std::u32string) a), qw(widen<char32_t>(cw)), "std::u32string conversion");
        REQ_EQ(c, qw(a.to_wstring()), qw(widen<wchar_t>(cw)), "default format, wide");
        REQ_EQ(c, qw(a.to_u16string()), qw(widen<char16_t>(cw)), "default format, UTF-16");
        REQ_EQ(c, qw(a.to_u32string()), qw(widen<char32_t>(cw)), "default format, UTF-32");
#if __cpp_char8_t >= 201811L
        REQ_EQ(c, qw((std::u8string) a), qw(widen<char8_t>(cw)), "std::u8string conversion");
        REQ_EQ(c, qw(a.to_u8string()), qw(widen<char8_t>(cw)), "default format, UTF-8");
#endif
    }
#ifndef IPADDRESS_NO_OVERLOAD_STD
    REQ_EQ(c, q(std::to_string(a)), q(cw), "std::to_string");
    if (ascii(m.a.scope)) REQ_EQ(c, qw(std::to_wstring(a)), qw(widen<wchar_t>(cw)), "std::to_wstring");
#endif
    // the three IPv4 ways to write the prefix
    if (m.a.ver == 4) {
        error_code e = stale(s);
        const N x = N::parse(fmt4(m.a.v) + "/" + fmt4(maskof(32, m.p)), e);
        REQ(c, e == error_code::no_error && x == a, "netmask form of ", m, " code ", (int) e, " got ", obs(x));
        if (m.p != 0 && m.p != 32) {
            const N y = N::parse(fmt4(m.a.v) + "/" + fmt4(ones(32 - m.p)), e);
            REQ(c, e == error_code::no_error && y == a, "hostmask form of ", m, " code ", (int) e, " got ", obs(y));
        }
    }
    if (m.p == m.bits()) {
        error_code e = stale(s);
        const N x = N::parse(fmt(m.a, COMPRESSED), e);
        REQ(c, e == error_code::no_error && x == a, "text without '/' of ", m);
    }
}
static void v4(Src& s, Ctx& c) {
    const Net m = g::net4(s);
    if (m.p && m.p < 32) c.nontrivial();
    SUB(c, check<ipv4_network>(s, c, m));
    SUB(c, check<ip_network>(s, c, m));
}
static void v6(Src& s, Ctx& c) {
    Net m = g::net6s(s);
    if (SCOPE_MAX && s.below(12) == 11) m.a.scope = g::good_scope(s);
    if (m.p && m.p < 128) c.nontrivial();
    if (!m.a.scope.empty()) c.label("has a scope id");
    SUB(c, check<ipv6_network>(s, c, m));
    SUB(c, check<ip_network>(s, c, m));
}
// every prefix length of one address
static void all_prefixes(Src& s, Ctx& c) {
    const Addr a = s.flip() ? g::addr6(s, 1000000) : g::addr4(s);
    c.nontrivial();
    for (int p = 0; p <= a.bits(); ++p) {
        const Net m = g::net_of(a, p);
        const ip_network n = mknet<ip_network>(m);
        const std::string t = n.to_string();
        REQ_EQ(c, q(t), q(fmt(m, COMPRESSED)), "to_string of /", p);
        error_code e = stale(s);
        const ip_network b = ip_network::parse(t, e);
        REQ(c, e == error_code::no_error && b == n && b.prefixlen() == (size_t) p && b.hash() == n.hash(), "round trip of ", q(t));
    }
    NOTE(c, "all prefixes of ", a);
}
static const pbt::Facet F[] = {{"v4", 4, v4}, {"v6", 5, v6}, {"all_prefixes", 1, all_prefixes}};
PBT_MAIN("P06", F)
