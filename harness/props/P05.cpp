#include "entry.hpp"
using namespace m;

template <typename A> struct Out;
template <typename A, typename C> static void back(Src& s, Ctx& c, const A& a, const std::basic_string<C>& t, const std::string& want, const char* what) {
    REQ_EQ(c, qw(t), qw(widen<C>(want)), what);
    error_code e = stale(s);
    A b = A::parse(t, e);
    REQ_EQ(c, (int) e, 0, what, " does not parse back: ", qw(t));
    REQ(c, b == a, what, " parses back to ", obs(b), " instead of ", obs(a));
    REQ(c, b.hash() == a.hash(), what, " hash after the round trip");
    REQ(c, !(b != a), what, " != after the round trip");
}
template <typename A> static void check(Src& s, Ctx& c, const Addr& m) {
    const A a = Mk<A>::from(m);
    NOTE(c, Tr<A>::name(), " ", m);
    const std::string nm = Tr<A>::name();
    for (int f = 0; f < 3; ++f) {
        const std::string want = fmt(m, (Fmt) f);
        const ip::format lf = libfmt((Fmt) f);
        SUB(c, back(s, c, a, a.to_string(lf), want, (nm + "::to_string").c_str()));
        if (ascii(m.scope)) {
            SUB(c, back(s, c, a, a.to_wstring(lf), want, (nm + "::to_wstring").c_str()));
            SUB(c, back(s, c, a, a.to_u16string(lf), want, (nm + "::to_u16string").c_str()));
            SUB(c, back(s, c, a, a.to_u32string(lf), want, (nm + "::to_u32string").c_str()));
#if __cpp_char8_t >= 201811L
            SUB(c, back(s, c, a, a.to_u8string(lf), want, (nm + "::to_u8string").c_str()));
#endif
        }
    }
    const std::string cw = fmt(m, COMPRESSED);
    REQ_EQ(c, q(a.to_string()), q(cw), "default format");
    REQ_EQ(c, q((std::string) a), q(cw), "std::string conversion");
    if (ascii(m.scope)) {
        REQ_EQ(c, qw((std::wstring) a), qw(widen<wchar_t>(cw)), "std::wstring conversion");
        REQ_EQ(c, qw((std::u16string) a), qw(widen<char16_t>(cw)), "std::u16string conversion");
        REQ_EQ(c, qw((std::u32string) a), qw(widen<char32_t>(cw)), "std::u32string conversion");
        REQ_EQ(c, qw(a.to_wstring()), qw(widen<wchar_t>(cw)), "default format, wide");
        REQ_EQ(c, qw(a.to_u16string()), qw(widen<char16_t>(cw)), "default format, UTF-16");
        REQ_EQ(c, qw(a.to_u32string()), qw(widen<char32_t>(cw)), "default format, UTF-32");
#if __cpp_char8_t >= 201811L
        REQ_EQ(c, qw((std::u8string) a), qw(widen<char8_t>(cw)), "std::u8string conversion");
        REQ_EQ(c, qw(a.to_u8string()), qw(widen<char8_t>(cw)), "default format, UTF-8");
#endif
    }
#ifndef IPADDRESS_NO_OVERLOAD_STD
    REQ_EQ(c, q(std::to_string(a)), q(cw), "std::to_string");
    if (ascii(m.scope)) REQ_EQ(c, qw(std::to_wstring(a)), qw(widen<wchar_t>(cw)), "std::to_wstring");
#endif
    REQ_EQ(c, q(a.reverse_pointer()), q(reverse_pointer(m)), "reverse_pointer of ", m);
    // upper-case digits denote the same address
    std::string up = cw;
    for (size_t i = 0; i < up.size() && up[i] != '%'; ++i) up[i] = (char) toupper((unsigned char) up[i]);
    error_code e = stale(s);
    A b = A::parse(up, e);
    REQ(c, e == error_code::no_error && b == a, "upper-cased text ", q(up));
}
static void v4(Src& s, Ctx& c) {
    const Addr m = g::addr4(s);
    if (m.v) c.nontrivial();
    SUB(c, check<ipv4_address>(s, c, m));
    SUB(c, check<ip_address>(s, c, m));
}
static void v6(Src& s, Ctx& c) {
    Addr m = g::addr6(s, 4);
    if (SCOPE_MAX && s.below(12) == 11) { std::string sc = g::good_scope(s); m.scope = sc; }
    if (m.v) c.nontrivial();
    if (fmt6(m.v, COMPRESSED) != fmt6(m.v, COMPACT)) c.label("has a compressed run");
    if (!m.scope.empty()) c.label("has a scope id");
    SUB(c, check<ipv6_address>(s, c, m));
    SUB(c, check<ip_address>(s, c, m));
}
// every pattern of zero and non-zero hextets
static void zero_runs(Src& s, Ctx& c) {
    const unsigned zero = (unsigned) s.below(256);
    u128 v = 0;
    for (int i = 0; i < 8; ++i) {
        unsigned h = 0;
        if (!(zero >> i & 1)) { static const unsigned hv[] = {1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xa0b0}; h = s.pick(hv); }
        v = v << 16 | h;
    }
    if (zero) c.nontrivial();
    SUB(c, check<ipv6_address>(s, c, Addr(6, v)));
}
static const pbt::Facet F[] = {{"v4", 3, v4}, {"v6", 5, v6}, {"zero_runs", 3, zero_runs}};
PBT_MAIN("P05", F)
