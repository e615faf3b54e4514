// More generated operations, for checks that compare two executions with the same settings (P32, P34): streams, exception
// messages, and what P27 leaves out because settings change it.
#ifndef EXTRA_HPP
#define EXTRA_HPP
#include "ops.hpp"
namespace {
// ---- streams and exceptions, beside the operations of P27 -------------------------------------------------------------------
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <typename A, typename N> void streams_of(Src& s, Ctx& c) {
    const Addr a = g::AddrGen<A>::gen(s);
    const Net n = g::NetGen<N>::gen(s);
    std::ostringstream o;
    const size_t k = s.range(1, 6);
    for (size_t i = 0; i < k; ++i) {
        switch (s.below(4)) {
            case 0: o << ip::full; break;
            case 1: o << ip::compact; break;
            case 2: o << ip::compressed; break;
            default: break;
        }
        if (s.flip()) o << std::setw((int) s.below(50)) << std::setfill('*') << (s.flip() ? std::left : std::right);
        o << (s.flip() ? std::uppercase : std::nouppercase);
        if (s.flip()) o << Mk<A>::from(a); else o << mknet<N>(n);
        o << ' ' << (s.flip() ? std::hex : std::dec) << u(a.v) << ' ';
    }
    std::wostringstream w;
    w << Mk<A>::from(a) << L' ' << mknet<N>(n);
    c.obs(o.str() + narrow(w.str()));
    std::istringstream in(fmt(a, COMPRESSED) + " " + fmt(n, FULL) + " " + fmt(a, COMPACT) + "/3 " + dec(a.v));
    A ra;
    N rn, rl;
    uint128_t ru;
    in >> ra >> rn;
    if (s.flip()) in >> ip::non_strict; else in >> ip::strict;
    in >> rl;
    const bool refused = in.fail();
    in.clear();
    in >> ru;
    c.obs(str(obs(ra), obs(rn), obs(rl), refused) + dec(val(ru)));
}
void streams(Src& s, Ctx& c) {
    switch (s.below(3)) {
        case 0: return streams_of<ipv4_address, ipv4_network>(s, c);
        case 1: return streams_of<ipv6_address, ipv6_network>(s, c);
        default: return streams_of<ip_address, ip_network>(s, c);
    }
}
#else
void streams(Src&, Ctx&) {}
#endif
void messages(Src& s, Ctx& c) {
#if PBT_EXC
    const std::string t = s.flip() ? g::text4(s) : s.flip() ? g::text6(s) : g::net_text(s, s.flip() ? 4 : 6);
    for (size_t i = 0; i < 2; ++i) {
        try {
            switch (s.below(4)) {
                case 0: c.obs(full(ip_address::parse(t))); break;
                case 1: c.obs(fulln(ip_network::parse(widen<char16_t>(t)))); break;
                case 2: c.obs(full(ipv6_address::parse(widen<wchar_t>(t)))); break;
                default: c.obs(fulln(ipv4_network::parse(widen<char32_t>(t)))); break;
            }
        } catch (const ip::error& e) {
            c.obs(std::string(e.what()) + code(e.code()));
        }
    }
#else
    (void) s; (void) c;
#endif
}
// ---- the rest of the interface: scope ids in every character type, 128-bit integers, conversions, std:: overloads -------------
template <typename A, typename C> void scopes_of(Src& s, Ctx& c) {
    const Addr m = g::addr6(s, 2);
    const std::string t = s.flip() ? g::good_scope(s) : g::text6(s);
    std::string plain;
    for (size_t i = 0; i < t.size(); ++i) plain += (char) (t[i] & 0x7F);
    const std::basic_string<C> w = widen<C>(plain);
    A a(lib6(m));
    error_code e = error_code::no_error;
    a.set_scope_id(w, e);
    std::string r = code(e) + a.to_string();
#if PBT_EXC
    try { a.set_scope_id(w); a.set_scope_id(w); } catch (const ip::error& x) { r += std::string(x.what()) + code(x.code()); }
#endif
    const ip::scope sc = a.get_scope_id();
    r += (std::string) sc + dec((uint32_t) sc) + (sc ? "+" : "-") + (sc.has_string() ? "s" : "") + (sc.has_uint32() ? "n" : "") + rel(sc, ip::scope(lib6(m).get_scope_id()));
    c.obs(r + rel(a, A(lib6(m))) + dec(a.hash()));
}
template <typename A> void scopes_in(Src& s, Ctx& c) {
    switch (s.below(5)) {
        case 0: return scopes_of<A, char>(s, c);
        case 1: return scopes_of<A, wchar_t>(s, c);
        case 2: return scopes_of<A, char16_t>(s, c);
#if __cpp_char8_t >= 201811L
        case 3: return scopes_of<A, char8_t>(s, c);
#endif
        default: return scopes_of<A, char32_t>(s, c);
    }
}
void scope_ids(Src& s, Ctx& c) { if (s.flip()) scopes_in<ipv6_address>(s, c); else scopes_in<ip_address>(s, c); }
template <typename T> std::string there(const uint128_t& x) { const T t = (T) x; return dec((u64) t) + dec(val(uint128_t(t))) + " "; }
template <typename C> std::string from(const std::string& t, uint128_t::format f) { const ip::optional<uint128_t> r = uint128_t::from_string(widen<C>(t), f); return r.has_value() ? dec(val(r.value())) : "-"; }
void big_integers(Src& s, Ctx& c) {
    const u128 am = g::number(s, 128), bm = g::number(s, (int) s.range(1, 128));
    uint128_t a = u(am);
    const uint128_t b = u(bm);
    std::string r;
    const size_t k = s.range(3, 12);
    for (size_t i = 0; i < k; ++i) {
        switch (s.below(16)) {
            case 0: a += b; break;
            case 1: a -= b; break;
            case 2: a *= b; break;
            case 3: a /= b; break;
            case 4: a %= b; break;
            case 5: a &= b; break;
            case 6: a |= b; break;
            case 7: a ^= b; break;
            case 8: a <<= (int) s.below(140); break;
            case 9: a >>= (int) s.below(140); break;
            case 10: ++a; a++; break;
            case 11: --a; a--; break;
            case 12: a = ~a; break;
            case 13: a = -a; break;
            case 14: { uint128_t d = b; a.swap(d); std::swap(a, d); break; }
            default: a = +a; break;
        }
        r += dec(val(a)) + " ";
    }
    r += there<unsigned char>(a) + there<unsigned short>(a) + there<short>(a) + there<int>(a) + there<unsigned>(a) + there<long>(a) + there<unsigned long long>(a) + there<long long>(a) + there<char>(a) + there<signed char>(a);
    r += str((double) a, (float) a, " ") + dec(val(uint128_t((double) a / 3))) + dec(val(uint128_t((float) b))) + dec(val(uint128_t((long double) (double) b)));
    r += str(!a, a && b, a || b) + rel(a, b) + dec(a.hash()) + dec(b.hash());
#ifndef IPADDRESS_NO_OVERLOAD_STD
    r += dec(std::hash<uint128_t>()(b));
#endif
    const uint128_t::format fs[] = {uint128_t::format::octal, uint128_t::format::decimal, uint128_t::format::hexadecimal};
    const uint128_t::format f = fs[s.below(3)];
    const std::string t = a.to_string(f);
    r += t + narrow(a.to_wstring(f)) + narrow(a.to_u16string(f)) + narrow(a.to_u32string(f));
    r += from<char>(t, f) + from<wchar_t>(t, f) + from<char16_t>(t, f) + from<char32_t>(t, f);
#if __cpp_char8_t >= 201811L
    r += from<char8_t>(t, f) + narrow(a.to_u8string(f));
#endif
#ifndef IPADDRESS_NO_OVERLOAD_STD
    r += std::to_string(a) + narrow(std::to_wstring(b)) + dec(val(std::abs(a)));
    std::ostringstream o;
    o << std::hex << std::showbase << a << std::oct << b;
    r += o.str();
#endif
    c.obs(r);
}
template <typename A, typename N> std::string rest_of(Src& s, const Addr& a, const Net& n) {
    A x = Mk<A>::from(a), y = Mk<A>::from(Addr(a.ver, a.v ^ 1));
    N v = mknet<N>(n), w = mknet<N>(g::relative(s, n));
    std::swap(x, y);
    std::swap(v, w);
    std::string r = full(x) + fulln(v) + x.reverse_pointer();
#ifndef IPADDRESS_NO_OVERLOAD_STD
    r += std::to_string(x) + std::to_string(v) + narrow(std::to_wstring(y)) + narrow(std::to_wstring(w));
#endif
#if __cpp_char8_t >= 201811L
    error_code e8 = error_code::no_error;
    r += narrow(x.to_u8string()) + narrow(v.to_u8string()) + A::parse(x.to_u8string()).to_string() + N::parse(v.to_u8string(), e8).to_string() + A::parse(y.to_u8string(), e8).to_string();
#endif
#if PBT_EXC
    for (size_t k = 0; k < 3; ++k) {
        try {
            if (k == 0) r += v.supernet((size_t) s.below(40)).to_string();
            if (k == 1) { size_t i = 0; for (const auto& z : v.address_exclude(w)) { r += z.to_string(); if (++i > 130) break; } }
            if (k == 2) { const auto q = v.subnets((size_t) s.below(40)); r += q.front().to_string() + q.back().to_string() + (q.empty() ? "e" : "") + (*q.rbegin()).to_string() + (*q.crbegin()).to_string(); }
        } catch (const ip::error& z) { r += z.what(); }
    }
#endif
    const auto h = v.hosts();
    if (!h.empty()) r += h.front().to_string() + (*h.rbegin()).to_string() + (*(h.rend() - (int64_t) 1)).to_string() + (*h.cbegin()).to_string() + (*h.crbegin()).to_string() + (*(h.cend() - (int64_t) 1)).to_string();
    return r;
}
void remaining(Src& s, Ctx& c) {
    const Addr a4 = g::addr4(s), a6 = g::addr6(s, 2);
    const Net n4 = g::net4(s), n6 = g::net6s(s);
    switch (s.below(4)) {
        case 0: c.obs(rest_of<ipv4_address, ipv4_network>(s, a4, n4)); break;
        case 1: c.obs(rest_of<ipv6_address, ipv6_network>(s, a6, n6)); break;
        case 2: c.obs(rest_of<ip_address, ip_network>(s, a4, n4)); break;
        default: c.obs(rest_of<ip_address, ip_network>(s, a6, n6)); break;
    }
    const ipv4_address x4 = lib4(a4);
    const ipv6_address x6 = lib6(a6);
    const ip_address p4 = ip_address::from_bytes(x4.bytes()), p6 = ip_address::from_bytes(x6.bytes()), q4(x4.bytes()), q6(x6.bytes());
    c.obs(full(p4) + full(p6) + rel(p4, q4) + rel(p6, q6) + full(ip_address::from_bytes(x4.data(), 4, ip_version::V4)) + full(ip_address::from_bytes(x6.data(), 16, ip_version::V6))
        + dec((uint32_t) p4) + dec(val((uint128_t) p6)) + (p4.is_v6() ? "6" : "4") + (p6.is_v6() ? "6" : "4"));
}
const pbt::PropFn EXTRA[] = {streams, messages, scope_ids, big_integers, remaining};
}  // namespace
#endif
