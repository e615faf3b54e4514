// P28: a register machine over the whole public interface, run under memory and undefined-behaviour instrumentation.
// The oracle: no sanitizer report, no exception but the documented ones, no abort, no hang, and every value that comes
// out is a well-formed one (prefix within the width, no host bits, scope id within the limit, bounded text).
#include "seq.hpp"
#include <cmath>
#include <limits>
using namespace m;
namespace {
const size_t R = 3;
struct Regs {
    ipv4_address v4[R];
    ipv6_address v6[R];
    ip_address va[R];
    ipv4_network n4[R];
    ipv6_network n6[R];
    ip_network na[R];
    uint128_t u[R];
};
template <typename T> T* regs(Regs& r);
template <> ipv4_address* regs<ipv4_address>(Regs& r) { return r.v4; }
template <> ipv6_address* regs<ipv6_address>(Regs& r) { return r.v6; }
template <> ip_address* regs<ip_address>(Regs& r) { return r.va; }
template <> ipv4_network* regs<ipv4_network>(Regs& r) { return r.n4; }
template <> ipv6_network* regs<ipv6_network>(Regs& r) { return r.n6; }
template <> ip_network* regs<ip_network>(Regs& r) { return r.na; }
template <typename A> struct NetOf;
template <> struct NetOf<ipv4_address> { typedef ipv4_network N; };
template <> struct NetOf<ipv6_address> { typedef ipv6_network N; };
template <> struct NetOf<ip_address> { typedef ip_network N; };

// only documented exceptions may leave f; anything else reaches the engine and fails the case
template <typename F> bool documented(Ctx& c, F f, const char* what) {
    const Outcome o = attempt(f);
    if (o.threw && (!(o.is_parse || o.is_logic) || o.what.empty() || o.what.size() > 4000 || o.code == 0)) {
        c.fail(__FILE__, __LINE__, str(what, " raised an exception without a proper code or message: ", o.code, " ", q(o.what)));
        return false;
    }
    return !o.threw;
}
void sound(Ctx& c, const Addr& a) {
    REQ(c, a.ver == 4 || a.ver == 6, "version");
    REQ(c, a.v <= ones(a.bits()), "value within the width");
    REQ(c, a.scope.size() <= SCOPE_MAX && scope_ok(a.scope), "scope id within the limits: ", q(a.scope));
}
template <typename A> void sound_addr(Ctx& c, const A& a) { SUB(c, sound(c, obs(a))); }
template <typename N> void sound_net(Ctx& c, const N& n) {
    const Net k = obs(n);
    REQ(c, k.p >= 0 && k.p <= k.bits(), "prefix ", k.p, " within the width");
    SUB(c, sound(c, k.a));
    REQ(c, (k.a.v & ones(k.bits() - k.p)) == 0, "no host bits in ", k);
    REQ(c, obs(n.netmask()).v == maskof(k.bits(), k.p), "netmask of ", k);
}
// ---- argument generators ---------------------------------------------------------------------------
std::string text(Src& s) {
    switch (s.below(8)) {
        case 0: return g::text4(s);
        case 1: return g::text6(s);
        case 2: return g::net_text(s, 4);
        case 3: return g::net_text(s, 6);
        case 4: { std::string t = g::net_text(s, s.flip() ? 4 : 6); g::mutate(s, t); return t; }
        case 5: { const size_t n = s.below(70); std::string t; for (size_t i = 0; i < n; ++i) t += (char) s.byte(); return t; }
        case 6: return std::string(s.below(6000), g::any_char(s));
        default: { std::string t; const size_t n = s.below(40); for (size_t i = 0; i < n; ++i) t += s.pick(std::vector<std::string>{"1", ":", "::", ".", "ffff", "255", "%", "/", "0", "12", "a", "65536"}); return t; }
    }
}
template <typename C> std::basic_string<C> wide(Src& s) {
    std::basic_string<C> r = widen<C>(text(s));
    const size_t n = s.below(3);
    for (size_t i = 0; i < n; ++i) {
        static const u64 odd[] = {0xd800, 0xdbff, 0xdc00, 0xdfff, 0xffff, 0x10ffff, 0x110000, 0xffffffff, 0x80, 0xff, 0x7ff, 0x800, 0, 0xc2, 0xe0, 0xf0, 0xf8, 0x130, 0x2f2f};
        r.insert(r.begin() + (ptrdiff_t) s.below(r.size() + 1), (C) s.pick(odd));
    }
    return r;
}
size_t any_size(Src& s) {
    switch (s.below(5)) {
        case 0: return s.below(130);
        case 1: return (size_t) 0 - s.below(130);
        case 2: return ((size_t) 1 << s.below(64)) + s.below(130);
        case 3: return ((size_t) 1 << s.below(64)) - s.below(130);
        default: return (size_t) s.bits64();
    }
}
ip::optional<size_t> opt_size(Src& s) { return s.flip() ? ip::optional<size_t>(any_size(s)) : ip::optional<size_t>(); }

// ---- parsing -------------------------------------------------------------------------------------------
template <typename T, typename C, typename... X> void parse_one(Src& s, Ctx& c, T& into, X... x) {
    const std::basic_string<C> t = sizeof(C) == 1 && s.flip() ? widen<C>(text(s)) : wide<C>(s);
    NOTE(c, "parse ", qw(t));
    error_code e = (error_code) s.below(30);
    switch (s.below(4)) {
        case 0: into = T::parse(t, e, x...); break;
        case 1: documented(c, [&] { into = T::parse(t, x...); }, "parse"); break;
        case 2: {  // array, with or without a terminator
            C buf[48];
            for (size_t i = 0; i < 48; ++i) buf[i] = i < t.size() ? t[i] : C();
            if (s.flip()) into = T::parse(buf, e, x...);
            else documented(c, [&] { into = T::parse(buf, x...); }, "parse of an array");
            break;
        }
        default: {
#if CXX17
            std::vector<C> exact(t.begin(), t.end());
            const std::basic_string_view<C> v(exact.data(), exact.size());
            if (s.flip()) into = T::parse(v, e, x...);
            else documented(c, [&] { into = T::parse(v, x...); }, "parse of a view");
#else
            into = T::parse(t, e, x...);
#endif
        }
    }
}
template <typename T, typename... X> void parse_any(Src& s, Ctx& c, T& into, X... x) {
    switch (s.below(6)) {
        case 0: case 1: parse_one<T, char>(s, c, into, x...); break;
        case 2: parse_one<T, wchar_t>(s, c, into, x...); break;
        case 3: parse_one<T, char16_t>(s, c, into, x...); break;
        case 4: parse_one<T, char32_t>(s, c, into, x...); break;
#ifdef __cpp_char8_t
        default: { parse_one<T, char8_t>(s, c, into, x...); }
#else
        default: parse_one<T, char>(s, c, into, x...);
#endif
    }
}
template <typename T> void stream_any(Src& s, Ctx& c, T& into) {
    const std::string t = text(s);
    NOTE(c, ">> ", q(t));
    std::stringstream io(t);
    io.width((std::streamsize) s.below(20));
    io >> into;
    io.clear();
    if (s.flip()) io << std::setw((int) s.below(60)) << std::setfill('*');
    switch (s.below(4)) {
        case 0: io << ip::full; break;
        case 1: io << ip::compact << std::uppercase; break;
        case 2: io << ip::compressed << std::left; break;
        default: break;
    }
    io << into;
}
// ---- addresses ------------------------------------------------------------------------------------------
void from_ints(Src& s, Ctx&, ipv4_address& a) { a = ipv4_address::from_uint((uint32_t) s.bits64()); const uint8_t b[4] = {s.byte(), 0, 255, s.byte()}; if (s.flip()) a = ipv4_address::from_bytes(b, 4); }
void from_ints(Src& s, Ctx&, ipv6_address& a) { a = ipv6_address::from_uint(u(g::number(s, 128))); uint8_t b[16]; for (int i = 0; i < 16; ++i) b[i] = s.byte(); if (s.flip()) a = ipv6_address::from_bytes(b, 16); }
void from_ints(Src& s, Ctx&, ip_address& a) { if (s.flip()) a = ip_address::from_uint((uint32_t) s.bits64()); else a = ip_address::from_uint(u(g::number(s, 128))); }
template <typename A> void byte_buffer(Src& s, A& a, size_t n) {
    const std::vector<uint8_t> b(n, s.byte());
    a = A::from_bytes(b.data(), b.size());
}
void from_buffer(Src& s, ipv4_address& a) { byte_buffer(s, a, s.below(24)); }
void from_buffer(Src& s, ipv6_address& a) { byte_buffer(s, a, s.below(24)); }
void from_buffer(Src& s, ip_address& a) { const std::vector<uint8_t> b(s.below(24), s.byte()); a = ip_address::from_bytes(b.data(), b.size(), s.flip() ? ip_version::V4 : ip_version::V6); }
void scope_op(Src&, Ctx&, ipv4_address&) {}
template <typename A> void scope_any(Src& s, Ctx& c, A& a) {
    error_code e = (error_code) s.below(30);
    switch (s.below(5)) {
        case 0: { const std::string t = g::good_scope(s); a.set_scope_id(t, e); break; }
        case 1: { const std::string t = text(s).substr(0, 80); documented(c, [&] { a.set_scope_id(t); }, "set_scope_id"); break; }
        case 2: { const std::u16string t = wide<char16_t>(s); a.set_scope_id(t, e); break; }
        case 3: { const std::wstring t = wide<wchar_t>(s); documented(c, [&] { a.set_scope_id(t); }, "set_scope_id"); break; }
        default: { const std::u32string t = wide<char32_t>(s); a.set_scope_id(t, e); }
    }
    const ip::scope sc = a.get_scope_id();
    (void) sc.get_uint32();
    (void) (std::string) sc;
    REQ(c, !sc.has_uint32() || sc.has_string(), "numeric scope id has text");
}
void scope_op(Src& s, Ctx& c, ipv6_address& a) { scope_any(s, c, a); }
void scope_op(Src& s, Ctx& c, ip_address& a) { scope_any(s, c, a); }
void embedded(Ctx&, const ipv4_address&) {}
template <typename A> void embedded_any(Ctx& c, const A& a) {
    if (a.ipv4_mapped().has_value()) sound_addr(c, a.ipv4_mapped().value());
    if (a.sixtofour().has_value()) sound_addr(c, a.sixtofour().value());
    if (a.teredo().has_value()) sound_addr(c, a.teredo().value().first);
}
void embedded(Ctx& c, const ipv6_address& a) { embedded_any(c, a); }
void embedded(Ctx& c, const ip_address& a) { embedded_any(c, a); }
template <typename T> void ask(Src& s, Ctx& c, const T& a, const T& b) {
    const ip::format f = s.flip() ? ip::format::full : s.flip() ? ip::format::compact : ip::format::compressed;
    const std::string t = a.to_string(f);
    REQ(c, t.size() <= 47 + SCOPE_MAX && t.size() >= 2, "length of ", q(t));
    REQ(c, t.find('\0') == std::string::npos, "no NUL in ", q(t));
    (void) a.to_wstring(f); (void) a.to_u16string(f); (void) a.to_u32string(f); (void) (std::string) a;
    (void) a.is_multicast(); (void) a.is_private(); (void) a.is_global(); (void) a.is_reserved(); (void) a.is_loopback(); (void) a.is_link_local(); (void) a.is_unspecified();
    (void) a.hash(); (void) (a == b); (void) (a != b); (void) (a < b); (void) (a <= b); (void) (a > b); (void) (a >= b);
}
template <typename A> void addr_op(Src& s, Ctx& c, Regs& r) {
    A* x = regs<A>(r);
    const size_t i = s.below(R), j = s.below(R), op = s.below(9);
    NOTE(c, Tr<A>::name(), " ", op);
    switch (op) {
        case 0: SUB(c, parse_any(s, c, x[i])); break;
        case 1: stream_any(s, c, x[i]); break;
        case 2: x[i] = Mk<A>::from(g::AddrGen<A>::gen(s)); break;
        case 3: from_ints(s, c, x[i]); break;
        case 4: from_buffer(s, x[i]); break;
        case 5: SUB(c, scope_op(s, c, x[i])); break;
        case 6: SUB(c, ask(s, c, x[i], x[j])); (void) x[i].reverse_pointer(); (void) x[i].data(); (void) x[i].size(); SUB(c, embedded(c, x[i])); break;
        case 7: x[i].swap(x[j]); break;
        default: {
            typedef typename NetOf<A>::N N;
            N* n = regs<N>(r);
            x[i] = s.flip() ? n[j].network_address() : n[j].broadcast_address();
        }
    }
    SUB(c, sound_addr(c, x[i]));
}
// ---- sequences -------------------------------------------------------------------------------------------
template <typename Sq, typename V> void walk(Src& s, Ctx& c, const Sq& q, V& into) {
    auto b = q.begin();
    const auto e = q.end();
    if (b == e) return;
    const size_t n = s.below(6);
    auto it = b;
    into = *it;
    for (size_t k = 0; k < n && it != e; ++k) { into = *it; if (s.flip()) ++it; else it++; }
    (void) (it == b); (void) (it - b); (void) (it < e);
    while (it != b && s.flip()) { --it; into = *it; }
    if (it != e) { into = *it; (void) it->to_string(); }
    auto rb = q.rbegin();
    if (rb != q.rend()) { into = *rb; ++rb; if (rb != q.rend()) into = *rb; }
    into = q.front();
    into = q.back();
    (void) q.empty();
    (void) q.size();
    (void) c;
}
// positions anywhere within the sequence
template <typename Sq, typename V> void jump(Src& s, Ctx& c, const Sq& q, V& into, const SeqModel& m) {
    if (m.count == 0 && !m.whole) return;
    u128 p = position(s, m);
    if (!m.whole && p >= m.count) p = m.count - 1;
    typedef decltype(q.size()) Un;
    const Un un = (Un) u(p);
    into = q.at(un);
    into = q[un];
    auto it = q.begin();
    it += un;
    into = *it;
    int64_t d = 0;
    if (signed_dist(p, position(s, m), d) && d != INT64_MIN) { auto jt = it + d; (void) (jt - it); (void) (jt < it); jt -= d; REQ(c, jt == it, "there and back"); }
    it -= un;
    REQ(c, it == q.begin(), "back at the beginning");
    (void) it.uint_diff(q.begin());
}
// ---- networks --------------------------------------------------------------------------------------------
template <typename N> void net_op(Src& s, Ctx& c, Regs& r) {
    typedef typename Tr<N>::A A;
    N* x = regs<N>(r);
    A* y = regs<A>(r);
    const size_t i = s.below(R), j = s.below(R), op = s.below(13);
    error_code e = (error_code) s.below(30);
    NOTE(c, Tr<N>::name(), " ", op, " ", x[i], " ", x[j]);
    switch (op) {
        case 0: SUB(c, parse_any(s, c, x[i], s.flip())); break;
        case 1: stream_any(s, c, x[i]); break;
        case 2: x[i] = mknet<N>(g::NetGen<N>::gens(s)); break;
        case 3: { const size_t p = any_size(s); const bool strict = s.flip(); if (s.flip()) x[i] = N::from_address(y[j], e, p, strict); else documented(c, [&] { x[i] = N::from_address(y[j], p, strict); }, "from_address"); break; }
        case 4: { SUB(c, ask(s, c, x[i], x[j])); (void) x[i].addresses_count(); (void) x[i].hostmask(); (void) x[i].contains(y[j]); (void) x[i].overlaps(x[j]); (void) x[i].subnet_of(x[j]); (void) x[i].supernet_of(x[j]); break; }
        case 5: { const size_t d = any_size(s); const ip::optional<size_t> np = opt_size(s); if (s.flip()) x[i] = x[j].supernet(e, d, np); else documented(c, [&] { x[i] = x[j].supernet(d, np); }, "supernet"); break; }
        case 6: {
            const size_t d = s.flip() ? s.below(10) : any_size(s);
            const ip::optional<size_t> np = opt_size(s);
            N t = x[j];
            if (s.flip()) { const auto q = x[j].subnets(e, d, np); if (e == error_code::no_error) SUB(c, walk(s, c, q, t)); }
            else documented(c, [&] { const auto q = x[j].subnets(d, np); walk(s, c, q, t); }, "subnets");
            x[i] = t;
            break;
        }
        case 7: {
            const Net k = obs(x[j]);
            const int np = (int) s.range((size_t) k.p, (size_t) k.bits());
            const auto q = x[j].subnets(e, (size_t) (np - k.p));
            if (e != error_code::no_error) break;  // difference 0
            const SeqModel sm = subnets_model(k, np);
            if (sm.whole) break;
            N t = x[j];
            SUB(c, jump(s, c, q, t, sm));
            x[i] = t;
            break;
        }
        case 8: { A t = y[i]; SUB(c, walk(s, c, x[j].hosts(), t)); y[i] = t; SUB(c, sound_addr(c, t)); break; }
        case 9: { A t = y[i]; SUB(c, jump(s, c, x[j].hosts(), t, hosts_model(obs(x[j])))); y[i] = t; SUB(c, sound_addr(c, t)); break; }
        case 10: {
            N o = x[j];
            if (s.flip()) o = mknet<N>(g::relative(s, obs(x[i])));
            const N base = x[i];
            N last = base;
            size_t n = 0;
            auto run = [&](const ip::exclude_network_sequence<N>& q) { for (auto it = q.begin(); it != q.end() && n < 200; ++it, ++n) last = *it; };
            if (s.flip()) { const auto q = base.address_exclude(o, e); if (e == error_code::no_error) run(q); }
            else documented(c, [&] { run(base.address_exclude(o)); }, "address_exclude");
            REQ(c, n <= 128, "at most one network per prefix bit remains");
            x[i] = last;
            break;
        }
        case 11: x[i].swap(x[j]); break;
        default: x[i] = N();
    }
    SUB(c, sound_net(c, x[i]));
}
// ---- summaries and 128-bit integers ----------------------------------------------------------------------
void cross_op(Src& s, Ctx& c, Regs& r) {
    const size_t i = s.below(R), j = s.below(R);
    switch (s.below(6)) {
        case 0: r.va[i] = r.v4[j]; break;
        case 1: r.va[i] = r.v6[j]; break;
        case 2: if (r.va[i].is_v4()) r.v4[j] = r.va[i].v4().value(); else r.v6[j] = r.va[i].v6().value(); break;
        case 3: r.na[i] = r.n4[j]; break;
        case 4: r.na[i] = r.n6[j]; break;
        default: (void) (r.va[i] == r.v4[j]); (void) (r.va[i] == r.v6[j]); (void) (r.va[i] < r.v4[j]); (void) (r.va[i] < r.v6[j]); (void) r.na[i].contains(r.va[j]);
    }
    SUB(c, sound_addr(c, r.va[i]));
    SUB(c, sound_net(c, r.na[i]));
}
void uint_op(Src& s, Ctx& c, Regs& r) {
    const size_t i = s.below(R), j = s.below(R), op = s.below(16);
    uint128_t& a = r.u[i];
    const uint128_t b = r.u[j];
    NOTE(c, "uint ", op, " ", dec(val(a)), " ", dec(val(b)));
    switch (op) {
        case 0: a = u(g::number(s, 128)); break;
        case 1: a += b; break;
        case 2: a -= b; break;
        case 3: a *= b; break;
        case 4: if (b != 0) a /= b; break;
        case 5: if (b != 0) a %= b; break;
        case 6: a <<= (int) s.below(128); break;
        case 7: a >>= (int) s.below(128); break;
        case 8: a = ~a ^ (b & a) ^ (b | a); break;
        case 9: ++a; --a; a++; a--; a = -a; a = +a; break;
        case 10: {
            const uint128_t::format f = s.flip() ? uint128_t::format::hexadecimal : s.flip() ? uint128_t::format::octal : uint128_t::format::decimal;
            const std::string t = a.to_string(f);
            REQ(c, !t.empty() && t.size() <= 43, "length of ", q(t));
            (void) a.to_wstring(f); (void) a.to_u16string(f); (void) a.to_u32string(f);
            break;
        }
        case 11: {
            std::string t = dec(g::number(s, 128));
            if (s.flip()) g::mutate(s, t);
            const uint128_t::format f = s.flip() ? uint128_t::format::hexadecimal : s.flip() ? uint128_t::format::octal : uint128_t::format::decimal;
            const auto o = uint128_t::from_string(t, f);
            const auto o2 = uint128_t::from_string(widen<char32_t>(t), f);
            REQ_EQ(c, o.has_value(), o2.has_value(), q(t));
            if (o) a = o.value();
            break;
        }
        case 12: a = uint128_t(std::ldexp((double) s.bits64(), -(int) s.below(70)) * (s.flip() ? 1 : 1.5)); break;
        case 13: (void) (double) a; (void) (float) a; (void) (long double) a; (void) (int) a; (void) (short) a; (void) (signed char) a; (void) (long long) a; (void) (bool) a; (void) a.hash(); break;
        case 14: {
            std::stringstream io;
            static const std::ios_base::fmtflags fs[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct};
            io.setf(s.pick(fs), std::ios_base::basefield);
            if (s.flip()) io << std::setw((int) s.below(60)) << std::setfill('.');
            if (s.flip()) io << std::uppercase << std::showbase << std::showpos;
            io << a << " " << text(s);
            uint128_t t;
            io >> t >> t;
            break;
        }
        default: (void) (a < b); (void) (a == b); (void) (a && b); (void) (a || b); (void) !a; (void) (a + 1); (void) (1 + (int) (a & 7)); a = a * 10 + (uint64_t) s.byte();
    }
}
void machine(Src& s, Ctx& c) {
    Regs r;
    const size_t n = s.range(1, 14);
    c.nontrivial(n > 2);
    for (size_t k = 0; k < n; ++k) {
        switch (s.below(16)) {
            case 0: SUB(c, addr_op<ipv4_address>(s, c, r)); break;
            case 1: case 2: SUB(c, addr_op<ipv6_address>(s, c, r)); break;
            case 3: case 4: SUB(c, addr_op<ip_address>(s, c, r)); break;
            case 5: case 6: SUB(c, net_op<ipv4_network>(s, c, r)); break;
            case 7: case 8: case 9: SUB(c, net_op<ipv6_network>(s, c, r)); break;
            case 10: case 11: case 12: SUB(c, net_op<ip_network>(s, c, r)); break;
            case 13: SUB(c, cross_op(s, c, r)); break;
            default: SUB(c, uint_op(s, c, r));
        }
    }
    for (size_t k = 0; k < R; ++k) { c.obs(r.va[k].to_string()); c.obs(r.na[k].to_string()); c.obs(dec(val(r.u[k]))); c.obs(r.n4[k].to_string()); c.obs(r.n6[k].to_string()); c.obs(r.v4[k].to_string()); c.obs(r.v6[k].to_string()); }
}
// one text through everything that takes text
void texts(Src& s, Ctx& c) {
    Regs r;
    c.nontrivial();
    for (size_t k = 0; k < 3; ++k) {
        const bool strict = s.flip();
        SUB(c, parse_any(s, c, r.v4[k])); SUB(c, parse_any(s, c, r.v6[k])); SUB(c, parse_any(s, c, r.va[k]));
        SUB(c, parse_any(s, c, r.n4[k], strict)); SUB(c, parse_any(s, c, r.n6[k], strict)); SUB(c, parse_any(s, c, r.na[k], strict));
        SUB(c, sound_addr(c, r.v4[k])); SUB(c, sound_addr(c, r.v6[k])); SUB(c, sound_addr(c, r.va[k]));
        SUB(c, sound_net(c, r.n4[k])); SUB(c, sound_net(c, r.n6[k])); SUB(c, sound_net(c, r.na[k]));
        c.obs(r.va[k].to_string()); c.obs(r.na[k].to_string());
    }
}
const pbt::Facet F[] = {{"machine", 5, machine}, {"texts", 2, texts}};
}  // namespace
PBT_MAIN("P28", F)
