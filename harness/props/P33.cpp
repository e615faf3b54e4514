// P33: running out of memory.  The allocation function is replaced by one that fails on demand.  Operations that report by error
// code or compute fixed-size values have to work with no memory at all; operations that build strings or throw are repeated with
// the first, the second, ... allocation failing, alone or with all later ones, until they need no more.
#include "seq.hpp"
#include <csetjmp>
#include <cstdlib>
#include <exception>
#include <iomanip>
#include <new>
#include <sstream>
#if defined(__GNUC__) && !defined(__clang__)
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
#endif
namespace mem {
enum : long { NEVER = -1 };
static long fail_at = NEVER;   // number of allocations to grant before failing; NEVER: grant all
static bool fail_rest = false; // the later ones fail as well
static bool failed = false;    // one has failed
static bool watching = false;
static long live = 0;          // allocations not yet given back
static sigjmp_buf out;
inline void* get(std::size_t n) {
    if (watching) {
        if (fail_at == 0) {
            failed = true;
            if (!fail_rest) fail_at = NEVER;
            return nullptr;
        }
        if (fail_at > 0) --fail_at;
        ++live;
    }
    return std::malloc(n ? n : 1);
}
inline void put(void* p) {
    if (p && watching) --live;
    std::free(p);
}
[[noreturn]] static void terminated() {
    if (!watching) std::abort();
    watching = false;
    siglongjmp(out, 1);
}
}  // namespace mem
void* operator new(std::size_t n) { void* p = mem::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = mem::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return mem::get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return mem::get(n); }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, std::size_t) noexcept { mem::put(p); }
void operator delete[](void* p, std::size_t) noexcept { mem::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::put(p); }
using namespace m;
namespace {
// what an operation shows, without memory of its own
struct Trace {
    u64 h = 1469598103934665603ULL;
    bool stream_failed = false;
    void n(u64 v) { h = pbt::mix(h ^ v); }
    void u(u128 v) { n((u64) v); n((u64) (v >> 64)); }
    template <typename C> void text(const std::basic_string<C>& t) { for (size_t i = 0; i < t.size(); ++i) n((u64) t[i]); n(t.size()); }
    void put(const uint128_t& v) { u(val(v)); }
    void put(const ipv4_address& a) { n(4); for (size_t i = 0; i < 4; ++i) n(a.bytes()[i]); }
    void put(const ipv6_address& a) {
        n(6);
        for (size_t i = 0; i < 16; ++i) n(a.bytes()[i]);
        put(a.get_scope_id());
        n(a.hash());  // a scope id itself can only be seen through memory
    }
    void put(const ip_address& a) { if (a.is_v4()) put(a.v4().value()); else put(a.v6().value()); }
    void put(const ip::scope& c) { n((c.has_string() ? 1 : 0) + (c.has_uint32() ? 2 : 0)); if (c.has_uint32()) n(c.get_uint32()); }
    void put(const ipv4_network& x) { put(x.network_address()); n(x.prefixlen()); }
    void put(const ipv6_network& x) { put(x.network_address()); n(x.prefixlen()); }
    void put(const ip_network& x) { put(x.network_address()); n(x.prefixlen()); }
    void put(error_code e) { n((u64) (int) e); }
    template <typename T> void put(const ip::optional<T>& o) { n(o.has_value()); if (o.has_value()) put(o.value()); }
    void put(const std::pair<ipv4_address, ipv4_address>& p) { put(p.first); put(p.second); }
    template <typename T> void rel(const T& a, const T& b) { n((u64) ((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a > b) + 32 * (a >= b))); }
    template <typename T> void flags(const T& x) { n((u64) (x.is_multicast() + 2 * x.is_private() + 4 * x.is_global() + 8 * x.is_reserved() + 16 * x.is_loopback() + 32 * x.is_link_local() + 64 * x.is_unspecified())); }
};
bool same(const Trace& a, const Trace& b) { return a.h == b.h && a.stream_failed == b.stream_failed; }
enum End { DONE, LIB_ERROR, NO_MEMORY, OTHER, TERMINATED };
const char* const END_NAMES[] = {"done", "the library's exception", "std::bad_alloc", "another exception", "std::terminate"};
struct Run { End end = DONE; int code = 0; Trace t; bool failed = false; long leak = 0; };
std::ostream& operator<<(std::ostream& o, const Run& r) {
    o << END_NAMES[r.end] << (r.t.stream_failed ? ", stream failed" : "") << ", digest " << r.t.h;
    if (r.end == LIB_ERROR) o << ", code " << r.code;
    return o;
}
template <typename F> Run run(const F& f, long fail_at, bool rest) {
    Run r;
    const std::terminate_handler old = std::set_terminate(mem::terminated);
    volatile bool died = false;
    if (sigsetjmp(mem::out, 0) == 0) {
        mem::fail_at = fail_at; mem::fail_rest = rest; mem::failed = false; mem::live = 0;
        mem::watching = true;
        try { f(r.t); }
        catch (const ip::error& e) { r.end = LIB_ERROR; r.code = (int) e.code(); }
        catch (const std::bad_alloc&) { r.end = NO_MEMORY; }
        catch (...) { r.end = OTHER; }
        mem::watching = false;
    } else died = true;
    std::set_terminate(old);
    if (died) r.end = TERMINATED;
    r.failed = mem::failed;
    r.leak = mem::live;
    return r;
}
// needs no memory: the same with none at all
template <typename F> void quiet(Ctx& c, const char* what, const F& f) {
    const Run want = run(f, mem::NEVER, false), got = run(f, 0, true);
    REQ(c, want.end == DONE, what, ": with memory ", want);
    REQ(c, got.end == DONE, what, ": without memory ", got, ", with memory ", want);
    REQ(c, same(got.t, want.t), what, ": without memory ", got, ", with memory ", want);
    REQ_EQ(c, got.leak, 0L, what, ": allocations never given back");
}
// needs memory: exactly the same result, or a report of the shortage, and nothing lost
template <typename F, typename G> void loud(Ctx& c, const char* what, const F& f, const G& operands) {
    (void) run(f, mem::NEVER, false);  // whatever the standard library keeps for later
    Trace before;
    operands(before);
    const Run want = run(f, mem::NEVER, false);
    REQ(c, want.end == DONE || want.end == LIB_ERROR, what, ": with memory ", want);
    REQ_EQ(c, want.leak, 0L, what, ": allocations never given back");
    for (size_t rest = 0; rest < 2; ++rest)
        for (long k = 0; k < 400; ++k) {
            const Run got = run(f, k, rest != 0);
            if (!got.failed) { REQ(c, got.end == want.end && got.code == want.code && same(got.t, want.t), what, ": once more ", got, ", before ", want); break; }
            c.nontrivial();
            REQ(c, got.end != TERMINATED && got.end != OTHER, what, ": allocation ", k, rest ? " and later ones" : "", " failing: ", got, ", with memory ", want);
            if (got.end == LIB_ERROR) REQ(c, want.end == LIB_ERROR && want.code == got.code, what, ": allocation ", k, " failing: ", got, ", with memory ", want);
            if (got.end == DONE && !got.t.stream_failed) REQ(c, want.end == DONE && same(got.t, want.t), what, ": allocation ", k, rest ? " and later ones" : "", " failing goes unreported: ", got, ", with memory ", want);
            REQ_EQ(c, got.leak, 0L, what, ": allocation ", k, rest ? " and later ones" : "", " failing loses memory");
            Trace after;
            operands(after);
            REQ(c, same(before, after), what, ": allocation ", k, " failing changes an operand");
        }
}
// ---- inputs --------------------------------------------------------------------------------------------------------------
template <typename A, typename N> struct In {
    Addr ma, mb; Net mn, mk;
    A a, b; N n, k;
    std::string at, nt, sc;
    size_t d, np; bool diff, strict;
    u128 pos;
    ip::optional<size_t> newp() const { return diff ? ip::optional<size_t>() : ip::optional<size_t>(np); }
    void operands(Trace& t) const { t.put(a); t.put(b); t.put(n); t.put(k); }
};
std::string plain(const std::string& t) { std::string r; for (size_t i = 0; i < t.size(); ++i) r += (char) (t[i] & 0x7f); return r; }
template <typename A, typename N> In<A, N> inputs(Src& s, Ctx& c) {
    In<A, N> i;
    i.ma = g::AddrGen<A>::gen(s);
    i.mb = s.flip() ? g::AddrGen<A>::gen(s) : i.ma;
    if (s.flip()) i.mb.v = (i.mb.v ^ (u128) 1 << s.below((size_t) i.mb.bits()));
    i.mn = g::NetGen<N>::gens(s);
    i.mk = s.flip() ? g::relative(s, i.mn) : g::NetGen<N>::gens(s);
    i.a = Mk<A>::from(i.ma); i.b = Mk<A>::from(i.mb); i.n = mknet<N>(i.mn); i.k = mknet<N>(i.mk);
    const int ver = Tr<A>::ver ? Tr<A>::ver : s.flip() ? 4 : 6;
    const bool bad = s.below(3) == 0;
    i.at = plain(s.flip() ? (ver == 4 ? g::text4(s) : g::text6(s)) : fmt(i.ma, (Fmt) s.below(3)));
    i.nt = plain(s.flip() ? g::net_text(s, ver) : fmt(i.mn, (Fmt) s.below(3)));
    if (bad) { g::mutate(s, i.at); g::mutate(s, i.nt); i.at = plain(i.at); i.nt = plain(i.nt); }
    i.sc = plain(g::good_scope(s));
    if (s.below(4) == 3) i.sc += plain(g::text6(s));
    i.diff = s.flip();
    i.np = s.below(140);
    i.d = i.diff ? s.below(12) : s.flip() ? 1 : s.below(3);
    i.strict = s.flip();
    i.pos = g::number(s, 128);
    NOTE(c, i.ma, " ", i.mb, " ", i.mn, " ", i.mk, " ", q(i.at), " ", q(i.nt), " ", q(i.sc), " d ", i.d, i.diff ? "" : " new prefix ", i.diff ? 0 : i.np);
    return i;
}
// ---- what needs no memory ------------------------------------------------------------------------------------------------
template <typename A, typename N, typename C> void parse_of(Ctx& c, const In<A, N>& in) {
    const std::basic_string<C> at = widen<C>(in.at), nt = widen<C>(in.nt);
    quiet(c, "parse of an address", [&](Trace& t) { error_code e = error_code::no_error; const A r = A::parse(at, e); t.put(e); t.put(r); });
    quiet(c, "parse of a network", [&](Trace& t) { error_code e = error_code::no_error; const N r = N::parse(nt, e, in.strict); t.put(e); t.put(r); });
    static C ab[64], nb[64];
    for (size_t i = 0; i < 64; ++i) { ab[i] = i < 63 && i < at.size() ? at[i] : C(); nb[i] = i < 63 && i < nt.size() ? nt[i] : C(); }
    quiet(c, "parse of an array", [&](Trace& t) { error_code e = error_code::no_error; t.put(A::parse(ab, e)); t.put(e); t.put(N::parse(nb, e, in.strict)); t.put(e); });
#if __cplusplus >= 201703L
    quiet(c, "parse of a view", [&](Trace& t) { error_code e = error_code::no_error; t.put(A::parse(std::basic_string_view<C>(at), e)); t.put(e); t.put(N::parse(std::basic_string_view<C>(nt), e, in.strict)); t.put(e); });
#endif
}
template <typename A, typename N> void parsing(Src& s, Ctx& c) {
    const In<A, N> in = inputs<A, N>(s, c);
    c.nontrivial(in.at.size() > 3);
    switch (s.below(5)) {
        case 0: return parse_of<A, N, char>(c, in);
        case 1: return parse_of<A, N, wchar_t>(c, in);
        case 2: return parse_of<A, N, char16_t>(c, in);
#if __cpp_char8_t >= 201811L
        case 3: return parse_of<A, N, char8_t>(c, in);
#endif
        default: return parse_of<A, N, char32_t>(c, in);
    }
}
void extra(Trace& t, const ipv4_address& a) { t.n(a.to_uint()); t.n((uint32_t) a); }
void extra(Trace& t, const ipv6_address& a) { t.put(a.to_uint()); t.n(a.is_site_local()); t.put(a.get_scope_id()); t.put(a.ipv4_mapped()); t.put(a.sixtofour()); t.put(a.teredo()); }
void extra(Trace& t, const ip_address& a) { t.n(a.is_v4()); t.put(a.to_uint128()); t.n(a.is_site_local()); t.put(a.get_scope_id()); t.put(a.ipv4_mapped()); t.put(a.sixtofour()); t.put(a.teredo()); t.put(a.v4()); t.put(a.v6()); }
template <typename A, typename N> void values(Src& s, Ctx& c) {
    const In<A, N> in = inputs<A, N>(s, c);
    c.nontrivial(in.mn.p > 0 && in.mn.p < in.mn.bits());
    quiet(c, "an address", [&](Trace& t) {
        t.rel(in.a, in.b); t.flags(in.a); extra(t, in.a); t.n(in.a.hash()); t.n(in.a.size()); t.n(std::hash<A>()(in.b)); t.n((u64) in.a.version());
        for (size_t i = 0; i < in.a.size(); ++i) t.n(in.a.data()[i]);
        A x = in.a, y = in.b;
        x.swap(y);
        y = x;
        A z(std::move(x));
        t.put(z); t.put(y);
    });
    quiet(c, "a network", [&](Trace& t) {
        t.rel(in.n, in.k); t.flags(in.n); t.put(in.n); t.put(in.n.broadcast_address()); t.put(in.n.netmask()); t.put(in.n.hostmask()); t.u(val(in.n.addresses_count())); t.n(in.n.hash()); t.n(std::hash<N>()(in.k));
        t.n((u64) (in.n.contains(in.a) + 2 * in.n.overlaps(in.k) + 4 * in.n.subnet_of(in.k) + 8 * in.n.supernet_of(in.k)));
        error_code e = error_code::no_error;
        t.put(N::from_address(in.a, e, in.np, in.strict)); t.put(e);
        N x = in.n, y = in.k;
        std::swap(x, y);
        y = x;
        t.put(y);
    });
    quiet(c, "supernet and subnets", [&](Trace& t) {
        error_code e = error_code::no_error;
        t.put(in.n.supernet(e, in.d, in.newp())); t.put(e);
        const auto q = in.n.subnets(e, in.d, in.newp());
        t.put(e);
        t.u(val(q.size())); t.n(q.empty());
        if (e != error_code::no_error || q.empty() || !val(q.size())) return;
        t.put(q.front()); t.put(q.back());
        size_t i = 0;
        for (auto it = q.begin(); it != q.end() && i < 6; ++it, ++i) { t.put(*it); t.put(it->network_address()); }
        i = 0;
        for (auto it = q.rbegin(); it != q.rend() && i < 4; it++, ++i) t.put(*it);
        const auto it = q.begin() + (decltype(q.size())) u(in.pos % val(q.size()));
        t.put(*it); t.rel(it, q.begin()); t.u(val(it.uint_diff(q.begin())));
    });
    quiet(c, "hosts", [&](Trace& t) {
        const auto q = in.n.hosts();
        t.u(val(q.size())); t.n(q.empty());
        if (q.empty() || !val(q.size())) return;
        t.put(q.front()); t.put(q.back());
        size_t i = 0;
        for (auto it = q.begin(); it != q.end() && i < 6; ++it, ++i) t.put(*it);
        i = 0;
        for (auto it = q.crbegin(); it != q.crend() && i < 4; ++it, ++i) t.put(*it);
        t.put(q[(decltype(q.size())) u(in.pos % val(q.size()))]);
    });
    quiet(c, "address_exclude", [&](Trace& t) {
        error_code e = error_code::no_error;
        const auto q = in.n.address_exclude(in.k, e);
        t.put(e);
        if (e != error_code::no_error) return;
        size_t i = 0;
        for (auto it = q.begin(); it != q.end() && i < 140; ++it, ++i) t.put(*it);
    });
}
template <typename A, typename C> void scope_set(Ctx& c, const Addr& m, const std::string& sc) {
    const A x(lib6(m));
    const std::basic_string<C> t8 = widen<C>(sc);
    quiet(c, "set_scope_id", [&](Trace& t) {
        A a = x, b = x;
        error_code e = error_code::no_error;
        a.set_scope_id(t8, e);
        t.put(e); t.put(a); t.n(a.get_scope_id() == b.get_scope_id()); t.n(a.get_scope_id() < b.get_scope_id()); t.n(std::hash<A>()(a));
    });
    loud(c, "set_scope_id, throwing", [&](Trace& t) {
        A a = x;
        try { a.set_scope_id(t8); } catch (...) { if (!(a == x)) t.n(99); throw; }
        t.put(a);
        const std::string w = a.get_scope_id().get_string(), v = (std::string) a.get_scope_id();
        t.text(w); t.text(v);
    }, [&](Trace& t) { t.put(x); });
}
void scopes(Src& s, Ctx& c) {
    const In<ipv6_address, ipv6_network> in = inputs<ipv6_address, ipv6_network>(s, c);
    const bool any = s.flip();
    switch (s.below(4)) {
        case 0: return any ? scope_set<ip_address, char>(c, in.ma, in.sc) : scope_set<ipv6_address, char>(c, in.ma, in.sc);
        case 1: return any ? scope_set<ip_address, wchar_t>(c, in.ma, in.sc) : scope_set<ipv6_address, wchar_t>(c, in.ma, in.sc);
        case 2: return any ? scope_set<ip_address, char16_t>(c, in.ma, in.sc) : scope_set<ipv6_address, char16_t>(c, in.ma, in.sc);
        default: return any ? scope_set<ip_address, char32_t>(c, in.ma, in.sc) : scope_set<ipv6_address, char32_t>(c, in.ma, in.sc);
    }
}
const uint128_t::format FS[] = {uint128_t::format::decimal, uint128_t::format::hexadecimal, uint128_t::format::octal};
template <typename C> void integer_texts(Ctx& c, const uint128_t& a, const std::string& digits, uint128_t::format f) {
    const std::basic_string<C> t8 = widen<C>(digits);
    quiet(c, "from_string", [&](Trace& t) { for (size_t i = 0; i < 3; ++i) t.put(uint128_t::from_string(t8, FS[i])); });
#ifndef IPADDRESS_NO_OVERLOAD_STD
    loud(c, "reading a 128-bit integer", [&](Trace& t) {
        std::basic_istringstream<C> i(t8 + (C) ' ' + t8);
        if (f == uint128_t::format::hexadecimal) i >> std::hex; else if (f == uint128_t::format::octal) i >> std::oct;
        uint128_t x;
        i >> x;
        t.stream_failed = i.fail();
        if (!i.fail()) t.put(x);
    }, [&](Trace& t) { t.put(a); });
    loud(c, "writing a 128-bit integer", [&](Trace& t) {
        std::basic_ostringstream<C> o;
        if (f == uint128_t::format::hexadecimal) o << std::hex << std::uppercase; else if (f == uint128_t::format::octal) o << std::oct;
        o << a;
        t.stream_failed = o.fail();
        if (!o.fail()) t.text(o.str());
    }, [&](Trace& t) { t.put(a); });
#else
    (void) f; (void) a;
#endif
}
void integers(Src& s, Ctx& c) {
    const u128 ma = g::number(s, 128), mb = s.flip() ? g::number(s, 128) : g::number(s, 64);
    const uint128_t a = u(ma), b = u(mb);
    const int sh = (int) s.below(128);
    const uint128_t::format f = FS[s.below(3)];
    const double dv = (double) (u64) (ma >> 64) * 1e9;
    NOTE(c, dec(ma), " ", dec(mb), " << ", sh);
    c.nontrivial(ma >> 64 != 0);
    quiet(c, "128-bit arithmetic", [&](Trace& t) {
        uint128_t x = a;
        t.put(a + b); t.put(a - b); t.put(a * b); t.put(a & b); t.put(a | b); t.put(a ^ b); t.put(~a); t.put(-a); t.put(a << sh); t.put(a >> sh); t.rel(a, b); t.n(a.hash()); t.n(std::hash<uint128_t>()(b));
        if (mb) { t.put(a / b); t.put(a % b); }
        x += b; x++; --x; x *= a;
        t.put(x); t.n((u64) a); t.n((uint32_t) b); t.put(uint128_t(dv)); t.n((double) a > (double) b); t.n((float) a > 1.0f);
    });
    if (c.failed) return;
    const auto ops = [&](Trace& t) { t.put(a); t.put(b); };
    SUB(c, loud(c, "to_string of a 128-bit integer", [&](Trace& t) { const std::string x = a.to_string(f); t.text(x); }, ops));
    SUB(c, loud(c, "to_string of a small 128-bit integer", [&](Trace& t) { const std::string x = uint128_t(b.lower()).to_string(f); t.text(x); }, ops));
    SUB(c, loud(c, "to_u16string and others of a 128-bit integer", [&](Trace& t) {
        const std::u16string x = a.to_u16string(f); t.text(x);
        const std::u32string y = a.to_u32string(f); t.text(y);
        const std::wstring z = a.to_wstring(f); t.text(z);
    }, ops));
#ifndef IPADDRESS_NO_OVERLOAD_STD
    SUB(c, loud(c, "std::to_string of a 128-bit integer", [&](Trace& t) { const std::string x = std::to_string(a); t.text(x); const std::wstring z = std::to_wstring(b); t.text(z); }, ops));
#endif
    std::string digits = s.flip() ? a.to_string(f) : a.to_string();
    if (s.flip()) { g::mutate(s, digits); digits = plain(digits); }
    if (s.flip()) return integer_texts<char>(c, a, digits, f);
    integer_texts<wchar_t>(c, a, digits, f);
}
// ---- what needs memory ----------------------------------------------------------------------------------------------------
template <typename T> void strings_of(Ctx& c, const T& x, ip::format f) {
    const auto ops = [&](Trace& t) { t.put(x); };
    SUB(c, loud(c, "to_string", [&](Trace& t) { const std::string r = x.to_string(f); t.text(r); }, ops));
    SUB(c, loud(c, "to_wstring", [&](Trace& t) { const std::wstring r = x.to_wstring(f); t.text(r); }, ops));
    SUB(c, loud(c, "to_u16string", [&](Trace& t) { const std::u16string r = x.to_u16string(f); t.text(r); }, ops));
    SUB(c, loud(c, "to_u32string", [&](Trace& t) { const std::u32string r = x.to_u32string(f); t.text(r); }, ops));
    SUB(c, loud(c, "conversion to a string", [&](Trace& t) { const std::string r = (std::string) x; t.text(r); }, ops));
    SUB(c, loud(c, "conversion to a u32string", [&](Trace& t) { const std::u32string r = (std::u32string) x; t.text(r); }, ops));
#if __cpp_char8_t >= 201811L
    SUB(c, loud(c, "to_u8string", [&](Trace& t) { const std::u8string r = x.to_u8string(f); t.text(r); }, ops));
#endif
#ifndef IPADDRESS_NO_OVERLOAD_STD
    SUB(c, loud(c, "std::to_string", [&](Trace& t) { const std::string r = std::to_string(x); t.text(r); const std::wstring w = std::to_wstring(x); t.text(w); }, ops));
#endif
}
template <typename A, typename N> void strings(Src& s, Ctx& c) {
    const In<A, N> in = inputs<A, N>(s, c);
    const ip::format f = libfmt((Fmt) s.below(3));
    SUB(c, strings_of(c, in.a, f));
    SUB(c, strings_of(c, in.n, f));
    loud(c, "reverse_pointer", [&](Trace& t) { const std::string r = in.a.reverse_pointer(); t.text(r); }, [&](Trace& t) { t.put(in.a); });
}
template <typename A, typename N, typename C> void throwing_of(Ctx& c, const In<A, N>& in) {
    const std::basic_string<C> at = widen<C>(in.at), nt = widen<C>(in.nt);
    const auto ops = [&](Trace& t) { in.operands(t); };
    SUB(c, loud(c, "parse of an address, throwing", [&](Trace& t) { A r = in.b; try { r = A::parse(at); } catch (...) { if (!(r == in.b)) t.n(99); throw; } t.put(r); }, ops));
    SUB(c, loud(c, "parse of a network, throwing", [&](Trace& t) { N r = in.k; try { r = N::parse(nt, in.strict); } catch (...) { if (!(r == in.k)) t.n(99); throw; } t.put(r); }, ops));
    SUB(c, loud(c, "from_address, throwing", [&](Trace& t) { t.put(N::from_address(in.a, in.np, in.strict)); }, ops));
    SUB(c, loud(c, "supernet, throwing", [&](Trace& t) { t.put(in.n.supernet(in.d, in.newp())); }, ops));
    SUB(c, loud(c, "subnets, throwing", [&](Trace& t) { const auto q = in.n.subnets(in.d, in.newp()); t.u(val(q.size())); if (!q.empty()) t.put(*q.begin()); }, ops));
    SUB(c, loud(c, "address_exclude, throwing", [&](Trace& t) { const auto q = in.n.address_exclude(in.k); size_t i = 0; for (auto it = q.begin(); it != q.end() && i < 3; ++it, ++i) t.put(*it); }, ops));
}
template <typename A, typename N> void throwing(Src& s, Ctx& c) {
    const In<A, N> in = inputs<A, N>(s, c);
    switch (s.below(5)) {
        case 0: return throwing_of<A, N, char>(c, in);
        case 1: return throwing_of<A, N, wchar_t>(c, in);
        case 2: return throwing_of<A, N, char16_t>(c, in);
#if __cpp_char8_t >= 201811L
        case 3: return throwing_of<A, N, char8_t>(c, in);
#endif
        default: return throwing_of<A, N, char32_t>(c, in);
    }
}
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <typename C, typename A, typename N> void streams_of(Ctx& c, const In<A, N>& in, size_t f, bool upper, int width) {
    const auto ops = [&](Trace& t) { in.operands(t); };
    const std::basic_string<C> at = widen<C>(in.at), nt = widen<C>(in.nt);
    SUB(c, loud(c, "writing to a stream", [&](Trace& t) {
        std::basic_ostringstream<C> o;
        if (f == 0) o << ip::full; else if (f == 1) o << ip::compact; else o << ip::compressed;
        if (upper) o << std::uppercase;
        o << std::setw(width) << in.a << (C) ' ' << in.n;
        t.stream_failed = o.fail();
        if (!o.fail()) t.text(o.str());
    }, ops));
    SUB(c, loud(c, "reading an address from a stream", [&](Trace& t) {
        std::basic_istringstream<C> i(at);
        A r;
        i >> r;
        t.stream_failed = i.fail();
        if (!i.fail()) t.put(r);
    }, ops));
    SUB(c, loud(c, "reading a network from a stream", [&](Trace& t) {
        std::basic_istringstream<C> i(nt);
        N r;
        if (in.strict) i >> ip::strict; else i >> ip::non_strict;
        i >> r;
        t.stream_failed = i.fail();
        if (!i.fail()) t.put(r);
    }, ops));
}
template <typename A, typename N> void streams(Src& s, Ctx& c) {
    const In<A, N> in = inputs<A, N>(s, c);
    const size_t f = s.below(3);
    const bool upper = s.flip();
    const int width = (int) s.below(60);
    if (s.flip()) return streams_of<char>(c, in, f, upper, width);
    streams_of<wchar_t>(c, in, f, upper, width);
}
#endif
const pbt::Facet F[] = {
    {"parsing4", 2, parsing<ipv4_address, ipv4_network>}, {"parsing6", 3, parsing<ipv6_address, ipv6_network>}, {"parsing_any", 3, parsing<ip_address, ip_network>},
    {"values4", 2, values<ipv4_address, ipv4_network>}, {"values6", 3, values<ipv6_address, ipv6_network>}, {"values_any", 3, values<ip_address, ip_network>},
    {"scopes", 2, scopes}, {"integers", 3, integers},
    {"strings4", 2, strings<ipv4_address, ipv4_network>}, {"strings6", 3, strings<ipv6_address, ipv6_network>}, {"strings_any", 2, strings<ip_address, ip_network>},
    {"throwing4", 2, throwing<ipv4_address, ipv4_network>}, {"throwing6", 3, throwing<ipv6_address, ipv6_network>}, {"throwing_any", 3, throwing<ip_address, ip_network>},
#ifndef IPADDRESS_NO_OVERLOAD_STD
    {"streams4", 1, streams<ipv4_address, ipv4_network>}, {"streams6", 2, streams<ipv6_address, ipv6_network>}, {"streams_any", 2, streams<ip_address, ip_network>},
#endif
};
}  // namespace
PBT_MAIN("P33", F)
