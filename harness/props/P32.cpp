// P32: concurrent use. Several threads run generated operations, on values of their own or reading shared values; every thread
// must observe what the same operations give one after another.  Under ThreadSanitizer hidden shared state is a data race
// whatever the interleaving; the unsanitized configurations compare results under real parallelism.
#include "extra.hpp"
#include <atomic>
#include <thread>
#include <unordered_set>
#if defined(__SANITIZE_THREAD__)
#define PBT_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif
#ifdef PBT_TSAN
// the standard library caches characters inside the global locale's facet; its own business
extern "C" const char* __tsan_default_suppressions() { return "race:^std::ctype<char>::narrow\nrace:^std::ctype<char>::widen\n"; }
#endif
namespace {
// what one operation observes: a digest, and the text when a case is explained
struct Seen { u64 digest; bool failed; std::string msg, log; };
bool operator!=(const Seen& a, const Seen& b) { return a.digest != b.digest || a.failed || b.failed; }
// starts n threads together and waits for them; relaxed, so that nothing but thread creation and join orders the work
template <typename F> void together(size_t n, const F& body) {
    std::atomic<size_t> ready(0);
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; ++i) ts.emplace_back([&ready, &body, n, i] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        body(i);
    });
    for (size_t i = 0; i < n; ++i) ts[i].join();
}
Seen perform(size_t kind, u64 seed) {
    const size_t n = sizeof OPS / sizeof OPS[0], x = sizeof EXTRA / sizeof EXTRA[0];
    Src s(pbt::mix(seed) ^ kind);
    Ctx c;
    pbt::guarded(kind < n ? OPS[kind].fn : EXTRA[(kind - n) % x], s, c);
    return Seen{c.digest, c.failed, c.msg, std::string()};
}
typedef std::vector<std::pair<size_t, u64>> Program;
std::vector<Seen> run(const Program& p) {
    std::vector<Seen> r;
    for (size_t i = 0; i < p.size(); ++i) r.push_back(perform(p[i].first, p[i].second));
    return r;
}
void own_values(Src& s, Ctx& c) {
    const size_t threads = s.range(2, 4), kinds = sizeof OPS / sizeof OPS[0] + 2 * sizeof EXTRA / sizeof EXTRA[0];
    const size_t alike = s.below(3);  // one kind of operation in all threads collides most
    const size_t kind = s.below(kinds);
    std::vector<Program> ps(threads);
    for (size_t i = 0; i < threads; ++i) {
        const size_t k = s.range(1, 4);
        for (size_t j = 0; j < k; ++j) { const size_t kk = alike ? kind : s.below(kinds); const u64 seed = s.draw(999999); ps[i].push_back(std::make_pair(kk, seed)); }
    }
    std::set<size_t> first;
    for (size_t j = 0; j < ps[0].size(); ++j) first.insert(ps[0][j].first);
    for (size_t i = 1; i < threads; ++i) for (size_t j = 0; j < ps[i].size(); ++j) c.nontrivial(first.count(ps[i][j].first) != 0);
    c.label(alike ? "the same kind of operation in every thread" : "different kinds of operations");
    NOTE(c, threads, " threads, ", ps[0].size(), " and more operations each", alike ? ", all of kind " : ", of any kind ", alike ? kind : 0);
    const size_t rounds = c.trace ? 40 : 2;
    std::vector<std::vector<std::vector<Seen>>> got(threads, std::vector<std::vector<Seen>>(rounds));
    together(threads, [&](size_t i) { for (size_t r = 0; r < rounds; ++r) got[i][r] = run(ps[i]); });
    for (size_t i = 0; i < threads; ++i) {
        const std::vector<Seen> want = run(ps[i]);
        for (size_t r = 0; r < rounds; ++r) for (size_t j = 0; j < want.size(); ++j)
            REQ(c, !(got[i][r][j] != want[j]), "thread ", i, " operation ", j, " (kind ", ps[i][j].first, ", seed ", ps[i][j].second, ") observes something else than alone ", got[i][r][j].msg, want[j].msg);
    }
}
// ---- values that all threads read -----------------------------------------------------------------------------------------
template <typename A> struct SA {
    A x, y;
    SA(const Addr& a, const Addr& b) : x(Mk<A>::from(a)), y(Mk<A>::from(b)) {}
};
template <typename N> struct SN {
    typedef decltype(std::declval<const N&>().hosts()) Hosts;
    typedef decltype(std::declval<const N&>().subnets(std::declval<error_code&>(), size_t())) Subnets;
    typedef decltype(std::declval<const N&>().address_exclude(std::declval<const N&>(), std::declval<error_code&>())) Rest;
    N x, y;
    Hosts hosts;
    Subnets subnets;
    Rest rest;
    decltype(std::declval<const Subnets&>().begin()) it;
    decltype(std::declval<const Hosts&>().begin()) host;
    decltype(std::declval<const Rest&>().begin()) part;
    SN(const Net& a, const Net& b, size_t d) : x(mknet<N>(a)), y(mknet<N>(b)), hosts(x.hosts()), subnets(make_subnets(x, d)), rest(make_rest(x, y)), it(subnets.begin()), host(hosts.begin()), part(rest.begin()) {}
    static Subnets make_subnets(const N& n, size_t d) { error_code e = error_code::no_error; return n.subnets(e, d); }
    static Rest make_rest(const N& n, const N& o) { error_code e = error_code::no_error; return n.address_exclude(o, e); }
};
struct Pool {
    SA<ipv4_address> a4; SA<ipv6_address> a6; SA<ip_address> aa;
    SN<ipv4_network> n4; SN<ipv6_network> n6; SN<ip_network> na;
    uint128_t u1, u2;
    std::string text; std::u32string text32;
    ip::optional<ip_address> oa;
};
struct Recipe {
    Addr a4, b4, a6, b6; Net n4, m4, n6, m6; size_t d4, d6; bool any4; u128 u1, u2; std::string text;
    Pool make() const {
        return Pool{SA<ipv4_address>(a4, b4), SA<ipv6_address>(a6, b6), any4 ? SA<ip_address>(a4, b6) : SA<ip_address>(a6, b6),
            SN<ipv4_network>(n4, m4, d4), SN<ipv6_network>(n6, m6, d6), any4 ? SN<ip_network>(n4, m4, d4) : SN<ip_network>(n6, m6, d6),
            u(u1), u(u2), text, widen<char32_t>(text), ip::optional<ip_address>(any4 ? lib(a4) : lib(a6))};
    }
};
template <typename T> std::string streamed(const T& x) {
#ifndef IPADDRESS_NO_OVERLOAD_STD
    std::ostringstream o;
    o << ip::full << x << ' ' << x;
    return o.str();
#else
    return x.to_string();
#endif
}
template <typename A> std::string read(const SA<A>& p, u64 k) {
    switch (k % 6) {
        case 0: return full(p.x);
        case 1: return rel(p.x, p.y) + rel(p.y, p.x);
        case 2: return streamed(p.x) + streamed(p.y);
        case 3: { const A q = p.x; A r = p.y; r = q; return full(r) + (q == p.x ? "=" : "!"); }
        case 4: { std::unordered_set<A> st; st.insert(p.x); st.insert(p.y); st.insert(p.x); return dec(st.size()) + dec(std::hash<A>()(p.y)) + dec(p.x.hash()); }
        default: { std::string r = flags(p.y) + more(p.y); for (size_t i = 0; i < p.x.size(); ++i) r += dec(p.x.data()[i]); return r; }
    }
}
template <typename N> std::string read(const SN<N>& p, u64 k) {
    error_code e = error_code::no_error;
    std::string r;
    switch (k % 10) {
        case 0: return fulln(p.x);
        case 1: return rel(p.x, p.y) + rel(p.y, p.x) + str(p.x.overlaps(p.y), p.x.contains(p.y.network_address()), p.x.supernet_of(p.y), p.y.subnet_of(p.x));
        case 2: return streamed(p.x) + streamed(p.y);
        case 3: { size_t n = 0; for (auto i = p.hosts.begin(); i != p.hosts.end() && n < 5; ++i, ++n) r += (*i).to_string() + " "; return r + dec(val(p.hosts.size())) + p.hosts.back().to_string(); }
        case 4: { size_t n = 0; for (auto i = p.subnets.begin(); i != p.subnets.end() && n < 5; ++i, ++n) r += (*i).to_string() + " "; return r + dec(val(p.subnets.size())); }
        case 5: { size_t n = 0; for (auto i = p.rest.begin(); i != p.rest.end() && n < 140; ++i, ++n) r += (*i).to_string() + " "; return r; }
        case 6: if (p.it != p.subnets.end()) { auto j = p.it; r = (*p.it).to_string() + p.it->to_string(); ++j; r += rel(j, p.it); } return r;
        case 7: if (p.host != p.hosts.end()) { auto j = p.host; r = (*p.host).to_string() + p.host->to_string(); j++; r += rel(p.host, j); } return r;
        case 8: if (p.part != p.rest.end()) { auto j = p.part; r = (*p.part).to_string(); ++j; r += p.part == j ? "=" : "!"; } return r;
        default: { N sup = p.x.supernet(e, 1); r = sup.to_string() + code(e); N q = p.y; q = p.x; std::swap(q, sup); return r + q.to_string() + dec(std::hash<N>()(p.x)) + (p.x.is_private() ? "p" : "") + (p.x.is_global() ? "g" : ""); }
    }
}
std::string read_ints(const Pool& p, u64 k) {
    switch (k % 3) {
        case 0: return p.u1.to_string() + p.u2.to_string(uint128_t::format::hexadecimal) + dec(p.u1.hash()) + rel(p.u1, p.u2);
        case 1: return dec(val(p.u1 + p.u2)) + dec(val(p.u1 * p.u2)) + (p.u2 == 0 ? "" : dec(val(p.u1 / p.u2)) + dec(val(p.u1 % p.u2)));
        default: return str((double) p.u1) + streamed(ip_address::from_uint(p.u2)) + dec(val(p.u1 >> 3)) + narrow(p.u2.to_u16string());
    }
}
std::string read_text(const Pool& p, u64 k) {
    error_code e = error_code::no_error;
    if (k % 4 == 0) { const ip_address a = ip_address::parse(p.text, e); return code(e) + a.to_string(); }
    if (k % 4 == 1) { const ip_network a = ip_network::parse(p.text32, e); return code(e) + a.to_string(); }
    if (k % 4 == 2) return (p.oa.has_value() ? p.oa.value().to_string() : "") + (p.oa ? p.oa->to_string() : "");
#if PBT_EXC
    try { return ipv6_network::parse(p.text32).to_string(); } catch (const ip::error& x) { return std::string(x.what()) + code(x.code()); }
#else
    return "";
#endif
}
std::string read(const Pool& p, u64 what) {
    const u64 k = what / 8;
    switch (what % 8) {
        case 0: return read(p.a4, k);
        case 1: return read(p.a6, k);
        case 2: return read(p.aa, k);
        case 3: return read(p.n4, k);
        case 4: return read(p.n6, k);
        case 5: return read(p.na, k);
        case 6: return read_ints(p, k);
        default: return read_text(p, k);
    }
}
Addr close(Src& s, const Addr& a) { Addr b = a; if (s.flip()) b.v = (b.v ^ (u128) 1 << s.below((size_t) a.bits())); return b; }
void shared_values(Src& s, Ctx& c) {
    Recipe r;
    r.a4 = g::addr4(s); r.b4 = close(s, r.a4); r.a6 = g::addr6(s, 2); r.b6 = close(s, r.a6);
    r.n4 = g::net4(s); r.m4 = g::relative(s, r.n4); r.n6 = g::net6s(s); r.m6 = g::relative(s, r.n6);
    r.d4 = s.below(4); r.d6 = s.below(6);
    r.any4 = s.flip();
    r.u1 = g::number(s, 128); r.u2 = g::number(s, 128);
    r.text = s.below(3) == 0 ? g::text4(s) : s.flip() ? g::text6(s) : g::net_text(s, 6);
    if (!neutral(r.text)) r.text = "::1";
    const size_t threads = s.range(2, 4);
    const bool alike = s.flip();
    std::vector<std::vector<u64>> ps(threads);
    for (size_t i = 0; i < threads; ++i) {
        const size_t k = s.range(1, 8);
        for (size_t j = 0; j < k; ++j) { const u64 w = s.below(8 * 60); ps[i].push_back(alike && i > 0 && j < ps[0].size() ? ps[0][j] : w); }
    }
    std::set<u64> first;
    for (size_t j = 0; j < ps[0].size(); ++j) first.insert(ps[0][j] % 8);
    for (size_t i = 1; i < threads; ++i) for (size_t j = 0; j < ps[i].size(); ++j) c.nontrivial(first.count(ps[i][j] % 8) != 0);
    c.label(alike ? "the same reads in every thread" : "different reads");
    NOTE(c, threads, " threads reading ", r.a4, " ", r.a6, " ", r.n4, " ", r.n6, " ", q(r.text), "; first reads ", ps[0][0], " and ", ps[1][0]);
    const size_t rounds = c.trace ? 40 : 2;
    for (size_t round = 0; round < rounds; ++round) {
        const Pool pool = r.make();
        std::vector<std::vector<std::string>> got(threads);
        together(threads, [&](size_t i) { for (size_t j = 0; j < ps[i].size(); ++j) got[i].push_back(read(pool, ps[i][j])); });
        const Pool fresh = r.make();
        for (size_t i = 0; i < threads; ++i) for (size_t j = 0; j < ps[i].size(); ++j) {
            REQ_EQ(c, got[i][j], read(fresh, ps[i][j]), "thread ", i, " reading ", ps[i][j], " of a shared value");
            REQ_EQ(c, read(pool, ps[i][j]), got[i][j], "read ", ps[i][j], " once more");
        }
    }
}
const pbt::Facet F[] = {{"own_values", 3, own_values}, {"shared_values", 2, shared_values}};
}  // namespace
PBT_MAIN("P32", F)
