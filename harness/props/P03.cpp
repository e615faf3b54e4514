#include "entry.hpp"
using namespace m;

// what the numeric view of a scope id must be: digits only, at most 32 bits
static bool numeric(const std::string& t, uint32_t& v) {
    if (t.empty() || !all_in(t, DIG)) return false;
    u64 x = 0;
    for (size_t i = 0; i < t.size(); ++i) {
        x = x * 10 + (u64) (t[i] - '0');
        if (x > 0xffffffffULL) return false;
    }
    v = (uint32_t) x;
    return true;
}
static void check_views(Ctx& c, const ipv6_address& a, u128 v, const std::string& want) {
    const ip::scope sc = a.get_scope_id();
    REQ_EQ(c, q(sc.get_string()), q(want), "get_scope_id().get_string()");
    REQ_EQ(c, sc.has_string(), !want.empty(), "has_string of ", q(want));
    REQ_EQ(c, (bool) sc, !want.empty(), "bool of ", q(want));
    REQ_EQ(c, q((std::string) sc), q(want), "std::string conversion");
    uint32_t n = 0;
    const bool is = numeric(want, n);
    REQ_EQ(c, sc.has_uint32(), is, "has_uint32 of ", q(want));
    REQ_EQ(c, sc.get_uint32(), is ? n : 0u, "get_uint32 of ", q(want));
    REQ_EQ(c, (uint32_t) sc, is ? n : 0u, "uint32_t conversion of ", q(want));
    if (is) c.label("numeric scope id");
    for (int f = 0; f < 3; ++f) {
        const std::string t = fmt(Addr(6, v, want), (Fmt) f);
        REQ_EQ(c, q(a.to_string(libfmt((Fmt) f))), q(t), "to_string of an address with scope id ", q(want));
        REQ_EQ(c, q(ip_address(a).to_string(libfmt((Fmt) f))), q(t), "ip_address::to_string with scope id ", q(want));
    }
    REQ_EQ(c, obs(a), Addr(6, v, want), "bytes and scope id");
    REQ_EQ(c, obs(ip_address(a)), Addr(6, v, want), "ip_address with scope id");
    REQ_EQ(c, q(ip_address(a).get_scope_id().get_string()), q(want), "ip_address::get_scope_id");
}
template <typename C> static void set_all(Src& s, Ctx& c, u128 v, const std::string& old, const std::string& t) {
    const std::basic_string<C> w = widen<C>(t);
    const bool ok = SCOPE_MAX == 0 ? false : scope_ok(t) && (sizeof(C) == 1 || ascii(t));
    const std::string want = SCOPE_MAX == 0 ? "" : ok ? t : old;
    const ipv6_address start = lib6(Addr(6, v, old));
    REQ_EQ(c, obs(start), Addr(6, v, old), "start");
    ipv6_address a = start;
    error_code e = stale(s);
    a.set_scope_id(w, e);
    if (SCOPE_MAX) REQ_EQ(c, e == error_code::no_error, ok, "set_scope_id(string, code) of ", qw(w), " code ", (int) e);
    else REQ_EQ(c, (int) e, 0, "set_scope_id is a no-op without scope ids");
    SUB(c, check_views(c, a, v, want));
    const error_code code = e;
    ipv6_address b = start;
    Outcome o = attempt([&] { b.set_scope_id(w); });
    REQ_EQ(c, o.threw, THROWS && SCOPE_MAX && !ok, "set_scope_id(string) of ", qw(w));
    if (o.threw) REQ_EQ(c, o.code, (int) code, "set_scope_id(string) of ", qw(w));
    REQ(c, a == b, "set_scope_id(string) and set_scope_id(string, code) leave different addresses: ", obs(a), " ", obs(b));
    const std::basic_string<C> z = to_first_nul(w);
    if (z.size() <= SCOPE_MAX) {
        const std::string zt = to_first_nul(t);
        const bool zok = SCOPE_MAX == 0 ? false : scope_ok(zt) && (sizeof(C) == 1 || ascii(zt));
        C buf[SCOPE_MAX + 1] = {};
        for (size_t i = 0; i < w.size() && i < SCOPE_MAX; ++i) buf[i] = w[i];
        ipv6_address d = start;
        e = stale(s);
        d.set_scope_id(buf, e);
        if (SCOPE_MAX) REQ_EQ(c, e == error_code::no_error, zok, "set_scope_id(array, code) of ", qw(z), " code ", (int) e);
        SUB(c, check_views(c, d, v, SCOPE_MAX == 0 ? "" : zok ? zt : old));
        ipv6_address g = start;
        o = attempt([&] { g.set_scope_id(buf); });
        REQ_EQ(c, o.threw, THROWS && SCOPE_MAX && !zok, "set_scope_id(array) of ", qw(z));
        REQ(c, d == g, "set_scope_id(array) and set_scope_id(array, code) leave different addresses");
    }
}
// through text: "address%scope"
template <typename C> static void parse_scope(Src& s, Ctx& c, u128 v, const std::string& t) {
    const std::string text = fmt6(v, (Fmt) s.below(3)) + "%" + t;
    Addr want;
    bool ok = parse6(text, want) && (sizeof(C) == 1 || ascii(text));
    error_code e = stale(s);
    const std::basic_string<C> w = widen<C>(text);
    ipv6_address a = ipv6_address::parse(w, e);
    REQ_EQ(c, e == error_code::no_error, ok, "parse of ", qw(w), " code ", (int) e);
    if (ok) { c.nontrivial(); SUB(c, check_views(c, a, v, t)); }
    else REQ(c, a == ipv6_address(), "refused text must give the default address");
    ip_address y = ip_address::parse(w, e);
    REQ_EQ(c, e == error_code::no_error, ok, "ip_address parse of ", qw(w));
    if (ok) REQ_EQ(c, obs(y), want, "ip_address parse of ", qw(w));
    ipv6_network n = ipv6_network::parse(w, e);
    Net wn;
    const bool nok = parse_net(6, text, true, wn) && (sizeof(C) == 1 || ascii(text));
    REQ_EQ(c, e == error_code::no_error, nok, "ipv6_network parse of ", qw(w), " code ", (int) e);
    if (nok && !ok) REQ_EQ(c, obs(n), wn, "ipv6_network parse of ", qw(w));
    if (ok) {
        REQ_EQ(c, obs(n), Net(want, 128), "ipv6_network parse of ", qw(w));
        REQ_EQ(c, q(n.to_string()), q(fmt(want, COMPRESSED) + "/128"), "network text");
    }
}
using g::good_scope;
static std::string scope_text(Src& s) {
    static const unsigned w[] = {8, 4, 3, 4, 3, 2};
    std::string t;
    switch (s.weighted(w)) {
        case 0: return good_scope(s);
        case 1: t = good_scope(s); g::mutate(s, t); return t;
        case 2: { size_t n = SCOPE_MAX + s.below(4); n = n > 1 ? n - 1 : n; char ch = s.flip() ? 'k' : '7'; return std::string(n, ch); }
        case 3: {  // numerals around the 32-bit and 64-bit limits, leading zeros
            static const u64 edge[] = {0, 1, 9, 10, 4294967295ULL, 4294967296ULL, 4294967297ULL, 42949672950ULL, 42949672960ULL, 99999999999ULL,
                                       18446744073709551615ULL, 9999999999999999ULL, 1000000000000000ULL, 4294967300ULL};
            t = std::string(s.below(5) == 4 ? s.below(12) : 0, '0') + dec((u128) s.pick(edge) + (s.flip() ? s.below(20) : 0) + (s.below(4) == 3 ? (u128) 1 << 64 : 0));
            if (s.below(5) == 4) t += s.pick(std::vector<std::string>{"a", " ", "-", ".", "0"});
            if (s.below(8) == 7) t = s.pick(std::vector<std::string>{"+", "-", " ", "0x", "a"}) + t;
            return t;
        }
        case 4: { size_t n = s.range(1, SCOPE_MAX + 2); for (size_t i = 0; i < n; ++i) t += (char) s.byte(); return t; }
        default: { size_t n = s.range(1, SCOPE_MAX + 1); size_t k = s.below(n); for (size_t i = 0; i < n; ++i) t += i == k ? g::any_char(s) : 'e'; return t; }
    }
}
static void one(Src& s, Ctx& c, bool setter) {
    const u128 v = g::value6(s);
    const std::string t = scope_text(s), old = setter ? good_scope(s) : "";
    NOTE(c, q(t), scope_ok(t) ? " acceptable" : " refused", setter ? " over " + q(old) : " in text");
    c.label(scope_ok(t) ? "acceptable" : "refused");
    if (!t.empty()) c.nontrivial();
    const size_t ct = s.below(5);
    if (setter) {
        if (ct == 0) SUB(c, set_all<char>(s, c, v, old, t));
        if (ct == 1) SUB(c, set_all<wchar_t>(s, c, v, old, t));
        if (ct == 2) SUB(c, set_all<char16_t>(s, c, v, old, t));
        if (ct == 3) SUB(c, set_all<char32_t>(s, c, v, old, t));
#if __cpp_char8_t >= 201811L
        if (ct == 4 && ascii(t)) SUB(c, set_all<char8_t>(s, c, v, old, t));
#endif
    } else {
        if (ct == 0) SUB(c, parse_scope<char>(s, c, v, t));
        if (ct == 1) SUB(c, parse_scope<wchar_t>(s, c, v, t));
        if (ct == 2) SUB(c, parse_scope<char16_t>(s, c, v, t));
        if (ct == 3) SUB(c, parse_scope<char32_t>(s, c, v, t));
#if __cpp_char8_t >= 201811L
        if (ct == 4 && ascii(t)) SUB(c, parse_scope<char8_t>(s, c, v, t));
#endif
    }
}
static void in_text(Src& s, Ctx& c) { one(s, c, false); }
static void by_setter(Src& s, Ctx& c) { one(s, c, true); }
// narrow text, whole entry-point set
static void narrow_text(Src& s, Ctx& c) {
    const std::string t = fmt6(g::value6(s), COMPRESSED) + "%" + scope_text(s), tn = to_first_nul(t);
    Addr w, n;
    const bool ok = parse6(t, w), okn = parse6(tn, n);
    NOTE(c, q(t), ok ? " accepted" : " refused");
    c.nontrivial();
    SUB(c, (entry_points<ipv6_address, Addr, char>(s, c, t, ok, w, okn, n, "ipv6_address")));
    SUB(c, (entry_points<ip_address, Addr, char>(s, c, t, ok, w, okn, n, "ip_address")));
    SUB(c, (entry_stream<ipv6_address>(s, c, t, ok, w, "ipv6_address")));
}
// a history of scope changes against a string
static void history(Src& s, Ctx& c) {
    const u128 v = g::value6(s);
    std::string model;
    ipv6_address a = lib6(Addr(6, v));
    const size_t n = s.range(2, 8);
    size_t changes = 0;
    for (size_t i = 0; i < n; ++i) {
        const std::string t = scope_text(s);
        error_code e = stale(s);
        switch (s.below(3)) {
            case 0: a.set_scope_id(t, e); break;
            case 1: attempt([&] { a.set_scope_id(t); }); break;
            default: if (!ascii(t)) continue; a.set_scope_id(widen<char16_t>(t), e); break;
        }
        if (SCOPE_MAX && scope_ok(t)) { model = t; ++changes; }
        SUB(c, check_views(c, a, v, model));
        // significance: equal exactly when the scope ids are equal
        const std::string other = s.flip() ? model : s.flip() && !model.empty() ? model.substr(0, model.size() - 1) : good_scope(s);
        const ipv6_address b = lib6(Addr(6, v, other));
        REQ_EQ(c, a == b, model == other, "equality with scope ids ", q(model), " and ", q(other));
        REQ_EQ(c, a.get_scope_id() == b.get_scope_id(), model == other, "scope equality ", q(model), " and ", q(other));
        REQ_EQ(c, a.get_scope_id() != b.get_scope_id(), model != other, "scope inequality ", q(model), " and ", q(other));
        if (ascii(model) && ascii(other)) {
            const int o = model.compare(other);
            REQ_EQ(c, a.get_scope_id() < b.get_scope_id(), o < 0, "scope order ", q(model), " and ", q(other));
            REQ_EQ(c, a.get_scope_id() > b.get_scope_id(), o > 0, "scope order ", q(model), " and ", q(other));
            REQ_EQ(c, a.get_scope_id() <= b.get_scope_id(), o <= 0, "scope order ", q(model), " and ", q(other));
            REQ_EQ(c, a.get_scope_id() >= b.get_scope_id(), o >= 0, "scope order ", q(model), " and ", q(other));
        }
    }
    NOTE(c, n, " changes, ", changes, " accepted, last ", q(model));
    if (changes > 1 || !SCOPE_MAX) c.nontrivial();
}
static const pbt::Facet F[] = {{"in_text", 4, in_text}, {"by_setter", 5, by_setter}, {"narrow_text", 3, narrow_text}, {"history", 4, history}};
PBT_MAIN("P03", F)
