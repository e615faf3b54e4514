#include "entry.hpp"
#include <arpa/inet.h>
using namespace m;

static bool near_valid(const std::string& t) {
    size_t colons = 0;
    for (size_t i = 0; i < t.size(); ++i) colons += t[i] == ':';
    return colons >= 2;
}
static void check_text(Src& s, Ctx& c, const std::string& t) {
    Addr w, wn;
    const bool ok = parse6(t, w), okn = parse6(to_first_nul(t), wn);
    NOTE(c, q(t), ok ? " accepted" : " rejected");
    c.label(ok ? "accepted" : "rejected");
    if (ok && !w.scope.empty()) c.label("accepted with scope");
    if (ok || near_valid(t)) c.nontrivial();
    if (t.find('\0') == std::string::npos && t.find('%') == std::string::npos) {
        in6_addr a;
        REQ_EQ(c, inet_pton(AF_INET6, t.c_str(), &a) == 1, ok, "oracle versus inet_pton ", q(t));
        if (ok) for (int i = 0; i < 16; ++i) REQ_EQ(c, (int) a.s6_addr[i], (int) w.at(i), "oracle versus inet_pton ", q(t));
    }
    SUB(c, (entry_points<ipv6_address, Addr, char>(s, c, t, ok, w, okn, wn, "ipv6_address")));
    SUB(c, (entry_stream<ipv6_address>(s, c, t, ok, w, "ipv6_address")));
    Addr a, an;
    const bool aok = parse_any(t, a), aokn = parse_any(to_first_nul(t), an);
    SUB(c, (entry_points<ip_address, Addr, char>(s, c, t, aok, a, aokn, an, "ip_address")));
    SUB(c, (entry_stream<ip_address>(s, c, t, aok, a, "ip_address")));
    if (s.below(4) == 3) {  // the other character types
        const size_t type = s.below(4);
        SUB(c, (entry_wide<ipv6_address, Addr>(s, c, type, t, ok, w, okn, wn, "ipv6_address")));
        SUB(c, (entry_wide<ip_address, Addr>(s, c, type, t, aok, a, aokn, an, "ip_address")));
    }
}
static void text(Src& s, Ctx& c) { check_text(s, c, g::text6(s)); }
static void shape(Src& s, Ctx& c) { std::string t = g::text6_shape(s); if (s.below(5) == 4) t += g::scope_suffix(s); check_text(s, c, t); }
// valid by construction: n leading groups, '::', m trailing groups (or eight groups), optional IPv4 tail
static void valid(Src& s, Ctx& c) {
    const bool dc = s.flip();
    const bool v4 = s.below(4) == 3;
    const size_t total = (dc ? s.range(0, 7) : 8), tail = v4 ? 2 : 0;
    size_t groups = total < tail ? 0 : total - tail;
    const size_t left = dc ? s.below(groups + 1) : groups;
    std::string t;
    for (size_t i = 0; i < left; ++i) t += (i ? ":" : "") + dec(s.below(10000));
    if (dc) t += "::";
    bool first = dc || left == 0;
    for (size_t i = left; i < groups; ++i) { t += (first ? "" : ":") + pbt::str(std::hex, s.draw(65535)); first = false; }
    if (v4) t += (first ? "" : ":") + fmt4(g::value4(s));
    Addr w;
    if (!v4 || total >= tail) REQ(c, parse6(t, w), "generator must produce valid text ", q(t));
    check_text(s, c, t);
}
// from a sequence of separators and groups: ':' '::' ':::' '.', leading and trailing separators
static void tokens(Src& s, Ctx& c) {
    std::string t;
    size_t n = s.range(1, 12);
    for (size_t i = 0; i < n; ++i) {
        static const char* const sep[] = {":", ":", ":", ":", "::", "", ".", ":::", "%", "/"};
        static const char* const grp[] = {"1", "ab", "0", "ffff", "1.2.3.4", "12345", "", "g", "000a", "255.255.255.255"};
        static const unsigned w[] = {6, 6, 3, 3, 2, 1, 1, 1, 1, 1};
        t += grp[s.weighted(w)];
        if (i + 1 < n || s.below(4) == 3) t += s.pick(sep);
    }
    check_text(s, c, t);
}
static void stray(Src& s, Ctx& c) {
    std::string t = fmt(g::addr6(s), (Fmt) s.below(3));
    size_t pos = s.below(t.size() + 1);
    char ch = (char) s.byte();
    if (s.flip() || pos == t.size()) t.insert(pos, 1, ch); else t[pos] = ch;
    check_text(s, c, t);
}
static void tail(Src& s, Ctx& c) {
    std::string t = fmt(g::addr6(s), (Fmt) s.below(3));
    std::string x;
    size_t n = s.range(1, 4) == 4 ? s.range(1, 600) : s.range(1, 60);
    const bool same = s.flip();
    const char ch = g::any_char(s);
    for (size_t i = 0; i < n; ++i) x += same ? ch : g::any_char(s);
    check_text(s, c, s.below(3) == 2 ? x + t : t + x);
}
static const pbt::Facet F[] = {{"text", 6, text}, {"shape", 5, shape}, {"valid", 4, valid}, {"tokens", 4, tokens}, {"stray", 3, stray}, {"tail", 2, tail}};
PBT_MAIN("P02", F)
