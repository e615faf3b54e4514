#include "entry.hpp"
#include <arpa/inet.h>
using namespace m;

static bool near_valid(const std::string& t) {
    size_t dots = 0, digits = 0;
    for (size_t i = 0; i < t.size(); ++i) { dots += t[i] == '.'; digits += t[i] >= '0' && t[i] <= '9'; }
    return dots >= 2 && digits >= 2;
}
static void check_text(Src& s, Ctx& c, const std::string& t) {
    Addr w, wn;
    const bool ok = parse4(t, w), okn = parse4(to_first_nul(t), wn);
    NOTE(c, q(t), ok ? " accepted" : " rejected");
    c.label(ok ? "accepted" : "rejected");
    if (ok || near_valid(t)) c.nontrivial();
    if (t.find('\0') == std::string::npos) {  // the oracle itself agrees with the C library
        in_addr a;
        REQ_EQ(c, inet_pton(AF_INET, t.c_str(), &a) == 1, ok, "oracle versus inet_pton ", q(t));
    }
    SUB(c, (entry_points<ipv4_address, Addr, char>(s, c, t, ok, w, okn, wn, "ipv4_address")));
    SUB(c, (entry_stream<ipv4_address>(s, c, t, ok, w, "ipv4_address")));
    // version-agnostic: IPv4 exactly when the text is valid IPv4
    Addr a, an;
    const bool aok = parse_any(t, a), aokn = parse_any(to_first_nul(t), an);
    SUB(c, (entry_points<ip_address, Addr, char>(s, c, t, aok, a, aokn, an, "ip_address")));
    SUB(c, (entry_stream<ip_address>(s, c, t, aok, a, "ip_address")));
    if (s.below(4) == 3) {  // the other character types
        const size_t type = s.below(4);
        SUB(c, (entry_wide<ipv4_address, Addr>(s, c, type, t, ok, w, okn, wn, "ipv4_address")));
        SUB(c, (entry_wide<ip_address, Addr>(s, c, type, t, aok, a, aokn, an, "ip_address")));
    }
}
static void text(Src& s, Ctx& c) { check_text(s, c, g::text4(s)); }
// every octet value written with every zero padding and neighbours, at each position
static void octet(Src& s, Ctx& c) {
    const size_t pos = s.below(4);
    std::string t;
    for (size_t i = 0; i < 4; ++i) {
        if (i) t += '.';
        if (i == pos) t += std::string(s.below(4), '0') + dec(s.below(2000));
        else t += dec(s.below(256));
    }
    check_text(s, c, t);
}
// one stray character inserted anywhere in, or substituted into, a valid address
static void stray(Src& s, Ctx& c) {
    std::string t = fmt4(g::value4(s));
    size_t pos = s.below(t.size() + 1);
    char ch = (char) s.byte();
    if (s.flip() || pos == t.size()) t.insert(pos, 1, ch); else t[pos] = ch;
    check_text(s, c, t);
}
// a valid address followed or preceded by anything, of any length
static void tail(Src& s, Ctx& c) {
    std::string t = fmt4(g::value4(s));
    std::string x;
    size_t n = s.range(1, 4) == 4 ? s.range(1, 600) : s.range(1, 20);
    const bool same = s.flip();
    const char ch = g::any_char(s);
    for (size_t i = 0; i < n; ++i) x += same ? ch : g::any_char(s);
    check_text(s, c, s.below(3) == 2 ? x + t : t + x);
}
// all four octets at once: exactness of the decoded bytes
static void exact(Src& s, Ctx& c) {
    u128 v = g::value4(s);
    check_text(s, c, fmt4(v));
}
static const pbt::Facet F[] = {{"text", 6, text}, {"octet", 3, octet}, {"stray", 3, stray}, {"tail", 2, tail}, {"exact", 2, exact}};
PBT_MAIN("P01", F)
