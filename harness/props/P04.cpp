#include "entry.hpp"
using namespace m;

static void check_text(Src& s, Ctx& c, const std::string& t) {
    const std::string tn = to_first_nul(t);
    bool near = false;
    const size_t wide = s.below(4) == 3 ? s.below(4) : 4;
    for (int strict = 0; strict < 2; ++strict) {
        Net w4, w6, wa, n4, n6, na;
        const bool ok4 = parse_net(4, t, strict != 0, w4), ok6 = parse_net(6, t, strict != 0, w6), oka = parse_net_any(t, strict != 0, wa);
        const bool k4 = parse_net(4, tn, strict != 0, n4), k6 = parse_net(6, tn, strict != 0, n6), ka = parse_net_any(tn, strict != 0, na);
        if (oka) { near = true; c.label(strict ? "accepted strict" : "accepted non-strict"); } else c.label(strict ? "rejected strict" : "rejected non-strict");
        NOTE(c, strict ? "" : q(t), oka ? " accepted" : " rejected", strict ? " strict" : " non-strict");
        const char* x4 = strict ? "ipv4_network strict" : "ipv4_network non-strict";
        const char* x6 = strict ? "ipv6_network strict" : "ipv6_network non-strict";
        const char* xa = strict ? "ip_network strict" : "ip_network non-strict";
        SUB(c, (entry_points<ipv4_network, Net, char>(s, c, t, ok4, w4, k4, n4, x4, strict != 0)));
        SUB(c, (entry_points<ipv6_network, Net, char>(s, c, t, ok6, w6, k6, n6, x6, strict != 0)));
        SUB(c, (entry_points<ip_network, Net, char>(s, c, t, oka, wa, ka, na, xa, strict != 0)));
        if (wide < 4) {  // the other character types
            SUB(c, (entry_wide<ipv4_network, Net>(s, c, wide, t, ok4, w4, k4, n4, x4, strict != 0)));
            SUB(c, (entry_wide<ipv6_network, Net>(s, c, wide, t, ok6, w6, k6, n6, x6, strict != 0)));
            SUB(c, (entry_wide<ip_network, Net>(s, c, wide, t, oka, wa, ka, na, xa, strict != 0)));
        }
        if (strict) {  // default strictness, default stream strictness
            SUB(c, (entry_points<ipv4_network, Net, char>(s, c, t, ok4, w4, k4, n4, "ipv4_network default")));
            SUB(c, (entry_points<ipv6_network, Net, char>(s, c, t, ok6, w6, k6, n6, "ipv6_network default")));
            SUB(c, (entry_points<ip_network, Net, char>(s, c, t, oka, wa, ka, na, "ip_network default")));
            SUB(c, (entry_wide<ipv4_network, Net>(s, c, wide, t, ok4, w4, k4, n4, "ipv4_network default")));
            SUB(c, (entry_wide<ipv6_network, Net>(s, c, wide, t, ok6, w6, k6, n6, "ipv6_network default")));
            SUB(c, (entry_wide<ip_network, Net>(s, c, wide, t, oka, wa, ka, na, "ip_network default")));
            SUB(c, (entry_stream<ipv4_network>(s, c, t, ok4, w4, "ipv4_network")));
            SUB(c, (entry_stream<ipv6_network>(s, c, t, ok6, w6, "ipv6_network")));
            SUB(c, (entry_stream<ip_network>(s, c, t, oka, wa, "ip_network")));
        }
    }
    if (near || (t.find('/') != std::string::npos && t.size() >= 4)) c.nontrivial();
}
static void text4(Src& s, Ctx& c) { check_text(s, c, g::net_text(s, 4)); }
static void text6(Src& s, Ctx& c) { check_text(s, c, g::net_text(s, 6)); }
// valid address and every kind of mask
static void masks(Src& s, Ctx& c) {
    const int ver = s.flip() ? 6 : 4;
    Addr a = ver == 4 ? g::addr4(s) : g::addr6(s);
    std::string m = g::mask_text(s, ver);
    unsigned p;
    if (s.flip() && (ver == 4 ? mask4(m, p) : digits_value(m, 128, p))) a.v &= maskof(a.bits(), (int) p);
    check_text(s, c, fmt(a, (Fmt) s.below(3)) + "/" + m);
}
// dotted masks: any 32-bit pattern near a contiguous one
static void dotted(Src& s, Ctx& c) {
    u128 v = s.flip() ? maskof(32, (int) s.below(33)) : ones((int) s.below(33));
    size_t k = s.below(3);
    for (size_t i = 0; i < k; ++i) v ^= (u128) 1 << s.below(32);
    if (s.below(8) == 7) v = g::number(s, 32);
    check_text(s, c, fmt4(s.flip() ? 0 : g::value4(s)) + "/" + fmt4(v));
}
// host bits: exactly one bit set beside a clean network
static void hostbit(Src& s, Ctx& c) {
    Net n = s.flip() ? g::net6s(s) : g::net4(s);
    Addr a = n.a;
    if (s.below(4) != 3) a.v ^= (u128) 1 << s.below((size_t) a.bits());
    check_text(s, c, fmt(a, (Fmt) s.below(3)) + "/" + dec((u64) n.p));
}
static void slashes(Src& s, Ctx& c) {
    std::string t = fmt(s.flip() ? g::net6s(s) : g::net4(s), COMPRESSED);
    size_t n = s.range(1, 2);
    for (size_t i = 0; i < n; ++i) t.insert(s.below(t.size() + 1), s.flip() ? "/" : s.flip() ? std::string(1, '\0') : std::string(1, g::any_char(s)));
    check_text(s, c, t);
}
static const pbt::Facet F[] = {{"text4", 4, text4}, {"text6", 4, text6}, {"masks", 5, masks}, {"dotted", 2, dotted}, {"hostbit", 3, hostbit}, {"slashes", 2, slashes}};
PBT_MAIN("P04", F)
