#include "gen.hpp"
using namespace m;

struct Want { bool mapped, six, ter; u128 mv, sv, ts, tc; };
static Want want(u128 v) {
    Want w = {};
    uint8_t b[16];
    for (int i = 0; i < 16; ++i) b[i] = (uint8_t) (v >> (120 - 8 * i));
    bool zero = true;
    for (int i = 0; i < 10; ++i) zero = zero && b[i] == 0;
    w.mapped = zero && b[10] == 0xff && b[11] == 0xff;
    w.six = b[0] == 0x20 && b[1] == 0x02;
    w.ter = b[0] == 0x20 && b[1] == 0x01 && b[2] == 0 && b[3] == 0;
    for (int i = 0; i < 4; ++i) {
        w.mv = w.mv << 8 | b[12 + i];
        w.sv = w.sv << 8 | b[2 + i];
        w.ts = w.ts << 8 | b[4 + i];
        w.tc = w.tc << 8 | (uint8_t) ~b[12 + i];
    }
    return w;
}
template <typename A> static void check(Ctx& c, const A& x, const Want& w, const std::string& what) {
    const auto p = x.ipv4_mapped();
    REQ_EQ(c, p.has_value(), w.mapped, what, " ipv4_mapped");
    REQ_EQ(c, (bool) p, w.mapped, what, " ipv4_mapped");
    if (w.mapped) { REQ_EQ(c, obs(p.value()), Addr(4, w.mv), what, " ipv4_mapped"); REQ_EQ(c, obs(*p), Addr(4, w.mv), what, " *ipv4_mapped"); }
    const auto q6 = x.sixtofour();
    REQ_EQ(c, q6.has_value(), w.six, what, " sixtofour");
    if (w.six) { REQ_EQ(c, obs(q6.value()), Addr(4, w.sv), what, " sixtofour"); REQ_EQ(c, q(q6->to_string()), q(fmt4(w.sv)), what, " sixtofour"); }
    const auto t = x.teredo();
    REQ_EQ(c, t.has_value(), w.ter, what, " teredo");
    if (w.ter) {
        REQ_EQ(c, obs(t.value().first), Addr(4, w.ts), what, " teredo server");
        REQ_EQ(c, obs(t.value().second), Addr(4, w.tc), what, " teredo client");
    }
}
static void address(Ctx& c, const Addr& a) {
    const Want w = want(a.v);
    SUB(c, check(c, lib6(a), w, str(a)));
    SUB(c, check(c, ip_address(lib6(a)), w, str("ip_address ", a)));
}
static u128 near(Src& s, u128 v, int bits) {  // v, or v with one of its first bits flipped
    return s.below(3) == 2 ? v ^ (u128) 1 << (127 - s.below((size_t) bits)) : v;
}
static void embedded(Src& s, Ctx& c) {
    const u128 low = g::draw128(s), q4 = g::value4(s), r4 = g::value4(s);
    u128 v = 0;
    switch (s.below(4)) {
        case 0: v = near(s, (u128) 0xffff << 32, 96) & ~ones(32); v |= q4; break;
        case 1: v = near(s, (u128) 0x2002 << 112, 16) & ~ones(112); v |= q4 << 80 | (low & ones(80)); break;
        case 2: v = near(s, (u128) 0x2001 << 112, 32) & ~ones(96); v |= q4 << 64 | (low & ones(64) & ~ones(32)) | r4; break;
        default: v = g::value6(s);
    }
    Addr a(6, v, SCOPE_MAX && s.below(3) == 2 ? g::good_scope(s) : std::string());
    const Want w = want(v);
    NOTE(c, a, w.mapped ? " mapped" : w.six ? " 6to4" : w.ter ? " teredo" : " none");
    c.label(w.mapped ? "mapped" : w.six ? "6to4" : w.ter ? "teredo" : "none");
    c.nontrivial();
    SUB(c, address(c, a));
    if (!a.scope.empty()) SUB(c, address(c, Addr(6, v)));
    // through text, in every format
    error_code e;
    for (int f = 0; f < 3; ++f) SUB(c, check(c, ipv6_address::parse(fmt(a, (Fmt) f), e), w, str("parsed ", a)));
    if (w.mapped) SUB(c, check(c, ipv6_address::parse("::ffff:" + fmt4(w.mv), e), w, str("parsed ::ffff:", fmt4(w.mv))));
}
// all single-bit departures from each prefix, and each embedded bit in turn
static void bits(Src& s, Ctx& c) {
    const u128 q4 = g::value4(s), low = g::draw128(s);
    const u128 base = s.below(3) == 0 ? ((u128) 0xffff << 32 | q4) : s.flip() ? ((u128) 0x2002 << 112 | (low & ones(112))) : ((u128) 0x2001 << 112 | (low & ones(96)));
    NOTE(c, "one-bit neighbours of ", Addr(6, base));
    c.nontrivial();
    for (int i = 0; i < 128; ++i) SUB(c, address(c, Addr(6, base ^ (u128) 1 << i)));
    SUB(c, address(c, Addr(6, base)));
}
// every first hextet, every second hextet after 2001
static void hextets_all(Src& s, Ctx& c) {
    const u128 low = g::draw128(s) & ones(96), start = s.below(65536);
    NOTE(c, "1024 first and second hextets from ", dec(start));
    c.nontrivial();
    for (u128 k = 0; k < 1024; ++k) {
        SUB(c, address(c, Addr(6, ((start + k) & 0xffff) << 112 | (s.flip() ? 0 : low))));
        SUB(c, address(c, Addr(6, (u128) 0x2001 << 112 | ((start + k) & 0xffff) << 96 | low)));
    }
}
// IPv4 values have none
static void v4(Src& s, Ctx& c) {
    const ip_address x = lib4(Addr(4, g::value4(s)));
    c.nontrivial();
    REQ(c, !x.ipv4_mapped() && !x.sixtofour() && !x.teredo(), "IPv4 ", obs(x), " embeds nothing");
    NOTE(c, obs(x), " embeds nothing");
}
static const pbt::Facet F[] = {{"embedded", 30, embedded}, {"bits", 2, bits}, {"hextets", 1, hextets_all}, {"v4", 1, v4}};
PBT_MAIN("P19", F)
