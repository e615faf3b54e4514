#include "registry.hpp"
using namespace m;

static void one4(Ctx& c, u128 v) {
    const reg::Flags f = reg::of(4, v);
    const Addr a(4, v);
    const ipv4_address x = lib4(a);
    SUB(c, reg::check(c, x, f, a));
    SUB(c, reg::check(c, ip_address(x), f, a));
}
static void one6(Ctx& c, const Addr& a) {
    const reg::Flags f = reg::of(6, a.v);
    const ipv6_address x = lib6(a);
    SUB(c, reg::check(c, x, f, a));
    SUB(c, reg::check(c, ip_address(x), f, a));
}
static void v4(Src& s, Ctx& c) {
    const u128 v = g::value4(s);
    const reg::Flags f = reg::of(4, v);
    NOTE(c, Addr(4, v), " ", reg::classes(f));
    c.label(reg::classes(f));
    if (!f.global) c.nontrivial();
    SUB(c, one4(c, v));
}
static void v6(Src& s, Ctx& c) {
    Addr a = g::addr6(s);
    const reg::Flags f = reg::of(6, a.v);
    NOTE(c, a, " ", reg::classes(f));
    c.label(reg::classes(f));
    if (!f.global || f.reserved || f.multicast) c.nontrivial();
    SUB(c, one6(c, a));
    if (SCOPE_MAX) {  // the same value under another scope id, and under none
        SUB(c, one6(c, Addr(6, a.v)));
        SUB(c, one6(c, Addr(6, a.v, g::ascii_scope(s))));
    }
}
// both sides of both ends of every registry block, at every offset that is a power of two
static void edges(Src& s, Ctx& c) {
    const bool six = s.flip();
    const g::Block& b = s.pick(six ? g::blocks6() : g::blocks4());
    const int bits = six ? 128 : 32;
    const u128 lo = b.v, hi = b.v | ones(bits - b.p);
    NOTE(c, "edges of ", Net(Addr(six ? 6 : 4, b.v), b.p));
    c.nontrivial();
    const u128 extra = g::number(s, bits);
    for (int i = -1; i <= bits; ++i) {
        const u128 d = i < 0 ? 0 : i == bits ? extra : (u128) 1 << i;
        const u128 t[] = {lo + d, lo - d, hi + d, hi - d, lo ^ d, hi ^ d};
        for (size_t k = 0; k < 6; ++k) {
            const u128 v = t[k] & ones(bits);
            if (six) SUB(c, one6(c, Addr(6, v)));
            if (!six) SUB(c, one4(c, v));
        }
    }
}
// a stretch of consecutive addresses in the upper octets of IPv4 / first hextets of IPv6
static void stretch(Src& s, Ctx& c) {
    c.nontrivial();
    if (s.flip()) {
        const u128 top = s.below(256), low = g::number(s, 16);
        NOTE(c, "all ", dec(top), ".x with low half ", dec(low));
        for (unsigned k = 0; k < 256; ++k) SUB(c, one4(c, top << 24 | (u128) k << 16 | low));
    } else {
        const u128 top = s.below(256), low = g::number(s, 112);
        NOTE(c, "all first hextets with high byte ", dec(top), " and low bits ", dec(low));
        for (unsigned k = 0; k < 256; ++k) SUB(c, one6(c, Addr(6, (top << 8 | k) << 112 | low)));
    }
}
// IPv4-mapped addresses follow the IPv4 rule
static void mapped(Src& s, Ctx& c) {
    const u128 v = g::value4(s);
    const u128 hi = (u128) 0xffff << 32;
    const u128 near_hi = s.below(3) == 2 ? hi ^ (u128) 1 << s.range(32, 127) : hi;
    const Addr a(6, near_hi | v, SCOPE_MAX && s.below(4) == 3 ? g::ascii_scope(s) : std::string());
    NOTE(c, a, " for ", fmt4(v));
    c.nontrivial();
    SUB(c, one6(c, a));
    if (near_hi == hi) {
        REQ_EQ(c, lib6(a).is_private(), lib4(Addr(4, v)).is_private(), a, " private as ", fmt4(v));
        const ipv6_address y = lib6(Addr(6, hi | v));
        REQ_EQ(c, y.is_private(), lib4(Addr(4, v)).is_private(), "mapped ", fmt4(v));
    }
}
static const pbt::Facet F[] = {{"v4", 10, v4}, {"v6", 14, v6}, {"edges", 1, edges}, {"stretch", 1, stretch}, {"mapped", 4, mapped}};
PBT_MAIN("P17", F)
