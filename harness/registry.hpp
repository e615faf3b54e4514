// Address classification from the registry ranges, as (value, prefix) tables and interval tests.
#ifndef REGISTRY_HPP
#define REGISTRY_HPP
#include "gen.hpp"
namespace reg {
using m::u128;
struct Range { u128 v; int p; };
struct Flags {
    bool multicast, priv, global, reserved, loopback, link_local, unspecified, site_local;
    Flags() : multicast(), priv(), global(), reserved(), loopback(), link_local(), unspecified(), site_local() {}
};
inline u128 v4(unsigned a, unsigned b, unsigned c, unsigned d) { return (u128) a << 24 | b << 16 | c << 8 | d; }
inline u128 v6(u128 a, u128 b = 0, u128 c = 0, u128 d = 0, u128 e = 0, u128 f = 0, u128 g = 0, u128 h = 0) {
    return a << 112 | b << 96 | c << 80 | d << 64 | e << 48 | f << 32 | g << 16 | h;
}
inline bool holds(const Range& r, int bits, u128 first, u128 last) { return r.v <= first && last <= (r.v | m::ones(bits - r.p)); }
template <size_t N> bool any_holds(const Range (&t)[N], int bits, u128 first, u128 last) {
    for (size_t i = 0; i < N; ++i) if (holds(t[i], bits, first, last)) return true;
    return false;
}
inline bool private_range(int ver, u128 first, u128 last) {  // one block holds the whole range
    static const Range p4[] = {
        {v4(0, 0, 0, 0), 8}, {v4(10, 0, 0, 0), 8}, {v4(127, 0, 0, 0), 8}, {v4(169, 254, 0, 0), 16}, {v4(172, 16, 0, 0), 12}, {v4(192, 0, 0, 0), 29}, {v4(192, 0, 0, 170), 31},
        {v4(192, 0, 2, 0), 24}, {v4(192, 168, 0, 0), 16}, {v4(198, 18, 0, 0), 15}, {v4(198, 51, 100, 0), 24}, {v4(203, 0, 113, 0), 24}, {v4(240, 0, 0, 0), 4}, {v4(255, 255, 255, 255), 32}};
    static const Range p6[] = {
        {1, 128}, {0, 128}, {v6(0, 0, 0, 0, 0, 0xffff), 96}, {v6(0x100), 64}, {v6(0x2001), 23}, {v6(0x2001, 2), 48}, {v6(0x2001, 0xdb8), 32}, {v6(0x2001, 0x10), 28}, {v6(0xfc00), 7}, {v6(0xfe80), 10}};
    return ver == 4 ? any_holds(p4, 32, first, last) : any_holds(p6, 128, first, last);
}
inline Flags of(int ver, u128 v) {
    Flags f;
    if (ver == 4) {
        const Range shared = {v4(100, 64, 0, 0), 10};
        f.priv = private_range(4, v, v);
        f.global = !f.priv && !holds(shared, 32, v, v);
        f.multicast = (v >> 28) == 0xe;
        f.reserved = (v >> 28) == 0xf;
        f.loopback = (v >> 24) == 127;
        f.link_local = (v >> 16) == 0xa9fe;
        f.unspecified = v == 0;
        return f;
    }
    static const Range r6[] = {{v6(0), 8}, {v6(0x100), 8}, {v6(0x200), 7}, {v6(0x400), 6}, {v6(0x800), 5}, {v6(0x1000), 4}, {v6(0x4000), 3}, {v6(0x6000), 3}, {v6(0x8000), 3},
                               {v6(0xa000), 3}, {v6(0xc000), 3}, {v6(0xe000), 4}, {v6(0xf000), 5}, {v6(0xf800), 6}, {v6(0xfe00), 9}};
    f.priv = (v >> 32) == 0xffff ? private_range(4, v & m::ones(32), v & m::ones(32)) : private_range(6, v, v);
    f.global = !f.priv;
    f.multicast = (v >> 120) == 0xff;
    f.reserved = any_holds(r6, 128, v, v);
    f.loopback = v == 1;
    f.link_local = (v >> 118) == 0xfe80 >> 6;
    f.unspecified = v == 0;
    f.site_local = (v >> 118) == 0xfec0 >> 6;
    return f;
}
inline Flags of(const m::Net& n) {
    const int ver = n.a.ver;
    const Flags a = of(ver, n.first()), b = of(ver, n.last());
    Flags f;
    f.multicast = a.multicast && b.multicast;
    f.reserved = a.reserved && b.reserved;
    f.loopback = a.loopback && b.loopback;
    f.link_local = a.link_local && b.link_local;
    f.unspecified = a.unspecified && b.unspecified;
    f.site_local = a.site_local && b.site_local;
    f.priv = private_range(ver, n.first(), n.last());
    const Range shared = {v4(100, 64, 0, 0), 10};
    f.global = !f.priv && !(ver == 4 && holds(shared, 32, n.first(), n.last()));
    return f;
}
template <typename T> bool site_local(const T& x) { return x.is_site_local(); }
inline bool site_local(const m::ipv4_address&) { return false; }
inline bool site_local(const m::ipv4_network&) { return false; }
inline const char* classes(const Flags& f) {
    return f.unspecified ? "unspecified" : f.loopback ? "loopback" : f.multicast ? "multicast" : f.link_local ? "link-local" : f.site_local ? "site-local" : f.reserved ? "reserved" : f.priv ? "private" : f.global ? "global" : "shared";
}
template <typename T, typename W> void check(m::Ctx& c, const T& x, const Flags& f, const W& what) {
    REQ_EQ(c, x.is_multicast(), f.multicast, what, " is_multicast");
    REQ_EQ(c, x.is_private(), f.priv, what, " is_private");
    REQ_EQ(c, x.is_global(), f.global, what, " is_global");
    REQ_EQ(c, x.is_reserved(), f.reserved, what, " is_reserved");
    REQ_EQ(c, x.is_loopback(), f.loopback, what, " is_loopback");
    REQ_EQ(c, x.is_link_local(), f.link_local, what, " is_link_local");
    REQ_EQ(c, x.is_unspecified(), f.unspecified, what, " is_unspecified");
    REQ_EQ(c, site_local(x), f.site_local, what, " is_site_local");
}
}  // namespace reg
#endif
