// Generators. Draw 0 is always the simplest alternative, so shrinking moves towards simple cases.
#ifndef GEN_HPP
#define GEN_HPP
#include "api.hpp"
namespace g {
using namespace m;

// registry block edges (address, prefix) used to bias values towards places where behaviour changes
struct Block { u128 v; int p; };
inline u128 h6(unsigned a, unsigned b = 0, unsigned c = 0, unsigned d = 0, unsigned e = 0, unsigned f = 0, unsigned gg = 0, unsigned h = 0) {
    unsigned x[8] = {a, b, c, d, e, f, gg, h};
    u128 v = 0;
    for (int i = 0; i < 8; ++i) v = v << 16 | x[i];
    return v;
}
inline const std::vector<Block>& blocks4() {
    static const std::vector<Block> all = [] {  // threads share it (P32)
        std::vector<Block> r;
        static const struct { unsigned a, b, c, d; int p; } t[] = {
            {0,0,0,0,8},{10,0,0,0,8},{100,64,0,0,10},{127,0,0,0,8},{169,254,0,0,16},{172,16,0,0,12},{192,0,0,0,24},{192,0,0,0,29},
            {192,0,0,8,32},{192,0,0,9,32},{192,0,0,10,32},{192,0,0,170,31},{192,0,2,0,24},{192,31,196,0,24},{192,52,193,0,24},
            {192,88,99,0,24},{192,168,0,0,16},{192,175,48,0,24},{198,18,0,0,15},{198,51,100,0,24},{203,0,113,0,24},{224,0,0,0,4},
            {240,0,0,0,4},{255,255,255,255,32},{0,0,0,0,32},{8,8,8,0,24},{128,0,0,0,1},{0,0,0,0,0}};
        for (size_t i = 0; i < sizeof t / sizeof *t; ++i) {
            Block b = {(u128) (t[i].a << 24 | t[i].b << 16 | t[i].c << 8 | t[i].d), t[i].p};
            r.push_back(b);
        }
        return r;
    }();
    return all;
}
inline const std::vector<Block>& blocks6() {
    static const std::vector<Block> all = [] {  // threads share it (P32)
        std::vector<Block> r;
        const Block t[] = {
            {0, 128}, {1, 128}, {h6(0,0,0,0,0,0xffff), 96}, {h6(0,0,0,0,0xffff), 96}, {h6(0x64,0xff9b), 96}, {h6(0x64,0xff9b,1), 48}, {h6(0x100), 64}, {h6(0x100), 8},
            {h6(0x200), 7}, {h6(0x400), 6}, {h6(0x800), 5}, {h6(0x1000), 4}, {h6(0x2000), 3}, {h6(0x2001), 23}, {h6(0x2001), 32}, {h6(0x2001,1,0,0,0,0,0,1), 128},
            {h6(0x2001,2), 48}, {h6(0x2001,3), 32}, {h6(0x2001,4,0x112), 48}, {h6(0x2001,0x10), 28}, {h6(0x2001,0x20), 28}, {h6(0x2001,0x30), 28}, {h6(0x2001,0xdb8), 32}, {h6(0x2002), 16},
            {h6(0x3ffe), 16}, {h6(0x3fff), 20}, {h6(0x4000), 3}, {h6(0x5f00), 16}, {h6(0x6000), 3}, {h6(0x8000), 3}, {h6(0xa000), 3}, {h6(0xc000), 3}, {h6(0xe000), 4},
            {h6(0xf000), 5}, {h6(0xf800), 6}, {h6(0xfc00), 7}, {h6(0xfd00), 8}, {h6(0xfe00), 9}, {h6(0xfe80), 10}, {h6(0xfec0), 10}, {h6(0xff00), 8}, {h6(0xff02), 16}, {0, 8}, {0, 0},
            {~(u128) 0, 128}, {h6(0x2620,0x4f,0x8000), 48}, {(u128) 1 << 64, 64}, {(u128) 1 << 127, 1}};
        r.assign(t, t + sizeof t / sizeof *t);
        return r;
    }();
    return all;
}
inline u128 draw128(Src& s) { u64 hi = s.bits64(); u64 lo = s.bits64(); return mk128(hi, lo); }

// interesting numbers of the given width
inline u128 number(Src& s, int bits) {
    static const unsigned w[] = {3, 4, 4, 4, 3, 3, 4};
    u128 v = 0;
    switch (s.weighted(w)) {
        case 0: v = s.below(300); break;                                             // small
        case 1: v = ones(bits) - s.below(300); break;                                // near the top
        case 2: v = (u128) 1 << s.below((size_t) bits); v += s.below(5); v -= 2; break;    // around a power of two
        case 3: v = draw128(s); break;                                               // anything
        case 4: v = draw128(s); v >>= s.below((size_t) bits); break;                     // log-uniform
        case 5: {                                                                    // few bits set / clear
            size_t n = s.range(1, 4);
            for (size_t i = 0; i < n; ++i) v |= (u128) 1 << s.below((size_t) bits);
            if (s.flip()) v = ~v;
            break;
        }
        default: {                                                                   // byte patterns
            for (int i = 0; i < bits / 8; ++i) {
                static const uint8_t pat[] = {0, 0, 0xff, 1, 0x80, 0x7f, 0xfe, 10, 0xf0};
                size_t k = s.below(12);
                v = v << 8 | (k < 9 ? pat[k] : s.byte());
            }
        }
    }
    return v & ones(bits);
}
inline u128 value4(Src& s) {
    if (s.below(3) != 2) return number(s, 32);
    const Block& b = s.pick(blocks4());
    u128 off = s.below(3) == 0 ? 0 : s.bits64() & (u64) ones(32 - b.p);
    u128 base = s.flip() ? b.v : b.v + ones(32 - b.p);
    switch (s.below(4)) {
        case 0: return base;
        case 1: return (base + 1) & ones(32);
        case 2: return (base - 1) & ones(32);
        default: return (b.v + off) & ones(32);
    }
}
inline u128 value6(Src& s) {
    static const unsigned w[] = {3, 4, 5};
    switch (s.weighted(w)) {
        case 0: return number(s, 128);
        case 1: {  // hextets with many zeros, so that zero runs of every shape occur
            u128 v = 0;
            unsigned zero = (unsigned) s.below(256);
            for (int i = 0; i < 8; ++i) {
                unsigned h = 0;
                if (!(zero >> i & 1)) { size_t nb = s.below(5); h = nb == 4 ? (unsigned) s.draw(65535) : (unsigned) s.draw((1u << (4 * (nb + 1))) - 1); }
                v = v << 16 | h;
            }
            return v;
        }
        default: {
            const Block& b = s.pick(blocks6());
            u128 off = (s.below(3) == 0 ? (u128) s.below(1000) : draw128(s)) & ones(128 - b.p);
            u128 base = s.flip() ? b.v : b.v + ones(128 - b.p);
            switch (s.below(4)) {
                case 0: return base;
                case 1: return base + 1;
                case 2: return base - 1;
                default: return b.v + off;
            }
        }
    }
}
// what the scope id generators may use; a check that compares configurations narrows them to the common part
template <int> struct Settings { static size_t scope_max; static bool ascii_only; };  // one of each for the whole program
template <int I> size_t Settings<I>::scope_max = SCOPE_MAX;
template <int I> bool Settings<I>::ascii_only = CHAR_UTF8;
static size_t& gen_scope_max = Settings<0>::scope_max;
static bool& gen_ascii_only = Settings<0>::ascii_only;
// a scope id the configuration accepts (possibly empty)
inline std::string good_scope(Src& s) {
    if (gen_scope_max == 0) return "";
    static const unsigned w[] = {5, 3, 2, 1};
    size_t kind = s.weighted(w);
    size_t len = s.below(4) == 3 ? (s.flip() ? gen_scope_max : s.range(1, gen_scope_max)) : s.range(1, gen_scope_max < 6 ? gen_scope_max : 6);
    static const char al[] = "abcxyzETH012359_-.:~";
    static const char odd[] = "!\"#$&'()*+,;<=>?@[\\]^`{|}~";
    std::string r;
    for (size_t i = 0; i < len; ++i) {
        if (kind == 1) r += (char) ('0' + (int) s.below(10));
        else if (kind == 2) r += odd[s.below(sizeof odd - 1)];
        else if (kind == 3 && !gen_ascii_only) { char c = (char) s.range(1, 255); r += scope_char_ok(c) ? c : 'x'; }
        else r += al[s.below(sizeof al - 1)];
    }
    return r;
}
inline std::string ascii_scope(Src& s) {
    std::string r = good_scope(s);
    for (size_t i = 0; i < r.size(); ++i) if ((unsigned char) r[i] >= 0x80 || r[i] < 0x21) r[i] = 'q';
    return r;
}
inline Addr addr4(Src& s) { return Addr(4, value4(s)); }
inline Addr addr6(Src& s, unsigned scope_one_in = 3) {
    u128 v = value6(s);
    return Addr(6, v, SCOPE_MAX && s.below(scope_one_in) == scope_one_in - 1 ? ascii_scope(s) : std::string());
}
inline Addr addr(Src& s) { return s.flip() ? addr6(s) : addr4(s); }
template <typename A> struct AddrGen;
template <> struct AddrGen<ipv4_address> { static Addr gen(Src& s) { return addr4(s); } };
template <> struct AddrGen<ipv6_address> { static Addr gen(Src& s) { return addr6(s); } };
template <> struct AddrGen<ip_address> { static Addr gen(Src& s) { return addr(s); } };

inline int prefix(Src& s, int bits) {
    static const unsigned w[] = {4, 2, 2, 2};
    switch (s.weighted(w)) {
        case 0: return (int) s.range(0, (size_t) bits);
        case 1: return bits - (int) s.below(5);
        case 2: return (int) s.below(5);
        default: { int p = 8 * (int) s.range(0, (size_t) bits / 8); p += (int) s.below(3) - 1; return p < 0 ? 0 : p > bits ? bits : p; }
    }
}
inline Net net_of(const Addr& a, int p) { return Net(Addr(a.ver, a.v & maskof(a.bits(), p)), p); }
inline Net net4(Src& s) {
    if (s.below(4) == 3) { const Block& b = s.pick(blocks4()); int p = b.p + (int) s.below(5) - 2; p = p < 0 ? 0 : p > 32 ? 32 : p; return net_of(Addr(4, b.v ^ (s.flip() ? (u128) 1 << s.below(32) : 0)), p); }
    Addr a = addr4(s);
    return net_of(a, prefix(s, 32));
}
inline Net net6(Src& s) {
    if (s.below(4) == 3) { const Block& b = s.pick(blocks6()); int p = b.p + (int) s.below(5) - 2; p = p < 0 ? 0 : p > 128 ? 128 : p; return net_of(Addr(6, b.v ^ (s.flip() ? (u128) 1 << s.below(128) : 0)), p); }
    Addr a = addr6(s, 1000);
    return net_of(a, prefix(s, 128));
}
// network whose address carries a scope id with some probability
inline Net net6s(Src& s) { Net n = net6(s); if (SCOPE_MAX && s.below(3) == 2) n.a.scope = ascii_scope(s); return n; }
inline Net net(Src& s) { return s.flip() ? net6(s) : net4(s); }
template <typename N> struct NetGen;
template <> struct NetGen<ipv4_network> { static Net gen(Src& s) { return net4(s); } static Net gens(Src& s) { return net4(s); } };
template <> struct NetGen<ipv6_network> { static Net gen(Src& s) { return net6(s); } static Net gens(Src& s) { return net6s(s); } };
template <> struct NetGen<ip_network> { static Net gen(Src& s) { return net(s); } static Net gens(Src& s) { return s.flip() ? net6s(s) : net4(s); } };
// a relative of n: itself, parent, child, sibling, neighbour, or unrelated
inline Net relative(Src& s, const Net& n) {
    const int bits = n.bits();
    Net r = n;
    static const unsigned w[] = {2, 3, 3, 3, 3, 3, 1};
    switch (s.weighted(w)) {
        case 0: break;
        case 1: r.p = (int) s.range(0, (size_t) n.p); break;                                          // ancestor
        case 2: r.p = (int) s.range((size_t) n.p, (size_t) bits); r.a.v |= number(s, 128) & ones(bits - n.p); break;  // descendant
        case 3: if (n.p > 0) r.a.v ^= (u128) 1 << (bits - 1 - (int) s.below((size_t) n.p)); break;    // one prefix bit off
        case 4: r.a.v = (s.flip() ? n.last() + 1 : n.first() - 1) & ones(bits); r.p = prefix(s, bits); break;          // adjacent
        case 5: r.a.v = s.flip() ? n.last() : n.first(); r.p = prefix(s, bits); break;                 // sharing an edge
        default: return n.a.ver == 4 ? net4(s) : net6(s);
    }
    r.a.v &= maskof(bits, r.p);
    r.a.scope.clear();
    return r;
}

// ---- text ---------------------------------------------------------------------------------------
inline char any_char(Src& s) {
    static const char al[] = "0123456789abcdefABCDEF.:/%gGxz+- \t\n";
    size_t k = s.below(40);
    if (k < sizeof al - 1) return al[k];
    if (k == 36) return '\0';
    return (char) s.byte();
}
inline void mutate(Src& s, std::string& t) {
    size_t n = s.range(1, 3);
    for (size_t i = 0; i < n; ++i) {
        size_t pos = s.below(t.size() + 1);
        switch (s.below(10)) {
            case 0: t.insert(pos, 1, any_char(s)); break;
            case 1: if (pos < t.size()) t.erase(pos, 1); break;
            case 2: if (pos < t.size()) t[pos] = any_char(s); break;
            case 3: if (pos < t.size()) t.insert(pos, 1, t[pos]); break;                        // double a character
            case 4: t.resize(pos); break;                                                        // truncate
            case 5: { size_t len = s.below(6), from = s.below(t.size() + 1); t.insert(pos, t.substr(from, len)); break; }  // splice
            case 6: t += s.pick(std::vector<std::string>{".", ":", "::", "/", "%", " ", std::string(1, '\0'), "0", "/24", "%a", "x"}); break;
            case 7: t = s.pick(std::vector<std::string>{" ", ":", "::", "0", ".", "/", "%", "+", "-", "0x"}) + t; break;
            case 8: { size_t len = s.range(1, 80); t.insert(pos, std::string(len, any_char(s))); break; }   // long run
            default: if (t.size() >= 2) { size_t a = s.below(t.size()), b = s.below(t.size()); std::swap(t[a], t[b]); }
        }
        if (t.size() > 400) t.resize(400);
    }
}
inline std::string octet_text(Src& s) {
    std::string r;
    static const unsigned w[] = {30, 8, 4, 1, 1, 1, 1};
    switch (s.weighted(w)) {
        case 0: return dec(s.below(256));
        case 1: return s.pick(std::vector<std::string>{"0", "255", "9", "10", "99", "100", "199", "200", "249", "250", "1"});
        case 2: return dec(s.range(250, 260));
        case 3: return "0" + dec(s.below(256));
        case 4: return dec(s.range(256, 100000));
        case 5: return "";
        default: r = dec(s.below(256)); r += any_char(s); return r;
    }
}
inline std::string text4(Src& s) {
    static const unsigned w[] = {10, 8, 6, 3, 1};
    std::string r;
    switch (s.weighted(w)) {
        case 0: return fmt4(value4(s));
        case 1: {
            static const unsigned wc[] = {12, 1, 1, 1};
            static const size_t cnt[] = {4, 3, 5, 1};
            size_t n = cnt[s.weighted(wc)];
            for (size_t i = 0; i < n; ++i) { if (i) r += '.'; r += octet_text(s); }
            return r;
        }
        case 2: r = fmt4(value4(s)); mutate(s, r); return r;
        case 3: { size_t n = s.below(20); for (size_t i = 0; i < n; ++i) r += "0123456789.."[s.below(12)]; return r; }
        default: { size_t n = s.below(24); for (size_t i = 0; i < n; ++i) r += any_char(s); return r; }
    }
}
inline std::string hextet_text(Src& s) {
    static const unsigned w[] = {20, 6, 1, 1, 1};
    static const char H[] = "0123456789abcdefABCDEF";
    std::string r;
    switch (s.weighted(w)) {
        case 0: { size_t n = s.range(1, 4); for (size_t i = 0; i < n; ++i) r += H[s.below(22)]; return r; }
        case 1: return s.pick(std::vector<std::string>{"0", "0000", "ffff", "1", "FFFF", "00", "8000"});
        case 2: { size_t n = s.range(5, 8); for (size_t i = 0; i < n; ++i) r += H[s.below(22)]; return r; }
        case 3: return "";
        default: return std::string(1, any_char(s)) + "1";
    }
}
inline std::string scope_suffix(Src& s) {
    static const unsigned w[] = {12, 2, 1, 1, 2, 1};
    switch (s.weighted(w)) {
        case 0: return "%" + good_scope(s);
        case 1: return "%" + std::string(gen_scope_max + s.below(3), 'a');
        case 2: return "%";
        case 3: return "%a%b";
        case 4: { std::string t = good_scope(s); mutate(s, t); return "%" + t; }
        default: return "%" + std::string(s.range(15, 70), 'z');
    }
}
inline std::string some6(Src& s) { const u128 v = value6(s); return fmt6(v, (Fmt) s.below(3)); }
// structured IPv6 text: chosen number of groups, optional '::' at any place, optional IPv4 tail
inline std::string text6_shape(Src& s) {
    bool dc = s.flip();
    bool v4 = s.below(4) == 3;
    size_t need = dc ? s.range(0, 7) : 8;
    if (s.below(6) == 5) need = s.range(0, 10);  // off by some
    size_t groups = v4 ? (need >= 2 ? need - 2 : 0) : need;
    size_t at = dc ? s.below(groups + 1) : 99;
    std::string r;
    size_t items = groups + (v4 ? 1 : 0);
    for (size_t i = 0; i < items; ++i) {
        if (i == at) r += "::";
        else if (i) r += ":";
        if (v4 && i == groups) r += s.below(8) == 7 ? text4(s) : fmt4(value4(s));
        else r += hextet_text(s);
    }
    if (at >= items && dc) r += "::";
    return r;
}
inline std::string text6(Src& s) {
    static const unsigned w[] = {8, 12, 8, 3, 1, 1};
    std::string r;
    switch (s.weighted(w)) {
        case 0: r = some6(s); break;
        case 1: r = text6_shape(s); break;
        case 2: r = s.flip() ? some6(s) : text6_shape(s); if (s.flip()) r += scope_suffix(s); mutate(s, r); return r;
        case 3: { size_t n = s.below(24); for (size_t i = 0; i < n; ++i) r += "012abF:::::."[s.below(12)]; break; }
        case 4: { size_t n = s.below(40); for (size_t i = 0; i < n; ++i) r += any_char(s); break; }
        default: r = text4(s);
    }
    if (s.below(4) == 3) r += scope_suffix(s);
    if (s.below(6) == 5) for (size_t i = 0; i < r.size(); ++i) if (r[i] >= 'a' && r[i] <= 'f') r[i] = (char) (r[i] - 32);
    return r;
}
inline std::string mask_text(Src& s, int ver) {
    const int bits = ver == 4 ? 32 : 128;
    static const unsigned w[] = {10, 6, 4, 2, 2, 2, 1, 1};
    switch (s.weighted(w)) {
        case 0: return dec((u64) prefix(s, bits));
        case 1: return fmt4(s.flip() ? maskof(32, (int) s.below(33)) : ones((int) s.below(33)));
        case 2: { u128 v = s.flip() ? maskof(32, (int) s.below(33)) : ones((int) s.below(33)); v ^= (u128) 1 << s.below(32); return fmt4(v); }
        case 3: return dec(s.range((size_t) bits - 1, (size_t) bits + 3));
        case 4: {  // numbers that only fit, or come back into range, after wrapping at 8, 16, 32 or 64 bits
            static const int sh[] = {8, 16, 31, 32, 63, 64, 65, 96};
            u128 v = (u128) 1 << s.pick(sh);
            v *= s.range(1, 3);
            v += s.below(130);
            return dec(v);
        }
        case 5: { std::string t = dec((u64) prefix(s, bits)); mutate(s, t); return t; }
        case 6: { const size_t zeros = s.range(1, 5); return std::string(zeros, '0') + dec((u64) prefix(s, bits)); }
        default: return s.flip() ? "" : text4(s);
    }
}
// network text; ver selects the family of the address part
inline std::string net_text(Src& s, int ver) {
    static const unsigned w[] = {10, 8, 4, 3, 1};
    const int bits = ver == 4 ? 32 : 128;
    std::string r;
    switch (s.weighted(w)) {
        case 0: {  // valid unless host bits are set
            int p = prefix(s, bits);
            Addr a = ver == 4 ? addr4(s) : addr6(s);
            if (s.below(3) != 2) a.v &= maskof(bits, p);
            r = fmt(a, (Fmt) s.below(3)) + "/";
            if (ver == 4 && s.below(3) == 2) return r + fmt4(s.flip() ? maskof(32, p) : ones(32 - p));
            return r + dec((u64) p);
        }
        case 1: r = ver == 4 ? text4(s) : text6(s); r += "/"; r += mask_text(s, ver); return r;
        case 2: r = fmt(ver == 4 ? addr4(s) : addr6(s), COMPRESSED); r += "/"; r += mask_text(s, ver); mutate(s, r); return r;
        case 3: return ver == 4 ? text4(s) : text6(s);
        default: { // over-long address part: valid address, then more characters, then a mask
            r = fmt(ver == 4 ? addr4(s) : addr6(s), COMPRESSED);
            const size_t len = s.range(0, 70);
            r.append(len, any_char(s));
            if (s.flip()) r += "/" + dec((u64) prefix(s, bits));
            return r;
        }
    }
}
}  // namespace g
#endif
