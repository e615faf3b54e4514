// Code unit sequences: an independent decoder and generators of well-formed and ill-formed ones.
#ifndef ENC_HPP
#define ENC_HPP
#include "entry.hpp"
namespace m {
// ---- an independent decoder -----------------------------------------------------------------
// BROKEN: the units do not form a sequence at all (bad lead or continuation, truncated, overlong, half a pair); ILL: a sequence that stands for a surrogate or beyond U+10FFFF
enum Enc { GOOD, ILL, BROKEN };
struct Decoded { Enc e; std::vector<uint32_t> cp; bool ascii() const { if (e != GOOD) return false; for (size_t i = 0; i < cp.size(); ++i) if (cp[i] > 127) return false; return true; } };
inline Decoded decode8(const std::vector<uint32_t>& t) {
    Decoded d = {GOOD, {}};
    for (size_t i = 0; i < t.size();) {
        const uint32_t b = t[i] & 0xff;
        int n = b < 0x80 ? 0 : b >= 0xc2 && b <= 0xdf ? 1 : b >= 0xe0 && b <= 0xef ? 2 : b >= 0xf0 && b <= 0xf4 ? 3 : -1;
        if (n < 0) { d.e = b >= 0xf5 && b <= 0xf7 ? ILL : BROKEN; return d; }
        if (i + (size_t) n >= t.size()) { d.e = BROKEN; return d; }
        uint32_t v = n == 0 ? b : n == 1 ? b & 0x1f : n == 2 ? b & 0xf : b & 7;
        for (int k = 1; k <= n; ++k) {
            const uint32_t x = t[i + (size_t) k] & 0xff;
            if ((x & 0xc0) != 0x80) { d.e = BROKEN; return d; }
            v = v << 6 | (x & 0x3f);
        }
        static const uint32_t least[] = {0, 0x80, 0x800, 0x10000};
        if (v < least[n]) { d.e = BROKEN; return d; }
        if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) { d.e = ILL; return d; }
        d.cp.push_back(v);
        i += (size_t) n + 1;
    }
    return d;
}
inline Decoded decode16(const std::vector<uint32_t>& t) {
    Decoded d = {GOOD, {}};
    for (size_t i = 0; i < t.size(); ++i) {
        const uint32_t v = t[i] & 0xffff;
        if (v >= 0xdc00 && v < 0xe000) { d.e = ILL; return d; }
        if (v >= 0xd800 && v < 0xdc00) {
            if (i + 1 >= t.size() || (t[i + 1] & 0xfc00) != 0xdc00) { d.e = BROKEN; return d; }
            d.cp.push_back(0x10000 + ((v & 0x3ff) << 10) + (t[i + 1] & 0x3ff));
            ++i;
        } else d.cp.push_back(v);
    }
    return d;
}
inline Decoded decode32(const std::vector<uint32_t>& t) {
    Decoded d = {GOOD, t};
    for (size_t i = 0; i < t.size(); ++i) if (t[i] > 0x10ffff || (t[i] >= 0xd800 && t[i] < 0xe000)) d.e = ILL;
    return d;
}
template <typename C> constexpr int unit_width() { return (int) sizeof(C) * 8; }
template <typename C> Decoded decode(const std::vector<uint32_t>& t) { return unit_width<C>() == 8 ? decode8(t) : unit_width<C>() == 16 ? decode16(t) : decode32(t); }
template <typename C> std::basic_string<C> build(const std::vector<uint32_t>& t) {
    std::basic_string<C> r;
    for (size_t i = 0; i < t.size(); ++i) r += (C) t[i];
    return r;
}
inline std::vector<uint32_t> units(const std::string& s) {
    std::vector<uint32_t> r;
    for (size_t i = 0; i < s.size(); ++i) r.push_back((unsigned char) s[i]);
    return r;
}
inline void put_cp(Src& s, std::vector<uint32_t>& t, size_t at, uint32_t cp, int bits) {  // well-formed encoding of cp
    (void) s;
    std::vector<uint32_t> u;
    if (bits == 32) u.push_back(cp);
    else if (bits == 16) { if (cp < 0x10000) u.push_back(cp); else { u.push_back(0xd800 + ((cp - 0x10000) >> 10)); u.push_back(0xdc00 + (cp & 0x3ff)); } }
    else if (cp < 0x80) u.push_back(cp);
    else if (cp < 0x800) { u.push_back(0xc0 | cp >> 6); u.push_back(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { u.push_back(0xe0 | cp >> 12); u.push_back(0x80 | (cp >> 6 & 63)); u.push_back(0x80 | (cp & 63)); }
    else { u.push_back(0xf0 | cp >> 18); u.push_back(0x80 | (cp >> 12 & 63)); u.push_back(0x80 | (cp >> 6 & 63)); u.push_back(0x80 | (cp & 63)); }
    t.insert(t.begin() + (long) at, u.begin(), u.end());
}
// overlong form of an ASCII character with n continuation bytes
inline void put_overlong(std::vector<uint32_t>& t, size_t at, uint32_t ch, int n) {
    std::vector<uint32_t> u;
    u.push_back(n == 1 ? 0xc0 | ch >> 6 : n == 2 ? 0xe0 : 0xf0);
    for (int k = n - 1; k >= 0; --k) u.push_back(0x80 | (k == 0 ? ch & 63 : k == 1 ? ch >> 6 : 0));
    if (n == 1) { u.clear(); u.push_back(0xc0 | ch >> 6); u.push_back(0x80 | (ch & 63)); }
    t.insert(t.begin() + (long) at, u.begin(), u.end());
}
inline int unit_bits(size_t ct) { return ct == 0 ? 32 : ct == 1 ? 16 : ct == 2 ? 32 : 8; }
inline size_t pick_ct(Src& s) {
#if __cpp_char8_t >= 201811L
    return CHAR_UTF8 ? s.below(5) : s.below(4);
#else
    return CHAR_UTF8 ? s.below(4) : s.below(3);
#endif
}
inline uint32_t code_point(Src& s) {
    static const uint32_t edge[] = {0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xff10, 0xff0e, 0xff1a, 0x3a00, 0x130, 0x12e, 0x1f600, 0x2e2e, 0xfeff, 0xa0, 0xe000, 0xd7ff,
                                    0x3030, 0x3131, 0x10030, 0x1002e, 0x20031, 0x100, 0x10f, 0x660};
    if (s.flip()) return s.pick(edge);
    // a character whose low bits are those of an acceptable ASCII character
    static const char al[] = "0123456789abcdef.:/%";
    static const int up[] = {8, 9, 12, 16, 7, 20};
    uint32_t v = (uint32_t) al[s.below(sizeof al - 1)] | (uint32_t) 1 << s.pick(up) | (s.below(3) == 2 ? (uint32_t) s.below(16) << 12 : 0);
    if (v > 0x10ffff) v &= 0xfffff;
    if (v >= 0xd800 && v < 0xe000) v ^= 0x1000;
    return v;
}
}  // namespace m
#endif
