// Independent reference model: addresses as byte arrays, networks as (bytes, prefix), integers as
// unsigned __int128, text grammars written as split-and-check (not as the library's state machines).
#ifndef MODEL_HPP
#define MODEL_HPP
#include "pbt.hpp"
#ifdef PBT_MODULE
#include <compare>
#include <cstddef>
#include <optional>
#include <string_view>
#include <tuple>
#include <array>
#include <cmath>
#include <cassert>
#include <bit>
#include <iterator>
#include <functional>
#include <numeric>
import ipaddress;
#ifndef IPADDRESS_IPV6_SCOPE_MAX_LENGTH
#define IPADDRESS_IPV6_SCOPE_MAX_LENGTH 16
#endif
#define HAS_SPACESHIP 1
#else
#include <ipaddress/ipaddress.hpp>
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
#define HAS_SPACESHIP 1
#else
#define HAS_SPACESHIP 0
#endif
#endif

#if defined(_MSVC_LANG) || __cplusplus >= 201703L
#define CXX17 1
#else
#define CXX17 0
#endif

namespace m {
typedef unsigned __int128 u128;
typedef uint64_t u64;
using pbt::Ctx;
using pbt::Src;
using pbt::str;
using pbt::q;
using pbt::qw;

static const size_t SCOPE_MAX = IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
#ifdef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
static const bool SCOPE_SPACES = true;
#else
static const bool SCOPE_SPACES = false;
#endif
#ifdef IPADDRESS_CHAR_IS_UTF8
static const bool CHAR_UTF8 = true;
#else
static const bool CHAR_UTF8 = false;
#endif
#ifdef IPADDRESS_NO_EXCEPTIONS
static const bool THROWS = false;
#else
static const bool THROWS = true;
#endif

// ---- integers ---------------------------------------------------------------------------------
inline u128 mk128(u64 hi, u64 lo) { return (u128) hi << 64 | lo; }
inline std::string dec(u128 v) {
    std::string r;
    do { r.insert(r.begin(), char('0' + (int) (v % 10))); v /= 10; } while (v);
    return r;
}
inline std::string base_n(u128 v, unsigned b) {
    std::string r;
    do { r.insert(r.begin(), "0123456789abcdef"[(int) (v % b)]); v /= b; } while (v);
    return r;
}

// ---- addresses ----------------------------------------------------------------------------------
struct Addr {
    int ver;            // 4 or 6
    u128 v;             // numeric value
    std::string scope;  // V6 only
    Addr() : ver(4), v(0) {}
    Addr(int ve, u128 val, const std::string& sc = std::string()) : ver(ve), v(val), scope(sc) {}
    int bits() const { return ver == 4 ? 32 : 128; }
    uint8_t at(int i) const { return (uint8_t) (v >> (bits() - 8 - 8 * i)); }
    bool operator==(const Addr& o) const { return ver == o.ver && v == o.v && scope == o.scope; }
    bool operator!=(const Addr& o) const { return !(*this == o); }
};
inline u128 ones(int n) { return n <= 0 ? 0 : n >= 128 ? ~(u128) 0 : ((u128) 1 << n) - 1; }
inline u128 maskof(int bits, int prefix) { return ones(bits) & ~ones(bits - prefix); }

inline int cmp_addr(const Addr& a, const Addr& b) {
    if (a.ver != b.ver) return a.ver < b.ver ? -1 : 1;
    if (a.v != b.v) return a.v < b.v ? -1 : 1;
    int c = a.scope.compare(b.scope);
    return c < 0 ? -1 : c > 0 ? 1 : 0;
}

// ---- text: output -------------------------------------------------------------------------------
enum Fmt { FULL = 0, COMPACT = 1, COMPRESSED = 2 };
inline std::string fmt4(u128 v) {
    std::string r;
    for (int i = 3; i >= 0; --i) { r += dec((u64) (v >> (8 * i)) & 255); if (i) r += '.'; }
    return r;
}
inline std::string hex4(unsigned h, bool pad) {
    char b[8];
    snprintf(b, sizeof b, pad ? "%04x" : "%x", h);
    return b;
}
inline std::string fmt6(u128 v, Fmt f) {
    unsigned h[8];
    for (int i = 0; i < 8; ++i) h[i] = (unsigned) (v >> (112 - 16 * i)) & 0xffff;
    int bs = -1, bl = 1;  // longest run of zeros of length >= 2, leftmost on ties
    if (f == COMPRESSED)
        for (int i = 0; i < 8; ++i) {
            int j = i;
            while (j < 8 && h[j] == 0) ++j;
            if (j - i > bl) { bs = i; bl = j - i; }
        }
    std::string r;
    for (int i = 0; i < 8; ++i) {
        if (i == bs) { r += "::"; i += bl - 1; continue; }
        if (!r.empty() && r[r.size() - 1] != ':') r += ':';
        r += hex4(h[i], f == FULL);
    }
    return r;
}
inline std::string fmt(const Addr& a, Fmt f) {
    if (a.ver == 4) return fmt4(a.v);
    return fmt6(a.v, f) + (a.scope.empty() ? "" : "%" + a.scope);
}
inline std::string reverse_pointer(const Addr& a) {
    std::string r;
    if (a.ver == 4) {
        for (int i = 0; i < 4; ++i) r += dec((u64) (a.v >> (8 * i)) & 255) + ".";
        return r + "in-addr.arpa";
    }
    for (int i = 0; i < 32; ++i) { r += "0123456789abcdef"[(int) (a.v >> (4 * i)) & 15]; r += '.'; }
    return r + "ip6.arpa";
}

// ---- text: input --------------------------------------------------------------------------------
inline std::vector<std::string> split(const std::string& s, char d) {
    std::vector<std::string> r(1);
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) r.push_back(std::string()); else r.back() += s[i]; }
    return r;
}
inline bool all_in(const std::string& s, const char* set) {
    for (size_t i = 0; i < s.size(); ++i) if (s[i] == 0 || !strchr(set, s[i])) return false;
    return true;
}
static const char DIG[] = "0123456789";
static const char HEX[] = "0123456789abcdefABCDEF";

inline bool parse4(const std::string& s, Addr& out) {
    std::vector<std::string> p = split(s, '.');
    if (p.size() != 4) return false;
    u128 v = 0;
    for (int i = 0; i < 4; ++i) {
        const std::string& o = p[(size_t) i];
        if (o.empty() || o.size() > 3 || !all_in(o, DIG)) return false;
        if (o.size() > 1 && o[0] == '0') return false;
        int n = atoi(o.c_str());
        if (n > 255) return false;
        v = v << 8 | (unsigned) n;
    }
    out = Addr(4, v);
    return true;
}
inline bool scope_char_ok(char c) {
    if (c == 0 || c == '%' || c == '/') return false;
    if (!SCOPE_SPACES && (c == ' ' || (c >= 9 && c <= 13))) return false;
    if (CHAR_UTF8 && (unsigned char) c >= 0x80) return false;
    return true;
}
inline bool scope_ok(const std::string& s) {
    if (s.size() > SCOPE_MAX) return false;
    for (size_t i = 0; i < s.size(); ++i) if (!scope_char_ok(s[i])) return false;
    return true;
}
// hextets of one side of '::' (or of the whole text); false = malformed
inline bool hextets(const std::string& s, bool v4_allowed, std::vector<unsigned>& out) {
    if (s.empty()) return true;
    std::vector<std::string> p = split(s, ':');
    for (size_t i = 0; i < p.size(); ++i) {
        if (i + 1 == p.size() && v4_allowed && p[i].find('.') != std::string::npos) {
            Addr a;
            if (!parse4(p[i], a)) return false;
            out.push_back((unsigned) (a.v >> 16) & 0xffff);
            out.push_back((unsigned) a.v & 0xffff);
            continue;
        }
        if (p[i].empty() || p[i].size() > 4 || !all_in(p[i], HEX)) return false;
        out.push_back((unsigned) strtoul(p[i].c_str(), nullptr, 16));
    }
    return true;
}
inline bool parse6(const std::string& s, Addr& out) {
    std::string ip = s, scope;
    size_t pc = s.find('%');
    if (pc != std::string::npos) {
        ip = s.substr(0, pc);
        scope = s.substr(pc + 1);
        if (scope.empty() || !scope_ok(scope)) return false;
    }
    std::vector<unsigned> h;
    size_t dc = ip.find("::");
    if (dc != std::string::npos) {
        if (ip.find("::", dc + 1) != std::string::npos) return false;
        std::vector<unsigned> a, b;
        if (!hextets(ip.substr(0, dc), false, a) || !hextets(ip.substr(dc + 2), true, b)) return false;
        if (a.size() + b.size() > 7) return false;
        h = a;
        h.resize(8 - b.size(), 0);
        h.insert(h.end(), b.begin(), b.end());
    } else {
        if (ip.empty() || !hextets(ip, true, h) || h.size() != 8) return false;
    }
    u128 v = 0;
    for (int i = 0; i < 8; ++i) v = v << 16 | h[(size_t) i];
    out = Addr(6, v, scope);
    return true;
}
inline bool parse_any(const std::string& s, Addr& out) { return parse4(s, out) || parse6(s, out); }

// ---- networks -----------------------------------------------------------------------------------
struct Net {
    Addr a;  // network address (scope kept when no masking was needed)
    int p;
    Net() : p(32) {}
    Net(const Addr& ad, int pr) : a(ad), p(pr) {}
    int bits() const { return a.bits(); }
    u128 first() const { return a.v; }
    u128 last() const { return a.v | ones(bits() - p); }
    bool operator==(const Net& o) const { return a == o.a && p == o.p; }
};
inline int cmp_net(const Net& x, const Net& y) {
    int c = cmp_addr(x.a, y.a);
    return c ? c : x.p < y.p ? -1 : x.p > y.p ? 1 : 0;
}
inline bool make_net(const Addr& a, u64 prefix, bool strict, Net& out) {
    if (prefix > (u64) a.bits()) return false;
    u128 v = a.v & maskof(a.bits(), (int) prefix);
    if (v != a.v) {
        if (strict) return false;
        out = Net(Addr(a.ver, v), (int) prefix);
    } else out = Net(a, (int) prefix);
    return true;
}
inline bool digits_value(const std::string& s, unsigned max, unsigned& v) {  // exact, any length
    if (s.empty() || !all_in(s, DIG)) return false;
    v = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        v = v * 10 + (unsigned) (s[i] - '0');
        if (v > max) return false;
    }
    return true;
}
inline bool mask4(const std::string& s, unsigned& prefix) {
    if (digits_value(s, 32, prefix)) return true;
    Addr a;
    if (!parse4(s, a)) return false;
    for (int p = 0; p <= 32; ++p) if (a.v == maskof(32, p)) { prefix = (unsigned) p; return true; }
    for (int p = 0; p <= 32; ++p) if (a.v == ones(32 - p)) { prefix = (unsigned) p; return true; }
    return false;
}
inline bool parse_net(int ver, const std::string& s, bool strict, Net& out) {
    std::vector<std::string> p = split(s, '/');
    if (p.size() > 2) return false;
    Addr a;
    if (!(ver == 4 ? parse4(p[0], a) : parse6(p[0], a))) return false;
    unsigned prefix = (unsigned) a.bits();
    if (p.size() == 2) {
        if (!(ver == 4 ? mask4(p[1], prefix) : digits_value(p[1], 128, prefix))) return false;
    }
    return make_net(a, prefix, strict, out);
}
inline bool parse_net_any(const std::string& s, bool strict, Net& out) {
    return parse_net(4, s, strict, out) || parse_net(6, s, strict, out);
}
inline std::string fmt(const Net& n, Fmt f) { return fmt(n.a, f) + "/" + dec((u64) n.p); }
inline std::ostream& operator<<(std::ostream& o, const Addr& a) { return o << pbt::esc(fmt(a, COMPRESSED)); }
inline std::ostream& operator<<(std::ostream& o, const Net& n) { return o << pbt::esc(fmt(n, COMPRESSED)); }

}  // namespace m
#endif
