// P30: byte_array, fixed_string and optional against std::array, std::string and a presence model.
#include "gen.hpp"
#include <array>
using namespace m;
using pbt::Facet;
namespace {
template <typename I, typename J> std::string seq_text(I a, J b) {
    std::string r;
    for (; a != b; ++a) r += dec((unsigned char) *a) + ",";
    return r;
}
template <typename A, typename B> int sgn(const A& a, const B& b) { return a < b ? -1 : b < a ? 1 : 0; }

// all six relations of two library values must say what the sign c says
template <typename L, typename R> void relations(Ctx& x, const L& a, const R& b, int c, const char* what) {
    REQ_EQ(x, a == b, c == 0, what);
    REQ_EQ(x, a != b, c != 0, what);
    REQ_EQ(x, a < b, c < 0, what);
    REQ_EQ(x, a <= b, c <= 0, what);
    REQ_EQ(x, a > b, c > 0, what);
    REQ_EQ(x, a >= b, c >= 0, what);
#if HAS_SPACESHIP
    REQ_EQ(x, (a <=> b) < 0, c < 0, what);
    REQ_EQ(x, (a <=> b) > 0, c > 0, what);
    REQ_EQ(x, (a <=> b) == 0, c == 0, what);
#endif
}
// forward, backward, const and indexed views of a container against the model
template <typename L, typename M> void views(Ctx& x, const L& a, const M& m) {
    REQ_EQ(x, a.size(), m.size(), "size");
    REQ_EQ(x, a.empty(), m.empty(), "empty");
    const std::string f = seq_text(m.begin(), m.end()), b = seq_text(m.rbegin(), m.rend());
    REQ_EQ(x, seq_text(a.begin(), a.end()), f, "begin..end");
    REQ_EQ(x, seq_text(a.cbegin(), a.cend()), f, "cbegin..cend");
    REQ_EQ(x, seq_text(a.rbegin(), a.rend()), b, "rbegin..rend");
    REQ_EQ(x, seq_text(a.crbegin(), a.crend()), b, "crbegin..crend");
    REQ_EQ(x, (size_t) (a.end() - a.begin()), m.size(), "end - begin");
    REQ_EQ(x, (size_t) (a.rend() - a.rbegin()), m.size(), "rend - rbegin");
    std::string r;
    for (typename L::const_iterator it = a.end(); it != a.begin();) r += dec((unsigned char) *--it) + ",";
    REQ_EQ(x, r, b, "end back to begin");
    std::string v;
    for (const auto& c : a) v += dec((unsigned char) c) + ",";
    REQ_EQ(x, v, f, "range for");
    if (m.empty()) return;
    for (size_t i = 0; i < m.size(); ++i) {
        REQ_EQ(x, (int) (unsigned char) a[i], (int) (unsigned char) m[i], "operator[]");
        REQ_EQ(x, (int) (unsigned char) a.at(i), (int) (unsigned char) m[i], "at");
        REQ(x, &a[i] == a.data() + i, "elements are contiguous");
    }
    REQ_EQ(x, (int) (unsigned char) a.front(), (int) (unsigned char) m.front(), "front");
    REQ_EQ(x, (int) (unsigned char) a.back(), (int) (unsigned char) m.back(), "back");
    REQ_EQ(x, seq_text(a.data(), a.data() + m.size()), f, "data");
}
// ---- byte_array -----------------------------------------------------------------------------------
template <size_t N> std::array<uint8_t, N> bytes(Src& s) {
    std::array<uint8_t, N> r;
    const size_t k = s.below(4);
    for (size_t i = 0; i < N; ++i) r[i] = k == 0 ? (uint8_t) s.below(3) : k == 1 ? (uint8_t) (0x7e + s.below(4)) : k == 2 ? (uint8_t) (0xfd + s.below(4)) : s.byte();
    return r;
}
template <size_t N> ip::byte_array<N> arr(const std::array<uint8_t, N>& m) {
    ip::byte_array<N> r = {};
    for (size_t i = 0; i < N; ++i) r[i] = m[i];
    return r;
}
template <size_t N> void array_case(Src& s, Ctx& x) {
    typedef std::array<uint8_t, N> M;
    typedef ip::byte_array<N> L;
    M ms[3];
    L ls[3];
    ms[0] = bytes<N>(s);
    ms[1] = s.flip() ? bytes<N>(s) : ms[0];
    ms[2] = ms[0];
    ms[2][s.below(N)] ^= (uint8_t) (1u << s.below(8));  // one bit away
    for (int i = 0; i < 3; ++i) ls[i] = arr<N>(ms[i]);
    x.nontrivial(true);
    const size_t steps = s.range(1, 8);
    for (size_t k = 0; k < steps; ++k) {
        const size_t i = s.below(3), j = s.below(3), p = s.below(N);
        const uint8_t v = s.byte();
        L& a = ls[i];
        M& m = ms[i];
        const size_t op = s.below(11);
        NOTE(x, "op ", op, " i ", i, " j ", j, " p ", p, " v ", (int) v);
        switch (op) {
            case 0: a[p] = v; m[p] = v; break;
            case 1: a.at(p) = v; m.at(p) = v; break;
            case 2: a.front() = v; m.front() = v; break;
            case 3: a.back() = v; m.back() = v; break;
            case 4: *(a.data() + p) = v; m[p] = v; break;
            case 5: a.swap(ls[j]); if (i != j) m.swap(ms[j]); break;
            case 6: { L& o = ls[j]; a = o; m = ms[j]; break; }
            case 7: { L t(a); ls[j] = std::move(t); ms[j] = m; break; }
            case 8: std::swap(a, ls[j]); if (i != j) std::swap(m, ms[j]); break;
            case 9: m = bytes<N>(s); a = arr<N>(m); break;
            default: a[p] = (uint8_t) (a[p] + 1); m[p] = (uint8_t) (m[p] + 1);
        }
        for (int t = 0; t < 3; ++t) SUB(x, views(x, ls[t], ms[t]));
        SUB(x, relations(x, ls[i], ls[j], sgn(ms[i], ms[j]), "array relation"));
        SUB(x, relations(x, ls[j], ls[i], sgn(ms[j], ms[i]), "array relation"));
        REQ_EQ(x, ls[i].max_size(), N, "max_size");
    }
    x.obs(seq_text(ls[0].begin(), ls[0].end()));
}
void f_array(Src& s, Ctx& x) {
    switch (s.below(6)) {
        case 0: return array_case<4>(s, x);
        case 1: return array_case<16>(s, x);
        case 2: return array_case<1>(s, x);
        case 3: return array_case<2>(s, x);
        case 4: return array_case<5>(s, x);
        default: return array_case<32>(s, x);
    }
}
// ---- fixed_string ---------------------------------------------------------------------------------
std::string chars(Src& s, size_t max, bool ascii_only) {
    const size_t n = s.below(3) == 2 ? max : s.below(max + 1);
    std::string r;
    const size_t k = s.below(4);
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = k == 0 ? (unsigned char) ('a' + s.below(3)) : k == 1 ? (unsigned char) (0x7d + s.below(6)) : k == 2 ? (unsigned char) (1 + s.below(3)) : s.byte();
        if (ascii_only) c &= 0x7f;
        r += (char) (c ? c : 1);
    }
    return r;
}
template <typename C, size_t N> ip::fixed_string<N> fs_of(const std::string& t, size_t form) {
    C a[N + 1] = {};
    for (size_t i = 0; i < t.size(); ++i) a[i] = (C) (unsigned char) t[i];
    error_code e = error_code::scope_id_is_too_long;  // whatever was there before must not matter
    switch (form) {
        case 0: return ip::make_fixed_string(a);
        case 1: return ip::make_fixed_string(a, e);
        case 2: return ip::fixed_string<N>(a);
        default: return ip::fixed_string<N>(a, e);
    }
}
template <size_t N> ip::fixed_string<N> fs(Src& s, Ctx& x, const std::string& t) {
    const size_t form = s.below(4), type = ascii(t) ? s.below(5) : 0;
    NOTE(x, "char type ", type, " form ", form, " text ", q(t));
    switch (type) {
        case 1: return fs_of<wchar_t, N>(t, form);
        case 2: return fs_of<char16_t, N>(t, form);
        case 3: return fs_of<char32_t, N>(t, form);
#ifdef __cpp_char8_t
        case 4: return fs_of<char8_t, N>(t, form);
#endif
        default: return fs_of<char, N>(t, form);
    }
}
template <size_t N> void string_case(Src& s, Ctx& x) {
    typedef ip::fixed_string<N> L;
    std::string ms[3];
    L ls[3];
    for (int i = 0; i < 3; ++i) SUB(x, views(x, ls[i], ms[i]));
    const bool only = CHAR_UTF8;
    ms[0] = chars(s, N, only);
    ms[1] = s.flip() ? chars(s, N, only) : ms[0];
    ms[2] = ms[0];
    if (!ms[2].empty()) {
        switch (s.below(3)) {
            case 0: ms[2].resize(s.below(ms[2].size())); break;  // a prefix
            case 1: { char& c = ms[2][s.below(ms[2].size())]; c = (char) (c ^ (1 << s.below(only ? 7 : 8))); if (!c) c = 1; break; }
            default: if (ms[2].size() < N) ms[2] += 'a';
        }
    }
    for (int i = 0; i < 3; ++i) ls[i] = fs<N>(s, x, ms[i]);
    x.nontrivial(!ms[0].empty());
    const size_t steps = s.range(1, 6);
    for (size_t k = 0; k < steps; ++k) {
        const size_t i = s.below(3), j = s.below(3), op = s.below(6);
        NOTE(x, "op ", op, " i ", i, " j ", j);
        switch (op) {
            case 0: ls[i].swap(ls[j]); if (i != j) ms[i].swap(ms[j]); break;
            case 1: { L& o = ls[j]; ls[i] = o; ms[i] = ms[j]; break; }
            case 2: { L t(ls[i]); ls[j] = std::move(t); ms[j] = ms[i]; break; }
            case 3: std::swap(ls[i], ls[j]); if (i != j) ms[i].swap(ms[j]); break;
            case 4: ms[i] = chars(s, N, only); ls[i] = fs<N>(s, x, ms[i]); break;
            default: ls[i] = L(); ms[i].clear();
        }
        for (int t = 0; t < 3; ++t) { SUB(x, views(x, ls[t], ms[t])); REQ_EQ(x, ls[t].capacity(), N, "capacity"); }
        for (int t = 0; t < 3; ++t) {
            const int c = sgn(ms[i], ms[t]);
            SUB(x, relations(x, ls[i], ls[t], c, "string relation"));
            REQ_EQ(x, sgn(ls[i].compare(ls[t]), 0), c, "compare");
            if (c == 0) REQ_EQ(x, ls[i].hash(), ls[t].hash(), "equal strings, equal hash");
        }
    }
    // against other capacities
    const std::string o = s.flip() ? ms[0].substr(0, 9) : chars(s, 9, only);
    const ip::fixed_string<9> lo = fs<9>(s, x, o);
    SUB(x, relations(x, ls[0], lo, sgn(ms[0], o), "relation of two capacities"));
    SUB(x, relations(x, lo, ls[0], sgn(o, ms[0]), "relation of two capacities"));
    if (ms[0] == o) REQ_EQ(x, ls[0].hash(), lo.hash(), "equal strings, equal hash");
    const ip::fixed_string<0> z;
    SUB(x, relations(x, ls[0], z, ms[0].empty() ? 0 : 1, "relation with the empty capacity"));
    SUB(x, relations(x, z, ls[0], ms[0].empty() ? 0 : -1, "relation with the empty capacity"));
    x.obs(seq_text(ls[0].begin(), ls[0].end()));
}
void f_string(Src& s, Ctx& x) {
    switch (s.below(6)) {
        case 0: return string_case<4>(s, x);
        case 1: return string_case<16>(s, x);
        case 2: return string_case<1>(s, x);
        case 3: return string_case<2>(s, x);
        case 4: return string_case<7>(s, x);
        default: return string_case<40>(s, x);
    }
}
// hashes of strings that differ in one place must not collide as a family
void f_hash(Src& s, Ctx& x) {
    const bool only = CHAR_UTF8;
    std::string b = chars(s, 16, only);
    std::set<std::string> texts;
    std::set<size_t> hashes;
    texts.insert(b);
    for (size_t i = 0; i < b.size(); ++i) {
        for (int bit = 0; bit < (only ? 7 : 8); ++bit) { std::string t = b; t[i] = (char) (t[i] ^ (1 << bit)); if (t[i]) texts.insert(t); }
        texts.insert(b.substr(0, i));
        if (i && b[i] != b[i - 1]) { std::string t = b; std::swap(t[i], t[i - 1]); texts.insert(t); }
    }
    if (b.size() < 16) for (char c = 1; c < 5; ++c) texts.insert(b + c);
    for (std::set<std::string>::const_iterator it = texts.begin(); it != texts.end(); ++it) hashes.insert(fs_of<char, 16>(*it, 0).hash());
    x.nontrivial(texts.size() > 4);
    NOTE(x, "base ", q(b), " family of ", texts.size());
    REQ(x, hashes.size() + 1 >= texts.size(), str("different strings hash differently: ", hashes.size(), " hashes of ", texts.size(), " strings like ", q(b)));
}
// the empty array and the empty capacity
void f_zero(Src& s, Ctx& x) {
    ip::byte_array<0> a, b;
    const ip::fixed_string<0> z;
    x.nontrivial(false);
    REQ(x, a.empty() && a.size() == 0 && a.max_size() == 0, "byte_array<0> is empty");
    REQ(x, a.begin() == a.end() && a.cbegin() == a.cend() && a.rbegin() == a.rend() && a.crbegin() == a.crend(), "byte_array<0> has no elements");
    a.swap(b);
    SUB(x, relations(x, a, b, 0, "byte_array<0>"));
    REQ(x, z.empty() && z.size() == 0 && z.capacity() == 0, "fixed_string<0> is empty");
    REQ(x, z.begin() == z.end() && z.cbegin() == z.cend() && z.rbegin() == z.rend() && z.crbegin() == z.crend(), "fixed_string<0> has no elements");
    SUB(x, relations(x, z, ip::make_fixed_string(""), 0, "fixed_string<0>"));
    const std::string t = chars(s, 5, true);
    SUB(x, relations(x, z, fs<5>(s, x, t), t.empty() ? 0 : -1, "fixed_string<0>"));
}
// ---- optional -------------------------------------------------------------------------------------
template <typename T> struct Val;
template <> struct Val<uint32_t> { static uint32_t gen(Src& s) { return s.below(3) ? (uint32_t) s.bits64() : 0; } };
template <> struct Val<std::string> { static std::string gen(Src& s) { return std::string(s.below(40), (char) ('a' + s.below(20))); } };
template <> struct Val<ipv4_address> { static ipv4_address gen(Src& s) { return s.below(4) ? lib4(g::addr4(s)) : ipv4_address(); } };
template <> struct Val<ipv6_address> { static ipv6_address gen(Src& s) { return s.below(4) ? lib6(g::addr6(s)) : ipv6_address(); } };
template <> struct Val<ipv4_network> { static ipv4_network gen(Src& s) { return mknet<ipv4_network>(g::net4(s)); } };
template <typename T> struct OM { bool has; T v; OM() : has(false), v() {} };
template <typename T> void same(Ctx& x, ip::optional<T>& a, const OM<T>& m) {
    const ip::optional<T>& c = a;
    REQ_EQ(x, c.has_value(), m.has, "has_value");
    REQ_EQ(x, static_cast<bool>(c), m.has, "explicit bool");
    REQ_EQ(x, c ? 1 : 0, m.has ? 1 : 0, "contextual bool");
    if (!m.has) return;
    REQ(x, *c == m.v && *a == m.v, "operator*");
    REQ(x, c.value() == m.v && a.value() == m.v, "value");
    REQ(x, *c.operator->() == m.v && *a.operator->() == m.v, "operator->");
    REQ(x, &*a == &a.value() && &a.value() == a.operator->() && &*c == &*a, "one object behind every accessor");
}
template <typename T> void opt_case(Src& s, Ctx& x) {
    typedef ip::optional<T> L;
    L ls[3];
    OM<T> ms[3];
    for (int i = 0; i < 3; ++i) SUB(x, same(x, ls[i], ms[i]));
    const size_t steps = s.range(1, 12);
    x.nontrivial(steps > 1);
    for (size_t k = 0; k < steps; ++k) {
        const size_t i = s.below(3), j = s.below(3), op = s.below(15);
        const T v = Val<T>::gen(s);
        L& a = ls[i];
        OM<T>& m = ms[i];
        NOTE(x, "op ", op, " i ", i, " j ", j);
        switch (op) {
            case 0: a = v; m.has = true; m.v = v; break;
            case 1: { T t(v); a = std::move(t); m.has = true; m.v = v; break; }
            case 2: { L& o = ls[j]; a = o; m = OM<T>(ms[j]); break; }
            case 3: a = nullptr; m.has = false; break;
            case 4: { L t(a); ls[j] = std::move(t); ms[j] = OM<T>(m); break; }
            case 5: std::swap(a, ls[j]); if (i != j) std::swap(m, ms[j]); break;
            case 6: if (m.has) { *a = v; m.v = v; } break;
            case 7: if (m.has) { a.value() = v; m.v = v; } break;
            case 8: if (m.has) { *a.operator->() = v; m.v = v; } break;
            case 9: a = L(v); m.has = true; m.v = v; break;
            case 10: a = L(nullptr); m.has = false; break;
            case 11: a = L(); m.has = false; break;
            case 12: { L t(a); if (m.has) { T got = std::move(t).value(); REQ(x, got == m.v, "value of an rvalue"); const L k(a); const T from = std::move(k).value(); REQ(x, from == m.v && k.has_value() && k.value() == m.v, "value of a constant rvalue"); } break; }
            case 13: { T t(v); L o(std::move(t)); a = o; m.has = true; m.v = v; SUB(x, same(x, o, m)); break; }
            default: { L t(a); t = v; OM<T> mt; mt.has = true; mt.v = v; SUB(x, same(x, t, mt)); t = nullptr; REQ(x, !t.has_value(), "emptied copy"); }
        }
        for (int t = 0; t < 3; ++t) SUB(x, same(x, ls[t], ms[t]));
    }
    x.obs(str(ls[0].has_value(), ls[1].has_value(), ls[2].has_value()));
}
void f_optional(Src& s, Ctx& x) {
    switch (s.below(5)) {
        case 0: return opt_case<uint32_t>(s, x);
        case 1: return opt_case<ipv4_address>(s, x);
        case 2: return opt_case<ipv6_address>(s, x);
        case 3: return opt_case<std::string>(s, x);
        default: return opt_case<ipv4_network>(s, x);
    }
}
const Facet F[] = {{"array", 6, f_array}, {"string", 8, f_string}, {"hash", 2, f_hash}, {"zero", 1, f_zero}, {"optional", 5, f_optional}};
}  // namespace
PBT_MAIN("P30", F)
