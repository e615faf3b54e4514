#include "enc.hpp"
using namespace m;

// ---- what is asked of each type ------------------------------------------------------------------
template <typename T> struct Model;
template <> struct Model<ipv4_address> { typedef Addr M; static bool parse(const std::string& s, Addr& o) { return parse4(s, o); } };
template <> struct Model<ipv6_address> { typedef Addr M; static bool parse(const std::string& s, Addr& o) { return parse6(s, o); } };
template <> struct Model<ip_address> { typedef Addr M; static bool parse(const std::string& s, Addr& o) { return parse_any(s, o); } };
template <> struct Model<ipv4_network> { typedef Net M; static bool parse(const std::string& s, Net& o, bool strict = true) { return parse_net(4, s, strict, o); } };
template <> struct Model<ipv6_network> { typedef Net M; static bool parse(const std::string& s, Net& o, bool strict = true) { return parse_net(6, s, strict, o); } };
template <> struct Model<ip_network> { typedef Net M; static bool parse(const std::string& s, Net& o, bool strict = true) { return parse_net_any(s, strict, o); } };

template <typename T, typename C, typename... X> static void units_case(Src& s, Ctx& c, const std::vector<uint32_t>& t, bool exact_code, X... x) {
    const Decoded d = decode<C>(t);
    const std::basic_string<C> w = build<C>(t);
    const bool plain_ascii = d.ascii();
    typename Model<T>::M want, want_nul;
    bool ok = false, ok_nul = false;
    if (plain_ascii) {
        std::string n;
        for (size_t i = 0; i < d.cp.size(); ++i) n += (char) d.cp[i];
        ok = Model<T>::parse(n, want, x...);
    }
    const std::vector<uint32_t> tn(t.begin(), t.begin() + (long) to_first_nul(w).size());
    const Decoded dn = decode<C>(tn);
    if (dn.ascii()) {
        std::string n;
        for (size_t i = 0; i < dn.cp.size(); ++i) n += (char) dn.cp[i];
        ok_nul = Model<T>::parse(n, want_nul, x...);
    }
    SUB(c, (entry_points<T, typename Model<T>::M, C>(s, c, w, ok, want, ok_nul, want_nul, Tr<T>::name(), x...)));
    if (!plain_ascii) {
        c.label(d.e != GOOD ? "ill-formed" : "well-formed non-ASCII");
        if (exact_code) {  // the rest of the text is valid: the encoding is the only defect
            error_code e = stale(s);
            T::parse(w, e, x...);
            bool before = false;  // a well-formed non-ASCII character comes before the ill-formed place, and decides
            for (size_t i = 0; i < d.cp.size(); ++i) before = before || d.cp[i] > 127;
            if (d.e == BROKEN && !before) REQ_EQ(c, (int) e, (int) error_code::wrong_encoding_sequence, Tr<T>::name(), " code for ", qw(w));
            else if (d.e == GOOD) REQ_EQ(c, (int) e, (int) error_code::unexpected_symbol, Tr<T>::name(), " code for ", qw(w));
            else REQ(c, e == error_code::wrong_encoding_sequence || e == error_code::unexpected_symbol, Tr<T>::name(), " code ", (int) e, " for ", qw(w));
        }
    } else c.label(ok ? "ASCII, accepted" : "ASCII, refused");
}
template <typename C> static void each_type(Src& s, Ctx& c, const std::vector<uint32_t>& t, int kind, bool exact) {
    NOTE(c, "units of ", unit_width<C>(), " bits ", qw(build<C>(t)));
    if (kind == 0) SUB(c, (units_case<ipv4_address, C>(s, c, t, exact)));
    if (kind == 1) SUB(c, (units_case<ipv6_address, C>(s, c, t, exact)));
    if (kind < 2) SUB(c, (units_case<ip_address, C>(s, c, t, exact)));
    if (kind < 2) return;
    const size_t strict = s.below(3);
    if (strict == 0) {
        if (kind == 2) SUB(c, (units_case<ipv4_network, C>(s, c, t, exact)));
        if (kind == 3) SUB(c, (units_case<ipv6_network, C>(s, c, t, exact)));
        SUB(c, (units_case<ip_network, C>(s, c, t, exact)));
    } else {
        if (kind == 2) SUB(c, (units_case<ipv4_network, C>(s, c, t, exact, strict == 1)));
        if (kind == 3) SUB(c, (units_case<ipv6_network, C>(s, c, t, exact, strict == 1)));
        SUB(c, (units_case<ip_network, C>(s, c, t, exact, strict == 1)));
    }
}
// choose the character type
static void dispatch(Src& s, Ctx& c, size_t ct, const std::vector<uint32_t>& t, int kind, bool exact) {
    if (ct == 0) SUB(c, each_type<wchar_t>(s, c, t, kind, exact));
    if (ct == 1) SUB(c, each_type<char16_t>(s, c, t, kind, exact));
    if (ct == 2) SUB(c, each_type<char32_t>(s, c, t, kind, exact));
#if __cpp_char8_t >= 201811L
    if (ct == 3) SUB(c, each_type<char8_t>(s, c, t, kind, exact));
#else
    if (ct == 3 && CHAR_UTF8) SUB(c, each_type<char>(s, c, t, kind, exact));
#endif
    if (ct == 4 && CHAR_UTF8) SUB(c, each_type<char>(s, c, t, kind, exact));
}
static std::string valid_text(Src& s, int kind) {
    if (kind == 0) return fmt(g::addr4(s), FULL);
    if (kind == 1) return fmt(Addr(6, g::value6(s), SCOPE_MAX && s.below(4) == 3 ? std::string(s.range(1, SCOPE_MAX), 'z') : std::string()), (Fmt) s.below(3));
    return fmt(kind == 2 ? g::net4(s) : g::net6(s), (Fmt) s.below(3));
}
// one defect of encoding in an otherwise valid text, at any place
static void one_defect(Src& s, Ctx& c) {
    const size_t ct = pick_ct(s);
    const int kind = (int) s.below(4), bits = unit_bits(ct);
    std::vector<uint32_t> t = units(valid_text(s, kind));
    size_t at = s.below(t.size() + 1);
    const bool replace = s.flip() && at < t.size();
    const uint32_t old = replace ? t[at] : '0' + (uint32_t) s.below(10);
    if (replace) t.erase(t.begin() + (long) at);
    bool exact = true;
    switch (s.below(6)) {
        case 0: case 1: put_cp(s, t, at, code_point(s), bits); break;
        case 5: {  // a sequence of several units, one of which is not quite what it should be
            const uint32_t cp = bits == 8 ? (s.flip() ? 0x80 + (uint32_t) s.below(0x780) : s.flip() ? 0x800 + (uint32_t) s.below(0xd000) : 0x10000 + (uint32_t) s.below(0x100000))
                                          : 0x10000 + (uint32_t) s.below(0x100000);
            const size_t before = t.size();
            put_cp(s, t, at, cp, bits);
            const size_t k = s.below(t.size() - before);
            const int bit = bits == 8 ? (int) s.range(3, 7) : (int) s.range(9, 15);
            t[at + k] ^= 1u << bit;
            if (s.below(3) == 2) t[at + k] ^= 1u << (bits == 8 ? s.range(3, 7) : s.range(9, 15));
            exact = t[at + k] >= 0x80;  // otherwise it is a stray ASCII character, too
            break;
        }
        case 2:  // one lone bad unit
            if (bits == 8) t.insert(t.begin() + (long) at, (uint32_t) s.range(0x80, 0xff));
            else if (bits == 16) t.insert(t.begin() + (long) at, (uint32_t) s.range(0xd800, 0xdfff));
            else t.insert(t.begin() + (long) at, s.flip() ? (uint32_t) s.range(0xd800, 0xdfff) : (uint32_t) s.bits64() | 0x80000000u);
            break;
        case 3:  // something that would decode to an acceptable character if it were not checked
            if (bits == 8) put_overlong(t, at, old, (int) s.range(1, 3));
            else if (bits == 16) { t.insert(t.begin() + (long) at, (uint32_t) (s.flip() ? 0xd800 : 0xdc00)); if (s.flip()) t.insert(t.begin() + (long) at + 1, old); }
            else t.insert(t.begin() + (long) at, old | (uint32_t) 1 << s.range(8, 31));
            break;
        default:  // truncated at the end of the text
            if (replace) t.insert(t.begin() + (long) at, old);
            if (bits == 8) { put_cp(s, t, t.size(), 0x10000 + (uint32_t) s.below(0x100000), 8); t.resize(t.size() - s.range(1, 3)); }
            else if (bits == 16) t.push_back((uint32_t) s.range(0xd800, 0xdbff));
            else t.push_back(0x110000 + (uint32_t) s.below(100));
    }
    c.nontrivial();
    SUB(c, dispatch(s, c, ct, t, kind, exact));
}
// arbitrary texts: same answer as the model in every character type
static void arbitrary(Src& s, Ctx& c) {
    const size_t ct = pick_ct(s);
    const int kind = (int) s.below(4);
    std::string n = kind == 0 ? g::text4(s) : kind == 1 ? g::text6(s) : g::net_text(s, kind == 2 ? 4 : 6);
    std::vector<uint32_t> t = units(n);
    if (!ascii(n)) c.label("high bytes");
    if (s.below(3) == 2) {
        const size_t k = s.range(1, 3);
        for (size_t i = 0; i < k; ++i) put_cp(s, t, s.below(t.size() + 1), code_point(s), unit_bits(ct));
    }
    if (unit_bits(ct) == 8) for (size_t i = 0; i < t.size(); ++i) t[i] &= 0xff;
    if (n.size() > 3) c.nontrivial();
    SUB(c, dispatch(s, c, ct, t, kind, false));
}
// ASCII text: identical value or identical error code in every character type
template <typename T, typename C> static int code_of(const std::string& t) { error_code e = error_code::no_error; T::parse(widen<C>(t), e); return (int) e; }
template <typename T> static void same_code(Ctx& c, const std::string& t) {
    const int n = code_of<T, char>(t);
    REQ_EQ(c, (code_of<T, wchar_t>(t)), n, Tr<T>::name(), " wchar_t ", q(t));
    REQ_EQ(c, (code_of<T, char16_t>(t)), n, Tr<T>::name(), " char16_t ", q(t));
    REQ_EQ(c, (code_of<T, char32_t>(t)), n, Tr<T>::name(), " char32_t ", q(t));
#if __cpp_char8_t >= 201811L
    REQ_EQ(c, (code_of<T, char8_t>(t)), n, Tr<T>::name(), " char8_t ", q(t));
#endif
    c.label(n ? "same error" : "same value");
}
static void same(Src& s, Ctx& c) {
    const int kind = (int) s.below(4);
    std::string t = kind == 0 ? g::text4(s) : kind == 1 ? g::text6(s) : g::net_text(s, kind == 2 ? 4 : 6);
    for (size_t i = 0; i < t.size(); ++i) t[i] = (char) (t[i] & 0x7f);
    NOTE(c, q(t));
    if (t.size() > 3) c.nontrivial();
    if (kind == 0) SUB(c, same_code<ipv4_address>(c, t));
    if (kind == 1) SUB(c, same_code<ipv6_address>(c, t));
    if (kind == 2) SUB(c, same_code<ipv4_network>(c, t));
    if (kind == 3) SUB(c, same_code<ipv6_network>(c, t));
    if (kind < 2) SUB(c, same_code<ip_address>(c, t));
    if (kind >= 2) SUB(c, same_code<ip_network>(c, t));
}
// scope ids in every character type
template <typename C> static void scope_case(Src& s, Ctx& c, const std::vector<uint32_t>& t, const std::string& old) {
    const Decoded d = decode<C>(t);
    const std::basic_string<C> w = build<C>(t);
    std::string n;
    if (d.ascii()) for (size_t i = 0; i < d.cp.size(); ++i) n += (char) d.cp[i];
    const bool ok = d.ascii() && scope_ok(n);
    const ipv6_address start = lib6(Addr(6, 1, old));
    ipv6_address a = start;
    error_code e = stale(s);
    a.set_scope_id(w, e);
    NOTE(c, "scope id ", qw(w), ok ? " accepted" : " refused");
    REQ_EQ(c, e == error_code::no_error, ok, "set_scope_id of ", qw(w), " code ", (int) e);
    REQ_EQ(c, obs(a), Addr(6, 1, ok ? n : old), "set_scope_id of ", qw(w));
    const int code = (int) e;
    ipv6_address b = start;
    Outcome o = attempt([&] { b.set_scope_id(w); });
    REQ_EQ(c, o.threw, THROWS && !ok, "set_scope_id of ", qw(w));
    if (o.threw) REQ_EQ(c, o.code, code, "set_scope_id of ", qw(w));
    REQ(c, a == b, "both forms of set_scope_id");
    // as part of an address
    if (t.empty()) return;
    const std::basic_string<C> full = widen<C>("fe80::1%") + w;
    const ipv6_address p = ipv6_address::parse(full, e);
    Addr want;
    const bool pok = ok && parse6("fe80::1%" + n, want);
    REQ_EQ(c, e == error_code::no_error, pok, "parse of ", qw(full), " code ", (int) e);
    if (pok) REQ_EQ(c, obs(p), want, "parse of ", qw(full));
}
static void scopes(Src& s, Ctx& c) {
    if (!SCOPE_MAX) { c.label("no scope ids"); return; }
    const size_t ct = pick_ct(s);
    const int bits = unit_bits(ct);
    std::vector<uint32_t> t = units(g::ascii_scope(s));
    const size_t k = s.below(3);
    for (size_t i = 0; i < k; ++i) {
        const size_t at = s.below(t.size() + 1);
        switch (s.below(4)) {
            case 0: put_cp(s, t, at, code_point(s), bits); break;
            case 1: if (bits == 8) put_overlong(t, at, 'a' + (uint32_t) s.below(20), (int) s.range(1, 3)); else t.insert(t.begin() + (long) at, 'a' | (uint32_t) 1 << s.range(8, (size_t) bits - 1)); break;
            case 2: t.insert(t.begin() + (long) at, bits == 8 ? (uint32_t) s.range(0x80, 0xff) : (uint32_t) s.range(0xd800, 0xdfff)); break;
            default: t.insert(t.begin() + (long) at, (uint32_t) s.below(128));
        }
    }
    c.nontrivial();
    const std::string old = g::ascii_scope(s);
    if (ct == 0) SUB(c, scope_case<wchar_t>(s, c, t, old));
    if (ct == 1) SUB(c, scope_case<char16_t>(s, c, t, old));
    if (ct == 2) SUB(c, scope_case<char32_t>(s, c, t, old));
#if __cpp_char8_t >= 201811L
    if (ct == 3) SUB(c, scope_case<char8_t>(s, c, t, old));
#endif
    if (ct == 4 && CHAR_UTF8) SUB(c, scope_case<char>(s, c, t, old));
}
// output in each character type is the same characters
template <typename T> static void output(Ctx& c, const T& x, const std::string& what) {
    for (int f = 0; f < 3; ++f) {
        const ip::format lf = libfmt((Fmt) f);
        const std::string n = x.to_string(lf);
        REQ_EQ(c, qw(x.to_wstring(lf)), qw(widen<wchar_t>(n)), what, " to_wstring");
        REQ_EQ(c, qw(x.to_u16string(lf)), qw(widen<char16_t>(n)), what, " to_u16string");
        REQ_EQ(c, qw(x.to_u32string(lf)), qw(widen<char32_t>(n)), what, " to_u32string");
#if __cpp_char8_t >= 201811L
        REQ_EQ(c, qw(x.to_u8string(lf)), qw(widen<char8_t>(n)), what, " to_u8string");
#endif
    }
}
static void out(Src& s, Ctx& c) {
    Net n = s.flip() ? g::net6(s) : g::net4(s);
    if (n.a.ver == 6 && SCOPE_MAX && s.flip()) n.a.scope = g::ascii_scope(s);
    NOTE(c, n, " in all character types");
    c.nontrivial();
    if (n.a.ver == 4) { SUB(c, output(c, mknet<ipv4_network>(n), str(n))); SUB(c, output(c, lib4(n.a), str(n.a))); }
    if (n.a.ver == 6) { SUB(c, output(c, mknet<ipv6_network>(n), str(n))); SUB(c, output(c, lib6(n.a), str(n.a))); }
    SUB(c, output(c, mknet<ip_network>(n), str(n)));
    SUB(c, output(c, lib(n.a), str(n.a)));
    const std::string r = reverse_pointer(n.a);
    REQ_EQ(c, qw(lib(n.a).reverse_pointer()), qw(r), "reverse_pointer");
}
static const pbt::Facet F[] = {{"one_defect", 8, one_defect}, {"arbitrary", 6, arbitrary}, {"same", 5, same}, {"scopes", 5, scopes}, {"out", 2, out}};
PBT_MAIN("P20", F)
