#include "entry.hpp"
using namespace m;

typedef error_code E;
static const size_t WHAT_MAX = 2000;  // far beyond any message that quotes at most 100 characters

static bool is_logic_code(E e) {
    return e == E::invalid_version || e == E::invalid_prefixlen_diff || e == E::new_prefix_must_be_shorter || e == E::new_prefix_must_be_longer ||
           e == E::cannot_set_prefixlen_diff_and_new_prefix || e == E::not_contained_network;
}
// the throwing form agrees with the code form: same occurrence, same code, documented type, sane message
static void agree(Ctx& c, const Outcome& o, E code, const std::string& what) {
    REQ_EQ(c, o.threw, THROWS && code != E::no_error, what, ": throwing form and code form disagree, code ", (int) code, " message ", q(o.what));
    if (!o.threw) return;
    REQ_EQ(c, o.code, (int) code, what, ": code of the exception");
    REQ_EQ(c, o.is_logic, is_logic_code(code), what, ": logic_error for code ", (int) code);
    REQ_EQ(c, o.is_parse, !is_logic_code(code), what, ": parse_error for code ", (int) code);
    REQ(c, !o.what.empty(), what, ": empty message");
    REQ(c, o.what.size() <= WHAT_MAX, what, ": message of ", o.what.size(), " bytes");
}
template <typename F> static void bases(Ctx& c, F f, bool fails, const std::string& what) {  // catchable as the common base and as std::runtime_error
#ifndef IPADDRESS_NO_EXCEPTIONS
    int n = 0;
    try { f(); } catch (const ip::error& e) { n = 1; (void) e; }
    int k = 0;
    try { f(); } catch (const std::runtime_error& e) { k = 1; (void) e; }
    REQ(c, n == (int) fails && k == (int) fails, what, ": not catchable by its documented bases");
#else
    (void) c; (void) f; (void) fails; (void) what;
#endif
}
// ---- parsing -------------------------------------------------------------------------------------
template <typename T, typename C, typename... X> static E forms(Src& s, Ctx& c, const std::basic_string<C>& t, X... x) {
    const std::string what = str(Tr<T>::name(), " parse of ", qw(t));
    E e = stale(s), e2 = (E) (s.below(40));
    const T r = T::parse(t, e, x...), r2 = T::parse(t, e2, x...);
    if (e != e2) { c.fail(__FILE__, __LINE__, str(what, ": code depends on the value passed in: ", (int) e, " ", (int) e2)); return e; }
    if (!(r == r2)) { c.fail(__FILE__, __LINE__, str(what, ": result depends on the code passed in")); return e; }
    if (e != E::no_error && !(r == T())) { c.fail(__FILE__, __LINE__, str(what, ": refused, but the result is not the default value")); return e; }
    T k;
    const Outcome o = attempt([&] { k = T::parse(t, x...); });
    agree(c, o, e, what);
    if (c.failed) return e;
    if (e == E::no_error && !(k == r)) { c.fail(__FILE__, __LINE__, str(what, ": the two forms give different values")); return e; }
    bases(c, [&] { T::parse(t, x...); }, e != E::no_error, what);
    return e;
}
template <typename C> static void forms_of_kind(Src& s, Ctx& c, const std::string& t, int kind) {
    const std::basic_string<C> w = widen<C>(t);
    E e = E::no_error;
    const bool strict = s.flip();
    if (kind == 0) e = forms<ipv4_address>(s, c, w);
    if (kind == 1) e = forms<ipv6_address>(s, c, w);
    if (kind == 2) e = forms<ipv4_network>(s, c, w, strict);
    if (kind == 3) e = forms<ipv6_network>(s, c, w, strict);
    if (c.failed) return;
    if (kind < 2) forms<ip_address>(s, c, w); else forms<ip_network>(s, c, w, strict);
    c.label(e == E::no_error ? "parse: accepted" : "parse: refused");
}
static void any_ct(Src& s, Ctx& c, const std::string& t, int kind) {
    switch (s.below(5)) {
        case 0: forms_of_kind<wchar_t>(s, c, t, kind); break;
        case 1: forms_of_kind<char16_t>(s, c, t, kind); break;
        case 2: forms_of_kind<char32_t>(s, c, t, kind); break;
#if __cpp_char8_t >= 201811L
        case 3: forms_of_kind<char8_t>(s, c, t, kind); break;
#endif
        default: forms_of_kind<char>(s, c, t, kind);
    }
}
static std::string text_of(Src& s, int kind) { return kind == 0 ? g::text4(s) : kind == 1 ? g::text6(s) : g::net_text(s, kind == 2 ? 4 : 6); }
static void parsing(Src& s, Ctx& c) {
    const int kind = (int) s.below(4);
    const std::string t = text_of(s, kind);
    NOTE(c, q(t));
    if (t.size() > 3) c.nontrivial();
    any_ct(s, c, t, kind);
}
// long and hostile texts: bounded message, whatever is in them
static void hostile(Src& s, Ctx& c) {
    const int kind = (int) s.below(4);
    std::string t = text_of(s, kind);
    const size_t n = s.pick(std::vector<size_t>{98, 99, 100, 101, 102, 103, 104, 105, 128, 1000, 70000});
    const size_t at = s.below(t.size() + 1);
    const size_t len = n > t.size() ? n - t.size() : 1;
    switch (s.below(4)) {
        case 0: t.insert(at, std::string(len, g::any_char(s))); break;
        case 1: { std::string u; for (size_t i = 0; i < len && i < 200; ++i) u += (char) s.byte(); while (u.size() < len) u += u.substr(0, len - u.size()); t.insert(at, u); break; }
        case 2: t.insert(at, std::string(len, (char) s.range(128, 255))); break;
        default: { std::string u; while (u.size() < len) u += "{U+0041} %s%n '\""; t.insert(at, u.substr(0, len)); }
    }
    NOTE(c, t.size(), " characters, starting ", q(t.substr(0, 30)));
    c.nontrivial();
    any_ct(s, c, t, kind);
    if (c.failed || !THROWS) return;
    if (t.size() > 200) {  // a longer text does not make a longer message
        E e;
        ipv6_address::parse(t, e);
        if (e != E::no_error) {
            const Outcome a = attempt([&] { ipv6_address::parse(t); }), b = attempt([&] { ipv6_address::parse(t + t); });
            REQ(c, a.what.size() <= 400 && b.what.size() <= 400, "message of ", a.what.size(), " and ", b.what.size(), " bytes for narrow texts of ", t.size(), " and ", 2 * t.size());
        }
    }
}
// ---- one kind of defect, its documented code -------------------------------------------------------
static std::string join(const std::vector<std::string>& p, const char* d) { std::string r; for (size_t i = 0; i < p.size(); ++i) { if (i) r += d; r += p[i]; } return r; }
static std::vector<std::string> octets(Src& s, size_t n) { std::vector<std::string> p; for (size_t i = 0; i < n; ++i) p.push_back(dec(s.below(256))); return p; }
static std::vector<std::string> groups(Src& s, size_t n) { std::vector<std::string> p; for (size_t i = 0; i < n; ++i) p.push_back(hex4((unsigned) s.below(65536), s.flip())); return p; }
static std::string bad_octet(Src& s, E& e) {
    switch (s.below(4)) {
        case 0: e = E::leading_0_are_not_permitted; return "0" + dec(s.range(0, 99));
        case 1: e = E::octet_more_3_characters; return dec(s.range(1000, 99999));
        case 2: e = E::octet_exceeded_255; return dec(s.range(256, 999));
        default: { e = E::octet_has_invalid_symbol; std::string o = dec(s.below(100)); static const char bad[] = "abcfgxzAFX+- ,;_$*#@!~?=^&|<>()[]{}"; o.insert(s.below(o.size() + 1), 1, bad[s.below(sizeof bad - 1)]); return o; }
    }
}
static std::string defect4(Src& s, E& e) {
    switch (s.below(5)) {
        case 0: e = E::expected_4_octets; return join(octets(s, s.range(1, 3)), ".");
        case 1: e = E::expected_4_octets; return join(octets(s, s.range(5, 9)), ".");
        case 2: { e = E::empty_octet; std::vector<std::string> p = octets(s, 4); p[s.below(4)] = ""; return join(p, "."); }
        case 3: { std::vector<std::string> p = octets(s, 4); p[s.below(4)] = bad_octet(s, e); return join(p, "."); }
        default: e = E::empty_address; return "";
    }
}
static std::string defect6(Src& s, E& e) {
    std::vector<std::string> p;
    switch (s.below(14)) {
        case 0: e = E::empty_address; return "";
        case 1: e = E::least_3_parts; return join(groups(s, s.range(1, 2)), ":");
        case 2: e = E::exactly_8_parts_expected_without_double_colon; return join(groups(s, s.range(3, 7)), ":");
        case 3: e = E::most_8_colons_permitted; return join(groups(s, s.range(10, 14)), ":");
        case 4: { e = E::part_is_more_4_chars; p = groups(s, 8); std::string& k = p[s.below(8)]; const size_t n = s.range(5, 9); while (k.size() < n) k += 'a'; return join(p, ":"); }
        case 5: { e = E::part_has_invalid_symbol; p = groups(s, 8); std::string& k = p[s.below(8)]; static const char bad[] = "gGxzZ+- ,;_$*#@!~?=^&|<>()[]{}`\\"; k[s.below(k.size())] = bad[s.below(sizeof bad - 1)]; return join(p, ":"); }
        case 6: { e = E::most_one_double_colon_permitted; const size_t a = s.range(1, 2), b = s.range(1, 2), d = s.range(1, 2); return join(groups(s, a), ":") + "::" + join(groups(s, b), ":") + "::" + join(groups(s, d), ":"); }
        case 7: e = E::leading_colon_only_permitted_as_part_of_double_colon; return ":" + join(groups(s, 7), ":");
        case 8: e = E::trailing_colon_only_permitted_as_part_of_double_colon; return join(groups(s, 7), ":") + ":";
        case 9: { e = E::expected_at_most_7_other_parts_with_double_colon; const size_t k = s.range(1, 7); return join(groups(s, k), ":") + "::" + join(groups(s, 8 - k), ":"); }
        case 10: { if (!SCOPE_MAX) { e = E::empty_address; return ""; } e = E::scope_id_is_too_long; return fmt6(g::value6(s), COMPRESSED) + "%" + std::string(SCOPE_MAX + s.range(1, 40), 'q'); }
        case 11: { if (SCOPE_MAX < 2 || SCOPE_SPACES) { e = E::empty_address; return ""; } e = E::invalid_scope_id; std::string t(s.range(1, SCOPE_MAX - 1), 'q'); t.insert(s.below(t.size() + 1), 1, " \t%"[s.below(3)]); return fmt6(g::value6(s), COMPRESSED) + "%" + t; }
        case 12: { if (!SCOPE_MAX) { e = E::empty_address; return ""; } e = E::invalid_scope_id; return fmt6(g::value6(s), COMPRESSED) + "%"; }
        default: {  // in the IPv4 tail
            std::vector<std::string> o = octets(s, 4);
            o[s.below(4)] = bad_octet(s, e);
            const std::string t = join(o, ".");
            if (t.size() > 15) { e = E::empty_address; return ""; }
            return join(groups(s, 6), ":") + ":" + t;
        }
    }
}
static std::string defect_mask(Src& s, int ver, E& e, Addr& a) {
    const int bits = ver == 4 ? 32 : 128;
    const std::string addr = fmt(a, COMPRESSED);
    switch (s.below(6)) {
        case 0: e = E::empty_netmask; return addr + "/";
        case 1: e = E::invalid_netmask; return addr + "/" + dec(s.range((size_t) bits + 1, 999));
        case 2: { e = E::invalid_netmask; static const char* bad[] = {"x", "-1", "+1", " 24", "24 ", "0x18", "2a", "abc", "1.5"}; return addr + "/" + bad[s.below(ver == 4 ? 8 : 9)]; }
        case 3: {
            if (ver == 6) { e = E::only_one_slash_permitted; return addr + "/64/64"; }
            const int p = (int) s.range(2, 30);  // a mask with a hole
            const u128 v = maskof(32, p) ^ (u128) 1 << (32 - (int) s.range(1, (size_t) p - 1) - 0);
            const bool contiguous = (v & (v << 1) & ones(32)) == (v << 1 & ones(32)) || (((v + 1) & v) == 0);
            if (contiguous) { e = E::empty_netmask; return addr + "/"; }
            e = E::netmask_pattern_mixes_zeroes_and_ones;
            return addr + "/" + fmt4(v);
        }
        case 4: e = E::only_one_slash_permitted; return addr + "/8" + (s.flip() ? "/8" : "/");
        default: {
            const int p = (int) s.range(0, (size_t) bits - 1);
            a.v |= 1;
            e = E::has_host_bits_set;
            return fmt(a, COMPRESSED) + "/" + dec((u64) p);
        }
    }
}
template <typename T, typename C> static void expect(Src& s, Ctx& c, const std::string& t, E e) {
    const E got = forms<T>(s, c, widen<C>(t));
    if (c.failed) return;
    REQ_EQ(c, (int) got, (int) e, Tr<T>::name(), " parse of ", q(t), ": code for its one defect");
}
template <typename T> static void expect_any(Src& s, Ctx& c, const std::string& t, E e) {
    switch (s.below(4)) {
        case 0: SUB(c, (expect<T, wchar_t>(s, c, t, e))); break;
        case 1: SUB(c, (expect<T, char16_t>(s, c, t, e))); break;
        case 2: SUB(c, (expect<T, char32_t>(s, c, t, e))); break;
        default: SUB(c, (expect<T, char>(s, c, t, e)));
    }
}
static void defects(Src& s, Ctx& c) {
    E e = E::no_error;
    const size_t k = s.below(4);
    std::string t;
    if (k == 0) { t = defect4(s, e); SUB(c, expect_any<ipv4_address>(s, c, t, e)); if (!t.empty()) SUB(c, expect_any<ipv4_network>(s, c, t + "/" + dec(s.below(33)), e)); }
    if (k == 1) { t = defect6(s, e); SUB(c, expect_any<ipv6_address>(s, c, t, e)); SUB(c, expect_any<ip_address>(s, c, t, e)); if (!t.empty()) SUB(c, expect_any<ipv6_network>(s, c, t + "/" + dec(s.below(129)), e)); }
    if (k == 2) { Addr a = g::addr4(s); t = defect_mask(s, 4, e, a); SUB(c, expect_any<ipv4_network>(s, c, t, e)); }
    if (k == 3) { Addr a = g::addr6(s, 1000000); t = defect_mask(s, 6, e, a); SUB(c, expect_any<ipv6_network>(s, c, t, e)); SUB(c, expect_any<ip_network>(s, c, t, e)); }
    NOTE(c, q(t), " code ", (int) e);
    c.nontrivial();
    static const char* names[40] = {};
    static std::vector<std::string> store(40);
    if (!names[(int) e]) { store[(size_t) e] = str("defect code ", (int) e); names[(int) e] = store[(size_t) e].c_str(); }
    c.label(names[(int) e]);
}
// ---- operations -----------------------------------------------------------------------------------
template <typename N> static bool none(const N& n) { return n == N(); }
template <> bool none(const ip_network& n) { return n == ip_network() || n == ip_network(ipv6_network()); }
static size_t odd_number(Src& s, int bits) {
    static const u64 far[] = {129, 255, 256, 257, 65536, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 1ULL << 63, ~0ULL, ~0ULL - 31};
    return s.below(4) == 3 ? (size_t) s.pick(far) : s.below((size_t) bits + 3);
}
template <typename N> static void operations(Src& s, Ctx& c) {
    typedef typename Tr<N>::A A;
    const Net n = g::NetGen<N>::gens(s);
    const int bits = n.bits();
    const N net = mknet<N>(n);
    const N before = net;
    E e = stale(s), e2 = (E) s.below(40);
    std::string what;
    switch (s.below(4)) {
        case 0: {  // from_address
            const Addr a(n.a.ver, n.a.v | (s.flip() ? g::number(s, bits) : 0));
            const size_t p = odd_number(s, bits);
            const bool strict = s.flip();
            what = str(Tr<N>::name(), "::from_address(", a, ", ", p, ", ", strict, ")");
            const A x = Mk<A>::from(a);
            const N r = N::from_address(x, e, p, strict), r2 = N::from_address(x, e2, p, strict);
            REQ(c, e == e2 && r == r2, what, ": depends on the code passed in: ", (int) e, " ", (int) e2);
            if (e != E::no_error) REQ(c, none(r), what, ": refused, but the result is not the default");
            N k;
            const Outcome o = attempt([&] { k = N::from_address(x, p, strict); });
            SUB(c, agree(c, o, e, what));
            if (e == E::no_error) REQ(c, k == r, what, ": the two forms give different values");
            REQ(c, x == Mk<A>::from(a), what, ": changed its argument");
            break;
        }
        case 1: {  // subnets
            const size_t d = s.flip() ? 1 : odd_number(s, bits), np = odd_number(s, bits);
            ip::optional<size_t> nx;
            if (s.flip()) nx = np;
            what = str(Tr<N>::name(), " ", n, " subnets(", d, nx ? str(", ", np) : std::string(), ")");
            const auto r = net.subnets(e, d, nx), r2 = net.subnets(e2, d, nx);
            REQ(c, e == e2, what, ": depends on the code passed in: ", (int) e, " ", (int) e2);
            REQ(c, r.begin() == r2.begin() && r.end() == r2.end(), what, ": result depends on the code passed in");
            if (e != E::no_error) REQ(c, r.begin() == r.end() && r.empty(), what, ": refused, but not empty");
            bool same = true;
            const Outcome o = attempt([&] { const auto k = net.subnets(d, nx); same = k.begin() == r.begin() && k.end() == r.end(); });
            SUB(c, agree(c, o, e, what));
            if (e == E::no_error) REQ(c, same, what, ": the two forms give different sequences");
            break;
        }
        case 2: {  // supernet
            const size_t d = s.flip() ? 1 : odd_number(s, bits), np = odd_number(s, bits);
            ip::optional<size_t> nx;
            if (s.flip()) nx = np;
            what = str(Tr<N>::name(), " ", n, " supernet(", d, nx ? str(", ", np) : std::string(), ")");
            const N r = net.supernet(e, d, nx), r2 = net.supernet(e2, d, nx);
            REQ(c, e == e2 && r == r2, what, ": depends on the code passed in: ", (int) e, " ", (int) e2);
            if (e != E::no_error) REQ(c, none(r), what, ": refused, but the result is ", obs(r));
            N k;
            const Outcome o = attempt([&] { k = net.supernet(d, nx); });
            SUB(c, agree(c, o, e, what));
            if (e == E::no_error) REQ(c, k == r, what, ": the two forms give different values");
            break;
        }
        default: {  // address_exclude
            const Net other = s.below(3) == 2 ? g::NetGen<N>::gens(s) : g::relative(s, n);
            const N om = mknet<N>(other);
            what = str(Tr<N>::name(), " ", n, " address_exclude(", other, ")");
            const auto r = net.address_exclude(om, e), r2 = net.address_exclude(om, e2);
            REQ(c, e == e2, what, ": depends on the code passed in: ", (int) e, " ", (int) e2);
            REQ(c, r.begin() == r2.begin(), what, ": result depends on the code passed in");
            if (e != E::no_error) REQ(c, r.begin() == r.end() && r.empty(), what, ": refused, but not empty");
            bool same = true;
            const Outcome o = attempt([&] { same = net.address_exclude(om).begin() == r.begin(); });
            SUB(c, agree(c, o, e, what));
            if (e == E::no_error) REQ(c, same, what, ": the two forms give different sequences");
            if (n.a.ver != other.a.ver) REQ_EQ(c, (int) e, (int) E::invalid_version, what);
            else {
                const bool inside = other.p >= n.p && (other.a.v & maskof(bits, n.p)) == n.a.v;
                REQ_EQ(c, (int) e, inside ? 0 : (int) E::not_contained_network, what);
            }
            REQ(c, om == mknet<N>(other), what, ": changed its argument");
        }
    }
    REQ(c, net == before, what, ": changed the object");
    NOTE(c, what, " code ", (int) e);
    c.label(e == E::no_error ? "operation: done" : "operation: refused");
    c.nontrivial();
}
static void ops4(Src& s, Ctx& c) { SUB(c, operations<ipv4_network>(s, c)); }
static void ops6(Src& s, Ctx& c) { SUB(c, operations<ipv6_network>(s, c)); }
static void ops_any(Src& s, Ctx& c) { SUB(c, operations<ip_network>(s, c)); }
static void scope(Src& s, Ctx& c) {
    const std::string old = SCOPE_MAX ? g::good_scope(s) : std::string();
    std::string t = g::good_scope(s);
    if (s.flip()) g::mutate(s, t);
    if (s.below(6) == 5) t += std::string(s.range(1, 200), 'm');
    const ipv6_address start = lib6(Addr(6, g::value6(s), old));
    ipv6_address a = start, b = start, d = start;
    E e = stale(s), e2 = (E) s.below(40);
    a.set_scope_id(t, e);
    d.set_scope_id(t, e2);
    const std::string what = "set_scope_id of " + q(t);
    NOTE(c, what, " code ", (int) e);
    if (!t.empty()) c.nontrivial();
    REQ(c, e == e2 && a == d, what, ": depends on the code passed in: ", (int) e, " ", (int) e2);
    const Outcome o = attempt([&] { b.set_scope_id(t); });
    SUB(c, agree(c, o, e, what));
    REQ(c, a == b, what, ": the two forms leave different objects");
    if (e != E::no_error) REQ(c, a == start, what, ": refused, but the object changed to ", obs(a));
    else if (SCOPE_MAX) REQ_EQ(c, q(a.get_scope_id().get_string()), q(t), what);
    if (e != E::no_error && scope_ok(t.substr(0, SCOPE_MAX)) && t.size() > SCOPE_MAX) REQ_EQ(c, (int) e, (int) E::scope_id_is_too_long, what);
}
// stream input is the third form: failbit exactly when the code form refuses
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <typename T, typename... X> static void stream_one(Ctx& c, const std::string& t) {
    E e = E::no_error;
    const T want = T::parse(t, e);
    std::istringstream in(t);
    T got;
    in >> got;
    REQ_EQ(c, in.fail(), e != E::no_error, Tr<T>::name(), " >> ", q(t), " code ", (int) e);
    REQ(c, e == E::no_error ? got == want : got == T(), Tr<T>::name(), " >> ", q(t), " value ", obs(got));
}
static void streams(Src& s, Ctx& c) {
    const int kind = (int) s.below(4);
    std::string t = text_of(s, kind);
    std::string u;
    for (size_t i = 0; i < t.size(); ++i) if (!isspace((unsigned char) t[i]) && (!CHAR_UTF8 || (unsigned char) t[i] < 128)) u += t[i];
    if (u.empty()) u = "x";
    NOTE(c, q(u), " from a stream");
    c.nontrivial();
    if (kind == 0) SUB(c, stream_one<ipv4_address>(c, u));
    if (kind == 1) SUB(c, stream_one<ipv6_address>(c, u));
    if (kind == 2) SUB(c, stream_one<ipv4_network>(c, u));
    if (kind == 3) SUB(c, stream_one<ipv6_network>(c, u));
    if (kind < 2) SUB(c, stream_one<ip_address>(c, u));
    if (kind >= 2) SUB(c, stream_one<ip_network>(c, u));
}
#else
static void streams(Src&, Ctx&) {}
#endif
static const pbt::Facet F[] = {{"parsing", 6, parsing}, {"hostile", 1, hostile}, {"defects", 8, defects}, {"ops4", 3, ops4}, {"ops6", 3, ops6}, {"ops_any", 3, ops_any}, {"scope", 3, scope}, {"streams", 2, streams}};
PBT_MAIN("P21", F)
