#include "enc.hpp"
#include <locale>
using namespace m;
typedef error_code E;
// a global locale that groups digits, as many system locales do, for a while
struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return ','; }
    std::string do_grouping() const override { return "\1"; }
};
class Under {
public:
    explicit Under(bool on) : _on(on) { static const std::locale grouped(std::locale::classic(), new Grouping); if (_on) _old = std::locale::global(grouped); }
    ~Under() { if (_on) std::locale::global(_old); }
private:
    bool _on;
    std::locale _old;
};
template <typename F> static Outcome attempt_under(bool grouped, F f) { const Under u(grouped); return attempt(f); }

// What a message quotes of a text: its first 100 code units and "..." if there are more, to the first NUL; ASCII as it is, every other character as {U+hex}.
// 'open': ill-formed units end what is promised.
template <typename C> static std::string quoted(const std::vector<uint32_t>& t, bool& open) {
    std::vector<uint32_t> u(t.begin(), t.begin() + (long) std::min<size_t>(t.size(), 100));
    if (t.size() > 100) u.insert(u.end(), 3, (uint32_t) '.');
    const bool raw = std::is_same<C, char>::value && !CHAR_UTF8;
    open = false;
    std::string r;
    for (size_t i = 0; i < u.size() && u[i] != 0; ++i)
        if (u[i] < 0x80 || raw) r += (char) u[i];
        else {
            size_t n = 1;  // the shortest well-formed sequence from here
            Decoded d = decode<C>(std::vector<uint32_t>(u.begin() + (long) i, u.begin() + (long) (i + 1)));
            while (d.e != GOOD && n < 4 && i + n < u.size()) {
                ++n;
                d = decode<C>(std::vector<uint32_t>(u.begin() + (long) i, u.begin() + (long) (i + n)));
            }
            if (d.e != GOOD || d.cp.size() != 1) { open = true; return r; }
            char b[24];
            std::snprintf(b, sizeof b, "{U+%04x}", (unsigned) d.cp[0]);
            r += b;
            i += n - 1;
        }
    return r;
}
// A message without the quoted text, the first number or code point in it replaced by '#'.
struct Split { bool found; std::string skeleton, number; };
static bool number_at(const std::string& s, size_t i, size_t& n) {
    if (i != 0 && s[i - 1] != ' ') return false;
    if (s[i] == '{') { n = s.find('}', i) == std::string::npos ? 0 : s.find('}', i) - i + 1; return n > 3 && s[i + 1] == 'U' && s[i + 2] == '+'; }
    for (n = 0; i + n < s.size() && isdigit((unsigned char) s[i + n]);) ++n;
    return n > 0 && (i + n == s.size() || s[i + n] == ' ');
}
static void numbered(Split& r) {
    for (size_t i = 0; i < r.skeleton.size(); ++i) {
        size_t n;
        if (number_at(r.skeleton, i, n)) { r.number = r.skeleton.substr(i, n); r.skeleton.replace(i, n, "#"); return; }
    }
}
static Split split_at(const std::string& what, size_t at, size_t len) {
    Split r = {true, what.substr(0, at) + '\x01' + what.substr(at + len), ""};
    numbered(r);
    return r;
}
// What the message of each code looks like around the quoted text: taken from one known text per code.
static const char* canon_text(E e) {
    switch (e) {
        case E::empty_netmask: return "91.2.3.4/";
        case E::invalid_netmask: return "91.2.3.4/99";
        case E::netmask_pattern_mixes_zeroes_and_ones: return "91.2.3.0/255.0.255.0";
        case E::has_host_bits_set: return "91.2.3.4/8";
        case E::only_one_slash_permitted: return "91.2.3.4/8/8";
        case E::empty_octet: return "91..2.3";
        case E::expected_4_octets: return "91.2.3";
        case E::leading_0_are_not_permitted: return "91.2.03.4";
        case E::octet_more_3_characters: return "91.2.3.4444";
        case E::octet_has_invalid_symbol: return "91.2.3.x";
        case E::octet_exceeded_255: return "91.2.3.999";
        case E::least_3_parts: return "91:2";
        case E::most_8_colons_permitted: return "91:2:3:4:5:6:7:8:9:a";
        case E::part_is_more_4_chars: return "91::12345";
        case E::part_has_invalid_symbol: return "91::x";
        case E::most_one_double_colon_permitted: return "91::2::3";
        case E::leading_colon_only_permitted_as_part_of_double_colon: return ":91:2:3:4:5:6:7";
        case E::trailing_colon_only_permitted_as_part_of_double_colon: return "91:2:3:4:5:6:7:";
        case E::expected_at_most_7_other_parts_with_double_colon: return "91:2:3:4::5:6:7:8";
        case E::exactly_8_parts_expected_without_double_colon: return "91:2:3:4";
        case E::scope_id_is_too_long: return "91::%0123456789012345678901234567890123456789012345678901234567890123456789";
        case E::invalid_scope_id: return "91::%";
        default: return nullptr;
    }
}
static Outcome canon_outcome(E e) {
    const std::string t = canon_text(e) ? canon_text(e) : "";
    const bool four = t.find(':') == std::string::npos, net = t.find('/') != std::string::npos;
    return attempt([&] {
        if (e == E::unexpected_symbol) (void) ipv4_address::parse(std::u32string(U"91.\u0664.2.3"));
        else if (e == E::wrong_encoding_sequence) (void) ipv4_address::parse(std::u16string(u"91.2.3.4") + (char16_t) 0xd800);
        else if (e == E::empty_address) (void) ipv4_address::parse(std::string());
        else if (net) (void) ipv4_network::parse(t);
        else if (four) (void) ipv4_address::parse(t);
        else (void) ipv6_address::parse(t);
    });
}
// skeletons per code; a code whose known text is refused with another code has none and is skipped
static const std::vector<std::string>& skeletons(Ctx& c) {
    static std::vector<std::string> v;
    if (!v.empty()) return v;
    std::vector<std::string> r(40);
    for (int k = 1; k < 40; ++k) {
        const Outcome o = canon_outcome((E) k);
        if (!o.threw || o.code != k) continue;
        std::string q = canon_text((E) k) ? canon_text((E) k) : (E) k == E::unexpected_symbol ? "91.{U+0664}.2.3" : (E) k == E::wrong_encoding_sequence ? "91.2.3.4" : "";
        if (q.size() > 100) q = q.substr(0, 100) + "...";
        const size_t at = o.what.find(q);
        if (at == std::string::npos) { c.fail(__FILE__, __LINE__, str("the message ", ::q(o.what), " does not quote ", ::q(q))); return v; }
        r[(size_t) k] = q.empty() ? o.what : split_at(o.what, at, q.size()).skeleton;
        for (int j = 1; j < k; ++j)
            if (!r[(size_t) j].empty() && r[(size_t) j] == r[(size_t) k]) { c.fail(__FILE__, __LINE__, str("codes ", j, " and ", k, " have the same message ", ::q(o.what))); return v; }
    }
    v = r;
    return v;
}
// the message of one refused text
template <typename C> static void message(Ctx& c, const Outcome& o, const std::vector<uint32_t>& t, const std::string& what, std::string* number = nullptr) {
    const std::vector<std::string>& sk = skeletons(c);
    if (c.failed || !o.threw) return;
    c.nontrivial();
    const std::string& want = sk[(size_t) o.code];
    bool open;
    const std::string quote = quoted<C>(t, open);
    if (want.empty()) return;
    if ((E) o.code == E::empty_address) { REQ_EQ(c, o.what, want, what, ": message of an empty text"); return; }
    bool good = false;
    Split s = {false, "", ""};
    for (size_t at = o.what.find(quote); at != std::string::npos && !good; at = o.what.find(quote, at + 1)) {
        s = split_at(o.what, at, quote.size());
        if (open) good = s.skeleton.substr(0, s.skeleton.find('\x01') + 1) == want.substr(0, want.find('\x01') + 1);
        else good = s.skeleton == want;
    }
    REQ(c, good, what, ": the message ", q(o.what), " does not quote ", q(quote), open ? " (and more)" : "", " in place of # in ", q(want));
    if (number) *number = s.number;
    if ((E) o.code == E::unexpected_symbol) {  // names the first character that is not ASCII
        for (size_t i = 0; i < t.size(); ++i)
            if (t[i] >= 0x80) {
                const size_t at = quote.find('{');  // quoted as such, unless it is past the cut
                if (at != std::string::npos && t.size() <= 100 && !open && quote.find("{U+") == at) REQ_EQ(c, s.number, quote.substr(at, quote.find('}', at) - at + 1), what, ": the character named by ", q(o.what));
                break;
            }
    }
    c.label(open ? "ill-formed" : t.size() > 100 ? "long" : "quoted");
    static const char* const names[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27",
                                        "28", "29", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39"};
    c.label(str("code ", names[o.code]).c_str());
}
// which octet, which part: the first one with the defect
static int bad_octet(const std::string& t) {
    size_t b = 0;
    for (int i = 0; i < 4; ++i) {
        const size_t e = std::min(t.find('.', b), t.size());
        const std::string o = t.substr(b, e - b);
        if (o.empty() || !all_in(o, "0123456789") || o.size() > 3 || (o.size() > 1 && o[0] == '0') || std::atoi(o.c_str()) > 255) return i;
        b = e + 1;
        if (e == t.size()) break;
    }
    return -1;
}
static int long_part(const std::string& t) {
    const std::string a = t.substr(0, t.find('%'));
    size_t b = 0;
    for (int i = 0;; ++i) {
        const size_t e = std::min(a.find(':', b), a.size());
        if (e - b > 4) return i;
        if (e == a.size()) return -1;
        b = e + 1;
    }
}
template <typename T> static void position(Ctx&, const Outcome&, const std::string&, const std::string&) {}
template <> void position<ipv4_address>(Ctx& c, const Outcome& o, const std::string& t, const std::string& number) {
    const E e = (E) o.code;
    if (e != E::empty_octet && e != E::leading_0_are_not_permitted && e != E::octet_more_3_characters && e != E::octet_has_invalid_symbol && e != E::octet_exceeded_255) return;
    REQ_EQ(c, number, str(bad_octet(t)), "octet named by ", q(o.what));
}
template <> void position<ipv6_address>(Ctx& c, const Outcome& o, const std::string& t, const std::string& number) {
    if ((E) o.code != E::part_is_more_4_chars) return;
    REQ_EQ(c, number, str(long_part(t)), "part named by ", q(o.what));
}
template <typename T, typename C, size_t N, typename... X> static Outcome array_form(const std::basic_string<C>& w, X... x) {
    C buf[N] = {};
    for (size_t i = 0; i < w.size() && i + 1 < N; ++i) buf[i] = w[i];
    return attempt([&] { (void) T::parse(buf, x...); });
}
template <typename T, typename C, typename... X> static void one(Src& s, Ctx& c, const std::vector<uint32_t>& t, X... x) {
    const std::basic_string<C> w = build<C>(t);
    const bool grouped = s.below(5) == 4;
    const std::string what = str(Tr<T>::name(), " parse of ", qw(w), grouped ? " under a digit-grouping global locale" : "");
    const Outcome o = attempt_under(grouped, [&] { (void) T::parse(w, x...); });
    std::string number;
    SUB(c, message<C>(c, o, t, what, &number));
    if (!o.threw) return;
    bool plain = true;
    std::string n;
    for (size_t i = 0; i < t.size(); ++i) { plain = plain && t[i] > 0 && t[i] < 0x80; n += (char) t[i]; }
    if (plain && !number.empty()) SUB(c, position<T>(c, o, n, number));
    if (s.below(3) == 2 && to_first_nul(w).size() == w.size()) {  // other forms give the same message (an array holds more units than a text of exactly 100; arrays are decoded first: with two defects the other one may be reported)
        const Outcome a = w.size() < 40 ? array_form<T, C, 40>(w, x...) : array_form<T, C, 1024>(w, x...);
        if (w.size() < 1023 && w.size() != 100) REQ(c, a.threw && (a.code != o.code || a.what == o.what), what, ": from an array ", q(a.what), ", from a string ", q(o.what));
#if CXX17
        const Outcome v = attempt([&] { (void) T::parse(std::basic_string_view<C>(w), x...); });
        REQ(c, v.threw && (v.code != o.code || v.what == o.what), what, ": from a view ", q(v.what), ", from a string ", q(o.what));
#endif
    }
}
template <typename C> static void of_kind(Src& s, Ctx& c, const std::vector<uint32_t>& t, int kind) {
    NOTE(c, unit_width<C>(), "-bit units ", qw(build<C>(t)));
    const bool strict = s.flip();
    if (kind == 0) SUB(c, (one<ipv4_address, C>(s, c, t)));
    if (kind == 1) SUB(c, (one<ipv6_address, C>(s, c, t)));
    if (kind < 2) SUB(c, (one<ip_address, C>(s, c, t)));
    if (kind == 2) SUB(c, (one<ipv4_network, C>(s, c, t, strict)));
    if (kind == 3) SUB(c, (one<ipv6_network, C>(s, c, t, strict)));
    if (kind > 1) SUB(c, (one<ip_network, C>(s, c, t, strict)));
}
template <typename F> static void each(size_t ct, F f) {
    switch (ct) {
        case 0: f(wchar_t()); break;
        case 1: f(char16_t()); break;
        case 2: f(char32_t()); break;
#if __cpp_char8_t >= 201811L
        case 4: f(char8_t()); break;
#endif
        default: f(char()); break;
    }
}
struct OfKind {
    Src& s; Ctx& c; const std::vector<uint32_t>& t; int kind;
    template <typename C> void operator()(C) { of_kind<C>(s, c, t, kind); }
};
static std::string any_text(Src& s, int kind) { return kind == 0 ? g::text4(s) : kind == 1 ? g::text6(s) : g::net_text(s, kind == 2 ? 4 : 6); }
// refused texts of ASCII characters, in any character type
static void ascii_texts(Src& s, Ctx& c) {
    const int kind = (int) s.below(4);
    std::string t = any_text(s, kind);
    if (s.below(4) == 3) {  // around the place where quoting stops
        const size_t n = s.range(90, 120), at = s.below(t.size() + 1);
        const char ch = "0a:.x/%1"[s.below(8)];
        t.insert(at, n, ch);
    }
    for (size_t i = 0; i < t.size(); ++i) if ((unsigned char) t[i] >= 0x80) t[i] = (char) (t[i] & 0x7f);
    const size_t ct = s.below(5);
    const std::vector<uint32_t> u = units(t);
    OfKind f = {s, c, u, kind};
    each(ct, f);
}
// with other characters and broken units in them
static void other_texts(Src& s, Ctx& c) {
    const size_t ct = s.below(5);
    const int kind = (int) s.below(4), bits = ct == 0 ? (int) sizeof(wchar_t) * 8 : unit_bits(ct);
    std::vector<uint32_t> t = units(any_text(s, kind));
    const size_t n = s.range(1, 3);
    for (size_t i = 0; i < n; ++i) {
        const size_t at = s.below(t.size() + 1);
        if (s.below(6) == 5) t.insert(t.begin() + (long) at, bits == 8 ? (uint32_t) s.range(0x80, 0xff) : bits == 16 ? (uint32_t) s.range(0xd800, 0xdfff) : (uint32_t) s.range(0x80, 0x20ffff));
        else { const uint32_t cp = code_point(s); put_cp(s, t, at, cp, bits); }
    }
    if (s.below(5) == 4) { const uint32_t cp = code_point(s); const size_t k = s.range(20, 110); for (size_t i = 0; i < k; ++i) put_cp(s, t, t.size(), cp, bits); }
    if (bits == 8) for (size_t i = 0; i < t.size(); ++i) t[i] &= 0xff;
    OfKind f = {s, c, t, kind};
    each(ct, f);
}
// IPv4 and IPv6 texts with one defect in a chosen place
static void placed(Src& s, Ctx& c) {
    std::string t;
    const int kind = (int) s.below(2);
    if (kind == 0) {
        const size_t bad = s.below(4);
        static const char* const bads[] = {"", "00", "01", "256", "300", "999", "1000", "a", "1a", "-1", " 1", "0x1", "25 ", "1/"};
        for (size_t i = 0; i < 4; ++i) {
            if (i) t += '.';
            if (i == bad) t += s.pick(bads); else t += std::to_string(s.below(256));
        }
        if (s.below(4) == 3) { const size_t at = s.below(t.size()); t[at] = (char) s.range(1, 127); }
    } else {
        const size_t n = s.range(2, 9), bad = s.below(n), gap = s.below(n + 2);
        for (size_t i = 0; i < n; ++i) {
            if (i) t += i == gap ? "::" : ":";
            t += std::string(i == bad ? s.range(5, 8) : s.range(1, 4), "0123456789abcdef"[s.below(16)]);
        }
        if (s.below(4) == 3) t += "%s";
    }
    const size_t ct = s.below(5);
    const std::vector<uint32_t> u = units(t);
    OfKind f = {s, c, u, kind};
    each(ct, f);
}
// scope ids: the refused scope is quoted
struct Scope {
    Ctx& c; const std::vector<uint32_t>& t;
    template <typename C> void operator()(C) {
        const std::basic_string<C> w = build<C>(t);
        ipv6_address a;
        const std::string what = "set_scope_id of " + qw(w);
        NOTE(c, what);
        const Outcome o = attempt([&] { a.set_scope_id(w); });
        SUB(c, message<C>(c, o, t, what));
    }
};
// host bits: the address is quoted
template <typename N, typename A> static void host_bits(Ctx& c, const Addr& a, int p) {
    const Outcome o = attempt([&] { (void) N::from_address(Mk<A>::from(a), (size_t) p); });
    NOTE(c, Tr<N>::name(), "::from_address of ", a, " ", p);
    if (!o.threw || (E) o.code != E::has_host_bits_set) return;
    Addr plain = a;
    plain.scope.clear();
    const std::string t = fmt(plain, COMPRESSED);
    const std::vector<std::string>& sk = skeletons(c);
    if (c.failed) return;
    c.nontrivial();
    const size_t at = o.what.find(t);
    REQ(c, at != std::string::npos, "from_address of ", a, " with ", p, ": the message ", q(o.what), " does not quote ", t);
    if (a.scope.empty()) REQ_EQ(c, split_at(o.what, at, t.size()).skeleton, sk[(size_t) o.code], "message of from_address ", q(o.what));
    c.label("host bits");
}
// operations: one message per code, whatever the operands
static const std::vector<std::string>& op_messages(Ctx& c) {
    static std::vector<std::string> v;
    if (!v.empty()) return v;
    std::vector<std::string> r(40);
    const ipv4_network n = mknet<ipv4_network>(Net(Addr(4, 10u << 24), 8)), k = mknet<ipv4_network>(Net(Addr(4, 11u << 24), 8));
    const ip_network x = ip_network(n), y = mknet<ip_network>(Net(Addr(6, 1), 128));
    const Outcome o[] = {attempt([&] { (void) n.subnets(100); }), attempt([&] { (void) n.supernet(1, ip::optional<size_t>(24)); }), attempt([&] { (void) n.subnets(1, ip::optional<size_t>(4)); }),
                         attempt([&] { (void) n.subnets(2, ip::optional<size_t>(24)); }), attempt([&] { (void) n.address_exclude(k); }), attempt([&] { (void) x.address_exclude(y); })};
    for (size_t i = 0; i < sizeof o / sizeof *o; ++i) {
        if (!o[i].threw) continue;
        for (size_t j = 0; j < 40; ++j) if (!r[j].empty() && (j == (size_t) o[i].code) != (r[j] == o[i].what)) { c.fail(__FILE__, __LINE__, str("code ", o[i].code, " has the message ", q(o[i].what), ", code ", j, " ", q(r[j]))); return v; }
        r[(size_t) o[i].code] = o[i].what;
    }
    v = r;
    return v;
}
static void op_message(Ctx& c, const Outcome& o, const std::string& what) {
    const std::vector<std::string>& known = op_messages(c);
    NOTE(c, what);
    if (c.failed || !o.threw) return;
    c.nontrivial();
    REQ(c, !o.what.empty(), what, ": empty message");
    if (!known[(size_t) o.code].empty()) REQ_EQ(c, o.what, known[(size_t) o.code], what, ": message of code ", o.code);
    c.label("operation");
}
template <typename N> static void ops_on(Src& s, Ctx& c, const Net& n, const Net& k) {
    const N x = mknet<N>(n), y = mknet<N>(k);
    const size_t d = s.below(140);
    ip::optional<size_t> np;
    if (s.flip()) np = s.below(140);
    SUB(c, op_message(c, attempt([&] { (void) x.subnets(d, np); }), str(Tr<N>::name(), " ", n, " subnets ", d)));
    SUB(c, op_message(c, attempt([&] { (void) x.supernet(d, np); }), str(Tr<N>::name(), " ", n, " supernet ", d)));
    SUB(c, op_message(c, attempt([&] { (void) x.address_exclude(y); }), str(Tr<N>::name(), " ", n, " address_exclude ", k)));
}
static void operations(Src& s, Ctx& c) {
    const int v = s.flip() ? 4 : 6;
    const Net n = v == 4 ? g::net4(s) : g::net6(s);
    const size_t how = s.below(4);
    if (how == 0) {
        std::vector<uint32_t> t;
        const size_t ct = s.below(5);
        t = units(g::good_scope(s));
        if (s.flip()) { const size_t at = s.below(t.size() + 1); const uint32_t cp = s.flip() ? (uint32_t) s.below(0x80) : code_point(s); put_cp(s, t, at, cp, ct == 0 ? (int) sizeof(wchar_t) * 8 : unit_bits(ct)); }
        if (s.below(3) == 2) t.insert(t.end(), s.range(1, 120), (uint32_t) 'm');
        Scope f = {c, t};
        if (SCOPE_MAX) each(ct, f);
        return;
    }
    if (how == 1) {
        const Addr a = v == 4 ? g::addr4(s) : Addr(6, g::value6(s), SCOPE_MAX && s.flip() ? "z" : "");
        const int p = (int) s.below(v == 4 ? 33 : 129);
        if (v == 4) SUB(c, (host_bits<ipv4_network, ipv4_address>(c, a, p))); else SUB(c, (host_bits<ipv6_network, ipv6_address>(c, a, p)));
        SUB(c, (host_bits<ip_network, ip_address>(c, a, p)));
        return;
    }
    const Net k = s.flip() ? (v == 4 ? g::net4(s) : g::net6(s)) : n;
    if (v == 4) SUB(c, ops_on<ipv4_network>(s, c, n, k)); else SUB(c, ops_on<ipv6_network>(s, c, n, k));
    const Net x = s.flip() ? k : v == 4 ? g::net6(s) : g::net4(s);
    SUB(c, ops_on<ip_network>(s, c, n, x));
}
// text helpers: make_fixed_string refuses what is not ASCII with the same message
template <typename C, size_t N> static void fixed(Ctx& c, const std::vector<uint32_t>& t) {
    C b[N + 1] = {};
    for (size_t i = 0; i < t.size() && i < N; ++i) b[i] = (C) t[i];
    const std::vector<uint32_t> u(t.begin(), t.begin() + (long) std::min(t.size(), N));
    const Outcome o = attempt([&] { (void) ip::make_fixed_string(b); });
    NOTE(c, "fixed string of ", qw(build<C>(u)));
    SUB(c, message<C>(c, o, u, str("fixed string of ", qw(build<C>(u)))));
}
struct Fixed {
    Ctx& c; const std::vector<uint32_t>& t;
    template <typename C> void operator()(C) { if (t.size() > 12) fixed<C, 110>(c, t); else fixed<C, 12>(c, t); }
};
static void fixed_strings(Src& s, Ctx& c) {
    const size_t ct = s.below(5);
    const int bits = ct == 0 ? (int) sizeof(wchar_t) * 8 : unit_bits(ct);
    std::vector<uint32_t> t;
    const size_t n = s.below(20);
    for (size_t i = 0; i < n; ++i) t.push_back((uint32_t) s.range(1, 127));
    const size_t k = s.below(3);
    for (size_t i = 0; i < k; ++i) { const size_t at = s.below(t.size() + 1); const uint32_t cp = code_point(s); put_cp(s, t, at, cp, bits); }
    Fixed f = {c, t};
    each(ct, f);
}
static const pbt::Facet F[] = {{"ascii", 6, ascii_texts}, {"other", 6, other_texts}, {"placed", 4, placed}, {"operations", 3, operations}, {"fixed", 1, fixed_strings}};
PBT_MAIN("P31", F)
