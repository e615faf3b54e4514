// What each translation unit of P34 offers: the whole of it has internal linkage, so that every unit runs its own instantiations.
#ifndef TU_HPP
#define TU_HPP
#include "extra.hpp"
#include <memory>
#include <sstream>
struct Table {
    u64 (*perform)(size_t kind, u64 seed);
    u64 (*early)(size_t i);
    std::string (*early_fault)(size_t i);
    std::string (*held)(size_t i);
    std::string (*hold)(size_t i);
    void (*manip)(std::ostream&, size_t);
    void (*wmanip)(std::wostream&, size_t);
    void (*imanip)(std::istream&, bool);
    void (*put)(std::ostream&, const ip_address&, const ip_network&, size_t);
    void (*wput)(std::wostream&, const ip_address&, const ip_network&, size_t);
    bool (*get)(std::istream&, ip_network&, size_t);
    ip_address (*make)(const Addr&);
    ip_network (*makenet)(const Net&);
    std::string (*see)(const ip_address&, const ip_network&);
    std::string (*walk)(const ip_network&);
    void (*raise)(const std::string&, size_t);
    std::string (*caught)(const std::string&, size_t, void (*)(const std::string&, size_t));
    bool (*equal)(const ip_address&, const ip_address&, const ip_network&, const ip_network&, const ip::scope&, const ip::scope&);
};
const Table& second_table();
static const size_t KINDS = sizeof OPS / sizeof OPS[0] + sizeof EXTRA / sizeof EXTRA[0], EARLY = 64 * KINDS, HELD = 64, FAULTS = 5 * 40;
// one text for every way to be refused, and a few that are accepted
static const char* const FAULTY[] = {"", "1.2.3.4", "1.2.3", "1.2.3.4.5", "1..3.4", "01.2.3.4", "1000.2.3.4", "1.2a.3.4", "1.2.256.4", "1.2.3.4/", "1.2.3.4/33", "1.2.3.4/255.0.255.0", "1.2.3.4/24", "1.2.3.4/24/1",
    "1234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890", "::", ":", "1:2", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:8::", "12345::", "g::", "1::2::3", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:", "1:2:3:4:5:6:7",
    "::1%", "::1%a%b", "::1%abcdefghijklmnopqrstuvwxyz", "::1/129", "::1/64", "::/x", "::ffff:1.2.3.256", "::1.2.3", "\xc3\xa9", "\xff", "1.2.3.\xd9\xa1", "::1%\xe2\x82\xac", "fe80::1%eth0/128", "10.0.0.0/8"};
static_assert(5 * (sizeof FAULTY / sizeof *FAULTY) == FAULTS, "five ways to raise each");
namespace {
u64 tu_perform(size_t kind, u64 seed) {
    const size_t n = sizeof OPS / sizeof OPS[0];
    Src s(pbt::mix(seed) ^ kind);
    Ctx c;
    pbt::guarded(kind < n ? OPS[kind].fn : EXTRA[kind - n], s, c);
    return c.digest ^ (c.failed ? 1 : 0);
}
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <typename C> void tu_manip(std::basic_ostream<C>& o, size_t k) { switch (k) { case 0: o << ip::full; break; case 1: o << ip::compact; break; default: o << ip::compressed; } }
void tu_imanip(std::istream& i, bool strict) { if (strict) i >> ip::strict; else i >> ip::non_strict; }
template <typename C> void tu_put(std::basic_ostream<C>& o, const ip_address& a, const ip_network& n, size_t k) {
    switch (k) {
        case 0: o << a; break;
        case 1: o << n; break;
        case 2: if (a.is_v4()) o << a.v4().value(); else o << a.v6().value(); break;
        default: if (n.is_v4()) o << n.v4().value(); else o << n.v6().value();
    }
    o << (C) ' ';
}
bool tu_get(std::istream& i, ip_network& n, size_t k) {
    if (k == 0) return !!(i >> n);
    ipv4_network n4;
    ipv6_network n6;
    if (k == 1) { i >> n4; n = n4; } else { i >> n6; n = n6; }
    return !i.fail();
}
#endif
ip_address tu_make(const Addr& a) { return lib(a); }
ip_network tu_makenet(const Net& n) { return mknet<ip_network>(n); }
std::string tu_see(const ip_address& a, const ip_network& n) { return full(a) + fulln(n); }
std::string tu_walk(const ip_network& n) {
    std::string r;
    const auto h = n.hosts();
    size_t k = 0;
    for (auto i = h.begin(); i != h.end() && k < 4; ++i, ++k) r += (*i).to_string() + " ";
    error_code e = error_code::no_error;
    const auto q = n.subnets(e, 2);
    if (e == error_code::no_error) { k = 0; for (auto i = q.begin(); i != q.end() && k < 4; ++i, ++k) r += (*i).to_string() + " "; }
    return r + code(e);
}
void tu_raise(const std::string& t, size_t k) {
    switch (k) {
        case 0: (void) ip_address::parse(t); break;
        case 1: (void) ip_network::parse(widen<char16_t>(t)); break;
        case 2: (void) ipv4_network::from_address(ipv4_address::from_uint(7), 8); break;
        case 3: (void) ipv6_network::parse(std::string("1::/16"), false).supernet(17); break;
        default: (void) ipv4_address::parse(widen<char32_t>(t));
    }
}
#if PBT_EXC
std::string tu_caught(const std::string& t, size_t k, void (*raise)(const std::string&, size_t)) {
    try { raise(t, k); }
    catch (const ip::parse_error& e) { return str("parse_error ", (int) e.code(), " ", e.what()); }
    catch (const ip::logic_error& e) { return str("logic_error ", (int) e.code(), " ", e.what()); }
    catch (const ip::error& e) { return str("error ", (int) e.code(), " ", e.what()); }
    catch (const std::exception& e) { return str("exception ", e.what()); }
    return "nothing";
}
#endif
bool tu_equal(const ip_address& a, const ip_address& b, const ip_network& n, const ip_network& o, const ip::scope& s, const ip::scope& t) { return a == b && !(a != b) && !(a < b) && n == o && !(n < o) && s == t && a.hash() == b.hash() && n.hash() == o.hash(); }
// what a program may keep from before main: values, sequences and streams
struct Kept {
    ip_address a;
    ip_network n;
    std::unique_ptr<ip::scope> sc;
    std::unique_ptr<std::stringstream> io;
    std::string view;
    explicit Kept(size_t i) : io(new std::stringstream) {
        Src s(pbt::mix(i));
        const Addr x = g::addr(s);
        const Net y = g::net(s);
        a = lib(x);
        n = mknet<ip_network>(y);
        sc.reset(new ip::scope(a.get_scope_id()));
#ifndef IPADDRESS_NO_OVERLOAD_STD
        *io << a << ' ' << n << ' ';
        tu_manip<char>(*io, i % 3);
        tu_imanip(*io, i % 5 == 0);
#endif
    }
    // what the object looks like the first time somebody looks
    const std::string& see() { if (view.empty()) view = look(); return view; }
    std::string look() {
        std::string r = tu_see(a, n) + tu_walk(n) + std::string(sc->get_string()) + dec(a.hash()) + dec(n.hash());
        r += a.reverse_pointer();
#ifndef IPADDRESS_NO_OVERLOAD_STD
        ip_address b;
        *io << n << ' ';
        if (*io >> b) r += full(b);
        ip_network m;
        if (*io >> m) r += fulln(m);
        r += io->str();
#endif
        return r;
    }
};
struct Early {
    u64 seen[EARLY];
    std::vector<std::string> faults;
    std::vector<std::unique_ptr<Kept>> kept;
    Early() {
        g::gen_scope_max = 3; g::gen_ascii_only = true;  // what ops.hpp sets a little later
        for (size_t i = 0; i < EARLY; ++i) seen[i] = tu_perform(i % KINDS, i);
#if PBT_EXC
        for (size_t i = 0; i < FAULTS; ++i) faults.push_back(tu_caught(FAULTY[i / 5], i % 5, tu_raise));
#endif
        for (size_t i = 0; i < HELD; ++i) kept.push_back(std::unique_ptr<Kept>(new Kept(i)));
    }
};
Early* early_data = nullptr;
struct BeforeMain { BeforeMain() { early_data = new Early; } };
u64 tu_early(size_t i) { return early_data->seen[i]; }
std::string tu_early_fault(size_t i) { return early_data->faults[i]; }
std::string tu_held(size_t i) { return early_data->kept[i]->see(); }
std::string tu_hold(size_t i) { return Kept(i).see(); }
const Table TABLE = {tu_perform, tu_early, tu_early_fault, tu_held, tu_hold,
#ifndef IPADDRESS_NO_OVERLOAD_STD
    tu_manip<char>, tu_manip<wchar_t>, tu_imanip, tu_put<char>, tu_put<wchar_t>, tu_get,
#else
    nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
#endif
    tu_make, tu_makenet, tu_see, tu_walk, tu_raise,
#if PBT_EXC
    tu_caught,
#else
    nullptr,
#endif
    tu_equal};
}  // namespace
#endif
