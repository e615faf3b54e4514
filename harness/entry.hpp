// All parsing entry points for one text, each compared with the same expected outcome.
#ifndef ENTRY_HPP
#define ENTRY_HPP
#include "gen.hpp"
namespace m {
template <typename C> struct View {
#if CXX17
    typedef std::basic_string_view<C> type;
#else
    typedef std::basic_string<C> type;
#endif
};
template <typename C> std::basic_string<C> to_first_nul(const std::basic_string<C>& s) { return s.substr(0, s.find(C())); }

// expected: ok + value. T is an address or network type; extra arguments (strictness) follow.
template <typename T, size_t N, typename C, typename... X>
T parse_array(const std::basic_string<C>& t, error_code& e, X... x) {
    C buf[N] = {};
    for (size_t i = 0; i < t.size() && i + 1 < N; ++i) buf[i] = t[i];
    return T::parse(buf, e, x...);
}
template <typename T, size_t N, typename C, typename... X>
T parse_array_throw(const std::basic_string<C>& t, X... x) {
    C buf[N] = {};
    for (size_t i = 0; i < t.size() && i + 1 < N; ++i) buf[i] = t[i];
    return T::parse(buf, x...);
}
template <typename T, typename C, typename... X> T parse_array_any(const std::basic_string<C>& t, error_code& e, X... x) {
    if (t.size() < 8) return parse_array<T, 8>(t, e, x...);
    if (t.size() < 20) return parse_array<T, 20>(t, e, x...);
    if (t.size() < 64) return parse_array<T, 64>(t, e, x...);
    return parse_array<T, 1024>(t, e, x...);
}
// stale: arbitrary prior value of the error code
inline error_code stale(Src& s) { return s.flip() ? (error_code) s.below(30) : error_code::no_error; }

// what a refused operation may return from its throwing form (which returns only when exceptions are off:
// a version-agnostic type then holds the default value of either version)
template <typename T> bool refused(const T& r) { return r == T(); }
inline bool refused(const ip_address& r) { return r == ip_address() || (!THROWS && r == ip_address(ipv6_address())); }
inline bool refused(const ip_network& r) { return r == ip_network() || (!THROWS && r == ip_network(ipv6_network())); }

// one text, every entry point of character type C: same acceptance, same value, default value on refusal
template <typename T, typename M, typename C, typename... X>
void entry_points(Src& s, Ctx& c, const std::basic_string<C>& t, bool ok, const M& want, bool ok_nul, const M& want_nul, const char* what, X... x) {
    const T none = T();
    error_code e = stale(s);
    {
        T r = T::parse(t, e, x...);
        REQ_EQ(c, e == error_code::no_error, ok, what, " parse(string, code) of ", qw(t), " code ", (int) e);
        if (ok) REQ_EQ(c, obs(r), want, what, " parse(string, code) of ", qw(t));
        else REQ(c, r == none, what, " refused parse must return the default value ", qw(t));
    }
    const error_code code = e;
#if CXX17
    {
        // a view that is not NUL-terminated and sits at the end of its allocation
        std::vector<C> exact(t.begin(), t.end());
        const std::basic_string_view<C> v(exact.data(), exact.size());
        e = stale(s);
        T r = T::parse(v, e, x...);
        REQ_EQ(c, (int) e, (int) code, what, " parse(view, code) of ", qw(t));
        if (ok) REQ_EQ(c, obs(r), want, what, " parse(view, code) of ", qw(t));
        else REQ(c, r == none, what, " refused parse must return the default value ", qw(t));
    }
#endif
    {
        T r;
        Outcome o = attempt([&] { r = T::parse(t, x...); });
        REQ_EQ(c, o.threw, THROWS && !ok, what, " parse(string) of ", qw(t));
        if (o.threw) REQ_EQ(c, o.code, (int) code, what, " parse(string) of ", qw(t));
        if (ok) REQ_EQ(c, obs(r), want, what, " parse(string) of ", qw(t));
        else REQ(c, refused(r), what, " refused parse must leave the default value ", qw(t));
    }
    {
        e = stale(s);
        T r = parse_array_any<T>(t, e, x...);
        REQ_EQ(c, e == error_code::no_error, ok_nul, what, " parse(array, code) of ", qw(t));
        if (ok_nul) REQ_EQ(c, obs(r), want_nul, what, " parse(array, code) of ", qw(t));
        else REQ(c, r == none, what, " refused parse must return the default value ", qw(t));
        if (t.size() < 64) {
            T r2;
            Outcome o = attempt([&] { r2 = parse_array_throw<T, 64>(t, x...); });
            REQ_EQ(c, o.threw, THROWS && !ok_nul, what, " parse(array) of ", qw(t));
            if (o.threw) REQ_EQ(c, o.code, (int) e, what, " parse(array) of ", qw(t));
            REQ(c, ok_nul ? r2 == r : refused(r2), what, " parse(array) differs from parse(array, code) of ", qw(t));
        }
    }
}
// the same for a text of ASCII characters in one of the other character types
template <typename T, typename M, typename... X>
void entry_wide(Src& s, Ctx& c, size_t type, const std::string& t, bool ok, const M& want, bool ok_nul, const M& want_nul, const char* what, X... x) {
    for (size_t i = 0; i < t.size(); ++i) if ((unsigned char) t[i] > 127) return;
    switch (type) {
        case 0: SUB(c, (entry_points<T, M, wchar_t>(s, c, widen<wchar_t>(t), ok, want, ok_nul, want_nul, what, x...))); break;
        case 1: SUB(c, (entry_points<T, M, char16_t>(s, c, widen<char16_t>(t), ok, want, ok_nul, want_nul, what, x...))); break;
        case 2: SUB(c, (entry_points<T, M, char32_t>(s, c, widen<char32_t>(t), ok, want, ok_nul, want_nul, what, x...))); break;
#if __cpp_char8_t >= 201811L
        case 3: SUB(c, (entry_points<T, M, char8_t>(s, c, widen<char8_t>(t), ok, want, ok_nul, want_nul, what, x...))); break;
#endif
        default: break;
    }
}
// stream extraction of a token without whitespace
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <typename T, typename M>
void entry_stream(Src&, Ctx& c, const std::string& t, bool ok, const M& want, const char* what) {
    if (t.empty()) return;
    for (size_t i = 0; i < t.size(); ++i) if (isspace((unsigned char) t[i])) return;
    std::istringstream in(t);
    T r;
    in >> r;
    REQ_EQ(c, !in.fail(), ok, what, " operator>> of ", q(t));
    if (ok) REQ_EQ(c, obs(r), want, what, " operator>> of ", q(t));
    else REQ(c, r == T(), what, " operator>> must leave the default value ", q(t));
}
#else
template <typename T, typename M> void entry_stream(Src&, Ctx&, const std::string&, bool, const M&, const char*) {}
#endif
}  // namespace m
#endif
