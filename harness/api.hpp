// Bridges between the library's public API and the model. Only public, documented API is used.
#ifndef API_HPP
#define API_HPP
#include "model.hpp"
namespace m {
namespace ip = ipaddress;
using ip::error_code;
using ip::ip_address;
using ip::ip_network;
using ip::ip_version;
using ip::ipv4_address;
using ip::ipv4_network;
using ip::ipv6_address;
using ip::ipv6_network;
using ip::uint128_t;

inline u128 val(const uint128_t& v) { return mk128(v.upper(), v.lower()); }
inline u128 val(uint32_t v) { return v; }
inline uint128_t u(u128 v) { return uint128_t((u64) (v >> 64), (u64) v); }

inline Addr obs(const ipv4_address& a) {
    u128 v = 0;
    for (size_t i = 0; i < 4; ++i) v = v << 8 | a.bytes()[i];
    return Addr(4, v);
}
inline Addr obs(const ipv6_address& a) {
    u128 v = 0;
    for (size_t i = 0; i < 16; ++i) v = v << 8 | a.bytes()[i];
    return Addr(6, v, a.get_scope_id().get_string());
}
inline Addr obs(const ip_address& a) {
    if (a.version() == ip_version::V4) return obs(a.v4().value());
    return obs(a.v6().value());
}
inline Net obs(const ipv4_network& n) { return Net(obs(n.network_address()), (int) n.prefixlen()); }
inline Net obs(const ipv6_network& n) { return Net(obs(n.network_address()), (int) n.prefixlen()); }
inline Net obs(const ip_network& n) { return Net(obs(n.network_address()), (int) n.prefixlen()); }

template <typename A> struct Tr;
template <> struct Tr<ipv4_address> { static const int ver = 4; static const char* name() { return "ipv4_address"; } };
template <> struct Tr<ipv6_address> { static const int ver = 6; static const char* name() { return "ipv6_address"; } };
template <> struct Tr<ip_address> { static const int ver = 0; static const char* name() { return "ip_address"; } };
template <> struct Tr<ipv4_network> { static const int ver = 4; static const char* name() { return "ipv4_network"; } typedef ipv4_address A; };
template <> struct Tr<ipv6_network> { static const int ver = 6; static const char* name() { return "ipv6_network"; } typedef ipv6_address A; };
template <> struct Tr<ip_network> { static const int ver = 0; static const char* name() { return "ip_network"; } typedef ip_address A; };

inline ipv4_address::base_type bytes4(const Addr& a) {
    ipv4_address::base_type b = {};
    for (int i = 0; i < 4; ++i) b[(size_t) i] = a.at(i);
    return b;
}
inline ipv6_address::base_type bytes6(const Addr& a) {
    ipv6_address::base_type b = {};
    for (int i = 0; i < 16; ++i) b[(size_t) i] = a.at(i);
    return b;
}
inline ipv4_address lib4(const Addr& a) { return ipv4_address::from_bytes(bytes4(a)); }
inline ipv6_address lib6(const Addr& a) {
    ipv6_address r = ipv6_address::from_bytes(bytes6(a));
    if (!a.scope.empty()) {
        error_code e = error_code::no_error;
        r.set_scope_id(a.scope, e);
    }
    return r;
}
inline ip_address lib(const Addr& a) { return a.ver == 4 ? ip_address(lib4(a)) : ip_address(lib6(a)); }
template <typename A> struct Mk;
template <> struct Mk<ipv4_address> { static ipv4_address from(const Addr& a) { return lib4(a); } };
template <> struct Mk<ipv6_address> { static ipv6_address from(const Addr& a) { return lib6(a); } };
template <> struct Mk<ip_address> { static ip_address from(const Addr& a) { return lib(a); } };
template <typename N> N mknet(const Net& n) {
    error_code e = error_code::no_error;
    return N::from_address(Mk<typename Tr<N>::A>::from(n.a), e, (size_t) n.p);
}

// outcome of the throwing form of an operation
struct Outcome {
    bool threw = false;
    int code = 0;
    bool is_parse = false, is_logic = false;
    std::string what;
};
template <typename F> Outcome attempt(F f) {
    Outcome o;
#ifdef IPADDRESS_NO_EXCEPTIONS
    f();
#else
    try {
        f();
    } catch (const ip::error& e) {
        o.threw = true;
        o.code = (int) e.code();
        o.what = e.what();
        o.is_parse = dynamic_cast<const ip::parse_error*>(&e) != nullptr;
        o.is_logic = dynamic_cast<const ip::logic_error*>(&e) != nullptr;
    }
#endif
    return o;
}
template <typename C> std::basic_string<C> widen(const std::string& s) {  // byte values as code units
    std::basic_string<C> r;
    for (size_t i = 0; i < s.size(); ++i) r += (C) (unsigned char) s[i];
    return r;
}
template <typename C> std::string narrow(const std::basic_string<C>& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) r += (char) s[i];
    return r;
}
inline bool ascii(const std::string& s) {
    for (size_t i = 0; i < s.size(); ++i) if ((unsigned char) s[i] >= 0x80) return false;
    return true;
}
inline ip::format libfmt(Fmt f) { return f == FULL ? ip::format::full : f == COMPACT ? ip::format::compact : ip::format::compressed; }
}  // namespace m
// namespace-qualified enum printing for failure messages
namespace ipaddress {
inline std::ostream& operator<<(std::ostream& o, const error_code& c) { return o << "error_code(" << (int) c << ")"; }
}
#endif
