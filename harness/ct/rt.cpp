// the run-time half of P26
#include "ct.hpp"
using namespace ct;
extern const Table table;
template <typename T> bool rt_addr(const char (&t)[WIDTH], Obs& o) {
    error_code e = error_code::no_error;
    const T x = T::parse(t, e);
    if (e == error_code::no_error) full(o, x);
    return e == error_code::no_error;
}
template <typename T> bool rt_net(const char (&t)[WIDTH], bool strict, Obs& o) {
    error_code e = error_code::no_error;
    const T x = T::parse(t, e, strict);
    if (e == error_code::no_error) full(o, x);
    return e == error_code::no_error;
}
int main() {
    std::string marks, lmarks;  // 1: the case did more than being refused
    for (unsigned i = 0; i < table.n; ++i) {
        const Obs r = run(opaque(table.in[i]));
        report(i, "case", table.out[i], r);
        marks += r.k > 3 ? '1' : '0';
    }
    for (unsigned i = 0; i < table.nl; ++i) {
        const Lit& l = table.lit[i];
        char b[WIDTH] = {};
        std::strncpy(b, l.text, WIDTH - 1);
        struct Buf { char t[WIDTH]; } s;
        std::memcpy(s.t, b, WIDTH);
        s = opaque(s);
        Obs o{};
        bool ok = false;
        switch (l.type) {
            case 0: ok = rt_addr<ipv4_address>(s.t, o); break;
            case 1: ok = rt_addr<ipv6_address>(s.t, o); break;
            case 2: ok = rt_addr<ip_address>(s.t, o); break;
            case 3: ok = rt_net<ipv4_network>(s.t, l.strict != 0, o); break;
            case 4: ok = rt_net<ipv6_network>(s.t, l.strict != 0, o); break;
            default: ok = rt_net<ip_network>(s.t, l.strict != 0, o);
        }
        lmarks += std::strlen(l.text) > 2 ? '1' : '0';
        if (ok != (l.ok != 0)) std::printf("DIFFERS L%u %s \"%s\"\n  compile time: %s\n  run time:     %s\n", i, l.form, l.text, l.ok ? "accepted" : "not a constant expression", ok ? "accepted" : "refused");
        else if (ok && !same(o, l.out)) std::printf("DIFFERS L%u %s \"%s\"\n  compile time: %s\n  run time:     %s\n", i, l.form, l.text, show(l.out).c_str(), show(o).c_str());
    }
    std::printf("DONE %u %u %s. %s.\n", table.n, table.nl, marks.c_str(), lmarks.c_str());
}
