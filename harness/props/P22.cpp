// Streams: histories of manipulators, writes and reads on a few streams, against a model of each stream's state.
#include "entry.hpp"
using namespace m;
#ifndef IPADDRESS_NO_OVERLOAD_STD

struct Val { int kind; Addr a; Net n; };  // 0..2 ipv4/ipv6/any address, 3..5 ipv4/ipv6/any network
static Val any_value(Src& s) {
    Val v;
    v.kind = (int) s.below(6);
    switch (v.kind) {
        case 0: v.a = g::addr4(s); break;
        case 1: v.a = g::addr6(s); break;
        case 2: v.a = g::addr(s); break;
        case 3: v.n = g::net4(s); break;
        case 4: v.n = g::net6s(s); break;
        default: v.n = s.flip() ? g::net6s(s) : g::net4(s);
    }
    return v;
}
static std::string text_of(const Val& v, Fmt f, bool upper) {
    std::string t = v.kind < 3 ? fmt(v.a, f) : fmt(v.n, f);
    if (upper) for (size_t i = 0; i < t.size() && t[i] != '%'; ++i) if (t[i] >= 'a' && t[i] <= 'z') t[i] = (char) (t[i] - 32);
    return t;
}
template <typename C> static void write(std::basic_ostream<C>& o, const Val& v) {
    switch (v.kind) {
        case 0: o << lib4(v.a); break;
        case 1: o << lib6(v.a); break;
        case 2: o << lib(v.a); break;
        case 3: o << mknet<ipv4_network>(v.n); break;
        case 4: o << mknet<ipv6_network>(v.n); break;
        default: o << mknet<ip_network>(v.n);
    }
}
template <typename C, typename T, typename M> static void read_as(Ctx& c, std::basic_istream<C>& in, bool ok, const M& want, const T& junk, const std::string& what) {
    T r = junk;
    in >> r;
    REQ_EQ(c, !in.fail(), ok, "reading ", what);
    if (ok) REQ_EQ(c, obs(r), want, "reading ", what);
    else REQ(c, r == T(), "a failed read must leave the default value, reading ", what);
}
template <typename C> static void read(Ctx& c, std::basic_istream<C>& in, int kind, bool ok, const Addr& wa, const Net& wn, const std::string& what) {
    const Addr j4(4, 0x01020304), j6(6, 5, "");
    switch (kind) {
        case 0: read_as(c, in, ok, wa, lib4(j4), what); break;
        case 1: read_as(c, in, ok, wa, lib6(j6), what); break;
        case 2: read_as(c, in, ok, wa, lib(j6), what); break;
        case 3: read_as(c, in, ok, wn, mknet<ipv4_network>(Net(j4, 32)), what); break;
        case 4: read_as(c, in, ok, wn, mknet<ipv6_network>(Net(j6, 128)), what); break;
        default: read_as(c, in, ok, wn, mknet<ip_network>(Net(j6, 128)), what);
    }
}
// writing: formats are one-shot, uppercase is sticky, other output does not consume the format
template <typename C> static void writes(Src& s, Ctx& c) {
    std::basic_ostringstream<C> out[2];
    std::string want[2];
    bool upper[2] = {false, false};
    int pend[2] = {-1, -1};
    struct Field { size_t w; bool left; char fill; } field[2] = {{0, false, ' '}, {0, false, ' '}};
    bool bad[2] = {false, false};
    std::string log;
    std::vector<std::pair<Val, std::string> > written;
    // what the next output becomes in its field: the width is used up by one output, fill and side stay; a stream in a failed state emits nothing and keeps its width
    auto put = [&](size_t k, const std::string& t) {
        if (bad[k]) return;
        const std::string pad(field[k].w > t.size() ? field[k].w - t.size() : 0, field[k].fill);
        want[k] += (field[k].left ? t + pad : pad + t) + " ";
        field[k].w = 0;
    };
    const size_t n = s.range(1, 12);
    for (size_t i = 0; i < n; ++i) {
        const size_t k = s.below(4) == 3 ? 1 : 0;
        if (s.one_in(6)) {
            field[k].w = s.below(60);
            out[k].width((std::streamsize) field[k].w);
            log += " width(" + dec(field[k].w) + ")";
            if (s.flip()) { field[k].left = s.flip(); if (field[k].left) out[k] << std::left; else out[k] << std::right; log += field[k].left ? " left" : " right"; }
            if (s.flip()) { field[k].fill = s.flip() ? '*' : ' '; out[k].fill((C) field[k].fill); log += field[k].fill == '*' ? " fill(*)" : " fill( )"; }
        }
        if (s.one_in(16)) { bad[k] = !bad[k]; out[k].clear(bad[k] ? std::ios_base::failbit : std::ios_base::goodbit); log += bad[k] ? " [failed]" : " [cleared]"; }
        switch (s.below(10)) {
            case 0: out[k] << ip::full; pend[k] = FULL; log += " full"; break;
            case 1: out[k] << ip::compact; pend[k] = COMPACT; log += " compact"; break;
            case 2: out[k] << ip::compressed; pend[k] = COMPRESSED; log += " compressed"; break;
            case 3: if (s.flip()) { out[k] << std::uppercase; upper[k] = true; log += " upper"; } else { out[k] << std::nouppercase; upper[k] = false; log += " noupper"; } break;
            case 4: { const unsigned v = (unsigned) s.below(1000); put(k, dec(v)); out[k] << v << (C) ' '; log += " number"; break; }
            case 5: { const u64 v = s.bits64(); put(k, dec(v)); out[k] << uint128_t(v) << (C) ' '; log += " uint128"; break; }
            default: {
                const Val v = any_value(s);
                const Fmt f = pend[k] < 0 ? COMPRESSED : (Fmt) pend[k];
                const std::string t = text_of(v, f, upper[k]);
                put(k, t);
                write(out[k], v);
                out[k] << (C) ' ';
                pend[k] = -1;
                written.push_back(std::make_pair(v, t));
                log += " " + t;
                if (v.kind < 3 ? v.a.v != 0 : v.n.p != 0) c.nontrivial();
            }
        }
    }
    NOTE(c, log);
    for (int k = 0; k < 2; ++k) REQ(c, out[k].str() == widen<C>(want[k]), "stream ", k, " has ", qw(out[k].str()), ", want ", want[k], " after", log);
    // everything written reads back equal, from one stream
    std::basic_string<C> all;
    for (size_t i = 0; i < written.size(); ++i) all += (i ? widen<C>(s.flip() ? "\n" : "  \t") : std::basic_string<C>()) + widen<C>(written[i].second);
    std::basic_istringstream<C> in(all);
    for (size_t i = 0; i < written.size(); ++i) SUB(c, read<C>(c, in, written[i].first.kind, true, written[i].first.a, written[i].first.n, written[i].second));
    for (size_t i = 0; i < want[0].size(); ++i) c.obs((u64) out[0].str()[i]);
}
// reading: one token per read, strictness is one-shot, failures
template <typename C> static void reads(Src& s, Ctx& c) {
    struct Item { int kind; std::string t; };
    std::vector<Item> items;
    const size_t n = s.range(1, 6);
    std::string all, log;
    for (size_t i = 0; i < n; ++i) {
        Item it;
        it.kind = (int) s.below(6);
        const int ver = it.kind % 3 == 0 ? 4 : it.kind % 3 == 1 ? 6 : s.flip() ? 6 : 4;
        switch (s.below(4)) {
            case 0: {  // network with or without host bits, or an address
                Addr a = ver == 4 ? g::addr4(s) : g::addr6(s);
                it.t = fmt(a, (Fmt) s.below(3));
                if (it.kind >= 3) { const int p = g::prefix(s, a.bits()); if (s.flip()) a.v &= maskof(a.bits(), p); it.t = fmt(a, COMPRESSED) + "/" + dec((u64) p); }
                break;
            }
            case 1: it.t = it.kind < 3 ? (ver == 4 ? g::text4(s) : g::text6(s)) : g::net_text(s, ver); break;
            case 2: it.t = fmt(ver == 4 ? g::net4(s) : g::net6s(s), COMPRESSED); g::mutate(s, it.t); break;
            default: it.t = it.kind < 3 ? fmt(ver == 4 ? g::addr4(s) : g::addr6(s), COMPRESSED) : fmt(ver == 4 ? g::net4(s) : g::net6s(s), COMPRESSED);
        }
        for (size_t k = 0; k < it.t.size(); ++k) if (isspace((unsigned char) it.t[k]) || (unsigned char) it.t[k] >= 0x80) it.t[k] = '_';
        if (it.t.empty()) it.t = "?";
        items.push_back(it);
        static const char* const sep[] = {" ", "\n", "\t\t", "  \r\n "};
        all += (s.below(8) == 7 || i ? sep[s.below(4)] : "") + it.t;
        log += " " + q(it.t) + " as " + std::string(1, (char) ('0' + it.kind));
    }
    NOTE(c, log);
    std::basic_istringstream<C> in(widen<C>(all));
    bool strict = true;
    for (size_t i = 0; i < n; ++i) {
        // a read from a stream already in a failed state: refused, takes nothing from the stream, and uses up a strictness selection like any other read
        if (s.one_in(5)) {
            const bool ns = s.flip();
            if (ns) { in >> ip::non_strict; strict = false; }
            const int kind = (int) s.below(6);
            const bool eof = s.flip();
            in.setstate(eof ? std::ios_base::eofbit : std::ios_base::failbit);
            SUB(c, read<C>(c, in, kind, false, Addr(), Net(), str("a ", eof ? "finished" : "failed", " stream as ", kind, ns ? " after non_strict" : "", ", before item ", i, " of", log)));
            in.clear();
            if (kind >= 3) strict = true;
            log += ns ? " [non_strict, failed read]" : " [failed read]";
        }
        const int kind = items[i].kind;
        const size_t m = s.below(5);
        if (m == 1) { in >> ip::non_strict; strict = false; log += " [non_strict]"; }
        else if (m == 2) { in >> ip::strict; strict = true; log += " [strict]"; }
        else if (m == 3) { in >> ip::non_strict >> ip::strict; strict = true; }
        bool ok;
        Addr wa; Net wn;
        if (kind < 3) {
            ok = kind == 0 ? parse4(items[i].t, wa) : kind == 1 ? parse6(items[i].t, wa) : (parse4(items[i].t, wa) || parse6(items[i].t, wa));
        } else {
            ok = kind == 3 ? parse_net(4, items[i].t, strict, wn) : kind == 4 ? parse_net(6, items[i].t, strict, wn) : (parse_net(4, items[i].t, strict, wn) || parse_net(6, items[i].t, strict, wn));
            strict = true;
        }
        c.label(ok ? "read" : "refused");
        c.nontrivial();
        SUB(c, read<C>(c, in, kind, ok, wa, wn, str(q(items[i].t), " item ", i, " of", log)));
        in.clear(in.rdstate() & ~std::ios_base::failbit);
    }
    uint64_t rest = 0;
    in.clear();
    in >> rest;
    REQ(c, in.fail(), "something is left after the last token");
    // nothing to read: failure and default value
    std::basic_istringstream<C> empty(widen<C>(s.flip() ? "" : "  \n"));
    SUB(c, read<C>(c, empty, (int) s.below(6), false, Addr(), Net(), "an empty stream"));
    // a stream that throws on failure
#if PBT_EXC
    std::basic_istringstream<C> thr(widen<C>("nonsense"));
    thr.exceptions(std::ios_base::failbit);
    bool threw = false;
    ip_address x = lib(Addr(6, 5, ""));
    try { thr >> x; } catch (const std::ios_base::failure&) { threw = true; }
    REQ(c, threw, "a stream with exceptions(failbit) must throw on a malformed token");
#endif
}
static void w_narrow(Src& s, Ctx& c) { writes<char>(s, c); }
static void w_wide(Src& s, Ctx& c) { writes<wchar_t>(s, c); }
static void r_narrow(Src& s, Ctx& c) { reads<char>(s, c); }
static void r_wide(Src& s, Ctx& c) { reads<wchar_t>(s, c); }
static const pbt::Facet F[] = {{"write", 3, w_narrow}, {"wwrite", 2, w_wide}, {"read", 3, r_narrow}, {"wread", 2, r_wide}};
PBT_MAIN("P22", F)
#endif
