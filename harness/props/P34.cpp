// P34: several translation units, and static initialization.  This unit and P34_2.cpp are compiled separately and linked; what one
// does with streams, values and exceptions of the other must be what either does alone, and what ran before main must show what it
// shows afterwards.
#include "tu.hpp"
// with no priority: somewhere among the other initialisers of this unit
static BeforeMain before_main;
namespace {
const Table* unit(size_t i) { static const Table* const t[] = {&TABLE, &second_table()}; return t[i % 2]; }
void operations(Src& s, Ctx& c) {
    const size_t kind = s.below(KINDS);
    const u64 seed = s.draw(999999);
    NOTE(c, "operation ", kind, " with seed ", seed);
    c.nontrivial();
    REQ_EQ(c, unit(1)->perform(kind, seed), unit(0)->perform(kind, seed), "operation ", kind, " with seed ", seed, " in the second unit");
}
void before(Src& s, Ctx& c) {
    const size_t i = s.below(EARLY), w = s.below(2);
    NOTE(c, "operation ", i % KINDS, " before main in unit ", w);
    c.nontrivial();
    REQ_EQ(c, unit(w)->early(i), unit(w)->perform(i % KINDS, i), "operation ", i % KINDS, " with seed ", i, " before main in unit ", w);
}
void kept(Src& s, Ctx& c) {
    const size_t i = s.below(HELD), w = s.below(2), by = s.below(2);
    NOTE(c, "object ", i, " of unit ", w);
    c.nontrivial();
    REQ_EQ(c, unit(w)->held(i), unit(by)->hold(i), "object ", i, " kept since before main in unit ", w);
}
#if PBT_EXC
void faults(Src& s, Ctx& c) {
    const size_t i = s.below(FAULTS), w = s.below(2);
    NOTE(c, q(FAULTY[i / 5]));
    c.nontrivial();
    REQ_EQ(c, unit(w)->early_fault(i), unit(w)->caught(FAULTY[i / 5], i % 5, unit(w)->raise), "refusal of ", q(FAULTY[i / 5]), " before main in unit ", w);
}
#endif
struct Step { size_t what, how, unit; Addr a; Net n; };
std::vector<Step> steps(Src& s, size_t kinds) {
    std::vector<Step> r(s.range(1, 8));
    for (size_t i = 0; i < r.size(); ++i) {
        r[i].what = s.below(kinds);
        r[i].how = s.below(4);
        r[i].unit = s.below(2);
        r[i].a = g::addr(s);
        r[i].n = g::net(s);
    }
    return r;
}
bool mixed(const std::vector<Step>& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i].unit != v[0].unit) return true; return false; }
#ifndef IPADDRESS_NO_OVERLOAD_STD
void writing(Src& s, Ctx& c) {
    const std::vector<Step> v = steps(s, 2);
    const bool wide = s.flip();
    c.nontrivial(mixed(v));
    std::string r[2];
    for (size_t k = 0; k < 2; ++k) {  // all in one unit; then each step in its own
        std::ostringstream o;
        std::wostringstream w;
        for (size_t i = 0; i < v.size(); ++i) {
            const Table* t = unit(k ? v[i].unit : 0);
            if (v[i].what == 0) { if (wide) t->wmanip(w, v[i].how % 3); else t->manip(o, v[i].how % 3); }
            else if (wide) t->wput(w, lib(v[i].a), mknet<ip_network>(v[i].n), v[i].how);
            else t->put(o, lib(v[i].a), mknet<ip_network>(v[i].n), v[i].how);
        }
        r[k] = wide ? narrow(w.str()) : o.str();
    }
    NOTE(c, v.size(), " steps writing ", q(r[0]));
    REQ_EQ(c, r[1], r[0], "manipulators and values written to one stream by two units");
}
void reading(Src& s, Ctx& c) {
    std::vector<Step> v = steps(s, 2);
    const bool host = s.flip();
    c.nontrivial(mixed(v));
    std::string text, r[2];
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].what == 0) continue;
        Addr a = v[i].n.a;
        if (host) a.v |= 1;
        text += fmt(a, COMPRESSED) + "/" + dec((u64) v[i].n.p) + " ";
        v[i].how %= 2;
        if (v[i].how == 1 && v[i].n.a.ver == 6) v[i].how = 2;
    }
    for (size_t k = 0; k < 2; ++k) {
        std::istringstream in(text);
        for (size_t i = 0; i < v.size(); ++i) {
            const Table* t = unit(k ? v[i].unit : 0);
            if (v[i].what == 0) { t->imanip(in, v[i].how % 2 == 0); continue; }
            ip_network n;
            const bool ok = t->get(in, n, v[i].how);
            r[k] += ok ? n.to_string() + " " : "refused ";
            in.clear();
        }
    }
    NOTE(c, v.size(), " steps reading ", q(text));
    REQ_EQ(c, r[1], r[0], "manipulators and networks read from one stream by two units, ", q(text));
}
#endif
void values(Src& s, Ctx& c) {
    const Addr a = g::addr(s);
    const Net n = g::net(s);
    NOTE(c, a, " ", n);
    c.nontrivial(a.v > 255);
    const ip_address x = unit(0)->make(a), y = unit(1)->make(a);
    const ip_network p = unit(0)->makenet(n), w = unit(1)->makenet(n);
    REQ_EQ(c, unit(1)->see(x, p), unit(0)->see(x, p), "values of the first unit seen by the second");
    REQ_EQ(c, unit(0)->see(y, w), unit(0)->see(x, p), "values of the second unit seen by the first");
    REQ_EQ(c, unit(1)->walk(p), unit(0)->walk(w), "sequences of the other unit's networks");
    for (size_t i = 0; i < 2; ++i) REQ(c, unit(i)->equal(x, y, p, w, x.get_scope_id(), y.get_scope_id()), "values made by two units differ in unit ", i);
}
#if PBT_EXC
void exceptions(Src& s, Ctx& c) {
    const std::string t = s.flip() ? g::text4(s) : g::net_text(s, s.flip() ? 4 : 6);
    const size_t k = s.below(5);
    NOTE(c, q(t));
    const std::string want = unit(0)->caught(t, k, unit(0)->raise);
    c.nontrivial(want != "nothing");
    REQ_EQ(c, unit(0)->caught(t, k, unit(1)->raise), want, "exception of the second unit caught by the first");
    REQ_EQ(c, unit(1)->caught(t, k, unit(0)->raise), want, "exception of the first unit caught by the second");
    REQ_EQ(c, unit(1)->caught(t, k, unit(1)->raise), want, "exception of the second unit caught there");
}
#endif
const pbt::Facet F[] = {{"operations", 4, operations}, {"before", 3, before}, {"kept", 2, kept}, {"values", 3, values},
#ifndef IPADDRESS_NO_OVERLOAD_STD
    {"writing", 4, writing}, {"reading", 3, reading},
#endif
#if PBT_EXC
    {"exceptions", 2, exceptions}, {"faults", 2, faults},
#endif
};
}  // namespace
PBT_MAIN("P34", F)
