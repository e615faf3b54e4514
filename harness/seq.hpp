// Reference model of an enumerated sequence (hosts or subnets) and checks of sequences and their iterators.
#ifndef SEQ_HPP
#define SEQ_HPP
#include "gen.hpp"
#include <iterator>
namespace m {
template <typename U> U conv(u128 v);
template <> inline uint32_t conv<uint32_t>(u128 v) { return (uint32_t) v; }
template <> inline uint128_t conv<uint128_t>(u128 v) { return u(v); }

// elements first, first + 2^step, ...; whole: the number of elements does not fit the count type
struct SeqModel {
    int ver;
    u128 first, count;
    int step, p;
    bool whole;
    SeqModel() : ver(4), first(0), count(0), step(0), p(0), whole(false) {}
    u128 value(u128 i) const { return (first + (step >= 128 ? 0 : i << step)) & ones(ver == 4 ? 32 : 128); }
    template <typename M> M at(u128 i) const;
};
template <> inline Addr SeqModel::at<Addr>(u128 i) const { return Addr(ver, value(i)); }
template <> inline Net SeqModel::at<Net>(u128 i) const { return Net(Addr(ver, value(i)), p); }

inline SeqModel hosts_model(const Net& n) {
    SeqModel s;
    const int bits = n.bits(), hb = bits - n.p;
    s.ver = n.a.ver;
    if (hb <= 1) { s.first = n.a.v; s.count = (u128) 1 << hb; return s; }
    s.first = n.a.v + 1;
    s.count = hb == 128 ? ones(128) : ((u128) 1 << hb) - 1;  // all but the first
    if (s.ver == 4) --s.count;                                 // and but the last
    return s;
}
inline SeqModel subnets_model(const Net& n, int np) {
    SeqModel s;
    const int bits = n.bits();
    s.ver = n.a.ver;
    s.first = n.a.v;
    s.p = np;
    s.step = bits - np;
    const int d = np - n.p;
    s.whole = d >= bits;
    s.count = s.whole ? 0 : (u128) 1 << d;
    return s;
}
// a position in [0, count]; whole sequences: any position of the count type
inline u128 position(Src& s, const SeqModel& m) {
    const int bits = m.ver == 4 ? 32 : 128;
    switch (s.below(6)) {
        case 0: return m.whole || m.count >= 40 ? s.below(40) : s.below((size_t) m.count + 1);
        case 1: { const u128 k = s.below(40); return m.whole ? (ones(bits) - k) : k > m.count ? m.count : m.count - k; }
        case 2: return m.whole ? ones(bits) / 2 + s.below(5) : m.count / 2 + (m.count / 2 + 4 < m.count ? s.below(5) : 0);
        default: { const u128 v = g::number(s, bits); return m.whole || v <= m.count ? v : m.count == ones(128) ? v : v % (m.count + 1); }
    }
}
// signed distance j - i if it fits in 64 bits
inline bool signed_dist(u128 i, u128 j, int64_t& n) {
    if (j >= i) { if (j - i > (u128) INT64_MAX) return false; n = (int64_t) (j - i); return true; }
    if (i - j > (u128) 1 << 63) return false;
    n = i - j == (u128) 1 << 63 ? INT64_MIN : -(int64_t) (i - j);
    return true;
}
inline std::string show(const SeqModel& m) { return str(m.p ? "subnets from " : "elements from ", Addr(m.ver, m.first), " step 2^", m.step, " count ", m.whole ? std::string("2^width") : dec(m.count)); }

// order of iterators
template <typename It> void compare_its(Ctx& c, const It& a, const It& b, int want, const std::string& what) {
    REQ_EQ(c, a == b, want == 0, "iterator == ", what);
    REQ_EQ(c, a != b, want != 0, "iterator != ", what);
    REQ_EQ(c, a < b, want < 0, "iterator < ", what);
    REQ_EQ(c, a > b, want > 0, "iterator > ", what);
    REQ_EQ(c, a <= b, want <= 0, "iterator <= ", what);
    REQ_EQ(c, a >= b, want >= 0, "iterator >= ", what);
#if HAS_SPACESHIP
    REQ_EQ(c, (a <=> b) < 0, want < 0, "iterator <=> ", what);
    REQ_EQ(c, (a <=> b) == 0, want == 0, "iterator <=> ", what);
#endif
}
// elements of a sequence seen by every access path. Seq has uint_type-style sizes of type U.
template <typename M, typename Seq> void check_sequence(Src& s, Ctx& c, const Seq& q, const SeqModel& m, const std::string& what) {
    typedef typename Seq::const_iterator It;
    typedef typename It::uint_type U;
    const bool empty = !m.whole && m.count == 0;
    REQ_EQ(c, q.empty(), empty, what, " empty()");
    if (!m.whole) REQ_EQ(c, dec(val(q.size())), dec(m.count), what, " size()");
    const It b = q.begin(), e = q.end();
    REQ_EQ(c, b == e, empty, what, " begin() == end()");
    REQ(c, q.cbegin() == b && q.cend() == e, what, " cbegin/cend");
    if (empty) {
        REQ(c, q.rbegin() == q.rend() && q.crbegin() == q.crend(), what, " rbegin() == rend()");
        return;
    }
    const u128 last = m.whole ? ones(m.ver == 4 ? 32 : 128) : m.count - 1;
    REQ_EQ(c, obs(q.front()), m.at<M>(0), what, " front()");
    REQ_EQ(c, obs(q.back()), m.at<M>(last), what, " back()");
    REQ_EQ(c, obs(*b), m.at<M>(0), what, " *begin()");
    REQ_EQ(c, obs(*q.rbegin()), m.at<M>(last), what, " *rbegin()");
    for (int k = 0; k < 3; ++k) {
        u128 i = position(s, m);
        if (!m.whole && i >= m.count) i = last;
        REQ_EQ(c, obs(q[conv<U>(i)]), m.at<M>(i), what, " [", dec(i), "]");
        REQ_EQ(c, obs(q.at(conv<U>(i))), m.at<M>(i), what, " at(", dec(i), ")");
    }
    // full traversal when small, both ends otherwise
    const size_t lim = 200;
    const bool full = !m.whole && m.count <= lim;
    const size_t n = full ? (size_t) m.count : 20;
    if (full) c.label("traversed fully"); else c.label("traversed at both ends");
    {
        It it = q.begin();
        for (size_t i = 0; i < n; ++i) {
            REQ(c, it != e, what, " forward traversal ends after ", i, " of ", dec(m.count));
            REQ_EQ(c, obs(*it), m.at<M>(i), what, " forward, position ", i);
            REQ_EQ(c, obs(*it.operator->()), m.at<M>(i), what, " forward through ->, position ", i);
            if (i & 1) ++it; else it++;
        }
        if (full) REQ(c, it == e, what, " forward traversal must end after ", n, " elements");
        if (full) {
            size_t seen = 0;
            for (It k = q.begin(); k != q.end(); ++k) { if (++seen > n) break; }
            REQ_EQ(c, seen, n, what, " elements visited by a begin-to-end loop");
        }
        it = e;
        for (size_t i = 0; i < n; ++i) {
            REQ(c, it != b, what, " backward traversal ends after ", i);
            if (i & 1) --it; else it--;
            REQ_EQ(c, obs(*it), m.at<M>(last - i), what, " backward, position ", i, " from the end");
        }
        if (full) REQ(c, it == b, what, " backward traversal must end after ", n, " elements");
    }
    {
        typename Seq::const_reverse_iterator it = q.rbegin(), re = q.rend();
        for (size_t i = 0; i < n; ++i) {
            REQ(c, it != re, what, " reverse traversal ends after ", i);
            REQ_EQ(c, obs(*it), m.at<M>(last - i), what, " reverse, position ", i);
            REQ_EQ(c, obs(*it.operator->()), m.at<M>(last - i), what, " reverse through ->, position ", i);
            if (i & 1) ++it; else it++;
        }
        if (full) REQ(c, it == re, what, " reverse traversal must end after ", n, " elements");
        it = re;
        for (size_t i = 0; i < n; ++i) {
            --it;
            REQ_EQ(c, obs(*it), m.at<M>(i), what, " reverse iterator moved back from rend(), position ", i);
        }
        if (full) REQ(c, it == q.rbegin() && q.crbegin() == q.rbegin() && q.crend() == q.rend(), what, " rbegin");
    }
}
// random-access laws at two positions
template <typename M, typename Seq> void check_iterators(Src& s, Ctx& c, const Seq& q, const SeqModel& m, const std::string& what) {
    typedef typename Seq::const_iterator It;
    typedef typename Seq::const_reverse_iterator Rit;
    typedef typename It::uint_type U;
    const u128 i = position(s, m);
    u128 j = position(s, m);
    if (s.below(3) == 2) { const u128 k = s.below(30); j = s.flip() ? (i >= k ? i - k : 0) : (m.whole ? (i <= ones(m.ver == 4 ? 32 : 128) - k ? i + k : i) : i + k <= m.count && i + k >= i ? i + k : m.count); }
    const std::string at = str(what, " at ", dec(i), " and ", dec(j), " of ", m.whole ? std::string("all") : dec(m.count));
    if (i != j) c.nontrivial();
    const It b = q.begin(), e = q.end();
    const bool wi = m.whole || i < m.count, wj = m.whole || j < m.count;
    It it = b + conv<U>(i), jt = b;
    jt += conv<U>(j);
    if (wi) REQ_EQ(c, obs(*it), m.at<M>(i), at, " *(begin + i)");
    if (wj) REQ_EQ(c, obs(*jt), m.at<M>(j), at, " *(begin += j)");
    if (!m.whole) {
        REQ_EQ(c, it == e, i == m.count, at, " begin + i == end");
        REQ(c, e - conv<U>(m.count - i) == it, at, " end - (count - i)");
    }
    SUB(c, compare_its(c, it, jt, i < j ? -1 : i > j ? 1 : 0, at));
    SUB(c, compare_its(c, it, it, 0, at));
    if (!m.whole) SUB(c, compare_its(c, it, e, i < m.count ? -1 : 0, at + " against end"));
    SUB(c, compare_its(c, b, it, i > 0 ? -1 : 0, at + " begin against i"));
    int64_t n = 0;
    if (j >= i) {
        const U d = conv<U>(j - i);
        REQ_EQ(c, dec(val(jt.uint_diff(it))), dec(j - i), at, " uint_diff");
        REQ(c, it + d == jt, at, " it + (wide count)");
        REQ(c, d + it == jt, at, " (wide count) + it");
        REQ(c, jt - d == it, at, " jt - (wide count)");
        It k = it; k += d;
        REQ(c, k == jt, at, " it += (wide count)");
        k -= d;
        REQ(c, k == it, at, " (it += n) -= n is the identity");
        if (wj) REQ_EQ(c, obs(it[d]), m.at<M>(j), at, " it[wide count]");
    }
    if (signed_dist(i, j, n)) {
        c.label("signed distance");
        REQ_EQ(c, jt - it, n, at, " jt - it");
        if (n != INT64_MIN) REQ_EQ(c, it - jt, -n, at, " it - jt");
        REQ(c, it + n == jt, at, " it + n");
        REQ(c, n + it == jt, at, " n + it");
        if (n != INT64_MIN) REQ(c, jt - n == it, at, " jt - n");
        It k = it; k += n;
        REQ(c, k == jt, at, " it += n");
        if (wj) REQ_EQ(c, obs(*k), m.at<M>(j), at, " *(it += n)");
        k -= n;
        REQ(c, k == it, at, " (it += n) -= n is the identity");
        if (wi) REQ_EQ(c, obs(*k), m.at<M>(i), at, " value after moving forth and back");
        if (wj) REQ_EQ(c, obs(it[n]), m.at<M>(j), at, " it[n]");
        k = it;
        std::advance(k, n);
        REQ(c, k == jt, at, " std::advance");
        if (n >= 0) REQ_EQ(c, std::distance(it, jt), n, at, " std::distance");
        if (n >= -64 && n <= 64) {  // n single steps
            It a = it;
            It p = it;
            for (int64_t x = 0; x < (n < 0 ? -n : n); ++x) {
                It old = p;
                if (n > 0) { ++a; REQ(c, p++ == old, at, " post-increment returns the old position"); }
                else { --a; REQ(c, p-- == old, at, " post-decrement returns the old position"); }
                REQ(c, old != p, at, " a step moves the iterator");
            }
            REQ(c, a == jt && p == jt, at, " n single steps");
            if (wj) REQ_EQ(c, obs(*a), m.at<M>(j), at, " value after n single steps");
            REQ_EQ(c, a - it, n, at, " distance after n single steps");
            SUB(c, compare_its(c, a, it, n > 0 ? 1 : n < 0 ? -1 : 0, at + " after single steps"));
        }
    }
    // reverse iterators: position r in the reverse sequence is base position count - r
    const Rit ri(it), rj(jt);
    REQ(c, ri.base() == it, at, " reverse iterator base()");
    REQ(c, rj.base() == jt, at, " reverse iterator base()");
    if (i > 0) REQ_EQ(c, obs(*ri), m.at<M>(i - 1), at, " *reverse(it)");
    if (j > 0) REQ_EQ(c, obs(*rj), m.at<M>(j - 1), at, " *reverse(jt)");
    if (i > 0 && j > 0) {
        SUB(c, compare_its(c, ri, rj, i > j ? -1 : i < j ? 1 : 0, at + " reverse"));
        if (i >= j) {
            const U d = conv<U>(i - j);
            REQ(c, ri + d == rj, at, " reverse + (wide count)");
            REQ(c, d + ri == rj, at, " (wide count) + reverse");
            REQ(c, rj - d == ri, at, " reverse - (wide count)");
            Rit k = ri; k += d;
            REQ(c, k == rj, at, " reverse += (wide count)");
            k -= d;
            REQ(c, k == ri, at, " reverse -= (wide count)");
            REQ_EQ(c, obs(ri[d]), m.at<M>(j - 1), at, " reverse[wide count]");
            REQ_EQ(c, dec(val(rj.uint_diff(ri))), dec(i - j), at, " reverse uint_diff");
        }
        if (signed_dist(j, i, n)) {
            REQ_EQ(c, rj - ri, n, at, " rj - ri");
            REQ(c, ri + n == rj, at, " reverse + n");
            REQ(c, n + ri == rj, at, " n + reverse");
            if (n != INT64_MIN) REQ(c, rj - n == ri, at, " reverse - n");
            Rit k = ri; k += n;
            REQ(c, k == rj, at, " reverse += n");
            REQ(c, k.base() == jt, at, " base() of (reverse += n)");
            if (j > 0) REQ_EQ(c, obs(*k), m.at<M>(j - 1), at, " *(reverse += n)");
            k -= n;
            REQ(c, k == ri, at, " reverse moved forth and back");
            REQ_EQ(c, obs(ri[n]), m.at<M>(j - 1), at, " reverse[n]");
            if (n >= -40 && n <= 40) {
                Rit a = ri, p = ri;
                for (int64_t x = 0; x < (n < 0 ? -n : n); ++x) { Rit old = p; if (n > 0) { ++a; REQ(c, p++ == old, at, " reverse post-increment"); } else { --a; REQ(c, p-- == old, at, " reverse post-decrement"); } }
                REQ(c, a == rj && p == rj, at, " n single reverse steps");
            }
        }
    }
}
}  // namespace m
#endif
