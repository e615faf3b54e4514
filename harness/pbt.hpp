// Property-based testing engine (C++11, works with and without exceptions).
// Every random decision of a case is a draw() from a choice sequence: random runs record it,
// replays feed it back, the shrinker edits it, and the libFuzzer mode decodes bytes into it.
#ifndef PBT_HPP
#define PBT_HPP
#include <algorithm>
#include <cerrno>
#include <ctime>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
#define PBT_EXC 1
#else
#define PBT_EXC 0
#endif

namespace pbt {
typedef uint64_t u64;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 hash_str(const char* s) {
    u64 h = 1469598103934665603ULL;
    for (; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ULL;
    return h;
}

class Src {
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    explicit Src(u64 seed) : mode(RANDOM), state(seed) {}
    explicit Src(const std::vector<u64>& in) : mode(REPLAY), state(0), input(in) {}
    Src(const uint8_t* data, size_t size) : mode(BYTES), state(0), bytes(data), left(size) {}
    // uniform in [0, max]; 0 must mean "simplest" to whoever draws
    u64 draw(u64 max) {
        u64 v = 0;
        if (mode == RANDOM) {
            state = mix(state + 0x632be59bd9b4e019ULL);
            v = state;
            if (max != ~0ULL) v %= (max + 1);
        } else if (mode == REPLAY) {
            v = pos < input.size() ? input[pos] : 0;
            ++pos;
            if (v > max) v %= (max + 1);
        } else {
            int n = max == 0 ? 0 : max < 256 ? 1 : max < 65536 ? 2 : max < (1ULL << 32) ? 4 : 8;
            for (int i = 0; i < n && left > 0; ++i) { v = v << 8 | *bytes++; --left; }
            if (max != ~0ULL) v %= (max + 1);
        }
        if (rec.size() < 200000) rec.push_back(v);
        if (log && log[0] < LOG_MAX) log[++log[0]] = v;
        return v;
    }
    size_t below(size_t n) { return n <= 1 ? 0 : (size_t) draw(n - 1); }
    size_t range(size_t lo, size_t hi) { return lo + (size_t) draw(hi - lo); }
    bool flip() { return draw(1) != 0; }
    bool one_in(size_t n) { return draw(n - 1) == n - 1; }
    u64 bits64() { return draw(~0ULL); }
    uint8_t byte() { return (uint8_t) draw(255); }
    // index by weights
    size_t weighted(const unsigned* w, size_t n) {
        u64 sum = 0;
        for (size_t i = 0; i < n; ++i) sum += w[i];
        u64 r = draw(sum - 1);
        for (size_t i = 0; i < n; ++i) { if (r < w[i]) return i; r -= w[i]; }
        return n - 1;
    }
    template <size_t N> size_t weighted(const unsigned (&w)[N]) { return weighted(w, N); }
    template <typename T, size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
    template <typename T> const T& pick(const std::vector<T>& a) { return a[below(a.size())]; }
    bool exhausted() const { return mode == BYTES && left == 0; }
    Mode mode;
    u64 state;
    std::vector<u64> input;
    size_t pos = 0;
    const uint8_t* bytes = nullptr;
    size_t left = 0;
    std::vector<u64> rec;
    static const u64 LOG_MAX = 65000;
    volatile u64* log = nullptr;  // shared memory: what was drawn survives a crash of this process
};

// ---- text helpers -----------------------------------------------------------------------------
inline std::string esc(const std::string& s) {
    std::string r;
    char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char) s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r;
}
inline std::string q(const std::string& s) { return "'" + esc(s) + "'"; }
template <typename C> std::string qw(const std::basic_string<C>& s) {
    std::string r = "'";
    char b[16];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned long c = (unsigned long) s[i];
        if (c >= 0x20 && c < 0x7f) r += (char) c;
        else { snprintf(b, sizeof b, "<%lX>", sizeof(C) == 1 ? c & 0xff : c & 0xffffffffUL); r += b; }
    }
    return r + "'";
}
inline void put(std::ostringstream&) {}
template <typename T, typename... R> void put(std::ostringstream& o, const T& v, const R&... r) { o << v; put(o, r...); }
template <typename... R> std::string str(const R&... r) { std::ostringstream o; put(o, r...); return o.str(); }

struct Ctx {
    bool failed = false, nontriv = false, trace = false;
    std::string msg, sample;
    u64 digest = 1469598103934665603ULL;
    std::map<std::string, u64>* labels = nullptr;
    void fail(const char* file, int line, const std::string& m) {
        if (failed) return;
        failed = true;
        const char* s = strrchr(file, '/');
        msg = str(s ? s + 1 : file, ":", line, ": ", m);
    }
    void label(const char* l) { if (labels) ++(*labels)[l]; }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void note(const std::string& s) { if (trace) { if (!sample.empty()) sample += " "; sample += s; } }
    // observation folded into the digest (for cross-configuration comparison)
    void obs(u64 v) { digest = mix(digest ^ v); }
    void obs(const std::string& s) {
        u64 h = 1469598103934665603ULL;
        for (size_t i = 0; i < s.size(); ++i) h = (h ^ (unsigned char) s[i]) * 1099511628211ULL;
        obs(h ^ s.size());
        if (trace_obs) obs_log += s + "\n";
    }
    bool trace_obs = false;
    std::string obs_log;
};
typedef void (*PropFn)(Src&, Ctx&);
struct Facet { const char* name; unsigned weight; PropFn fn; };

#define REQ(c, cond, ...) do { if (!(cond)) { (c).fail(__FILE__, __LINE__, ::pbt::str("[", #cond, "] ", __VA_ARGS__)); return; } } while (0)
#define REQ_EQ(c, a, b, ...) do { auto pbt_a_ = (a); auto pbt_b_ = (b); if (!(pbt_a_ == pbt_b_)) { \
    (c).fail(__FILE__, __LINE__, ::pbt::str("[", #a, " == ", #b, "] got ", pbt_a_, " expected ", pbt_b_, "; ", __VA_ARGS__)); return; } } while (0)
#define NOTE(c, ...) do { if ((c).trace) (c).note(::pbt::str(__VA_ARGS__)); } while (0)
#define SUB(c, call) do { call; if ((c).failed) return; } while (0)

// ---- running ------------------------------------------------------------------------------------
// survives a crash (mmap of the --cur file): case index, facet number, then the draws so far
struct Shared { volatile u64 index, facet, n, status; volatile u64 log[Src::LOG_MAX + 8]; };
inline Shared* map_shared(const std::string& path) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return nullptr;
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    return p == MAP_FAILED ? nullptr : (Shared*) p;
}

inline void guarded(PropFn fn, Src& s, Ctx& c) {
#if PBT_EXC
    try {
        fn(s, c);
    } catch (const std::exception& e) {
        c.fail("uncaught", 0, std::string("unexpected exception: ") + e.what());
    } catch (...) {
        c.fail("uncaught", 0, "unexpected exception of unknown type");
    }
#else
    fn(s, c);
#endif
}

inline const Facet* facet_for(const Facet* f, size_t n, u64 h) {
    u64 sum = 0;
    for (size_t i = 0; i < n; ++i) sum += f[i].weight;
    u64 r = h % sum;
    for (size_t i = 0; i < n; ++i) { if (r < f[i].weight) return &f[i]; r -= f[i].weight; }
    return f;
}
inline const Facet* facet_named(const Facet* f, size_t n, const std::string& name) {
    for (size_t i = 0; i < n; ++i) if (name == f[i].name) return &f[i];
    return nullptr;
}
inline u64 case_seed(u64 seed, u64 idx) { return mix(mix(seed) ^ mix(idx * 0x9e3779b97f4a7c15ULL + 1)); }
inline u64 hash_choices(const char* facet, const std::vector<u64>& v) {
    u64 h = hash_str(facet);
    for (size_t i = 0; i < v.size(); ++i) h = mix(h ^ v[i]);
    return h;
}
inline std::vector<u64> read_choices(const std::string& path) {
    std::ifstream in(path.c_str());
    std::vector<u64> v;
    u64 x;
    while (in >> x) v.push_back(x);
    return v;
}
inline void write_choices(const std::string& path, const std::vector<u64>& v) {
    std::ofstream o(path.c_str());
    for (size_t i = 0; i < v.size(); ++i) o << v[i] << (i + 1 < v.size() ? " " : "\n");
}

static const int CPU_LIMIT = 30;  // seconds of CPU for one batch of cases: far beyond any legitimate case
inline void on_cpu(int) {
    static const char m[] = "PBT: CPU limit for one case exceeded (hang)\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
inline void arm() {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = CPU_LIMIT;
    setitimer(ITIMER_PROF, &t, nullptr);
}

// 0 = holds, 1 = fails (cleanly or by crashing)
inline int forked(PropFn fn, const std::vector<u64>& choices, std::vector<u64>* rec_out) {
    int p[2];
    if (pipe(p)) _exit(99);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        struct rlimit rl = {CPU_LIMIT, CPU_LIMIT + 5};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        Src s(choices);
        Ctx c;
        guarded(fn, s, c);
        u64 n = s.rec.size();
        if (write(p[1], &n, 8) != 8) _exit(98);
        size_t off = 0;
        while (off < n * 8) {
            ssize_t w = write(p[1], (const char*) s.rec.data() + off, n * 8 - off);
            if (w <= 0) break;
            off += (size_t) w;
        }
        _exit(c.failed ? 3 : 0);
    }
    close(p[1]);
    u64 n = 0;
    std::vector<u64> rec;
    if (read(p[0], &n, 8) == 8 && n < 1000000) {
        rec.resize(n);
        size_t off = 0;
        while (off < n * 8) {
            ssize_t r = read(p[0], (char*) rec.data() + off, n * 8 - off);
            if (r <= 0) break;
            off += (size_t) r;
        }
    }
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad && rec_out) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && !rec.empty() && rec.size() <= choices.size()) *rec_out = rec;
        else *rec_out = choices;
    }
    return bad ? 1 : 0;
}

inline std::vector<u64> shrink(PropFn fn, std::vector<u64> best, unsigned budget) {
    unsigned used = 0;
    std::vector<u64> rec;
    struct Try {
        static bool go(PropFn fn, const std::vector<u64>& cand, std::vector<u64>& best, unsigned& used) {
            static const time_t until = time(nullptr) + 45;  // seconds of shrinking
            if (time(nullptr) > until) used = ~0U - 1;
            ++used;
            std::vector<u64> rec;
            if (forked(fn, cand, &rec)) { best = rec.size() <= cand.size() ? rec : cand; return true; }
            return false;
        }
    };
    bool progress = true;
    while (progress && used < budget) {
        progress = false;
        while (!best.empty() && best.back() == 0) best.pop_back();  // past the end means 0 anyway
        for (size_t len = best.size() > 64 ? 64 : best.size(); len >= 1 && used < budget; len = len / 2) {
            for (size_t i = 0; i + len <= best.size() && used < budget;) {
                std::vector<u64> cand(best.begin(), best.begin() + (long) i);
                cand.insert(cand.end(), best.begin() + (long) (i + len), best.end());
                if (Try::go(fn, cand, best, used)) progress = true; else i += len;
            }
        }
        for (size_t len = 8; len >= 1 && used < budget; len /= 2) {
            for (size_t i = 0; i < best.size() && used < budget; i += len) {
                std::vector<u64> cand = best;
                bool any = false;
                for (size_t j = i; j < i + len && j < cand.size(); ++j) { any |= cand[j] != 0; cand[j] = 0; }
                if (any && Try::go(fn, cand, best, used)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && used < budget; ++i) {
            u64 lo = 0, hi = i < best.size() ? best[i] : 0;  // hi fails; look for a smaller failing value
            while (lo < hi && used < budget && i < best.size()) {
                u64 mid = lo + (hi - lo) / 2;
                std::vector<u64> cand = best;
                cand[i] = mid;
                if (Try::go(fn, cand, best, used)) { hi = mid; progress = true; } else lo = mid + 1;
            }
        }
    }
    return best;
}

inline int usage() { fprintf(stderr, "bad usage\n"); return 2; }

inline int driver(int argc, char** argv, const char* prop, const Facet* facets, size_t nf) {
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    signal(SIGPROF, on_cpu);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    const std::string mode = o["--mode"];
    const u64 seed = strtoull(o["--seed"].c_str(), nullptr, 10) ^ hash_str(prop) ^ (o["--salt"].empty() ? 0 : hash_str(o["--salt"].c_str()));
    const std::string only = o["--facet"];
    if (mode == "run") {
        const u64 start = strtoull(o["--start"].c_str(), nullptr, 10), count = strtoull(o["--count"].c_str(), nullptr, 10);
        const u64 stride = o["--stride"].empty() ? 1 : strtoull(o["--stride"].c_str(), nullptr, 10);
        const u64 nsamples = strtoull(o["--samples"].c_str(), nullptr, 10);
        const u64 block = o["--digest-block"].empty() ? 0 : strtoull(o["--digest-block"].c_str(), nullptr, 10);
        Shared* sh = map_shared(o["--cur"]);
        if (!sh) return 2;
        std::map<std::string, u64> labels;
        std::vector<u64> hashes;
        std::vector<std::string> samples;
        std::vector<u64> digests;
        std::ofstream out((o["--out"]).c_str());
        u64 done = 0, nontriv = 0, dig = 0;
        u64 hcap = 3000000;
        Facet const* failed_facet = nullptr;
        std::string failmsg;
        u64 failidx = 0;
        std::vector<u64> failch;
        for (u64 k = 0; k < count; ++k) {
            const u64 idx = start + k * stride;
            sh->index = idx;
            if ((k & 255) == 0) arm();
            const u64 cs = case_seed(seed, idx);
            const Facet* f = only.empty() ? facet_for(facets, nf, mix(cs ^ 0xfacef)) : facet_named(facets, nf, only);
            sh->facet = (u64) (f - facets);
            sh->log[0] = 0;
            Src s(cs);
            s.log = sh->log;
            Ctx c;
            c.labels = &labels;
            c.trace = samples.size() < nsamples && (k % (count / (nsamples ? nsamples : 1) + 1) == 0 || k < 2);
            guarded(f->fn, s, c);
            ++done;
            ++labels[std::string("facet:") + f->name];
            if (c.nontriv) {
                ++nontriv;
                if (hashes.size() < hcap) hashes.push_back(hash_choices(f->name, s.rec));
            }
            if (c.trace && !c.sample.empty()) samples.push_back(std::string(f->name) + ": " + c.sample);
            if (block) {
                dig = mix(dig ^ c.digest);
                if ((k + 1) % block == 0 || k + 1 == count) { digests.push_back(dig); dig = 0; }
            }
            sh->n = done;
            if (c.failed) { failed_facet = f; failmsg = c.msg; failidx = idx; failch = s.rec; break; }
        }
        sh->status = 1;
        std::sort(hashes.begin(), hashes.end());
        hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        if (!o["--hashes"].empty()) {
            std::ofstream h(o["--hashes"].c_str(), std::ios::binary);
            h.write((const char*) hashes.data(), (std::streamsize) (hashes.size() * 8));
        }
        out << "{\"done\":" << done << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << hashes.size() << ",\"labels\":{";
        bool first = true;
        for (std::map<std::string, u64>::const_iterator it = labels.begin(); it != labels.end(); ++it) {
            out << (first ? "" : ",") << "\"" << esc(it->first) << "\":" << it->second;
            first = false;
        }
        out << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) out << (i ? "," : "") << "\"" << esc(samples[i].substr(0, 600)) << "\"";
        out << "],\"digests\":[";
        for (size_t i = 0; i < digests.size(); ++i) out << (i ? "," : "") << digests[i];
        out << "]";
        if (failed_facet) {
            out << ",\"failed\":{\"index\":" << failidx << ",\"facet\":\"" << failed_facet->name << "\",\"msg\":\"" << esc(failmsg) << "\",\"choices\":[";
            for (size_t i = 0; i < failch.size(); ++i) out << (i ? "," : "") << failch[i];
            out << "]}";
        }
        out << "}\n";
        out.close();
        return failed_facet ? 3 : 0;
    }
    if (mode == "frombytes") {  // decode a libFuzzer input into facet and choices (the case may crash: the log survives)
        std::ifstream in(o["--bytes"].c_str(), std::ios::binary);
        std::string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        Shared* sh = map_shared(o["--cur"]);
        if (!sh || data.empty()) return 2;
        const Facet& f = facets[(unsigned char) data[0] % nf];
        sh->facet = (u64) (&f - facets);
        sh->log[0] = 0;
        Src s((const uint8_t*) data.data() + 1, data.size() - 1);
        s.log = sh->log;
        arm();
        Ctx c;
        guarded(f.fn, s, c);
        return c.failed ? 3 : 0;
    }
    if (mode == "shrink") {
        const Facet* f = facet_named(facets, nf, only);
        if (!f) return 2;
        std::vector<u64> best = read_choices(o["--choices"]);
        if (!forked(f->fn, best, nullptr)) { printf("NOREPRO\n"); return 4; }
        best = shrink(f->fn, best, 3000);
        write_choices(o["--outchoices"], best);
        return 0;
    }
    if (mode == "replay") {
        const Facet* f = facet_named(facets, nf, only);
        if (!f) return 2;
        arm();
        Src s(read_choices(o["--choices"]));
        Ctx c;
        c.trace = true;
        c.trace_obs = true;
        guarded(f->fn, s, c);
        printf("CASE %s: %s\n", f->name, esc(c.sample).c_str());
        printf("DIGEST %llu\n", (unsigned long long) c.digest);
        if (!o["--obs"].empty()) { std::ofstream ob(o["--obs"].c_str()); ob << c.obs_log; }
        if (c.failed) { printf("FAIL %s\n", esc(c.msg).c_str()); return 3; }
        printf("HOLDS\n");
        return 0;
    }
    if (mode == "facets") {
        for (size_t i = 0; i < nf; ++i) printf("%s\n", facets[i].name);
        return 0;
    }
    return usage();
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
namespace pbt {
struct FuzzStats {
    u64 runs = 0, nontriv = 0;
    std::set<u64> seen;
    ~FuzzStats() { fprintf(stderr, "PBT-STATS %llu %llu %llu\n", (unsigned long long) runs, (unsigned long long) nontriv, (unsigned long long) seen.size()); }
};
inline FuzzStats& fuzz_stats() { static FuzzStats s; return s; }
}
// coverage-guided mode: the first byte selects the facet, the rest are the choices; a failed oracle aborts
#define PBT_MAIN(PROP, FACETS) \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) { \
        if (size < 1) return 0; \
        const size_t nf = sizeof(FACETS) / sizeof(FACETS[0]); \
        const pbt::Facet& f = FACETS[data[0] % nf]; \
        pbt::Src s(data + 1, size - 1); \
        pbt::Ctx c; \
        pbt::guarded(f.fn, s, c); \
        pbt::FuzzStats& st = pbt::fuzz_stats(); \
        ++st.runs; \
        if (c.nontriv) { ++st.nontriv; if (st.seen.size() < 2000000) st.seen.insert(pbt::hash_choices(f.name, s.rec)); } \
        if (c.failed) { fprintf(stderr, "PBT-FAIL facet=%s %s\n", f.name, pbt::esc(c.msg).c_str()); abort(); } \
        return 0; \
    }
#else
#define PBT_MAIN(PROP, FACETS) \
    int main(int argc, char** argv) { return pbt::driver(argc, argv, PROP, FACETS, sizeof(FACETS) / sizeof(FACETS[0])); }
#endif
#endif
