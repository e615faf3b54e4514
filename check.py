#!/usr/bin/env python3
"""Builds and runs the property checks.  check.py check P07 | check.py replay FILE | check.py setup"""
import concurrent.futures as cf, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, threading, time
sys.modules.setdefault("check", sys.modules[__name__])  # the script checks in tools/ import this module
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import CONFIGS, PLAN  # noqa: E402
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
ENV = dict(os.environ, LC_ALL="C",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=87",
           TSAN_OPTIONS="halt_on_error=1:exitcode=89:report_signal_unsafe=0:history_size=3")
RUN_TIMEOUT = 700 if TIER == "quick" else 6 * 3600
FUZZ_FLAGS = ["clang++", "-std=c++20", "-O1", "-g1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-DPBT_LIBFUZZER", "-Dalways_inline=unused"]


class Violation(Exception):
    def __init__(self, replay, text):
        self.replay, self.text = replay, text


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)


def source(prop):
    return os.path.join(VERIF, "harness", "props", prop + ".cpp")


def sources(prop):
    """The translation units of a property's harness: Pxx.cpp, and Pxx_2.cpp where there is one."""
    return [source(prop)] + [p for p in [source(prop)[:-4] + "_2.cpp"] if os.path.exists(p)]


def compile_one(prop, cfg, out):
    flags = FUZZ_FLAGS if cfg == "fuzz" else CONFIGS[cfg]
    log = ""
    if cfg.startswith("mod"):  # the C++20 module: interface unit first, the harness imports it
        pcm, obj = out + ".pcm", out + ".o"
        inc = ["-w", "-I" + os.path.join(REPO, "include")]
        for cmd in (flags + inc + ["-x", "c++-module", os.path.join(REPO, "src", "ipaddress.ixx"), "--precompile", "-o", pcm],
                    flags + ["-w", "-c", pcm, "-o", obj]):
            r = sh(cmd, timeout=800)
            log += "$ " + " ".join(cmd) + "\n" + r.stdout
            if r.returncode != 0:
                return False, log
        flags = flags + ["-DPBT_MODULE", "-fmodule-file=ipaddress=" + pcm, obj]
    cmd = flags + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")] + sources(prop) + ["-o", out]
    try:
        r = sh(cmd, timeout=800)
    except subprocess.TimeoutExpired:
        return False, "compilation timed out"
    return r.returncode == 0, log + "$ " + " ".join(cmd) + "\n" + r.stdout


def wrap(binary):
    """The command that runs a harness binary: under valgrind where the configuration says so."""
    if os.path.basename(binary).startswith("vg"):
        return ["valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=no", "--child-silent-after-fork=no", "--", binary]
    return [binary]


def usable(cfg, work):
    """Whether binaries of this configuration run here at all: ThreadSanitizer needs its own address layout."""
    if not cfg.startswith("tsan"):
        return True
    src, out = os.path.join(work, cfg + "-probe.cpp"), os.path.join(work, cfg + "-probe")
    with open(src, "w") as f:
        f.write("#include <thread>\nint main() { int n = 0; std::thread t([&] { ++n; }); t.join(); return n - 1; }\n")
    return sh(CONFIGS[cfg] + [src, "-o", out]).returncode == 0 and all(sh([out]).returncode == 0 for _ in range(4))


def write_replay(prop, d):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{prop}-{d.get('config', 'build')}-{h}.json")
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def read_cur(path, facets):
    with open(path, "rb") as f:
        data = f.read()
    idx, fac, n, status, cnt = struct.unpack_from("<5Q", data, 0)
    return facets[fac], list(struct.unpack_from(f"<{cnt}Q", data, 40)), idx


def run_case(binary, facet, choices, work, tag="r"):
    """Runs one case; returns (fails, text)."""
    cp = os.path.join(work, f"{tag}.ch")
    with open(cp, "w") as f:
        f.write(" ".join(map(str, choices)) + "\n")
    try:
        r = sh(wrap(binary) + ["--mode", "replay", "--facet", facet, "--choices", cp], timeout=120)
    except subprocess.TimeoutExpired:
        return True, "timed out (120 s)"
    return r.returncode != 0, f"exit {r.returncode}\n" + r.stdout[-6000:]


def confirm(prop, cfg, binary, facet, choices, work, origin, racy=False):
    """Shrinks a failing case, replays it three times, returns (replay path, text) or None.
    Where the failure depends on the schedule (racy), one replay in ten that fails is enough."""
    cp, op = os.path.join(work, "s.ch"), os.path.join(work, "s.out")
    with open(cp, "w") as f:
        f.write(" ".join(map(str, choices)) + "\n")
    best = choices
    try:
        r = sh(wrap(binary) + ["--mode", "shrink", "--facet", facet, "--choices", cp, "--outchoices", op], timeout=240)
        if r.returncode == 0:
            best = [int(x) for x in open(op).read().split()]
        elif r.returncode == 4 and not racy:
            return None
    except subprocess.TimeoutExpired:
        pass
    for cand in (best, choices):
        outs = [run_case(binary, facet, cand, work) for _ in range(3)]
        if racy:
            for _ in range(7):
                if any(o[0] for o in outs):
                    break
                outs.append(run_case(binary, facet, cand, work))
            outs = [o for o in outs if o[0]]
        if outs and all(o[0] for o in outs):
            d = {"property": prop, "config": cfg, "facet": facet, "choices": cand, "origin": origin, "seed": SEED, "output": outs[0][1]}
            return write_replay(prop, d), outs[0][1], cand
    return None


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line + " ":
                res.append(line)
    return res


class Check:
    def __init__(self, prop):
        self.prop, self.plan = prop, PLAN[prop]
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
        self.procs, self.lock, self.stop = set(), threading.Lock(), False
        self.stats = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "configs": {}, "skipped_configs": [], "fuzz_runs": 0}
        self.hashes = set()
        self.distinct_extra = 0

    def popen(self, cmd, timeout, log):
        with self.lock:
            if self.stop:
                return None
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, cwd=self.work)
            self.procs.add(p)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return -1000
        finally:
            with self.lock:
                self.procs.discard(p)

    def halt(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                p.kill()

    def configs(self):
        c = list(self.plan["configs"])
        if TIER == "thorough":
            c += [x for x in self.plan.get("thorough_configs", []) if x not in c]
        return c

    def build(self):
        cfgs = []
        for c in self.configs():
            if usable(c, self.work):
                cfgs.append(c)
            else:
                print(f"WARNING: binaries of configuration {c} do not run here, skipped")
                self.stats["skipped_configs"].append(c)
        want = list(cfgs)
        if self.fuzz_runs():
            want.append("fuzz")
        logs = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = {c: ex.submit(compile_one, self.prop, c, os.path.join(self.work, c)) for c in want}
            ok = []
            for c, f in futs.items():
                good, logs[c] = f.result()
                if good:
                    ok.append(c)
        bad = [c for c in want if c not in ok]
        if bad and (self.plan.get("must_compile") or not [c for c in ok if c != "fuzz"]):
            path = write_replay(self.prop, {"property": self.prop, "kind": "compile", "config": bad[0], "output": logs[bad[0]][-20000:]})
            raise Violation(path, f"configuration {bad[0]} does not compile:\n" + logs[bad[0]][-3000:])
        for c in bad:
            print(f"WARNING: configuration {c} does not compile, skipped:\n" + logs[c][-1500:])
            self.stats["skipped_configs"].append(c)
        return [c for c in cfgs if c in ok], "fuzz" in ok

    def fuzz_runs(self):
        return self.plan.get("fuzz_" + TIER, self.plan.get("fuzz_quick", 0))

    def count(self, cfg):
        n = self.plan["configs"].get(cfg) if cfg in self.plan["configs"] else self.plan["thorough_configs"][cfg]
        return n * (self.plan.get("thorough_factor", 20) if TIER == "thorough" else 1)

    def job(self, cfg, start, count, stride, k):
        b = os.path.join(self.work, cfg)
        base = os.path.join(self.work, f"{cfg}-{k}")
        cmd = wrap(b) + ["--mode", "run", "--seed", str(SEED), "--salt", self.salt(cfg), "--start", str(start), "--count", str(count), "--stride", str(stride),
               "--samples", "2", "--cur", base + ".cur", "--out", base + ".json", "--hashes", base + ".h", "--digest-block", str(self.plan.get("digest_block", 0))]
        with open(base + ".log", "wb") as log:
            rc = self.popen(cmd, RUN_TIMEOUT, log)
        return {"cfg": cfg, "k": k, "base": base, "rc": rc, "start": start, "count": count, "stride": stride}

    def salt(self, cfg):
        return "" if self.plan.get("compare") else cfg

    def fuzz_job(self, k, runs):
        d = os.path.join(self.work, f"corpus{k}")
        os.makedirs(d)
        base = os.path.join(self.work, f"fuzz-{k}")
        cmd = [os.path.join(self.work, "fuzz"), f"-seed={SEED * 1000 + k + 1}", f"-runs={runs}", "-max_len=300", "-len_control=20", "-timeout=60", "-rss_limit_mb=3000",
               "-artifact_prefix=" + base + "-", "-print_final_stats=1", "-use_value_profile=1", d]
        with open(base + ".log", "wb") as log:
            rc = self.popen(cmd, RUN_TIMEOUT, log)
        arts = [os.path.join(self.work, f) for f in sorted(os.listdir(self.work)) if f.startswith(f"fuzz-{k}-") and not f.endswith(".log")]
        return {"cfg": "fuzz", "k": k, "base": base, "rc": rc, "artifacts": arts}

    def absorb(self, j):
        if j["cfg"] == "fuzz":
            txt = open(j["base"] + ".log", errors="replace").read()
            for line in txt.splitlines():
                if line.startswith("PBT-STATS"):
                    _, runs, nt, dist = line.split()
                    self.stats["evaluations"] += int(runs)
                    self.stats["fuzz_runs"] += int(runs)
                    self.stats["nontrivial"] += int(nt)
                    self.distinct_extra += int(dist)
            return None
        if not os.path.exists(j["base"] + ".json") or os.path.getsize(j["base"] + ".json") == 0:
            return None
        d = json.load(open(j["base"] + ".json"))
        s = self.stats
        s["evaluations"] += d["done"]
        s["nontrivial"] += d["nontrivial"]
        c = s["configs"].setdefault(j["cfg"], 0)
        s["configs"][j["cfg"]] = c + d["done"]
        for k, v in d["labels"].items():
            s["labels"][k] = s["labels"].get(k, 0) + v
        if len(s["samples"]) < 24:
            s["samples"] += [f"[{j['cfg']}] {x}" for x in d["samples"]][: 24 - len(s["samples"])]
        if os.path.exists(j["base"] + ".h"):
            raw = open(j["base"] + ".h", "rb").read()
            if len(self.hashes) < 20_000_000:
                self.hashes.update(struct.unpack(f"<{len(raw) // 8}Q", raw))
        d["job"] = j
        return d

    def facets(self, cfg):
        return sh([os.path.join(self.work, cfg), "--mode", "facets"]).stdout.split()

    def violation_of(self, j, d):
        """Turns a failed job into a confirmed violation (raises) or returns None."""
        cfg = j["cfg"]
        if cfg == "fuzz":
            if not j["artifacts"]:
                return f"fuzzer exit {j['rc']} without an artifact"
            other = next((c for c in ("c20", "g20", "c17") if c in self.cfgs), self.cfgs[0])
            b = os.path.join(self.work, other)
            cur = j["base"] + ".cur"
            try:
                sh(wrap(b) + ["--mode", "frombytes", "--bytes", j["artifacts"][0], "--cur", cur], timeout=120)
            except subprocess.TimeoutExpired:
                pass
            facet, choices, _ = read_cur(cur, self.facets(other))
            r = confirm(self.prop, other, b, facet, choices, self.work, "libFuzzer")
            if r is None:  # not visible in that configuration: replay the input in the fuzz build itself
                art = j["artifacts"][0]
                outs = [sh([os.path.join(self.work, "fuzz"), art], timeout=200) for _ in range(3)]
                if all(o.returncode != 0 for o in outs):
                    d = {"property": self.prop, "config": "fuzz", "bytes": open(art, "rb").read().hex(), "seed": SEED, "output": outs[0].stdout[-6000:]}
                    raise Violation(write_replay(self.prop, d), outs[0].stdout[-3000:])
                return "fuzzer artifact does not reproduce"
            raise Violation(r[0], r[1])
        b = os.path.join(self.work, cfg)
        if not os.path.exists(j["base"] + ".cur"):  # the program never came to its first case: what it does before main is part of the check
            outs = [sh(wrap(b) + ["--mode", "facets"], timeout=200) for _ in range(3)]
            if all(o.returncode != 0 for o in outs):
                text = f"the program ends before its first case (exit {outs[0].returncode})\n" + outs[0].stdout[-6000:]
                raise Violation(write_replay(self.prop, {"property": self.prop, "kind": "start", "config": cfg, "seed": SEED, "output": text}), text)
            return f"no case of {cfg} was started (rc {j['rc']})"
        if d and "failed" in d:
            facet, choices, idx = d["failed"]["facet"], d["failed"]["choices"], d["failed"]["index"]
        else:
            facet, choices, idx = read_cur(j["base"] + ".cur", self.facets(cfg))
        racy = self.plan.get("racy", False)
        r = confirm(self.prop, cfg, b, facet, choices, self.work, f"case {idx}", racy)
        if r is None and racy:  # seen, though not again
            text = (d["failed"]["msg"] if d and "failed" in d else "") + open(j["base"] + ".log", errors="replace").read()[-3000:]
            raise Violation(write_replay(self.prop, {"property": self.prop, "config": cfg, "facet": facet, "choices": choices, "origin": f"case {idx}, seen once", "seed": SEED, "output": text}), text)
        if r is None:
            return f"case {idx} of {cfg} failed once (rc {j['rc']}) but does not reproduce: " + open(j["base"] + ".log", errors="replace").read()[-2000:]
        raise Violation(r[0], r[1])

    def run_jobs(self, have_fuzz):
        jobs = []
        for c in self.cfgs:
            n = self.count(c)
            parts = max(1, min(NCPU, n // 200)) if not self.plan.get("compare") else NCPU
            if TIER == "thorough":
                parts = max(parts, NCPU * 2)
            per = n // parts
            for k in range(parts):
                jobs.append(("run", c, k, per, parts))
        fr = self.fuzz_runs() if have_fuzz else 0
        if fr:
            nf = NCPU if TIER == "thorough" else max(2, NCPU // 2)
            jobs = [("fuzz", None, k, fr // nf, 0) for k in range(nf)] + jobs
        results = []

        def go(spec):
            kind, c, k, per, parts = spec
            if self.stop:
                return
            j = self.fuzz_job(k, per) if kind == "fuzz" else self.job(c, k, per, parts, k)
            j["order"] = spec
            results.append(j)
            if j["rc"] not in (0, None):
                self.halt()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(go, jobs))
        bad, unexplained, digests = [], [], {}
        for j in sorted(results, key=lambda j: (j["cfg"] == "fuzz", self.cfgs.index(j["cfg"]) if j["cfg"] in self.cfgs else 0, j["k"])):
            d = self.absorb(j)
            if d is not None:
                digests[(j["cfg"], j["k"])] = (d["digests"], j)
            if j["rc"] not in (0, None) and not (j["rc"] == -9 and self.stop):
                bad.append((j, d))
        for j, d in bad:
            u = self.violation_of(j, d)
            if u:
                unexplained.append(u)
        if unexplained:
            raise RuntimeError("; ".join(unexplained))
        return digests

    def evidence(self, violations):
        s = self.stats
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
              "coverage": {"evaluations": s["evaluations"], "distinct_nontrivial": len(self.hashes) + self.distinct_extra, "rule": self.plan["rule"],
                           "samples": s["samples"][:24], "per_configuration": s["configs"], "labels": s["labels"], "coverage_guided_runs": s["fuzz_runs"],
                           "nontrivial": s["nontrivial"], "skipped_configurations": s["skipped_configs"], **s.get("extra", {})},
              "assumptions": self.plan.get("assumptions", []) + ["IEEE 754 doubles and the installed compilers' __int128 are correct"],
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def compare(self, digests):
        ref = self.cfgs[0]
        for c in self.cfgs[1:]:
            for k in sorted({kk for cc, kk in digests if cc == c}):
                if (ref, k) not in digests:
                    continue
                a, ja = digests[(ref, k)]
                b, jb = digests[(c, k)]
                if a == b:
                    continue
                blk = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), None)
                if blk is None:
                    continue
                self.pinpoint(ref, c, jb, blk)

    def pinpoint(self, ref, c, j, blk):
        n = self.plan["digest_block"]
        first = j["start"] + blk * n * j["stride"]
        ds = {}
        for x in (ref, c):
            base = os.path.join(self.work, "pin-" + x)
            sh([os.path.join(self.work, x), "--mode", "run", "--seed", str(SEED), "--salt", "", "--start", str(first), "--count", str(n), "--stride", str(j["stride"]),
                "--samples", "0", "--cur", base + ".cur", "--out", base + ".json", "--digest-block", "1"])
            ds[x] = json.load(open(base + ".json"))["digests"]
        i = next(i for i in range(len(ds[ref])) if ds[ref][i] != ds[c][i])
        idx = first + i * j["stride"]
        base = os.path.join(self.work, "pin-one")
        sh([os.path.join(self.work, ref), "--mode", "run", "--seed", str(SEED), "--salt", "", "--start", str(idx), "--count", "1", "--cur", base + ".cur", "--out", base + ".json"])
        facet, choices, _ = read_cur(base + ".cur", self.facets(ref))
        best = shrink_diff(lambda ch: differs(self.work, ref, c, facet, ch)[0], choices, 500)
        ok, text = True, ""
        for _ in range(3):
            r, text = differs(self.work, ref, c, facet, best)
            ok = ok and r
        if not ok:
            raise RuntimeError("digest difference does not reproduce")
        d = {"property": self.prop, "config": c, "reference": ref, "kind": "diff", "facet": facet, "choices": best, "seed": SEED, "output": text}
        raise Violation(write_replay(self.prop, d), text)

    def main(self):
        try:
            if "script" in self.plan:
                import importlib
                importlib.import_module(self.plan["script"]).run(self)
            else:
                self.cfgs, have_fuzz = self.build()
                digests = self.run_jobs(have_fuzz)
                if self.plan.get("compare"):
                    self.compare(digests)
            for line in known_findings(self.prop):
                print("KNOWN-FINDING: " + line[len("finding:"):].strip())
            self.evidence(0)
            s = self.stats
            print(f"{self.prop}: held on {s['evaluations']} cases ({len(self.hashes) + self.distinct_extra} distinct non-trivial), {time.time() - self.t0:.1f} s")
            return 0
        except Violation as v:
            self.evidence(1)
            print(v.text)
            print(f"VIOLATION property={self.prop} replay={v.replay}")
            return 1
        finally:
            self.halt()
            shutil.rmtree(self.work, ignore_errors=True)


def differs(work, ref, c, facet, choices):
    outs = {}
    cp = os.path.join(work, "d.ch")
    with open(cp, "w") as f:
        f.write(" ".join(map(str, choices)) + "\n")
    for x in (ref, c):
        ob = os.path.join(work, "d." + x)
        r = sh([os.path.join(work, x), "--mode", "replay", "--facet", facet, "--choices", cp, "--obs", ob], timeout=120)
        dig = [l for l in r.stdout.splitlines() if l.startswith("DIGEST")]
        outs[x] = (dig, open(ob, errors="replace").read() if os.path.exists(ob) else r.stdout, r.stdout)
    if outs[ref][0] == outs[c][0]:
        return False, ""
    la, lb = outs[ref][1].splitlines(), outs[c][1].splitlines()
    lines = [outs[ref][2].splitlines()[0] if outs[ref][2] else ""]
    other = outs[c][2].splitlines()[0] if outs[c][2] else ""
    if lines[0] != other and outs[ref][2] and outs[c][2]:
        lines.append(f"(in {c} the case is described as: {other})")
    for i in range(max(len(la), len(lb))):
        a, b = la[i] if i < len(la) else "<end>", lb[i] if i < len(lb) else "<end>"
        if a != b:
            lines.append(f"observation {i}: {ref}: {a!r}  {c}: {b!r}")
            if len(lines) > 12:
                break
    return True, "\n".join(lines)


def shrink_diff(fails, best, budget):
    used = 0
    progress = True
    while progress and used < budget:
        progress = False
        while best and best[-1] == 0:
            best = best[:-1]
        ln = max(1, len(best) // 2)
        while ln >= 1 and used < budget:
            i = 0
            while i + ln <= len(best) and used < budget:
                cand = best[:i] + best[i + ln:]
                used += 1
                if fails(cand):
                    best, progress = cand, True
                else:
                    i += ln
            ln //= 2
        for i in range(len(best)):
            for v in (0, 1, best[i] // 2 if i < len(best) else 0):
                if i < len(best) and v < best[i] and used < budget:
                    cand = best[:i] + [v] + best[i + 1:]
                    used += 1
                    if fails(cand):
                        best, progress = cand, True
                        break
    return best


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    if "script" in PLAN[prop]:
        import importlib
        return importlib.import_module(PLAN[prop]["script"]).replay(d)
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(VERIF, "build"))
    try:
        for c in [d["config"]] + ([d["reference"]] if "reference" in d else []):
            ok, log = compile_one(prop, c, os.path.join(work, c))
            if not ok:
                print(log[-5000:])
                print("REPRODUCED (does not compile)")
                return 1
        if d.get("kind") == "compile":
            print("HOLDS (compiles)")
            return 0
        if d.get("kind") == "start":
            r = sh(wrap(os.path.join(work, d["config"])) + ["--mode", "facets"], timeout=200)
            bad, text = r.returncode != 0, f"exit {r.returncode}\n" + r.stdout[-6000:]
        elif d.get("kind") == "diff":
            bad, text = differs(work, d["reference"], d["config"], d["facet"], d["choices"])
        elif "bytes" in d:
            art = os.path.join(work, "input")
            open(art, "wb").write(bytes.fromhex(d["bytes"]))
            r = sh([os.path.join(work, "fuzz"), art], timeout=200)
            bad, text = r.returncode != 0, r.stdout
        else:
            bad, text = run_case(os.path.join(work, d["config"]), d["facet"], d["choices"], work)
        print(text)
        print("REPRODUCED" if bad else "HOLDS")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        return Check(sys.argv[2]).main()
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for t in ("g++", "clang++"):
            r = sh([t, "--version"])
            print(r.stdout.splitlines()[0])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
