"""P26: what the compiler computes in constant expressions equals what the machine computes, and texts that run-time parsing
refuses are not constant expressions.  Cases are generated as data and texts; a table of constexpr results per chunk is
linked with the run-time half (harness/ct/rt.cpp)."""
import concurrent.futures as cf, hashlib, ipaddress, json, os, random, re, shutil, tempfile
import check as K

CT = os.path.join(K.VERIF, "harness", "ct")
GCC = ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000", "-fmax-errors=0"]
CLANG = ["-fconstexpr-steps=1000000000", "-ferror-limit=0"]
CONFIGS = {}
for _s in ("14", "17", "20", "23"):
    CONFIGS["gcc" + _s] = ["g++", "-std=c++" + _s] + GCC
    CONFIGS["clang" + _s] = ["clang++", "-std=c++" + _s] + CLANG
CONFIGS["gcc20s"] = ["g++", "-std=c++20", "-DIPADDRESS_NO_SPACESHIP_OPERATOR", "-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=40"] + GCC
CONFIGS["clang17b"] = ["clang++", "-std=c++17", "-DIPADDRESS_ENDIAN=1", "-DIPADDRESS_CHAR_IS_UTF8"] + CLANG
QUICK = ["gcc14", "gcc17", "gcc20", "gcc23", "clang14", "clang17", "clang20", "clang23"]
RUNTIME = ["-O1", "-Dalways_inline=unused"]
WIDTH = 72
OPS = 17
M64 = (1 << 64) - 1
TYPES = ["ipv4_address", "ipv6_address", "ip_address", "ipv4_network", "ipv6_network", "ip_network"]
SUFFIX = ["_ipv4", "_ipv6", "_ip", "_ipv4_net", "_ipv6_net", "_net"]
CHARS = {"char": "", "wchar_t": "L", "char16_t": "u", "char32_t": "U", "char8_t": "u8"}

# ---- generation ------------------------------------------------------------------------------------------------
BLOCKS4 = "0.0.0.0/8 10.0.0.0/8 100.64.0.0/10 127.0.0.0/8 169.254.0.0/16 172.16.0.0/12 192.0.0.0/29 192.0.0.170/31 192.0.2.0/24 192.88.99.0/24 192.168.0.0/16 198.18.0.0/15 198.51.100.0/24 203.0.113.0/24 224.0.0.0/4 240.0.0.0/4 255.255.255.255/32".split()
BLOCKS6 = "::/128 ::1/128 ::ffff:0:0/96 64:ff9b::/96 100::/64 2001::/32 2001::/23 2001:2::/48 2001:db8::/32 2001:10::/28 2002::/16 fc00::/7 fe80::/10 fec0::/10 ff00::/8 4000::/3 8000::/3 e000::/4 f000::/5 f800::/6 fe00::/9".split()


def number(r, bits):
    k = r.randrange(7)
    m = (1 << bits) - 1
    if k == 0:
        return r.randrange(300) & m
    if k == 1:
        return (m - r.randrange(300)) & m
    if k == 2:
        return ((1 << r.randrange(bits)) + r.randrange(5) - 2) & m
    if k == 3:
        return r.getrandbits(bits) & ~((1 << r.randrange(bits)) - 1) & m
    if k == 4:
        return r.getrandbits(bits) >> r.randrange(bits)
    if k == 5 and bits in (32, 128):
        n = (ipaddress.IPv4Network if bits == 32 else ipaddress.IPv6Network)(r.choice(BLOCKS4 if bits == 32 else BLOCKS6))
        lo, hi = int(n.network_address), int(n.broadcast_address)
        return r.choice([lo, hi, (lo - 1) & m, (hi + 1) & m, r.randint(lo, hi)])
    return r.getrandbits(bits)


def scope(r):
    return "".join(r.choice("eth0123456789wlan-_.x") for _ in range(r.choice([1, 1, 2, 3, 4, 5, 8, 12, 16])))


def text4(r):
    return str(ipaddress.IPv4Address(number(r, 32)))


def text6(r):
    a = ipaddress.IPv6Address(number(r, 128))
    k = r.randrange(6)
    if k == 0:
        return a.exploded
    if k == 1:
        return ":".join("%x" % ((int(a) >> s) & 0xffff) for s in range(112, -1, -16))
    if k == 2:
        return a.compressed.upper()
    if k == 3:
        return "::" + r.choice(["", "ffff:", "64:"]) + text4(r)
    if k == 4:
        return ":".join("%x" % r.getrandbits(16) for _ in range(6)) + ":" + text4(r)
    return a.compressed


def net_text(r, ver, host=0):
    """host: one in how many has host bits (0: none)"""
    bits = 32 if ver == 4 else 128
    p = r.randrange(bits + 1)
    v = number(r, bits)
    if not host or r.randrange(host):
        v &= ~((1 << (bits - p)) - 1)
    if ver == 4:
        mask = ((1 << bits) - 1) ^ ((1 << (bits - p)) - 1)
        tail = r.choice([str(p), str(p), str(ipaddress.IPv4Address(mask)), str(ipaddress.IPv4Address(mask ^ 0xffffffff)) if 0 < p < 32 else str(p)])
        return str(ipaddress.IPv4Address(v)) + "/" + tail
    return str(ipaddress.IPv6Address(v)) + (("%" + scope(r)) if r.randrange(8) == 0 else "") + "/" + str(p)


def valid_text(r, typ, host=0):
    six = {0: False, 1: True, 3: False, 4: True}.get(typ, r.randrange(2) == 1)
    if typ < 3:
        return text6(r) + (("%" + scope(r)) if r.randrange(3) == 0 else "") if six else text4(r)
    if r.randrange(6) == 0:
        return text6(r) if six else text4(r)
    return net_text(r, 6 if six else 4, host)


def mutate(r, t):
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(t) + 1)
        k = r.randrange(8)
        c = r.choice(".:/%0123456789abcdefgxF +-,?")
        if k == 0:
            t = t[:i] + c + t[i:]
        elif k == 1:
            t = t[:i] + t[i + 1:]
        elif k == 2:
            t = t[:i] + c + t[i + 1:]
        elif k == 3:
            t = t[:i] + t[i:i + 1] * 2 + t[i + 1:]
        elif k == 4:
            t = t[:i]
        elif k == 5:
            t = t + r.choice([".", ":", "::", "/", "/24", "%", "%a", " ", "0", ".1"])
        elif k == 6:
            t = r.choice([".", ":", "::", "/", "0", " "]) + t
        else:
            t = t[:i] + c * r.randrange(1, 30) + t[i:]
    return t


def source_text(r, typ, host=4):
    k = r.randrange(10)
    if k < 5:
        return valid_text(r, typ, host)[:WIDTH - 1]
    if k < 9:
        return mutate(r, valid_text(r, typ))[:WIDTH - 1]
    return valid_text(r, r.randrange(6))[:WIDTH - 1]


def longest_text(r, typ, full=False):
    """The longest valid text of a type, or (unless full) one shorter."""
    h = lambda n: "".join(r.choice("123456789abcdef") for _ in range(n))
    d = lambda m=255: str(r.randrange(100, m + 1))
    six = {0: False, 1: True, 3: False, 4: True}.get(typ, r.randrange(4) > 0)
    four = ".".join((d(), d(), d(), d()))
    if not six:
        t = four if typ < 3 else ".".join((d(), d(), d(), str(r.randrange(25, 64) * 4))) + "/255.255.255." + r.choice(["252", "252" if full else "248"])
        if typ > 2 and not full and r.randrange(3) == 0:
            t = t[:t.index("/")] + r.choice(["/0.0.0.3", "/30", "/32"])
        return t
    t = ":".join(h(4) for _ in range(6)) + ":" + four + "%" + "".join(r.choice("abcXYZ0189") for _ in range(16))
    if not full and r.randrange(3) == 0:
        t = t[:-1] if r.randrange(2) else t[1:]
    return t if typ < 3 else t + "/128"


def case(r):
    op = r.choice([0, 0, 0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 14, 14, 15, 16])
    n = [0] * 6
    t = ""
    v4 = op in (4, 9) or (op in (6, 11) and r.randrange(2) == 0)
    a, b = number(r, 128), number(r, 128)
    if v4:
        a, b = number(r, 32), number(r, 32)
    if r.randrange(3) == 0:
        b = (a + r.randrange(5) - 2) & ((1 << (32 if v4 else 128)) - 1)
    n[0], n[1], n[2], n[3] = a >> 64, a & M64, b >> 64, b & M64
    n[4], n[5] = r.getrandbits(64), r.getrandbits(64)
    if op < 4:
        typ = r.randrange(6)
        t = source_text(r, typ)
        n = [0, 0, typ, 0, 0, 0]
        if r.randrange(5) == 0 and op:
            n[0], n[1] = r.randrange(len(t) + 1), r.choice([0xd800, 0xdc00, 0xdbff, 0xdfff, 0xe9, 0x80, 0x7ff, 0x800, 0xffff, 0x10ffff, 0x110000, 0x661, 0xff11, 0x130]) & (0xffff if op == 2 else M64)
        elif r.randrange(8) == 0:
            n[0], n[1] = r.randrange(len(t) + 1), r.choice([0xc3, 0x80, 0xe2, 0xf0, 0xff, 1, 9, 0x7f])
    elif op == 6:
        n[4] = (1 if v4 else 0) | (2 if v4 or r.randrange(3) == 0 else 0)
    elif op == 8:
        t = scope(r) if r.randrange(3) else r.choice(["", "0", "4294967295", "4294967296", "007", "1e3", "99999999999", " 1", "a b", "a%b", "a/b"])
        n[1] = n[0] = 0
    elif op in (9, 10, 11):
        bits = 32 if v4 else 128
        p = r.randrange(bits + 1) if r.randrange(3) else r.choice([0, 8, bits - 8, bits - 2, bits - 1, bits])
        q = r.choice([p, p, min(p + r.randrange(4), bits), r.randrange(bits + 1), r.randrange(256)])
        d = r.choice([0, 1, 1, 2, 3, bits - p, r.randrange(bits + 2), r.randrange(256)])
        m = r.choice([p, min(bits, p + r.randrange(6)), max(0, p - r.randrange(6)), r.randrange(256)])
        n[4] = p | q << 8 | (d & 255) << 16 | m << 24
        n[5] = 3 if v4 else 0
        if op == 11 and r.randrange(5) == 0:
            n[5] = 1 if n[5] == 0 else 2
    elif op == 12:
        v4 = r.randrange(2) == 1
        n[5] = (1 if v4 else 0) | (2 if r.randrange(3) == 0 else 0)
        p = r.randrange(33 if v4 else 129)
        n[4] = p | r.choice([0, 1, 2, 3, r.randrange(256)]) << 8
        n[3] = number(r, 32)
    elif op == 15:
        v = number(r, 128)
        t = r.choice([str(v), str(v), "%x" % v, "%o" % v, str((1 << 128) + r.randrange(-3, 4)), "0" * r.randrange(20) + str(v), mutate(r, str(v))])[:60]
        n[0] = n[1] = 0
    elif op == 16:
        t = "".join(r.choice("abcXYZ0129 -_~") for _ in range(r.randrange(0, 40)))
        n[1] = 0
        if r.randrange(3) == 0:
            n[0], n[1] = r.randrange(len(t) + 1), r.choice([0x80, 0xff, 0xc3])
    return {"op": op, "n": n, "t": t}


LONGEST = [15, 62, 62, 31, 66, 66]


def longest_lits(r, std):
    """Every type and character type with the longest text: a literal has a buffer of a size of its own before C++20, one per character type after it."""
    return [{"form": form, "type": t, "char": ch, "t": longest_text(r, t, True)} for form in ("suffix", "array", "view", "param") for t in range(6) for ch in CHARS
            if ch != "char8_t" or (std >= 20 and form != "suffix")]


def lit(r, std):
    typ = r.randrange(6)
    chars = [c for c in CHARS if c != "char8_t" or std >= 20]
    ch = r.choice(chars) if r.randrange(2) else "char"
    if r.randrange(4) == 0:
        if typ == 0 and r.randrange(3) == 0:
            return {"form": "number", "type": 0, "char": "char", "t": text4(r)}
        if ch == "char8_t":
            ch = "char"
        return {"form": "direct", "type": typ, "char": ch, "t": valid_text(r, typ)[:WIDTH - 1]}
    forms = ["array", "view", "param", "suffix"] + (["loose", "looseview", "looseparam"] if typ > 2 else [])
    form = r.choice(forms)
    if ch == "char8_t" and (form == "suffix" or std < 20):
        ch = "char"
    t = source_text(r, typ, 2 if form.startswith("loose") else 4)
    if r.randrange(6) == 0:
        t = longest_text(r, typ)
    # before C++20 a literal has a buffer of the longest canonical text; parse() at run time takes any number of zeros before a prefix length
    while form == "suffix" and std < 20 and len(t) > LONGEST[typ] and re.search("/0[0-9]", t):
        t = source_text(r, typ)
    # characters beyond one byte, mostly ones whose low bits are the character they replace: never a constant
    if r.randrange(6) == 0:
        if r.randrange(3):
            t = valid_text(r, typ)[:WIDTH - 6]
            ch = r.choice(["wchar_t", "char16_t", "char32_t", "char32_t"])
        if t:
            i = r.randrange(len(t))
            t = t[:i] + chr(ord(t[i]) % 128 + r.choice([0x100, 0x1000, 0x10000, 0x10000, 0x30000, 0xff00, 0x100000, 0x200])) + t[i + (r.randrange(4) > 0):][:WIDTH - 6 - i]
    return {"form": form, "type": typ, "char": ch, "t": t}


# ---- tables --------------------------------------------------------------------------------------------------------
def quote(t, prefix=""):
    o = ""
    for c in t:
        if ord(c) > 255:  # in narrow text this is the UTF-8 sequence
            o += "\\U%08x" % ord(c)
            continue
        o += "\\%03o" % ord(c) if c in '"\\?' or ord(c) < 32 or ord(c) > 126 else c
    return prefix + '"' + o + '"'


def c_case(i, c):
    return "constexpr In i%d{%d, {%s}, %s}; constexpr Obs o%d = run(i%d);" % (i, c["op"], ", ".join("%dull" % x for x in c["n"]), quote(c["t"]), i, i)


def c_lit(i, l):
    t, typ, form = l["t"], TYPES[l["type"]], l["form"]
    if form == "number":
        return "constexpr auto d%d = %d_ipv4; constexpr ConstantCheck c%d{1, obs(d%d)};" % (i, int(ipaddress.IPv4Address(t)), i, i)
    if form == "direct":
        return "constexpr auto d%d = %s%s; constexpr ConstantCheck c%d{1, obs(d%d)};" % (i, quote(t, CHARS[l["char"]]), SUFFIX[l["type"]], i, i)
    f = {"array": "FArray<%s>", "view": "FView<%s>", "param": "FParam<%s>", "loose": "FLoose<%s>", "looseview": "FLooseView<%s>", "looseparam": "FLooseParam<%s>"}.get(form)
    f = f % typ if f else "Suffix%d" % l["type"]
    return "static constexpr %s t%d[] = %s; constexpr ConstantCheck c%d = constant<%s, %s, sizeof t%d / sizeof *t%d, t%d>();" % (
        l["char"], i, quote(t, CHARS[l["char"]]), i, f, l["char"], i, i, i)


def narrow(l):
    """The narrow text of a literal for the run-time half. Text of another character type with anything beyond ASCII has none: it must be refused, and so is the empty text."""
    return "" if l["char"] != "char" and max(map(ord, l["t"] + "0")) > 127 else l["t"]


def table(cases, lits):
    lines = ['#include "ct.hpp"', "using namespace ct;"]
    lines += [c_case(i, c) for i, c in enumerate(cases)]
    lines += [c_lit(i, l) for i, l in enumerate(lits)]
    lines.append("static constexpr In ins[] = {%s In{}};" % "".join("i%d, " % i for i in range(len(cases))))
    lines.append("static constexpr Obs outs[] = {%s Obs{}};" % "".join("o%d, " % i for i in range(len(cases))))
    lines.append("static constexpr Lit lits[] = {%s Lit{}};" % "".join(
        "Lit{%d, %d, \"%s\", %s, c%d.ok, c%d.o}, " % (l["type"], 0 if l["form"].startswith("loose") else 1, name(l), quote(narrow(l)), i, i) for i, l in enumerate(lits)))
    lines.append("extern const Table table; const Table table{ins, outs, %d, lits, %d};" % (len(cases), len(lits)))
    return "\n".join(lines) + "\n"


def name(l):
    return "%s of %s, %s text" % (l["form"], TYPES[l["type"]], l["char"])


def inc():
    return ["-w", "-I" + os.path.join(K.REPO, "include"), "-I" + CT]


def runtime(cfg, work):
    """Compiles the run-time half; returns (object, log)."""
    out = os.path.join(work, cfg + ".rt.o")
    cmd = CONFIGS[cfg] + RUNTIME + inc() + ["-c", os.path.join(CT, "rt.cpp"), "-o", out]
    r = K.sh(cmd, timeout=800)
    return (out if r.returncode == 0 else None), "$ " + " ".join(cmd) + "\n" + r.stdout


def evaluate(cfg, rt, cases, lits, work, tag):
    """Returns (failures, marks): failures = [(kind, index, text)], kind 'case' or 'lit'."""
    base = os.path.join(work, "%s.%s" % (cfg, tag))
    fails = []
    live_c, live_l = list(range(len(cases))), list(range(len(lits)))
    while True:
        src, exe = base + ".cpp", base + ".exe"
        with open(src, "w") as f:
            f.write(table([cases[i] for i in live_c], [lits[i] for i in live_l]))
        r = K.sh(CONFIGS[cfg] + ["-O0"] + inc() + [src, rt, "-o", exe], timeout=800)
        if r.returncode == 0:
            break
        bad = {}
        errors = r.stdout.splitlines()
        for k, line in enumerate(errors):
            m = re.search(re.escape(os.path.basename(src)) + r":(\d+)", line)
            if m:
                no = int(m.group(1)) - 3
                if 0 <= no < len(live_c) + len(live_l):
                    bad.setdefault(no, "\n".join(x[:300] for x in errors[k:k + 6]))
        if not bad:
            raise RuntimeError("constant table does not compile:\n" + r.stdout[-4000:])
        nc = len(live_c)
        for no, text in sorted(bad.items()):
            fails.append(("case", live_c[no], "not a constant expression\n" + text) if no < nc else ("lit", live_l[no - nc], "not a constant expression\n" + text))
        live_c, live_l = [x for i, x in enumerate(live_c) if i not in bad], [x for i, x in enumerate(live_l) if nc + i not in bad]
        if not live_c and not live_l:
            return fails, ("", "")
    r = K.sh([exe], timeout=600)
    m = re.search(r"DONE (\d+) (\d+) ([01]*)\. ([01]*)\.", r.stdout)
    out = r.stdout.splitlines()
    for k, line in enumerate(out):
        d = re.match(r"DIFFERS (L?)(\d+) ", line)
        if d:
            idx = int(d.group(2))
            fails.append(("lit" if d.group(1) else "case", (live_l if d.group(1) else live_c)[idx], "\n".join(out[k:k + 3])))
    if not m and not fails:
        raise RuntimeError("run-time half failed (exit %d):\n%s" % (r.returncode, r.stdout[-3000:]))
    for x in (base + ".cpp", base + ".exe"):
        os.path.exists(x) and os.remove(x)
    if not m:
        return fails, ("", "")
    mc, ml = ["0"] * len(cases), ["0"] * len(lits)
    for i, x in zip(live_c, m.group(3)):
        mc[i] = x
    for i, x in zip(live_l, m.group(4)):
        ml[i] = x
    return fails, ("".join(mc), "".join(ml))


def simpler(kind, x):
    res = []
    t = x["t"]
    if kind == "case":
        for i in range(6):
            for v in (0, 1, x["n"][i] >> 32, x["n"][i] >> 8, x["n"][i] & 0xffffffff, x["n"][i] & ~0xffff):
                if v < x["n"][i]:
                    res.append(dict(x, n=x["n"][:i] + [v] + x["n"][i + 1:]))
    if kind == "case" or x["form"] not in ("direct", "number"):
        cuts = {t[:len(t) // 2], t[len(t) // 2:]} | {t[:i] + t[i + 1:] for i in range(len(t))} | {t[:i] + "0" + t[i + 1:] for i in range(len(t)) if t[i] not in "0.:/%"}
        res += [dict(x, t=c) for c in sorted(cuts, key=lambda c: (len(c), c)) if c != t]
    return res


def shrink(cfg, rt, kind, x, text, work):
    for rnd in range(12):
        cand = simpler(kind, x)
        if not cand:
            break
        fails, _ = evaluate(cfg, rt, cand if kind == "case" else [], cand if kind == "lit" else [], work, "s%d" % rnd)
        fails = sorted((f for f in fails if f[0] == kind), key=lambda f: (len(cand[f[1]]["t"]), sum(cand[f[1]].get("n", []))))
        if not fails:
            break
        x, text = cand[fails[0][1]], fails[0][2]
    return x, text


def describe(kind, x):
    ops = ["parse char", "parse wchar_t", "parse char16_t", "parse char32_t", "ipv4_address", "ipv6_address", "ip_address", "from_bytes", "scope ids", "ipv4_network", "ipv6_network", "ip_network",
           "address_exclude", "host iterators", "uint128_t", "uint128_t from text", "fixed_string, byte_array, optional"]
    return "%s n=%s text=%r" % (ops[x["op"]], x["n"], x["t"]) if kind == "case" else "%s: %r" % (name(x), x["t"])


def stds(cfg):
    return int(re.search(r"c\+\+(\d+)", " ".join(CONFIGS[cfg])).group(1))


def run(chk):
    quick = K.TIER != "thorough"
    cfgs = QUICK if quick else list(CONFIGS)
    chunks, ncase, nlit = (4, 550, 180) if quick else (60, 600, 250)
    with cf.ThreadPoolExecutor(K.NCPU) as ex:
        rts = dict(zip(cfgs, ex.map(lambda c: runtime(c, chk.work), cfgs)))
        for c in cfgs:
            if rts[c][0] is None:
                d = {"property": "P26", "config": c, "kind": "compile", "output": rts[c][1][-4000:]}
                raise K.Violation(K.write_replay("P26", d), "does not compile as constant expressions in %s\n%s" % (c, rts[c][1][-3000:]))

        def one(job):
            c, k = job
            r = random.Random("P26/%d/%s/%d" % (K.SEED, c, k))
            cases, lits = [case(r) for _ in range(ncase)], [lit(r, stds(c)) for _ in range(nlit)]
            if k == chunks - 1:
                lits += longest_lits(r, stds(c))
            return c, cases, lits, evaluate(c, rts[c][0], cases, lits, chk.work, "t%d" % k)
        found = None
        for c, cases, lits, (fails, marks) in ex.map(one, [(c, k) for k in range(chunks) for c in cfgs]):
            s = chk.stats
            s["evaluations"] += len(cases) + len(lits)
            s["configs"][c] = s["configs"].get(c, 0) + len(cases) + len(lits)
            for kind, xs, m in (("case", cases, marks[0]), ("lit", lits, marks[1])):
                for x, b in zip(xs, m):
                    lab = kind + " " + (str(x["op"]) if kind == "case" else x["form"])
                    s["labels"][lab] = s["labels"].get(lab, 0) + 1
                    if b == "1":
                        s["nontrivial"] += 1
                        chk.hashes.add(hashlib.sha1(json.dumps([kind, x], sort_keys=True).encode()).digest()[:8])
                        if len(s["samples"]) < 24 and s["nontrivial"] % 97 == 1:
                            s["samples"].append(c + ": " + describe(kind, x))
            if fails and found is None:
                found = (c, fails[0], (cases if fails[0][0] == "case" else lits)[fails[0][1]])
    if found:
        c, (kind, _, text), x = found
        x, text = shrink(c, rts[c][0], kind, x, text, chk.work)
        text = "CASE %s %s\n%s" % (c, describe(kind, x), text)
        d = {"property": "P26", "config": c, "kind": kind, "case": x, "seed": K.SEED, "output": text}
        raise K.Violation(K.write_replay("P26", d), text)


def replay(d):
    os.makedirs(os.path.join(K.VERIF, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(K.VERIF, "build"))
    try:
        rt, log = runtime(d["config"], work)
        if rt is None:
            print(log[-5000:])
            print("REPRODUCED (does not compile)")
            return 1
        if d["kind"] == "compile":
            print("HOLDS (compiles)")
            return 0
        fails, _ = evaluate(d["config"], rt, [d["case"]] if d["kind"] == "case" else [], [d["case"]] if d["kind"] == "lit" else [], work, "r")
        print(describe(d["kind"], d["case"]))
        for f in fails:
            print(f[2])
        print("REPRODUCED" if fails else "HOLDS")
        return 1 if fails else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
