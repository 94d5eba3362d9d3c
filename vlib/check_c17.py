"""C17: which functions are mocked. Every short history of declarations of the model, packed into headers; random longer ones;
independence of the mocks from what else is selected."""
import itertools, json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from common import Broken, JOBS, SPEC, Tree, run, scratch, tlc, tlc_prints
from cgen import HdrGen
import conform

NORET = ("noret", "noretkw", "noretmac")


def declare(n, k, void, rng):
    t = "void" if void else "int"
    p = rng.choice(["int x", "int", "int y", "const int x"])
    q = "int x"
    body = "{ for(;;) ; }" if void else "{ return x; }"
    return {
        "proto": "%s %s(%s);" % (t, n, p), "extern": "extern %s %s(%s);" % (t, n, p), "noproto": "%s %s();" % (t, n),
        "alias": "#define al_%s %s\n%s al_%s(%s);" % (n, n, t, n, p), "paren": "%s (%s)(%s);" % (t, n, p),
        "typedefd": "em_fn_%s %s;" % (t, n), "weak": "__attribute__((weak)) %s %s(%s);" % (t, n, p),
        "noret": rng.choice(["%s %s(%s) __attribute__((noreturn));", "__attribute__((noreturn)) %s %s(%s);", "__attribute__((__noreturn__)) %s %s(%s);",
                             "%s %s(%s) __attribute__((cold, noreturn));"]) % (t, n, p),
        "noretkw": "_Noreturn %s %s(%s);" % (t, n, p),
        "noretmac": rng.choice(["EM_NR %s %s(%s);", "%s %s(%s) EM_NR;"]) % (t, n, p),
        "def": "%s %s(%s) %s" % (t, n, q, body), "inldef": "inline %s %s(%s) %s" % (t, n, q, body), "inlproto": "inline %s %s(%s);" % (t, n, p),
        "externinl": "extern inline %s %s(%s) %s" % (t, n, q, body), "static": "static %s %s(%s);" % (t, n, p),
        "statdef": "static %s %s(%s) %s" % (t, n, q, body), "statinl": rng.choice(["static inline", "static __inline__", "inline static"]) + " %s %s(%s) %s" % (t, n, q, body),
        "mself": "#define %s %s" % (n, n), "mfun": "#define %s(x) ((x) + 1)" % n, "undef": "#undef " + n}[k]


class Pack:
    """A header made of many functions, each with its own history."""

    def __init__(self, hists, rng, opts, arrange="columns"):
        self.opts = opts
        self.hists = hists                      # name -> [(kind, file)]
        self.files = {}
        T = max(len(h) for h in hists.values())
        main = ["#ifndef PACK_H", "#define PACK_H", "typedef int em_fn_int(int);", "typedef void em_fn_void(int);", "#define EM_NR __attribute__((noreturn))"]
        for t in range(T):
            parts = {"main": [], "inc": [], "deep": [], "sub": []}
            names = list(hists)
            rng.shuffle(names)
            for n in names:
                h = hists[n]
                if t < len(h):
                    k, f = h[t]
                    parts[f].append(declare(n, k, any(x in NORET for x, _ in h), rng))
            inc, deep, sub = "inc%d.h" % t, "d/deep%d.h" % t, "s%d/h.h" % t
            self.files[deep] = parts["deep"]
            self.files[inc] = ['#include "%s"' % deep] + parts["inc"] if rng.random() < 0.5 else parts["inc"] + ['#include "%s"' % deep]
            self.files[sub] = parts["sub"]
            blocks = [['#include "%s"' % inc], ['#include "%s"' % sub], parts["main"]]
            rng.shuffle(blocks)
            for b in blocks:
                main += b
        self.files["h.h"] = main + ["#endif"]

    def text(self):
        return {n: "\n".join(v) + "\n" for n, v in self.files.items()}


def args_of(o):
    a = []
    if o["types"]:
        a.append("--generate-types")
    if o["incl"]:
        a.append("--generate-included-functions")
    for n in o["only"]:
        a += ["--mock-only", n]
    for n in o["ign"]:
        a += ["--ignore-generation-of", n]
    return a


def execute(tree, pack, rng, keep=None):
    d = scratch("sel")
    for n, t in pack.text().items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    od = os.path.join(d, "out")
    os.makedirs(od)
    o = pack.opts
    a = args_of(o)
    if o.get("late"):
        a = a[::-1] if not (o["only"] or o["ign"]) else a
    hdr = os.path.join(d, "h.h")
    p = run([tree.gen, "-i", "h.h", "-o", "out"] + a, cwd=d)
    e = {"op": "sel", "names": {n: [{"k": k, "f": f} for k, f in h] for n, h in pack.hists.items()}, "types": o["types"], "incl": o["incl"],
         "only": o["only"], "ign": o["ign"], "exit": p.returncode, "compiles": False, "mocked": [], "changed": [], "err": p.stderr[-300:]}
    if p.returncode == 0:
        obj = os.path.join(od, "m.o")
        cmd = ["gcc", "-c", "-w", "-I", tree.inc, "-I", od, os.path.join(od, "easyMock_h.c"), "-o", obj]
        if not o["types"]:
            cmd[3:3] = ["-I", d]
        q = run(cmd)
        e["compiles"] = q.returncode == 0
        if q.returncode:
            e["err"] = "\n".join(x for x in q.stderr.splitlines() if "error" in x)[:600]
        else:
            syms = set()
            for line in run(["nm", "--defined-only", obj]).stdout.splitlines():
                w = line.split()
                if w[1] in "TW":
                    syms.add(w[2])
            for n in pack.hists:
                if n + "_ExpectAndReturn" in syms:
                    e["mocked"].append(n)
                    if n not in syms:
                        e["compiles"] = False
                        e["err"] = "%s has expectations but is not defined" % n
    if e["exit"] == 0 and e["compiles"] and not keep:
        shutil.rmtree(d, ignore_errors=True)
    else:
        e["dir"] = d
    return e


def histories(out):
    hs = []
    for body in tlc_prints(out, "HIST"):
        hs.append([tuple(x.split(":")) for x in body.split(",")])
    return hs


def options(rng, names, types=None, incl=None):
    o = {"types": rng.random() < 0.3 if types is None else types, "incl": rng.random() < 0.5 if incl is None else incl, "only": [], "ign": []}
    r = rng.random()
    if r < 0.45:
        o["only"] = rng.sample(names, rng.randint(1, len(names)))
    if rng.random() < 0.45:
        o["ign"] = rng.sample(names, rng.randint(1, max(1, len(names) // 2)))
    if rng.random() < 0.2:
        o["only" if o["only"] else "ign"].append("not_there")
    return o


def newname(i, rng):
    # names that contain one another, and differ in one character only
    return rng.choice(["fn%s", "fn%s_x", "x_fn%s", "Fn%s"]) % "".join("abcdefghij"[int(c)] for c in "%03d" % i)


def blocks(text):
    """Top-level pieces of clang's -ast-print output."""
    out, cur = [], []
    for line in text.splitlines():
        cur.append(line)
        if line == "}" or (line and not line[0].isspace() and line.endswith(";")) or line.startswith("} "):
            out.append("\n".join(cur))
            cur = []
    out.append("\n".join(cur))
    return out


def pieces(tree, d, od, fns):
    p = run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-print", "-I", d, "-I", tree.inc, "-I", od, os.path.join(od, "easyMock_h.c")])
    if p.returncode:
        return None, "\n".join(x for x in p.stderr.splitlines() if "error" in x)[:400]
    res = {}
    pats = {f: re.compile(r"(?<![A-Za-z0-9_])%s(_Expect[A-Za-z]+)?\(" % re.escape(f)) for f in fns}
    for b in blocks(p.stdout):
        head = b.split("{")[0]
        hit = [f for f in fns if pats[f].search(head)]
        if len(hit) == 1:
            b = re.sub(r"\((unnamed|anonymous)[^)]*\)", "(unnamed)", b)
            order = {}
            b = re.sub(r"easymock_param\d+", lambda m: "easymock_param_%d" % order.setdefault(m.group(0), len(order)), b)
            res.setdefault(hit[0], []).append(b)
    return {f: "\n".join(v) for f, v in res.items()}, None


def independence(tree, seed, flags):
    """The mock of a function is the same whatever else is mocked with it."""
    rng = random.Random(seed)
    h = HdrGen(rng, "i%d" % (seed % 1000)).header("h", rng.randint(3, 8))
    fns = [f.name for f in h.fns]
    d = scratch("ind")
    with open(os.path.join(d, "h.h"), "w") as f:
        f.write(h.text())
    sels = [[]] + [["--mock-only", n] for n in fns]
    for _ in range(3):
        s = rng.sample(fns, rng.randint(1, len(fns)))
        sels.append([x for n in s for x in (rng.choice(["--mock-only"]), n)])
        s = rng.sample(fns, rng.randint(1, len(fns) - 1))
        sels.append([x for n in s for x in ("--ignore-generation-of", n)])
    seen, lines = {}, []
    for i, s in enumerate(sels):
        od = os.path.join(d, "o%d" % i)
        os.makedirs(od)
        only = [s[j + 1] for j in range(0, len(s), 2) if s[j] == "--mock-only"]
        ign = [s[j + 1] for j in range(0, len(s), 2) if s[j] != "--mock-only"]
        e = {"op": "sel", "names": {n: [{"k": "proto", "f": "main"}] for n in fns}, "types": False, "incl": False, "only": only, "ign": ign,
             "exit": 0, "compiles": True, "mocked": [], "changed": [], "err": ""}
        p = run([tree.gen, "-i", "h.h", "-o", od] + s + flags, cwd=d)
        e["exit"] = p.returncode
        if p.returncode == 0:
            ps, err = pieces(tree, d, od, fns)
            if ps is None:
                e["compiles"], e["err"] = False, err
            else:
                for n in fns:
                    t = ps.get(n, "")
                    if re.search(r"\b%s_ExpectAndReturn\([^;]*\)\s*\{" % re.escape(n), t):
                        e["mocked"].append(n)
                        if n in seen and seen[n] != t:
                            e["changed"].append(n)
                        seen.setdefault(n, t)
        e["header"] = h.text() if (e["changed"] or not e["compiles"] or e["exit"]) else ""
        lines.append(e)
    shutil.rmtree(d, ignore_errors=True)
    return lines


def check(c):
    tree = Tree()
    depth = 3 if c.thorough else 2
    cfg = open(os.path.join(SPEC, "MCSelection.cfg")).read().replace("MaxEvents = 2", "MaxEvents = %d" % depth)
    out, st = tlc("MCSelection", cfg_text=cfg, workers=JOBS, extra=["-deadlock"], timeout=800, heap="6g")
    c.cov["states"], c.cov["transitions"], c.cov["model_depth"] = st["distinct"], st["generated"], depth
    hs = histories(out)
    if len(hs) < 500:
        raise Broken("the model emitted only %d histories" % len(hs))
    c.cov["model_histories"] = len(hs)
    # deeper ones by simulation
    out, _ = tlc("MCSelection", cfg_text=re.sub(r"INVARIANT (?!EmitAll)\w+", "", cfg.replace("MaxEvents = %d" % depth, "MaxEvents = 6")), workers=1,
                 extra=["-deadlock", "-simulate", "num=%d" % (1500 if c.thorough else 150), "-depth", "7", "-seed", str(c.seed)], timeout=800)
    deep = [h for h in histories(out) if len(h) > depth]
    rng = c.rng
    deep = rng.sample(deep, min(len(deep), 60000 if c.thorough else 6000))
    c.cov["simulated_histories"] = len(deep)
    packs = []
    combos = [(t, i) for t in (False, True) for i in (False, True)]

    def pack(hists, **kw):
        names = []
        for i in range(len(hists)):
            n = newname(i, rng)
            names.append(n)
        hh = dict(zip(names, hists))
        packs.append(Pack(hh, random.Random(rng.random()), options(rng, names, **kw)))
    rng.shuffle(hs)
    size = 40
    for t, i in combos:
        for k in range(0, len(hs), size):
            pack(hs[k:k + size], types=t, incl=i)
    for k in range(0, len(deep), size):
        pack(deep[k:k + size])
    # small headers: option parsing around one or two functions
    for _ in range(400 if c.thorough else 120):
        pack([rng.choice(hs) for _ in range(rng.randint(1, 4))])
    with ThreadPoolExecutor(JOBS) as ex:
        lines = list(ex.map(lambda p: execute(tree, p, None), packs))
        npack = len(lines)
        jobs = [(rng.randrange(1 << 30), fl) for fl in ([], ["--generate-comparator-of", "EasyMock_all_comparators"]) for _ in range(60 if c.thorough else 12)]
        for ls in ex.map(lambda j: independence(tree, *j), jobs):
            lines += ls
    for i, e in enumerate(lines):
        if e["exit"] < 0 or e["exit"] >= 126:
            c.violation("EasyMockGenerate dies (status %d): %s" % (e["exit"], e["err"]), slim(e, packs, i), key="signal")
    mm, st2 = conform.validate("TraceSelection", lines, minchunk=60)
    for i, want in mm[:20]:
        e = lines[i]
        c.violation("mocked functions: exit %d, compiles %s (%s), missing %s, surplus %s, changed by the selection of others %s" % (
            e["exit"], e["compiles"], e["err"], [(n, e["names"].get(n)) for n in list(want["missing"])[:4]],
            [(n, e["names"].get(n)) for n in list(want["surplus"])[:4]], e["changed"]), dict(slim(e, packs, i), want=want),
            key="sel:" + ";".join(sorted(",".join("%(k)s:%(f)s" % x for x in e["names"].get(n, [])) for n in list(want["missing"]) + list(want["surplus"]))[:3]))
    c.cov.update({"headers": len(lines), "functions": sum(len(e["names"]) for e in lines), "mocked": sum(len(e["mocked"]) for e in lines),
                  "independence_runs": len(lines) - npack, "traces_validated_against_impl": len(lines)})
    if not c.violations:
        def corrupt(e):
            if e["mocked"]:
                e["mocked"] = e["mocked"][1:]
            else:
                e["compiles"] = False
            return e
        c.cov["selftest_corrupted"] = conform.selftest("TraceSelection", lines[:6], corrupt)
    e = lines[0]
    c.sample({"functions": len(e["names"]), "one": list(e["names"].items())[0], "types": e["types"], "incl": e["incl"], "mocked": e["mocked"][:5]})
    c.sample({"deep": deep[0] if deep else None})
    c.assumptions += ["headers are read by the compiler the way gcc reads them", "names of functions are ordinary identifiers"]


def slim(e, packs, i):
    r = {k: e[k] for k in ("types", "incl", "only", "ign", "exit", "err", "compiles", "mocked", "changed")}
    if i < len(packs):
        r["files"] = packs[i].text()
        r["args"] = args_of(packs[i].opts)
    else:
        r["header"] = e.get("header")
    return r
