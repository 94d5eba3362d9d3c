"""C16: the exit status of EasyMockGenerate. Generate.tla against recorded runs, every situation of the model replayed."""
import hashlib, json, os, random, re, resource, shutil, signal, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import Broken, JOBS, SPEC, Tree, run, scratch, tlc
from cgen import HdrGen
import conform

OPTS = {"plain": ([], False, "c"), "types": (["--generate-types"], False, "c"), "ign": (["--ignore-parser-error"], True, "c"),
        "cpp": (["--mock-cpp"], False, "cpp"), "tcmp": (["--generate-types", "--generate-comparator-of", "EasyMock_all_comparators"], False, "c"),
        "ignt": (["--ignore-parser-error", "--generate-types"], True, "c"), "cmp": (["--generate-comparator-of", "EasyMock_all_comparators"], False, "c")}


class Case:
    """One run, starting from a prepared situation in a directory of its own."""

    def __init__(self, tree, text, hdr="ok", parses=True, opt="plain", name="h.h", hform="plain", oform="plain",
                 out="ok", c="absent", h="absent", limit=None, extra=(), env=None, key=None, stdout=None, tamper=None):
        self.__dict__.update(locals())


def digest(s):
    return hashlib.sha256(s).hexdigest()[:20]


def execute(k, sizes=None):
    base = scratch("g")
    d = os.path.join(base, "w")
    os.makedirs(d)
    stem = k.name.rsplit(".", 1)[0]
    args, ign, ext = OPTS[k.opt]
    # the header
    hp = os.path.join(d, k.name)
    arg = k.name
    if k.hform == "abs":
        arg = hp
    elif k.hform == "sub":
        os.makedirs(os.path.join(d, "in"))
        hp = os.path.join(d, "in", k.name)
        arg = "in/" + k.name
    elif k.hform == "dot":
        arg = "./" + k.name
    elif k.hform == "updown":
        os.makedirs(os.path.join(d, "in"))
        arg = "in/../" + k.name
    real = hp
    if k.hform == "link":
        os.makedirs(os.path.join(d, "real"))
        real = os.path.join(d, "real", "other_name.h")
        os.symlink(real, hp)
    if k.hdr == "dir":
        os.makedirs(hp)
    elif k.hdr == "dangling":
        os.symlink(os.path.join(d, "nothere"), hp)
    elif k.hdr != "missing":
        with open(real, "w") as f:
            f.write(k.text)
    before = k.text if k.hdr not in ("missing", "dir", "dangling") else None
    # the output directory
    od = os.path.join(d, "out")
    if k.out == "ok":
        os.makedirs(od)
    elif k.out == "file":
        open(od, "w").close()
    cf, hf = os.path.join(od, "easyMock_%s.%s" % (stem, ext)), os.path.join(od, "easyMock_%s.h" % stem)
    if k.out == "ok":
        for p, st in ((cf, k.c), (hf, k.h)):
            if st == "isdir":
                os.makedirs(p)
            elif st == "full":
                os.symlink("/dev/full", p)
            elif st != "absent":
                with open(p, "w") as f:
                    f.write({"stale": "stale content\n" * 3, "partial": "// MIT Lic", "content": "/* other run */\n" + "x" * 300000 + "\n"}[st])
    oarg = {"plain": "out", "slash": "out/", "abs": od, "dot": "./out", "cwd": None}[k.oform]
    cwd = d
    if k.oform == "cwd":
        oarg, arg, cwd = ".", hp, od
        if k.out != "ok":
            oarg, arg, cwd = "out", arg, d
    def pre():
        if k.limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k.limit, k.limit))
    tool = k.tree.gen
    cmd = [tool, "-i", arg, "-o", oarg] + args + list(k.extra)
    if k.tamper:
        # what the run finds is (nearly) what it has to write
        what, at = k.tamper
        if what == "rename":
            with open(real, "w") as f:
                f.write(re.sub(r"\bfn", "fm", k.text))
        run(cmd, cwd=cwd, env=k.env, binary=True)
        if what == "rename":
            with open(real, "w") as f:
                f.write(k.text)
        for p in (cf, hf):
            if os.path.isfile(p) and what not in ("same", "rename"):
                with open(p, "rb") as f:
                    b = f.read()
                i = int(at * (len(b) - 1)) if b else 0
                b = {"flip": b[:i] + bytes([b[i] ^ 1]) + b[i + 1:] if b else b, "append": b + b"int surplus;\n", "cut": b[:i], "swapend": b[:-1] + b" " if b else b}[what]
                with open(p, "wb") as f:
                    f.write(b)
            if os.path.isfile(p) and at > .5:
                os.utime(p, (4000000000, 4000000000))
    p = run(cmd, cwd=cwd, env=k.env, binary=True, preexec_fn=pre)
    err = p.stderr.decode("utf-8", "replace") if p.returncode != 124 else ""     # (a run without end says nothing)

    def cont(path):
        if os.path.islink(path) or not os.path.isfile(path):
            return b""
        with open(path, "rb") as f:
            return f.read()
    cb, hb = cont(cf), cont(hf)
    rec = {"op": "run", "hdr": k.hdr, "parses": k.parses, "ign": ign, "opt": k.opt, "out": k.out, "c": k.c, "h": k.h, "short": False,
           "exit": p.returncode, "diag": bool(err.strip()), "cmd": " ".join(cmd[1:]), "limit": k.limit if k.limit is not None else -1, "tamper": list(map(str, k.tamper or []))}
    norm = lambda b: digest(b.replace(base.encode(), b"@")) if b else ""
    rec["ccont"], rec["hcont"] = norm(cb), norm(hb)
    rec["sizes"] = [len(cb), len(hb)]
    if k.limit is not None:
        rec["short"] = k.limit < max(sizes)
    if before is None:
        rec["hdrsame"] = not os.path.isfile(real)
    else:
        with open(real) as f:
            rec["hdrsame"] = f.read() == before
    others = []
    for r, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(r, f)
            if q not in (cf, hf, hp, real) and not (k.out == "file" and q == od):
                others.append(os.path.relpath(q, d))
    rec["others"] = sorted(others)
    rec["key"] = "|".join([k.key or digest(k.text.encode()), k.opt, k.name, k.hform, " ".join(sorted(k.extra))])
    rec["stderr"] = err[-300:]
    # complete: it compiles
    rec["complete"] = bool(cb and hb)
    # (whether the types of --generate-types are right is C19's business)
    if rec["complete"] and p.returncode == 0 and not ign and k.name == "h.h" and ext == "c" and (k.opt in ("plain", "cmp") or k.key == "v2"):
        mark = (rec["ccont"], rec["hcont"])
        if mark not in COMPILED:
            comp = ["gcc", "-w"] if ext == "c" else ["g++", "-std=c++17", "-w"]
            q = run(comp + ["-fsyntax-only", "-I", d, "-I", os.path.dirname(hp), "-I", od, "-I", k.tree.inc, cf])
            COMPILED[mark] = q.returncode == 0
            if q.returncode:
                rec["compile"] = q.stderr[-500:]
        rec["complete"] = COMPILED[mark]
    shutil.rmtree(base, ignore_errors=True)
    return rec


COMPILED = {}


def situations(text):
    sits = set()
    for m in re.finditer(r'<<\s*"RUN",\s*"(\w+)",\s*"(\w+)",\s*"(\w+)",\s*"(\w+)",\s*"(\w+)"\s*>>', text):
        sits.add(m.groups())
    return sorted(sits)


def check(c):
    tree = Tree()
    COMPILED.clear()
    out, st = tlc("MCGenerate", workers=JOBS, extra=["-deadlock"], timeout=600)
    c.cov["states"], c.cov["transitions"] = st["distinct"], st["generated"]
    sits = situations(out)
    if len(sits) < 500:
        raise Broken("the model emitted only %d situations" % len(sits))
    rng = c.rng
    texts = {"v1": HdrGen(random.Random(rng.random()), "a").header("h", 4).text(),
             "v2": "#ifndef H_H\n#define H_H\ntypedef struct { int a; } T;\nint only(T *t, const char *s);\n#endif\n"}
    texts["b1"] = "int fine(int a);\nint broken(int a;;\nstruct {\n"
    texts["b2"] = '#include "not_there.h"\nint fine(int a);\n'
    cases = []
    quota = len(sits)
    for hdr, o, cs, hs, opt in (sits if len(sits) <= quota else rng.sample(sits, quota)):
        cases.append(Case(tree, texts.get(hdr, ""), hdr if hdr in ("missing", "dir") else "ok", hdr[0] == "v", opt, out=o, c=cs, h=hs, key=hdr))
    nsit = len(cases)
    # names of headers, ways to name the header and the directory
    names = ["x.h", "a-b.h", "a.b.h", "noext", "x.hpp", "UPPER.H", "x1_2.h", "sp ace.h", "easyMock_x.h", "x.h.h", "a+b.h"]
    for n in names:
        for hform in ("plain", "abs", "sub", "dot", "updown", "link"):
            cases.append(Case(tree, texts["v2"], opt=rng.choice(["plain", "types", "cpp"]) if "." in n and n[-1] in "hHp" else "plain", name=n, hform=hform,
                              oform=rng.choice(["plain", "slash", "abs", "dot", "cwd"]), c=rng.choice(["absent", "stale", "content"]), h=rng.choice(["absent", "stale", "content"]),
                              extra=["-xc"] if n == "noext" or n.endswith("H") else []))
    # more ways to fail
    bad = {"undeclared": "int f(unknown_t a);\n", "error": "#error no\nint f(void);\n", "unterminated": "#if 1\nint f(void);\n", "dup": "int f(int);\nchar f(int);\n",
           "garbage": "\x01\x02 @@@\n"}
    for kk, t in bad.items():
        for opt in ("plain", "types", "ign", "ignt"):
            if kk == "garbage" and OPTS[opt][1]:
                continue
            cases.append(Case(tree, t, parses=False, opt=opt, key=kk))
    for opt in ("plain", "types"):
        cases.append(Case(tree, "#warning careful\nint f(void);\n", opt=opt, key="warn"))
        cases.append(Case(tree, "", opt=opt, key="empty"))
        cases.append(Case(tree, texts["v2"], hdr="dangling", opt=opt))
    # the same header and options, however often and in whatever surroundings
    gens = []
    for i in range(60 if c.thorough else 12):
        h = HdrGen(random.Random(rng.random()), "d%d" % i).header("h", 8)
        gens.append(h.text())
        only = [f.name for f in h.fns]
        for opt in ("plain", "types", "tcmp", "cmp"):
            for j in range(6 if c.thorough else 4):
                ex = [["--mock-only", n] for n in only[:6]]
                rng.shuffle(ex)
                cases.append(Case(tree, h.text(), opt=opt, extra=[x for y in ex for x in y] if j % 2 else [], oform=rng.choice(["plain", "slash", "abs", "dot", "cwd"]),
                                  c=rng.choice(["absent", "stale", "content", "partial"]), h=rng.choice(["absent", "stale", "content", "partial"]),
                                  env={"HOME": "/nonexistent%d" % j, "LANG": "C", "COLUMNS": str(j), "TZ": "Asia/Tokyo"} if j % 2 else {}))
            for what in ("flip", "append", "cut", "swapend", "same", "rename"):
                cases.append(Case(tree, h.text(), opt=opt, c="stale", h="stale", tamper=(what, rng.random())))
    with ThreadPoolExecutor(JOBS) as ex:
        recs = list(ex.map(execute, cases))
        # writes cut short at chosen points
        lim = []
        for opt in ("plain", "types", "cpp"):
            for v in ("v1", "v2"):
                ref = execute(Case(tree, texts[v], opt=opt, key=v))
                recs.append(ref)
                if ref["exit"]:
                    continue
                a, b = sorted(ref["sizes"])
                pts = {0, 1, 2, 4095, 4096, 4097, 8192, a - 1, a, a + 1, b - 1, b, b + 1, (a + b) // 2, 2 * b} | {rng.randrange(b) for _ in range(150 if c.thorough else 25)}
                for p in sorted(x for x in pts if x >= 0):
                    lim.append((Case(tree, texts[v], opt=opt, key=v, limit=p, c=rng.choice(["absent", "stale"]), h=rng.choice(["absent", "stale"])), ref["sizes"]))
        recs += list(ex.map(lambda x: execute(*x), lim))
    lines = []
    for r in recs:
        if r["exit"] < 0 or r["exit"] >= 126:
            c.violation("EasyMockGenerate dies (status %d) on %s: %s" % (r["exit"], r["cmd"], r["stderr"]), r, key="signal:" + r["key"])
        else:
            lines.append(r)
    mm, st2 = conform.validate("TraceGenerate", lines, jobs=1)
    for i, want in mm[:20]:
        r = lines[i]
        c.violation("EasyMockGenerate %s (header %s, parses %s, output %s, targets %s/%s, limit %s, tampered %s): exit %d, files %s %s, diag %s, others %s, complete %s; the specification says %s\n%s" % (
            r["cmd"], r["hdr"], r["parses"], r["out"], r["c"], r["h"], r["limit"], r["tamper"], r["exit"], r["ccont"], r["hcont"], r["diag"], r["others"], r["complete"], json.dumps(want), r["stderr"]),
            dict(r, want=want), key="run:%s" % r["key"])
    c.cov.update({"situations_of_the_model": len(sits), "situations_replayed": nsit, "runs": len(lines), "exit_zero": sum(1 for r in lines if r["exit"] == 0),
                  "write_faults": len(lim) + sum(1 for r in lines if r["c"] in ("isdir", "full") or r["h"] in ("isdir", "full")),
                  "traces_validated_against_impl": len(lines), "distinct_contents": len({(r["ccont"], r["hcont"]) for r in lines})})
    if not c.violations:
        good = [r for r in lines if r["exit"] == 0 and not r["ign"]][:4]
        badl = [r for r in lines if r["exit"] != 0][:4]

        def corrupt(r):
            r["exit"] = 1 if r["exit"] == 0 else 0
            return r
        c.cov["selftest_corrupted"] = conform.selftest("TraceGenerate", good + badl, corrupt)
    c.sample({k: lines[0][k] for k in ("cmd", "c", "h", "exit", "ccont")})
    c.sample({k: lines[-1][k] for k in ("cmd", "limit", "short", "exit", "diag")})
    c.assumptions += ["write faults are those a directory, /dev/full and RLIMIT_FSIZE can produce", "runs happen as root, so that permissions do not refuse anything"]
