"""C20: functions declared with attributes, generated with --generate-types and some of the attributes asked for; the attributes clang sees
on the generated declarations are judged by the specification (Attributes.tla)."""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from common import Broken, JOBS, Tree, run, scratch, tlc, tlc_prints
import conform

# attributes of char *f(const char *a, unsigned long b, const char *c, ...): name -> possible parameters; those in ONCE have one set per function
POOL = {
    "cold": [[]], "noreturn": [[]], "nonnull": [["1"], ["3"], ["1", "3"], []], "section": [['"txt"'], ['".a.b-c"'], ['".init.x0"']],
    "format": [["printf", "1", "4"], ["scanf", "3", "4"], ["printf", "3", "0"], ["strftime", "1", "0"]],
    "deprecated": [[], ['"why, (not"'], ['"a,b"']], "alloc_size": [["2"]], "alloc_align": [["2"]],
    "assume_aligned": [["8"], ["32", "4"]], "aligned": [["16"]], "visibility": [['"hidden"'], ['"default"']],
    "warn_unused_result": [[]], "nothrow": [[]], "leaf": [[]], "malloc": [[]], "returns_nonnull": [[]], "noinline": [[]], "used": [[]],
    "unused": [[]], "weak": [[]], "pure": [[]], "format_arg": [["1"]], "target": [['"avx2"']], "sentinel": [[], ["1"]],
    "no_instrument_function": [[]], "error": [['"never, ever"']], "constructor": [["105"], []], "returns_twice": [[]],
}
ONCE = {"section", "deprecated", "alloc_size", "alloc_align", "assume_aligned", "aligned", "visibility", "format_arg", "target", "sentinel", "error", "constructor"}
FORMS = ["plain", "macro", "parameters", "arguments"]


def letters(n):
    return "".join("abcdefghij"[int(c)] for c in str(n))


# --------------------------------------------------------------------------- as C
class Writer:
    def __init__(self, rng, name):
        self.rng, self.name, self.lines, self.macros = rng, name, [], 0

    def macro(self, ps, text):
        n = "EM_%s_%s" % (self.name, letters(self.macros))
        self.macros += 1
        self.lines.append("#define %s%s %s" % (n, "(%s)" % ", ".join(ps) if ps is not None else "", text))
        return n

    def number(self, x):
        rng = self.rng
        if not x.isdigit() or rng.random() < .4:
            return x
        k = rng.choice(["paren", "sum", "macro", "hex"])
        return {"paren": "(%s)" % x, "sum": "%d + 1" % (int(x) - 1), "hex": hex(int(x)), "macro": self.macro(None, x) if k == "macro" else ""}[k]

    def inner(self, x, args=None):
        """name(parameters)"""
        rng = self.rng
        args = x["a"] if args is None else args
        sp = rng.choice(["", "", " "])
        if not args:
            return x["n"]
        return "%s%s(%s%s%s)" % (x["n"], sp, sp, (sp + "," + rng.choice(["", " ", "  "])).join(args), sp)

    def whole(self, inner):
        sp = self.rng.choice(["", "", " "])
        return "__attribute__%s((%s%s%s))" % (sp, sp, inner, sp)

    def attribute(self, x):
        rng, v, args = self.rng, x["v"], x["a"]
        if v == "plain":
            return self.whole(self.inner(x))
        if v == "arguments":   # numbers of other forms, or a macro as the parameters or the name
            k = rng.randrange(4)
            if k == 0 and args:
                return self.whole("%s %s" % (x["n"], self.macro(None, "(%s)" % ", ".join(args))))
            if k == 1:
                n = self.macro(None, x["n"])
                return self.whole(self.inner(dict(x, n=n)))
            return self.whole(self.inner(x, [self.number(y) for y in args]))
        if v == "macro":
            n = self.macro(None, self.whole(self.inner(x)))
            return self.macro(None, n) if rng.random() < .2 else n
        # parameters
        ps = ["x%s" % letters(i) for i in range(len(args))]
        k = rng.randrange(3) if args else 0
        if k == 1:     # one of them is in the macro
            i = rng.randrange(len(args))
            inner = [args[j] if j == i else p for j, p in enumerate(ps)]
            ps2 = [p for j, p in enumerate(ps) if j != i]
            n = self.macro(ps2, self.whole(self.inner(x, inner)))
            return "%s(%s)" % (n, ", ".join(a for j, a in enumerate(args) if j != i))
        if k == 2:     # variadic
            n = self.macro(["name", "..."], "__attribute__((name(__VA_ARGS__)))")
            return "%s(%s)" % (n, ", ".join([x["n"]] + args))
        n = self.macro(ps, self.whole(self.inner(x, ps)))
        return "%s(%s)" % (n, ", ".join(args))

    def declaration(self, fn, d):
        rng = self.rng
        front, mid, back = [], [], []
        i = 0
        while i < len(d):
            t = self.attribute(d[i])
            if d[i]["v"] == "plain" and i + 1 < len(d) and d[i + 1]["v"] == "plain" and rng.random() < .4:    # in one list
                t = self.whole(self.inner(d[i]) + rng.choice([",", ", ", " , "]) + self.inner(d[i + 1]))
                i += 1
            rng.choice([front, mid, back, back]).append(t)
            i += 1
        ext = rng.choice(["", "", "extern "])
        if ext and rng.random() < .5:
            s = ext + " ".join(front)
        else:
            s = " ".join(front + [ext.strip()])
        s = " ".join((s + " char " + " ".join(mid)).split(" "))
        p = rng.choice(["", "", "", " __attribute__((unused))"])
        ps = rng.choice(["const char *a%s, unsigned long b, const char *c%s, ..." % (p, p), "const char *, unsigned long, const char *, ..."])
        s = "%s *%s(%s)%s;" % (s.strip(), fn, ps, (" " + " ".join(back)) if back else "")
        self.lines.append(re.sub(r"  +(?=[a-z_A-Z*])", " ", s) if '"' not in s else s)


def decoys(rng, name):
    return rng.choice([
        "", "extern int v_%s __attribute__((unused));" % name, "typedef char *(*t_%s)(const char *, ...) __attribute__((format(printf, 1, 2)));" % name,
        "struct s_%s { int a __attribute__((unused)); char *(*f)(void) __attribute__((warn_unused_result)); };" % name,
        "void with_%s(int a __attribute__((unused)), char *(*p)(const char *, ...) __attribute__((format(printf, 1, 2))));" % name])


# --------------------------------------------------------------------------- as clang sees it
def split(s):
    """Attributes and the rest of a declaration printed by clang."""
    out, rest, i, level = [], "", 0, 0
    while i < len(s):
        m = re.compile(r"__attribute__\(\(|\b_Noreturn\b").match(s, i)
        if not m:
            level += {"(": 1, ")": -1}.get(s[i], 0)
            rest += s[i]
            i += 1
            continue
        if m.group(0) == "_Noreturn":
            out.append(("noreturn", []))
            i = m.end()
            continue
        depth, j, q, cur, name, args = 2, m.end(), False, "", None, []
        while depth:
            ch = s[j]
            if q:
                cur += ch
                if ch == "\\":
                    j += 1
                    cur += s[j]
                elif ch == '"':
                    q = False
            elif ch == '"':
                q = True
                cur += ch
            elif ch == "(":
                depth += 1
                if depth == 3 and name is None:
                    name, cur = cur, ""
                else:
                    cur += ch
            elif ch == ")":
                depth -= 1
                if depth == 2:
                    args.append(cur)
                    cur = ""
                elif depth > 2:
                    cur += ch
            elif ch == "," and depth == 3:
                args.append(cur)
                cur = ""
            else:
                cur += ch
            j += 1
        if level == 0:      # not of a parameter
            out.append((name if name is not None else cur, args))
        i = j
    return out, " ".join(rest.split())


def value(a):
    a = a.strip()
    if re.fullmatch(r"[0-9xa-f+*() -]+", a) and re.search(r"\d", a):
        try:
            return str(int(eval(a, {"__builtins__": {}})))
        except (SyntaxError, NameError, TypeError):
            pass
    return a


def canon(name, args):
    args = [value(a) for a in args]
    while args and args[-1] == '""':
        args.pop()
    if name == "sentinel":      # missing ones are 0
        while args and args[-1] == "0":
            args.pop()
    if name == "constructor" and args == ["65535"]:
        args = []
    if name == "assume_aligned" and args[1:] == ["0"]:
        args.pop()
    return {"n": name, "a": args}


def seen(tree, d, header, fns):
    """function -> (attributes, type) of its declarations in the header; None if it doesn't compile"""
    def clang(flag):
        return run(["clang", "-fsyntax-only", "-w", "-x", "c", "-Xclang", flag, "-I", tree.inc, "-I", d, os.path.join(d, header)])
    p = clang("-ast-print")
    if p.returncode:
        return None, p.stderr[-800:]
    rv = {}
    for line in p.stdout.splitlines():
        m = re.search(r"\b(%s\w+)\(" % FN, line)
        if not m or m.group(1) not in fns or line.startswith((" ", "\t")):
            continue
        attrs, rest = split(line.rstrip().rstrip(";").rstrip("{"))
        a = rv.setdefault(m.group(1), {"attrs": [], "type": set()})
        a["attrs"] += [canon(n, x) for n, x in attrs]
    p = clang("-ast-dump")
    if p.returncode:
        return None, p.stderr[-800:]
    for m in re.finditer(r"FunctionDecl 0x[^\n]*? (%s\w+) '([^'\n]*)'" % FN, p.stdout):
        if m.group(1) in rv:
            t = m.group(2)
            if "__attribute__((noreturn))" in t:
                rv[m.group(1)]["attrs"].append(canon("noreturn", []))
                t = t.replace(" __attribute__((noreturn))", "")
            rv[m.group(1)]["type"].add(t)
    for a in rv.values():
        a["attrs"] = [json.loads(x) for x in sorted({json.dumps(y, sort_keys=True) for y in a["attrs"]})]
    return rv, ""


FN = "fna_"


def execute(tree, name, hists, ask, rng):
    d = scratch("att")
    try:
        w = Writer(rng, name)
        fns = []
        todo = []
        for i, h in enumerate(hists):
            fn = FN + name + "_" + letters(i)
            fns.append(fn)
            todo += [(fn, x) for x in h]
        if rng.random() < .5:      # redeclarations far from each other
            order = sorted(range(len(todo)), key=lambda k: (sum(1 for j in range(k) if todo[j][0] == todo[k][0]), k))
            todo = [todo[k] for k in order]
        for fn, x in todo:
            w.declaration(fn, x)
            if rng.random() < .1:
                w.lines.append(decoys(rng, "%s_%d" % (fn, len(w.lines))))
        text = "#ifndef H_%s\n#define H_%s\n%s\n#endif\n" % (name, name, "\n".join(w.lines))
        with open(os.path.join(d, name + ".h"), "w") as f:
            f.write(text)
        orig, err = seen(tree, d, name + ".h", set(fns))
        if orig is None:
            raise Broken("the header of the check doesn't compile: %s\n%s" % (err, text))
        args = []
        for a in ask:
            args += ["--generate-attribute", a]
        p = run([tree.gen, "-i", name + ".h", "-o", ".", "--generate-types"] + args, cwd=d)
        gen, ok, err = None, p.returncode == 0, p.stderr[-300:]
        if ok:
            gen, err = seen(tree, d, "easyMock_%s.h" % name, set(fns))
            ok = gen is not None
        if ok:
            q = run(["gcc", "-c", "-w", "-I", tree.inc, "-I", d, os.path.join(d, "easyMock_%s.c" % name), "-o", os.path.join(d, "m.o")])
            ok, err = q.returncode == 0, q.stderr[-800:]
        lines, origs = [], []
        every = sorted({x["n"] for h in hists for y in h for x in y})
        for fn, h in zip(fns, hists):
            h = [[canon(x["n"], x["a"]) for x in y] for y in h]
            o = orig[fn]
            g = (gen or {}).get(fn, {"attrs": [], "type": set()})
            origs.append({"h": h, "ask": every, "got": o["attrs"], "ok": True, "type": True})
            lines.append({"h": h, "ask": ask, "got": g["attrs"], "ok": ok, "type": o["type"] == g["type"]})
        return lines, origs, [(text, fn, err, args) for fn in fns]
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def random_history(rng):
    h, once = [], set()
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        d = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            n = rng.choice(sorted(POOL))
            if n in ONCE and (n in once or k):
                continue
            if n == "noreturn" and k or n == "weak" and "visibility" in once:
                continue
            once.add(n)
            d.append({"n": n, "a": rng.choice(POOL[n]), "v": rng.choice(FORMS)})
        h.append(d)
    return h


def asked(rng, hists):
    names = sorted({x["n"] for h in hists for d in h for x in d})
    ask = rng.sample(names, rng.randint(0, len(names))) + rng.sample(["form", "nonnul", "colder", "not_there", "const"], rng.choice([0, 0, 1, 2]))
    if ask and rng.random() < .1:
        ask.append(ask[0])
    return ask


def check(c):
    tree = Tree()
    rng = c.rng
    cfg = open(os.path.join(os.path.dirname(__file__), "..", "spec", "MCAttributes.cfg")).read()
    out, st = tlc("MCAttributes", cfg_text=cfg, workers=JOBS, timeout=600, heap="4g")
    hists = [json.loads(b) for b in tlc_prints(out, "HIST")]
    if len(hists) < 3000:
        raise Broken("the model emitted only %d histories" % len(hists))
    hists.sort(key=lambda t: json.dumps(t, sort_keys=True))
    # noreturn by a redeclaration changes the type; a second section is an error
    hists = [h for h in hists if sum(x["n"] == "section" for d in h for x in d) < 2 and not any(x["n"] in ("noreturn", "section") for d in h[1:] for x in d)]
    n = len(hists)
    jobs, size = [], 60
    rounds = 12 if c.thorough else 1
    for r in range(rounds):
        rng.shuffle(hists)
        for k in range(0, len(hists), size):
            part = hists[k:k + size]
            jobs.append(("m%s_%s" % (letters(r), letters(k // size)), part, asked(rng, part), random.Random(rng.random())))
    for k in range(600 if c.thorough else 50):
        part = [random_history(rng) for _ in range(rng.choice([1, 5, 25]))]
        jobs.append(("r%s" % letters(k), part, asked(rng, part), random.Random(rng.random())))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: execute(tree, *j), jobs))
    lines, origs, texts = ([x for r in res for x in r[k]] for k in range(3))
    bad, _ = conform.validate("TraceAttributes", origs, minchunk=600)
    if bad:
        i, want = bad[0]
        raise Broken("the specification is wrong about attributes as clang sees them: %s, not %s\n%s" % (json.dumps(origs[i]), want, "\n".join(x for x in texts[i][0].splitlines() if texts[i][1] in x)))
    mm, _ = conform.validate("TraceAttributes", lines, minchunk=600)
    for i, want in mm[:10]:
        text, fn, err, args = texts[i]
        c.violation("%s %s: the generated declaration has %s (same type: %s), not %s %s" % (
            " ".join(args), [x for x in text.splitlines() if fn + "(" in x], json.dumps(lines[i]["got"]), lines[i]["type"], want, err if not lines[i]["ok"] else ""),
            dict(lines[i], header=text, function=fn, args=args), key="attributes")
    c.cov.update({"states": st["distinct"], "transitions": st["generated"], "model_histories": n, "headers": len(jobs), "functions": len(lines),
                  "traces_validated_against_impl": len(lines), "attributes": len(POOL)})
    if not mm:
        def corrupt(e):
            if e["got"]:
                e["got"][0]["a"] = e["got"][0]["a"] + ["9"]
            else:
                e["got"] = [{"n": "hot", "a": []}]
            return e
        c.cov["selftest_corrupted"] = conform.selftest("TraceAttributes", lines[:60], corrupt)
    for e, t in list(zip(lines, texts))[:3]:
        c.sample({"line": e, "declarations": [x for x in t[0].splitlines() if t[1] in x]})
    c.assumptions += ["clang's printed AST shows the attributes of a declaration", "attributes are asked for by the spelling they are declared with"]
