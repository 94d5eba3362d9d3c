"""C18: the mock of every declaration the specification enumerates, and of random headers, compiled against its original header;
the types found in its debug information are judged by the specification."""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from cmodel import *
from cmodel import AnonRec
from cgen import HdrGen
from common import Broken, JOBS, SPEC, Tree, run, scratch, tlc, tlc_prints
import conform, dwarf
from dwarf import leaf, node

STD = {"uint8_t": "unsigned char", "int8_t": "signed char", "uint16_t": "unsigned short", "int16_t": "short", "uint32_t": "unsigned int",
       "int32_t": "int", "uint64_t": "unsigned long", "int64_t": "long", "size_t": "unsigned long"}


def to_json(t):
    if isinstance(t, Prim):
        return node("td", t.name, [leaf("b", STD[t.name])]) if t.name in STD else leaf("b", t.name)
    if isinstance(t, Void):
        return leaf("void", "")
    if isinstance(t, Named):
        d = t.d
        if isinstance(d, Typedef):
            return node("td", d.name, [to_json(d.ty)])
        if isinstance(d, Fwd):
            return leaf("inc", d.spelling)
        k, kw = ("enum", "enum") if isinstance(d, Enum) else ("rec", d.kind)
        if d.td and t.name == d.td:
            return node("td", d.td, [leaf(k, "%s %s" % (kw, d.tag) if d.tag else "anon " + d.td)])
        return leaf(k, "%s %s" % (kw, d.tag))
    if isinstance(t, Const):
        return node("const", "", [to_json(t.of)])
    if isinstance(t, Ptr):
        return node("ptr", "", [to_json(t.to)])
    if isinstance(t, Arr):
        return node("arr", "" if t.n is None else str(t.n), [to_json(t.of)])
    if isinstance(t, Func):
        return node("fn", "", [to_json(t.ret)] + [to_json(p) for p in t.params], t.variadic)
    raise TypeError(t)


class Env:
    """The declarations the types of the model refer to."""

    def __init__(self):
        self.decls, self.by = [], {}

    def get(self, key, make):
        if key not in self.by:
            d = make()
            self.decls.append(d)
            self.by[key] = d
        return self.by[key]

    def ty(self, j):
        k, n, t = j["k"], j["n"], j["t"]
        if k == "void":
            return Void()
        if k == "b":
            return Prim(n)
        if k == "rec":
            return Named(self.get(n, lambda: Record("struct", n.split()[1], [Field(Prim("int"), "a"), Field(Prim("long"), "b")])))
        if k == "inc":
            return Named(self.get(n, lambda: Fwd("struct", n.split()[1])))
        if k == "enum":
            return Named(self.get(n, lambda: Enum(n.split()[1], [(n.split()[1].upper() + x, None) for x in "AB"])))
        if k == "td":
            of = self.ty(t[0])
            return Named(self.get("td " + n, lambda: Typedef(n, of)))
        if k == "ptr":
            return Ptr(self.ty(t[0]))
        if k == "const":
            return Const(self.ty(t[0]))
        if k == "arr":
            return Arr(self.ty(t[0]), n or None)
        if k == "fn":
            return Func(self.ty(t[0]), [self.ty(x) for x in t[1:]], j["v"])
        raise TypeError(k)


# --------------------------------------------------------------------------- spelling
PRE = "#define EM_API\n#define EM_COLD __attribute__((cold))\n#define EM_SEC(x) __attribute__((section(x)))\n#define EM_CONST const\n#define EM_NOTHROW __attribute__((nothrow))\n" \
      "#define EM_EXTERN extern\n#define EM_ID(x) x\n"
PREFIX = ["", "", "", "extern ", "EM_API ", "extern EM_API ", "EM_API extern ", "__attribute__((cold)) ", "EM_COLD ", "EM_SEC(\"x\") ", "EM_EXTERN ", "extern EM_COLD ",
          "__extension__ "]
SUFFIX = ["", "", "", "", " EM_NOTHROW", " __attribute__((nothrow))", " EM_COLD"]


def spell(f, rng, plain=False):
    """The declaration of a function as somebody could write it."""
    if plain:
        return f.text() + ";"
    name = f.name
    if rng.random() < .05:
        name = "(" + name + ")"
    pre, suf = rng.choice(PREFIX), rng.choice(SUFFIX)
    f.prefix = ""
    s = f.text(name)
    if rng.random() < .1:
        s = re.sub(r"\bconst\b", "EM_CONST", s)
    s = pre + s + suf
    if rng.random() < .1:
        s = re.sub(r"([(,*)])", lambda m: m.group(1) + rng.choice(["", "", " "]), s)
    if rng.random() < .3:
        def gap(m):
            return rng.choice([" ", " ", " ", "  ", "\n    ", " /* c */ ", "\t", " // c\n  ", " /**/ "])
        s = re.sub(r" ", gap, s)
    return s + ";"


def joined(f, text, g):
    """Both functions in one declaration, if they return (pointers to) the same type."""
    def core(t):
        n = 0
        while isinstance(t, Ptr):
            t, n = t.to, n + 1
        return (t, n) if isinstance(t, (Prim, Named, Void)) else (None, 0)
    (a, n), (b, m) = core(f.ret), core(g.ret)
    if a is None or b is None or to_json(a) != to_json(b) or text != f.text() + ";":
        return None
    return text[:-1] + ", " + "*" * m + Fn(g.name, Prim("int"), g.params, g.variadic).text()[4:] + ";"


class Pack:
    def __init__(self, name, decls, fns, texts, args=()):
        self.name, self.decls, self.fns, self.texts, self.args = name, decls, fns, texts, list(args)

    def text(self, only=None):
        s = "#ifndef PACK_%s\n#define PACK_%s\n#include <stdint.h>\n#include <stddef.h>\n" % (self.name, self.name) + PRE
        for d in self.decls:
            s += d.text() + "\n"
        for f, t in zip(self.fns, self.texts):
            if (only is None or f is only) and t:
                s += t + "\n"
        return s + "#endif\n"


FLAGS = ["-Wall", "-Wextra", "-Wno-array-parameter", "-Wno-ignored-qualifiers", "-Wno-unknown-pragmas"]


def attempt(tree, d, name, text, args, flags=FLAGS):
    """Returns (exit, compiles, message, functions)"""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + ".h"), "w") as f:
        f.write(text)
    # the header itself must be good C
    p = run(["gcc", "-fsyntax-only", "-x", "c"] + flags + [os.path.join(d, name + ".h")])
    if p.returncode:
        raise Broken("the header of the check doesn't compile: %s\n%s" % (d, p.stderr[:1500]))
    p = run([tree.gen, "-i", name + ".h", "-o", "."] + args, cwd=d)
    if p.returncode:
        return p.returncode, False, p.stderr[-400:], {}
    o = os.path.join(d, name + ".o")
    q = run(["gcc", "-g", "-O0", "-c"] + flags + ["-I", tree.inc, "-I", d, os.path.join(d, "easyMock_%s.c" % name), "-o", o])
    msgs = [x for x in q.stderr.splitlines() if re.search(r"(warning|error):", x)]
    if q.returncode or msgs:
        return 0, False, "\n".join(msgs[:6]) or q.stderr[-400:], {}
    return 0, True, "", dwarf.functions(o)


def record(f, text, exit, compiles, err, fns):
    def one(n):
        return [fns[n]] if n in fns else []
    return {"decl": to_json(Func(f.ret, [t for t, _ in f.params], f.variadic)), "text": text, "exit": exit, "compiles": compiles, "err": err,
            "mock": one(f.name), "ear": one(f.name + "_ExpectAndReturn"), "ero": one(f.name + "_ExpectReturnAndOutput")}


def execute(tree, pack):
    d = scratch("sig")
    try:
        r = attempt(tree, d, pack.name, pack.text(), pack.args)
        if r[1]:
            return [record(f, t, *r) for f, t in zip(pack.fns, pack.texts)]
        # something doesn't work: every function for itself
        lines = []
        for i, (f, t) in enumerate(zip(pack.fns, pack.texts)):
            if not t or i + 1 < len(pack.texts) and not pack.texts[i + 1]:
                t = f.text() + ";"      # without the others of its declaration
            q = attempt(tree, os.path.join(d, "f%d" % i), pack.name, Pack(pack.name, pack.decls, [f], [t]).text(), pack.args)
            lines.append(record(f, t, *q))
            if sum(not x["compiles"] for x in lines) > 12:
                break
        if all(x["compiles"] for x in lines):
            lines[0] = dict(lines[0], exit=r[0], compiles=False, err="together: " + r[2], text=pack.text())
        return lines
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------- packs
def model_packs(types, rng, size=25):
    params = [t["ty"] for t in types if t["param"]]
    rets = [t["ty"] for t in types if t["ret"]]
    rng.shuffle(params)
    rng.shuffle(rets)
    packs, ip, ir, n = [], 0, 0, 0
    while ip < len(params) or ir < len(rets):
        env, fns, texts = Env(), [], []
        for _ in range(size):
            if ip >= len(params) and ir >= len(rets):
                break
            k = rng.choice([1, 2, 2, 3, 4])
            ps = params[ip:ip + k]
            ip += k
            ret = rets[ir] if ir < len(rets) else rng.choice(rets)
            ir += 1
            plist = [(env.ty(p), None if rng.random() < .25 else "p%d" % i) for i, p in enumerate(ps)]
            if rng.random() < .1:
                plist[-1] = (plist[-1][0], rng.choice(["td_int", "td_rec", "td_td", "sa", "ea", "si", "td_fn"]))
            f = Fn("fn%s" % "".join("abcdefghij"[int(c)] for c in "%04d" % n), env.ty(ret), plist, bool(plist) and rng.random() < .15)
            f.east = rng.random() < .3
            n += 1
            fns.append(f)
            if texts and rng.random() < .08 and joined(fns[-2], texts[-1], f):
                texts[-1] = joined(fns[-2], texts[-1], f)
                texts.append("")
            else:
                texts.append(spell(f, rng, plain=rng.random() < .5))
        packs.append(Pack("m%d" % len(packs), env.decls, fns, texts))
    return packs


def random_packs(rng, n):
    packs = []
    for i in range(n):
        g = HdrGen(rng, "r%d" % i)
        h = g.header("r%d" % i, rng.randint(3, 12))
        texts = []
        for f in h.fns:
            pre = f.prefix
            texts.append(spell(f, rng, plain=rng.random() < .4) if not pre else f.text() + ";")
        packs.append(Pack("r%d" % i, h.decls, h.fns, texts))
    return packs


def check(c):
    tree = Tree()
    depth = 5 if c.thorough else 4
    cfg = open(os.path.join(SPEC, "MCCType.cfg")).read().replace("Depth = 3", "Depth = %d" % depth)
    out, st = tlc("MCCType", cfg_text=cfg, workers=JOBS, timeout=800, heap="6g")
    types = [json.loads(b) for b in tlc_prints(out, "TYPE")]
    if len(types) < 8000:
        raise Broken("the model emitted only %d types" % len(types))
    rng = c.rng
    c.cov.update({"states": st["distinct"], "transitions": st["generated"], "model_depth": depth, "model_types": len(types)})
    types.sort(key=lambda t: json.dumps(t, sort_keys=True))
    if c.thorough and len(types) > 24000:
        types = rng.sample(types, 24000)
    packs = model_packs(types, rng)
    packs += random_packs(rng, 900 if c.thorough else 100)
    with ThreadPoolExecutor(JOBS) as ex:
        lines = [r for rs in ex.map(lambda p: execute(tree, p), packs) for r in rs]
    probes(c, tree)
    slimmed = [{k: v for k, v in e.items() if k not in ("text", "err")} for e in lines]
    mm, st2 = conform.validate("TraceCType", slimmed, minchunk=120)
    for i, want in mm[:20]:
        e = lines[i]
        c.violation("%s\nviolates: %s%s" % (e["text"], want, "; " + e["err"] if e["err"] else ""), e, key="decl:" + e["text"])
    c.cov.update({"headers": len(packs), "functions": len(lines), "with_outputs": sum(1 for e in lines if e["ero"]),
                  "traces_validated_against_impl": len(lines)})
    if not c.violations:
        def corrupt(e):
            k = ["mock", "ear", "ero"][len(json.dumps(e)) % 3]
            if e[k]:
                e[k][0]["t"].append(leaf("b", "int"))
            else:
                e[k] = e["mock"]
            return e
        c.cov["selftest_corrupted"] = conform.selftest("TraceCType", slimmed[:40], corrupt)
    for e in rng.sample(lines, min(3, len(lines))):
        c.sample({"text": e["text"], "mock": e["mock"]})
    c.assumptions += ["gcc's debug information describes the functions it compiled",
                      "headers are in the supported grammar: no volatile, no _Complex, no arrays of arrays nor pointers to arrays, no results const by a typedef"]


# what the tool is known not to support: header, the key of the finding
PROBES = [("volatile", "void f(volatile int *p);\n"), ("array of arrays", "void f(int a[2][3]);\n"),
          ("pointer to array", "void f(int (*a)[3]);\n"), ("pointer to array, returned", "int (*f(void))[3];\n"),
          ("pointer to typedef of array", "typedef int ta[3];\nvoid f(ta *p);\n")]


def probes(c, tree):
    for name, text in PROBES:
        d = scratch("probe")
        ex, ok, err, _ = attempt(tree, d, "probe", "#ifndef P_H\n#define P_H\n" + text + "#endif\n", [])
        if not ok:
            c.violation("%sdoes not give a mock that compiles: %s" % (text, err), {"text": text}, key=name)
