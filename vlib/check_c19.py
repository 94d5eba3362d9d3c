"""C19: headers generated with --generate-types, compiled in place of the original ones; the types found in the debug information are
judged by the specification (Layout.tla), the macros that are defined by Macros.tla."""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from common import Broken, JOBS, SPEC, Tree, run, scratch, tlc, tlc_prints
import conform, dwarf

STDINT = {"uint8_t": "unsigned char", "int8_t": "signed char", "uint16_t": "unsigned short", "int16_t": "short", "uint32_t": "unsigned int",
          "int32_t": "int", "uint64_t": "unsigned long", "int64_t": "long"}


def B(n): return {"k": "b", "n": n}
def N(n): return {"k": "name", "n": n}
def P(t): return {"k": "ptr", "t": t}
def C(t): return {"k": "const", "t": t}
def A(t, c): return {"k": "arr", "c": c, "t": t}
def F(ts, v=False): return {"k": "fn", "t": ts, "v": v}
def M(n, t, w=-1): return {"n": n, "t": t, "w": w}
def R(n, u, ms): return {"k": "rec", "n": n, "u": u, "ms": ms}
VOID = {"k": "void"}


# --------------------------------------------------------------------------- as C
def kw(x):
    return "union" if x["u"] else "struct"


def head(x, ind="  "):
    """The type specifier of a type without declarators."""
    k = x["k"]
    if k in ("b",):
        return x["n"]
    if k == "void":
        return "void"
    if k == "name":
        return x["n"][3:] if x["n"].startswith("td ") else x["n"]
    if k == "rec":
        body = ""
        for i, m in enumerate(x["ms"]):
            if m.get("j"):      # in the declaration of the one before
                body = body[:-2] + ", " + bare(m) + ";\n"
            else:
                body += ind + member(m, ind) + ";\n"
        return "%s%s {\n%s%s}" % (kw(x), x["n"][len(kw(x)):] if x["n"] else "", body, ind[:-2])
    if k == "enum":
        return "%s{ %s }" % (x["n"] + " " if x["n"] else "enum ", ", ".join(s for s in x["txt"]))
    raise TypeError(k)


def decl(x, inner, ind="  "):
    k = x["k"]
    if k == "const":
        if x["t"]["k"] == "ptr":
            t = x["t"]["t"]
            s = "*const " + inner
            return decl(t, "(" + s + ")" if t["k"] in ("arr", "fn") else s, ind)
        return "const " + decl(x["t"], inner, ind)
    if k == "ptr":
        t = x["t"]
        return decl(t, "(*" + inner + ")" if t["k"] in ("arr", "fn") else "*" + inner, ind)
    if k == "arr":
        return decl(x["t"], inner + "[%s]" % (x["c"] or ""), ind)
    if k == "fn":
        ps = ", ".join(decl(p, "", ind) for p in x["t"][1:]) + (", ..." if x["v"] else "")
        return decl(x["t"][0], inner + "(" + (ps or "void") + ")", ind)
    return (head(x, ind) + " " + inner).rstrip()


def member(m, ind):
    s = decl(m["t"], m["n"], ind + "  ")
    return s + (" : %d" % m["w"] if m["w"] >= 0 else "")


def base(t):
    while t["k"] in ("ptr", "arr"):
        t = t["t"]
    return t


def bare(m):
    """A declarator without its specifiers."""
    b = base(m["t"])
    return decl(m["t"], m["n"])[len(decl(b, "")):].strip() + (" : %d" % m["w"] if m["w"] >= 0 else "")


def declaration(name, t):
    if name.startswith("td "):
        return "typedef " + decl(t, name[3:]) + ";"
    if t["k"] == "inc":
        return name + ";"
    return head(t) + ";"


class Header:
    """env: [(name, type)] in order; texts: declarations in order; fns: [(name, function type)]"""

    def __init__(self, name):
        self.name, self.env, self.texts, self.fns, self.extra = name, {}, [], [], ""

    def add(self, name, t, text=None):
        self.env[name] = t
        if text != "":
            self.texts.append(text or declaration(name, t))

    def text(self):
        return "#ifndef H_%s\n#define H_%s\n#include <stdint.h>\n%s%s\n%s\n#endif\n" % (
            self.name, self.name, self.extra, "\n".join(self.texts), "\n".join(decl(t, n) + ";" for n, t in self.fns))

    def line(self, exit, compiles, err, got, fns=None):
        def clean(x):
            if isinstance(x, dict):
                return {k: clean(v) for k, v in x.items() if k not in ("txt", "j")}
            return [clean(v) for v in x] if isinstance(x, list) else x
        env = dict(self.env)
        for n, b in STDINT.items():
            env["td " + n] = B(b)
        return {"env": [{"n": n, "t": clean(t)} for n, t in env.items()], "roots": [clean(t) for _, t in self.fns],
                "fns": [[] if fns is None else [fns[n]] if n in fns else [VOID] for n, _ in self.fns], "exit": exit, "compiles": compiles, "err": err, "got": got}


def enum(name, vals):
    """vals: [(enumerator, value or None)]"""
    vs, txt, cur = [], [], -1
    for n, v in vals:
        cur = cur + 1 if v is None else v
        vs.append([n, str(cur)])
        txt.append(n if v is None else "%s = %s" % (n, "(-%dL-1)" % -(v + 1) if v == -2 ** 63 else ("%d" % v if -2 ** 31 < v < 2 ** 31 else "%dL" % v)))
    ints = [int(v) for _, v in vs]
    lo, hi = min(ints), max(ints)
    b = ("int" if hi < 2 ** 31 and lo >= -2 ** 31 else "long") if lo < 0 else ("unsigned int" if hi < 2 ** 32 else "unsigned long")
    return {"k": "enum", "n": name, "b": b, "vs": vs, "txt": txt}


# --------------------------------------------------------------------------- debug information
class Lay(dwarf.Types):
    """Types in the form of Layout.tla (Lay and Behind)."""

    def tagname(self, die):
        n = die.get("name", "")
        return "" if n.startswith("easymock_generated_anonymous") else n

    def lay(self, die, behind=False):
        if die is None:
            return {"k": "void"}
        tag = die["tag"]
        if tag == "typedef":
            return self.lay(self.ref(die), behind)
        if tag == "const_type":
            y = self.lay(self.ref(die), behind)
            return y if y["k"] == "const" else A(y["t"] if y["t"]["k"] == "const" else C(y["t"]), y["c"]) if y["k"] == "arr" else C(y)
        if tag == "base_type":
            n = die["name"]
            return B(dwarf.BASE.get(n, n))
        if tag == "pointer_type":
            return P(self.lay(self.ref(die), True))
        if tag == "array_type":
            t = self.lay(self.ref(die), behind)
            for k in reversed([k for k in die["kids"] if k["tag"] == "subrange_type"]):
                c = int(k["upper_bound"], 0) + 1 if "upper_bound" in k else int(k.get("count", "0"), 0)
                t = A(t, 0 if c >= 2 ** 31 else c)
            return t
        if tag in ("structure_type", "union_type"):
            u = tag == "union_type"
            n = self.tagname(die)
            if "declaration" in die or (behind and n):
                return {"k": "tag", "n": ("union " if u else "struct ") + n}
            ms = []
            for k in die["kids"]:
                if k["tag"] != "member":
                    continue
                w = int(k["bit_size"], 0) if "bit_size" in k else -1
                if "data_bit_offset" in k:
                    off = int(k["data_bit_offset"], 0)
                else:
                    off = 8 * int(k.get("data_member_location", "0"), 0)
                ms.append({"n": k.get("name", ""), "o": off, "w": w, "t": self.lay(self.ref(k))})
            return {"k": "rec", "u": u, "sz": int(die["byte_size"], 0), "ms": ms}
        if tag == "enumeration_type":
            b = self.ref(die)
            base = dwarf.BASE.get(b["name"], b["name"]) if b else {"7": "unsigned int"}.get(die.get("encoding", "").split()[0], "int")
            return {"k": "enum", "b": base, "vs": [[k["name"], str(int(k["const_value"], 0))] for k in die["kids"] if k["tag"] == "enumerator"]}
        if tag in ("subroutine_type", "subprogram"):
            def par(y):
                return P(y["t"]) if y["k"] == "arr" else P(y) if y["k"] == "fn" else y["t"] if y["k"] == "const" else y
            ps = [par(self.lay(self.ref(k), True)) for k in die["kids"] if k["tag"] == "formal_parameter"]
            r = self.lay(self.ref(die), True)
            v = any(k["tag"] == "unspecified_parameters" for k in die["kids"]) and "prototyped" in die
            return F([r["t"] if r["k"] == "const" else r] + ps, v)
        return {"k": "other", "n": tag}


FLAGS = ["-Wall", "-Wextra", "-Wno-array-parameter", "-Wno-ignored-qualifiers", "-Wno-unknown-pragmas", "-Wno-packed-bitfield-compat"]


def probe(tree, d, include, flags=("-fno-eliminate-unused-debug-types",)):
    """(compiles, message, types) of a header"""
    c = os.path.join(d, "probe.c")

    def comp(text):
        with open(c, "w") as f:
            f.write(text)
        return run(["gcc", "-g", "-O0", "-c", "-w"] + list(flags) + ["-I", tree.inc, "-I", d, c, "-o", c[:-2] + ".o"])
    p = comp('#include "%s"\n' % include)
    if p.returncode:
        return False, p.stderr[-600:], []
    dies = dwarf.parse(c[:-2] + ".o")
    top = [k for x in dies.values() if x["tag"] == "compile_unit" for k in x["kids"]]
    names = {}
    for x in top:
        n = x.get("name", "")
        if x["tag"] in ("structure_type", "union_type", "enumeration_type") and n and "declaration" not in x and not n.startswith(("easymock_generated_anonymous", "__")):
            names[{"structure_type": "struct ", "union_type": "union ", "enumeration_type": "enum "}[x["tag"]] + n] = x
        elif x["tag"] == "typedef" and not n.startswith(("EasyMock", "easyMock", "__")):
            names["td " + n] = x
    # nested records with a tag are types like any other
    for x in dies.values():
        n = x.get("name", "")
        if x["tag"] in ("structure_type", "union_type") and n and "declaration" not in x and not n.startswith(("easymock_generated_anonymous", "__")):
            names.setdefault({"structure_type": "struct ", "union_type": "union "}[x["tag"]] + n, x)
    t = Lay(dies)
    lays = {n: t.lay(x) for n, x in names.items()}
    sized = [n for n, y in lays.items() if y["k"] not in ("void", "fn", "tag", "other") and not (y["k"] == "const" and y["t"]["k"] in ("void", "tag"))]
    p = comp('#include "%s"\n' % include + "".join("unsigned long em_al_%d = _Alignof(%s);\n" % (i, n[3:] if n.startswith("td ") else n) for i, n in enumerate(sized)))
    if p.returncode:
        return False, p.stderr[-600:], []
    q = run(["objdump", "-s", "-j", ".data", "-j", ".bss", c[:-2] + ".o"])
    data = bytes.fromhex("".join("".join(l[6:41].split()) for l in q.stdout.splitlines() if re.match(r"^ [0-9a-f]{4,} ", l)))
    al = {}
    for i, n in enumerate(sized):
        al[n] = int.from_bytes(data[8 * i:8 * i + 8], "little")
    return True, "", [{"n": n, "al": al.get(n, 0), "t": y} for n, y in lays.items()]


def attempt(tree, h, d, args):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, h.name + ".h"), "w") as f:
        f.write(h.text())
    p = run(["gcc", "-fsyntax-only", "-x", "c"] + FLAGS + [os.path.join(d, h.name + ".h")])
    if p.returncode:
        raise Broken("the header of the check doesn't compile: %s\n%s" % (d, p.stderr[:1500]))
    p = run([tree.gen, "-i", h.name + ".h", "-o", ".", "--generate-types"] + args, cwd=d)
    if p.returncode:
        return h.line(p.returncode, False, "generator: " + p.stderr[-300:], [])
    q = run(["gcc", "-g", "-O0", "-c"] + FLAGS + ["-I", tree.inc, "-I", d, os.path.join(d, "easyMock_%s.c" % h.name), "-o", os.path.join(d, "mock.o")])
    msgs = [x for x in q.stderr.splitlines() if re.search(r"(warning|error):", x)]
    if q.returncode or msgs:
        return h.line(0, False, "\n".join(msgs[:6]) or q.stderr[-400:], [])
    ok, msg, got = probe(tree, d, "easyMock_%s.h" % h.name)
    dies = dwarf.parse(os.path.join(d, "mock.o"))
    t, names = Lay(dies), {n for n, _ in h.fns}
    fns = {x["name"]: t.lay(x) for x in dies.values() if x["tag"] == "subprogram" and x.get("name") in names and "low_pc" in x}
    return h.line(0, ok, msg, got, fns)


def execute(tree, h, original=True, args=()):
    d = scratch("typ")
    try:
        line = attempt(tree, h, d, list(args))
        orig = None
        if original:
            ok, msg, got = probe(tree, d, h.name + ".h")
            if not ok:
                raise Broken("the header of the check doesn't compile: " + msg)
            orig = h.line(0, True, "", got)
        return line, orig
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def pair(tree, h):
    """The functions of a header in two headers that share its types, which are generated one by one and used together in both orders."""
    d = scratch("pair")
    try:
        guard = "#ifndef H_%s\n#define H_%s\n%s\n#endif\n"
        with open(os.path.join(d, "shared.h"), "w") as f:
            f.write(guard % ("shared", "shared", "#include <stdint.h>\n" + h.extra + "\n".join(h.texts)))
        halves = {"pa": h.fns[::2], "pb": h.fns[1::2]}
        lines = []
        for n, fns in halves.items():
            with open(os.path.join(d, n + ".h"), "w") as f:
                f.write(guard % (n, n, '#include "shared.h"\n' + "\n".join(decl(t, m) + ";" for m, t in fns)))
            p = run([tree.gen, "-i", n + ".h", "-o", ".", "--generate-types"], cwd=d)
            if p.returncode:
                return [h.line(p.returncode, False, "generator: " + p.stderr[-300:], [])]
        for order in (("pa", "pb"), ("pb", "pa")):
            with open(os.path.join(d, "both.h"), "w") as f:
                f.write("".join('#include "easyMock_%s.h"\n' % n for n in order))
            q = run(["gcc", "-fsyntax-only", "-x", "c"] + FLAGS + ["-I", tree.inc, "-I", d, os.path.join(d, "both.h")])
            msgs = [x for x in q.stderr.splitlines() if re.search(r"(warning|error):", x)]
            ok, msg, got = (False, "\n".join(msgs[:6]) or q.stderr[-400:], []) if q.returncode or msgs else probe(tree, d, "both.h")
            lines.append(h.line(0, ok, "the headers of %s, in this order: %s" % (" and ".join(order), msg), got))
        return lines
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)


def frozen(env, t):
    """Objects of this type can't be assigned: a mock can't store them."""
    k = t["k"]
    if k == "name":
        return frozen(env, env.get(t["n"], VOID))
    if k == "rec":
        return any(frozen(env, m["t"]) for m in t["ms"])
    return k == "const" or (k == "arr" and frozen(env, t["t"]))


# --------------------------------------------------------------------------- headers of the model
MODEL_ENV = [("struct in", R("struct in", False, [M("c", B("char")), M("b", B("int"), 9), M("d", A(B("short"), 3))])),
             ("union un", R("union un", True, [M("i", B("int")), M("s", N("struct in"))])),
             ("enum en", enum("enum en", [("EN_A", -1), ("EN_B", 7)])),
             ("td ty", B("unsigned short")),
             ("td an", R("", False, [M("x", B("long")), M("y", B("char"))])),
             ("struct op", {"k": "inc", "n": "struct op"})]


def letters(n):
    return "".join("abcdefghij"[int(c)] for c in str(n))


def model_headers(recs, rng, size=40):
    hs = []
    for a in range(0, len(recs), size):
        h = Header("m" + letters(a // size))
        for n, t in MODEL_ENV:
            h.add(n, t)
        names = []
        for i, r in enumerate(recs[a:a + size]):
            x = rng.random()
            n = "r" + letters(i)
            k = kw(r)
            if x < .6:
                h.add("%s %s" % (k, n), dict(r, n="%s %s" % (k, n)))
                names.append(N("%s %s" % (k, n)))
            elif x < .8:
                h.add("td " + n, r)
                names.append(N("td " + n))
            else:
                full = dict(r, n="%s %s_s" % (k, n))
                h.add(full["n"], full, "")
                h.add("td " + n, N(full["n"]), "typedef " + decl(full, n) + ";")
                names.append(N(rng.choice([full["n"], "td " + n])))
        rng.shuffle(names)
        for i, n in enumerate(names):
            x = rng.random()
            t = P(n) if x < .4 or frozen(h.env, n) else P(C(n)) if x < .5 else n
            h.fns.append(("f" + letters(i), F([t, B("int")]) if rng.random() < .3 else F([VOID, t, B("int")])))
        hs.append(h)
    return hs


# --------------------------------------------------------------------------- random type graphs
class Random:
    def __init__(self, rng, name):
        self.r, self.h, self.n = rng, Header(name), 0
        self.done = []          # names usable by value
        self.ptrs = []          # names usable behind pointers only (yet)
        self.small = []         # enumerations that fit in a bit-field

    def uid(self, k):
        self.n += 1
        return k + letters(self.n)

    def basic(self):
        return B(self.r.choice(["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long",
                                "unsigned long long", "float", "double", "long double", "_Bool", "__int128", "unsigned __int128"]))

    def enum(self):
        r = self.r
        vals, v = [], 0
        for i in range(r.randint(1, 5)):
            x = r.random()
            v = None if x < .5 else r.choice([0, 1, 1, -1, -5, 7, 100, 2 ** 31 - 2, -2 ** 31, 2 ** 31 + 1, 2 ** 32, -2 ** 40]) if x < .8 else r.randint(-20, 20)
            vals.append((self.uid("E"), v))
        x = r.random()
        if x < .6:
            n = "enum " + self.uid("e")
            self.h.add(n, enum(n, vals))
        elif x < .8:
            n = "td " + self.uid("et")
            self.h.add(n, enum("", vals))
        else:
            tag = "enum " + self.uid("e")
            e = enum(tag, vals)
            n = "td " + (tag[5:] if r.random() < .3 else "enum" + tag[5:] if r.random() < .2 else self.uid("et"))
            self.h.add(tag, e, "")
            self.h.add(n, N(tag), "typedef " + decl(e, n[3:]) + ";")
            self.done.append(tag)
        self.done.append(n)
        if vals and all(v is None or 0 <= v < 8 for _, v in vals):
            self.small.append(N(n))
        return N(n)

    def typedef(self):
        n = "td " + self.uid("t")
        if self.r.random() < .15:       # several at a time
            b = self.r.choice([self.basic()] + [N(x) for x in self.done])
            ts = [("td " + self.uid("t"), t) for t in self.r.sample([b, P(b), P(P(b))], 2)]
            for i, (m, t) in enumerate(ts):
                self.h.add(m, t, "")
                self.done.append(m)
            self.h.texts.append("typedef %s %s;" % (decl(b, ""), ", ".join(bare(M(m[3:], t)) for m, t in ts)))
            return ts[0][0]
        x = self.r.random()
        t = self.basic() if x < .3 else self.pointer() if x < .55 else self.value(0) if x < .75 else P(F([self.basic(), self.pointer()])) if x < .85 else P(F([VOID, self.value(0)]))
        if self.r.random() < .1 and t["k"] in ("b", "ptr"):
            t = C(t)
        self.h.add(n, t)
        (self.ptrs if t["k"] == "fn" else self.done).append(n)
        return n

    def stdint(self):
        return N("td " + self.r.choice(list(STDINT)))

    def pointer(self):
        r = self.r
        x = r.random()
        if x < .2:
            t = self.basic()
        elif x < .3:
            t = VOID
        elif x < .75 and self.done + self.ptrs:
            t = N(r.choice(self.done + self.ptrs))
        elif x < .85:
            n = "struct " + self.uid("op")
            self.h.add(n, {"k": "inc", "n": n})
            self.ptrs.append(n)
            t = N(n)
        else:
            t = F([r.choice([VOID, B("int"), self.basic()])] + [self.value(0) for _ in range(r.randint(0, 2))], False)
        if t["k"] != "fn" and r.random() < .3 and not self.is_const(t) and not self.is_fn(t):
            t = C(t)
        p = P(t)
        if r.random() < .15:
            p = P(p)
        return p

    def is_fn(self, t):
        while t["k"] == "name":
            t = self.h.env.get(t["n"], B("int"))
        return t["k"] == "fn"

    def is_const(self, t):
        while t["k"] == "name":
            t = self.h.env.get(t["n"], B("int"))
        return t["k"] == "const"

    def value(self, nest):
        """A type of which there can be objects."""
        r = self.r
        x = r.random()
        if x < .35:
            return self.basic()
        if x < .42:
            return self.stdint()
        if x < .75 and self.done:
            return N(r.choice(self.done))
        if x < .9:
            return self.pointer()
        return self.enum() if r.random() < .5 else self.basic()

    def members(self, union, nest, self_name=None):
        r = self.r
        ms = []
        for i in range(r.randint(1, 6)):
            x = r.random()
            n = self.uid("m")
            if x < .45:
                t = self.value(nest)
                if r.random() < .1 and not self.is_const(t):
                    t = C(t)
                ms.append(M(n, t))
            elif x < .48:
                w = r.choice([t for t in self.small] or [B("int")])
                ms.append(M(n, C(w) if r.random() < .2 else w, r.randint(4, 32 if w["k"] == "name" else 9)))
            elif x < .6:
                b = r.choice(["int", "unsigned int", "unsigned char", "signed char", "short", "unsigned short", "long", "unsigned long", "_Bool"])
                w = r.randint(1, 1 if b == "_Bool" else 8 if "char" in b else 16 if "short" in b else 32 if "int" in b else 64)
                ms.append(M(n, B(b), w))
            elif x < .66:
                b = r.choice(["int", "unsigned int", "char", "long", "unsigned short"])
                ms.append(M("", B(b), r.choice([0, 1, 5, 7])))
            elif x < .78:
                ms.append(M(n, A(self.value(0), r.randint(1, 5))))
            elif x < .85 and self_name:
                t = N(self_name)
                ms.append(M(n, r.choice([P(t), P(C(t)), P(P(t)), P(F([VOID, P(t)])), A(P(t), 2)])))
            elif nest > 0:
                t = R("" if r.random() < .75 else r.choice(["struct ", "union "]) + self.uid("n"), r.random() < .4, None)
                if t["n"]:
                    t["u"] = t["n"].startswith("union")
                t["ms"] = self.members(t["u"], nest - 1)
                if t["n"]:
                    self.h.add(t["n"], t, "")
                y = r.random()
                if y < .5 and not t["n"]:
                    ms.append(M("", t))
                elif y < .8:
                    ms.append(M(n, t))
                else:
                    ms.append(M(n, A(t, r.randint(1, 3))))
                if t["n"]:
                    self.done_later.append(t["n"])
            else:
                ms.append(M(n, self.basic()))
            if r.random() < .15 and ms[-1]["n"] and base(ms[-1]["t"])["k"] in ("b", "name"):
                b = base(ms[-1]["t"])
                n = self.uid("m")
                if ms[-1]["w"] >= 0:
                    ms.append(dict(M(n, b, r.randint(4, 8)) if b["k"] == "name" or b["n"] != "_Bool" else M(n, b, 1), j=True))
                else:
                    usable = b["k"] == "b" or b["n"] in self.done or b["n"] in ["td " + x for x in STDINT]
                    ms.append(dict(M(n, r.choice([b, P(b), P(P(b)), A(b, 2), A(P(b), 3)] if usable else [P(b), P(P(b)), A(P(b), 2)])), j=True))
        if not any(m["n"] for m in ms):
            ms.append(M(self.uid("m"), self.basic()))
        return ms

    def record(self):
        r = self.r
        self.done_later = []
        u = r.random() < .25
        k = "union " if u else "struct "
        x = r.random()
        tag = k + self.uid("s") if x < .8 else ""
        td = "td " + self.uid("st") if x >= .55 else None
        if tag and td and r.random() < .25:     # neither is its own tag, with or without the keyword
            td = "td " + r.choice(["", k.strip()]) + tag.split(" ")[1]
        elif td and r.random() < .15:     # the tag of another type is no obstacle
            others = [n.split(" ")[1] for n in self.done + self.ptrs if n.startswith(("struct ", "union ", "enum ")) and "td " + n.split(" ")[1] not in self.h.env]
            td = "td " + r.choice(others) if others else td
        early = False
        self_name = tag or None
        if tag and td and r.random() < .4:      # typedef first: usable within the record
            self.h.add(td, N(tag))
            early = True
            self_name = r.choice([tag, td])
        mutual = None
        if tag and r.random() < .25:            # another record and this one point to each other
            mutual = "struct " + self.uid("s")
            self.ptrs.append(mutual)
            self.h.texts.append(mutual + ";")
            self.h.env[mutual] = {"k": "inc", "n": mutual}
        ms = self.members(u, 2, self_name)
        if mutual:
            ms.append(M(self.uid("m"), P(N(mutual))))
        if tag and not u and r.random() < .1:
            t = self.value(0)
            if r.random() < .25:
                t = R("", False, self.members(False, 1))
            ms.append(M(self.uid("m"), A(t, 0)))
            flex = True
        else:
            flex = False
        rec = R(tag, u, ms)
        if tag and td and not early:
            self.h.add(tag, rec, "")
            if r.random() < .25:
                tp = "td " + self.uid("st")
                self.h.add(td, N(tag), "")
                self.h.add(tp, P(N(tag)), "typedef " + decl(rec, td[3:] + ", *" + tp[3:]) + ";")
                self.done.append(tp)
            else:
                self.h.add(td, N(tag), "typedef " + decl(rec, td[3:]) + ";")
        elif tag:
            self.h.add(tag, rec)
        else:
            self.h.add(td, rec)
        names = [n for n in (tag, td) if n]
        (self.ptrs if flex else self.done).extend(names + [] if flex else names + self.done_later)
        if mutual:
            del self.h.env[mutual]
            self.ptrs.remove(mutual)
            self.h.add(mutual, R(mutual, False, [M(self.uid("m"), P(N(r.choice(names)))), M(self.uid("m"), self.basic())]))
            self.done.append(mutual)
        return names

    def build(self):
        r = self.r
        for i in range(r.randint(2, 9)):
            x = r.random()
            if x < .6:
                self.record()
            elif x < .75:
                self.enum()
            else:
                self.typedef()
        used = []
        for i in range(r.randint(1, 5)):
            ps = [self.value(0) if r.random() < .5 else self.pointer() for _ in range(r.randint(0, 3))]
            ret = VOID if r.random() < .4 else self.value(0)
            ret = P(ret) if frozen(self.h.env, ret) else ret
            ps = [P(p) if frozen(self.h.env, p) else p for p in ps]
            self.h.fns.append(("fn" + letters(i), F([ret] + ps, bool(ps) and r.random() < .1)))
        return self.h


# --------------------------------------------------------------------------- macros
PUNCT = "( ) [ ] { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; = *= /= %= += -= <<= >>= &= ^= |= , ...".split()
PLAIN = ["0", "1", "42u", "0x1fUL", "1.5e+3", "0x1p-3", ".5f", "'a'", "'\\n'", "'\\''", "L'x'", '"s"', '"a b"', '"q\\"q"', '"%d\\n"', '"{{X}}"', '"\\\\"', 'u8"z"',
         "foo", "do", "while", "struct", "__FILE__", "__LINE__", "int", "_x1", "sizeof", "return", "defined", "if"]
TOKEN = re.compile(r"""\s+|((?:u8|[LuU])?"(?:\\.|[^"\\])*"|(?:u8|[LuU])?'(?:\\.|[^'\\])*'|\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*|[A-Za-z_$][A-Za-z_0-9$]*"""
                   r"""|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[*/%+&^|-]=|\#\#|[\[\](){}.&*+\-~!/%<>^|?:;=,\#])""")


def tokens(s):
    rv, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise Broken("the check can't split %r" % s)
        if m.group(1):
            rv.append(m.group(1))
        i = m.end()
    return rv


def definition(rng, others, plain=False):
    """[f, p, b] as in Macros.tla"""
    f = not plain and rng.random() < .55
    p = []
    if f:
        p = ["p%s" % letters(i) for i in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        x = rng.random()
        if x < .2:
            p.append("...")
        elif x < .35:
            p.append("rest...")
    b = []
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3, 5, 9])):
        x = rng.random()
        if x < .35:
            b.append(rng.choice(PLAIN))
        elif x < .6 or plain:
            b.append(rng.choice(PUNCT))
        elif x < .8 and p:
            y = rng.choice(p)
            y = "__VA_ARGS__" if y == "..." else y.replace("...", "")
            b += rng.choice([[y], [y], ["#", y], [y, "##", "x"], ["y", "##", y]]) if f else [y]
        elif x < .9:
            b.append(rng.choice(others))
        else:
            b += ["(", rng.choice(PLAIN), ")"]
    if not f:
        b = [t for t in b if t != "__VA_ARGS__"]
    return {"f": f, "p": p, "b": b}


def cdef(n, d, rng):
    s = "#define " + n + ("(" + rng.choice([",", ", "]).join(d["p"]) + ")" if d["f"] else "")
    for i, t in enumerate(d["b"]):
        s += rng.choice([" "] * 8 + [" /* x */ ", " \\\n ", "  "]) if i or d["b"] else " "
        s += t
    return s + rng.choice([""] * 6 + [" // y", " "])


def steps(h, rng, sub):
    rv = []
    for s in h:
        if s["op"] == "def":
            if sub is not None and rng.random() < .15:
                sub.append(cdef(s["n"], s["d"], rng))
                rv.append('#include "%s_%d.h"' % (sub[0], len(sub) - 1))
            else:
                rv.append(cdef(s["n"], s["d"], rng))
        elif s["op"] == "undef":
            rv.append("#undef " + s["n"])
        else:
            n = s["n"]
            y, z = steps(s["y"], rng, None), steps(s["z"], rng, None)
            if rng.random() < .5:
                rv += [rng.choice(["#ifdef %s", "#if defined(%s)", "#if defined %s"]) % n] + y + (["#else"] if z or rng.random() < .3 else []) + z + ["#endif"]
            else:
                rv += [rng.choice(["#ifndef %s", "#if !defined(%s)"]) % n] + z + (["#else"] if y or rng.random() < .3 else []) + y + ["#endif"]
    return rv


def dump(tree, d, inc):
    """name -> definition, of the macros defined after including the header."""
    p = run(["gcc", "-E", "-dM", "-w", "-I", tree.inc, "-I", d, "-include", os.path.join(d, inc), "-x", "c", "/dev/null"])
    rv = {}
    for l in p.stdout.splitlines():
        m = re.match(r"#define (\w+)(\(([^)]*)\))? ?(.*)$", l)
        if m and m.group(1).startswith("EMM"):
            ps = [x.strip() for x in m.group(3).split(",")] if m.group(2) and m.group(3) else []
            rv[m.group(1)] = {"f": m.group(2) is not None, "p": ps, "b": tokens(m.group(4))}
    return p.returncode == 0, rv


def macro_header(tree, name, hists, rng, cmd):
    """hists: histories, with their own names each; cmd: steps that are made on the command line"""
    d = scratch("mac")
    try:
        sub = [name]
        body = ["int fn_%s(int a);" % name]
        for h in hists:
            body += steps(h, rng, sub)
            if rng.random() < .2:
                body.append("extern int v_%s_%d;" % (name, len(body)))
        for i, t in enumerate(sub[1:]):
            with open(os.path.join(d, "%s_%d.h" % (name, i + 1)), "w") as f:
                f.write(t + "\n")
        text = "#ifndef H_%s\n#define H_%s\n%s\n#endif\n" % (name, name, "\n".join(body))
        with open(os.path.join(d, name + ".h"), "w") as f:
            f.write(text)
        args = ["-D%s=%s" % (s["n"], " ".join(s["d"]["b"])) for s in cmd]
        p = run([tree.gen, "-i", name + ".h", "-o", ".", "--generate-types"] + args, cwd=d)
        q = run(["gcc", "-c", "-w", "-I", tree.inc, "-I", d, os.path.join(d, "easyMock_%s.c" % name), "-o", os.path.join(d, "m.o")])
        if p.returncode == 0:
            ok, got = dump(tree, d, "easyMock_%s.h" % name)
        else:
            ok, got = False, {}
        with open(os.path.join(d, "orig.h"), "w") as f:
            f.write("".join("#define %s %s\n" % (s["n"], " ".join(s["d"]["b"])) for s in cmd) + '#include "%s.h"\n' % name)
        ok2, want = dump(tree, d, "orig.h")
        if not ok2:
            raise Broken("the header of the check doesn't compile: " + text)

        def lines(ok, got):
            rv = []
            for h in hists:
                ns = set()

                def names(x):
                    for s in x:
                        ns.add(s["n"])
                        if s["op"] == "if":
                            names(s["y"])
                            names(s["z"])
                names(h)
                rv.append({"h": [s for s in cmd if s["n"] in ns] + h, "ok": ok, "got": [{"n": n, "d": got[n]} for n in sorted(ns) if n in got]})
            return rv
        return lines(ok and q.returncode == 0, got), lines(True, want), [(text, q.stderr[-500:])] * len(hists)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def concrete(h, names, defs):
    rv = []
    for s in h:
        t = {"op": s["op"], "n": names[s["n"]]}
        if s["op"] == "def":
            t["d"] = defs[s["d"]]
        elif s["op"] == "if":
            t["y"], t["z"] = concrete(s["y"], names, defs), concrete(s["z"], names, defs)
        rv.append(t)
    return rv


def random_history(rng, names, defs, n):
    def simple():
        return {"op": "def", "n": rng.choice(names), "d": rng.choice(defs)} if rng.random() < .65 else {"op": "undef", "n": rng.choice(names)}

    def many(k):
        return [{"op": "if", "n": rng.choice(names), "y": many(rng.randint(0, 3) if k > 1 else 0), "z": many(rng.randint(0, 3) if k > 1 else 0)}
                if rng.random() < .3 else simple() for _ in range(k)]
    return many(n)


def macros(c, tree):
    rng = c.rng
    out, st = tlc("MCMacros", workers=JOBS, timeout=600, heap="4g")
    hists = [json.loads(b) for b in tlc_prints(out, "HIST")]
    if len(hists) < 10000:
        raise Broken("the model emitted only %d histories" % len(hists))
    hists.sort(key=lambda t: json.dumps(t, sort_keys=True))
    if not c.thorough:
        hists = rng.sample(hists, 2400)
    nr = 4000 if c.thorough else 400
    jobs, size, total = [], 60, len(hists) + nr
    for k in range(0, total, size):
        name = "x" + letters(k // size)
        hs, cmd = [], []
        for i in range(k, min(total, k + size)):
            ns = {"A": "EMM%sA%d" % (name, i), "B": "EMM%sB%d" % (name, i), "C": "EMM%s_c%d" % (name, i)}
            defs = {x: definition(rng, list(ns.values())) for x in "123"}
            if i < len(hists):
                h = concrete(hists[i], ns, defs)
            else:
                h = random_history(rng, list(ns.values()), list(defs.values()), rng.randint(3, 9))
            if rng.random() < .1:
                n = rng.choice("AB")
                cmd.append({"op": "def", "n": ns[n], "d": {"f": False, "p": [], "b": [rng.choice(["1", "77", "foo"])]}})
            hs.append(h)
        jobs.append((name, hs, random.Random(rng.random()), cmd))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: macro_header(tree, *j), jobs))
    lines, origs, texts = ([x for r in res for x in r[k]] for k in range(3))
    bad, _ = conform.validate("TraceMacros", origs, minchunk=400)
    if bad:
        raise Broken("the specification is wrong about macros as gcc defines them: %s, not %s" % (json.dumps(origs[bad[0][0]]), bad[0][1]))
    mm, _ = conform.validate("TraceMacros", lines, minchunk=400)
    for i, want in mm[:10]:
        c.violation("macros: %s\nthe generated header defines %s, not %s %s" % (json.dumps(lines[i]["h"]), json.dumps(lines[i]["got"]), want, texts[i][1]),
                    dict(lines[i], header=texts[i][0]), key="macros")
    c.cov.update({"macro_states": st["distinct"], "macro_histories": len(lines), "traces_validated_against_impl": len(lines)})
    if not c.violations:
        def corrupt(e):
            if e["got"]:
                e["got"][0]["d"]["b"].append("x")
            else:
                e["got"] = [{"n": "EMM", "d": {"f": False, "p": [], "b": []}}]
            return e
        c.cov["selftest_corrupted"] = conform.selftest("TraceMacros", lines[:60], corrupt)


# --------------------------------------------------------------------------- declarations outside the grammar of the model
# name, declarations, names that must be the same as in the original header
PROBES = [
    ("packed", "struct s { char a; int b; } __attribute__((packed));\nvoid f(struct s *p);", ["struct s"]),
    ("aligned", "struct s { char a; } __attribute__((aligned(32)));\nvoid f(struct s *p);", ["struct s"]),
    ("aligned member", "struct s { char a; char b __attribute__((aligned(8))); };\nvoid f(struct s *p);", ["struct s"]),
    ("_Alignas", "struct s { char a; _Alignas(8) char b; };\nvoid f(struct s *p);", ["struct s"]),
    ("pragma pack", "#pragma pack(1)\nstruct s { char a; int b; };\n#pragma pack()\nvoid f(struct s *p);", ["struct s"]),
    ("array of arrays", "struct s { int a[2][3]; };\nvoid f(struct s *p);", ["struct s"]),
    ("typedef of array", "typedef int ta[3];\nstruct s { ta x; };\nvoid f(struct s *p);", ["struct s"]),
    ("typedef of array, parameter", "typedef int ta[3];\nvoid f(ta x);", []),
    ("pointer to array", "struct s { int (*a)[3]; };\nvoid f(struct s *p);", ["struct s"]),
    ("typedef of function", "typedef int ft(int);\nvoid f(ft *p);", ["td ft"]),
    ("member of typedef of function", "typedef int ft(int);\nstruct s { ft *p; };\nvoid f(struct s *p);", ["struct s"]),
    ("pointer to anonymous record", "struct s { struct { int x; } *p; };\nvoid f(struct s *p);", ["struct s"]),
    ("typedef of array of anonymous record", "typedef struct { int a; } H[2];\nvoid f(H a);", ["td H"]),
    ("enumerator beyond 64 bits signed", "enum e {A = 0xffffffffffffffff};\nvoid f(enum e *p);", ["enum e"]),
    ("smallest enumerator", "enum e {A = (-0x7fffffffffffffff-1)};\nvoid f(enum e *p);", ["enum e"]),
    ("enumeration in a record", "struct s { enum { X, Y } x; };\nvoid f(struct s *p);", ["struct s"]),
    ("named enumeration in a record", "struct s { enum e { X, Y } x; };\nvoid f(struct s *p);", ["struct s", "enum e"]),
    ("restrict member", "struct s { int *restrict a; };\nvoid f(struct s *p);", ["struct s"]),
    ("empty record", "struct s { };\nvoid f(struct s *p);", ["struct s"]),
    ("array parameter with static", "void f(int a[static 3]);", []),
    ("stdarg", "#include <stdarg.h>\nvoid f(const char *x, va_list p);", ["td va_list"]),
    ("stdio", "#include <stdio.h>\nvoid f(FILE *p);", ["td FILE"]),
    ("time", "#include <time.h>\nvoid f(struct timespec p, time_t *t, struct tm *x);", ["struct timespec", "struct tm", "td time_t"]),
    ("stddef", "#include <stddef.h>\nsize_t f(size_t p, wchar_t w, ptrdiff_t d);", ["td size_t", "td wchar_t", "td ptrdiff_t"]),
    ("stdbool", "#include <stdbool.h>\nbool f(bool p);", []),
    ("pthread", "#include <pthread.h>\nvoid f(pthread_t t, pthread_mutex_t *m);", ["td pthread_t", "td pthread_mutex_t"]),
    ("typedef with the name of the enumeration", "enum e { X, Y };\ntypedef enum e e;\nvoid f(e a, enum e *b);", ["enum e", "td e"]),
    ("typedef with the name and the keyword", "struct s { int a; };\ntypedef struct s structs;\nvoid f(structs a, struct s *b);", ["struct s", "td structs"]),
    ("socket", "#include <sys/socket.h>\nint f(struct sockaddr *a, socklen_t l);", ["struct sockaddr", "td socklen_t"]),
]


def probes(c, tree):
    def one(x):
        i, (name, text, names) = x
        h = Header("q" + letters(i))
        h.text = lambda: "#ifndef Q\n#define Q\n" + text + "\n#endif\n"
        d = scratch("prb")
        try:
            line = attempt(tree, h, d, [])
            got = {e["n"]: e for e in line["got"]}
            ok, msg, want = probe(tree, d, h.name + ".h")
            want = {e["n"]: e for e in want}
            if not ok or not set(names) <= set(want):
                raise Broken("the probe '%s' of the check doesn't compile: %s" % (name, msg))
            if line["exit"] or not line["compiles"]:
                return "doesn't give a header and a mock that compile: " + line["err"][:300]
            bad = [n for n in names if got.get(n) != want[n]]
            return "%s is %s, not %s" % (bad[0], json.dumps(got.get(bad[0])), json.dumps(want[bad[0]])) if bad else ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(JOBS) as ex:
        for (name, text, _), msg in zip(PROBES, ex.map(one, enumerate(PROBES))):
            if msg:
                c.violation("%s: %s %s" % (name, text, msg), {"text": text, "what": msg}, key=name)
    c.cov["probes"] = len(PROBES)


def check(c):
    tree = Tree()
    macros(c, tree)
    types(c, tree)
    probes(c, tree)


def types(c, tree):
    rng = c.rng
    cfg = open(os.path.join(SPEC, "MCLayout.cfg")).read().replace("MaxMembers = 2", "MaxMembers = 3")
    out, st = tlc("MCLayout", cfg_text=cfg, workers=JOBS, timeout=800, heap="6g")
    recs = [json.loads(b) for b in tlc_prints(out, "REC")]
    if len(recs) < 50000:
        raise Broken("the model emitted only %d records" % len(recs))
    recs.sort(key=lambda t: json.dumps(t, sort_keys=True))
    small = [r for r in recs if len(r["ms"]) < 3]
    big = [r for r in recs if len(r["ms"]) == 3]
    recs = small + rng.sample(big, 24000 if c.thorough else 1200)
    rng.shuffle(recs)
    c.cov.update({"states": st["distinct"], "transitions": st["generated"], "model_records": len(recs)})
    hs = model_headers(recs, rng)
    hs += [Random(rng, "r" + letters(i)).build() for i in range(1500 if c.thorough else 150)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda h: execute(tree, h), hs))
        together = [h for h in hs if len(h.fns) > 1][-(600 if c.thorough else 90):]
        pairs = list(ex.map(lambda h: pair(tree, h), together))
    lines, origs = [a for a, _ in res], [b for _, b in res]
    hs += [h for h, ls in zip(together, pairs) for _ in ls]
    lines += [x for ls in pairs for x in ls]
    slim = [{k: v for k, v in e.items() if k != "err"} for e in lines]
    bad, _ = conform.validate("TraceLayout", [{k: v for k, v in e.items() if k != "err"} for e in origs], minchunk=20)
    if bad:
        i, want = bad[0]
        raise Broken("the specification is wrong about a header as gcc compiles it: %s\n%s" % (want, hs[i].text()))
    mm, st2 = conform.validate("TraceLayout", slim, minchunk=20)
    for i, want in mm[:20]:
        c.violation("%s\nviolates: %s; %s" % (hs[i].text(), want, lines[i]["err"]), lines[i], key="header")
    c.cov.update({"headers": len(origs), "headers_used_together": 2 * len(together), "traces_validated_against_impl": len(lines), "types": sum(len(e["got"]) for e in lines)})
    if not mm:
        def corrupt(e):
            g = [x for x in e["got"] if x["n"].startswith("struct ") and x["t"]["k"] == "rec" and any(r == x["n"] for r in e["names"])]
            g[len(g) // 2]["al"] *= 2
            e.pop("names")
            return e
        some = [dict(e, names=[x["n"] for x in e["env"]]) for e in slim if any(x["t"]["k"] == "rec" and x["n"].startswith("struct ") for x in e["env"])][:12]
        c.cov["selftest_corrupted_types"] = conform.selftest("TraceLayout", some, corrupt, minchunk=4)
    for h, e in list(zip(hs, lines))[-2:]:
        c.sample({"header": h.text(), "compiles": e["compiles"], "types": len(e["got"])})
    c.assumptions += ["gcc's debug information describes the types of the headers it compiles", "gcc -dM lists the macros a header defines",
                      "x86-64, System V ABI"]
