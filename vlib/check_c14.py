"""C14: generated comparators of composite types."""
import json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import conform
from common import Broken, JOBS, SPEC, Tree, run, scratch, tlc, tlc_prints

# type: (values, conversion for the message, conversion that tells values apart, cast of the latter)
CH = ["'a'", "'b'", "'q'", "'Z'", "'5'"]
SC = {
    "char": (CH, "%c", "%d", "int"), "signed char": (CH, "%c", "%d", "int"), "unsigned char": (CH, "%c", "%d", "int"),
    "short": (["0", "1", "-1", "32767", "-32768", "256"], "%hd", "%d", "int"),
    "unsigned short": (["0", "1", "65535", "32768", "256"], "%hu", "%d", "int"),
    "int": (["0", "1", "-1", "2147483647", "(-2147483647-1)", "65536"], "%d", "%d", "int"),
    "unsigned int": (["0", "1", "4294967295u", "2147483648u", "65536"], "%u", "%u", "unsigned"),
    "long": (["0", "1", "-1", "9223372036854775807l", "(1l<<32)", "(1l<<32)+1"], "%ld", "%ld", "long"),
    "unsigned long": (["0", "1", "18446744073709551615ul", "(1ul<<63)", "(1ul<<32)"], "%lu", "%lu", "unsigned long"),
    "long long": (["0", "1", "-1", "9223372036854775807ll", "(1ll<<40)"], "%lld", "%lld", "long long"),
    "unsigned long long": (["0", "1", "18446744073709551615ull", "(1ull<<63)"], "%llu", "%llu", "unsigned long long"),
    "float": (["0", "1.5f", "-1.5f", "1e20f", "1.5000001f"], "%f", "%a", "double"),
    "double": (["0", "1.5", "-1.5", "1e100", "1.5000000000000002"], "%f", "%a", "double"),
    "_Bool": (["0", "1"], "%u", "%d", "int"),
    "long double": (["0", "1.5l", "-1.5l", "1e100l", "1.5000000000000000002l"], "%Lf", "%La", "long double"),
    "__int128": (["0", "1", "-1", "(__int128)1<<64", "((__int128)1<<64)+1", "(__int128)5<<100"], "i128", "x128", "unsigned __int128"),
    "unsigned __int128": (["0", "1", "~(unsigned __int128)0", "(unsigned __int128)1<<127", "((unsigned __int128)1<<64)+255"], "i128", "x128", "unsigned __int128"),
}
PT = ["void *@", "char *@", "const char *@", "int **@", "void (*@)(int)", "struct opq_P *@", "const struct opq_P *const *@", "unsigned long *@"]
PV = ["0", "PTR(1)", "PTR(2)", "PTR(0x100000000)", "PTR(0x100000001)"]
BITS = ["int", "unsigned int", "unsigned int", "_Bool", "unsigned short", "long", "unsigned long", "unsigned char", "enum"]


class Gen:
    """Turns type trees of the specification into C."""

    def __init__(self, rng, prefix):
        self.r, self.p, self.n = rng, prefix, 0
        self.decls = ["struct opq_%s;" % prefix, "enum en_%s { EA_%s, EB_%s = 7, EC_%s };" % (prefix, prefix, prefix, prefix),
                      "typedef short td_%s;" % prefix,
                      "enum ew_%s { WA_%s = -1, WB_%s = 1, WC_%s = 0x100000001 };" % ((prefix,) * 4), "enum eu_%s { UA_%s, UB_%s = 0xf0000000u };" % ((prefix,) * 3),
                      "typedef enum { FA_%s, FB_%s = 2000000000 } et_%s;" % (prefix, prefix, prefix)]
        self.fns, self.types = [], []

    def uid(self, k):
        self.n += 1
        return "%s_%s%d" % (self.p, k, self.n)

    def scalar(self, union):
        r = self.r
        x = r.random()
        if x < .1:
            return ("enum en_" + self.p, ["EA_" + self.p, "EB_" + self.p, "EC_" + self.p], "%lld", "%lld", "long long")
        if x < .13:
            return ("enum ew_" + self.p, ["WA_" + self.p, "WB_" + self.p, "WC_" + self.p], "%lld", "%lld", "long long")
        if x < .16:
            return ("enum eu_" + self.p, ["UA_" + self.p, "UB_" + self.p], "%lld", "%lld", "long long")
        if x < .2:
            return ("et_" + self.p, ["FA_" + self.p, "FB_" + self.p], "%lld", "%lld", "long long")
        if x < .26:
            return ("td_" + self.p,) + SC["short"]
        ks = [k for k in SC if not (union and k in ("_Bool", "char", "signed char", "unsigned char"))]
        k = r.choice(ks)
        return (k,) + SC[k]

    def ptr(self):
        return (self.r.choice(PT).replace("_P", "_" + self.p), PV, "%p", "%p", "const void *")

    def record(self, t, union=False, own=True):
        """A concrete record for a type tree; own: a type with a name of its own, declared here."""
        r = self.r
        union = union or t["u"]
        ms = [self.member(m, union) for m in t["ms"]]
        kw = "union" if t["u"] else "struct"
        body = "{ " + " ".join(m["text"] for m in ms) + " }"
        rec = {"u": t["u"], "ms": ms}
        if own:
            tag = self.uid("R")
            x = r.random()
            if x < .6:
                self.decls.append("%s %s %s;" % (kw, tag, body))
                rec["name"], rec["cmp"] = "%s %s" % (kw, tag), "%s_%s" % (kw, tag)
            elif x < .85:
                self.decls.append("typedef %s %s %s;" % (kw, body, tag))
                rec["name"] = rec["cmp"] = tag
            else:
                self.decls.append("typedef %s %s_s %s %s;" % (kw, tag, body, tag))
                rec["name"] = rec["cmp"] = tag
        else:
            rec["text"] = "%s %s" % (kw, body)
        return rec

    def member(self, m, union):
        r = self.r
        k, n = m["k"], m["n"]
        o = {"k": k, "n": n, "c": m["c"]}
        const = "const " if r.random() < .08 else ""
        if k == "pad":
            o["text"] = r.choice(["unsigned int : 5;", "int : 3;", "unsigned int : 0;", "int : 13;"])
        elif k == "bits":
            b = r.choice([x for x in BITS if not (union and x == "_Bool")])
            if b == "enum":
                b, w, f, vals = "enum en_" + self.p, r.choice([4, 5, 17, 32]), "%lld", ["0", "7", "8"]
            elif b == "_Bool":
                w, vals, f = 1, ["0", "1"], "%u"
            elif b == "unsigned char":
                w, vals, f = 7, ["33", "97", "65"], "%c"
                if union:
                    b, f = "unsigned short", "%hu"
            elif b == "unsigned short":
                w, f = r.choice([1, 7, 16]), "%hu"
            elif b in ("int", "unsigned int"):
                w, f = r.choice([1, 2, 3, 9, 17, 31, 32]), "%d" if b == "int" else "%u"
            else:
                w, f = r.choice([1, 5, 33, 47, 64]), "%ld" if b == "long" else "%lu"
            if f != "%c" and b != "_Bool" and "enum" not in b:
                if b in ("int", "long"):
                    vals = ["0", "-1"] + (["%dl" % ((1 << (w - 1)) - 1)] if w > 1 else [])
                else:
                    vals = list(dict.fromkeys(["0", "1ul", "%dul" % ((1 << w) - 1), "%dul" % (1 << (w - 1))]))
            o.update(text="%s %s : %d;" % (b, n, w), v=vals, f=f, t="%d" if f in ("%c", "%hu") else f, bits=True,
                     cast={"%c": "int", "%hu": "int", "%d": "int", "%u": "unsigned", "%ld": "long", "%lu": "unsigned long", "%lld": "long long"}[f])
        elif k in ("scalar", "ptr", "sarr"):
            s = self.scalar(union) if k == "scalar" or (k == "sarr" and r.random() < .7) else self.ptr()
            d = s[0] if "@" in s[0] else const + s[0] + " @"
            o.update(text=d.replace("@", n + ("[%d]" % m["c"] if k == "sarr" else "")) + ";", v=s[1], f=s[2], t=s[3], cast=s[4],
                     ty=s[0].replace("@", "") if "(*@)" not in s[0] else "void (*)(int)", bits=False)
        elif k == "anon":
            o["r"] = self.record(m["r"], union, False)
            o["text"] = o["r"]["text"] + ";"
        elif k == "inl" or (k == "rarr" and r.random() < .3):
            o["r"] = self.record(m["r"], union, False)
            t = o["r"]["text"]
            if r.random() < .4:
                t = t.replace(" ", " %s " % self.uid("I"), 1)
            o["text"] = "%s %s%s;" % (t, n, "[%d]" % m["c"] if k == "rarr" else "")
        else:
            o["r"] = self.record(m["r"], union, True)
            if any(l[3]["bits"] for l in self.leaves(o["r"])):
                const = ""
            o["text"] = "%s%s %s%s;" % (const, o["r"]["name"], n, "[%d]" % m["c"] if k == "rarr" else "")
        return o

    def leaves(self, rec, path="", names=(), idx=(), act=()):
        """(access, names, indices, member, [(union access path, chosen member)])"""
        out = []
        for j, m in enumerate(rec["ms"]):
            a = act + ((path, len(act), j),) if rec["u"] else act
            q = path + m["n"]
            if m["k"] == "pad":
                continue
            if m["k"] == "anon":
                # an anonymous union shares the path of its parent: number it by its position
                out += self.leaves(m["r"], path, names, idx, a + (("", j, 0),) if False else a)
            elif m["k"] == "sarr":
                out += [(q + "[%d]" % x, names + (m["n"],), idx + (x,), m, a) for x in range(m["c"])]
            elif m["k"] == "rarr":
                for x in range(m["c"]):
                    out += self.leaves(m["r"], "%s[%d]." % (q, x), names + (m["n"],), idx + (x,), a)
            elif m["k"] in ("rec", "inl"):
                out += self.leaves(m["r"], q + ".", names + (m["n"],), idx, a)
            else:
                out.append((q, names + (m["n"],), idx, m, a))
        return out

    def function(self, rec):
        f = self.uid("f")
        r = self.r
        x = r.random()
        if x < .4:
            self.fns.append("void %s(%s *p);" % (f, rec["name"]))
        elif x < .8:
            self.fns.append("void %s(%s p);" % (f, rec["name"]))
        else:
            self.fns.append("int %s(const %s *p, int i);" % (f, rec["name"]))


def active(leaves, rng):
    """Indices of the leaves to assign: of the alternatives of a union, one."""
    chosen, out = {}, []
    for i, l in enumerate(leaves):
        ok = True
        for key in l[4]:
            u = key[:2]
            if u not in chosen:
                alts = sorted({k[2] for x in leaves for k in x[4] if k[:2] == u})
                chosen[u] = rng.choice(alts)
            if chosen[u] != key[2]:
                ok = False
                break
        if ok:
            out.append(i)
    return out


HEAD = r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "easyMock_h.h"
#define PTR(x) (void*)(unsigned long)(x)
static char msg[EASYMOCK_MAX_CMP_ERR];
static void begin(int t, int rc) { unsigned i; printf("C\t%d\t%d\t%d\t", t, rc, memchr(msg, 0, sizeof msg) != 0); for(i = 0; i < sizeof msg && msg[i]; i++) printf("%02x", (unsigned char)msg[i]); printf("\n"); }
static double nz(double x) { return x == 0 ? 0 : x; }
static long double nzl(long double x) { return x == 0 ? 0 : x; }
static const char *w128(int k, unsigned __int128 x) { static char b[4][64]; sprintf(b[k], "0x%llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x); return b[k]; }
"""


def program(types):
    """types: (type number, record, leaves, comparisons [(variants of cur, variants of exp, differing?, name, deref)])."""
    src = [HEAD]
    main = []
    for t, rec, leaves, comps in types:
        src.append("static void set%d(%s *o, int l, int v) { switch(l) {" % (t, rec["name"]))
        for i, (acc, names, idx, m, act) in enumerate(leaves):
            if m["bits"]:
                src.append("case %d: switch(v) { %s } break;" % (i, " ".join("case %d: o->%s = %s; break;" % (j, acc, v) for j, v in enumerate(m["v"]))))
            else:
                ty = m["ty"]
                d = "void *x = " if m["f"] == "%p" else ty + " x = "
                src.append("case %d: switch(v) { %s } break;" % (i, " ".join(
                    "case %d: { %s%s; memcpy((void*)&o->%s, &x, sizeof x); break; }" % (j, d, v, acc) for j, v in enumerate(m["v"]))))
        src.append("} }")
        src.append("static void dump%d(const %s *a, const %s *b) {" % (t, rec["name"], rec["name"]))
        for i, (acc, names, idx, m, act) in enumerate(leaves):
            fmt = "L\\t%d\\t" % i + "\\t".join(x.replace("x128", "%s").replace("i128", "%s") for x in [m["t"], m["t"], m["f"], m["f"]]) + "\\n"
            exact = {"%a": "nz((double)%s)", "%La": "nzl(%s)", "x128": "w128(K, %s)"}.get(m["t"], "(" + m["cast"] + ")%s")
            shown = "w128(K, %s)" if m["f"] == "i128" else "(" + m["cast"] + ")%s" if m["bits"] or m["f"] in ("%p", "%lld") else "%s"
            src.append('printf("%s", %s);' % (fmt, ", ".join((w % (o + "->" + acc)).replace("(K", "(%d" % k) for k, (w, o) in
                                                          enumerate([(exact, "a"), (exact, "b"), (shown, "a"), (shown, "b")]))))
        src.append("}")
        for cur, exp, name, deref in comps:
            init = []
            for o, vs in (("a", cur), ("b", exp)):
                for i, v in vs:
                    init.append("set%d(%s, %d, %d);" % (t, o, i, v))
            pad = rec["u"] or any(l[4] for l in leaves)
            main.append('{ %s *a = malloc(sizeof *a), *b = malloc(sizeof *b); memset((void*)a, 0, sizeof *a); memset((void*)b, %s, sizeof *b); %s memset(msg, 0, sizeof msg); const void *pa = a, *pb = b; int rc = %s; begin(%d, rc); dump%d(a, b); free(a); free(b); }' % (
                rec["name"], "0" if pad else "0xff", " ".join(init),
                ('cmp_deref_ptr_%s(&pa, &pb, "%s", msg)' if deref else 'cmp_%s(pa, pb, "%s", msg)') % (rec["cmp"], name), t, t))
    # several functions keep the compiler quick
    fs = []
    for i in range(0, len(main), 40):
        src.append("static void run%d(void) {\n%s\n}" % (i, "\n".join(main[i:i + 40])))
        fs.append("run%d();" % i)
    src.append("int main(void) { %s return 0; }" % " ".join(fs))
    return "\n".join(src) + "\n"


def parse(msg, name, cut):
    """What a message shows, to be compared with the leaves."""
    q = re.findall(r"'([^']*)'", msg)
    if len(q) < 4:
        return None
    field = q[-3]
    idx = re.findall(r"\d+", re.sub(r"'[^']*'", "", msg)) or re.findall(r"\[(\d+)\]$", field)
    par = re.sub(r"\[\d*\]", "", q[0])
    if par != name and not par.startswith(name + "."):
        return None
    path = par[len(name):].split(".")[1:]
    path += re.sub(r"\[[^\]]*\]", "", field).split(".")
    return {"p": path, "i": int(idx[-1]) if idx else -1, "cur": q[-2], "exp": q[-1]}


def tree_types(t):
    return {"u": t["u"], "ms": [{"k": m["k"], "n": m["n"], "c": m["c"], "r": tree_types(m["r"])} for m in t["ms"]]}


def random_tree(rng, depth, names=None, top=True):
    names = names if names is not None else []
    ms = []
    for _ in range(rng.randint(1, 5 if top else 4)):
        def fresh():
            while True:
                n = rng.choice(["a", "b", "c", "i", "x", "idx", "val", "fld", "n"]) + rng.choice(["", "", "1", "2", "_x"])
                if n not in names and n not in ("idx", "a", "b"):
                    names.append(n)
                    return n
        k = rng.choice(["scalar", "scalar", "bits", "ptr", "sarr", "pad"] + (["rec", "inl", "anon", "rarr"] if depth else []))
        none = {"u": False, "ms": []}
        if k in ("scalar", "bits", "ptr", "pad"):
            ms.append({"k": k, "n": fresh() if k != "pad" else "pad", "c": 0, "r": none})
        elif k == "sarr":
            ms.append({"k": k, "n": fresh(), "c": rng.choice([1, 2, 3, 11] * 4 + [260]) if top else rng.choice([1, 2, 3, 11]), "r": none})
        elif k == "anon":
            ms.append({"k": k, "n": "anon", "c": 0, "r": random_tree(rng, depth - 1, names, False)})
        else:
            ms.append({"k": k, "n": fresh(), "c": rng.choice([1, 2, 3]) if k == "rarr" else 0, "r": random_tree(rng, depth - 1, None, False)})
    if not any(m["k"] != "pad" for m in ms):
        ms.append({"k": "scalar", "n": "last" + str(len(names)), "c": 0, "r": {"u": False, "ms": []}})
        names.append(ms[-1]["n"])
    return {"u": rng.random() < .25, "ms": ms}


def job(tree, seed, trees, ncomp, gentypes, keep=False):
    import random
    rng = random.Random(seed)
    g = Gen(rng, "q%d" % (seed % 100))
    types, ok = [], []
    for t in trees:
        rec = g.record(t)
        g.function(rec)
        leaves = g.leaves(rec)
        comps = []
        name = rng.choice(["p", "param", "a_name_" + "x" * rng.choice([3, 60])])
        for k in range(ncomp):
            act = active(leaves, rng)
            cur = [(i, rng.randrange(len(leaves[i][3]["v"]))) for i in act]
            exp = list(cur)
            nd = [0, 1, 1, 1, 2][k % 5] if k else 0
            for _ in range(nd):
                if exp:
                    x = rng.randrange(len(exp))
                    vs = len(leaves[exp[x][0]][3]["v"])
                    exp[x] = (exp[x][0], (exp[x][1] + rng.randrange(1, max(2, vs))) % vs)
            comps.append((cur, exp, name, rng.random() < .4))
        types.append((len(types), rec, leaves, comps))
        ok.append((t, name))
    text = "#ifndef Q_H\n#define Q_H\n" + "\n".join(g.decls + g.fns) + "\n#endif\n"
    d = scratch("cmp")
    od = os.path.join(d, "out")
    os.makedirs(od)
    with open(os.path.join(d, "h.h"), "w") as f:
        f.write(text)
    with open(os.path.join(od, "t.c"), "w") as f:
        f.write(program(types))
    res = {"dir": d, "lines": [], "bad": None, "n": len(trees)}
    p = run([tree.gen, "-i", "h.h", "-o", "out", "--generate-comparator-of", "EasyMock_all_comparators"] + (["--generate-types"] if gentypes else []), cwd=d)
    if p.returncode:
        res["bad"] = "EasyMockGenerate ends with %d: %s" % (p.returncode, p.stderr[-300:])
        return res
    inc = ["-I", tree.inc, "-I", od] + ([] if gentypes else ["-I", d])
    q = run(["gcc", "-w", "-O0", "-g0", "-fsanitize=undefined", "-fno-sanitize=alignment,bool,enum", "-fno-sanitize-recover=undefined"] + inc +
            [os.path.join(od, "easyMock_h.c"), os.path.join(od, "t.c"), "-L", tree.fwdir, "-lEasyMockFramework", "-Wl,-rpath," + tree.fwdir, "-o", os.path.join(d, "t")], cwd=od)
    if q.returncode:
        err = [x for x in q.stderr.splitlines() if "error" in x]
        res["bad"] = "the comparators do not compile: " + "; ".join(err[:3])
        if not any("easyMock_h" in x for x in err) and run(["gcc", "-w", "-fsyntax-only"] + inc + [os.path.join(od, "easyMock_h.c")]).returncode == 0 and not gentypes \
                and not any("cmp_" in x for x in err):
            raise Broken("comparator harness does not compile: " + q.stderr[:1500])
        return res
    r = run([os.path.join(d, "t")], timeout=120)
    if r.returncode:
        res["bad"] = "the comparators die (%d): %s" % (r.returncode, r.stderr[-300:])
    cur = None
    for line in r.stdout.splitlines():
        w = line.split("\t")
        if w[0] == "C":
            msg = bytes.fromhex(w[4]).decode("latin1")
            t, name = ok[int(w[1])]
            cut = len(msg) >= 255
            m = parse(msg, name, cut) if w[2] != "0" else None
            cur = {"type": tree_types(t), "rc": int(w[2]), "cut": cut and name in msg, "fits": w[3] == "1",
                   "msg": m or {"p": [], "i": -1, "cur": "", "exp": ""}, "leaves": [], "text": msg, "t": int(w[1])}
            res["lines"].append(cur)
        elif w[0] == "L":
            acc, names, idx, m, act = types[cur["t"]][2][int(w[1])]
            a, b = w[2], w[3]
            if "nan" in a:
                a, b = "nan1", b if "nan" not in b else "nan2"
            elif "nan" in b:
                b = "nan2"
            cur["leaves"].append({"p": list(names), "i": list(idx), "cur": a, "exp": b, "dcur": w[4], "dexp": w[5]})
    if not keep and not res["bad"]:
        shutil.rmtree(d, ignore_errors=True)
    return res


def arrays_of_arrays(c, tree):
    """Members that are arrays of arrays: judged apart, because the comparators compare addresses there."""
    for what, decl, dif in (("values", "struct S2 { int a; int m[2][2]; };", "y.m[1][1] = 3"),
                            ("records", "struct E2 { int v; }; struct S2 { int a; struct E2 m[2][2]; };", "y.m[1][1].v = 3")):
        d = scratch("cmp")
        with open(os.path.join(d, "h.h"), "w") as f:
            f.write("#ifndef H_\n#define H_\n%s\nvoid f2(struct S2 *p);\n#endif\n" % decl)
        with open(os.path.join(d, "t.c"), "w") as f:
            f.write('#include "easyMock_h.h"\n#include <stdio.h>\n#include <string.h>\nint main(void) { static struct S2 x, y; static char m[EASYMOCK_MAX_CMP_ERR];'
                    ' int a = cmp_struct_S2(&x, &y, "p", m); %s; printf("%%d %%d", a != 0, cmp_struct_S2(&x, &y, "p", m) != 0); return 0; }' % dif)
        key = "array of arrays of " + what
        if run([tree.gen, "-i", "h.h", "-o", ".", "--generate-comparator-of", "EasyMock_all_comparators"], cwd=d).returncode or \
           run(["gcc", "-w", "-I.", "-I", tree.inc, "easyMock_h.c", "t.c", "-L", tree.fwdir, "-lEasyMockFramework", "-Wl,-rpath," + tree.fwdir, "-o", "t"], cwd=d).returncode:
            c.violation("no comparator for a member that is an array of arrays of " + what, {"decl": decl}, key=key + ": none")
            continue
        o = run(["./t"], cwd=d, timeout=20).stdout
        if o != "0 1":
            c.violation("array of arrays of %s: equal contents are reported %s, different ones %s" % (what, *["as different" if v == "1" else "as equal" for v in o.split()]),
                        {"decl": decl}, key=key + ": " + o)


def check(c):
    tree = Tree()
    arrays_of_arrays(c, tree)
    out, st = tlc("MCComparator", workers=JOBS, extra=["-deadlock"], timeout=800, heap="6g")
    c.cov["states"], c.cov["transitions"] = st["distinct"], st["generated"]
    trees = [json.loads(b) for b in tlc_prints(out, "TYPE")]
    if len(trees) < 4000:
        raise Broken("the model emitted only %d types" % len(trees))
    c.cov["model_types"] = len(trees)
    rng = c.rng
    if not c.thorough:
        trees = rng.sample(trees, 1100)
    rng.shuffle(trees)
    jobs = []
    size = 25
    for i in range(0, len(trees), size):
        jobs.append((rng.randrange(1 << 30), trees[i:i + size], 6, rng.random() < .25))
    for _ in range(400 if c.thorough else 40):
        jobs.append((rng.randrange(1 << 30), [random_tree(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 4, 12]))], 14, rng.random() < .3))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: job(tree, *j), jobs))
    lines, where = [], []
    for r in res:
        if r["bad"]:
            c.violation(r["bad"], {"what": r["bad"]}, files=[r["dir"]], key="bad")
        lines += r["lines"]
        where += [r["dir"]] * len(r["lines"])
    mm, st2 = conform.validate("TraceComparator", lines, minchunk=300)
    for i, want in mm[:10]:
        e = lines[i]
        diff = [x for x in e["leaves"] if x["cur"] != x["exp"]]
        c.violation("comparator: verdict %d, message %r; members that differ: %s" % (e["rc"], e["text"], json.dumps(diff)[:500]),
                    {"line": e}, key="verdict" if (e["rc"] == 0) != (not diff) else "message")
    c.cov.update({"types": sum(r["n"] for r in res), "comparisons": len(lines), "mismatches_reported": sum(1 for e in lines if e["rc"]),
                  "traces_validated_against_impl": len(lines), "headers": len(res)})
    if not c.violations:
        c.cov["selftest_corrupted"] = conform.selftest("TraceComparator", lines[:20], lambda e: dict(e, rc=0 if e["rc"] else -1, cut=True))
        bad = [dict(e, cut=False) for e in lines if e["rc"]][:20]
        c.cov["selftest_corrupted"] += conform.selftest("TraceComparator", bad, lambda e: dict(e, msg=dict(e["msg"], exp=e["msg"]["exp"] + "0")))
    c.sample({"type": lines[0]["type"], "message": lines[1]["text"]})
    c.assumptions += ["float values in messages to six digits", "the index of an element of an array of records is not part of the message",
                      "one-dimensional arrays (members that are arrays of arrays are probed apart: known finding)"]
