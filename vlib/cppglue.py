"""C++ headers (namespaces, classes, overloads, references) and the C++ that drives their mocks."""
from cmodel import *
from cgen import HdrGen
from cglue import Conv, NTOK, NOUT
import re


class ClassD(Record):
    """A class usable as a type (one public data member) whose member functions are mocked."""

    def __init__(self, name, ns):
        Record.__init__(self, "class", name, [Field(Prim("int"), "v_" + name)])
        self.ns, self.fns = ns, []
        self.access = {}

    @property
    def spelling(self):
        return self.tag

    def text(self):
        s = "class %s {\npublic:\n  int %s;\n" % (self.tag, self.fields[0].name)
        for f in self.fns:
            s += "%s:\n  %s%s;\n" % (f.access, f.text(), " const" if f.cconst else "")
        return s + "};"


class EnumClass(Enum):
    def text(self):
        return Enum.text(self).replace("enum ", "enum class ", 1)


class CppHeader(Header):
    """items: list of (namespaces, ClassD or Fn) in order of declaration"""
    cpp = True

    def __init__(self, name, decls, items):
        fns = []
        for ns, x in items:
            fns += x.fns if isinstance(x, ClassD) else [x]
        Header.__init__(self, name, decls, fns)
        self.items = items

    def text(self):
        g = "GUARD_" + "".join(c if c.isalnum() else "_" for c in self.name).upper()
        s = "#ifndef %s\n#define %s\n#include <stdint.h>\n#include <stddef.h>\n" % (g, g)
        for d in self.decls:
            s += d.text() + "\n"
        for ns, x in self.items:
            t = x.text() + ("" if isinstance(x, ClassD) else ";")
            s += "".join("namespace %s {\n" % n for n in ns) + t + "\n" + "}" * len(ns) + ("\n" if ns else "")
        return s + "#endif\n"


class CppGen(HdrGen):
    """Headers in which names are reused: the same few function names in several namespaces and classes, and overloaded."""

    def prim(self):
        return Prim(self.r.choice([p for p in PRIMS]))

    value_prim = prim

    def enum(self):
        t = HdrGen.enum(self)
        d = t.d
        if d.tag and not d.td and self.r.random() < .5:
            self.decls[self.decls.index(d)] = e = EnumClass(d.tag, d.values)
            return Named(e, d.tag)
        return t

    def cls_types(self):
        return [d for d in self.decls + [x for _, x in self.items] if isinstance(d, ClassD) and not d.ns]

    def a_class(self):
        c = self.cls_types()
        return Named(self.r.choice(c)) if c else self.a_record()

    def param(self):
        r = self.r
        x = r.random()
        if x < .35:
            t = self.ref_target()
            return Ref(self.maybe_const(t, .45))
        if x < .43:
            return Prim("bool")
        if x < .58:
            t = self.a_class()
            return Ptr(self.maybe_const(t, .35)) if r.random() < .7 or isinstance(t.d, ClassD) and t.d is self.cur else t
        t = HdrGen.param(self)
        if isinstance(t, Const) and isinstance(canon(t), Ptr) and isinstance(canon(canon(t).to), Func):
            t = t.of
        return t

    def ref_target(self):
        r = self.r
        x = r.random()
        if x < .3:
            return self.prim()
        if x < .4:
            return Prim("bool")
        if x < .6:
            return self.a_record()
        if x < .8:
            return self.a_class()
        if x < .9:
            return self.scalar()
        return Ptr(self.maybe_const(self.prim()))

    def ret(self):
        r = self.r
        x = r.random()
        if x < .2:
            t = self.ref_target()
            while isinstance(canon(t), Prim) and canon(t).name == "bool":
                t = self.ref_target()
            return Ref(self.maybe_const(t, .4))
        if x < .25:
            return Prim("bool")
        if x < .35:
            t = self.a_class()
            return t if not (isinstance(t.d, ClassD) and t.d is self.cur) else Ptr(t)
        return HdrGen.ret(self)

    def header(self, name, nscopes=4, nfns=14):
        r = self.r
        self.items, self.cur = [], None
        names = [self.uid("fn") for _ in range(4)]
        nsn = [self.uid("N"), self.uid("M"), self.uid("O")]
        nss = [[], [nsn[0]], [nsn[0], nsn[1]], [nsn[2]], [nsn[2], nsn[1]]]
        clsn, gclsn = [self.uid("K"), self.uid("L")], [self.uid("G"), self.uid("H")]
        classes = {}
        used = {}
        recent = None
        for _ in range(nfns):
            ns = r.choice(nss)
            cl = r.choice([None, None] + (clsn if ns else gclsn))
            fname = r.choice(names)
            self.cur = classes.get((tuple(ns), cl))
            f = self.fn(4, name=fname)
            f.variadic = f.variadic and r.random() < .5
            if recent is not None and r.random() < .45:
                # the same parameter types as a namesake elsewhere
                f = Fn(recent.name, recent.ret, [(t, self.uid("p") if n else None) for t, n in recent.params])
                fname = f.name
            elif r.random() < .5:
                recent = f
            f.east = False
            f.prefix = ""
            key = (tuple(ns), cl, fname)
            # overloads differ in what they take, however they are called
            sig = tuple(decl(strip_const(t), "") for t, _ in f.params)
            np = [len(x) for x in used.get(key, [])]
            if sig in used.get(key, []) or len(f.params) in np and r.random() < .5:
                continue
            # only one parameter list of each length may be met by the same arguments
            if any(len(x) == len(sig) and not distinct(x, sig) for x in used.get(key, [])):
                continue
            if used.get(key) and all(n is None for _, n in f.params) and f.params:
                continue
            used.setdefault(key, []).append(sig)
            f.ns, f.over = list(ns), key
            f.sname = "/".join(list(ns) + ([cl] if cl else []) + ["%s#%d" % (fname, len(used[key]))])
            if cl:
                k = (tuple(ns), cl)
                if k not in classes:
                    c = ClassD(cl, list(ns))
                    classes[k] = c
                    self.items.append((list(ns), c))
                c = classes[k]
                if any(uses(t, x) for t in [f.ret] + [t for t, _ in f.params] for x in later(self.items, c)):
                    used[key].pop()
                    continue
                f.cls, f.member = c, True
                f.cconst = r.random() < .3 and not has_func(f.ret)
                f.access = r.choice(["public", "public", "public", "protected", "private"])
                if r.random() < .25:
                    f.prefix = "virtual "
                    c.virtual = True
                f.variadic = False
                c.fns.append(f)
            else:
                if len(used[key]) > 1:
                    f.variadic = False
                if r.random() < .15:
                    f.prefix = "extern "
                self.items.append((list(ns), f))
        self.items = [(ns, x) for ns, x in self.items if not isinstance(x, ClassD) or x.fns]
        # a class with virtual functions is no plain data any more: only used through its objects
        for c in [x for _, x in self.items if isinstance(x, ClassD)]:
            if getattr(c, "virtual", False) and any(uses(t, c) for f in allfns(self.items) for t in [f.ret] + [t for t, _ in f.params]):
                for f in c.fns:
                    f.prefix = ""
        for f in allfns(self.items):
            scope = "::".join(f.ns + ([f.cls.tag] if f.cls else []) + [f.name])
            rx = r"(?<![\w:])%s\s*\(" % re.escape(scope)
            if len(used[f.over]) > 1:
                # the mock may show the name of a parameter with a prefix
                f.params = [(t, self.uid("p") if n and not n.startswith(self.p) else n) for t, n in f.params]
                n = next((n for _, n in f.params if n), None)
                rx += r".*\b%s\b" % n if n else r"\s*(?:void)?\s*\)"
                f.sigre = rx
            else:
                f.sigre = rx
        return CppHeader(name, self.decls, self.items)


def allfns(items):
    for _, x in items:
        yield from (x.fns if isinstance(x, ClassD) else [x])


def later(items, c):
    k = [x for _, x in items].index(c)
    return [x for _, x in items[k + 1:] if isinstance(x, ClassD)]


def uses(t, c):
    if isinstance(t, Named):
        return t.d is c
    for a in ("of", "to", "ret"):
        if hasattr(t, a) and uses(getattr(t, a), c):
            return True
    return any(uses(p, c) for p in getattr(t, "params", []))


def has_func(t):
    if isinstance(t, Func):
        return True
    return any(hasattr(t, a) and has_func(getattr(t, a)) for a in ("of", "to"))


def distinct(a, b):
    """Are two parameter lists of the same length told apart by the types of the matchers?"""
    norm = lambda s: tuple(x.replace("const ", "").replace("&", "").strip() for x in s)
    return norm(a) != norm(b)


class CppConv(Conv):
    def prim_val(self, p):
        if p == "bool":
            return ["false", "true", "true", "true"]
        return Conv.prim_val(self, p)


def uarg(t):
    c = canon(t)
    if isinstance(c, Arr):
        return Ptr(c.of)
    if isinstance(c, Func):
        return Ptr(c)
    return strip_const(t)


def ptype(t):
    """the type of the parameter as the mock sees it"""
    c = canon(t)
    if isinstance(c, Arr):
        return Ptr(c.of)
    return t


def glue(hdr, table, mockhdr=None):
    cv = CppConv()
    body, rows = [], []
    insts = {}
    for fi, f in enumerate(hdr.fns):
        np = len(f.params)
        kinds = [out_kind(t) for t, _ in f.params]
        ks, refs = [], []
        for p, (t, n) in enumerate(f.params):
            ref = isinstance(t, Ref)
            refs.append(ref)
            body.append("typedef %s;" % decl(ptype(t), "pt_%d_%d" % (fi, p)))
            if ref:
                k = cv.get(strip_const(t.to))
                body.append("static cv%d_t ro_%d_%d[%d];" % (k, fi, p, NTOK))
                body.append("static int ptok_%d_%d(const cv%d_t *x) { for(int t = 0; t < %d; t++) if(x == &ro_%d_%d[t]) return t; return -9; }" % (fi, p, k, NTOK, fi, p))
            else:
                k = cv.get(uarg(t))
                if kinds[p] != "none":
                    if kinds[p] == "raw":
                        body.append("static struct { unsigned char pre[32]; unsigned char v[64] __attribute__((aligned(16))); unsigned char post[32]; } cb_%d_%d[%d];" % (fi, p, NTOK))
                        body.append("static unsigned char oo_%d_%d[%d][64] __attribute__((aligned(16)));" % (fi, p, NOUT))
                    else:
                        ok = cv.get(pointee(t))
                        body.append("static struct { unsigned char pre[32]; cv%d_t v __attribute__((aligned(16))); unsigned char post[32]; } cb_%d_%d[%d];" % (ok, fi, p, NTOK))
                        body.append("static cv%d_t oo_%d_%d[%d];" % (ok, fi, p, NOUT))
                    body.append("static int ptok_%d_%d(const cv%d_t *x) { if(*x == 0) return 0; for(int t = 1; t < %d; t++) if((const void*)*x == (const void*)&cb_%d_%d[t].v) return t; return -9; }"
                                % (fi, p, k, NTOK, fi, p))
                    body.append("static void pset_%d_%d(cv%d_t *x, int t) { *x = t == 0 ? (cv%d_t)0 : (cv%d_t)(void*)&cb_%d_%d[t].v; }" % (fi, p, k, k, k, fi, p))
                else:
                    body.append("static int ptok_%d_%d(const cv%d_t *x) { return tok_%d(x); }" % (fi, p, k, k))
                    body.append("static void pset_%d_%d(cv%d_t *x, int t) { set_%d(x, t); }" % (fi, p, k, k))
            ks.append(k)
            nm = '"%s"' % n if n else "0"
            for mode in range(1, 7):
                body.append("static bool m_%d_%d_%d(const pt_%d_%d& cur, const pt_%d_%d& exp, const std::string name, std::ostringstream& err) { "
                            "char b[512] = {0}; int r = vf_match(%s_base + %d, %d, %d, %s, name.c_str(), b, ptok_%d_%d((const cv%d_t *)&cur), ptok_%d_%d((const cv%d_t *)&exp)); err << b; return r != 0; }"
                            % (fi, p, mode, fi, p, fi, p, table, fi, p + 1, mode, nm, fi, p, k, fi, p, k))
            body.append("static const ::EasyMock::EasyMock_Matcher_Cpp<pt_%d_%d> mt_%d_%d[] = {0, %s};" % (fi, p, fi, p, ", ".join("m_%d_%d_%d" % (fi, p, m) for m in range(1, 7))))
        rref = isinstance(f.ret, Ref)
        rk = None if f.void else cv.get(strip_const(f.ret.to) if rref else f.ret)
        if rref:
            body.append("static cv%d_t rr_%d[%d];" % (rk, fi, NTOK))
        full = "::".join([""] + f.ns + ([f.cls.tag] if f.cls else []) + [f.name])
        cls = "::".join([""] + f.ns + [f.cls.tag]) if f.cls else None
        if cls and cls not in insts:
            insts[cls] = "inst_%d" % len(insts)
            body.append("static %s %s[2];" % (cls, insts[cls]))
        s = ["static void expect_%d(const int *a) {" % fi, "  (void)a;"]
        args, outs = [], []
        if cls:
            args.append("vf_inst == 0 ? (%s*)0 : &%s[vf_inst - 1]" % (cls, insts[cls]))
        for p, (t, n) in enumerate(f.params):
            if refs[p]:
                s.append("  for(int t = 0; t < %d; t++) set_%d(&ro_%d_%d[t], t);" % (NTOK, ks[p], fi, p))
                args.append("ro_%d_%d[a[%d]]" % (fi, p, 2 + 4 * p))
            else:
                s.append("  cv%d_t p%d; pset_%d_%d(&p%d, a[%d]);" % (ks[p], p, fi, p, p, 2 + 4 * p))
                args.append("p%d" % p)
        if rref:
            s.append("  for(int t = 0; t < %d; t++) set_%d(&rr_%d[t], t);" % (NTOK, rk, fi))
            args.append("rr_%d[a[1]]" % fi)
        elif not f.void:
            s.append("  cv%d_t r; set_%d(&r, a[1]);" % (rk, rk))
            args.append("r")
        for p in range(np):
            args.append("mt_%d_%d[a[%d]]" % (fi, p, 3 + 4 * p))
        for p in range(np):
            if kinds[p] != "none":
                outs.append("a[%d] < 0 ? (cv%d_t)0 : (cv%d_t)(void*)&oo_%d_%d[a[%d]]" % (4 + 4 * p, ks[p], ks[p], fi, p, 4 + 4 * p))
                if kinds[p] == "raw":
                    outs.append("(easyMock_size_t)a[%d]" % (5 + 4 * p))
        s.append("  if(!a[0]) { ::EasyMock%s::ExpectAndReturn(%s); return; }" % (full, ", ".join(args)))
        if outs:
            s.append("  ::EasyMock%s::ExpectReturnAndOutput(%s);" % (full, ", ".join(args + outs)))
        else:
            s.append("  abort();")
        s.append("}")
        body += s
        s = ["static void mut_%d(int p, int i, int c) { (void)p; (void)i; (void)c;" % fi]
        for p in range(np):
            if kinds[p] == "raw":
                s.append("  if(p == %d) for(unsigned j = 0; j < sizeof(oo_%d_%d[i]); j++) oo_%d_%d[i][j] = VF_RAW(c, j);" % (p + 1, fi, p, fi, p))
            elif kinds[p] == "sized":
                s.append("  if(p == %d) set_%d(&oo_%d_%d[i], c);" % (p + 1, cv.get(pointee(f.params[p][0])), fi, p))
        s.append("}")
        body += s
        s = ["static void call_%d(const int *a) {" % fi, "  (void)a;"]
        cargs = []
        for p, (t, n) in enumerate(f.params):
            if kinds[p] != "none":
                s.append("  for(int t = 0; t < %d; t++) memset((void*)&cb_%d_%d[t], 0xA5, sizeof(cb_%d_%d[t]));" % (NTOK, fi, p, fi, p))
            if refs[p]:
                s.append("  for(int t = 0; t < %d; t++) set_%d(&ro_%d_%d[t], t);" % (NTOK, ks[p], fi, p))
                cargs.append("ro_%d_%d[a[%d]]" % (fi, p, p))
            else:
                s.append("  cv%d_t p%d; pset_%d_%d(&p%d, a[%d]);" % (ks[p], p, fi, p, p, p))
                cargs.append("p%d" % p)
        if f.variadic:
            cargs += ["1", "2.5", '"x"']
        what = ("%s[vf_inst - 1].%s" % (insts[cls], f.name)) if cls else full
        callx = "%s(%s)" % (what, ", ".join(cargs))
        if f.void:
            s.append("  %s;" % callx)
            s.append("  vf_ret(0);")
        elif rref:
            s.append("  const cv%d_t *r = &%s; int tk = -8;" % (rk, callx))
            s.append("  for(int t = 0; t < %d; t++) if(r == &rr_%d[t]) tk = t;" % (NTOK, fi))
            s.append("  if(tk == -8) { cv%d_t z; set_%d(&z, 0); if(eq_%d(r, &z)) tk = 0; }" % (rk, rk, rk))
            s.append("  vf_ret(tk);")
        else:
            s.append("  cv%d_t r = %s;" % (rk, callx))
            s.append("  vf_ret(tok_%d(&r));" % rk)
        for p in range(np):
            if refs[p]:
                # what a reference designates belongs to the caller
                s.append("  { int w = -1; for(int t = 0; t < %d; t++) { cv%d_t x; set_%d(&x, t); if(!eq_%d(&x, &ro_%d_%d[t])) w = -9; } vf_out(w); }"
                         % (NTOK, ks[p], ks[p], ks[p], fi, p))
            elif kinds[p] == "none":
                s.append("  vf_out(-1);")
            elif kinds[p] == "raw":
                s.append("  { int w = -1; for(int t = 0; t < %d; t++) { int x = vf_raw((unsigned char*)&cb_%d_%d[t], sizeof(cb_%d_%d[t]), (unsigned char*)&cb_%d_%d[t].v - (unsigned char*)&cb_%d_%d[t]);"
                         " if(x != -1) w = (t == a[%d]) ? x : -9; } vf_out(w); }" % (NTOK, fi, p, fi, p, fi, p, fi, p, p))
            else:
                ok = cv.get(pointee(f.params[p][0]))
                s.append("  { int w = -1; for(int t = 0; t < %d; t++) { cv%d_t x; unsigned char s[sizeof(cb_%d_%d[t])]; memset(s, 0xA5, sizeof(s));"
                         " if(memcmp(s, (void*)&cb_%d_%d[t], sizeof(s)) == 0) continue;"
                         " if(t != a[%d]) { w = -9; break; } w = -9;"
                         " for(int c = 0; c < %d; c++) { set_%d(&x, c); memcpy(s + ((unsigned char*)&cb_%d_%d[t].v - (unsigned char*)&cb_%d_%d[t]), (void*)&x, sizeof(x));"
                         " if(memcmp(s, (void*)&cb_%d_%d[t], sizeof(s)) == 0) { w = c; break; } } } vf_out(w); }"
                         % (NTOK, ok, fi, p, fi, p, p, NTOK, ok, fi, p, fi, p, fi, p))
        s.append("}")
        body += s
        rows.append('  {"%s", %d, expect_%d, call_%d, mut_%d}' % (f.name, np, fi, fi, fi))
    import os
    stem = os.path.splitext(hdr.name)[0]
    src = ["/* generated */", "#include <string.h>", "#include <stdlib.h>", "#include <string>", "#include <sstream>", '#include "vf.h"',
           '#include "%s"' % (mockhdr or "easyMock_" + stem + ".h"), "static int %s_base;" % table]
    src += cv.code + body
    src.append("static const vf_fn rows[] = {\n%s\n};" % ",\n".join(rows or ["  {0,0,0,0,0}"]))
    src.append('extern "C" { extern const vf_table %s; const vf_table %s = {rows, %d, &%s_base}; }' % (table, table, len(rows), table))
    return "\n".join(src) + "\n"
