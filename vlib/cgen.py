"""Random headers of the supported grammar."""
from cmodel import *

INTS = [p for p in PRIMS if PRIMS[p][2] == "i"]
VALS = [p for p in PRIMS if p not in ("unsigned __int128",)]


# names a mock could want for itself
ODD_NAMES = ["errorMessage", "matcher", "error", "curCallVal", "expectedCallVal", "default_res", "currentCall", "to_return", "mockedData",
             "currentDataCall", "printCallStack", "checkCallsOrder", "curFuncCall", "instance", "rv", "i", "idx", "name", "data", "out", "size",
             "match", "param", "call", "result", "returnValue", "fun", "err"]


class HdrGen:
    def __init__(self, rng, prefix, rich=True):
        self.r, self.p, self.n = rng, prefix, 0
        self.decls = []
        self.rich = rich

    def uid(self, k):
        self.n += 1
        return "%s_%s%d" % (self.p, k, self.n)

    # ---- declarations
    def prim(self):
        return Prim(self.r.choice(list(PRIMS)))

    def value_prim(self):
        """of a value (a bool isn't used behind pointers: its two values can't tell the objects apart)"""
        return Prim("_Bool") if self.r.random() < .08 else self.prim()

    def enum(self):
        r = self.r
        tag, td = self.uid("e"), None
        if r.random() < .4:
            td = self.uid("et")
            if r.random() < .5:
                tag = None
        v, vals = 0, []
        for i in range(r.randint(2, 4)):
            vals.append((self.uid("E").upper(), None if r.random() < .5 else v + r.randint(0, 9)))
            v += 20
        # keep explicit values increasing so that no two enumerators collide
        cur, fixed = -1, []
        for n, x in vals:
            if x is None or x <= cur:
                x, cur = None, cur + 1
            else:
                cur = x
            fixed.append((n, x))
        d = Enum(tag, fixed, td)
        self.decls.append(d)
        return Named(d)

    def scalar(self, depth=0):
        r = self.r
        x = r.random()
        if x < .55:
            return self.value_prim()
        if x < .7:
            es = [d for d in self.decls if isinstance(d, Enum)]
            return Named(r.choice(es)) if es and r.random() < .7 else self.enum()
        if x < .85:
            return self.pointer()
        tds = [d for d in self.decls if isinstance(d, Typedef) and isinstance(canon(d.ty), (Prim, Ptr))]
        if tds and r.random() < .6:
            return Named(r.choice(tds))
        d = Typedef(self.uid("t"), self.value_prim())
        self.decls.append(d)
        return Named(d)

    def record(self, kind=None, nest=1):
        r = self.r
        kind = kind or ("union" if r.random() < .25 else "struct")
        fields = []
        if kind == "union":
            fields.append(Field(Prim("unsigned long long"), self.uid("m")))
            for i in range(r.randint(0, 2)):
                fields.append(Field(Prim(r.choice(["int", "float", "double", "char", "unsigned short"])), self.uid("m")))
        else:
            fields.append(Field(Prim(r.choice(["int", "unsigned int", "long", "uint16_t", "char"])), self.uid("m")))
            for i in range(r.randint(0, 4)):
                x = r.random()
                if x < .5:
                    fields.append(Field(self.scalar(), self.uid("m")))
                elif x < .65:
                    fields.append(Field(Prim("unsigned int"), self.uid("m"), r.randint(3, 9)))
                elif x < .8:
                    fields.append(Field(Arr(self.prim(), r.randint(1, 5)), self.uid("m")))
                elif nest > 0:
                    recs = [d for d in self.decls if isinstance(d, Record)]
                    if recs and r.random() < .6:
                        fields.append(Field(Named(r.choice(recs)), self.uid("m")))
                    else:
                        inner = self.record(nest=nest - 1)
                        fields.append(Field(inner, self.uid("m")))
            r.shuffle(fields)
        tag, td = self.uid("s"), None
        if r.random() < .45:
            td = self.uid("st")
            if r.random() < .5:
                tag = None
        d = Record(kind, tag, fields, td)
        self.decls.append(d)
        return Named(d)

    def fwd(self):
        d = Fwd(self.r.choice(["struct", "union"]), self.uid("fw"))
        self.decls.append(d)
        return Named(d)

    def a_record(self):
        recs = [d for d in self.decls if isinstance(d, Record)]
        return Named(self.r.choice(recs)) if recs and self.r.random() < .7 else self.record()

    def func(self, depth=1):
        r = self.r
        ret = Void() if r.random() < .3 else self.prim()
        ps = [self.prim() if r.random() < .6 else Ptr(self.maybe_const(self.prim())) for _ in range(r.randint(0, 3))]
        return Func(ret, ps)

    def maybe_const(self, t, p=.35):
        return Const(t) if self.r.random() < p and not isinstance(t, Const) else t

    def pointer(self):
        r = self.r
        x = r.random()
        if x < .3:
            base = self.prim()
        elif x < .5:
            base = self.a_record()
        elif x < .6:
            base = Void()
        elif x < .7:
            fw = [d for d in self.decls if isinstance(d, Fwd)]
            base = Named(r.choice(fw)) if fw and r.random() < .5 else self.fwd()
        elif x < .8:
            es = [d for d in self.decls if isinstance(d, Enum)]
            base = Named(r.choice(es)) if es else self.enum()
        elif x < .9:
            base = Prim("char")
        else:
            return Ptr(self.func())
        t = Ptr(self.maybe_const(base))
        if r.random() < .2:
            t = Ptr(self.maybe_const(t, .3))
        return t

    def tdptr(self):
        d = Typedef(self.uid("pt"), self.pointer())
        self.decls.append(d)
        return Named(d)

    def param(self):
        r = self.r
        x = r.random()
        if x < .35:
            t = self.scalar()
        elif x < .5:
            t = self.a_record()
        elif x < .85:
            t = self.pointer()
        elif x < .92:
            return Arr(self.maybe_const(self.prim(), .3), r.choice([None, 1, 4]))
        else:
            t = self.tdptr()
        if r.random() < .12 and not isinstance(canon(t), Func):
            t = Const(t) if not isinstance(t, Const) else t
        return t

    def ret(self):
        r = self.r
        x = r.random()
        if x < .2:
            return Void()
        if x < .55:
            return self.scalar()
        if x < .75:
            return self.a_record()
        t = self.pointer()
        return t

    def fn(self, nmax=5, name=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, nmax])
        ps = []
        odd = list(ODD_NAMES)
        r.shuffle(odd)
        for i in range(n):
            x = r.random()
            name_i = self.uid("p") if x < .83 else odd.pop() if x < .94 else None
            if name_i and not name_i.startswith("out_") and r.random() < .05:
                pre = [b for _, b in ps if b]
                name_i = "out_" + pre[-1] if pre and "out_" + pre[-1] not in pre else name_i
            ps.append((self.param(), name_i))
        f = Fn(name or self.uid("fn"), self.ret(), ps, variadic=bool(ps) and ps[-1][1] is not None and r.random() < .08)
        if r.random() < .15:
            f.prefix = "extern "
        f.east = r.random() < .15
        return f

    def header(self, name, nfns):
        fns = [self.fn() for _ in range(nfns)]
        return Header(name, self.decls, fns)
