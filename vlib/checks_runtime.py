"""C01..C10: the runtime of the C mocks against spec/EasyMock.tla."""
import copy, traceback
from runtime import *
from cgen import HdrGen

PROFILES = {
    "C01": [{}, dict(check=2.5, surplus=1.2), dict(order=0, surplus=.05, errs=.3, check=1.5)],
    "C02": [dict(expect=9, right=4, other=8, check=.1), dict(expect=6, other=9, init=.5)],
    "C03": [dict(surplus=5, check=.8), dict(surplus=2.5, order=1)],
    "C04": [dict(expect=9, right=7, other=4), {}],
    "C05": [dict(order=1.2, right=9, other=4), dict(order=.5, surplus=1.5, right=9, other=2)],
    "C06": [dict(init=2, surplus=2, order=.8), dict(init=1, check=1.5)],
    "C07": [dict(load=2, unload=1.6, check=1, init=.7)],
    "C08": [dict(errs=4, stack=.8, surplus=2, check=1, init=.4)],
    "C09": [dict(mut=2, expect=10, right=9), dict(order=.8)],
    "C10": [{}],
}


def sched_fn(g):
    """A function usable as the f of the exhaustive model: one output-capable parameter and at least one other."""
    r = g.r
    base = r.choice([g.prim(), g.a_record(), g.enum()]) if r.random() < .8 else Ptr(g.prim())
    ps = [(Ptr(base), g.uid("p")), (g.param(), g.uid("p"))]
    for _ in range(r.randint(0, 2)):
        ps.append((g.param(), g.uid("p")))
    r.shuffle(ps)
    ret = Void()
    while isinstance(ret, Void):
        ret = g.ret()
    return Fn(g.uid("sf"), ret, ps)


def huge_fn(g):
    d = Record("struct", g.uid("big"), [Field(Prim("int"), g.uid("m")), Field(Arr(Prim("int"), 20000), g.uid("m")), Field(Prim("short"), g.uid("m"))])
    g.decls.append(d)
    ps = [(g.param(), g.uid("p")), (Ptr(Named(d)), g.uid("p"))]
    return Fn(g.uid("hf"), Named(d), ps + ([(Named(d), g.uid("p"))] if g.r.random() < .5 else []))


def make_prog(tree, rng, name, nfns=5, ndyn=1, same_name=False, nstatic=2, rawsz=64):
    """A program with one or two statically linked mocked headers and ndyn loadable ones."""
    hdrs, dyn = [], []
    for i in range(nstatic + ndyn):
        g = HdrGen(rng, "%s%s" % (name, "abcdefg"[i]))
        isdyn = i >= nstatic
        fns = [] if i else [sched_fn(g)]
        if not isdyn and i == 1:
            # names that are the beginning of others, or differ far behind; values beyond 64 KiB
            b = g.uid("fn")
            fns += [g.fn(name=b + x) for x in ("", "x", "x_" + "long" * 30 + "a", "x_" + "long" * 30 + "b")] + [huge_fn(g)]
        else:
            fns += [g.fn() for _ in range(nfns if not isdyn else 3)]
        nm = ("same_%s.h" % name) if same_name and isdyn else "%s_%d.h" % (name, i)
        if rawsz > 64 and not i:
            # outputs of the size the caller says, beyond 64 KiB
            fns.append(Fn(g.uid("rf"), g.ret(), [(g.param(), g.uid("p")), (Ptr(Void()), g.uid("p"))]))
        h = Header(nm, g.decls, fns)
        h.rawsz = rawsz
        h.fid = "F%d" % i
        (dyn if isdyn else hdrs).append(h)
    p = Prog(tree, name, hdrs, dyn)
    p.rawsz = rawsz
    return p


# ------------------------------------------------------------------ schedules from the model
# per property: the actions whose interleavings matter, and how deep they are explored (quick, thorough)
ALPHABETS = {
    "C01": ("init expF expG expH callF callG callH check", 5, 6),
    "C02": ("init expF expG callF callG", 6, 7),
    "C03": ("expG expH callG callH order check errs", 6, 7),
    "C04": ("init expF expG callF callG", 6, 7),
    "C05": ("expF expG expH callF callG order", 6, 7),
    "C06": ("init expF expG callF callG check order", 5, 6),
    "C07": ("init load expG expH callG callH check", 6, 7),
    "C08": ("init errs expF callF callG check", 6, 7),
    "C09": ("expF expG callF callG mut order", 6, 7),
    "C10": ("init expG callG check", 6, 7),
}


def alphabet(prop):
    return "{" + ", ".join('"%s"' % x for x in ALPHABETS[prop][0].split()) + "}"


def model_schedules(c, prop, maxops):
    cfg = """SPECIFICATION MCSpec
CONSTANTS
  Fns <- MCFns
  Meta <- MCMeta
  StartLoaded <- MCStart
  Cap = 99
  MaxOps = %d
  Emit = TRUE
  Alphabet = %s
VIEW NoHist
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
""" % (maxops, alphabet(prop))
    out, st = tlc("MCEasyMock", cfg_text=cfg, timeout=1200, heap="6g")
    return [json.loads(x) for x in tlc_prints(out, "SCHED")], st


def model_check(c, maxops, prop=None):
    with open(os.path.join(SPEC, "MCEasyMock.cfg")) as f:
        cfg = re.sub(r"MaxOps = \d+", "MaxOps = %d" % maxops, f.read())
    if prop:
        cfg = cfg.replace("Alphabet <- FullAlphabet", "Alphabet = " + alphabet(prop))
    out, st = tlc("MCEasyMock", cfg_text=cfg, workers=JOBS, timeout=1500, heap="10g")
    return st


def concretise(sched, prog, rng):
    """Map a schedule over the model's f, g (file A) and h (file B) to the functions of prog."""
    H = Hist(rng, prog)
    m = H.m
    A = (prog.hdrs + prog.dyn)[0].fid
    static = [n for n, f, fid in prog.fns if fid == A]
    fs = [n for n in static if "sized" in m[n]["out"] and m[n]["np"] >= 2 and not m[n]["void"]]
    f = rng.choice(fs)
    g = rng.choice([n for n in static if n != f])
    B = prog.dyn[0 if prog.hdrs else 1].fid if prog.dyn else prog.hdrs[-1].fid
    h = rng.choice([n for n, _, fid in prog.fns if fid == B])
    fm = {"f": f, "g": g, "h": h}
    p1 = rng.choice([i for i, k in enumerate(m[f]["out"]) if k == "sized"])
    p2 = rng.choice([i for i in range(m[f]["np"]) if i != p1])

    def args(fn):
        return [rng.randint(1, 3) if k != "none" else rng.randint(0, 3) for k in m[fn]["out"]]

    def plain(fn, ret):
        n = m[fn]["np"]
        return {"ret": 0 if m[fn]["void"] else ret, "par": [rng.randint(0, 3) for _ in range(n)], "mat": [0] * n,
                "out": [-1] * n, "osz": [0] * n, "inst": 0}
    ops = []
    if not prog.hdrs:
        H.do_load(A)
    if prog.dyn:
        H.do_load(B)
    ops += H.ops
    pre = len(ops)
    for s in sched:
        o = s["op"]
        if o == "init":
            ops.append({"op": "init"})
        elif o == "expect":
            if s["f"] == "f":
                e = plain(f, s["e"]["ret"])
                for a, b in ((0, p1), (1, p2)):
                    for k in ("par", "mat", "out", "osz"):
                        e[k][b] = s["e"][k][a]
                ops.append({"op": "expect", "f": f, "e": e})
            else:
                ops.append({"op": "expect", "f": fm[s["f"]], "e": plain(fm[s["f"]], s["e"]["ret"] or rng.randint(1, 3))})
        elif o == "call":
            fn = fm[s["f"]]
            a = args(fn)
            if s["f"] == "f":
                a[p1], a[p2] = s["arg"][0], s["arg"][1]
            ops.append({"op": "call", "f": fn, "arg": a, "inst": 0})
        elif o in ("check", "errs"):
            ops.append({"op": o})
        elif o == "order":
            ops.append({"op": "order", "b": s["b"]})
        elif o == "mut":
            ops.append({"op": "mut", "f": f, "p": p1 + 1, "i": s["i"], "c": s["c"]})
        elif o == "unload":
            if not prog.dyn:
                return None
            ops.append({"op": "unload", "x": B})
        elif o == "load":
            k = len(H.ops)
            H.do_load(B)
            ops += H.ops[k:]
        else:
            raise KeyError(o)
    ops += [{"op": "errs"}, {"op": "check"}]
    return H.start, ops, pre


# ------------------------------------------------------------------ judging
def corrupt(ev, prop, rng):
    """A copy of the trace with one observation changed, which the specification must reject."""
    ev = copy.deepcopy(ev)
    idx = list(range(len(ev)))
    rng.shuffle(idx)
    for i in idx:
        e, o = ev[i], ev[i]["obs"]
        unexp = any(x["k"] == "unexpected" for x in o["new"])
        if prop in ("C01", "C06", "C07", "C10", "C12") and e["op"] == "check":
            o["ret"] = 1 - o["ret"]
        elif prop == "C02" and e["op"] == "call" and not unexp:
            o["ret"] += 1
        elif prop == "C03" and e["op"] == "call" and unexp:
            o["new"] = []
        elif prop == "C04" and e["op"] == "call" and o["mlog"]:
            o["mlog"] = o["mlog"][:-1]
        elif prop == "C05" and e["op"] == "call" and any(x["k"] == "order" for x in o["new"]):
            o["new"] = [x for x in o["new"] if x["k"] != "order"]
        elif prop == "C08" and e["op"] == "errs" and o["arr"]:
            o["arr"] = o["arr"][:-1]
        elif prop == "C09" and e["op"] == "call" and any(x >= 0 for x in o["outs"]):
            o["outs"] = [-1 for _ in o["outs"]]
        else:
            continue
        return ev
    return None


def nontrivial(prop, ev):
    k = set()
    for e in ev:
        o = e["obs"]
        for x in o["new"]:
            k.add(x["k"])
        if e["op"] == "call" and o["mlog"]:
            k.add("mlog")
        if e["op"] == "call" and any(x >= 0 for x in o["outs"]):
            k.add("out")
        if e["op"] == "call" and o["ret"] > 0:
            k.add("ret")
        k.add(e["op"])
    return bool({"C01": {"check"}, "C02": {"ret"}, "C03": {"unexpected"}, "C04": {"mlog"}, "C05": {"order"},
                 "C06": {"init"}, "C07": {"load", "unload"}, "C08": {"errs"}, "C09": {"out"}, "C10": {"expect"},
                 "C12": {"ret"}}[prop] & k)


class Judge:
    """Runs and validates histories of one program; returns what deviates."""

    def __init__(self, c, prog, prop):
        self.c, self.prog, self.prop = c, prog, prop
        self.bad = []
        self.nev = 0
        self.nh = 0
        self.states = 0
        self.nt = set()
        self.selftest = 0

    def judge(self, items, tag, selftest=False):
        """items: list of (start, ops)"""
        prog, prop = self.prog, self.prop
        res = prog.run_many([o for _, o in items])
        hs = []
        for (start, ops), (ev, prob) in zip(items, res):
            if prob:
                self.bad.append((tag, start, ops, "the process ended with status %s after %d of %d operations (during %s)"
                                 % (prob["rc"], prob["at"], len(ops), json.dumps(ops[min(prob["at"], len(ops) - 1)])), prob["at"]))
            hs.append((start, ev))
            if nontrivial(prop, ev):
                self.nt.add(hash(json.dumps([{k: v for k, v in e.items() if k != "obs"} for e in ev])))
        mm, st = validate(prog, hs, prop)
        self.states += st["distinct"]
        self.nev += sum(len(ev) for _, ev in hs)
        self.nh += len(hs)
        seen = set()
        for h, i, r in mm:
            if h in seen:
                continue
            seen.add(h)
            self.bad.append((tag, hs[h][0], items[h][1], "operation %d (%s): the specification says %s, observed %s"
                             % (i, json.dumps(items[h][1][i]), json.dumps(r["want"]), json.dumps(r["got"])), i))
        if selftest:
            # (of a history that was accepted: corrupting one that isn't could make it right)
            for h, (start, ev) in enumerate(hs):
                if h in seen or res[h][1]:
                    continue
                cev = corrupt(ev, prop, self.c.rng)
                if cev is not None:
                    mm, _ = validate(prog, [(start, cev)], prop)
                    if not mm:
                        raise Broken("a corrupted trace was accepted: the conformance check of %s does not bind" % prop)
                    self.selftest += 1
                    break
        return hs

    def again(self, start, ops):
        """Does this history deviate when run once more, alone?"""
        (ev, prob), = self.prog.run_many([ops])
        if prob:
            return "the process ended with status %s after %d of %d operations" % (prob["rc"], prob["at"], len(ops)), prob["at"]
        mm, _ = validate(self.prog, [(start, ev)], self.prop)
        if mm:
            _, i, r = mm[0]
            return "operation %d (%s): the specification says %s, observed %s" % (i, json.dumps(ops[i]), json.dumps(r["want"]), json.dumps(r["got"])), i
        return None


def strip_ops(ops, at):
    """The history after the last init before position `at`, with the settings and loaded files in force there."""
    last = max([i for i in range(min(at, len(ops) - 1) + 1) if ops[i]["op"] == "init"], default=None)
    if last is None:
        return None
    pre, loaded = [], {}
    muts = {}
    for o in ops[:last]:
        if o["op"] in ("order", "stack"):
            pre = [x for x in pre if x["op"] != o["op"]] + [o]
        if o["op"] == "mut":
            muts[(o["f"], o["p"], o["i"])] = o
        if o["op"] in ("load", "unload"):
            loaded[o["x"]] = o
    pre = [o for o in loaded.values() if o["op"] == "load"] + list(muts.values()) + pre
    return pre + ops[last:]


def attributable(J, prop, start, ops, at):
    """C06: only deviations that a history does not show when it starts in a fresh process."""
    if prop == "C06":
        s = strip_ops(ops, at)
        if s is None:
            return False
        return J.again(start, s) is None
    if prop == "C07":
        return any(o["op"] in ("load", "unload") for o in ops[:at])
    return True


# ------------------------------------------------------------------ capacity
def capacity_histories(rng, prog):
    """(start, ops, overflow expected as an extra operation or None)"""
    res = []
    fns = [n for n, _, _ in prog.fns]
    H0 = Hist(rng, prog)
    static = H0.avail()
    for variant in range(4):
        H = Hist(rng, prog)
        H.do_init()
        f = rng.choice(static)
        others = rng.sample(static, min(2, len(static)))
        cap = prog.cap

        def fill(upto):
            while len(H.q[f]) < upto:
                H.do_expect(f)
                if rng.random() < .15:
                    H.do_expect(rng.choice(others))
        if variant == 0:        # fill, call everything, one call too many, again after init
            fill(cap)
            for _ in range(cap + 1):
                H.do_call(f)
            for o in others:
                while H.live(o):
                    H.do_call(o)
            H.emit(op="check")
            H.do_init()
            fill(cap)
            for _ in range(cap):
                H.do_call(f)
            H.emit(op="check")
            over = True
        elif variant == 1:      # capacity is per init, not per pending expectation
            fill(cap - 3)
            for _ in range(40):
                H.do_call(f)
            fill(cap)
            over = True
        elif variant == 2:      # all functions full at once
            for x in static[:3]:
                while len(H.q[x]) < cap:
                    H.do_expect(x)
            for x in static[:3]:
                for _ in range(cap):
                    H.do_call(x)
                H.do_call(x)
            H.emit(op="errs")
            H.emit(op="check")
            f = static[min(2, len(static) - 1)]
            over = True
        else:                   # surplus calls first, then expectations beyond the number of calls
            for _ in range(3):
                H.do_call(f)
            fill(cap)
            for _ in range(cap - 3):
                H.do_call(f)
            H.emit(op="check")
            over = True
        ops = H.ops
        ov = None
        if over:
            e, v = H.expectation(f)
            ov = {"op": "overflow", "f": f, "e": e, "v": v}
        res.append((H.start, ops, ov))
    return res


def run_capacity(J, items):
    prog = J.prog
    hs = []
    for start, ops, ov in items:
        full = ops + ([ov] if ov else [])
        ev, prob = prog.run(full)
        if ov is None:
            if prob:
                J.bad.append(("capacity", start, full, "the process ended early: %s" % prob, prob["at"]))
            hs.append((start, ev, full))
            continue
        if prob is None or prob["kind"] == "hang":
            J.bad.append(("capacity", start, full, "expectation number %d was accepted silently (%s)" % (prog.cap + 1, prob), len(ops)))
            hs.append((start, ev[:len(ops)], full))
            continue
        if prob["at"] < len(ops):
            J.bad.append(("capacity", start, full, "the process ended after %d of %d operations, before the capacity was exceeded: %s" % (prob["at"], len(ops), prob), prob["at"]))
        elif prob["rc"] in (-11, -7, -4, -8) or prob["rc"] == 0 or not prob["stderr"].strip():
            J.bad.append(("capacity", start, full, "exceeding the capacity must end the process with a failure status and a message on stderr, got status %s, stderr %r" % (prob["rc"], prob["stderr"]), len(ops)))
        else:
            e = dict(ov)
            e["obs"] = {"new": [], "tails": 0}
            ev = ev + [e]
        hs.append((start, ev, full))
    mm, st = validate(prog, [(s, e) for s, e, _ in hs], J.prop)
    J.states += st["distinct"]
    J.nh += len(hs)
    J.nev += sum(len(e) for _, e, _ in hs)
    for s, e, f in hs:
        J.nt.add(hash(json.dumps(f)))
    seen = set()
    for h, i, r in mm:
        if h not in seen:
            seen.add(h)
            J.bad.append(("capacity", hs[h][0], hs[h][2], "operation %d (%s): the specification says %s, observed %s"
                          % (i, json.dumps(hs[h][2][i]), json.dumps(r["want"]), json.dumps(r["got"])), i))
    return hs


def surplus_history(rng, prog):
    H = Hist(rng, prog, dict(stack=0))
    f = rng.choice([x for x in H.avail() if "_hf" not in x])
    g = rng.choice([x for x in H.avail() if x != f])
    H.do_init()
    for x in [f, g] * 2 + [g]:
        H.do_expect(x)
    for x in [f, g, f]:
        H.do_call(x)
    H.do_burst(f, 65536 - rng.choice([0, 1, 300]))
    H.do_call(f)
    H.do_call(g)
    H.do_call(f)
    for op in ("check", "errs", "init"):
        H.do_init() if op == "init" else H.emit(op=op)
    for x in (f, g):
        H.do_expect(x)
        H.do_call(x)
    H.emit(op="check")
    return H.start, H.ops


def cpp_capacity(c, tree, k, n, seed):
    """C++ mocks have no capacity: far more expectations than a C mock takes"""
    from check_c12 import make_cpp
    rng = random.Random("C10/%s/cpp%d" % (seed, k))
    prog = make_cpp(tree, rng, "c10cpp%d" % k)
    J = Judge(c, prog, "C10")
    try:
        prog.build()
    except Finding as e:
        J.bad.append(("build", [], [], e.what, 0))
        J.files = e.files
        J.prog = None
        return J
    for variant in range(2):
        H = Hist(rng, prog, dict(stack=0))
        f = rng.choice([x for x in H.avail() if not H.m[x]["capped"] and getattr(H.fn[x], "member", False) == bool(variant)]
                       or [x for x in H.avail() if not H.m[x]["capped"]])
        g = rng.choice([x for x in H.avail() if x != f])
        H.do_init()
        if variant:     # the same after a new start, calls in between
            for _ in range(300):
                H.do_expect(f)
            for _ in range(299):
                H.do_call(f)
            H.do_init()
        for i in range(n):
            H.do_expect(f)
            if variant and i % 3 == 0 and H.live(f):
                H.do_call(f)
            if i % 100 == 0:
                H.do_expect(g)
        while H.live(f):
            H.do_call(f)
        H.do_call(f)
        while H.live(g):
            H.do_call(g)
        H.emit(op="check")
        J.judge([(H.start, H.ops)], "history", selftest=False)
    J.sample = None
    return J


# ------------------------------------------------------------------ the check
def one_program(c, tree, prop, k, scheds, nrand, length, seed):
    rng = random.Random("%s/%s/prog%d" % (prop, seed, k))
    name = "%sq%d" % (prop.lower(), k)
    # (C07: also programs in which all mocks can be unloaded)
    bare = prop == "C07" and k % 4 >= 2
    prog = make_prog(tree, rng, name, nfns=4, ndyn=3 if prop == "C07" else 1, same_name=(prop == "C07" and k % 2 == 1), nstatic=0 if bare else 2,
                     rawsz=70016 if prop == "C09" and k % 4 == 3 else 64)
    J = Judge(c, prog, prop)
    try:
        prog.build()
    except Finding as e:
        # a mock that cannot be generated or compiled: try once more, then report it
        J.bad.append(("build", [], [], e.what, 0))
        J.files = e.files
        J.prog = None
        return J
    items = []
    for s in scheds:
        x = concretise(s, prog, rng)
        if x:
            items.append((x[0], x[1]))
    for r in range(nrand):
        H = Hist(rng, prog, PROFILES[prop][r % len(PROFILES[prop])])
        if rng.random() < .3:
            H.focus = set(rng.sample(H.fns, min(3, len(H.fns))))
        if prop == "C07":
            for d in prog.dyn:
                if rng.random() < .5:
                    H.do_load(d.fid)
        if prop == "C08" and r % 4 == 0:
            H.w["stack"] = 0     # with stacks on, messages are long: keep many histories without
        if prop not in ("C08", "C03") and r % 3:
            H.w["stack"] = 0
        items.append((H.start, H.generate(length)))
    # long tests without a new start: many expectations, calls and errors pending
    for r in range(2 if prop != "C10" else 0):
        H = Hist(rng, prog, dict(PROFILES[prop][r % len(PROFILES[prop])], init=0, check=.02, errs=.03, stack=0, unload=0, surplus=[1.5, 6][r]))
        ops = H.generate(500)
        items.append((H.start, ops + [{"op": "errs"}, {"op": "check"}]))
    # more calls than fit into 16 bits
    if prop in ("C01", "C03", "C08") and k < 2:
        items.append(surplus_history(rng, prog))
    # in slices, so that a trace stays small
    first = True
    for i in range(0, len(items), 400):
        J.judge(items[i:i + 400], "history", selftest=first and prop != "C10")
        first = False
    if prop == "C10":
        run_capacity(J, capacity_histories(rng, prog))
    J.sample = items[-1] if items else None
    return J


def check(c, prop):
    t = c.thorough
    mc = model_check(c, 5 if t else 4)
    mp = model_check(c, ALPHABETS[prop][2 if t else 1], prop)
    scheds, st = model_schedules(c, prop, ALPHABETS[prop][2 if t else 1])
    c.cov["states"] = mc["distinct"] + mp["distinct"] + st["distinct"]
    c.cov["transitions"] = mc["generated"] + mp["generated"] + st["generated"]
    c.cov["model_transitions_emitted"] = len(scheds)
    c.rng.shuffle(scheds)
    scheds = scheds[:60000 if t else 6000]
    nprog = 48 if t else 8
    if prop == "C10":
        scheds = scheds[:2000 if t else 400]
    c.cov["model_schedules"] = len(scheds)
    nrand, length = (120, 220) if t else (60, 120)
    if prop == "C10":
        nrand = 5
    tree = Tree()
    jobs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for k in range(nprog):
            jobs.append(ex.submit(one_program, c, tree, prop, k, scheds[k::nprog], nrand, length, c.seed))
        if prop == "C10":
            for k in range(6 if t else 2):
                jobs.append(ex.submit(cpp_capacity, c, tree, k, 5000 if t else 1300, c.seed))
        Js = [j.result() for j in jobs]
    st_self = 0
    for J in Js:
        st_self += J.selftest
        c.add("traces_validated_against_impl", J.nh)
        c.add("events_validated", J.nev)
        c.add("trace_states", J.states)
        c.add("distinct_nontrivial_histories", len(J.nt))
        if getattr(J, "sample", None):
            c.sample({"start": J.sample[0], "ops": J.sample[1][:12]}, 3)
        for tag, start, ops, what, at in J.bad[:6]:
            report(c, J, prop, tag, start, ops, what, at)
            if len(c.violations) >= 3:
                break
    c.cov["programs"] = nprog
    c.cov["corrupted_traces_rejected"] = st_self
    if prop != "C10" and st_self == 0 and not c.violations:
        raise Broken("no corrupted trace was tried")
    c.assumptions += ["values are represented by four tokens per type", "the harness maps observations to the specification's alphabet"]


def report(c, J, prop, tag, start, ops, what, at):
    if tag == "build":
        c.violation("%s: %s" % (prop, what), {"what": what}, getattr(J, "files", []), key="build")
        return
    if tag == "capacity":
        c.violation("%s: %s" % (prop, what), {"start": start, "ops": ops, "at": at}, [os.path.join(J.prog.dir)], key="capacity")
        return
    again = J.again(start, ops)
    if again is None:
        raise Broken("a deviation could not be reproduced: " + what)
    what, at = again
    if not attributable(J, prop, start, ops, at):
        return
    c.violation("%s: %s" % (prop, what), {"start": start, "ops": ops[:at + 1], "at": at}, [J.prog.dir], key="history")
