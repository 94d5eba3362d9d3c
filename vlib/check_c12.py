"""C12: mocks of C++ headers (spec/EasyMock.tla with objects)."""
from checks_runtime import *
from cppglue import CppGen, ClassD
from common import *

ALPHABETS["C12"] = ("init expM expG callM callG order check", 5, 6)
PROFILES["C12"] = [{}, dict(order=1, right=9), dict(surplus=1.5, check=1), dict(load=1, unload=.8, init=.6), dict(mut=1.5)]


def concretise_cpp(sched, prog, rng):
    H = Hist(rng, prog)
    m = H.m
    mem = [(n, f) for n, f, _ in prog.fns if getattr(f, "member", False)]
    n, f = rng.choice(mem)
    same = [x for x, g, _ in prog.fns if x != n and g.name == f.name and m[x]["file"] == m[n]["file"]]
    other = [x for x, _, fid in prog.fns if x != n]
    g = rng.choice(same) if same and rng.random() < .8 else rng.choice(other)
    if m[g]["file"] not in H.loaded:
        H.do_load(m[g]["file"])
    if m[n]["file"] not in H.loaded:
        H.do_load(m[n]["file"])
    fm = {"m": n, "g": g}
    ops = list(H.ops)
    for s in sched:
        o = s["op"]
        if o == "expect":
            x = fm[s["f"]]
            np = m[x]["np"]
            isg = getattr(H.fn[x], "member", False)
            inst = s["e"]["inst"] if s["f"] == "m" else rng.choice([0, 1]) if isg else 0
            ops.append({"op": "expect", "f": x, "e": {"ret": 0 if m[x]["void"] else s["e"]["ret"], "par": [rng.randint(0, 3) for _ in range(np)],
                        "mat": [rng.choice([0, 1]) for _ in range(np)], "out": [-1] * np, "osz": [0] * np, "inst": inst}})
        elif o == "call":
            x = fm[s["f"]]
            inst = s["inst"] if s["f"] == "m" else rng.randint(1, 2) if getattr(H.fn[x], "member", False) else 0
            ops.append({"op": "call", "f": x, "arg": [rng.randint(1, 3) if k != "none" else rng.randint(0, 3) for k in m[x]["out"]], "inst": inst})
        elif o == "order":
            ops.append({"op": "order", "b": s["b"]})
        else:
            ops.append({"op": o})
    ops += [{"op": "errs"}, {"op": "check"}]
    return H.start, ops


def make_cpp(tree, rng, name):
    hdrs, dyn = [], []
    for i in range(2):
        g = CppGen(rng, "%s%s" % (name, "ab"[i]))
        for t in range(20):
            g.decls = []
            h = g.header("%s_%d.hh" % (name, i), nfns=14 if i == 0 else 6)
            if any(getattr(f, "member", False) for f in h.fns):
                break
        h.fid = "F%d" % i
        # functions of different headers may be namesakes, too
        for f in h.fns:
            f.sname = "%d:%s" % (i, f.sname)
        (dyn if i else hdrs).append(h)
    g = HdrGen(rng, "%sc" % name)
    h = Header("%s_c.h" % name, g.decls, [g.fn() for _ in range(2)])
    h.decls = g.decls
    h.fid = "F2"
    hdrs.append(h)
    return Prog(tree, name, hdrs, dyn)


def one_cpp(c, tree, k, scheds, nrand, length, seed):
    rng = random.Random("C12/%s/prog%d" % (seed, k))
    prog = make_cpp(tree, rng, "c12q%d" % k)
    J = Judge(c, prog, "C12")
    J.feat = features(prog)
    try:
        prog.build()
    except Finding as e:
        J.bad.append(("build", [], [], e.what, 0))
        J.files = e.files
        J.prog = None
        return J
    items = [concretise_cpp(s, prog, rng) for s in scheds]
    for r in range(nrand):
        H = Hist(rng, prog, PROFILES["C12"][r % len(PROFILES["C12"])])
        if rng.random() < .4:
            # namesakes only
            byname = {}
            for n, f, _ in prog.fns:
                byname.setdefault(f.name, []).append(n)
            H.focus = set(rng.choice([v for v in byname.values() if len(v) > 1] or [H.fns]))
        if rng.random() < .5:
            for d in prog.dyn:
                H.do_load(d.fid)
        if r % 3:
            H.w["stack"] = 0
        items.append((H.start, H.generate(length)))
    # more expectations than a C mock takes
    H = Hist(rng, prog, PROFILES["C12"][0])
    H.do_init()
    f = rng.choice([n for n in H.avail() if not H.m[n]["capped"]])
    for _ in range(300):
        H.do_expect(f)
    while H.live(f):
        H.do_call(f)
    H.do_call(f)
    H.emit(op="check")
    items.append((H.start, H.ops))
    st, ops = surplus_history(rng, prog)
    items.append((st, ops))
    first = True
    for i in range(0, len(items), 400):
        J.judge(items[i:i + 400], "history", selftest=first)
        first = False
    J.sample = items[-2]
    return J


def features(prog):
    k = {}
    for n, f, fid in prog.fns:
        for x, y in (("functions", True), ("members", getattr(f, "member", False)), ("virtual", f.prefix == "virtual "), ("const members", f.cconst),
                     ("in namespaces", bool(f.ns)), ("reference parameters", any(type(t).__name__ == "Ref" for t, _ in f.params)),
                     ("overloads", n.endswith(("#2", "#3", "#4")))):
            if y:
                k[x] = k.get(x, 0) + 1
    return k


PROBES = {
    # headers of real use that the generator does not handle: see known-findings.json
    "namespaced-type": "namespace N { struct S { int a; }; void f(S *s); int g(S s); }\n",
    "noexcept": "int f(int a) noexcept;\n",
    "ref-qualified": "class C { public: int m(int a) &; };\n",
    "nested-class": "class C { public: class I { public: int m(int a); }; int n(int a); };\n",
    "incomplete-reference": "struct S; void f(S &s);\n",
    "rvalue-reference": "void f(int &&a);\n",
    "abstract-reference": "class K { public: virtual int v() = 0; };\nint f(K &k);\n",
    "static-member": "class C { public: static int s(int a); };\nint use(int a);\n",
    # and some that it does
    "ok-basic": "namespace A { namespace B { int f(int a); } int f(int a); class C { public: int f(int a) const; C(int); ~C(); C& operator=(const C&); int v; }; }\nint f(int a);\n",
    "ok-template": "template<class T> T tf(T a);\ntemplate<class T> class TC { public: int m(T a); };\nint f(int a);\nvoid del(int a) = delete;\n",
    "ok-anonymous": "namespace { int hidden(int a); }\nint f(int a);\n",
    "ok-own-class": "class K { public: K *self(const K &o, K *p); virtual void v(); virtual ~K() {} };\n",
}
PROBE_USES = {"rvalue-reference": "void (*vf_p)(int &&) = &f; int main() { return vf_p == 0; }\n",
              "static-member": "int (*vf_p)(int) = &C::s; int main() { return vf_p == 0; }\n"}


def probes(c, tree):
    n = 0
    for k, txt in PROBES.items():
        d = scratch("c12probe")
        with open(os.path.join(d, "p.hh"), "w") as f:
            f.write(txt)
        p = tree.generate(["--mock-cpp", "-i", os.path.join(d, "p.hh"), "-o", d])
        n += 1
        what = None
        if p.returncode:
            what = "EasyMockGenerate fails (status %d)" % p.returncode
        else:
            q = run(["g++", "-c", "-w", os.path.join(d, "easyMock_p.cpp"), "-o", os.path.join(d, "m.o"), "-I", d, "-I", tree.inc], timeout=120)
            if q.returncode:
                what = "the mock does not compile: " + "".join(q.stderr.splitlines(True)[:3])
            elif k in PROBE_USES:
                with open(os.path.join(d, "u.cpp"), "w") as f:
                    f.write('#include "p.hh"\n' + PROBE_USES[k])
                q = run(["g++", "-w", os.path.join(d, "u.cpp"), os.path.join(d, "m.o"), "-o", os.path.join(d, "u"), "-I", d, "-I", tree.inc,
                         "-L" + tree.fwdir, "-lEasyMockFramework", "-Wl,-rpath," + tree.fwdir], timeout=120)
                if q.returncode:
                    what = "a declared function has no mock: " + q.stderr[-300:]
        if what:
            c.violation("C12: header '%s': %s" % (txt.strip(), what), {"header": txt, "what": what}, [d], key="probe:" + k)
    c.cov["probe_headers"] = n


def check(c):
    t = c.thorough
    mp = model_check(c, ALPHABETS["C12"][2 if t else 1], "C12")
    scheds, st = model_schedules(c, "C12", ALPHABETS["C12"][2 if t else 1])
    c.cov["states"] = mp["distinct"] + st["distinct"]
    c.cov["transitions"] = mp["generated"] + st["generated"]
    c.cov["model_transitions_emitted"] = len(scheds)
    c.rng.shuffle(scheds)
    scheds = scheds[:40000 if t else 2400]
    c.cov["model_schedules"] = len(scheds)
    nprog = 40 if t else 6
    nrand, length = (100, 200) if t else (40, 100)
    tree = Tree()
    probes(c, tree)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        Js = [j.result() for j in [ex.submit(one_cpp, c, tree, k, scheds[k::nprog], nrand, length, c.seed) for k in range(nprog)]]
    selft = 0
    feats = {}
    for J in Js:
        selft += J.selftest
        c.add("traces_validated_against_impl", J.nh)
        c.add("events_validated", J.nev)
        c.add("trace_states", J.states)
        c.add("distinct_nontrivial_histories", len(J.nt))
        for k, v in J.feat.items():
            feats[k] = feats.get(k, 0) + v
        if getattr(J, "sample", None):
            c.sample({"start": J.sample[0], "ops": J.sample[1][:12]}, 3)
        for tag, start, ops, what, at in J.bad[:6]:
            report(c, J, "C12", tag, start, ops, what, at)
            if len(c.violations) >= 3:
                break
    c.cov["features"] = feats
    c.cov["programs"] = nprog
    c.cov["corrupted_traces_rejected"] = selft
    if selft == 0 and not c.violations:
        raise Broken("no corrupted trace was tried")
    c.assumptions += ["values are represented by four tokens per type (two for bool)", "types used in signatures are declared at the global scope"]
