"""Runs histories of the runtime specification (spec/EasyMock.tla) on real generated mocks and
checks what was observed against the specification with TLC."""
import json, os, re, subprocess, concurrent.futures as cf
from common import *
from cmodel import *
import cglue, cppglue

WARN = ["-w"]


class Prog:
    """One executable: some headers mocked and linked statically, others loadable as shared objects."""

    def __init__(self, tree, name, hdrs, dyn=(), cap=256, genargs=(), keep=None):
        self.tree, self.name, self.hdrs, self.dyn = tree, name, list(hdrs), list(dyn)
        self.dir = keep or scratch("prog-" + name)
        self.fns = []          # (spec name, Fn, file name)
        self.cap = cap
        self.rawsz = 64
        self.genargs = list(genargs)
        self.slots = {}
        self.cppfids = set()
        for h in self.hdrs + self.dyn:
            fid = getattr(h, "fid", h.name)
            if getattr(h, "cpp", False):
                self.cppfids.add(fid)
            for f in h.fns:
                f.sname = getattr(f, "sname", f.name)
                self.fns.append((f.sname, f, fid))
        self.index = {n: i for i, (n, _, _) in enumerate(self.fns)}

    # -------------------------------------------------------------- building
    def _mock(self, h, sub):
        d = os.path.join(self.dir, sub)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, h.name), "w") as f:
            f.write(h.text())
        cpp = getattr(h, "cpp", False)
        args = (["--mock-cpp"] if cpp else []) + self.genargs + ["-i", os.path.join(d, h.name), "-o", d]
        p = self.tree.generate(args)
        if p.returncode:
            raise Finding("EasyMockGenerate failed on %s (status %d): %s" % (h.name, p.returncode, p.stderr[-600:]), [d])
        return d

    def build(self):
        inc = ["-I", self.tree.inc, "-I", self.dir]
        objs, tabs = [], []
        with open(os.path.join(self.dir, "vf.h"), "w") as f:
            f.write(cglue.VF_H)
        cxx = False
        for i, h in enumerate(self.hdrs):
            d = self._mock(h, "h%d" % i)
            objs += self._objs(h, d, "vf_tab_%d" % i, inc, [])
            cxx = cxx or getattr(h, "cpp", False)
            tabs.append("vf_tab_%d" % i)
        for i, h in enumerate(self.dyn):
            d = self._mock(h, "d%d" % i)
            o = self._objs(h, d, "vf_tab", inc, ["-fPIC"])
            so = os.path.join(d, "lib.so")
            self._cc(["g++", "-shared", "-o", so] + o + self._ld(), "linking " + so, harness=False)
            self.slots[getattr(h, "fid", h.name)] = (i, so)
        core = os.path.join(self.dir, "core.c")
        with open(core, "w") as f:
            f.write("#define STATIC_TABLES %s\n" % " ".join("extern const vf_table %s;" % t for t in tabs))
            base, att = 0, []
            for h, t in zip(self.hdrs, tabs):
                att.append("attach(%d, &%s);" % (base, t))
                base += len(h.fns)
            f.write("#define ATTACH %s\n" % " ".join(att))
            f.write(cglue.CORE)
        o = os.path.join(self.dir, "core.o")
        self._cc(["gcc", "-c", "-O1", core, "-o", o] + inc + WARN, "core", harness=True)
        self.exe = os.path.join(self.dir, "prog")
        self._cc(["g++", "-rdynamic", "-o", self.exe, o] + objs + self._ld() + ["-ldl"], "linking the test program", harness=False)
        return self

    def _ld(self):
        return ["-L" + self.tree.fwdir, "-Wl,-rpath," + self.tree.fwdir, "-lEasyMockFramework"]

    def _objs(self, h, d, table, inc, extra):
        cpp = getattr(h, "cpp", False)
        ext, cc = ("cpp", "g++") if cpp else ("c", "gcc")
        stem = os.path.splitext(h.name)[0]
        mock = os.path.join(d, "easyMock_%s.%s" % (stem, ext))
        if not os.path.exists(mock):
            alt = os.path.join(d, "easyMock_%s.c" % stem)
            if os.path.exists(alt):
                mock = alt
            else:
                raise Finding("no mock source was generated for %s" % h.name, [d])
        mo = os.path.join(d, "mock.o")
        self._cc([cc, "-c", "-O1", mock, "-o", mo, "-I", d] + inc + WARN + extra, "the generated mock of " + h.name, harness=False)
        g = os.path.join(d, "glue." + ext)
        with open(g, "w") as f:
            f.write((cppglue if cpp else cglue).glue(h, table))
        go = os.path.join(d, "glue.o")
        self._cc([cc, "-c", "-O0", g, "-o", go, "-I", d] + inc + WARN + extra + (["-fno-access-control"] if cpp else []), "the code using the mock of " + h.name, harness=False)
        return [mo, go]

    def _cc(self, cmd, what, harness):
        p = run(cmd, timeout=300)
        if p.returncode:
            msg = "compiling %s failed:\n%s" % (what, p.stderr[:3000])
            raise (Broken(msg) if harness else Finding(msg, [self.dir]))

    # -------------------------------------------------------------- metadata for the specification
    def meta(self):
        res = []
        for n, f, fid in self.fns:
            res.append({"name": n, "file": fid, "np": len(f.params), "void": f.void,
                        "out": [out_kind(t) for t, _ in f.params], "capped": fid not in self.cppfids})
        return res

    def base(self, fid):
        for i, (_, _, x) in enumerate(self.fns):
            if x == fid:
                return i
        raise KeyError(fid)

    # -------------------------------------------------------------- running
    def run(self, ops, timeout=120):
        """ops: list of spec events without obs. Returns (events with obs, problem or None)"""
        lines = [self.encode(o) for o in ops]
        try:
            p = run([self.exe], input=("\n".join(lines) + "\nX\n").encode(), timeout=timeout, soft=False)
        except subprocess.TimeoutExpired:
            return [], {"kind": "hang", "at": 0}
        outs = p.stdout.split("\n")
        recs = []
        for l in outs:
            try:
                recs.append(json.loads(l))
            except ValueError:
                break
        ev = []
        for o, r in zip(ops, recs):
            e = dict(o)
            e["obs"] = self.decode(o, r)
            ev.append(e)
        prob = None
        if p.returncode != 0 or len(recs) != len(ops):
            prob = {"kind": "exit", "rc": p.returncode, "at": len(recs), "stderr": p.stderr[-800:], "stdout_tail": p.stdout[-300:]}
        return ev, prob

    def run_many(self, histories, timeout=600):
        """histories: list of op lists, each run in a process of its own. Returns list of (events, problem)."""
        txt = []
        for ops in histories:
            txt += [self.encode(o) for o in ops]
            txt.append("Z")
        try:
            p = run([self.exe, "multi"], input=("\n".join(txt) + "\n").encode(), timeout=timeout, soft=False)
        except subprocess.TimeoutExpired:
            raise Broken("running the test program timed out")
        blocks, cur = [], []
        for l in p.stdout.split("\n"):
            # a process that died may have left an incomplete line before the separator
            k = l.rfind('{"op":"Z"')
            if k >= 0:
                if k > 0:
                    cur.append(l[:k])
                blocks.append((cur, json.loads(l[k:])["rc"]))
                cur = []
            else:
                cur.append(l)
        if len(blocks) != len(histories):
            raise Broken("the test program stopped: %s %s" % (p.returncode, p.stderr[-500:]))
        res = []
        for ops, (lines, rc) in zip(histories, blocks):
            recs = []
            for l in lines:
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    break
            ev = []
            for o, r in zip(ops, recs):
                e = dict(o)
                e["obs"] = self.decode(o, r)
                ev.append(e)
            prob = None
            if rc != 0 or len(recs) != len(ops):
                prob = {"kind": "exit", "rc": rc, "at": len(recs)}
            res.append((ev, prob))
        return res

    def two_valued(self, o):
        """bool has two values: in place"""
        f = self.fns[self.index[o["f"]]][1]
        b = getattr(f, "bools", None)
        if b is None:
            b = f.bools = ([is_bool(t) for t, _ in f.params], is_bool(f.ret))
        if "e" in o:
            o["e"]["par"] = [x % 2 if y else x for x, y in zip(o["e"]["par"], b[0])]
            if b[1]:
                o["e"]["ret"] %= 2
        else:
            o["arg"] = [x % 2 if y else x for x, y in zip(o["arg"], b[0])]

    def encode(self, o):
        op = o["op"]
        if op in ("expect", "overflow", "call", "burst"):
            self.two_valued(o)
        if op == "init":
            return "I"
        if op in ("expect", "overflow"):
            e = o["e"]
            f = self.fns[self.index[o["f"]]][1]
            np = len(f.params)
            v = o.get("v")
            if v is None:
                v = 1 if any(x != -1 for x in e["out"]) else 0
            a = [self.index[o["f"]], e["inst"], v, e["ret"]]
            for p in range(np):
                a += [e["par"][p], e["mat"][p], e["out"][p], e["osz"][p]]
            return "E " + " ".join(map(str, a))
        if op == "call":
            return "C " + " ".join(map(str, [self.index[o["f"]], o["inst"]] + list(o["arg"])))
        if op == "burst":
            return "B " + " ".join(map(str, [self.index[o["f"]], o["inst"], o["n"]] + list(o["arg"])))
        if op == "check":
            return "K"
        if op == "errs":
            return "R"
        if op == "order":
            return "O %d" % o["b"]
        if op == "stack":
            return "S %d" % o["b"]
        if op == "mut":
            return "M %d %d %d %d" % (self.index[o["f"]], o["p"], o["i"], o["c"])
        if op in ("load", "unload"):
            slot, so = self.slots[o["x"]]
            return "%s %d %d %s" % ("L" if op == "load" else "U", slot, self.base(o["x"]), so)
        raise KeyError(op)

    def err(self, raw):
        return parse_error(raw, self)

    def decode(self, o, r):
        op = o["op"]
        obs = {"new": [self.err(x) for x in r["new"]], "tails": sum("\n\r" in x for x in r["new"])}
        if r.get("shrunk"):
            obs["new"].append(rec("other", "", 0, 0, "errors disappeared"))
        if r["anchor"] != 1:
            obs["new"].append(rec("other", "", 0, 0, "memory of the caller was overwritten"))
        if op == "call":
            obs.update(ret=r["ret"], mlog=r["mlog"], outs=r["outs"])
        elif op == "burst":
            obs.update(ret=r["ret"], mlog=[{}] * r["nlog"], outs=r["outs"], n=r["cnt"])
            if not r["same"]:
                obs["new"].append(rec("other", "", 0, 0, "the calls of a burst differ"))
        elif op == "check":
            obs["ret"] = r["ret"]
        elif op == "errs":
            arr = r["arr"]
            obs["arr"] = [self.err(x) for x in arr]
            obs["size"] = r["size"]
            obs["null"] = r["null"]
            want = "".join(x + "\n\r" for x in arr)
            want2 = "".join(x + "\n" for x in arr)
            obs["strok"] = bool(r["term"] and r["str"] in (want, want2) and r["str2"] == r["str"]
                                and r["strnull"] == (not arr) and r["strnull2"] == r["strnull"] and r["size2"] == r["size"])
        return obs


def rec(k, f, a, b, m):
    return {"k": k, "f": f, "a": a, "b": b, "m": m}


def find_fn(sig, prog):
    best = None
    for n, f, _ in prog.fns:
        rx = getattr(f, "sigre", None) or r"(?<![\w:])%s\s*\(" % re.escape(f.name)
        if re.search(rx, sig):
            if best is not None and not getattr(f, "sigre", None):
                continue
            best = n
    return best or ("?" + sig)[:60]


def parse_error(raw, prog):
    raw0 = raw
    raw = raw.split("\n\r")[0]
    m = re.search(r"got call to '(.*?)',\s*but was expecting call to '(.*?)'", raw, re.S)
    if m:
        return rec("order", find_fn(m.group(1), prog), 0, 0, find_fn(m.group(2), prog))
    m = re.search(r"unexpected call of '(.*?)'", raw, re.S)
    if m:
        return rec("unexpected", find_fn(m.group(1), prog), 0, 0, "")
    m = re.search(r"bad number of call", raw)
    if m:
        s = re.search(r"'(.*)'", raw)
        nums = re.findall(r"-?\d+", raw.rsplit("bad number of call", 1)[1])
        if s and len(nums) >= 2:
            return rec("count", find_fn(s.group(1), prog), int(nums[0]), int(nums[1]), "")
    m = re.search(r"at call (\d+) of '(.*?)':? ?(.*)", raw, re.S)
    if m:
        msg = m.group(3)
        if re.search(r"[Ee]xpecting this object", msg):
            return rec("inst", find_fn(m.group(2), prog), int(m.group(1)), 0, "")
        msg = re.sub(r"^(LONG\d+)\.+$", lambda x: x.group(1) if len(x.group(0)) == 255 else x.group(0), msg)
        return rec("match", find_fn(m.group(2), prog), int(m.group(1)), 0, msg)
    return rec("other", "", 0, 0, raw0[:120])


# --------------------------------------------------------------------------- histories
class Hist:
    """Generates a random history knowing what is queued, so that calls interesting to the property are made."""

    def __init__(self, rng, prog, w=None, start=None):
        self.r, self.p = rng, prog
        self.fns = [n for n, _, _ in prog.fns]
        self.m = {x["name"]: x for x in prog.meta()}
        self.fn = {n: f for n, f, _ in prog.fns}
        self.loaded = set(start if start is not None else [getattr(h, "fid", h.name) for h in prog.hdrs])
        self.start = sorted(self.loaded)
        self.q = {f: [] for f in self.fns}
        self.a = {f: 0 for f in self.fns}
        self.fifo = []
        self.order = False
        self.stackon = False
        self.ops = []
        self.w = dict(expect=8, right=7, other=3, surplus=.7, check=.5, errs=.8, init=.25, order=.3, mut=.6, stack=.15,
                      load=.4, unload=.3, never=0)
        self.w.update(w or {})
        self.focus = None

    def avail(self):
        fs = [f for f in self.fns if self.m[f]["file"] in self.loaded]
        if self.focus:
            g = [f for f in fs if f in self.focus]
            fs = g or fs
        return fs

    def expectation(self, f):
        r, m = self.r, self.m[f]
        np = m["np"]
        e = {"ret": 0 if m["void"] else r.choice([0, 1, 2, 3, 1, 2, 3]), "par": [], "mat": [], "out": [], "osz": [], "inst": 0}
        v = 1 if any(k != "none" for k in m["out"]) and r.random() < .6 else 0
        for k in m["out"]:
            e["par"].append(r.randint(0, 3))
            e["mat"].append(r.choice([0, 0, 1, 1, 1, 1, 2, 3, 4, 5, 6]) if r.random() < .6 else r.choice([0, 1]))
            if k == "none" or not v or r.random() < .25:
                e["out"].append(-1)
                e["osz"].append(r.choice([0, 7]) if k == "raw" and v else 0)
            else:
                e["out"].append(r.randint(0, 2))
                e["osz"].append((r.choice([0, 1, 2, 7, 8, 31, 63, 64]) if self.p.rawsz == 64 or r.random() < .3 else
                                 r.choice([127, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 65600, self.p.rawsz - 1, self.p.rawsz, r.randint(1, self.p.rawsz)])) if k == "raw" else 0)
        if getattr(self.fn[f], "member", False):
            e["inst"] = r.choice([0, 0, 1, 2])
        return e, v

    def emit(self, **o):
        self.ops.append(o)

    def do_expect(self, f=None, e=None):
        f = f or self.r.choice(self.avail())
        if self.m[f]["capped"] and len(self.q[f]) >= self.p.cap:
            return
        v = None
        if e is None:
            e, v = self.expectation(f)
        self.q[f].append(e)
        self.fifo.append(f)
        o = dict(op="expect", f=f, e=e)
        if v is not None:
            o["v"] = v
        self.emit(**o)

    def do_call(self, f):
        m = self.m[f]
        e = self.q[f][self.a[f]] if self.a[f] < len(self.q[f]) else None
        arg = []
        for p, k in enumerate(m["out"]):
            if k != "none" and (e is None or e["out"][p] == -1) and self.r.random() < .3:
                arg.append(0)
            elif k != "none":
                arg.append(self.r.randint(1, 3))
            else:
                arg.append(self.r.randint(0, 3))
        inst = 0
        if getattr(self.fn[f], "member", False):
            inst = self.r.randint(1, 2)
            if e is not None and e["inst"] and self.r.random() < .7:
                inst = e["inst"]
        self.a[f] += 1
        if e is not None:
            self.fifo.pop(0)
        self.emit(op="call", f=f, arg=arg, inst=inst)

    def do_burst(self, f, n):
        """n calls of f, which has no expectation left"""
        self.a[f] += n
        self.emit(op="burst", f=f, n=n, arg=[self.r.randint(1, 3) if k != "none" else self.r.randint(0, 3) for k in self.m[f]["out"]], inst=self.r.randint(1, 2) if getattr(self.fn[f], "member", False) else 0)

    def live(self, f):
        return self.a[f] < len(self.q[f])

    def step(self):
        r = self.r
        k = r.choices(list(self.w), list(self.w.values()))[0]
        av = self.avail()
        if k == "expect":
            if not av:
                return
            # bursts
            n = r.choice([1, 1, 2, 3])
            f = r.choice(av)
            for _ in range(n):
                self.do_expect(f if r.random() < .4 else r.choice(av))
        elif k == "right":
            if self.fifo and self.fifo[0] in av and self.live(self.fifo[0]):
                self.do_call(self.fifo[0])
            else:
                c = [f for f in av if self.live(f)]
                if c:
                    self.do_call(r.choice(c))
        elif k == "other":
            c = [f for f in av if self.live(f)]
            if c:
                self.do_call(r.choice(c))
        elif k == "surplus":
            c = [f for f in av if not self.live(f)]
            if c:
                self.do_call(r.choice(c))
        elif k == "check":
            self.emit(op="check")
        elif k == "errs":
            self.emit(op="errs")
        elif k == "init":
            self.do_init()
        elif k == "order":
            self.order = not self.order
            self.emit(op="order", b=self.order)
        elif k == "stack":
            self.stackon = not self.stackon
            self.emit(op="stack", b=self.stackon)
        elif k == "mut":
            c = [(f, p) for f in av for p, x in enumerate(self.m[f]["out"]) if x != "none"]
            if c:
                f, p = r.choice(c)
                self.emit(op="mut", f=f, p=p + 1, i=r.randint(0, 2), c=r.randint(0, 3))
        elif k == "load":
            c = [x for x in self.p.slots if x not in self.loaded]
            if c:
                self.do_load(r.choice(c))
        elif k == "unload":
            c = [x for x in self.p.slots if x in self.loaded]
            if c:
                self.do_unload(r.choice(c))
        elif k == "never":
            pass

    def do_init(self):
        self.emit(op="init")
        for f in self.fns:
            if self.m[f]["file"] in self.loaded:
                self.q[f], self.a[f] = [], 0
        self.fifo = []

    def do_load(self, x):
        self.loaded.add(x)
        self.emit(op="load", x=x)
        # (re)attached output objects have their initial content
        for f in self.fns:
            if self.m[f]["file"] == x:
                for p, k in enumerate(self.m[f]["out"]):
                    if k != "none":
                        for i in range(3):
                            self.emit(op="mut", f=f, p=p + 1, i=i, c=i)

    def do_unload(self, x):
        self.loaded.discard(x)
        self.emit(op="unload", x=x)
        for f in self.fns:
            if self.m[f]["file"] == x:
                self.q[f], self.a[f] = [], 0

    def generate(self, n):
        self.do_init()
        while len(self.ops) < n:
            self.step()
        self.emit(op="errs")
        self.emit(op="check")
        self.emit(op="errs")
        return self.ops


# --------------------------------------------------------------------------- validation
def write_trace(path, prog, histories):
    with open(path, "w") as f:
        f.write(json.dumps({"fns": prog.meta(), "loaded": [], "cap": prog.cap}) + "\n")
        for start, ev in histories:
            f.write(json.dumps({"op": "start", "loaded": start}) + "\n")
            for e in ev:
                f.write(json.dumps(e) + "\n")


def validate(prog, histories, prop, name="t"):
    """histories: list of (start files, events with obs). Returns (list of mismatches (history index, event index, record), stats)"""
    d = scratch("trace")
    p = os.path.join(d, name + ".ndjson")
    write_trace(p, prog, histories)
    with open(os.path.join(SPEC, "TraceEasyMock.cfg")) as f:
        cfg = f.read().replace("@PROP@", prop)
    out, st = tlc("TraceEasyMock", cfg_text=cfg, env={"TRACE": p}, workdir=d, extra=["-deadlock"])
    starts, pos = [], 1
    for s, ev in histories:
        starts.append(pos)
        pos += 1 + len(ev)
    total = pos - 1
    m = re.search(r"CONSUMED (\d+) OF (\d+)", out)
    if not m:
        raise Broken("no report from TLC:\n" + out[-2000:])
    mm = []
    for body in tlc_prints(out, "MISMATCH"):
        r = json.loads(body)
        h = max(i for i, s in enumerate(starts) if s <= r["line"])
        mm.append((h, r["line"] - starts[h] - 1, r))
    if int(m.group(1)) != total:
        ln = int(m.group(1)) + 1
        h = max(i for i, s in enumerate(starts) if s <= ln)
        raise Broken("the specification does not accept line %d of %s (history %d)" % (ln, p, h))
    return mm, st
