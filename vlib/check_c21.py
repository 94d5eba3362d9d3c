"""C21: programs over the objects of the type model, enumerated and walked by the specification, executed by the real classes;
what the objects say, which are equal, and their hashes are judged by the specification."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import Broken, JOBS, SPEC, VERIF, Tree, run, scratch, tlc, tlc_prints
import conform

DEFAULT = {"op": "", "i": 0, "j": 0, "n": "", "s": "", "v": -1, "b": False, "l": [], "w": []}


def op(k, **kw):
    return dict(DEFAULT, op=k, **kw)


def build(tree):
    exe = os.path.join(scratch("tm"), "typemodel")
    lib = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(tree.libs, "src")) for f in fs if f.lower() == "libeasymockcommonobj.a"]
    if not lib:
        raise Broken("the library of the type model was not built")
    p = run(["g++", "-std=c++17", "-O1", "-I", tree.geninc, os.path.join(VERIF, "harness/typemodel.cpp"), lib[0], "-lstdc++fs", "-o", exe], timeout=300)
    if p.returncode:
        raise Broken("harness does not compile:\n" + p.stderr[-3000:])
    return exe


def text(o):
    return "\t".join([o["op"], str(o["i"]), str(o["j"]), o["n"], o["s"], str(o["v"]), "1" if o["b"] else "0", ",".join(map(str, o["l"])), ",".join(o["w"])])


def execute(exe, progs, base):
    """Every program is a list of operations; returns the recorded lines of each, or None behind the operation that ended the harness."""
    lines = []
    for p in progs:
        t = ["reset"]
        for o in p:
            if o["op"] == "base":
                t += ["reset"] + [text(b) for b in base]
            elif o["op"] != "reset":
                t.append(text(o))
        lines.append(t)
    try:
        q = subprocess.run([exe], input="\n".join(x for t in lines for x in t) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240,
                           encoding="utf-8", errors="replace")
        out, rc = q.stdout.split("\n"), q.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf-8", "replace").split("\n"), -99
    res, at = [], 0
    for p, t in zip(progs, lines):
        got = out[at:at + len(t)]
        at += len(t)
        if len(got) < len(t) or not got[-1].strip():
            n = sum(1 for x in got if x.strip())
            res.append((p, None, "%s after %d of %d operations" % ("no end" if rc == -99 else "the harness ended with %d" % rc, n, len(t)), n))
            break
        rec, k = [], 1
        for o in p:
            if o["op"] == "base":
                k += 1 + len(base)
                rec.append({"o": op("base"), "ret": 0, "top": json.loads(got[k - 1])["top"]})
            elif o["op"] == "reset":
                rec.append({"o": op("reset"), "ret": 0, "top": 0})
            else:
                r = json.loads(got[k])
                r["o"] = o
                rec.append(r)
                k += 1
        res.append((p, rec, "", 0))
    return res


def look(i):
    return op("look", i=i)


def twin(p, live, rng):
    """The copy or wrapping and what is changed then, seen before and after its hash is kept."""
    ops, top, first = p["ops"], p["ops"][-1]["top"], p["ops"][0]["i"]
    q = [op("base")]
    if rng.random() < .5:
        q += [look(first)] if rng.random() < .5 else [op("cache", i=first)]
    q += ops[:1]
    if len(ops) > 1 and rng.random() < .4:
        q.append(op("cache", i=top))
    q += ops[1:]
    if rng.random() < .5:
        q.append(look(top))
    q += [op("cache", i=top), look(top)]
    if first in live:
        q.append(look(first))
    return q


def walk(p, live, rng):
    q, dead = [op("reset")], set()
    for o in p["ops"]:
        q.append(o)
        r = rng.random()
        if o["op"] in ("clone", "move", "fn", "decl", "func") and r < .7:
            q.append(look(o["top"]))
        elif o["op"] in ("cache", "assign", "unsigned", "repoint", "addfield", "array", "flag", "declstring") and r < .4:
            q.append(look(o["i"]))
    ls = sorted(live)
    for i in rng.sample(ls, min(20, len(ls))):
        if rng.random() < .6:
            q.append(op("cache", i=i))
        q.append(look(i))
    return q


def check(c):
    tree = Tree()
    exe = build(tree)
    cfg = open(os.path.join(SPEC, "MCTypeModel.cfg")).read()
    seed, rng = c.rng.randrange(1, 1 << 30), c.rng
    nwalk, dwalk = (1600, 90) if c.thorough else (160, 50)

    def twins():
        return tlc("MCTypeModel", workers=max(2, JOBS - 3), timeout=850, heap="5g")

    def walks(n):
        t = cfg.replace("Depth = 2", "Depth = %d" % dwalk).replace("Walk = FALSE", "Walk = TRUE").replace(" CopyIsEqual MoveKeeps", "")
        return tlc("MCTypeModel", cfg_text=t, extra=["-simulate", "num=%d" % (nwalk // 4), "-depth", str(dwalk + 2), "-seed", str(seed + n)], timeout=850, heap="2g")
    with ThreadPoolExecutor(5) as ex:
        f = ex.submit(twins)
        ws = [ex.submit(walks, n) for n in range(4)]
        out, st = f.result()
        wout = [w.result()[0] for w in ws]
    two = [json.loads(b) for b in tlc_prints(out, "PROG")]
    long = [json.loads(b) for w in wout for b in tlc_prints(w, "PROG")]
    base = json.loads(tlc_prints(out, "BASE")[0])
    if len(two) < 10000 or len(long) < nwalk // 2:
        raise Broken("the model emitted %d twins and %d walks" % (len(two), len(long)))
    two.sort(key=lambda p: json.dumps(p, sort_keys=True))
    ones, rest = [p for p in two if len(p["ops"]) == 1], [p for p in two if len(p["ops"]) > 1]
    if not c.thorough:
        rest = rng.sample(rest, min(len(rest), 6000))
    progs = [twin(p, set(p["live"]), rng) for p in ones + rest] + [walk(p, set(p["live"]), rng) for p in long]
    parts = [progs[i::JOBS] for i in range(JOBS)]
    with ThreadPoolExecutor(JOBS) as ex:
        done = [r for rs in ex.map(lambda ps: execute(exe, ps, base), parts) for r in rs]
    for p, rec, err, n in done:
        if rec is None:
            c.violation("%s: %s" % (err, json.dumps(p[-6:])), {"program": p}, key="crash")
    lines, groups, owner = [], [], []
    for p, rec, _, _ in done:
        if rec is not None:
            groups.append(len(lines))
            lines += rec
            owner += [p] * len(rec)
    mm, st2 = conform.validate("TraceTypeModel", lines, groups=groups, minchunk=300, timeout=850)
    seen = set()
    for i, want in mm:
        if id(owner[i]) in seen or len(seen) > 20:
            continue
        seen.add(id(owner[i]))
        e = lines[i]
        what = {k: v for k, v in e.items() if k not in ("o", "cand")}
        c.violation("%s gives %s\nthe specification says %s\nafter %s" % (json.dumps(short(e["o"])), json.dumps(what), json.dumps(want), json.dumps([short(o) for o in owner[i]])),
                    {"program": owner[i], "line": e, "want": want}, key="op:" + json.dumps(short(e["o"])))
    looks = sum(1 for e in lines if e["o"]["op"] == "look")
    c.cov.update({"states": st["distinct"], "transitions": st["generated"], "model_programs": len(two), "programs_run": len(progs), "walks": len(long),
                  "walk_length": dwalk, "operations": len(lines), "looks": looks, "pairs_compared": sum(len(e["cand"]) for e in lines if "cand" in e),
                  "traces_validated_against_impl": len(progs)})
    if not c.violations:
        c.cov["selftest_corrupted"] = selftest(lines, groups)
    for p in rng.sample(progs, 2):
        c.sample([short(o) for o in p[:12]])
    c.assumptions += ["hashes of an object changed after they were cached are judged after the next cacheHash() only, as the documentation of cacheHash() says",
                      "no object is part of itself; recursive types go through an incomplete type, as the parser builds them"]


def short(o):
    return {k: v for k, v in o.items() if k == "op" or k in DEFAULT and v != DEFAULT[k]}


def selftest(lines, groups):
    """One look of a program, corrupted in one place, must be refused."""
    n = 0
    for g, (a, b) in enumerate(zip(groups, groups[1:])):
        part = json.loads(json.dumps(lines[a:b]))
        at = [i for i, e in enumerate(part) if e["o"]["op"] == "look"]
        if not at or n >= 8:
            continue
        e, n = part[at[-1]], n + 1
        if n % 4 == 0:
            e["eq"] = e["eq"][1:]
        elif n % 4 == 1:
            e["h"] += "1" if len(at) > 1 and part[at[0]]["o"]["i"] == e["o"]["i"] else ""
            e["d"]["text"] += "" if len(at) > 1 and part[at[0]]["o"]["i"] == e["o"]["i"] else "x"
        elif n % 4 == 2:
            e["d"]["kinds"] = e["d"]["kinds"][1:] + ["no"]
        else:
            e["rev"] = e["rev"][1:]
        mm, _ = conform.validate("TraceTypeModel", part, jobs=1)
        if not mm:
            raise Broken("TraceTypeModel accepted a corrupted program: %s" % json.dumps(part[at[-1]]))
    return n
