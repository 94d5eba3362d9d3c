"""C11: the framework's strings."""
import json, os, re, subprocess
import conform
from common import Broken, Finding, JOBS, SPEC, Tree, VERIF, run, scratch, tlc, tlc_prints
from concurrent.futures import ThreadPoolExecutor


def build(tree, src, name):
    d = scratch("h11")
    exe = os.path.join(d, name)
    p = run(["g++", "-std=c++20", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I", tree.inc,
             os.path.join(VERIF, "harness", src), "-L", tree.fwdir, "-lEasyMockFramework", "-Wl,-rpath," + tree.fwdir, "-o", exe])
    if p.returncode:
        raise Broken("harness does not compile:\n" + p.stderr[-3000:])
    return exe


def lives(hist):
    """Per slot liveness along a history, to extend it."""
    st = {1: 0, 2: 0}
    for o in hist:
        w = o.split()
        if w[0] in "NI":
            st[int(w[1])] = 1
        elif w[0] == "F":
            st[int(w[1])] = 2
    return st


def random_hist(rng, nops, lens):
    st = {1: 0, 2: 0}
    size = {1: 0, 2: 0}
    h = []
    while len(h) < nops:
        s = rng.choice([1, 2])
        c, n = rng.choice([97, 98, 99, 255, 1]), rng.choice(lens)
        if st[s] == 1 and rng.random() < 0.5:
            # aim at the boundary
            want = rng.choice([254, 255, 256, 257])
            if want > size[s]:
                n = want - size[s]
        if st[s] != 1:
            if st[s] == 2 and rng.random() < 0.3:
                h.append("F %d" % s)
                continue
            if rng.random() < 0.4:
                h.append("N %d" % s)
                size[s] = 0
            else:
                h.append("I %d %d %d" % (s, c, n))
                size[s] = n
            st[s] = 1
        else:
            r = rng.random()
            if r < 0.62:
                h.append("A %d %d %d" % (s, c, n))
                size[s] += n
            elif r < 0.85 and st[3 - s] == 1 and size[s] + size[3 - s] < 100000:
                h.append("P %d %d" % (s, 3 - s))
                size[s] += size[3 - s]
            elif r > 0.9:
                h.append("F %d" % s)
                st[s] = 2
    return h


def play(exe, hists):
    """Runs histories in one process; a death is attributed to the history it happened in."""
    lines, deaths, i = [], [], 0
    while i < len(hists):
        text = "".join("\n".join(h) + "\nR\n" for h in hists[i:])
        p = run([exe], input=text.encode(), timeout=240 if not deaths else 20, env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1"})
        got = [json.loads(x) for x in p.stdout.splitlines() if x.endswith("}")]
        done = sum(1 for g in got if g["op"] == "reset")
        if p.returncode == 0:
            if done != len(hists) - i:
                raise Broken("string harness ended early")
            lines += got
            break
        cut = 0
        for k, g in enumerate(got):
            if g["op"] == "reset":
                cut = k + 1
        lines += got[:cut]
        deaths.append((hists[i + done], p.stderr[-1500:]))
        if len(deaths) > 3:
            break
        i += done + 1
    return lines, deaths


def check(c):
    tree = Tree(asan=True)
    exe = build(tree, "cstring.cpp", "cs")
    cfg = open(os.path.join(SPEC, "MCCString.cfg")).read()
    if c.thorough:
        cfg = cfg.replace("Lens = {0, 1, 255, 256}", "Lens = {0, 1, 127, 254, 255, 256, 257}")
    out, st = tlc("MCCString", cfg_text=cfg, workers=JOBS, extra=["-deadlock"], timeout=800, heap="6g")
    c.cov["states"], c.cov["transitions"] = st["distinct"], st["generated"]
    hs = [b.split(",") for b in tlc_prints(out, "HIST")]
    if len(hs) < 1000:
        raise Broken("the model emitted only %d histories" % len(hs))
    # an extra configuration of the model alone: a tiny buffer and longer histories
    cfg2 = re.sub(r"INVARIANT EmitAll\n", "", cfg).replace("Inner = 256", "Inner = 4").replace("MaxOps = 3", "MaxOps = %d" % (5 if c.thorough else 4))
    cfg2 = re.sub(r"Lens = \{.*?\}", "Lens = {0, 1, 3, 4}", cfg2)
    _, st2 = tlc("MCCString", cfg_text=cfg2, workers=JOBS, extra=["-deadlock"], timeout=800, heap="6g")
    c.cov["small_buffer_states"] = st2["distinct"]
    rng = c.rng
    if not c.thorough:
        hs = rng.sample(hs, min(len(hs), 9000))
    lens = [0, 1, 2, 3, 100, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 5000]
    rnd = [random_hist(rng, rng.randint(4, 40), lens) for _ in range(20000 if c.thorough else 1500)]
    autos = [["Z %d %d" % (ch, n)] for ch in (97, 255) for n in lens]
    every = hs + rnd + autos
    # all single lengths around the boundary, reached in one and in two steps
    for n in range(250, 262):
        every.append(["I 1 97 %d" % n, "I 2 97 %d" % (n - 1), "P 2 1", "F 1", "F 1", "F 2", "F 2"])
        for k in (1, 2, 128, n - 1):
            every.append(["I 1 98 %d" % k, "A 1 98 %d" % (n - k), "N 2", "P 2 1", "A 2 99 1", "F 1", "N 1", "A 1 97 1"])
    rng.shuffle(every)
    parts = [every[i::JOBS] for i in range(JOBS)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda h: play(exe, h), parts))
    lines = [x for l, _ in res for x in l]
    for _, deaths in res:
        for h, err in deaths:
            c.violation("the string code dies in history %s:\n%s" % (h, err), {"history": h, "stderr": err}, key="death")
    starts, begin = [], 0
    for i, e in enumerate(lines):
        if e["op"] == "reset":
            starts.append(i + 1)
    mm, st3 = conform.validate("TraceCString", lines, groups=[s for s in starts if s < len(lines)], minchunk=2000)
    bounds = [0] + starts
    for i, want in mm[:10]:
        a = max(b for b in bounds if b <= i)
        c.violation("string operation %s: the specification says %s" % (json.dumps(lines[i]), json.dumps(want)),
                    {"history": [fmt(e) for e in lines[a:i + 1]], "got": lines[i], "want": want}, key="op:" + lines[i]["op"])
    c.cov.update({"histories": len(every), "operations": len(lines) - len(every), "traces_validated_against_impl": len(every)})
    if not c.violations:
        c.cov["selftest_corrupted"] = conform.selftest("TraceCString", [x for x in lines if x["op"] == "auto"][:5], lambda e: dict(e, len=e["len"] + 1))
    c.sample({"history": rnd[0], "last": lines[0]})
    c.assumptions += ["the appended text does not overlap the string itself", "memory allocation succeeds",
                      "characters and lengths as runs; the buffer in the object has 256 characters, as declared"]


def fmt(e):
    return {"N": "N %s" % e.get("s"), "F": "F %s" % e.get("s"), "P": "P %s %s" % (e.get("s"), e.get("t"))}.get(e["op"], "%s %s %s %s" % (e["op"], e.get("s"), e.get("c"), e.get("n")))
