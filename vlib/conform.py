"""Validating recorded lines against a trace specification, several TLC processes at a time."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from common import Broken, SPEC, JOBS, scratch, tlc, tlc_prints


def validate(module, lines, jobs=JOBS, minchunk=400, groups=None, cfg=None, heap="2g", timeout=700):
    """Returns ([(index of the line, what the specification says)], stats). groups: boundaries that may be split at
    (indices at which a line starts a group); default: every line is independent."""
    if not lines:
        return [], {"states": 0}
    n = len(lines)
    size = max(minchunk, -(-n // jobs))
    cuts, last = [0], 0
    starts = groups if groups is not None else range(n)
    for s in starts:
        if s - last >= size:
            cuts.append(s)
            last = s
    cuts.append(n)

    def one(a, b):
        d = scratch("conf")
        p = os.path.join(d, "trace.ndjson")
        with open(p, "w") as f:
            for r in lines[a:b]:
                f.write(json.dumps(r) + "\n")
        out, st = tlc(module, cfg=cfg, env={"TRACE": p}, workdir=d, extra=["-deadlock"], heap=heap, timeout=timeout)
        m = re.search(r"CONSUMED (\d+) OF (\d+)", out)
        if not m or int(m.group(1)) != b - a:
            raise Broken("%s did not read its whole trace (%s)\n%s" % (module, p, out[-2500:]))
        mm = []
        for body in tlc_prints(out, "MISMATCH"):
            r = json.loads(body)
            mm.append((a + r["line"] - 1, r.get("want")))
        return mm, st

    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda ab: one(*ab), list(zip(cuts, cuts[1:]))))
    mm = sorted((x for r, _ in res for x in r), key=lambda x: x[0])
    return mm, {"states": sum(s["distinct"] for _, s in res), "transitions": sum(s["generated"] for _, s in res)}


def selftest(module, lines, corrupt, **kw):
    """Corrupted copies of accepted lines must be refused: the trace check is alive."""
    bad = [corrupt(json.loads(json.dumps(r))) for r in lines]
    mm, _ = validate(module, bad, jobs=1, **kw)
    if len({i for i, _ in mm}) != len(bad):
        ok = set(range(len(bad))) - {i for i, _ in mm}
        raise Broken("%s accepted corrupted lines: %s" % (module, json.dumps([bad[i] for i in sorted(ok)][:2])))
    return len(bad)
