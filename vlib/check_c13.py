"""C13: the built-in matchers."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal, getcontext
from fractions import Fraction
import conform
from check_c11 import build
from common import Broken, JOBS, Tree, run, tlc, tlc_prints

W = {"char": 8, "u_char": 8, "short": 16, "u_short": 16, "int": 32, "u_int": 32, "float": 32, "int128": 128, "uint128": 128, "long_double": 80}
FORM = {"value": 0, "deref": 1, "cpp": 3}
SIGNED = {"short", "int", "long", "long_long"}


def tobytes(t, bits):
    n = W.get(t, 64) // 8
    v = sum(1 << b for b in bits).to_bytes(n, "little")
    return v + b"\0" * 6 if t == "long_double" else v


def number(t, bits):
    """The value of a floating point number: a Fraction, or "inf"/"-inf"/"nan"."""
    bits = set(bits)
    w = W.get(t, 64)
    elow = {"float": 23, "double": 52, "long_double": 64}[t]
    ebits = w - 1 - elow
    e = sum(1 << (b - elow) for b in bits if elow <= b < w - 1)
    neg = (w - 1) in bits
    bias = (1 << (ebits - 1)) - 1
    if t == "long_double":
        m = Fraction(sum(1 << b for b in bits if b < 64), 1 << 63)
        frac = any(b < 63 for b in bits)
    else:
        m = Fraction(sum(1 << b for b in bits if b < elow), 1 << elow)
        frac = m != 0
        if e:
            m += 1
    if e == (1 << ebits) - 1:
        return "nan" if frac else ("-inf" if neg else "inf")
    v = m * Fraction(2) ** ((e or 1) - bias)
    return -v if neg else v


TOKEN = re.compile(r"[-+]?(?:0[xX][0-9a-fA-F]+|\(nil\)|(?:nan|inf)(?:inity)?|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|[0-9a-fA-F]+)")


def candidates(t, bits):
    """A predicate on a quoted text: does it show this value?"""
    if t in ("float", "double", "long_double"):
        v = number(t, bits)

        def ok(q):
            q = q.decode("latin1").strip().lower()
            if isinstance(v, str):
                return q.lstrip("-+").startswith("nan") if v == "nan" else q in (v, v.replace("inf", "infinity"))
            try:
                x = Fraction(Decimal(q))
            except Exception:
                return False
            return abs(x - v) <= max(abs(v) * Fraction(1, 10 ** 5), Fraction(1, 10 ** 6))
        return ok
    v = sum(1 << x for x in bits)
    w = W.get(t, 64)
    if t in SIGNED and (w - 1) in bits:
        v -= 1 << w

    def ok(q):
        q = q.decode("latin1").strip().lower()
        if q == "(nil)":
            return v == 0
        vals = set()
        if t in ("pointer", "int128", "uint128"):
            try:
                vals.add(int(q, 16))
            except ValueError:
                pass
            if t == "int128" and q.startswith("-"):
                return False
        try:
            vals.add(int(q, 0 if q.startswith("0x") else 10))
        except ValueError:
            pass
        return v in vals or (t == "int128" and (v - (1 << 128) if v >> 127 else v) in vals and not q.startswith("0x"))
    return ok


def shows(msg, name, t, cur, exp, limit):
    """Does the message name the parameter and then show the actual and the expected value, in that order?"""
    if len(msg) >= limit - 1:       # cut to the size of the buffer
        k = name.encode()[:40]
        return k in msg
    i = msg.find(name.encode())
    if i < 0:
        return False
    rest = msg[i + len(name):]
    if t == "str":
        a = rest.find(cur)
        if a < 0:
            return False
        return exp in rest[a + len(cur):]
    if t in ("char", "u_char") and (not cur or not exp):
        return True                 # a NUL character ends the message
    if t in ("char", "u_char"):
        def forms(bits):
            b = sum(1 << x for x in bits)
            return [b"'" + f + b"'" for f in (bytes([b]), str(b).encode(), str(b - 256 if b > 127 else b).encode())]
        for f in forms(cur):
            i = rest.find(f, 1)
            if i >= 0 and any(g in rest[i + len(f):] for g in forms(exp)):
                return True
        return False
    a, b = candidates(t, cur), candidates(t, exp)
    m = re.match(rb"^'.*?'(.*)'.*?'(.*)'[^']*$", rest, re.S)
    if not m:
        m = re.match(rb"^'.*?'(.+?)'[^']*'(.+?)'", rest, re.S)
    return bool(m) and a(m.group(1)) and b(m.group(2))


def play(exe, cases):
    out, deaths, i = [], [], 0
    while i < len(cases):
        p = run([exe], input="".join(k["line"] + "\n" for k in cases[i:]).encode(), timeout=240 if not deaths else 20, env={"ASAN_OPTIONS": "detect_leaks=0"})
        got = p.stdout.splitlines()
        out += got
        if p.returncode == 0:
            if len(out) - 0 < len(cases):
                raise Broken("matcher harness ended early")
            break
        deaths.append((cases[i + len(got)], p.stderr[-1200:]))
        out.append(None)
        i += len(got) + 1
        if len(deaths) > 3:
            out += [None] * (len(cases) - len(out))
            break
    return out, deaths


def check(c):

    tree = Tree(asan=True)
    exe = build(tree, "matcher.cpp", "mt")
    out, st = tlc("MCMatcher", workers=JOBS, extra=["-deadlock"], timeout=800, heap="6g")
    c.cov["states"] = st["distinct"]
    sits = [json.loads(b) for b in tlc_prints(out, "SIT")]
    if len(sits) < 50000:
        raise Broken("the model emitted only %d situations" % len(sits))
    rng = c.rng
    c.cov["model_situations"] = len(sits)
    if not c.thorough:
        # every single bit of every type against its base stays in; the rest is sampled
        near = [s for s in sits if len(set(s["c"]) ^ set(s["e"])) <= 1]
        far = [s for s in sits if len(set(s["c"]) ^ set(s["e"])) > 1]
        sits = near + rng.sample(far, 6000)
    cases = []
    names = ["p", "a_rather_long_parameter_name_0123456789", "x" * 300]
    for s in sits:
        n = rng.choice(names[:2]) if rng.random() < 0.98 else names[2]
        cases.append({"type": s["t"], "form": s["f"], "cur": sorted(s["c"]), "exp": sorted(s["e"]), "name": n,
                      "line": "%s %d x%s x%s %s" % (s["t"], FORM[s["f"]], tobytes(s["t"], s["c"]).hex(), tobytes(s["t"], s["e"]).hex(), n)})
    # random pairs
    types = sorted({s["t"] for s in sits})
    for _ in range(60000 if c.thorough else 4000):
        t = rng.choice(types)
        w = W.get(t, 64)
        a = {b for b in range(w) if rng.random() < 0.5}
        b = set(a) if rng.random() < 0.5 else {b for b in range(w) if rng.random() < 0.5}
        for _ in range(rng.choice([0, 0, 1, 2])):
            b ^= {rng.randrange(w)}
        if t == "long_double":
            a.add(63)
            b.add(63)
        d = "value" if t in ("int128", "uint128") else rng.choice(["value", "value", "deref", "deref", "cpp"])
        cases.append({"type": t, "form": d, "cur": sorted(a), "exp": sorted(b), "name": "val",
                      "line": "%s %d x%s x%s val" % (t, FORM[d], tobytes(t, a).hex(), tobytes(t, b).hex())})
    # strings
    for _ in range(20000 if c.thorough else 2500):
        n = rng.choice([0, 1, 2, 5, 50, 100, 110, 120, 125, 128, 200, 255, 256, 300, 3000])
        a = bytes(rng.choice([97, 98, 255, 1, 37]) for _ in range(n))
        b = bytearray(a)
        r = rng.random()
        if r < 0.25 and n:
            b[rng.choice([0, n - 1, rng.randrange(n)])] ^= 1 << rng.randrange(8)
            if 0 in b:
                b = bytearray(x or 65 for x in b)
        elif r < 0.4:
            b += b"z"
        elif r < 0.5 and n:
            b = b[:-1]
        elif r < 0.6:
            b = bytearray(rng.choice([97, 98]) for _ in range(rng.choice([0, 3, 130, 256])))
        name = rng.choice(names)
        same = bytes(b) == a and rng.random() < 0.3
        cpp = not same and rng.random() < .2
        cases.append({"type": "str", "form": "cpp" if cpp else "value", "cur": a.decode("latin1"), "exp": bytes(b).decode("latin1"), "name": name,
                      "line": "str %d x%s x%s %s" % (2 if same else 3 if cpp else 0, a.hex(), bytes(b).hex(), name)})
    rng.shuffle(cases)
    parts = [cases[i::JOBS] for i in range(JOBS)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda p: play(exe, p), parts))
    lines, keep = [], []
    for part, (outs, deaths) in zip(parts, res):
        for k, err in deaths:
            c.violation("the matcher of %s dies on %s:\n%s" % (k["type"], k["line"][:300], err), dict(k, stderr=err), key="death:" + k["type"])
        for k, o in zip(part, outs):
            if o is None:
                continue
            rc, fits, m = o.split(" ")
            msg = bytes.fromhex(m[1:])
            cur, exp = (k["cur"].encode("latin1"), k["exp"].encode("latin1")) if k["type"] == "str" else (k["cur"], k["exp"])
            lines.append({"type": k["type"], "form": k["form"], "cur": k["cur"], "exp": k["exp"], "rc": int(rc), "fits": fits == "1",
                          "shows": int(rc) == 0 or shows(msg, k["name"], k["type"], cur, exp, 256 if k["form"] != "cpp" else 1 << 30)})
            keep.append((k, msg))
    mm, st2 = conform.validate("TraceMatcher", lines, minchunk=1500)
    for i, want in mm[:10]:
        k, msg = keep[i]
        c.violation("matcher of %s%s on %s: verdict %d (equal: %s), message %r" % (k["type"], {"deref": " (dereferencing)", "cpp": " (C++)", "value": ""}[k["form"]], k["line"][:200],
                    lines[i]["rc"], want["equal"], msg[:260]), {"case": k, "line": lines[i], "message": msg.decode("latin1")},
                    key="%s:%s" % (k["type"], "verdict" if (lines[i]["rc"] == 0) != want["equal"] else "message"))
    c.cov.update({"calls": len(lines), "mismatches_reported": sum(1 for e in lines if e["rc"]), "traces_validated_against_impl": len(lines)})
    if not c.violations:
        c.cov["selftest_corrupted"] = conform.selftest("TraceMatcher", lines[:30], lambda e: dict(e, rc=0 if e["rc"] else 1, shows=True))
    c.sample({"call": keep[0][0], "message": keep[0][1].decode("latin1")})
    c.assumptions += ["floating point values are told apart by the verdict, the message shows them to six digits",
                      "characters that end the text of the message (NUL) are not looked for in it", "messages longer than the buffer are cut"]
