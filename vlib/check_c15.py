"""C15: the command line. CmdLine.tla against CmdLineParser (in process) and EasyMockGenerate (through its effects)."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import Broken, JOBS, SPEC, Tree, VERIF, run, scratch, tlc, tlc_prints
import conform

SINGLE = ["-i", "-o", "--cwd"]
MULTI = ["--mock-only", "--ignore-generation-of", "--ignore-field-generation-of", "--generate-comparator-of", "--generate-attribute"]
FLAGS = ["--generate-types", "--generate-included-functions", "--mock-cpp", "--ignore-parser-error"]
HELP = ["-h", "--help"]

HDR = """#if __has_include("sub.h")
#include "sub.h"
#else
#define INC none
#endif
#ifdef BAD
#error bad header
#endif
#ifndef A
#define A none
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
struct S1 { int s1_field; };
struct S2 { int s2_field; };
void fa(struct S1 *a);
int fb(struct S2 b);
void fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
int old(int a) __attribute__((deprecated));
int CAT(ext_, A)(void);
int CAT(inc_, INC)(void);
"""


def names(msg):
    """The options a message speaks about."""
    n = [o for o in MULTI + ["--cwd"] if re.search(r"(?<![\w-])%s(?![\w-])" % o, msg)]
    if re.search(r"(?<![\w-])-i(?![\w-])|[Ii]nput", msg):
        n.append("-i")
    if re.search(r"(?<![\w-])-o(?![\w-])|[Oo]utput", msg):
        n.append("-o")
    return n


def fixture(d):
    """A small world: the same header in two directories, each with output and include directories."""
    for base in (d, os.path.join(d, "d"), os.path.join(d, "d", "d")):
        os.makedirs(base, exist_ok=True)
        for k in ("1", "2"):
            os.makedirs(os.path.join(base, "inc" + k), exist_ok=True)
            with open(os.path.join(base, "inc" + k, "sub.h"), "w") as f:
                f.write("#define INC %s\nint sub_%s(void);\n" % (k, k))
        os.makedirs(os.path.join(base, "out"), exist_ok=True)
    for p in ("t.h", "d/t.h"):
        with open(os.path.join(d, p), "w") as f:
            f.write(HDR)
    with open(os.path.join(d, "d", "only.h"), "w") as f:
        f.write(HDR)


FILES = ["t.h", "d/t.h", "d/only.h"]
DIRS = ["d", "d/d", "out", "d/out", "d/d/out", "inc1", "inc2", "d/inc1", "d/inc2", ".", "d/."]


def build_harness(tree):
    d = scratch("cmdl")
    exe = os.path.join(d, "cmdl")
    lib = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(tree.libs, "src")) for f in fs if f.lower() == "libcmdlineparser.a"]
    if not lib:
        raise Broken("the command line parser library is not where it was")
    p = run(["g++", "-std=c++17", "-O1", "-I", tree.geninc, os.path.join(VERIF, "harness/cmdline.cpp"), lib[0], "-lstdc++fs", "-o", exe])
    if p.returncode:
        raise Broken("harness does not compile:\n" + p.stderr[-3000:])
    return exe


def parse_all(exe, world, vecs):
    """Runs the parser in process on every vector; a crash is attributed to its vector."""
    def chunk(vs):
        inp = "".join("%d\n%s" % (len(v), "".join(t + "\n" for t in v)) for v in vs).encode()
        p = run([exe], cwd=world, input=inp, timeout=240)
        out = [json.loads(x) for x in p.stdout.splitlines()[:len(vs)] if x.endswith("}")]
        return out, p
    res = []
    size = -(-len(vecs) // JOBS)
    with ThreadPoolExecutor(JOBS) as ex:
        parts = [vecs[i:i + size] for i in range(0, len(vecs), size)]
        for vs, (out, p) in zip(parts, ex.map(chunk, parts)):
            for v, o in zip(vs, out):
                o["vec"] = v
                res.append(o)
            if len(out) != len(vs):
                res.append({"op": "parse", "crash": True, "vec": vs[len(out)], "rc": p.returncode})
    return res


def random_vec(rng, run_level):
    vals = ["fa", "fb", "fmt", "old", "S1", "S2", "format", "deprecated", "EasyMock_all_comparators", "sub_1", "inc_none", "ext_none", "ext_2", "nothing"]
    extra = ["-DA=1", "-DA=2", "-UA", "-Iinc1", "-Iinc2"]
    paths_i = ["t.h"] * 4 + ["d/t.h", "only.h", "d/only.h", "nofile.h", "out"]
    paths_o = ["out"] * 4 + ["d/out", "d/d/out", "t.h", "nodir"]
    items = []
    ok = rng.random() < 0.75
    if ok or rng.random() < 0.8:
        items.append(["-i", rng.choice(paths_i[:4] if ok and rng.random() < .8 else paths_i)])
    if ok or rng.random() < 0.8:
        items.append(["-o", rng.choice(paths_o[:4] if ok and rng.random() < .8 else paths_o)])
    if rng.random() < 0.25:
        items.append(["--cwd", rng.choice(["d", "d", "d/d", "nodir"])])
    for _ in range(rng.randrange(5)):
        o = rng.choice(MULTI)
        val = {"--mock-only": ["fa", "fb", "fmt", "old", "ext_none", "ext_2", "sub_1", "nothing"],
               "--ignore-generation-of": ["fa", "fb", "fmt", "old", "inc_none", "ext_1"],
               "--ignore-field-generation-of": ["S1", "S2", "T"],
               "--generate-comparator-of": ["S1", "S2", "EasyMock_all_comparators", "fa"],
               "--generate-attribute": ["format", "deprecated", "noreturn"]}[o]
        items.append([o, rng.choice(val)])
    for _ in range(rng.randrange(3)):
        items.append([rng.choice(FLAGS[:2] if rng.random() < .6 else FLAGS)])
    for _ in range(rng.randrange(4)):
        items.append(rng.choice([[x] for x in extra] + [["-D", "A=3"], ["-D", "A=4"], ["-I", "inc1"], ["-I", "inc2"]]))
    if rng.random() < 0.08:
        items.append(["-DBAD"])
    if rng.random() < 0.08:
        items.append([rng.choice(HELP)])
    if not run_level or rng.random() < 0.15:
        # malformed or unusual pieces
        for _ in range(rng.randrange(1, 3)):
            if run_level:
                items.append(rng.choice([[rng.choice(MULTI)], ["-i"], ["-o"], ["--cwd"], ["-i", "t.h"], ["-o", "out"], ["--cwd", "d"]]))
            else:
                items.append(rng.choice([[rng.choice(MULTI)], ["-i"], ["-o"], ["--cwd"], ["-i", "t.h"], ["-o", "out"], ["--cwd", "d"],
                             ["x"], ["--mock-onlyx"], ["--mock-only=fa"], ["--Help"], ["-H"], ["-help"], ["--h"], ["-I"], ["-O2"], ["-"], ["--"],
                             ["-ix"], ["-it.h"], ["--generate-type"], ["--generate-types=1"], ["--mock-cp"], ["--cwd=d"], ["-x", "c++"],
                             ["--generate-attribute", ""], ["-i", ""], ["-o", ""], ["--cwd", ""], ["-D", "--generate-types"], ["a b"], ["-DQ=\"x y\""], ["*"]]))
    rng.shuffle(items)
    return [t for it in items for t in it]


def observe_run(tree, world, v):
    """Executes the generator in its own copy of the world and reads the effects from what it wrote."""
    d = scratch("c15")
    fixture(d)
    before = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as fd:
                before[os.path.join(r, f)] = fd.read()
    p = run([tree.gen] + v, cwd=d, timeout=120)
    e = {"op": "run", "vec": v, "exit": 0 if p.returncode == 0 else 1, "signal": p.returncode < 0 or p.returncode >= 126,
         "help": all(o in p.stdout for o in MULTI + FLAGS + ["--cwd"]), "names": names(p.stderr), "diag": bool(p.stderr.strip()),
         "fns": [], "ext": "", "types": False, "fields": [], "cmps": [], "attrs": [], "where": ""}
    new = {}
    changed = []
    for r, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(r, f)
            if q not in before:
                with open(q, errors="replace") as fd:
                    new[os.path.relpath(q, d)] = fd.read()
            else:
                with open(q, "rb") as fd:
                    if fd.read() != before[q]:
                        changed.append(os.path.relpath(q, d))
    e["changed"] = changed
    e["wrote"] = bool(new)
    if e["exit"] == 0 and new:
        hs = [k for k in new if k.endswith(".h")]
        cs = [k for k in new if not k.endswith(".h")]
        e["nfiles"] = [len(hs), len(cs)]
        if len(hs) == 1 and len(cs) == 1:
            h, cc = new[hs[0]], new[cs[0]]
            e["ext"] = cs[0].rsplit(".", 1)[1]
            e["where"] = os.path.dirname(hs[0]) if os.path.dirname(hs[0]) == os.path.dirname(cs[0]) else "?"
            code = re.sub(r"//[^\n]*|/\*.*?\*/", "", h, flags=re.S)
            if e["ext"] == "cpp":
                e["fns"] = sorted(set(re.findall(r"namespace\s+(\w+)\s*\{\s*void\s+ExpectAndReturn\s*\(", code)))
            else:
                e["fns"] = sorted(set(re.findall(r"\b(\w+)_ExpectAndReturn\s*\(", code)))
            e["types"] = not re.search(r'#\s*include\s+"', code)
            e["fields"] = [s for s in ("S1", "S2") if s.lower() + "_field" in code]
            e["cmps"] = sorted({s for s in re.findall(r"\bcmp_(?:struct_)?(\w+)\s*\(", code) if s in ("S1", "S2")})
            e["attrs"] = sorted({a for a in ("format", "deprecated") if re.search(r"__attribute__\s*\(\(\s*%s" % a, code)})
    shutil.rmtree(d, ignore_errors=True)
    return e


def corrupt(r):
    if r["op"] == "parse":
        if r["kind"] == "ok":
            r["extra"] = r["extra"] + ["-bogus"]
        else:
            r["kind"] = "ok"
    elif r["exit"] == 0:
        r["fns"] = r["fns"] + ["bogus"]
        r["help"] = False
    else:
        r["exit"] = 0
        r["help"] = False
        r["wrote"] = False
        r["ext"] = "x"
    return r


def check(c):
    tree = Tree()
    exe = build_harness(tree)
    world = scratch("world")
    fixture(world)
    # the model: every vector up to the bound satisfies the declarative properties
    with open(os.path.join(SPEC, "MCCmdLine.cfg")) as f:
        cfg = f.read()
    depth = 5 if c.thorough else 4
    out, st = tlc("MCCmdLine", cfg_text=cfg.replace("MaxLen = 4", "MaxLen = %d" % depth), workers=JOBS, extra=["-deadlock"], timeout=800)
    c.cov["states"], c.cov["transitions"], c.cov["model_depth"] = st["distinct"], st["generated"], depth
    # vectors of the model, on the real parser; every option takes a turn in the alphabet
    vecs = []
    alphabets = [["-i", "-o", "--cwd", "t.h", "d", "only.h", "out"]]
    alphabets += [["-i", "-o", "t.h", "out", m, x] for m, x in zip(MULTI, ["x", "-D", "--help", "--cwd", "x"])]
    alphabets += [["-i", "t.h", "-o", "out", f, h, "-D"] for f, h in zip(FLAGS, ["-h", "--help", "--mock-only", "x"])]
    for i, a in enumerate(alphabets):
        cf = re.sub(r"Alphabet = .*", "Alphabet = {%s}" % ", ".join('"%s"' % x for x in a), cfg)
        cf = cf.replace("Emit = FALSE", "Emit = TRUE").replace("MaxLen = 4", "MaxLen = %d" % (6 if c.thorough and i == 0 else 5))
        cf = re.sub(r"INVARIANTS.*", "INVARIANTS EmitVec", cf)
        out, st = tlc("MCCmdLine", cfg_text=cf, workers=JOBS, extra=["-deadlock"], timeout=600)
        for m in re.finditer(r'<<\s*"VEC",\s*<<(.*?)>>\s*>>', out, re.S):
            vecs.append(re.findall(r'"([^"]*)"', m.group(1)))
    c.cov["model_vectors"] = len(vecs)
    rng = c.rng
    n = 60000 if c.thorough else 12000
    rnd = [random_vec(rng, False) for _ in range(n)]
    vecs += rnd
    # in a long line of arguments every extra argument keeps its place
    vecs += [["-i", "t.h"] + ["-DX%d" % k for k in range(rng.randrange(200))] + ["-o", "out"] + ["-Iy%d" % k for k in range(rng.randrange(300))] for _ in range(20)]
    res = parse_all(exe, world, vecs)
    lines, idx = [], []
    for r in res:
        if r.get("crash"):
            c.violation("the command line parser crashes (status %s) on %s" % (r["rc"], r["vec"]), r, key="crash:" + " ".join(r["vec"]))
            continue
        if r["kind"] == "help" and not r["helpok"]:
            c.violation("help message altered", r)
            continue
        lines.append({"op": "parse", "vec": r["vec"], "kind": r["kind"], "names": names(r.pop("msg")), "single": r["single"], "multi": r["multi"],
                      "flags": r["flags"], "extra": r["extra"], "files": FILES, "dirs": DIRS})
    mm, st = conform.validate("TraceCmdLine", lines, minchunk=2000)
    c.cov["parses"] = len(lines)
    c.cov["parses_ok"] = sum(1 for x in lines if x["kind"] == "ok")
    c.cov["parses_error"] = sum(1 for x in lines if x["kind"] == "error")
    c.cov["parses_help"] = sum(1 for x in lines if x["kind"] == "help")
    for i, want in mm[:20]:
        e = dict(lines[i], want=want)
        c.violation("arguments %s: got %s %s, the specification says %s" % (lines[i]["vec"], lines[i]["kind"], lines[i]["names"], json.dumps(want)[:600]), e,
                    key="parse:" + " ".join(lines[i]["vec"]))
    # the executable
    nrun = 1500 if c.thorough else 260
    rv = [random_vec(rng, True) for _ in range(nrun)]
    rv += [["--help"], ["-h"], [], ["-i", "t.h", "-o", "out", "-h"], ["--help", "--mock-only"], ["-i", "only.h", "-o", "d/out", "--cwd", "d"],
           ["--cwd", "d", "-i", "only.h", "-o", "out"], ["-i", "t.h", "-o", "out", "--cwd", "nodir"]]
    rv += [["-i", "t.h", "-o", "out"] + x for x in (["-DA=1", "-DA=2"], ["-DA=2", "-DA=1"], ["-DA=1", "-UA"], ["-UA", "-DA=1"], ["-D", "A=3", "-DA=1"],
           ["-DA=1", "-D", "A=4"], ["-Iinc1", "-Iinc2"], ["-Iinc2", "-Iinc1"], ["-I", "inc2", "-I", "inc1"], ["-DBAD"], ["-DBAD", "--ignore-parser-error"])]
    with ThreadPoolExecutor(JOBS) as ex:
        runs = list(ex.map(lambda v: observe_run(tree, world, v), rv))
    rl = []
    for e in runs:
        if e["signal"]:
            c.violation("EasyMockGenerate dies on %s" % e["vec"], e, key="signal:" + " ".join(e["vec"]))
            continue
        if e["changed"]:
            c.violation("EasyMockGenerate %s modified %s" % (e["vec"], e["changed"]), e)
            continue
        e["files"], e["dirs"] = FILES, DIRS
        rl.append(e)
    mm, st2 = conform.validate("TraceCmdLine", rl, minchunk=100)
    for i, want in mm[:20]:
        e = dict(rl[i], want=want)
        c.violation("EasyMockGenerate %s: observed %s, the specification says %s" % (
            " ".join(rl[i]["vec"]), json.dumps({k: rl[i][k] for k in ("exit", "names", "fns", "ext", "types", "fields", "cmps", "attrs", "where", "wrote")}), json.dumps(want)[:700]), e,
            key="run:" + " ".join(rl[i]["vec"]))
    c.cov["runs"] = len(rl)
    c.cov["runs_ok"] = sum(1 for e in rl if e["exit"] == 0)
    if not c.violations:
        sel = [x for x in lines if x["kind"] == "ok"][:4] + [x for x in lines if x["kind"] == "error"][:4] + [e for e in rl if e["exit"] == 0][:4]
        c.cov["selftest_corrupted"] = conform.selftest("TraceCmdLine", sel, corrupt)
    c.cov["traces_validated_against_impl"] = len(lines) + len(rl)
    c.sample({"vec": lines[len(vecs) // 3]["vec"], "kind": lines[len(vecs) // 3]["kind"]})
    c.sample({k: rl[0][k] for k in ("vec", "exit", "fns", "ext", "types", "cmps")})
    c.assumptions += ["values starting with '-' are never values (as documented by the error messages)", "paths do not change while the tool runs"]
