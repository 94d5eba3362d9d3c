"""Types of functions from the debug information of an object file (readelf), as type trees of spec/CType.tla."""
import re
from common import run, Broken

BASE = {"long int": "long", "short int": "short", "long unsigned int": "unsigned long", "short unsigned int": "unsigned short",
        "long long int": "long long", "long long unsigned int": "unsigned long long", "__int128 unsigned": "unsigned __int128",
        "unsigned __int128": "unsigned __int128"}
HEAD = re.compile(r"^\s*<([0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \((DW_TAG_\w+)\))?")
ATTR = re.compile(r"^\s*<[0-9a-f]+>\s+(DW_AT_\w+)\s*: ?(.*)$")


def parse(obj):
    p = run(["readelf", "--debug-dump=info", "-W", obj], timeout=300)
    if p.returncode:
        raise Broken("readelf: " + p.stderr[-500:])
    dies, stack = {}, []
    cur = None
    for line in p.stdout.splitlines():
        m = HEAD.match(line)
        if m:
            depth = int(m.group(1), 16)
            if not m.group(4):
                cur = None
                continue
            cur = {"tag": m.group(4)[7:], "kids": [], "off": int(m.group(2), 16)}
            dies[cur["off"]] = cur
            del stack[depth:]
            if stack:
                stack[-1]["kids"].append(cur)
            stack.append(cur)
            continue
        m = ATTR.match(line)
        if m and cur is not None:
            v = m.group(2).strip()
            v = re.sub(r"^\([a-z_0-9]+\) ?", "", v)
            v = re.sub(r"^\([^)]*offset: [^)]*\): ?", "", v)
            if m.group(1) != "DW_AT_name":
                v = v.split("\t")[0].strip()
            cur[m.group(1)[6:]] = v
    return dies


class Types:
    def __init__(self, dies):
        self.d = dies

    def ref(self, die, key="type"):
        v = die.get(key)
        if v is None:
            return None
        return self.d[int(re.match(r"<0x([0-9a-f]+)>", v).group(1), 16)]

    def ty(self, die, depth=0):
        if die is None:
            return leaf("void", "")
        tag = die["tag"]
        if tag == "base_type":
            n = die["name"]
            return leaf("b", BASE.get(n, n))
        if tag in ("structure_type", "union_type", "class_type"):
            kw = {"structure_type": "struct", "union_type": "union", "class_type": "class"}[tag]
            return leaf("inc" if "declaration" in die else "rec", kw + " " + die.get("name", ""))
        if tag == "enumeration_type":
            return leaf("enum", "enum " + die.get("name", ""))
        if tag == "typedef" and die["name"] == "easyMock_size_t":
            return leaf("b", "size")
        if tag == "typedef":
            to = self.ref(die)
            if to is not None and "name" not in to and to["tag"] in ("structure_type", "union_type", "enumeration_type"):
                return node("td", die["name"], [leaf("enum" if to["tag"][0] == "e" else "rec", "anon " + die["name"])])
            return node("td", die["name"], [self.ty(to, depth + 1)])
        if tag == "pointer_type":
            return node("ptr", "", [self.ty(self.ref(die), depth + 1)])
        if tag == "const_type":
            return node("const", "", [self.ty(self.ref(die), depth + 1)])
        if tag == "volatile_type":
            return node("volatile", "", [self.ty(self.ref(die), depth + 1)])
        if tag in ("restrict_type", "atomic_type"):
            return self.ty(self.ref(die), depth)
        if tag == "array_type":
            t = self.ty(self.ref(die), depth + 1)
            for k in reversed([k for k in die["kids"] if k["tag"] == "subrange_type"]):
                t = node("arr", str(int(k["upper_bound"], 0) + 1) if "upper_bound" in k else "", [t])
            return t
        if tag in ("subroutine_type", "subprogram"):
            return self.fn(die)
        if tag == "unspecified_type":
            return leaf("b", die.get("name", "?"))
        if tag == "reference_type":
            return node("ref", "", [self.ty(self.ref(die), depth + 1)])
        raise Broken("unknown debug information: " + tag)

    def fn(self, die):
        ps = [self.ty(self.ref(k)) for k in die["kids"] if k["tag"] == "formal_parameter"]
        v = any(k["tag"] == "unspecified_parameters" for k in die["kids"]) and "prototyped" in die
        return node("fn", "", [self.ty(self.ref(die))] + ps, v)


def leaf(k, n):
    return {"k": k, "n": n, "t": [], "v": False}


def node(k, n, t, v=False):
    return {"k": k, "n": n, "t": t, "v": v}


def functions(obj):
    """name -> type tree of every function defined in the object file."""
    dies = parse(obj)
    t = Types(dies)
    r = {}
    for d in dies.values():
        if d["tag"] == "subprogram" and "name" in d and "low_pc" in d:
            r[d["name"]] = t.fn(d)
    return r
