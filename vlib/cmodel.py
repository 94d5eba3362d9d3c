"""An abstract model of C declarations: what a header declares, independent of EasyMock.

Ty trees describe types; Decl objects describe type definitions; Fn describes a function.
The model can print itself as C in several styles and answer the questions the specification
asks (what is an output parameter, which members are comparable, ...)."""
import random

# prim: spelling -> (bits, signed, family)
PRIMS = {
    "char": (8, True, "i"), "unsigned char": (8, False, "i"), "signed char": (8, True, "i"),
    "short": (16, True, "i"), "unsigned short": (16, False, "i"),
    "int": (32, True, "i"), "unsigned int": (32, False, "i"),
    "long": (64, True, "i"), "unsigned long": (64, False, "i"),
    "long long": (64, True, "i"), "unsigned long long": (64, False, "i"),
    "float": (32, True, "f"), "double": (64, True, "f"), "long double": (80, True, "f"),
    "__int128": (128, True, "i"), "unsigned __int128": (128, False, "i"),
    # typedefs of <stdint.h>/<stddef.h>
    "uint8_t": (8, False, "i"), "int8_t": (8, True, "i"), "uint16_t": (16, False, "i"), "int16_t": (16, True, "i"),
    "uint32_t": (32, False, "i"), "int32_t": (32, True, "i"), "uint64_t": (64, False, "i"), "int64_t": (64, True, "i"),
    "size_t": (64, False, "i"),
}
STDINT = {"uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "size_t"}
BASIC = [p for p in PRIMS if p not in STDINT]


class Ty:
    const = False

    def key(self):
        return decl(self, "")


class Prim(Ty):
    def __init__(self, name):
        self.name = name


def is_bool(t):
    c = canon(t)
    return isinstance(c, Prim) and c.name in ("bool", "_Bool")


class Void(Ty):
    name = "void"


class Named(Ty):
    """Use of a declared struct/union/enum/typedef: d is the Decl, spelled d.spelling."""

    def __init__(self, d, spelling=None):
        self.d = d
        self.name = spelling or d.spelling


class Const(Ty):
    def __init__(self, of):
        self.of = of


class Ptr(Ty):
    def __init__(self, to):
        self.to = to


class Arr(Ty):
    def __init__(self, of, n):
        self.of, self.n = of, n


class Func(Ty):
    def __init__(self, ret, params, variadic=False):
        self.ret, self.params, self.variadic = ret, params, variadic


class Ref(Ty):      # C++ only
    def __init__(self, to):
        self.to = to


def decl(t, inner, east=False):
    """C declaration of `inner` with type t."""
    if isinstance(t, (Prim, Void, Named)):
        return (t.name + " " + inner).rstrip()
    if isinstance(t, Const):
        if isinstance(t.of, Ptr):
            return decl(t.of.to, _wrap(t.of.to, "*const " + inner), east)
        if isinstance(t.of, (Arr, Func)):
            raise ValueError("const array/function")
        return ((t.of.name + " const " if east else "const " + t.of.name + " ") + inner).rstrip()
    if isinstance(t, Ptr):
        return decl(t.to, _wrap(t.to, "*" + inner), east)
    if isinstance(t, Ref):
        return decl(t.to, "&" + inner, east)
    if isinstance(t, Arr):
        return decl(t.of, inner + "[" + ("" if t.n is None else str(t.n)) + "]", east)
    if isinstance(t, Func):
        ps = ", ".join(decl(p, "", east) for p in t.params) + (", ..." if t.variadic else "")
        return decl(t.ret, inner + "(" + (ps or "void") + ")", east)
    raise TypeError(t)


def _wrap(to, inner):
    return "(" + inner + ")" if isinstance(to, (Arr, Func)) else inner


class Field:
    def __init__(self, ty, name, bits=None):
        self.ty, self.name, self.bits = ty, name, bits


class Record:
    """struct/union. tag may be None (anonymous); td is an alias declared with it."""

    def __init__(self, kind, tag, fields, td=None):
        self.kind, self.tag, self.fields, self.td = kind, tag, fields, td
        self.complete = True

    @property
    def spelling(self):
        return self.td if self.td else "%s %s" % (self.kind, self.tag)

    def body(self, ind="  "):
        s = "%s%s {\n" % (self.kind, " " + self.tag if self.tag else "")
        for f in self.fields:
            s += ind + field_text(f, ind) + ";\n"
        return s + ind[:-2] + "}"

    def text(self):
        if self.td:
            return "typedef " + self.body() + " " + self.td + ";"
        return self.body() + ";"


class AnonRec(Ty):
    """A record defined in place as the type of a member (named member or anonymous member)."""

    def __init__(self, rec):
        self.rec = rec
        self.name = "<anon>"


def field_text(f, ind):
    base, suffix = f.ty, ""
    t = f.ty
    dims = []
    while isinstance(t, Arr):
        dims.append(t)
        t = t.of
    if isinstance(t, AnonRec):
        b = t.rec.body(ind + "  ")
        s = b + (" " + f.name if f.name else "") + "".join("[%s]" % d.n for d in dims)
    else:
        s = decl(base, f.name or "")
    if f.bits is not None:
        s += " : %d" % f.bits
    return s


class Enum:
    def __init__(self, tag, values, td=None):
        self.tag, self.values, self.td = tag, values, td

    @property
    def spelling(self):
        return self.td if self.td else "enum " + self.tag

    def text(self):
        vs = ", ".join(n if v is None else "%s = %s" % (n, v) for n, v in self.values)
        b = "enum %s{ %s }" % (self.tag + " " if self.tag else "", vs)
        return ("typedef %s %s;" % (b, self.td)) if self.td else b + ";"


class Typedef:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    @property
    def spelling(self):
        return self.name

    def text(self):
        return "typedef " + decl(self.ty, self.name) + ";"


class Fwd:
    """Declared but never completed."""

    def __init__(self, kind, tag):
        self.kind, self.tag = kind, tag
        self.complete = False

    @property
    def spelling(self):
        return "%s %s" % (self.kind, self.tag)

    def text(self):
        return self.spelling + ";"


class Fn:
    def __init__(self, name, ret, params, variadic=False):
        # params: list of (Ty, name or None)
        self.name, self.ret, self.params, self.variadic = name, ret, params, variadic
        self.ns = []           # C++ namespaces
        self.cls = None        # C++ class name
        self.cconst = False
        self.prefix = ""       # e.g. extern
        self.east = False

    @property
    def void(self):
        return isinstance(canon(self.ret), Void)

    def text(self, name=None):
        ps = ", ".join(decl(t, n or "", self.east) for t, n in self.params) + (", ..." if self.variadic else "")
        return self.prefix + decl(self.ret, (name or self.name) + "(" + (ps or "void") + ")", self.east)


class Header:
    def __init__(self, name, decls, fns, pre=""):
        self.name, self.decls, self.fns, self.pre = name, decls, fns, pre

    def text(self):
        g = "GUARD_" + "".join(c if c.isalnum() else "_" for c in self.name).upper()
        s = "#ifndef %s\n#define %s\n" % (g, g)
        s += "#include <stdint.h>\n#include <stddef.h>\n" + self.pre
        for d in self.decls:
            s += d.text() + "\n"
        for f in self.fns:
            s += f.text() + ";\n"
        return s + "#endif\n"


# --------------------------------------------------------------------------- questions about types
def strip_const(t):
    while isinstance(t, Const):
        t = t.of
    return t


def canon(t):
    """Through typedefs and top-level const: the type that decides semantics."""
    while True:
        if isinstance(t, Const):
            t = t.of
        elif isinstance(t, Named) and isinstance(t.d, Typedef):
            t = t.d.ty
        else:
            return t


def is_const(t):
    """Is the object designated by this type const (through typedefs)?"""
    while True:
        if isinstance(t, Const):
            return True
        if isinstance(t, Named) and isinstance(t.d, Typedef):
            t = t.d.ty
        else:
            return False


def out_kind(t):
    """May a function with a parameter of this type write through it, and how much is known about the target:
    none | sized | raw"""
    c = strip_const(t)      # a pointer hidden behind a typedef is an opaque handle
    if isinstance(c, Arr):
        to = c.of
    elif isinstance(c, Ptr):
        to = c.to
    else:
        return "none"
    # the innermost type reached through directly nested pointers decides
    while isinstance(to, Ptr):
        to = to.to
    if isinstance(canon(to), Func) or is_const(to):
        return "none"
    b = canon(to)
    if isinstance(b, Void) or (isinstance(b, Named) and isinstance(b.d, Fwd)):
        return "raw"
    return "sized"


def pointee(t):
    c = canon(t)
    return c.of if isinstance(c, Arr) else c.to
