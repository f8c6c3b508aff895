"""Symbolic terms for SSA values, and loop/guard facts built on them."""
import functools
from ir import *

COMM = {"add", "mul", "fadd", "fmul", "and", "or", "xor"}
PURE = set()


def key(t):
    return repr(t)


class T:
    """terms of one function"""

    def __init__(s, f):
        s.f = f
        s.m = f.m
        s.memo = {}

    def ref(s, o):
        k = o[0]
        if k == "v":
            return s.val(o[1])
        if k == "a":
            return ("arg", o[1])
        if k == "i":
            return ("i", o[1])
        if k == "f":
            return ("f", float(o[1]))
        if k == "null":
            return ("null",)
        if k == "g":
            str_ = s.m.string(o)
            return ("str", str_) if str_ is not None and o[1].startswith(".str") or str_ is not None and "__const" in o[1] else ("g", o[1])
        if k == "fn":
            return ("fn", o[1])
        if k == "gep":
            return s._gep(o[1], [s.ref(x) for x in o[2]])
        return (k,)

    def _gep(s, st, idx):
        base = idx[0]
        ty = st
        first = idx[1]
        if first != ("i", 0):
            base = ("ix", base, first)
        for x in idx[2:]:
            if ty.startswith("%"):
                n = x[1]
                base = ("fd", base, ty.lstrip("%").split(".", 1)[1].split(".")[0] + "." + s.m.field(ty, n))
                ll = s.m.lls.get(ty.lstrip("%"))
                ty = ll[1][n] if ll else "?"
            elif ty.startswith("["):
                if x != ("i", 0) or not ty.endswith("x i8]") or True:
                    base = ("ix", base, x)
                ty = ty[ty.index(" x ") + 3:-1]
        return base

    def val(s, i):
        if i in s.memo:
            return s.memo[i]
        I = s.f.byid.get(i)
        if I is None:
            return ("arg", i)
        t = s._val(I)
        s.memo[i] = t
        return t

    def _val(s, I):
        op = I.op
        if op == "phi":
            return ("phi", I.id)
        if op == "alloca":
            return ("alloca", I.id)
        if op == "load":
            return ("ld", s.ref(I.args[0]))
        if op == "getelementptr":
            return s._gep(I.d["st"], [s.ref(x) for x in I.args])
        if op in ("sext", "zext", "trunc", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            if op == "zext":
                src = s.ref(I.args[0])
                return src
            return s.ref(I.args[0])
        if op in ("sitofp", "uitofp"):
            return ("tofp", s.ref(I.args[0]))
        if op in ("fptosi", "fptoui"):
            return ("toint", s.ref(I.args[0]))
        if op in ("icmp", "fcmp"):
            return ("cmp", I.d["p"], s.ref(I.args[0]), s.ref(I.args[1]))
        if op == "select":
            return ("sel",) + tuple(s.ref(a) for a in I.args)
        if op == "call":
            if I.callee == "llvm.fabs.f64":
                return ("fabs", s.ref(I.args[0]))
            if I.callee in PURE:
                return ("pure", I.callee) + tuple(s.ref(a) for a in I.args)
            return ("call", I.callee or "?", I.id)
        a = tuple(s.ref(x) for x in I.args)
        if op == "mul" and ("i", 1) in a:
            return a[1] if a[0] == ("i", 1) else a[0]
        if op == "add" and ("i", 0) in a:
            return a[1] if a[0] == ("i", 0) else a[0]
        if all(x[0] == "i" for x in a) and op in ("add", "mul", "sub"):
            x, y = a[0][1], a[1][1]
            return ("i", x + y if op == "add" else x * y if op == "mul" else x - y)
        if op == "sub" and a[1][0] == "i":
            op, a = "add", (a[0], ("i", -a[1][1]))
        if op == "shl" and a[1][0] == "i":
            op, a = "mul", (a[0], ("i", 1 << a[1][1]))
        if op in COMM:
            a = tuple(sorted(a, key=key))
        if op == "fneg":
            return ("fneg",) + a
        return (op,) + a


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t, f=None):
    """readable form"""
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    sh = lambda x: show(x, f)
    if k == "i":
        return str(t[1])
    if k == "f":
        return "%g" % t[1]
    if k == "g":
        return t[1]
    if k == "fn":
        return "&" + t[1]
    if k == "str":
        return repr(t[1])
    if k == "arg":
        return (f.params[t[1]]["n"] or "arg%d" % t[1]) if f else "arg%d" % t[1]
    if k in ("phi", "alloca"):
        if f and t[1] in f.names:
            return "%s#%d" % (f.names[t[1]][0], t[1])
        return "%s%d" % (k, t[1])
    if k == "ld":
        a = t[1]
        if a[0] in ("fd", "ix", "g"):
            return sh(a) if a[0] != "g" else a[1]
        return "*" + sh(a)
    if k == "fd":
        return "%s->%s" % (sh(t[1]), t[2].split(".")[1])
    if k == "ix":
        return "%s[%s]" % (sh(t[1]), sh(t[2]))
    if k == "call":
        return "%s()#%d" % (t[1], t[2])
    if k == "pure":
        return "%s(%s)" % (t[1], ",".join(sh(x) for x in t[2:]))
    if k == "cmp":
        return "(%s %s %s)" % (sh(t[2]), t[1], sh(t[3]))
    return "%s(%s)" % (k, ", ".join(sh(x) for x in t[1:]))
