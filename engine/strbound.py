"""Upper bounds for C strings and capacities of the storage they are put in."""
import re
from prog import *

INF = float("inf")
TYBYTES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "float": 4, "ptr": 8}


def tysize(m, ty):
    if ty in TYBYTES:
        return TYBYTES[ty]
    mm = re.match(r"^\[(\d+) x (.*)\]$", ty)
    if mm:
        return int(mm.group(1)) * tysize(m, mm.group(2))
    ll = m.lls.get(ty.lstrip("%"))
    if ll:
        return ll[0]
    return 0


class Strings:
    def __init__(s, P):
        s.P = P
        s.memo = {}

    # ---- capacity in bytes of what a char pointer points to ---------------
    def caps(s, f, t, I, depth=8, seen=None):
        """[(capacity bytes or None, description)] for every object the pointer may denote;
        a capacity can also be ('len+', func, term, k): strlen(term)+k bytes"""
        seen = set() if seen is None else seen
        if (f.name, t) in seen or depth < 0:
            return []
        seen.add((f.name, t))
        P = s.P
        if t[0] == "alloca":
            A = f.byid[t[1]]
            n = f.names.get(t[1], ["local"])[0]
            if A.d["at"] == "ptr":
                return []
            return [(A.d["sz"], "local %s in %s" % (n, f.name))]
        if t[0] == "g":
            return [(P.globals[t[1]]["sz"], "global %s" % t[1])]
        if t[0] == "fd":
            st, fld = t[2].split(".")
            ty = s.fieldty(st, fld)
            if ty and ty.startswith("["):
                return [(tysize(P, ty), "field %s" % t[2])]
            return []
        if t[0] == "ix":
            sub = s.caps(f, t[1], I, depth - 1, seen)
            es = s.elsize(f, t[1])
            r = []
            for c, d in sub:
                if es is not None and es[0] == "arr":
                    # element of an array of char arrays
                    r.append((es[1], d + "[]"))
                elif t[2][0] == "i" and isinstance(c, (int, float)):
                    r.append((c - t[2][1], d))
                else:
                    r.append((c, d))
            return r
        if t[0] == "call":
            C = f.byid.get(t[2])
            if C is None:
                return []
            if C.callee in ("malloc", "calloc", "XA_malloc", "XA_calloc", "realloc", "XA_realloc"):
                a = [P.term(C, x) for x in C.args]
                sz = {"malloc": lambda: a[0], "XA_malloc": lambda: a[0], "calloc": lambda: ("mul", a[0], a[1]),
                      "XA_calloc": lambda: ("mul", a[0], a[1]), "realloc": lambda: a[1], "XA_realloc": lambda: a[1]}[C.callee]()
                return [(s.sizeterm(f, sz), "heap block of %s" % f.name)]
            g = P.funcs.get(C.callee)
            if g:
                r = []
                for R in P.returns[g.name]:
                    for c, d in s.caps(g, P.term(g, R.args[0]), R, depth - 1, seen):
                        # a heap block whose size is a parameter of the allocator
                        if isinstance(c, tuple):
                            c = s.subst(c, g, C)
                        r.append((c, d))
                return r
            return []
        if t[0] == "arg":
            r = []
            for c in P.callers.get(f.name, []):
                if c.f.name in P.reachable and t[1] < len(c.args):
                    r += s.caps(c.f, P.term(c, c.args[t[1]]), c, depth - 1, seen)
            return r
        if t[0] == "phi":
            r = []
            for o, pb in f.byid[t[1]].d["in"]:
                r += s.caps(f, P.term(f, o), f.blocks[pb][-1], depth - 1, seen)
            return r
        if t[0] == "ld":
            k = slot_of(t[1])
            r = []
            if t[1][0] == "alloca":
                for J in f.insts():
                    if J.op == "store" and P.term(J, J.args[1]) == t[1]:
                        r += s.caps(f, P.term(J, J.args[0]), J, depth - 1, seen)
                return r
            if k:
                D = dominating_store(P, f, t[1], I)
                if D is not None:
                    return s.caps(f, P.term(D, D.args[0]), D, depth - 1, seen)
                for ff, J, o in P.stores_to.get(k, []):
                    if ff.name in P.reachable:
                        r += s.caps(ff, P.term(J, o), J, depth - 1, seen)
            return r
        return []

    def subst(s, c, g, C):
        if c[0] == "size":
            t = c[2]
            def rep(t):
                if t[0] == "arg":
                    return s.P.term(C, C.args[t[1]])
                return tuple(rep(x) if isinstance(x, tuple) else x for x in t)
            return s.sizeterm(C.f, rep(t))
        return c

    def sizeterm(s, f, t):
        if t[0] == "mul" and ("i", 1) in t[1:]:
            t = t[2] if t[1] == ("i", 1) else t[1]
        """constant, or ('size', func, term)"""
        v = const(t)
        return v if v is not None else ("size", f.name, t)

    def fieldty(s, st, fld):
        P = s.P
        ll = P.lls.get("struct." + st) or P.lls.get("union." + st)
        mem = P.structs.get(st)
        if ll and mem:
            for k, m in enumerate(mem):
                if m[0] == fld and k < len(ll[1]):
                    return ll[1][k]
        return None

    def elsize(s, f, base):
        """type of the array a base denotes if its elements are arrays"""
        P = s.P
        ty = None
        if base[0] == "g":
            ty = P.globals[base[1]]["t"]
        elif base[0] == "fd":
            st, fld = base[2].split(".")
            ty = s.fieldty(st, fld)
        elif base[0] == "alloca":
            ty = f.byid[base[1]].d["at"]
        if ty:
            mm = re.match(r"^\[(\d+) x (\[.*\])\]$", ty)
            if mm:
                return ("arr", tysize(P, mm.group(2)))
        return None

    # ---- longest string a char pointer can denote --------------------------
    def maxlen(s, f, t, I, depth=9, seen=None):
        """(bound, why)"""
        seen = frozenset() if seen is None else seen
        P = s.P
        if (f.name, t) in seen:
            return (0, "")
        if depth < 0:
            return (INF, "depth")
        seen = seen | {(f.name, t)}
        if I is not None:
            b = s.guard(f, t, I)
            if b is not None:
                return (b, "guarded by a length test")
        if t[0] == "str":
            return (len(t[1]), "literal")
        if t[0] == "null":
            return (0, "null")
        if t[0] in ("alloca", "fd", "g"):
            for c, d in s.caps(f, t, I):
                if isinstance(c, (int, float)):
                    return (c - 1, d)
        if t[0] == "ix":
            b = s.maxlen(f, t[1], None, depth - 1, seen) if t[1][0] in ("alloca", "fd", "g", "ix", "phi", "ld", "arg", "str") else (INF, "?")
            es = s.elsize(f, t[1])
            if es:
                return (es[1] - 1, "array element")
            return b
        if t[0] == "phi":
            worst = (0, "")
            for o, pb in f.byid[t[1]].d["in"]:
                w = s.maxlen(f, P.term(f, o), f.blocks[pb][-1], depth - 1, seen)
                worst = max(worst, w, key=lambda x: x[0])
            return worst
        if t[0] == "sel":
            return max([s.maxlen(f, x, I, depth - 1, seen) for x in t[2:]], key=lambda x: x[0])
        if t[0] == "arg":
            if f.name.startswith("main"):
                return (INF, "command-line text (%s)" % f.name)
            worst = (0, "no caller")
            for c in P.callers.get(f.name, []):
                if c.f.name in P.reachable and t[1] < len(c.args):
                    w = s.maxlen(c.f, P.term(c, c.args[t[1]]), c, depth - 1, seen)
                    if w[0] > worst[0]:
                        worst = (w[0], w[1] + (" via %s" % c.where() if w[0] == INF else ""))
            return worst
        if t[0] == "call":
            g = P.funcs.get(t[1])
            if not g:
                return (INF, "result of %s" % t[1])
            C = f.byid.get(t[2])
            worst = (0, "")
            for R in P.returns[g.name]:
                w = s.maxlen(g, P.term(g, R.args[0]), R, depth - 1, seen)
                worst = max(worst, w, key=lambda x: x[0])
            return worst
        if t[0] == "ld":
            if t[1][0] == "ix" and t[1][1][0] in ("g",):
                # table of strings
                gd = P.globals.get(t[1][1][1])
                if gd and gd.get("init") and gd["init"][0] == "arr":
                    L = [len(P.string(x) or "") for x in gd["init"][1] if x[0] != "null"]
                    if all(P.string(x) is not None or x[0] == "null" for x in gd["init"][1]):
                        return (max(L or [0]), "table %s" % t[1][1][1])
            k = slot_of(t[1])
            if t[1][0] == "alloca":
                k = None
                sts = [(f, J, J.args[0]) for J in f.insts() if J.op == "store" and P.term(J, J.args[1]) == t[1]]
            else:
                sts = P.stores_to.get(k, []) if k else []
            if t[1][0] == "g":
                ini = P.global_init(t[1][1])
                l0 = len(P.string(ini) or "") if ini else 0
            else:
                l0 = 0
            if not sts:
                return (l0, "never set") if k and k[0] == "g" and l0 else (INF, "unknown pointer %s" % show(t, f))
            worst = (l0, "")
            for ff, J, o in sts:
                if ff.name in P.reachable:
                    tt = P.term(J, o)
                    w = s.content(ff, tt, J, depth - 1, seen)
                    worst = max(worst, w, key=lambda x: x[0])
            return worst
        return (INF, "unknown string %s" % show(t, f))

    def content(s, f, t, I, depth, seen):
        """string stored behind a pointer: a heap block holds at most size-1 characters"""
        if t[0] == "call" and t[1] in ("malloc", "calloc", "XA_malloc", "XA_calloc"):
            for c, d in s.caps(f, t, I):
                if isinstance(c, (int, float)):
                    return (c - 1, d)
                if isinstance(c, tuple):
                    # strlen(x)+k
                    b = s.evalsize(f, c[2], I, depth, seen)
                    return (b - 1, d) if b is not None else (INF, d)
        return s.maxlen(f, t, I, depth, seen)

    def evalsize(s, f, t, I, depth=6, seen=frozenset()):
        v = const(t)
        if v is not None:
            return v
        if t[0] == "add":
            a, b = s.evalsize(f, t[1], I, depth, seen), s.evalsize(f, t[2], I, depth, seen)
            return None if a is None or b is None else a + b
        if t[0] == "mul":
            a, b = s.evalsize(f, t[1], I, depth, seen), s.evalsize(f, t[2], I, depth, seen)
            return None if a is None or b is None else a * b
        if t[0] == "pure" and t[1] == "strlen":
            return s.maxlen(f, t[2], I, depth - 1, seen)[0]
        if t[0] == "arg" and depth > 0:
            # greatest value over all callers
            best = None
            for c in s.P.callers.get(f.name, []):
                if c.f.name in s.P.reachable and t[1] < len(c.args):
                    v = s.evalsize(c.f, s.P.term(c, c.args[t[1]]), c, depth - 1, seen)
                    if v is None:
                        return None
                    best = v if best is None else max(best, v)
            return best
        return None

    def minsize(s, f, t, depth=6):
        """least value of a size expression over all callers"""
        v = const(t)
        if v is not None:
            return v
        if t[0] in ("add", "mul"):
            a, b = s.minsize(f, t[1], depth), s.minsize(f, t[2], depth)
            if a is None or b is None:
                return None
            return a + b if t[0] == "add" else a * b
        if t[0] == "pure" and t[1] == "strlen":
            return 0
        if t[0] == "arg" and depth > 0:
            best = None
            for c in s.P.callers.get(f.name, []):
                if c.f.name in s.P.reachable and t[1] < len(c.args):
                    v = s.minsize(c.f, s.P.term(c, c.args[t[1]]), depth - 1)
                    if v is None:
                        return None
                    best = v if best is None else min(best, v)
            return best
        return None

    def guard(s, f, t, I):
        """constant bound on strlen(t) from the branch conditions that hold at I"""
        best = None
        for fact in facts_at(f, s.P.T[f.name], I.b):
            if len(fact) != 3:
                continue
            p, a, b = fact
            if b[0] == "pure" and a[0] == "i" and p in SWAP:
                p, a, b = SWAP[p], b, a
            k = 0
            while a[0] in ("add",) and len(a) == 3:
                c = a[1] if a[1][0] == "i" else a[2] if a[2][0] == "i" else None
                if c is None:
                    break
                k += c[1]
                a = a[2] if a[1] is c else a[1]
            # a text that starts k characters into one of bounded length
            off = 0
            if t[0] == "ix" and t[2][0] == "i" and t[2][1] > 0 and a == ("pure", "strlen", t[1]):
                off, t_ = t[2][1], t[1]
            else:
                t_ = t
            if a == ("pure", "strlen", t_) and b[0] == "i":
                n = b[1] - k - off
                v = {"slt": n - 1, "ult": n - 1, "sle": n, "ule": n, "eq": n}.get(p)
                if v is not None and (best is None or v < best):
                    best = v
        return best


def dominating_store(P, f, addr, I):
    """the store to the same address in this function that always precedes I (closest one)"""
    if I is None or I.f is not f:
        return None
    best = None
    for J in f.insts():
        if J.op == "store" and P.term(J, J.args[1]) == addr and f.idominates(J, I):
            if best is None or f.idominates(best, J):
                best = J
    return best


def const(t):
    if t[0] == "i":
        return t[1]
    if t[0] in ("add", "mul", "sub", "shl"):
        a, b = const(t[1]), const(t[2])
        if a is None or b is None:
            return None
        return {"add": a + b, "mul": a * b, "sub": a - b, "shl": a << b if b >= 0 else None}[t[0]]
    return None


def fmt_parts(fmt):
    """printf/scanf conversions: [('lit', n) | ('conv', flags, width, prec, conv)]"""
    r = []
    i = 0
    while i < len(fmt):
        if fmt[i] != "%":
            r.append(("lit", fmt[i]))
            i += 1
            continue
        m = re.match(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|L|q|j|z|t)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])", fmt[i:])
        if not m:
            r.append(("lit", fmt[i]))
            i += 1
            continue
        if m.group(5) == "%":
            r.append(("lit", "%"))
        else:
            r.append(("conv", m.group(1), m.group(2), m.group(3), (m.group(4) or ""), m.group(5)))
        i += m.end()
    return r
