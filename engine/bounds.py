"""How far may an index run, and how many elements does the array have?"""
from prog import *

from fractions import Fraction

DIMS = {("g", "gNumStates"), ("g", "gNumActions"), ("g", "gNumObservations")}  # independent of each other
SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "float": 4, "ptr": 8}
ALLOC = {"XA_malloc": lambda a: (a[0],), "malloc": lambda a: (a[0],), "XA_calloc": lambda a: (a[0], a[1]), "calloc": lambda a: (a[0], a[1]),
         "XA_realloc": lambda a: (a[1],), "realloc": lambda a: (a[1],)}


def lin(t):
    """linear form {atom: coefficient, None: constant}; atoms are named after globals and fields, or None if the term is not linear"""
    if t[0] == "i":
        return {None: t[1]} if t[1] else {}
    if t[0] in ("add", "sub") and len(t) == 3:
        a, b = lin(t[1]), lin(t[2])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[0] == "add" else -v)
        return {k: v for k, v in r.items() if v}
    if t[0] == "mul" and len(t) == 3:
        a, b = lin(t[1]), lin(t[2])
        if a is None or b is None:
            return None
        for x, y in ((a, b), (b, a)):
            if set(x) <= {None}:
                c = x.get(None, 0)
                return {k: v * c for k, v in y.items() if v * c}
        r = {}
        for k, v in a.items():
            for l, w in b.items():
                m = tuple(sorted(((k,) if k and k[0] != "*" else k[1:] if k else ()) + ((l,) if l and l[0] != "*" else l[1:] if l else ()), key=repr))
                m = None if not m else m[0] if len(m) == 1 else ("*",) + m
                r[m] = r.get(m, 0) + v * w
        return r
    if t[0] == "ld":
        if t[1][0] == "g":
            return {("g", t[1][1]): 1}
        if t[1][0] == "fd":
            return {("fd", t[1][2]): 1}
        return {t: 1}
    if t[0] in ("phi", "arg", "call"):
        return {t: 1}
    return None


def sub(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}


class Bounds:
    def __init__(s, P):
        s.P = P
        s.memo = {}

    def leaves(s, f, t, I, depth=8, seen=None):
        """places the pointer t of function f may have been allocated: [(function, call or None)]; None: not known"""
        seen = set() if seen is None else seen
        if (f.name, t) in seen or depth < 0:
            return []
        seen.add((f.name, t))
        out = []
        stop = lambda ff, tt, ii: tt[0] == "call" and tt[1] in ALLOC
        for ff, tt, ii in s.P.origins(f, t, I, stop=stop):
            if tt[0] == "call" and tt[1] in ALLOC:
                J = ff.byid.get(tt[2])
                out.append((ff, J))
            elif tt in (("null",), ("i", 0)):
                continue
            elif tt[0] == "ld" and tt[1][0] == "ix":
                base = tt[1][1]
                for gf, J in s.leaves(ff, base, ii, depth - 1, seen):
                    if J is None:
                        out.append((gf, None))
                        continue
                    for gg, X, o in s.elems(gf, J):
                        out += s.leaves(gg, s.P.term(X, o), X, depth - 1, seen)
            elif tt[0] in ("alloca", "g"):
                out.append((ff, tt))
            else:
                out.append((ff, None))
        return out

    def inner(s, fd):
        """length of an array that is a field of a structure"""
        st, n = fd[2].split(".", 1) if "." in fd[2] else (None, None)
        for x in s.P.structs.get(st, []):
            if x[0] == n and x[1].endswith("]") and x[1].count("[") == 1:
                k = x[1][x[1].index("[") + 1:-1]
                return {None: int(k)} if k.isdigit() else None
        return None

    def elems(s, f, J):
        """stores into the elements of the block allocated at J, in the allocating function"""
        T = s.P.T[f.name]
        r = []
        for I in f.insts():
            if I.op == "store":
                a = T.ref(I.args[1])
                if a[0] == "ix" and a[1] == ("call", J.callee, J.id):
                    r.append((f, I, I.args[0]))
        return r

    def length(s, f, J, esz):
        """number of elements of size esz of the array, as a linear form over globals and fields, or None"""
        if isinstance(J, tuple):
            if J[0] == "alloca":
                at = f.byid[J[1]].d.get("at", "")
            else:
                g = s.P.globals.get(J[1])
                at = g["t"] if g else ""
            if not at.startswith("["):
                return None
            n, el = at[1:].split(" x ", 1)
            if SIZE.get(el.rstrip("]")) != esz:
                return None
            return {None: int(n)}
        if J is None:
            return None
        r = {None: 1}
        for o in ALLOC[J.callee](J.args):
            l = lin(s.P.term(J, o))
            if l is None:
                return None
            if set(r) <= {None}:
                r = {k: v * r.get(None, 0) for k, v in l.items()}
            elif set(l) <= {None}:
                r = {k: v * l.get(None, 0) for k, v in r.items()}
            else:
                return None
        return {k: Fraction(v, esz) if v % esz else v // esz for k, v in r.items()}


    def over(s, hi, n):
        """does index hi fall outside n elements, for some sizes of the model?"""
        x = sub(hi, n)
        if set(x) <= {None}:
            return x.get(None, 0) >= 0
        if not set(n) <= DIMS | {None}:
            return False
        ok = DIMS
        return set(x) <= ok | {None} and any(v > 0 for k, v in x.items() if k is not None)

    def alias(s, f, n, mine):
        """write a length with the fields of the index limit that the same function gives the same value"""
        if set(n) <= mine | {None}:
            return n
        T = s.P.T[f.name]
        for I in f.insts():
            if I.op == "store":
                a = T.ref(I.args[1])
                if a[0] == "fd" and ("fd", a[2]) in mine:
                    l = lin(T.ref(I.args[0]))
                    if l and len(l) == 1 and None not in l:
                        x, v = next(iter(l.items()))
                        if v == 1 and x in n:
                            n = sub({y: w for y, w in n.items() if y != x}, {("fd", a[2]): -n[x]})
        return n

    def lengths(s, f, J, esz, hi):
        """the lengths the array may have been given, in terms of what the index limit is expressed in"""
        n = s.length(f, J, esz)
        if n is None:
            return []
        mine = set(hi or {})
        out, todo, k = [], [(f, n, 0)], 0
        while todo:
            f, n, d = todo.pop()
            k += 1
            if not d:
                n = s.alias(f, n, mine)
            a = next((x for x in n if x is not None and (x[0] == "arg" or x[0] == "fd" and x not in mine)), None)
            if a is None:
                if not any(x is not None and x[0] not in ("g", "fd", "*") for x in n):
                    out.append(n)
                continue
            if d > 4 or k > 40:
                continue
            if any(x is not None and x[0] == "arg" for x in n):
                for c in s.P.callers.get(f.name, []):
                    m = {x: v for x, v in n.items() if x is None or x[0] != "arg"}
                    for x in n:
                        if x is not None and x[0] == "arg":
                            l = lin(s.P.term(c, c.args[x[1]])) if x[1] < len(c.args) else None
                            m = None if l is None or m is None else sub(m, {y: -v * n[x] for y, v in l.items()})
                    if m is not None and c.f.name in s.P.reachable:
                        todo.append((c.f, m, d + 1))
                continue
            st = [x for x in s.P.stores_to.get(a, []) if x[0].name in s.P.reachable]
            vals = [(g, lin(s.P.term(I, o))) for g, I, o in st]
            vals = [(g, l) for g, l in vals if l is None or set(l) - {None}]
            if any(l is None or any(x and x[0] in ("phi", "call", "ld") for x in l) for g, l in vals):
                vals = []
            if not vals:
                out.append(n)
            for g, l in vals:
                m = {x: v for x, v in n.items() if x != a}
                todo.append((g, sub(m, {x: -v * n[a] for x, v in l.items()}), d + 1))
        return out

    def reach(s, f, idx, I, depth=2):
        """(largest, smallest) value the index takes, linear forms (either None when not known)"""
        T = s.P.T[f.name]
        l = lin(idx)
        if l is None:
            return None, None
        ph = [k for k in l if k and k[0] == "phi"]
        ar = [k for k in l if k and k[0] == "arg"]
        if not ph and len(ar) == 1 and l[ar[0]] == 1 and depth:
            return s.param(f, T, l, ar[0], I, depth)
        if not ph:
            return (l, l) if not any(k and k[0] in ("arg", "call", "ld") for k in l) else (None, None)
        if len(ph) != 1 or l[ph[0]] != 1:
            return None, None
        rest = {k: v for k, v in l.items() if k != ph[0]}
        if any(k and k[0] in ("arg", "call", "ld") for k in rest):
            return None, None
        v = ph[0]
        hi, lo = s.var(f, T, v, I)
        add = lambda a: None if a is None else sub(a, {k: -w for k, w in rest.items()})
        return add(hi), add(lo)

    def param(s, f, T, l, v, I, depth):
        """an index that is a parameter no test restricts: what the callers pass (all of the limits they agree on)"""
        if any(_has(a, v) or _has(b, v) for p, a, b in facts_at(f, T, I.b)):
            return None, None
        rest = {k: w for k, w in l.items() if k != v}
        if any(k and k[0] in ("phi", "arg", "call", "ld") for k in rest):
            return None, None
        hs = []
        for c in s.P.callers.get(f.name, []):
            if c.f.name not in s.P.reachable or v[1] >= len(c.args):
                continue
            hs.append(s.reach(c.f, s.P.term(c, c.args[v[1]]), c, depth - 1)[0])
        hs = [h for h in hs if h is not None]
        worst = None
        for h in hs:
            if worst is None or set(sub(h, worst)) <= {None} and sub(h, worst).get(None, 0) > 0:
                worst = h
        return (None if worst is None else sub(worst, {k: -w for k, w in rest.items()})), None

    def var(s, f, T, v, I):
        P = f.byid[v[1]]
        if P.b not in f.loops:
            return None, None
        L = f.loops[P.b]
        if I.b not in L:
            return None, None
        init = [T.ref(o) for o, u in P.d["in"] if u not in L]
        back = [T.ref(o) for o, u in P.d["in"] if u in L]
        if len(set(init)) != 1 or len(set(back)) != 1:
            return None, None
        st = lin(back[0])
        if st is None or st.get(v) != 1 or set(st) - {v, None}:
            return None, None
        step = st.get(None, 0)
        i0 = lin(init[0])
        if i0 is None or any(k and k[0] in ("phi", "arg", "call", "ld") for k in i0):
            i0 = None
        ups, lows, other = [], [], False
        for p, a, b in facts_at(f, T, I.b):
            la, lb = lin(a) if a else None, lin(b) if b else None
            if la is None or lb is None:
                if _has(a, v) or _has(b, v):
                    other = True
                continue
            if lb.get(v) == 1 and v not in la:
                la, lb, p = lb, la, SWAP.get(p, p)
            if v not in la:
                continue
            if la.get(v) != 1 or v in lb:
                other = True
                continue
            lim = sub(lb, {k: w for k, w in la.items() if k != v})
            if p in ("slt", "ult"):
                ups.append(sub(lim, {None: 1}))
            elif p in ("sle", "ule"):
                ups.append(lim)
            elif p in ("sgt", "ugt"):
                lows.append(sub(lim, {None: -1}))
            elif p in ("sge", "uge"):
                lows.append(lim)
            elif p != "ne" or not any(k and k[0] == "phi" for k in lb):
                other = True
        if other:
            return None, None
        hi = lo = None
        if step > 0:
            if len(ups) == 1 and step == 1:
                hi = ups[0]
            lo = i0 if not lows else None
        elif step < 0:
            if not ups:
                hi = i0
            if len(lows) == 1 and step == -1:
                lo = lows[0]
            elif not lows and ups and s.only_limit(f, T, P.b, L, v):
                lo = {None: -1}
        return hi, lo

    def only_limit(s, f, T, h, L, v):
        """no other way out of the loop looks at the running variable itself"""
        for b in L:
            t = f.blocks[b][-1] if f.blocks[b] else None
            if b == h or t is None or all(n in L for n in f.succ[b]):
                continue
            if t.op != "br":
                return False
            for p, a, c in facts_of(f, T, t.args[0], True) + facts_of(f, T, t.args[0], False):
                for x in (a, c):
                    l = lin(x)
                    if l is not None and v in l:
                        return False
        return True


def _has(t, v):
    return t == v or isinstance(t, tuple) and any(_has(x, v) for x in t)
