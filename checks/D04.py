from bounds import *
TITLE = "Loops stay inside the arrays they run over"


def run(P, R):
    R.rule("inside", "an index that runs up to a limit stays below the number of elements its array was made with, and does not fall below its first element", 1)
    B = Bounds(P)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f:
            continue
        T = P.T[fn]
        for I in f.insts():
            if I.op not in ("load", "store"):
                continue
            a = T.ref(I.args[0] if I.op == "load" else I.args[1])
            if a[0] != "ix":
                continue
            esz = SIZE.get(I.d.get("vt") or I.d.get("t"))
            if not esz:
                continue
            hi, lo = B.reach(f, a[2], I)
            if hi is None and lo is None:
                continue
            if lo is not None and set(lo) <= {None} and lo.get(None, 0) < 0:
                if base_is_start(P, B, f, a[1], I):
                    R.bad("inside", "%s/%s" % (fn, name(a[1])), "%s: the index of %s falls below its first element" % (I.where(), name(a[1])), I)
                    continue
            if a[1][0] == "fd":
                ls = [B.inner(a[1])]
                ls = ls if ls[0] else []
            else:
                ls = [n for g, J in B.leaves(f, a[1], I) for n in B.lengths(g, J, esz, hi)]
            if hi is None or not ls:
                continue
            if all(B.over(hi, n) for n in ls):
                R.bad("inside", "%s/%s" % (fn, name(a[1])), "%s: the index of %s runs to %s, the array has %s elements" % (I.where(), name(a[1]), show(hi), show(ls[0])), I)
            else:
                R.hold("inside", I)


def base_is_start(P, B, f, b, I):
    """does the pointer point to the first element (rather than into the middle)?"""
    if b[0] == "ld":
        k = slot_of(b[1])
        return k is not None and not any(P.term(J, o)[0] == "ix" for f, J, o in P.stores_to.get(k, []))
    if b[0] == "arg":
        L = B.leaves(f, b, I)
        return bool(L) and all(J is not None for g, J in L)
    return b[0] in ("call", "g", "alloca")


def name(t):
    if t[0] == "ld":
        return name(t[1])
    if t[0] == "ix":
        return name(t[1]) + "[]"
    if t[0] == "fd":
        return t[2]
    return str(t[1]) if t[0] in ("g", "call") else "the array"


def show(l):
    r = []
    for k, v in sorted(l.items(), key=repr):
        if k is None:
            r.append(str(v))
        else:
            r.append(("%d*" % v if v != 1 else "") + str(k[1] if k[0] in ("g", "fd") else k))
    return "+".join(r) or "0"
