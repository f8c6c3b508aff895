from owner import *
TITLE = "Every file opened is checked, and closed exactly once on every path"


def run(P, R):
    O = Owner(P, "file")
    R.rule("open", "the result of fopen is compared with NULL before the stream is used", 12)
    R.rule("close", "a stream opened and not handed over is closed on every path to the function's end", 12)
    R.rule("after", "a stream is not used or closed again after it is closed", 12)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f:
            continue
        L, n = O.leaks(f)
        bad = {a.id for a, b in L}
        for I in f.calls("fopen"):
            opened(P, R, O, f, I)
            if I.id not in bad:
                R.hold("close", I)
        for a, b in L:
            R.bad("close", "%s/%s" % (fn, a.callee), "%s: stream from %s is not closed on a path reaching %s" % (a.where(), a.callee, b.where()), a)
        U, n = O.uaf(f)
        R.hold("after", f, n - len(U))
        for a, b in U:
            R.bad("after", "%s/%s" % (fn, b.callee or b.op), "%s: stream closed here is used again at %s" % (a.where(), b.where()), a)
        # closing something that was never opened in this function: value undefined on some path
        for I in f.calls("fclose"):
            for o in vals(f, I.args[0]):
                if o[0] in ("undef", "poison", "null"):
                    R.bad("after", "%s/undefined" % fn, "%s: fclose of a stream that was never opened on some path" % I.where(), I)


def vals(f, o, seen=None):
    seen = seen or set()
    if o[0] == "v" and o[1] in f.byid and f.byid[o[1]].op == "phi" and o[1] not in seen:
        seen.add(o[1])
        r = []
        for x, _ in f.byid[o[1]].d["in"]:
            r += vals(f, x, seen)
        return r
    return [o]


def opened(P, R, O, f, I):
    T = P.T[f.name]
    # the stream may be put into a structure first; then loads of that location are followed
    addr = None
    for U in f.uses.get(I.id, []):
        if U.op == "store" and O.exact(f, U.args[0]) == I.id:
            addr = P.term(U, U.args[1])
    names = {T.val(I.id)}
    if addr:
        names.add(("ld", addr))

    def ok_edge(b, x):
        for p, a, c in O.edge_facts(f, b, x):
            if p in ("ne", "eq") and c in (("null",), ("i", 0)) and a in names:
                return False if p == "ne" else True
        return True

    def use(J):
        if J.op == "call" and not (J.callee or "").startswith("llvm."):
            return any(P.term(J, a) in names for a in J.args)
        return False
    r = path_avoiding(f, I.b, I.pos, use, lambda J: False, ok_edge)
    if r:
        R.bad("open", f.name, "%s: the stream may be NULL when it is used at %s" % (I.where(), r[0].where()), I)
    else:
        R.hold("open", I)
