"""Failures are said and seen: a message, a status that is not zero, and results that tell of failure looked at."""
import core
from prog import *

TITLE = "whatever stops a run from doing what was asked is reported, and an error ends it with an error status"
OUT = {"fprintf", "printf", "vfprintf", "fputs", "puts", "fwrite", "perror", "putc", "fputc", "putchar", "vprintf", "write"}
END = {"exit", "_exit", "_Exit", "quick_exit"}


def run(P, R):
    R.rule("status", "a run ended by an error ends with a status other than 0", 1)
    R.rule("last words", "the program does not end in the middle without a message", 1)
    R.rule("said", "when a file cannot be opened, a message is printed on every way on", 1)
    R.rule("noticed", "a result that tells of failure is looked at", 1)
    says = {fn for fn in P.funcs if says_(P, fn)}
    hnd = handlers(P)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f:
            continue
        prints = lambda J: J.op == "call" and (J.callee in OUT or J.callee in says)
        for I in f.calls():
            if I.callee in END and fn not in hnd:
                w = I.args[0]
                if "scanner" not in I.where() and "parser" not in I.where():
                    p = path_avoiding(f, 0, -1, lambda J: J is I, prints)
                    if p is None:
                        R.hold("last words", I)
                    elif w == ["i", 0]:
                        R.undecided("last words", "%s: may be a normal end" % I.where())
                    else:
                        R.bad("last words", fn, "%s: the program can end here without a message" % I.where(), I)
                if w[0] != "i":
                    R.undecided("status", "%s: status not a constant" % I.where())
                elif w[1] % 256:
                    R.hold("status", I)
                elif error_before(P, f, I):
                    R.bad("status", fn, "%s: after an error message the program ends with status 0" % I.where(), I)
                else:
                    R.undecided("status", "%s: status 0" % I.where())
            elif I.callee == "fopen":
                opened(P, R, f, I, prints)
    for m in P.mains:
        f = P.funcs[m]
        for I in f.insts():
            if I.op == "ret" and I.args:
                R.hold("status", I)


def says_(P, fn):
    """does the function print on every way through it?"""
    f = P.funcs[fn]
    if not hasattr(P, "_says"):
        P._says = {}
    if fn in P._says:
        return P._says[fn]
    P._says[fn] = False
    ok = any(b for b in f.blocks) and path_avoiding(f, 0, -1, lambda J: J.op == "ret", lambda J: J.op == "call" and (J.callee in OUT or J.callee in P.funcs and says_(P, J.callee))) is None
    P._says[fn] = ok
    return ok


def handlers(P):
    r = set()
    for f in P.funcs.values():
        for I in f.calls("signal", "sigaction", "bsd_signal"):
            for o in I.args:
                r |= set(fnrefs(o))
    return r


def fnrefs(o):
    if isinstance(o, (list, tuple)):
        if len(o) == 2 and o[0] == "fn":
            return [o[1]]
        return [n for x in o for n in fnrefs(x)]
    return []


def error_before(P, f, I):
    """a message to the error stream just before, in the block or those that lead only here"""
    for p, a, b in facts_at(f, P.T[f.name], I.b):
        for x, y in ((a, b), (b, a)):
            if y == ("i", 0) and (p == "ne" and x[0] == "ld" and x[1][0] == "fd" and "error" in x[1][2] or p == "eq" and x[0] == "call" and "alid" in repr(x)):
                return True
    b, seen = I.b, set()
    stop = I
    while b not in seen:
        seen.add(b)
        for J in f.blocks[b]:
            if J is stop:
                break
            if J.op == "call" and J.callee in OUT and J.args:
                t = P.T[f.name].ref(J.args[-1] if J.callee in ("fputs", "fwrite", "fputc", "putc") else J.args[0])
                if t in (("ld", ("g", "stderr")), ("ld", ("g", "gStdErrFile"))):
                    return True
            if J.op == "call" and J.callee in P.funcs and says_(P, J.callee) and any(P.T[f.name].ref(o) in (("ld", ("g", "stderr")), ("ld", ("g", "gStdErrFile"))) for o in J.args):
                return True
            if J.op == "call" and J.callee in ("Warning", "Error", "ERR_enter", "ERR_dump"):
                return True
        if len(f.pred[b]) != 1:
            return False
        b = f.pred[b][0]
    return False


def edge_not_opened(P, f, I):
    """edges that remain when the file was not opened"""
    T = P.T[f.name]
    me = T.ref(["v", I.id])
    kept = {me} | {("ld", T.ref(J.args[1])) for J in f.uses.get(I.id, ()) if J.op == "store" and J.args[0] == ["v", I.id]}

    def ok(u, v):
        t = f.blocks[u][-1]
        if t.op != "br" or len(t.d["s"]) != 2 or t.d["s"][0] == t.d["s"][1]:
            return True
        return not any(p == "ne" and ("null",) in (a, b) and (a in kept or b in kept) for p, a, b in facts_of(f, T, t.args[0], t.d["s"][0] == v))
    return ok


def opened(P, R, f, I, prints):
    ok = edge_not_opened(P, f, I)
    k = f.blocks[I.b].index(I)
    p = path_avoiding(f, I.b, k, lambda J: J.op == "ret", prints, ok)
    if p is None:
        R.hold("said", I)
    else:
        told(P, R, f, I, p[0], 3)
    # how the caller is told
    rets = failing(f, I, ok, k)
    if any(x[0] in ("null", "i") for x in rets):
        for c in P.calls_to(f.name):
            u = c.f.uses.get(c.id, ())
            R.check("noticed", bool(u), "%s/%s" % (c.f.name, f.name), "%s: whether %s could open its file is not looked at" % (c.where(), f.name), c)


def failing(f, I, ok, k):
    """what is returned when the file is not opened"""
    r, seen, st = [], set(), [(I.b, None)]
    while st:
        b, u = st.pop()
        if (b, u) in seen:
            continue
        seen.add((b, u))
        t = f.blocks[b][-1]
        if t.op == "ret":
            if t.args:
                o = t.args[0]
                J = f.byid.get(o[1]) if o[0] == "v" else None
                if J is not None and J.op == "phi" and J.b == b:
                    r += [x for x, w in J.d["in"] if w == u]
                else:
                    r.append(o)
            continue
        for v in f.succ[b]:
            if ok(b, v):
                st.append((v, b))
    return r


def told(P, R, f, I, ret, depth):
    """nothing is printed here: the callers must do it"""
    cs = P.calls_to(f.name)
    if not cs:
        return R.undecided("said", "%s: silent, but never called directly" % I.where())
    for c in cs:
        g = c.f
        says = lambda J: J.op == "call" and (J.callee in OUT or J.callee in P.funcs and says_(P, J.callee))
        p = path_avoiding(g, c.b, g.blocks[c.b].index(c), lambda J: J.op == "ret", says, edge_not_opened(P, g, c))
        if p is None:
            R.hold("said", c)
        elif g.name in P.mains or depth == 0:
            R.bad("said", "%s/%s" % (g.name, f.name), "%s: a file that cannot be opened (%s) is passed over in silence" % (c.where(), I.where()), c)
        else:
            told(P, R, g, c, p[0], depth - 1)
