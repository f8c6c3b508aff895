from owner import *
TITLE = "Released memory is never used or released again"


def run(P, R):
    R.rule("heap", "after a block is released no path uses the same pointer (or the same location, unless it was given a new value) before it is replaced", 150)
    O = Owner(P, "heap")
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f:
            continue
        U, n = O.uaf(f)
        R.hold("heap", f, n - len(U))
        for a, b in U:
            R.bad("heap", "%s/%s->%s" % (fn, a.callee, b.callee or b.op), "%s: the block released by %s is used again at %s" % (a.where(), a.callee, b.where()), a)
