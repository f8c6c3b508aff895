from owner import *
TITLE = "Memory obtained for working data is released on every path"

# slots whose blocks are released by walking the structure they belong to, or that live as long as the program
EXEMPT = {
    "yylval": "handed to the parser through the value stack, which releases it",
    "gCurImmRewardNode": "linked into the reward list, released by walking the list",
    "LpStruct.lp": "released through its address (pointer to the field)",
    "yy_buffer_stack": "scanner buffers, released through the current-buffer pointer",
    "gCurAlphaVector": "elements are nodes of the list gCurAlphaHeader, released with it",
}


def exempt(P, k):
    n = k[-1] if isinstance(k[-1], str) else k[1][1]
    if n in EXEMPT:
        return EXEMPT[n]
    if "." in n and n.split(".")[1] in ("next", "nextError", "prev", "head", "tail"):
        return "link of a list, released by walking the list"
    return None


def run(P, R):
    O = Owner(P, "heap")
    R.rule("path", "a block obtained from an allocating function and not stored, returned or handed over is released on every path to the function's end and before the variable is reused", 60)
    R.rule("field", "a structure field or global that is given a freshly allocated block is released somewhere by the code that disposes of it", 60)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f:
            continue
        L, n = O.leaks(f)
        bad = {a.id for a, b in L}
        for I in f.calls():
            if I.callee and O.fresh(I.callee) and I.id not in bad:
                R.hold("path", I)
        for a, b in L:
            nm = f.names.get(a.id, [None])[0]
            R.bad("path", "%s/%s" % (fn, a.callee + (":" + nm if nm else "")), "%s: block from %s is not released on a path reaching %s" % (a.where(), a.callee, b.where()), a)
    owned, rel = slots(P, O)
    for k in sorted(owned, key=repr):
        why = exempt(P, k)
        I = owned[k][0]
        if I.f.file.endswith("vertex-enum.c"):
            why = "vertex enumeration stops the program when built without CPLEX, so its clean-up cannot be reached"
        n = k[-1] if isinstance(k[-1], str) else "elements of " + k[1][1]
        if why:
            R.hold("field", I)
            R.notes.append("%s: %s" % (n, why))
        elif k in rel:
            R.hold("field", I)
        else:
            R.bad("field", n, "%s: %s receives an allocated block that no reachable code releases" % (I.where(), n), I)


def slots(P, O):
    owned, rel = {}, {}
    for k, L in P.stores_to.items():
        for f, I, o in L:
            if f.name not in P.reachable:
                continue
            r = O.exact(f, o)
            if r is None or isinstance(r, tuple):
                continue
            J = f.byid[r]
            if J.op == "call" and J.callee and O.fresh(J.callee):
                owned.setdefault(k, []).append(I)
    for fn in P.reachable:
        f = P.funcs.get(fn)
        if not f:
            continue
        for I in f.calls():
            for k, a in enumerate(I.args):
                if O.disp_call(I, k) in ("free", "mayfree"):
                    for ff, t, _ in P.origins(f, P.term(I, a), I, depth=3, stop=lambda a_, t_, i_: t_[0] == "ld"):
                        if t[0] == "ld":
                            s = slot_of(t[1])
                            if s:
                                rel.setdefault(s, []).append(I)
    return owned, rel
