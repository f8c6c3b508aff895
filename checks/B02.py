from strbound import *
TITLE = "Scanned input is used only after the conversion is known to have succeeded"
SCAN = ("scanf", "fscanf", "sscanf", "__isoc99_scanf", "__isoc99_fscanf", "__isoc99_sscanf")


def base(t):
    while t[0] in ("ix", "fd"):
        t = t[1]
    return t


def run(P, R):
    R.rule("result", "from a scanf-family call no path on which its result may be below the number of conversions reaches a use of the scanned storage or the same call again", 6)
    R.rule("strto", "after strtol/strtod the end pointer is compared with the start (or the text was validated) before the value is used", 0)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f or "/lp-solve/" in f.file or "/laspack/" in f.file:
            continue
        for I in f.calls(*SCAN):
            one(P, R, f, I)
        for I in f.calls("strtol", "strtod", "strtoul", "strtoll"):
            strto(P, R, f, I)


def one(P, R, f, I):
    T = P.T[f.name]
    k = 0 if I.callee.endswith("scanf") and not I.callee.endswith(("fscanf", "sscanf")) else 1
    fmt = P.term(I, I.args[k])
    if fmt[0] != "str":
        R.undecided("result", "%s: computed format" % I.where())
        return
    conv = [p for p in fmt_parts(fmt[1]) if p[0] != "lit" and p[2] != "*" and p[5] not in ("n", "%")]
    n = len(conv)
    if n == 0:
        return
    me = T.val(I.id)
    targets = [P.term(I, a) for a in I.args[k + 1:]]
    bases = {base(t) for t in targets}

    def ok_edge(b, x):
        """keep the edge unless it implies that all conversions succeeded"""
        br = f.blocks[b][-1]
        fs = []
        if br.op == "br" and len(br.d["s"]) == 2 and br.d["s"][0] != br.d["s"][1]:
            fs = facts_of(f, T, br.args[0], br.d["s"][0] == x)
        elif br.op == "switch":
            return not good_switch(br, x)
        return not any(implies(p, a, b_) for p, a, b_ in fs)

    def good_switch(br, x):
        if T.ref(br.args[0]) != me:
            return False
        vs = [c[0] for c in br.d.get("cases", []) if c[1] == x]
        return bool(vs) and all(v >= n for v in vs) and br.d["s"][0] != x

    def implies(p, a, b):
        for q, l, r in ((p, a, b), (SWAP.get(p), b, a)):
            if l == me and r[0] == "i":
                v = r[1]
                if q == "eq" and v >= n or q in ("sge", "uge") and v >= n or q in ("sgt",) and v >= n - 1:
                    return True
        return False

    def goal(J):
        if J is I:
            return True
        if J.op == "load":
            a = P.term(J, J.args[0])
            return base(a) in bases and a[0] != "g" or a in targets
        if J.op == "call" and J.callee not in ("free",) and not (J.callee or "").startswith("llvm."):
            return any(base(P.term(J, x)) in bases and P.term(J, x)[0] not in ("i", "f", "ld", "str", "g") for x in J.args)
        return False

    def avoid(J):
        return J.op == "store" and base(P.term(J, J.args[1])) in bases and J.ty != "ptr"

    r = path_avoiding(f, I.b, I.pos, goal, avoid, ok_edge)
    if r:
        J, tr = r
        R.bad("result", "%s/%s" % (f.name, fmt[1]), "%s: %s(%r) is followed on a path where fewer than %d conversions succeeded by %s" % (
            I.where(), I.callee, fmt[1], n, "the same call again" if J is I else "a use of the scanned storage at %s" % J.where()), I)
    else:
        R.hold("result", I)


def strto(P, R, f, I):
    """the end pointer must be looked at: some load of it reaches a comparison that dominates the uses of the value"""
    T = P.T[f.name]
    end = P.term(I, I.args[1])
    me = T.val(I.id)
    if end == ("null",):
        R.undecided("strto", "%s: no end pointer" % I.where())
        return
    start = P.term(I, I.args[0])
    # where an earlier reading began: that the end is past it says nothing about this one
    begun = {P.term(J, J.args[0]) for J in f.calls("strtol", "strtod", "strtoul", "strtoll")} - {start, ("ld", end)}

    def ok_edge(b, x):
        br = f.blocks[b][-1]
        if br.op == "br" and len(br.d["s"]) == 2 and br.d["s"][0] != br.d["s"][1]:
            for p, a, b_ in facts_of(f, T, br.args[0], br.d["s"][0] == x):
                if p in ("ne", "ugt", "ult") and ("ld", end) in (a, b_) and not begun & {a, b_}:
                    return False
        return True

    def uses(J):
        if J is I:
            return False
        if J.op == "call" and not (J.callee or "").startswith("llvm.") and J.callee not in ("printf", "fprintf"):
            return any(T.ref(a) == me for a in J.args)
        if J.op == "getelementptr":
            return any(T.ref(a) == me for a in J.args[1:])
        if J.op == "ret":
            return bool(J.args) and T.ref(J.args[0]) == me
        if J.op == "store":
            return T.ref(J.args[0]) == me
        return False
    r = path_avoiding(f, I.b, I.pos, uses, lambda J: False, ok_edge)
    if r:
        R.bad("strto", f.name, "%s: the value of %s is used at %s on a path where nothing may have been converted" % (I.where(), I.callee, r[0].where()), I)
    else:
        R.hold("strto", I)
