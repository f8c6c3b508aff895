"""Comparisons of vectors, best vector at a belief, domination."""
from spec import *

TITLE = "best vector, equality and domination"
fa = LT + "alpha"


def dot(b, v):
    return SUM(S_, lambda i: el(b, i) * el(fld(v, fa), i))


def differ(x, y, eps):
    """components differ by at least eps (either way)"""
    d = x - y
    p, q = le0(eps - d, "f"), le0(eps + d, "f")
    return p + q - p * q


def run(Pg, R):
    R.rule("value", "the value of a belief is the largest product of the belief with a vector of the list", 1)
    R.rule("witness", "the vector returned for a belief is one that attains that value; of vectors that tie the lexicographically greater one", 1)
    R.rule("equal", "two vectors (or beliefs) are the same exactly when all components differ by less than the tolerance", 1)
    R.rule("order", "the lexicographic order is decided by the first component that differs", 1)
    R.rule("dominated", "a vector is dominated exactly when another is better in every state", 1)
    R.rule("search", "searching a list finds a vector exactly when the list holds an equal one", 1)
    R.rule("prune", "domination pruning marks dominated vectors starting from unmarked ones only, and removes exactly the marked ones", 1)
    r = "value"
    F = get(Pg, R, r, "bestVectorValuePrimed")
    if F:
        lst, b, out, init, eps = (F.arg(k) for k in range(5))
        D = LIST(fld(lst, LT + "head"))
        worse = lambda v, st: lt0(dot(b, v) - st - eps, "f")
        val = lambda dom: FOLD(dom, init, lambda v, st: dot(b, v) + worse(v, st) * (st - dot(b, v)))
        same(R, r, F, "value", F.ret, val(D), "largest value")

        def step(v, st):
            cur = val(PRE(D, v))
            tie = (ONE - differ(dot(b, v), cur, eps)) * (ONE - eq0(st)) * (ONE - eq0(call("isLexicographicallyBetterAlpha", fld(v, fa), fld(st, fa), eps)))
            w = lt0(dot(b, v) - cur - eps, "f")
            return tie * v + (ONE - tie) * (w * st + (ONE - w) * v)
        same(R, "witness", F, "pointer", F.at(out, ZERO), FOLD(D, ZERO, step), "vector that attains it")
    F = get(Pg, R, r, "bestVectorValue")
    if F:
        ev = F.esum("bestVectorValuePrimed")
        same(R, r, F, "start", ev, tok("bestVectorValuePrimed", F.arg(0), F.arg(1), F.arg(2), -A("HUGE"), F.arg(3)), "search starts below every value")
    F = get(Pg, R, "witness", "bestVector")
    if F:
        ev = F.events("bestVectorValue", "bestVectorValuePrimed")
        if len(ev) == 1:
            same(R, "witness", F, "args", A("pair", ev[0].args[0], ev[0].args[1]), A("pair", F.arg(0), F.arg(1)), "list and belief searched")
            same(R, "witness", F, "value", F.at(F.arg(2), ZERO), ev[0].res, "reported value")
    # --- equality
    r = "equal"
    for n in ("sameAlpha", "sameBelief"):
        F = get(Pg, R, r, n)
        if F:
            a, b, eps = (F.arg(k) for k in range(3))
            both = (ONE - eq0(a)) * (ONE - eq0(b))
            same(R, r, F, "equal", under(F.ret, both), ALL(S_, lambda i: ONE - differ(el(a, i), el(b, i), eps)), "equality of vectors")
            same(R, r, F, "null", under(F.ret, eq0(a)), eq0(b), "a missing vector equals only a missing one")
    F = get(Pg, R, r, "isZeroAlpha")
    if F:
        a, eps = F.arg(0), F.arg(1)
        same(R, r, F, "zero", under(F.ret, ONE - eq0(a)), ALL(S_, lambda i: ONE - differ(el(a, i), ZERO, eps)), "vector of zeroes")
    F = get(Pg, R, r, "similarAlphaList")
    if F:
        a, b, eps = (F.arg(k) for k in range(3))
        miss = lambda x, y: SOME(LIST(fld(x, LT + "head")), lambda v: eq0(call("findAlphaVector", y, fld(v, fa), eps)))
        same(R, r, F, "similar", F.ret, eq0(fld(a, LT + "length") - fld(b, LT + "length")) * (ONE - miss(a, b)) * (ONE - miss(b, a)), "lists of the same vectors")
    F = get(Pg, R, "order", "isLexicographicallyBetterAlpha")
    if F:
        a, b, eps = (F.arg(k) for k in range(3))
        v = fresh(rng(0, S_))
        df = differ(el(a, v), el(b, v), eps)
        better = le0(eps - (el(a, v) - el(b, v)), "f")
        want = mk_fi(v, rng(0, S_), df, better)
        got = F.ret
        same(R, "order", F, "first", got, want, "first component that differs decides")
    # --- domination
    r = "dominated"
    F = get(Pg, R, r, "isDominatedVector")
    if F:
        a, b = F.arg(0), F.arg(1)
        same(R, r, F, "pair", F.ret, ALL(S_, lambda i: ONE - le0(el(a, i) - el(b, i), "f")), "first vector better in every state")
    F = get(Pg, R, r, "dominatedAlphaList")
    if F:
        a, lst = F.arg(0), F.arg(1)
        same(R, r, F, "list", F.ret, SOME(LIST(fld(lst, LT + "head")), lambda v: ONE - eq0(call("isDominatedVector", fld(v, fa), a))), "some vector of the list is better everywhere")
    F = get(Pg, R, r, "markDominatedAlphaList")
    if F:
        a, lst = F.arg(0), F.arg(1)
        D = LIST(fld(lst, LT + "head"))
        v = fresh(D)
        old = fld(v, LT + "mark")
        dm = ONE - eq0(call("isDominatedVector", a, fld(v, fa)))
        same(R, r, F, "mark", F.field(v, LT + "mark"), [dm * (ONE - eq0(old - 1)) + (ONE - dm * (ONE - eq0(old - 1))) * old, dm + (ONE - dm) * old], "marks set")
    # --- search
    r = "search"
    F = get(Pg, R, r, "findAlphaVector")
    if F:
        lst, a, eps = (F.arg(k) for k in range(3))
        D = LIST(fld(lst, LT + "head"))

        def hit(fn):
            v = fresh(D)
            return mk_fi(v, D, fn(v), v)
        same(R, r, F, "find", F.ret, [hit(lambda v: eq0(call("sameAlpha", fld(v, fa), a, eps) - 1)), hit(lambda v: ONE - eq0(call("sameAlpha", fld(v, fa), a, eps))),
                                      hit(lambda v: eq0(call("sameAlpha", a, fld(v, fa), eps) - 1)), hit(lambda v: ONE - eq0(call("sameAlpha", a, fld(v, fa), eps)))], "vector found")
    F = get(Pg, R, r, "isEmptyRegionSimpleCheck")
    if F:
        lst, a, eps, dom = (F.arg(k) for k in range(4))
        both = (ONE - eq0(lst)) * (ONE - eq0(a))
        absent = eq0(call("findAlphaVector", lst, a, eps))
        nd = eq0(call("dominatedAlphaList", a, lst))
        same(R, r, F, "region", under(F.ret, both), ONE - absent * (ONE - (ONE - eq0(dom)) * (ONE - nd)), "quick answer that a region is empty")
    for n, want in (("findUnmarkedVector", None), ("sizeUnmarkedAlphaList", None)):
        F = get(Pg, R, r, n)
        if F:
            D = LIST(fld(F.arg(0), LT + "head"))
            v = fresh(D)
            un = eq0(fld(v, LT + "mark"))
            same(R, r, F, n, F.ret, mk_fi(v, D, un, v) if n == "findUnmarkedVector" else mk_sum(v, D, un), "unmarked vectors")
    # --- pruning by domination
    r = "prune"
    F = get(Pg, R, r, "dominationCheck")
    if F:
        lst = F.arg(0)
        many = ONE - LT0(fld(lst, LT + "length") - 2)
        evs = F.events("markDominatedAlphaList")
        same(R, r, F, "clear", F.esum("clearMarkAlphaList"), [many * tok("clearMarkAlphaList", lst), tok("clearMarkAlphaList", lst)], "marks are cleared first")
        for e in evs:
            v = e.vd[0][0] if len(e.vd) == 1 else None
            if v is None or e.vd[0][1] != LIST(fld(lst, LT + "head")):
                R.undecided(r, "dominationCheck: not over the list in order")
                continue
            same(R, r, F, "each", A("pair", e.args[0], e.args[1]), A("pair", fld(v, fa), lst), "each vector is tried against the list", e.ins)
            # a vector is only used when it is not marked itself (equal vectors would remove each other)
            marks = [a for a in e.guard.atoms() if ALIST[a][0] == "eq0" and ("mark" in show(ALIST[a][1]) or has_unknown(ALIST[a][1]) or any(ALIST[i][0] == "out" and i for i in poly._all_ids(a)))]
            R.check(r, bool(marks), "dominationCheck:unmarked", "%s: vectors already marked as dominated are used to mark others" % e.ins.where(), e.ins)
        same(R, r, F, "remove", F.esum("removeMarkedAlphaList"), [many * tok("removeMarkedAlphaList", lst), tok("removeMarkedAlphaList", lst)], "marked vectors are removed")
