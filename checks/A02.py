"""Building vectors of the next stage: cross sums, neighbours, best vector at a point, and where each came from."""
from spec import *

TITLE = "construction of next-stage vectors from projections"


def _res(F, p):
    t = p.atom()
    return A("cross", t[3][0].const()) if t and t[0] == "new" and t[1] == "crossSum" and t[3] else p


def run(Pg, R):
    R.rule("crosssum", "the cross sum holds, for every pair of vectors of its two arguments, their componentwise sum with the action of the first and links to both", 1)
    R.rule("sources", "recording the two parents of a vector keeps the per-observation choices of both: those they carry themselves, or each parent under its own observation", 1)
    R.rule("point", "the best vector for a belief and action is the sum over observations of the best projected vector at that belief, each recorded as the choice for its observation", 1)
    R.rule("neighbour", "a neighbour replaces the choice of exactly one observation by every other vector projected for that observation", 1)
    R.rule("enumerate", "complete enumeration crosses the projections of all observations for each action and unites the results over all actions", 1)
    R.rule("relink", "links to projected vectors are replaced by links to the vectors they were projected from", 1)
    R.rule("node", "a new vector node holds the given contents and action and no links; a copied node has equal contents and labels of its own", 1)
    fa = LT + "alpha"
    r = "node"
    F = get(Pg, R, r, "newAlphaNode")
    if F:
        same(R, r, F, "alpha", F.field(F.ret, fa), F.arg(0), "contents")
        same(R, r, F, "action", F.field(F.ret, LT + "action"), F.arg(1), "action")
        for x in ("next", "obs_source", "prev_source", "first_source", "second_source", "witness", "mark"):
            same(R, r, F, x, F.field(F.ret, LT + x), ZERO, "initial " + x)
    F = get(Pg, R, r, "duplicateAlpha")
    if F:
        nn = ONE - eq0(F.arg(0))
        rt = under(F.ret, nn)
        same(R, r, F, "copy", F.vec(rt, S_, nn), VEC(S_, lambda i: el(F.arg(0), i)), "copied components")
    F = get(Pg, R, r, "duplicateAlphaNode")
    if F:
        n = F.arg(0)
        m = F.made_args(F.ret)
        al = F.maker(m[0]) if m else None
        if al:
            same(R, r, F, "alpha", A("dup", tuple(al[0].args)), A("dup", (fld(n, fa),)), "contents are a copy of the original's")
            same(R, r, F, "action", m[1], fld(n, LT + "action"), "action")
        for x in ("obs", "prev_source", "first_source", "second_source"):
            same(R, r, F, x, F.field(F.ret, LT + x), fld(n, LT + x), x)
        has = ONE - eq0(fld(n, LT + "obs_source"))
        os_ = F.field(F.ret, LT + "obs_source", has)
        same(R, r, F, "obs_source", F.vec(under(os_, has), O_, has), VEC(O_, lambda z: el(fld(n, LT + "obs_source"), z)), "choices per observation")

    # --- parents of a vector
    r = "sources"
    F = get(Pg, R, r, "setAlphaListSources")
    if F:
        n, a, b = F.arg(0), F.arg(1), F.arg(2)
        same(R, r, F, "first", F.field(n, LT + "first_source"), a, "first parent")
        same(R, r, F, "second", F.field(n, LT + "second_source"), b, "second parent")
        os_ = lambda p: fld(p, LT + "obs_source")
        has = ONE - eq0(os_(n))
        own = lambda p: eq0(os_(p))

        def val(z):
            x = el(os_(n), z)
            for p in (a, b):
                one = eq0(z - fld(p, LT + "obs"))
                c = el(os_(p), z)
                x = own(p) * (one * p + (ONE - one) * x) + (ONE - own(p)) * ((ONE - eq0(c)) * c + eq0(c) * x)
            return under(x, has)
        same(R, r, F, "obs_source", F.vec(os_(n), O_, has), VEC(O_, val), "choices per observation")

    r = "crosssum"
    F = get(Pg, R, r, "crossSum")
    if F:
        la, lb, save = F.arg(0), F.arg(1), F.arg(2)
        hd = lambda p: LIST(fld(p, LT + "head"))
        act = fld(la, LT + "action")
        nd = lambda e, k, x: F.node(x, "action", "obs_source", guard=e.guard) if k == (1 if e.name != "setAlphaListSources" else 0) else x

        def clean(p):
            # whether room for the choices is there matters, not which block it is
            return rewrite(p, "has_os", lambda t: t[0] == "has" and t[1] == "obs_source", lambda t: A("has", "obs_source", ONE - eq0(t[2])))

        def node(x, y, c):
            return NODE(VEC(S_, lambda i: el(fld(x, fa), i) + el(fld(y, fa), i)), action=act, obs_source=c)

        def pairs(fn):
            return SUM(hd(la), lambda x: SUM(hd(lb), lambda y: eq0(save) * fn(x, y, ZERO) + (ONE - eq0(save)) * fn(x, y, ONE)))
        same(R, r, F, "append", clean(F.esum("appendNodeToAlphaList", "prependNodeToAlphaList", argmap=nd)),
             pairs(lambda x, y, c: tok("appendNodeToAlphaList", F.ret, node(x, y, c))), "vectors of the cross sum")
        same(R, r, F, "sources", clean(F.esum("setAlphaListSources", argmap=nd)),
             pairs(lambda x, y, c: tok("setAlphaListSources", node(x, y, c), x, y)), "recorded parents")
        same(R, r, F, "action", F.field(F.ret, LT + "action"), act, "action of the list")

    # --- best at a point
    r = "point"
    F = get(Pg, R, r, "bestAlphaForBeliefQ")
    if F:
        n, b, pr, eps = (F.arg(k) for k in range(4))
        evs = F.events("bestVector")
        got = F.esum("bestVector", skip=(2,))
        want = SUM(O_, lambda z: (ONE - eq0(el(pr, z))) * tok("bestVector", el(pr, z), b, eps))
        if same(R, r, F, "query", got, want, "projections searched at the belief") and len(evs) == 1 and len(evs[0].vd) == 1:
            e = evs[0]
            zz = vid(e.vd[0][0])
            best = lambda z: subst(e.res, {zz: z})
            has = lambda z: ONE - eq0(el(pr, z))
            same(R, r, F, "alpha", F.vec(fld(n, fa), S_), VEC(S_, lambda i: SUM(O_, lambda z: has(z) * el(fld(best(z), fa), i))), "sum of the best projected vectors")
            same(R, r, F, "choices", F.vec(fld(n, LT + "obs_source"), O_), VEC(O_, lambda z: has(z) * best(z)), "recorded choices")
        else:
            R.undecided(r, "bestAlphaForBeliefQ: more than one search per observation")
    F = get(Pg, R, r, "setBestAlphasForBeliefV")
    if F:
        b, pr, eps = (F.arg(k) for k in range(3))
        got = F.esum("bestAlphaForBeliefQ")
        # the && of the results only stops after a failure, which does not occur
        want = SUM(A_, lambda a: tok("bestAlphaForBeliefQ", el(g("gCurAlphaVector"), a), b, el(pr, a), eps))
        K0 = [e for e in F.events("bestAlphaForBeliefQ")]
        if len(K0) == 1 and K0[0].vd:
            e = K0[0]
            t = tok("bestAlphaForBeliefQ", *e.args)
            for v, d in reversed(e.vd):
                t = mk_sum(v, d, t)
            got = t
        same(R, r, F, "all", got, want, "every action's work vector is computed from that action's projections")
    F = get(Pg, R, r, "setBestAlphaForBeliefQ")
    if F:
        same(R, r, F, "call", F.esum("bestAlphaForBeliefQ"), tok("bestAlphaForBeliefQ", el(g("gCurAlphaVector"), ZERO), F.arg(0), F.arg(1), F.arg(2)), "first work vector")
    F = get(Pg, R, r, "addVectorAtBeliefQ")
    if F:
        lst, b, pr, save, eps = (F.arg(k) for k in range(5))
        cur = el(g("gCurAlphaVector"), ZERO)
        same(R, r, F, "compute", F.esum("setBestAlphaForBeliefQ", "bestAlphaForBeliefQ"), [tok("setBestAlphaForBeliefQ", b, pr, eps), tok("bestAlphaForBeliefQ", cur, b, pr, eps)], "vector computed at the belief")
        ev = F.events("appendDuplicateNodeToAlphaList")
        if len(ev) == 1:
            same(R, r, F, "append", A("pair", *ev[0].args), A("pair", lst, cur), "what is added")
            same(R, r, F, "action", F.field(ev[0].res, LT + "action", ev[0].guard), fld(el(pr, ZERO), LT + "action"), "action of the added vector", ev[0].ins)
    F = get(Pg, R, r, "initWithSimplexCornersQ")
    if F:
        lst, pr, save, eps = (F.arg(k) for k in range(4))
        am = lambda e, k, x: F.snapvec(e, 1, S_) if k == 1 else x
        same(R, r, F, "corners", F.esum("addVectorAtBeliefQ", argmap=am),
             SUM(S_, lambda s: tok("addVectorAtBeliefQ", lst, VEC(S_, lambda i: eq0(i - s)), pr, save, eps)), "beliefs of the corners")
    F = get(Pg, R, r, "ZLZ_backup")
    if F:
        b, a, pr = (F.arg(k) for k in range(3))
        evs = F.events("bestVector")
        got = F.esum("bestVector", skip=(2, 3))
        want = SUM(O_, lambda z: tok("bestVector", el(el(pr, a), z), b))
        if same(R, r, F, "query", got, want, "projections searched at the belief") and len(evs) == 1 and len(evs[0].vd) == 1:
            e = evs[0]
            zz = vid(e.vd[0][0])
            best = lambda z: subst(e.res, {zz: z})
            same(R, r, F, "alpha", F.vec(F.ret, S_), VEC(S_, lambda i: SUM(O_, lambda z: (ONE - eq0(best(z))) * el(fld(best(z), fa), i))), "sum of the best projected vectors")

    # --- neighbours
    r = "neighbour"
    F = get(Pg, R, r, "addAllNeighbors")
    if F:
        lst, n, pr, dom, eps = (F.arg(k) for k in range(5))
        am = lambda e, k, x: F.vec(x, S_, e.guard) if k == 1 else x
        src = lambda z: el(fld(n, LT + "obs_source"), z)
        want = SUM(O_, lambda z: SUM(LIST(fld(el(pr, z), LT + "head")), lambda p: (ONE - eq0(src(z) - p)) * tok(
            "addNeighbor", lst, VEC(S_, lambda i: el(fld(n, fa), i) - el(fld(src(z), fa), i) + el(fld(p, fa), i)), n, z, p, dom, eps)))
        same(R, r, F, "neighbours", F.esum("addNeighbor", argmap=am), want, "neighbours offered to the list")
    F = get(Pg, R, r, "addAllNeighborsFromList")
    if F:
        d, lst, pr, dom, eps = (F.arg(k) for k in range(5))
        same(R, r, F, "list", F.esum("addAllNeighbors"), SUM(LIST(fld(lst, LT + "head")), lambda n: tok("addAllNeighbors", d, n, pr, dom, eps)), "neighbours of every vector")
    F = get(Pg, R, r, "addNeighbor")
    if F:
        lst, v, src, z, pz, dom, eps = (F.arg(k) for k in range(7))
        new = eq0(call("findAlphaVector", lst, v, eps))
        ok = new * (ONE - (ONE - eq0(dom)) * (ONE - eq0(call("dominatedAlphaList", v, lst))))
        am = lambda e, k, x: A("node_of", F.made_args(x)) + sum((A("has", f, F.field(x, LT + f, e.guard)) for f in ("prev_source", "obs", "first_source")), ZERO) if k == 1 and F.maker(x) else x
        got = F.esum("prependNodeToAlphaList", "appendNodeToAlphaList", argmap=am)
        got = rewrite(got, "no1", lambda t: t[0] == "node_of", lambda t: A("node_of", t[1][0]))
        nd = A("node_of", v) + A("has", "prev_source", src) + A("has", "obs", z) + A("has", "first_source", pz)
        same(R, r, F, "add", got, [ok * tok(x, lst, nd) for x in ("prependNodeToAlphaList", "appendNodeToAlphaList")], "vector added when it is new and not dominated, with its source, observation and replacement")
        same(R, r, F, "ret", F.ret, ok, "result tells whether the vector was taken")

    r = "enumerate"
    F = get(Pg, R, r, "enumerationByV")
    if F:
        same(R, r, F, "actions", F.esum("enumerationByQ"), SUM(A_, lambda a: tok("enumerationByQ", el(F.arg(0), a))), "enumeration for every action")

        def am(e, k, x):
            m = F.made_args(x)
            return A("enum", m) if m and k == 1 else x
        same(R, r, F, "union", F.esum("unionTwoAlphaLists", argmap=am), SUM(A_, lambda a: tok("unionTwoAlphaLists", F.ret, A("enum", (el(F.arg(0), a),)))), "union over all actions")
    F = get(Pg, R, r, "enumerationByQ")
    if F:
        pr = F.arg(0)
        many = ONE - eq0(O_ - 1)
        same(R, r, F, "operands", F.esum("crossSum", skip=(0, 2)), many * SUM(rng(1, O_), lambda z: tok("crossSum", el(pr, z))), "every further observation is crossed in once")
        left = lambda k: [(subst(e.guard, {vid(e.vd[0][0]): P(k)}), subst(e.args[0], {vid(e.vd[0][0]): P(k)}), e) for e in F.events("crossSum") if len(e.vd) == 1]
        one = sum((c * x for c, x, e in left(1)), ZERO)
        same(R, r, F, "first", under(one, many), el(pr, ZERO), "the first observation starts the cross sum")
        prev = ZERO
        for c, x, e in left(2):
            if (c * many).m:
                prev = prev + c * F.cases(x, lambda p, gd: _res(F, p), c)
        same(R, r, F, "next", under(prev, many), A("cross", 1), "further observations are crossed into what was built so far")
        same(R, r, F, "save", A("all", *sorted({e.args[2] for e in F.events("crossSum")}, key=str)), A("all", ONE), "choices per observation are recorded")
    F = get(Pg, R, "relink", "relinkObsSources")
    if F:
        n = fresh(LIST(fld(F.arg(0), LT + "head")))
        c = lambda z: el(fld(n, LT + "obs_source"), z)
        nonempty = ONE - LT0(fld(F.arg(0), LT + "length") - 1)
        i = fresh(rng(0, O_))
        got = F.at(fld(n, LT + "obs_source"), i, nonempty)
        same(R, "relink", F, "relink", got, [under((ONE - eq0(c(i))) * fld(c(i), LT + "prev_source") + eq0(c(i)) * c(i), nonempty), (ONE - eq0(c(i))) * fld(c(i), LT + "prev_source")], "links after the operation")
