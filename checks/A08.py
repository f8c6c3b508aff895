"""Pruning and the exact methods: what one round of each search does, from any state, and how the results are put together."""
import core, step
from spec import *
from lists import *
from lists import run as run_fn
from step import evs_same, in_order, first_ev, bools, before, depends

TITLE = "pruning and the exact methods keep exactly the vectors that are needed"
PR = "PomdpSolveParamStruct."
PUT = "appendNodeToAlphaList|prependNodeToAlphaList"
PUTS = PUT.split("|")
S_dom = rng(0, S_)
TB = g("gTempBelief")


def some(n):
    """a count is not zero"""
    return [ONE - LT0(n - 1), ONE - eq0(n)]


def run(Pg, R):
    R.rule("corner", "the best vector at every corner and random point is marked, with its witness when asked for", 1)
    R.rule("prune", "a vector is dropped only when it has no region over those kept; a witness point brings in the best vector there", 1)
    R.rule("epsilon", "a vector is dropped only when no old vector is more than the tolerance better than what is left", 1)
    R.rule("choose", "every list is pruned in the way asked for", 1)
    R.rule("start", "the searches start from the vectors at the corners and random points", 1)
    R.rule("witness", "the witness search tries every neighbour and adds the vector at every witness point with its neighbours", 1)
    R.rule("twopass", "the two-pass search tries every neighbour of every vector and adds those that have a region", 1)
    R.rule("incprune", "incremental pruning compares with a sufficient set and crosses in every observation once", 1)
    R.rule("enum", "enumeration purges the cross sums over all actions", 1)

    def G(rule, name, P_=Pg):
        return get(P_, R, rule, name)

    def loop(rule, name, with_, P_=Pg):
        """the innermost loop that calls one of the functions"""
        st, K = step.steps(P_, name)
        c = [s for s in st if any(e.name in with_ for e in s.events)]
        c = [s for s in c if not any(t is not s and set(t.body) < set(s.body) for t in c)]
        if len(c) != 1 or not K.whole:
            R.undecided(rule, "%s: loop not recognised" % name)
            return None
        return c[0]

    def walk(rule, F, s, what, head, exact=False):
        """the loop goes through all of a list: gives the position"""
        v = [i for i in s.vars if depends(s.cont, s.vars[i])]
        if len(v) != 1:
            R.undecided(rule, "%s: %s: position not recognised" % (F.name, what))
            return None
        x = s.vars[v[0]]
        same(R, rule, F, what + " first", before(s.inits[v[0]]), head, "start of the walk")
        n = s.nexts[v[0]]
        if exact and not has_unknown(n) and any(ALIST[i][0] == "out" for a in n.atoms() for i in poly._all_ids(a)):
            R.bad(rule, "%s:%s next" % (F.name, what), "%s:%d (%s): the next element is looked up after the current one was moved" % (F.f.file, F.f.line, F.name))
        else:
            same(R, rule, F, what + " next", before(n), fld(x, LT + "next"), "step of the walk")
        same(R, rule, F, what + " end", s.cont, ONE - eq0(x), "end of the walk")
        return x

    def new_of(F, name):
        e = F.events(name)
        return e[0].res if len(e) == 1 else None

    def count_of(e):
        t = e.guard
        for v, d in reversed(e.vd):
            t = mk_sum(v, d, t)
        return t

    def outside(F, s, *names):
        """events of the function that are not in the loop"""
        inner = {(e.name, e.ins) for e in s.events} if s else set()
        return [e for e in F.events(*names) if (e.name, e.ins) not in inner]

    class Outside:
        def __init__(o, F, s):
            o.events = [e for e in F.K.events if s is None or (e.name, e.ins) not in {(x.name, x.ins) for x in s.events}]

    # ------------------------------------------------ corners and random points
    def marker(name, save, eps):
        F = G("corner", name)
        s = loop("corner", name, ("bestVector",)) if F else None
        if not s:
            return
        L, W, E = F.arg(0), F.arg(save), F.arg(eps)
        b = first_ev(s, "bestVector")
        if b is None or not b.res:
            return R.undecided("corner", "%s: best vector not recognised" % name)
        x = b.res
        m = fld(x, LT + "mark")
        nb = lambda p: bools(p, m, W)
        same(R, "corner", F, "best", b.guard * tok("best", *(a for k, a in enumerate(b.args) if k != 2)), tok("best", L, TB, E), "best vector of the list at the point")
        same(R, "corner", F, "mark", nb(before(s.final(("fd", LT + "mark"), x))), ONE, "the best vector is marked")
        evs_same(R, "corner", F, s, [("addWitnessToAlphaNode", (x, TB), (ONE - m) * W)], "the point is the witness of a vector marked for the first time", norm=nb)
        in_order(R, "corner", F, s, "bestVector", "addWitnessToAlphaNode")
        if name == "markBestAtRandomPoints":
            evs_same(R, "corner", F, s, [("setRandomDistribution", (TB, S_), ONE)], "a new random point each time")
            in_order(R, "corner", F, s, "setRandomDistribution", "bestVector")
            n = F.arg(1)
            same(R, "corner", F, "count", sum((count_of(e) for e in F.events("bestVector")), ZERO), (ONE - LT0(n - 1)) * n, "number of random points")
        else:
            e = [e for e in F.events("bestVector") if len(e.vd) == 1]
            if len(e) == 1 and e[0].vd[0][1] == S_dom:
                i = e[0].vd[0][0]
                same(R, "corner", F, "point", F.snapvec(e[0], 1, S_), VEC(S_, lambda k: eq0(k - i)), "every corner is tried")
            else:
                R.undecided("corner", "%s: corners not recognised" % name)
    marker("markBestAtSimplexVertices", 1, 2)
    marker("markBestAtRandomPoints", 2, 3)

    # ------------------------------------------------ one round of a search over a list of candidates
    def candidates(rule, name, lst, keep, P_=Pg, compare=None, more=()):
        """take the first candidate; a region brings in the best candidate there, none drops it"""
        F = G(rule, name, P_)
        s = loop(rule, name, ("findRegionPoint",), P_) if F else None
        if not s:
            return None
        L, K = lst(F, s), keep(F, s)
        c, r, b = (first_ev(s, n) for n in ("dequeueAlphaNode", "findRegionPoint", "removebestVectorNode"))
        if None in (L, K, c, r, b):
            R.undecided(rule, "%s: round not recognised" % name)
            return None
        prm = F.arg(len(F.f.params) - 1)
        eps = fld(prm, PR + "alpha_epsilon")
        cur, yes, best = c.res, r.res, b.res
        nb = lambda p: bools(p, yes)
        same(R, rule, F, "cont", s.cont * (ONE - s.leave), some(fld(L, LT + "length")) + [ONE - eq0(fld(L, LT + "head")), ONE - eq0(cur)], "the search goes on while candidates are left")
        cmp_ = compare(F, s, cur) if compare else K
        evs_same(R, rule, F, s, [
            ("dequeueAlphaNode", (L,), ONE),
            ("findRegionPoint", (fld(cur, LT + "alpha"), cmp_, TB, ZERO, prm), ONE),
            (PUT, (L, cur), yes),
            ("removebestVectorNode", (L, TB, eps), yes),
            (PUT, (K, best), yes),
            ("destroyAlphaNode", (cur,), ONE - yes)], "one round of the search", norm=nb)
        a1 = [e for e in s.events if e.name in PUTS and tuple(e.args) == (L, cur)]
        a2 = [e for e in s.events if e.name in PUTS and tuple(e.args) == (K, best)]
        chain = [[c], [r], a1, [b], a2]
        for u, w in zip(chain, chain[1:]):
            if u and w:
                in_order(R, rule, F, s, u[0], w[0])
        d = [e for e in s.events if e.name == "destroyAlphaNode"]
        if d:
            in_order(R, rule, F, s, r, d[0])
        return F, s, L, K, cur, yes, best, nb

    def begin(rule, F, s, L, prm, points):
        """marks cleared, corners and random points marked, marked ones taken out: in this order, before the rounds"""
        use, eps = fld(prm, PR + "use_witness_points"), fld(prm, PR + "alpha_epsilon")
        o = Outside(F, s)
        names = ("clearMarkAlphaList", "markBestAtSimplexVertices", "markBestAtRandomPoints", "extractMarkedAlphaList")
        e = [x for n in names for x in o.events if x.name == n]
        gd = e[0].guard if e else ONE
        evs_same(R, rule, F, o, [(names[0], (L,), gd), (names[1], (L, use, eps), gd), (names[2], (L, fld(prm, PR + points), use, eps), gd), (names[3], (L,), gd)], "start from the vectors at corners and random points")
        for a, b in ((0, 1), (0, 2), (1, 3), (2, 3)):
            in_order(R, rule, F, o, names[a], names[b])
        return gd

    def moved(rule, F, L, K):
        """the list kept becomes the result"""
        if any(e.name == "unionTwoAlphaLists" and tuple(e.args) == (L, K) and not e.vd and e.guard == ONE for e in F.K.events):
            return R.hold(rule)
        for f in ("head", "tail", "length"):
            v = F.field(L, LT + f)
            t = v.atom()
            if t and t[0] == "unk" and len(t) == 5:
                R.check(rule, t[3] == ("fd", LT + f) and t[4] == (K,), "%s:result %s" % (F.name, f), "%s:%d (%s): %s of the result is %s of %s" % (F.f.file, F.f.line, F.name, f, t[3][-1], [str(x) for x in t[4]]))
            else:
                same(R, rule, F, "result " + f, v, A("final", f, K), "%s of the result" % f)
        for d in F.events("destroyAlphaList"):
            if d.args != (K,):
                continue
            at = next((k for k, x in enumerate(F.K.log) if x.kind == "havoc" and x.ins is d.ins), len(F.K.log))
            v = [x.val for x in F.K.log[:at] if x.kind == "set" and x.region == ("fd", LT + "head") and x.idx == (K,) and not x.vd and x.guard == ONE]
            if v:
                same(R, rule, F, "handed over", v[-1], ZERO, "head of the header that is released")
            else:
                known = ("destroyAlphaList", "appendNodeToAlphaList", "prependNodeToAlphaList", "enqueueAlphaNode", "extractMarkedAlphaList", "findRegionPoint", "isEmptyRegionSimpleCheck")
                if any(K in x.args and x.name not in known for x in F.K.events) or any(x.kind == "set" and x.region == ("fd", LT + "head") and x.idx == (K,) for x in F.K.log):
                    R.undecided(rule, "%s: release of the header not recognised" % F.name)
                else:
                    R.bad(rule, F.name + ":handed over", "%s: the vectors of the result are released with the header" % (d.ins.where() if d.ins is not None else F.name))

    F = G("prune", "dominationCheck")
    s = loop("prune", "dominationCheck", ("markDominatedAlphaList",)) if F else None
    if s:
        L = F.arg(0)
        x = walk("prune", F, s, "dominated", fld(L, LT + "head"))
        if x is not None:
            m = aid(fld(x, LT + "mark").atom())
            evs_same(R, "prune", F, s, [("markDominatedAlphaList", (fld(x, LT + "alpha"), L), ONE)], "every vector not dominated itself", norm=lambda p: subst(p, {m: ZERO}))

    R_ = candidates("prune", "normalPrune", lambda F, s: F.arg(0), lambda F, s: new_of(F, "extractMarkedAlphaList"))
    if R_:
        F, s, L, K, cur, yes, best, nb = R_
        prm = F.arg(1)
        use = fld(prm, PR + "use_witness_points")
        evs_same(R, "prune", F, s, [("addWitnessToAlphaNode", (best, TB), yes * use)], "the witness is kept when asked for", norm=lambda p: bools(p, yes, use))
        in_order(R, "prune", F, s, "removebestVectorNode", "addWitnessToAlphaNode")
        begin("prune", F, s, L, prm, "prune_init_rand_points")
        moved("prune", F, L, K)
        if len(s.vars) == 1:
            (i, x), = s.vars.items()
            same(R, "prune", F, "count", nb(s.nexts[i]), x + ONE - yes, "number of vectors dropped")
            same(R, "prune", F, "count start", s.inits[i], ZERO, "number of vectors dropped at first")

    # ------------------------------------------------ epsilon pruning
    F = G("epsilon", "isEpsilonApproximation")
    s = loop("epsilon", "isEpsilonApproximation", ("findRegionPoint",)) if F else None
    if s:
        T, O, prm = F.arg(0), F.arg(1), F.arg(3)
        x = walk("epsilon", F, s, "old vectors", fld(O, LT + "head"))
        r = first_ev(s, "findRegionPoint")
        if x is not None and r is not None and len(r.args) == 5:
            yes, dp = r.res, r.args[3]
            absent = r.guard
            there = [eq0(call("findAlphaVector", T, fld(x, LT + "alpha"), e)) for e in consts_of(absent)] + [ONE]
            same(R, "epsilon", F, "skip", absent, there, "old vectors skipped")
            same(R, "epsilon", F, "region", tok("r", *r.args), tok("r", fld(x, LT + "alpha"), T, TB, dp, prm), "region of an old vector over what is left")
            d = A("out", "findRegionPoint", tuple(r.args), ("al", ALIST[aid(dp.atom())][1]), ()) if dp.atom() and dp.atom()[0] == "al" else None
            nb = lambda p: bools(p, yes)
            if d is not None:
                over = ONE - le0(d - fld(prm, PR + "prune_epsilon"), "f")
                same(R, "epsilon", F, "leave", nb(s.leave), absent * yes * over, "answer is no when some old vector is too much better")
                mx = F.K.read if False else s.final(("mem",), F.arg(2), ZERO)
                m0 = el(F.arg(2), ZERO)
                same(R, "epsilon", F, "diff", nb(mx), [absent * yes * MAX_(m0, d) + (ONE - absent * yes) * m0, absent * yes * MAX_(d, m0) + (ONE - absent * yes) * m0], "largest difference found")
                D = LIST(fld(O, LT + "head"))
                v = fresh(D)
                w = lambda p: subst(p, {aid(x.atom()): v})
                ret = rewrite(F.ret, "nb", lambda t: t[0] == "ev" and t[1] == "findRegionPoint", lambda t: A("ev", *t[1:])) if False else F.ret
                q = ret.atom() or (ONE - ret).atom()
                if q and q[0] == "any":
                    same(R, "epsilon", F, "ret", A("neg" if (ONE - ret).atom() else "pos"), A("neg"), "answer")
                elif not has_unknown(ret):
                    R.undecided("epsilon", "isEpsilonApproximation: answer not recognised")
    F = G("epsilon", "epsilonPrune")
    s = loop("epsilon", "epsilonPrune", ("isEpsilonApproximation",)) if F else None
    if s:
        L, prm = F.arg(0), F.arg(1)
        c, r, dup = first_ev(s, "extractUnmarkedVector"), first_ev(s, "isEpsilonApproximation"), new_of(F, "duplicateAlphaList")
        if dup is None:
            dup = new_of(F, "duplicateAlphaListWithWitnesses")
        if None in (c, r, dup):
            R.undecided("epsilon", "epsilonPrune: round not recognised")
        else:
            cur, yes = c.res, r.res
            nb = lambda p: bools(p, yes)
            same(R, "epsilon", F, "cont", s.cont * (ONE - s.leave), some(call("sizeUnmarkedAlphaList", L)) + [ONE - eq0(cur), ONE - eq0(call("findUnmarkedVector", L))], "goes on while a vector has not been tried")
            evs_same(R, "epsilon", F, s, [("extractUnmarkedVector", (L,), ONE), ("isEpsilonApproximation", (L, dup, r.args[2], prm), ONE), (PUT, (L, cur), ONE - yes), ("destroyAlphaNode", (cur,), yes)], "one round", norm=nb)
            for a, b in (("extractUnmarkedVector", "isEpsilonApproximation"), ("isEpsilonApproximation", PUTS[0]), ("isEpsilonApproximation", PUTS[1]), ("isEpsilonApproximation", "destroyAlphaNode")):
                in_order(R, "epsilon", F, s, a, b)
            same(R, "epsilon", F, "tried", (ONE - yes) * nb(s.final(("fd", LT + "mark"), cur)), ONE - yes, "a vector that stays is marked as tried")
            d = A("out", "isEpsilonApproximation", tuple(r.args), ("al", ALIST[aid(r.args[2].atom())][1]), ()) if r.args[2].atom() and r.args[2].atom()[0] == "al" else None
            for i, x in s.vars.items():
                n = nb(s.nexts[i])
                if d is not None and depends(n, d):
                    same(R, "epsilon", F, "diff", n, [(ONE - yes) * x + yes * MAX_(x, d), (ONE - yes) * x + yes * MAX_(d, x)], "largest difference made")
                    same(R, "epsilon", F, "diff start", s.inits[i], ZERO, "difference at first")
                else:
                    same(R, "epsilon", F, "count", n, x + yes, "number of vectors dropped")
            o = Outside(F, s)
            evs_same(R, "epsilon", F, o, [("clearMarkAlphaList", (L,), ONE), ("destroyAlphaList", (dup,), ONE)], "around the rounds")
            e = F.events("duplicateAlphaList", "duplicateAlphaListWithWitnesses")
            same(R, "epsilon", F, "old", tok("old", *e[0].args), tok("old", L), "old vectors are kept for comparison")
            in_order(R, "epsilon", F, o, e[0], "destroyAlphaList")

    # ------------------------------------------------ what is asked for
    opt = {n: enum(Pg, "purge_" + n) for n in ("none", "dom", "prune", "epsilon_prune")}
    F = G("choose", "prune")
    if F:
        L, o, prm = F.arg(0), F.arg(1), F.arg(2)
        for k, fn, not_ in (("prune", "normalPrune", "epsilonPrune"), ("epsilon_prune", "epsilonPrune", "normalPrune")):
            at = lambda p: subst(p, {aid(o.atom()): P(opt[k])})
            same(R, "choose", F, k, at(F.esum(fn)), tok(fn, L, prm), "pruning for %s" % k)
            same(R, "choose", F, k + " only", at(F.esum(not_)), ZERO, "other pruning for %s" % k)
    F = G("choose", "purgeAlphaList")
    if F:
        L, o, prm = F.arg(0), F.arg(1), F.arg(2)
        for k, v in opt.items():
            at = lambda p: subst(p, {aid(o.atom()): P(v)})
            dc = tok("dominationCheck", L)
            same(R, "choose", F, k + " dom", at(F.esum("dominationCheck")), ZERO if k == "none" else dc if k == "dom" else [dc, ZERO], "check for dominated vectors for %s" % k)
            want = tok("prune", L, P(v), prm) if k in ("prune", "epsilon_prune") else ZERO
            same(R, "choose", F, k, at(F.esum("prune")), want, "pruning for %s" % k)
    F = G("choose", "purgeProjections")
    s = loop("choose", "purgeProjections", ("purgeAlphaList",)) if F else None
    if s:
        e = F.events("purgeAlphaList")
        if len(e) == 1 and len(e[0].vd) == 2:
            (a, da), (z, dz) = e[0].vd
            pj = el(el(F.arg(0), a), z)
            same(R, "choose", F, "projections", tok("p", *e[0].args) + domains(da, dz), tok("p", pj, fld(F.arg(1), PR + "proj_purge"), F.arg(1)) + domains(rng(0, A_), rng(0, O_)), "every projection is purged")
        else:
            R.undecided("choose", "purgeProjections: loops not recognised")
        ie = first_ev(s, "purgeAlphaList")
        if ie is not None:
            inner = lambda p: before(rewrite(p, "old", lambda t: t[0] == "old", lambda t: t[1]))
            n = fld(inner(ie.args[0]), LT + "length")
            gd = inner(ie.guard)
            for k, w in ((0, ZERO), (2, ONE), (3, ONE)):
                same(R, "choose", F, "projections %d" % k, before(subst(gd, {aid(n.atom()): P(k)})), w, "projections with %d vectors" % k)

    # ------------------------------------------------ starting the searches
    F = G("start", "initListSimpleQ")
    if F:
        L, pr, prm = F.arg(0), F.arg(1), F.arg(2)
        use, eps = fld(prm, PR + "use_witness_points"), fld(prm, PR + "alpha_epsilon")
        c = F.events("initWithSimplexCornersQ")
        if len(c) == 1:
            same(R, "start", F, "corners", F.esum("initWithSimplexCornersQ"), tok("initWithSimplexCornersQ", L, pr, use, eps), "vectors at the corners")
            many = ONE - LT0(c[0].res - 2) if c[0].res else ONE
            t = tok("initWithRandomBeliefPointsQ", L, fld(prm, PR + "alg_init_rand_points"), pr, use, eps)
            same(R, "start", F, "random", before(F.esum("initWithRandomBeliefPointsQ")), [many * t, t] + [(ONE - LT0(fld(L, LT + "length") - 2)) * t], "vectors at random points")
            same(R, "start", F, "ret", F.ret, F.field(L, LT + "length"), "number of vectors")
            in_order(R, "start", F, F.K, "initWithSimplexCornersQ", "initWithRandomBeliefPointsQ")
        else:
            R.undecided("start", "initListSimpleQ: corners not recognised")
    F = G("start", "initWithRandomBeliefPointsQ")
    s = loop("start", "initWithRandomBeliefPointsQ", ("addVectorAtBeliefQ",)) if F else None
    if s:
        L, n, pr, save, eps = (F.arg(k) for k in range(5))
        evs_same(R, "start", F, s, [("setRandomDistribution", (TB, S_), ONE), ("addVectorAtBeliefQ", (L, TB, pr, save, eps), ONE)], "one random point")
        in_order(R, "start", F, s, "setRandomDistribution", "addVectorAtBeliefQ")
        e = F.events("addVectorAtBeliefQ")
        pos = ONE - LT0(n - 1)
        same(R, "start", F, "count", sum((count_of(x) for x in e), ZERO), pos * n, "number of random points")
        if len(e) == 1 and len(e[0].vd) == 1 and e[0].res:
            v, d = e[0].vd[0]
            same(R, "start", F, "added", pos * F.ret, pos * mk_sum(v, d, ONE - eq0(e[0].res)), "number of vectors added")

    # ------------------------------------------------ witness search
    F = G("witness", "improveWitness")
    s = loop("witness", "improveWitness", ("findRegionPoint",)) if F else None
    if s:
        pr, prm = F.arg(0), F.arg(1)
        eps, dom, use = (fld(prm, PR + f) for f in ("alpha_epsilon", "domination_check", "use_witness_points"))
        c, r, ad = (first_ev(s, n) for n in ("extractUnmarkedVector", "findRegionPoint", "addVectorAtBeliefQ"))
        lst = c.args[0] if c is not None else None
        init = F.events("initListSimpleQ")
        if None in (c, r, ad) or len(init) != 1 or not r.res or not ad.res:
            R.undecided("witness", "improveWitness: round not recognised")
        else:
            new, ag = init[0].args[0], lst
            W = g("gTempWitness")
            cur, yes, nd = c.res, r.res, ad.res
            empty = call("isEmptyRegionSimpleCheck", new, fld(cur, LT + "alpha"), eps, dom)
            nb = lambda p: bools(p, yes, empty)
            go = (ONE - empty) * yes
            have = ONE - eq0(nd)
            same(R, "witness", F, "cont", s.cont * (ONE - s.leave), ONE - eq0(cur), "goes on while an untried neighbour is left")
            evs_same(R, "witness", F, s, [("extractUnmarkedVector", (ag,), ONE), ("findRegionPoint", (fld(cur, LT + "alpha"), new, W, ZERO, prm), ONE - empty),
                                          ("addVectorAtBeliefQ", (new, W, pr, use, eps), go), ("addAllNeighbors", (ag, nd, pr, dom, eps), go * have), (PUT, (ag, cur), ONE)], "one neighbour", norm=nb)
            in_order(R, "witness", F, s, "findRegionPoint", "addVectorAtBeliefQ")
            in_order(R, "witness", F, s, "addVectorAtBeliefQ", "addAllNeighbors")
            m = fld(cur, LT + "mark")
            mk = before(s.final(("fd", LT + "mark"), cur))
            for k, em, ye, w in (("covered", ONE, ZERO, ONE), ("not needed", ZERO, ZERO, ONE), ("found", ZERO, ONE, ONE - have)):
                same(R, "witness", F, "tried " + k, subst(mk, {aid(m.atom()): ZERO, aid(empty.atom()): em, aid(yes.atom()): ye}), w, "a neighbour (%s) is done when it gives no new vector" % k)
            o = Outside(F, s)
            few = LT0(init[0].res - 2) if init[0].res else None
            evs_same(R, "witness", F, o, [("initListSimpleQ", (new, pr, prm), ONE)], "start of the search")
            e = [x for x in o.events if x.name == "addAllNeighborsFromList"]
            if few is not None:
                evs_same(R, "witness", F, o, [("addAllNeighborsFromList", (ag, new, pr, dom, eps), ONE - few), ("destroyAlphaList", (ag,), ONE - few)], "neighbours of the first vectors")
            in_order(R, "witness", F, o, "initListSimpleQ", "addAllNeighborsFromList")
            in_order(R, "witness", F, F.K, "addAllNeighborsFromList", "extractUnmarkedVector")
            same(R, "witness", F, "ret", F.ret, new, "vectors found")
            R.check("witness", new != ag, "improveWitness:agenda", "the agenda is the list of vectors")

    # ------------------------------------------------ two-pass search
    F = G("twopass", "searchRegionTwoPass")
    s = loop("twopass", "searchRegionTwoPass", ("feasibleTwoPassLp",)) if F else None
    if s:
        cv, L, pr, prm = (F.arg(k) for k in range(4))
        eps, dom = (fld(prm, PR + f) for f in ("alpha_epsilon", "domination_check"))
        an, r, du = F.events("addAllNeighbors"), first_ev(s, "feasibleTwoPassLp"), first_ev(s, "duplicateObsSourceArray")
        if len(an) == 1 and r is not None and r.res and du is None:
            p_ = fld(el0(s), LT + "prev_source") if el0(s) is not None else None
            w = [e for e in s.log if e.kind == "set" and e.region == ("fd", LT + "obs_source") and e.val.m]
            if any(e.val == fld(p_, LT + "obs_source") for e in w if p_ is not None):
                R.bad("twopass", "searchRegionTwoPass:shared", "%s: the new vector shares the choices of the vector it is a neighbour of" % w[0].ins.where())
        if len(an) != 1 or r is None or not r.res or du is None:
            R.undecided("twopass", "searchRegionTwoPass: round not recognised")
        else:
            nl = an[0].args[0]
            same(R, "twopass", F, "neighbours", tok_sum(an[0]), tok("addAllNeighbors", nl, cv, pr, dom, eps), "all neighbours of the vector")
            x = walk("twopass", F, s, "neighbours", fld(nl, LT + "head"), exact=True)
            if x is not None:
                empty = call("isEmptyRegionSimpleCheck", L, fld(x, LT + "alpha"), eps, dom)
                yes = r.res
                nb = lambda p: bools(p, yes, empty)
                go = (ONE - empty) * yes
                src = fld(x, LT + "prev_source")
                evs_same(R, "twopass", F, s, [("feasibleTwoPassLp", (x, pr, prm), ONE - empty), ("extractAlphaNode", (nl, x), go), (PUT, (L, x), go),
                                              ("duplicateObsSourceArray", (fld(src, LT + "obs_source"),), go)], "one neighbour", norm=nb)
                for p_ in PUTS:
                    in_order(R, "twopass", F, s, "extractAlphaNode", p_)
                gd = lambda reg, *ix: before(subst(s.final(reg, *ix, guard=go), {aid(empty.atom()): ZERO, aid(yes.atom()): ONE}))
                same(R, "twopass", F, "choices", gd(("fd", LT + "obs_source"), x), du.res, "choices of the new vector")
                same(R, "twopass", F, "action", gd(("fd", LT + "action"), x), fld(src, LT + "action"), "action of the new vector")
                same(R, "twopass", F, "changed", gd(("mem",), du.res, fld(x, LT + "obs")), fld(x, LT + "first_source"), "choice that makes it a neighbour")
                w = [e for e in s.log if e.kind == "set" and e.region == ("mem",) and e.idx[0] == du.res]
                same(R, "twopass", F, "one choice", P(len(w)), ONE, "choices changed")
                evs_same(R, "twopass", F, Outside(F, s), [("destroyAlphaList", (nl,), ONE)], "neighbours not taken are released")
                in_order(R, "twopass", F, F.K, "addAllNeighbors", "feasibleTwoPassLp")
                in_order(R, "twopass", F, F.K, PUTS[0], "destroyAlphaList")
                in_order(R, "twopass", F, F.K, PUTS[1], "destroyAlphaList")
    F = G("twopass", "improveTwoPass")
    s = loop("twopass", "improveTwoPass", ("searchRegionTwoPass",)) if F else None
    if s:
        pr, prm = F.arg(0), F.arg(1)
        init, r = F.events("initListSimpleQ"), first_ev(s, "searchRegionTwoPass")
        if len(init) != 1 or r is None:
            R.undecided("twopass", "improveTwoPass: round not recognised")
        else:
            new = init[0].args[0]
            cur = call("findUnmarkedVector", new)
            same(R, "twopass", F, "cont", s.cont * (ONE - s.leave), ONE - eq0(cur), "goes on while a vector has not been tried")
            evs_same(R, "twopass", F, s, [("searchRegionTwoPass", (cur, new, pr, prm), ONE)], "one vector")
            same(R, "twopass", F, "tried", s.final(("fd", LT + "mark"), cur), ONE, "the vector is marked as tried")
            evs_same(R, "twopass", F, Outside(F, s), [("initListSimpleQ", (new, pr, prm), ONE)], "start of the search")
            in_order(R, "twopass", F, F.K, "initListSimpleQ", "searchRegionTwoPass")
            same(R, "twopass", F, "ret", F.ret, new, "vectors found")

    incprune(Pg, R, G, loop, candidates, begin, Outside)

    # ------------------------------------------------ enumeration
    F = G("enum", "improveEnumeration")
    if F:
        e = F.events("enumerationByV")
        if len(e) == 1:
            x = e[0].res
            evs_same(R, "enum", F, F.K, [("enumerationByV", (F.arg(0),), ONE), ("purgeAlphaList", (x, fld(F.arg(1), PR + "enum_purge_option"), F.arg(1)), ONE)], "enumeration")
            same(R, "enum", F, "ret", F.ret, x, "vectors found")
        else:
            R.undecided("enum", "improveEnumeration: enumeration not recognised")


def domains(*d):
    return sum((A("dom", k, x[1], x[2]) for k, x in enumerate(d) if x[0] == "rng"), ZERO)


def consts_of(p):
    """tolerances used in searches for a vector"""
    out = []
    for a in p.atoms():
        for i in poly._all_ids(a):
            t = ALIST[i]
            if t[0] == "call" and t[1] == "findAlphaVector" and len(t[2]) == 3:
                out.append(t[2][2])
    return out


def incprune(Pg, R, G, loop, candidates, begin, Outside):
    r = "incprune"
    F = G(r, "clearAlphaListCounter")
    if F:
        x = fresh(LIST(fld(F.arg(0), LT + "head")))
        same(R, r, F, "clear", F.field(x, LT + "length"), ZERO, "counters are cleared")

    def adder(name, V, prep):
        """one vector of the old list, from any position"""
        F = G(r, name, V)
        if not F:
            return
        st, K = step.steps(V, name)
        s = [s for s in st if any(e.name in PUTS for e in s.events)]
        if len(s) != 1 or not K.whole or len(s[0].vars) != 1:
            return R.undecided(r, "%s: loop not recognised" % name)
        s = s[0]
        (i, x), = s.vars.items()
        same(R, r, F, "first", before(s.inits[i]), fld(F.arg(1), LT + "head"), "begins with the first vector")
        same(R, r, F, "next", before(s.nexts[i]), fld(x, LT + "next"), "goes on with the next vector")
        same(R, r, F, "end", s.cont * (ONE - s.leave), ONE - eq0(x), "ends after the last vector")

        def one(W):
            n = W.g("gNumStates", W.r.randint(1, 3))
            new, have = new_list(W, n, W.r.randint(0, 2))
            old, nodes = new_list(W, n, W.r.randint(1, 3), first_source=lambda j: W.r.randint(101, 103), second_source=lambda j: W.r.randint(201, 203))
            k = W.r.choice(nodes)
            args, take, want = prep(W, n, k, nodes)
            M = W.model()
            env = {aid(F.arg(q).atom()): v for q, v in enumerate((new, old) + args)}
            env[aid(x.atom())] = k
            mem, unknown = replay(s.log, M, env)
            rd = Read(W, M, mem)
            put = calls(s.events, M, env, tuple(PUTS))
            if [a[0] for c, a in put] != ([new] if take else []):
                raise Differs("%s vectors added, expected %d" % (len(put), take))
            if take:
                y = put[0][1][1]
                p = rd(LT + "alpha", y)
                got = [rd(("mem",), p, q) for q in range(n)]
                if p == W(("fd", LT + "alpha"), (k,)) or got != want:
                    raise Differs("vector %s, expected %s" % (got, want))
        trial(R, r, F, "vector", "vector added", one)
    V = core.view("newAlpha", "copyAlpha", "duplicateAlpha", "newAlphaNode", "appendAlphaList", "prependAlphaList")

    def p_sum(W, n, k, nodes):
        add = new_node(W, n)
        skip = W.r.choice(nodes + [0, 900])
        return (add, skip), int(k != skip), [a + b for a, b in zip(vals(W, k), vals(W, add))]

    def p_ext(W, n, k, nodes):
        f, s = ((W.r.randint(101, 103), 0), (0, W.r.randint(201, 203)), (W.r.randint(101, 103), W.r.randint(201, 203)))[W.r.randint(0, 2)]
        take = f and W(("fd", LT + "first_source"), (k,)) == f or s and W(("fd", LT + "second_source"), (k,)) == s
        return (f, s), int(bool(take)), vals(W, k)
    adder("addSimpleSumIp", V, p_sum)
    adder("addExtractedNodesIp", V, p_ext)

    F = G(r, "initializeCountersIp")
    if F:
        st, K = step.steps(Pg, "initializeCountersIp")
        if len(st) == 1 and len(st[0].vars) == 1 and K.whole:
            s = st[0]
            (i, x), = s.vars.items()
            same(R, r, F, "first", s.inits[i], fld(F.arg(0), LT + "head"), "begins with the first vector")
            same(R, r, F, "next", s.nexts[i], fld(x, LT + "next"), "goes on with the next vector")
            same(R, r, F, "end", s.cont * (ONE - s.leave), ONE - eq0(x), "ends after the last vector")

            def one(W):
                old, nodes = new_list(W, 1, 2)
                k = W.r.choice(nodes)
                f, q = new_node(W, 1), new_node(W, 1)
                src = {}
                for fn, y in (("first_source", f), ("second_source", q)):
                    src[fn] = W.put(LT + fn, k, W.r.choice((0, y, y)))
                    W.put(LT + "length", y, W.r.randint(0, 5))
                M = W.model()
                mem, unknown = replay(s.log, M, {aid(F.arg(0).atom()): old, aid(x.atom()): k})
                rd = Read(W, M, mem)
                for y in src.values():
                    if y and rd(LT + "length", y) != W(("fd", LT + "length"), (y,)) + 1:
                        raise Differs("a source is not counted once")
            trial(R, r, F, "count", "sources counted", one)
        else:
            R.undecided(r, "initializeCountersIp: loop not recognised")

    F = G(r, "getGenIpCompareList")
    if F:
        kinds = {n: enum(Pg, n) for n in ("NormalIp", "RestrictedRegionIp", "GeneralizedIp")}

        def one(W):
            a, b, cur = (new_list(W, 1, W.r.randint(1, 4))[0] for _ in range(3))
            f, q = new_node(W, 1), new_node(W, 1)
            W.put(LT + "length", f, W.r.randint(0, 3))
            W.put(LT + "length", q, W.r.randint(0, 3))
            x = new_node(W, 1, first_source=f, second_source=q)
            kind = W.r.choice(sorted(kinds))
            if len({a, b, cur}) != 3:
                raise Skip
            rd, M, env, unk_ = run_fn(F, W, x, a, b, cur, kinds[kind])
            ret = M.ev(F.ret, env)
            put = sorted((c,) + tuple(v[1:]) for c, v in calls(F.K.events, M, env, ("addSimpleSumIp", "addExtractedNodesIp")))
            into = {v[0] for c, v in calls(F.K.events, M, env, ("addSimpleSumIp", "addExtractedNodesIp"))}
            sa, sb = ("addSimpleSumIp", a, q, f), ("addSimpleSumIp", b, f, q)
            ea, eb = ("addExtractedNodesIp", cur, f, 0), ("addExtractedNodesIp", cur, 0, q)
            fine = [[sa, sb], [sa, ea], [sb, eb]]
            if ret == cur:
                if put:
                    raise Differs("vectors are added though the current list is used")
                if rd(LT + "mark", ret) != 0:
                    raise Differs("the current list would be destroyed")
            else:
                if kind == "NormalIp":
                    raise Differs("normal incremental pruning does not compare with the current list")
                if put not in [sorted(y) for y in fine] or into != {ret}:
                    raise Differs("compares with %s" % put)
                if rd(LT + "mark", ret) == 0:
                    raise Differs("a list made for the comparison is not released")
        trial(R, r, F, "compare", "set compared with", one, 120)

    # ---- one cross sum
    R_ = candidates(r, "generalizedIpCrossSum", lambda F, s: one_res(F, "crossSum"), lambda F, s: one_res(F, "extractMarkedAlphaList"),
                    compare=lambda F, s, cur: (first_ev(s, "getGenIpCompareList") or first_ev(s, "findRegionPoint")).res)
    if R_:
        F, s, L, K, cur, yes, best, nb = R_
        a, b, prm = F.arg(0), F.arg(1), F.arg(2)
        cl = first_ev(s, "getGenIpCompareList")
        if cl is not None and cl.res:
            evs_same(R, r, F, s, [("getGenIpCompareList", (cur, a, b, K, fld(prm, PR + "ip_type")), ONE)], "set compared with")
            mk = fld(cl.res, LT + "mark")
            fin = lambda p: bools(before(p), mk, yes)
            evs_same(R, r, F, s, [("destroyAlphaList", (cl.res,), mk)], "the set compared with is released when it was made for this", norm=fin)
            in_order(R, r, F, s, "findRegionPoint", "destroyAlphaList")
            in_order(R, r, F, s, "getGenIpCompareList", "findRegionPoint")
        for f in ("first_source", "second_source"):
            x = fld(best, LT + f)
            n0 = fld(x, LT + "length")
            v = before(nb(s.final(("fd", LT + "length"), x)))
            other = fld(best, LT + ("second_source" if f == "first_source" else "first_source"))
            v = subst(v, {i: ZERO for q in v.atoms() for i in poly._all_ids(q) if ALIST[i][0] == "eq0" and depends(ALIST[i][1], x) and depends(ALIST[i][1], other)})
            same(R, r, F, "count " + f, v, n0 + yes, "uses of a source are counted")
        o = Outside(F, s)
        normal = eq0(fld(prm, PR + "ip_type") - enum(Pg, "NormalIp"))
        dom = fld(prm, PR + "domination_check")
        nd = lambda p: bools(before(p), dom)
        evs_same(R, r, F, o, [("crossSum", (a, b, ONE), ONE), ("dominationCheck", (L,), dom), ("prune", (L, P(enum(Pg, "purge_prune")), prm), normal), ("destroyAlphaList", (L,), ONE - normal),
                              ("initializeCountersIp", (K,), ONE - normal)], "around the rounds", norm=nd)
        cc = ZERO
        for e in o.events:
            if e.name == "clearAlphaListCounter":
                cc = cc + tok_sum(e)
        both = tok("clearAlphaListCounter", a) + tok("clearAlphaListCounter", b)
        same(R, r, F, "clear", (ONE - normal) * cc, (ONE - normal) * both, "uses are counted from nothing")
        in_order(R, r, F, o, "clearAlphaListCounter", "initializeCountersIp")
        in_order(R, r, F, o, "extractMarkedAlphaList", "initializeCountersIp")
        in_order(R, r, F, o, "crossSum", "dominationCheck")
        in_order(R, r, F, o, "dominationCheck", "clearMarkAlphaList")
        begin(r, F, s, L, prm, "alg_init_rand_points")
        same(R, r, F, "ret", before(F.ret), normal * L + (ONE - normal) * K, "vectors found")
        same(R, r, F, "action", (ONE - normal) * F.field(K, LT + "action"), (ONE - normal) * before(fld(a, LT + "action")), "action of the list")

    # ---- over the observations
    F = G(r, "improveIncPrune")
    s = loop(r, "improveIncPrune", ("generalizedIpCrossSum",)) if F else None
    if s:
        pr, prm = F.arg(0), F.arg(1)
        cnt = [i for i in s.vars if depends(s.cont, s.vars[i])]
        rest = [i for i in s.vars if i not in cnt]
        ev = [e for e in s.events if e.name == "generalizedIpCrossSum"]
        if len(cnt) == 1 and len(rest) == 1 and ev:
            z, l = s.vars[cnt[0]], s.vars[rest[0]]
            c0, st = s.inits[cnt[0]].const(), (s.nexts[cnt[0]] - z).const()
            if c0 is None or st is None or st < 1 or len([e for e in F.events("generalizedIpCrossSum")]) != len(ev):
                return R.undecided(r, "improveIncPrune: counter not recognised")
            at = lambda p, k: subst(p, {aid(z.atom()): P(k) + P(c0) - 1})
            one = lambda p: subst(p, {aid(z.atom()): P(c0), aid(l.atom()): s.inits[rest[0]]})
            same(R, r, F, "each", P(st), ONE, "goes on with the next observation")
            same(R, r, F, "end", subst(s.cont * (ONE - s.leave), {aid(z.atom()): z + P(c0) - 1}), LT0(z - O_), "ends with the last observation")
            tot = sum((tok_sum(e) for e in ev), ZERO)
            same(R, r, F, "second operand", one(tot), tok(ev[0].name, el(pr, ZERO), el(pr, ONE), prm), "first cross sum")
            for k in (2, 3):
                same(R, r, F, "operands %d" % k, at(tot, k), tok(ev[0].name, l, el(pr, P(k)), prm), "further cross sums")
                same(R, r, F, "kept %d" % k, A("is", at(s.nexts[rest[0]], k)), [A("is", e.res) for e in ev if at(e.guard, k) == ONE] or [A("is", ev[0].res)], "what was built so far")
                same(R, r, F, "released %d" % k, at(sum((tok_sum(e) for e in s.events if e.name == "destroyAlphaList"), ZERO), k), tok("destroyAlphaList", l), "the former list is released")
            same(R, r, F, "kept 1", A("is", one(s.nexts[rest[0]])), [A("is", e.res) for e in ev if one(e.guard) == ONE] or [A("is", ev[0].res)], "what was built so far")
            same(R, r, F, "released 1", one(sum((tok_sum(e) for e in s.events if e.name == "destroyAlphaList"), ZERO)), ZERO, "projections are not released")
            for e in s.events:
                if e.name == "destroyAlphaList":
                    in_order(R, r, F, s, "generalizedIpCrossSum", e)
        else:
            R.undecided(r, "improveIncPrune: loop not recognised")


def one_res(F, name):
    e = F.events(name)
    return e[0].res if len(e) == 1 else None


def el0(s):
    """the position of a walk"""
    v = [i for i in s.vars if depends(s.cont, s.vars[i])]
    return s.vars[v[0]] if len(v) == 1 else None
