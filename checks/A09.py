"""Stopping: the errors measured between epochs, the tests on them, and the variations that change precision or speed up."""
from fractions import Fraction
import core, step
from spec import *
from step import evs_same, in_order, first_ev, bools, before, loop_with

TITLE = "each epoch's error is the one defined, and iteration stops on it as asked"
PR = "PomdpSolveParamStruct."
OP = "PomdpSolveProgOptionsStruct."
LT = "AlphaListType."
HUGE = A("HUGE")
TB = g("gTempBelief")


def res_of(F, name, *args):
    """result of a call"""
    e = F.events(name)
    if len(e) == 1 and e[0].res:
        return e[0].res
    return call(name, *args)


def run(Pg, R):
    R.rule("bellman", "the largest gain of a vector of one set over the other, in both directions unless values can only grow", 1)
    R.rule("grid", "the largest change of the value at the points of the grid", 1)
    R.rule("weak", "the largest distance of a new vector to the nearest old one, by the largest component", 1)
    R.rule("criteria", "the error measured is that of the method or criterion chosen, compared with the tolerance the discount calls for", 1)
    R.rule("precision", "the tolerance adapted is the one in use, and becomes finer only after the sizes have settled", 1)
    R.rule("speedup", "updates at witness points replace a vector only by one at least as good there, and drop only what is not needed", 1)
    lst = lambda x: LIST(fld(x, LT + "head"))

    # ------------------------------------------------ Bellman error
    F = get(Pg, R, "bellman", "bellmanError")
    if F:
        prev, cur, prm = F.arg(0), F.arg(1), F.arg(2)
        tabs = {}
        for e in F.events("findRegionPoint"):
            if len(e.vd) != 1 or not e.res or len(e.args) != 5:
                continue
            v, d = e.vd[0]
            for key, a, b in (("new", cur, prev), ("old", prev, cur)):
                if d == lst(a) and e.args[0] == fld(v, LT + "alpha") and e.args[1] == b and e.args[4] == prm:
                    t = e.args[3].atom()
                    o = A("out", "findRegionPoint", tuple(e.args), ("al", t[1]), ()) if t and t[0] == "al" else None
                    # out atoms leave the result argument as it is
                    if o is not None:
                        tabs[key] = (lambda v=v, o=o, r=e.res: lambda w: subst((ONE - eq0(r)) * o, {aid(v.atom()): P(w)}))()
        if len(F.events("findRegionPoint")) and set(tabs) == {"new", "old"}:
            m1 = FOLD(lst(cur), -HUGE, lambda v, st: MAX_(tabs["new"](v), st))
            m2 = FOLD(lst(prev), m1, lambda v, st: MAX_(tabs["old"](v), st))
            neg = lt0(g("gMinimumImmediateReward"), "f") * eq0(g("gRequireNonNegativeRewards"))
            grow = (ONE - neg) * eq0(fld(prm, PR + "initial_policy"))
            same(R, "bellman", F, "ret", F.ret, [grow * m1 + (ONE - grow) * m2, m2], "Bellman error")
        else:
            for e in F.events("findRegionPoint"):
                if len(e.vd) == 1 and len(e.args) == 5:
                    v, d = e.vd[0]
                    ok = any(d == lst(a) and e.args[0] == fld(v, LT + "alpha") and e.args[1] == b for a, b in ((cur, prev), (prev, cur)))
                    cross = any(d == lst(a) and e.args[0] == fld(v, LT + "alpha") and e.args[1] == b for a in (cur, prev) for b in (cur, prev))
                    if cross:
                        R.check("bellman", ok, "bellmanError:compared", "%s: a set is compared with itself" % e.ins.where(), e.ins)
            R.undecided("bellman", "bellmanError: comparisons not recognised")

    # ------------------------------------------------ change on the grid
    F = get(Pg, R, "grid", "FG_computeError")
    if F:
        prev, cur, prm = F.arg(0), F.arg(1), F.arg(2)
        D = LIST(g("gFiniteGrid"), "BeliefListStruct.next")
        ev = {}
        for e in F.events("bestVectorValue"):
            if len(e.vd) == 1 and e.res and e.vd[0][1] == D and e.args[1] == fld(e.vd[0][0], "BeliefListStruct.b") and e.args[3] == fld(prm, PR + "alpha_epsilon"):
                ev[e.args[0]] = (e.vd[0][0], e.res)
        if prev in ev and cur in ev:
            at = lambda k, w: subst(ev[k][1], {aid(ev[k][0].atom()): P(w)})
            same(R, "grid", F, "ret", F.ret, FOLD(D, -HUGE, lambda v, st: MAX_(poly.fabs(at(prev, v) - at(cur, v)), st)), "largest change on the grid")
        elif len(ev) == 1 and len(F.events("bestVectorValue")) == 2:
            R.bad("grid", "FG_computeError:sets", "%s:%d (FG_computeError): the value is not taken from both sets" % (F.f.file, F.f.line))
        else:
            R.undecided("grid", "FG_computeError: values not recognised")

    # ------------------------------------------------ weak bound
    F = get(Pg, R, "weak", "weakBound")
    if F:
        cur, prev, dl = F.arg(0), F.arg(1), F.arg(2)
        dist = lambda x, y: FOLD(rng(0, S_), -HUGE, lambda i, st: MAX_(poly.fabs(el(fld(x, LT + "alpha"), i) - el(fld(y, LT + "alpha"), i)), st))
        near = lambda x: FOLD(lst(prev), HUGE, lambda y, st: MIN_(dist(x, y), st))
        far = FOLD(lst(cur), -HUGE, lambda x, st: MAX_(near(x), st))
        big = lt0(dl - far, "f")
        got = F.ret
        if has_unknown(got):
            R.undecided("weak", "weakBound: not resolved")
        else:
            same(R, "weak", F, "ret", got, [(ONE - big) * far + big * HUGE, far], "weak bound")

    # ------------------------------------------------ the criteria
    F = get(Pg, R, "criteria", "meetStopCriteria")
    if F:
        prev, cur, err, prm = (F.arg(k) for k in range(4))
        op_ = fld(prm, PR + "opts")
        meth, crit = fld(op_, OP + "method"), fld(op_, OP + "stop_criteria")
        E = lambda n: P(enum(Pg, "POMDP_SOLVE_OPTS_" + n))
        grid, other = E("Method_grid"), E("Method_enum")
        sd, gd = fld(prm, PR + "stop_delta"), g("gDiscount")
        thr = sd * (ONE - gd) * inv(2 * gd)
        same_ = res_of(F, "sameAlphaList", prev, cur, fld(prm, PR + "alpha_epsilon"))
        same2 = call("sameAlphaList", cur, prev, fld(prm, PR + "alpha_epsilon"))
        meets = lambda x: le0(x - thr, "f")
        fg = res_of(F, "FG_computeError", prev, cur, prm)
        wk = res_of(F, "weakBound", cur, prev, sd)
        be = res_of(F, "bellmanError", prev, cur, prm)
        cases = [("grid", grid, c, fg, meets(fg)) for c in ("exact", "weak", "bellman")] + [
            ("exact", other, "exact", None, None), ("weak", other, "weak", wk, meets(wk)), ("bellman", other, "bellman", be, meets(be))]
        for what, m, c, x, stop in cases:
            mp = {aid(meth.atom()): m, aid(crit.atom()): E("Stop_Criteria_" + c)}
            ret, er = subst(F.ret, mp), subst(F.at(err, ZERO), mp)
            if what == "exact":
                for s_ in (same_, same2):
                    if aid(s_.atom()) in {i for a in ret.atoms() for i in poly._all_ids(a)}:
                        break
                no = eq0(s_)
                same(R, "criteria", F, "exact", truth(ret), ONE - no, "stops when the sets are the same")
                same(R, "criteria", F, "exact error", (ONE - no) * er, ZERO, "error of equal sets")
                same(R, "criteria", F, "exact no error", no * er, no * HUGE, "error of different sets")
                st = [e for e in F.events("sortAlphaList")]
                same(R, "criteria", F, "sorted", subst(F.esum("sortAlphaList"), mp), [tok("sortAlphaList", cur), tok("sortAlphaList", cur) + tok("sortAlphaList", prev)], "the new set is put in order first")
                for e in F.events("sameAlphaList"):
                    in_order(R, "criteria", F, F.K, "sortAlphaList", e)
            else:
                same(R, "criteria", F, "%s with %s error" % (what, c), er, x, "error for %s" % what)
                same(R, "criteria", F, "%s with %s" % (what, c), ret, stop, "stops for %s" % what)
        for n, want in (("FG_computeError", (prev, cur, prm)), ("weakBound", (cur, prev, sd)), ("bellmanError", (prev, cur, prm))):
            for e in F.events(n):
                same(R, "criteria", F, n, tok(n, *e.args), [tok(n, *want)] + ([tok(n, cur, prev, prm)] if n == "FG_computeError" else []), "sets compared", e.ins)

    # ------------------------------------------------ precision
    ep = P(enum(Pg, "purge_epsilon_prune"))
    F = get(Pg, R, "precision", "getSolvePrecision")
    if F:
        prm = F.arg(0)
        q = eq0(fld(prm, PR + "q_purge_option") - ep)
        same(R, "precision", F, "ret", F.ret, q * fld(prm, PR + "prune_epsilon") + (ONE - q) * fld(prm, PR + "epsilon"), "tolerance in use")
    F = get(Pg, R, "precision", "setSolvePrecision")
    if F:
        x, prm = F.arg(0), F.arg(1)
        q = eq0(fld(prm, PR + "q_purge_option") - ep)
        lp = MIN_(fld(prm, PR + "lp_epsilon"), x)
        for f, v in (("prune_epsilon", None), ("epsilon", x), ("lp_epsilon", lp), ("vertex_epsilon", x), ("double_equality_precision", x)):
            old = fld(prm, PR + f)
            same(R, "precision", F, f, F.field(prm, PR + f), q * (x if v is None else old) + (ONE - q) * (old if v is None else v), "%s after a change of tolerance" % f)
        io = fld(prm, PR + "impossible_obs_epsilon")
        d = Fraction(1e-9)
        same(R, "precision", F, "impossible", F.field(prm, PR + "impossible_obs_epsilon"), q * io + (ONE - q) * MIN_(x, P(d)), "limit for impossible observations")
        e = F.events("LP_setPrecision")
        t = sum((tok_cases("set", a.args, a.guard) for a in e), ZERO)
        same(R, "precision", F, "lp", t, (ONE - q) * tok_cases("set", (lp,), ONE), "tolerance of the linear programs")
    F = get(Pg, R, "precision", "doAdjustableEpsilonVariation")
    if F:
        prm = F.arg(0)
        st = fld(prm, PR + "stat")
        now = res_of(F, "getSolvePrecision", prm)
        n, w = fld(prm, PR + "cur_epoch"), fld(prm, PR + "epoch_history_window_length")
        D = rng(n - w + 1, n + 1)
        info = lambda k: call("getEpochStats", st, k)
        size = lambda k: fld(info(k), "EpochStatStruct.solution_size")
        k = fresh(D)
        hi = close("max", [(k, D)], (size(k), ZERO))
        lo = close("min", [(k, D)], (size(k), P(99999999)))
        have = ONE - eq0(st)
        e = F.events("setSolvePrecision")
        if len(e) == 1:
            same(R, "precision", F, "finer", tok("v", e[0].args[0]), tok("v", now * inv(fld(prm, PR + "epsilon_adjust_factor"))), "finer tolerance", e[0].ins)
            miss = SOME(D, lambda k: eq0(info(k)))
            go = have * lt0(fld(prm, PR + "ending_epsilon") - now, "f") * (ONE - lt0(n - w, "i")) * (ONE - miss) * (ONE - lt0(fld(prm, PR + "epoch_history_window_delta") - hi + lo, "i"))
            # the sizes matter only when all epochs are known
            gg = subst(e[0].guard, {aid(miss.atom()): ZERO}) if miss.atom() else e[0].guard
            ww = subst(go, {aid(miss.atom()): ZERO}) if miss.atom() else go
            same(R, "precision", F, "when", known_epochs(gg), known_epochs(ww), "when the tolerance becomes finer", e[0].ins)
        elif e or any(x.kind == "set" and x.region[0] == "fd" and x.region[1].endswith("epsilon") for x in F.K.log) or \
                not unreached(R, "precision", F, "setSolvePrecision", what="the tolerance never becomes finer"):
            R.undecided("precision", "doAdjustableEpsilonVariation: change of tolerance not recognised")
        same(R, "precision", F, "record", F.esum("recordEpochMaxEpsilon"), have * tok("recordEpochMaxEpsilon", n, now, st), "tolerance recorded for the epoch")
        in_order(R, "precision", F, F.K, "recordEpochMaxEpsilon", "setSolvePrecision")
    F = get(Pg, R, "precision", "startViEpoch")
    if F:
        prm = F.arg(0)
        n, v = fld(prm, PR + "cur_epoch"), fld(prm, PR + "vi_variation")
        same(R, "precision", F, "epoch", F.field(prm, PR + "cur_epoch"), n + 1, "number of the epoch")
        for k in ("NormalVi", "ZlzSpeedup", "AdjustableEpsilonVi", "FixedSolnSizeVi"):
            at = lambda p: subst(p, {aid(v.atom()): P(enum(Pg, k))})
            want = eq0(n) * tok("setSolvePrecision", fld(prm, PR + "starting_epsilon"), prm) if k[0] in "AF" else ZERO
            same(R, "precision", F, "start " + k, at(F.esum("setSolvePrecision")), want, "tolerance of the first epoch for %s" % k)
    F = get(Pg, R, "precision", "endViEpoch")
    if F:
        prm = F.arg(0)
        v = fld(prm, PR + "vi_variation")
        for k in ("NormalVi", "ZlzSpeedup", "AdjustableEpsilonVi"):
            at = lambda p: subst(p, {aid(v.atom()): P(enum(Pg, k))})
            want = tok("doAdjustableEpsilonVariation", prm) if k[0] == "A" else ZERO
            same(R, "precision", F, "end " + k, at(F.esum("doAdjustableEpsilonVariation")), want, "change of tolerance after an epoch for %s" % k)

    speedup(Pg, R)


def known_epochs(p):
    """the first missing epoch is past the end when none is missing"""
    return rewrite(p, "nofirst", lambda t: t[0] == "fi", lambda t: ZERO)


def speedup(Pg, R):
    r = "speedup"
    F = get(Pg, R, r, "ZLZ_backup")
    if F:
        b, a, pr = F.arg(0), F.arg(1), F.arg(2)
        e = F.events("bestVector")
        if len(e) == 1 and e[0].res and len(e[0].vd) == 1 and e[0].vd[0][1] == rng(0, O_):
            z, x = e[0].vd[0][0], e[0].res
            same(R, r, F, "best", tok("best", *[y for k, y in enumerate(e[0].args) if k < 2]), tok("best", el(el(pr, a), z), b), "best projected vector at the point", e[0].ins)
            at = lambda k: subst(x, {aid(z.atom()): P(k)})
            want = VEC(S_, lambda i: SUM(rng(0, O_), lambda k: (ONE - eq0(at(k))) * el(fld(at(k), LT + "alpha"), i)))
            same(R, r, F, "vector", F.vec(F.ret, S_), want, "sum of the best projected vectors")
        else:
            R.undecided(r, "ZLZ_backup: best vectors not recognised")
    F = get(Pg, R, r, "ZLZ_stop")
    if F:
        nx, pv, dl = F.arg(0), F.arg(1), F.arg(2)
        ev = {}
        D = LIST(fld(nx, LT + "head"))
        for e in F.events("bestVectorValue"):
            if len(e.vd) == 1 and e.res and e.vd[0][1] == D and e.args[1] == fld(e.vd[0][0], LT + "witness"):
                ev[e.args[0]] = (e.vd[0][0], e.res)
        if nx in ev and pv in ev:
            at = lambda k, w: subst(ev[k][1], {aid(ev[k][0].atom()): P(w)})
            gain = FOLD(D, -HUGE, lambda v, st: MAX_(at(nx, v) - at(pv, v), st))
            e1 = P(Fraction(1, 1000))
            same(R, r, F, "ret", F.ret, le0(gain - MIN_(e1, e1 * dl), "f"), "stops when no witness point gains more than the tolerance")
        else:
            R.undecided(r, "ZLZ_stop: values not recognised")
    F = get(Pg, R, r, "ZLZ_dominationCheckSpecial")
    if F:
        u, n = F.arg(0), F.arg(1)
        same(R, r, F, "clear", F.esum("clearMarkAlphaList"), tok("clearMarkAlphaList", u), "marks are cleared first")
        same(R, r, F, "mark", F.esum("markDominatedAlphaList"), SUM(LIST(fld(n, LT + "head")), lambda v: tok("markDominatedAlphaList", fld(v, LT + "alpha"), u)), "vectors dominated by new ones")
        same(R, r, F, "remove", F.esum("removeMarkedAlphaList"), tok("removeMarkedAlphaList", u), "they are removed")
        in_order(R, r, F, F.K, "clearMarkAlphaList", "markDominatedAlphaList")
        in_order(R, r, F, F.K, "markDominatedAlphaList", "removeMarkedAlphaList")
    F = get(Pg, R, r, "ZLZ_pruneSpecial")
    s = loop_with(Pg, R, r, "ZLZ_pruneSpecial", ("findRegionPoint",)) if F else None
    if s:
        L, prm = F.arg(0), F.arg(1)
        c, f = first_ev(s, "extractUnmarkedVector"), first_ev(s, "findRegionPoint")
        if c is None or f is None or not c.res or not f.res:
            R.undecided(r, "ZLZ_pruneSpecial: round not recognised")
        else:
            x, yes = c.res, f.res
            nb = lambda p: bools(p, yes)
            n = call("sizeUnmarkedAlphaList", L)
            same(R, r, F, "cont", s.cont * (ONE - s.leave), [ONE - LT0(n - 1), ONE - eq0(n), ONE - eq0(x), ONE - eq0(call("findUnmarkedVector", L))], "goes on while a vector has not been tried")
            evs_same(R, r, F, s, [("extractUnmarkedVector", (L,), ONE), ("findRegionPoint", (fld(x, LT + "alpha"), L, TB, ZERO, prm), ONE), ("destroyAlphaNode", (x,), ONE - yes),
                                  ("appendNodeToAlphaList|prependNodeToAlphaList", (L, x), yes), ("addWitnessToAlphaNode", (x, TB), yes)], "one vector", norm=nb)
            in_order(R, r, F, s, "extractUnmarkedVector", "findRegionPoint")
            in_order(R, r, F, s, "findRegionPoint", "appendNodeToAlphaList")
            same(R, r, F, "mark", subst(before(s.final(("fd", LT + "mark"), x)), {aid(yes.atom()): ONE}), ONE, "a vector that stays is marked as tried")
    F = get(Pg, R, r, "ZLZ_ViSpeedup")
    if F:
        u, dl, prm = F.arg(0), F.arg(1), F.arg(2)
        gd = g("gDiscount")
        go = ONE - le0(dl - fld(prm, PR + "stop_delta") * (ONE - gd) * inv(2 * gd), "f")
        t = tok("ZLZ_improve", u, dl, prm)
        same(R, r, F, "improve", F.esum("ZLZ_improve", skip=(2,)), [go * t, t], "the set is improved when iteration goes on")
    F = get(Pg, R, r, "ZLZ_improve")
    if F:
        U, dl, prm = F.arg(0), F.arg(1), F.arg(3)
        st, K = step.steps(Pg, "ZLZ_improve")
        rounds = [s for s in st if any(e.name == "makeAllProjections" for e in s.events)]
        inner = [s for s in st if any(e.name == "ZLZ_backup" for e in s.events) and not any(e.name == "makeAllProjections" for e in s.events)]
        if K.whole and len(rounds) == 1 and len(inner) == 1:
            s, t = rounds[0], inner[0]
            mk, bk, stp = first_ev(s, "makeAllProjections"), first_ev(t, "ZLZ_backup"), [e for e in s.events if e.name == "ZLZ_stop"]
            ap = first_ev(t, "appendNodeToAlphaList") or first_ev(t, "prependNodeToAlphaList") or first_ev(t, "appendAlphaList")
            nd = first_ev(t, "newAlphaNode")
            if mk is None or bk is None or ap is None or nd is None:
                return R.undecided(r, "ZLZ_improve: round not recognised")
            old, new = mk.args[0], ap.args[0]
            R.check(r, old != new, "ZLZ_improve:lists", "%s: the new vectors are put into the list being gone through" % ap.ins.where(), ap.ins)
            v = [i for i in s.vars if s.vars[i] == old]
            if len(v) == 1:
                same(R, r, F, "next", s.nexts[v[0]], new, "the next round starts from the new vectors")
                e = F.events("duplicateAlphaListWithWitnesses")
                if len(e) == 1 and e[0].args == (U,):
                    same(R, r, F, "start", s.inits[v[0]], e[0].res, "starts from a copy of the set")
            p = [i for i in t.vars if step.depends(t.cont, t.vars[i])]
            if len(p) == 1:
                x = t.vars[p[0]]
                same(R, r, F, "first", before(t.inits[p[0]]), fld(old, LT + "head"), "every vector of the round")
                same(R, r, F, "each", before(t.nexts[p[0]]), fld(x, LT + "next"), "every vector of the round")
                same(R, r, F, "last", t.cont, ONE - eq0(x), "every vector of the round")
                W, al, ac = (fld(x, LT + f) for f in ("witness", "alpha", "action"))
                evs_same(R, r, F, t, [("ZLZ_backup", (W, ac, mk.res), ONE), ("newAlphaNode", (bk.res, ac), ONE), (ap.name, (new, nd.res), ONE), ("addWitnessToAlphaNode", (nd.res, W), ONE)], "one witness point")
                i = fresh(rng(0, S_))
                val = lambda z: SUM(rng(0, S_), lambda k: el(z, k) * el(W, k))
                worse = lt0(val(bk.res) - val(al), "f")
                got = t.final(("mem",), bk.res, i)
                # equal values: either vector will do
                same(R, r, F, "better", got, [worse * el(al, i) + (ONE - worse) * el(bk.res, i), le0(val(bk.res) - val(al), "f") * el(al, i) + (ONE - le0(val(bk.res) - val(al), "f")) * el(bk.res, i)], "the vector kept is the better one at the point")
            same(R, r, F, "updates", s.final(("fd", PR + "update_count"), prm), fld(prm, PR + "update_count") + 1, "number of updates")
            o = step.Outside(F, s)
            for n, a in (("ZLZ_dominationCheckSpecial", 0), ("unionTwoAlphaLists", 0), ("ZLZ_pruneSpecial", 0)):
                e = [x for x in o.events if x.name == n]
                same(R, r, F, n, sum((tok_cases(n, x.args[:1], x.guard) for x in e), ZERO), tok_cases(n, (U,), ONE), "after the rounds")
            for a, b in (("markAllAlphaList", "unionTwoAlphaLists"), ("unionTwoAlphaLists", "ZLZ_pruneSpecial"), ("ZLZ_dominationCheckSpecial", "unionTwoAlphaLists"), ("unionTwoAlphaLists", "ZLZ_improve")):
                in_order(R, r, F, o, a, b)
            mk, un = ([x for x in o.events if x.name == n] for n in ("markAllAlphaList", "unionTwoAlphaLists"))
            if len(un) == 1 and len(un[0].args) == 2 and un[0].args[0] == U:
                nw = lambda p: call("newAlphaList") if p == un[0].args[1] else p
                same(R, r, F, "kept", sum((tok_cases("kept", (nw(x.args[0]),), x.guard) for x in mk), ZERO), tok_cases("kept", (call("newAlphaList"),), ONE), "new vectors are marked as needed")
            on = subst(s.cont, {aid(s.vars[i].atom()): s.nexts[i] for i in s.vars}) * (ONE - s.leave)
            x = stp[0].res if len(stp) == 1 and stp[0].res else call("ZLZ_stop", new, old, dl)
            if len(stp) == 1 and stp[0].res:
                same(R, r, F, "stop", tok("stop", *stp[0].args[:3]), tok("stop", new, old, dl), "compares the new vectors with the old ones")
            same(R, r, F, "cont", on, [eq0(x), truth(eq0(x))], "goes on until the gain is small")
            again = [x for x in o.events if x.name == "ZLZ_improve"]
            pr = [x for x in o.events if x.name == "ZLZ_pruneSpecial"]
            if len(again) == 1 and len(pr) == 1 and pr[0].res:
                same(R, r, F, "again", tok("again", *[again[0].args[k] for k in (0, 1, 3)]), tok("again", U, dl, prm), "the same set is improved again")
                n, gd = pr[0].res, again[0].guard
                inner = [ALIST[a][1] for k in gd.m for a, _ in k if ALIST[a][0] in ("lt0", "le0", "eq0")]
                has_len = lambda a: any(("fd", LT + "length") in ALIST[i] for i in poly._all_ids(a))
                size = {a for p in inner for a in p.atoms() if has_len(a)}
                if inner and not size and not has_unknown(gd) and all(aid(n.atom()) in p.atoms() for p in inner):
                    R.bad("speedup", "ZLZ_improve:more", "whether the set is improved again does not depend on the number of old vectors left", again[0].ins)
                else:
                    hide = {a: call("sizeAlphaList", un[0].args[1] if ALIST[a][1] == "unionTwoAlphaLists" else U) for a in size}
                    hide[aid(n.atom())] = call("ZLZ_pruneSpecial", U)
                    z, n = call("sizeAlphaList", U), call("ZLZ_pruneSpecial", U)
                    wants = [lt0(n - z), ONE - eq0(n - z)]
                    same(R, r, F, "more", subst(gd, hide), wants, "improved again while an old vector is still needed")
        else:
            R.undecided(r, "ZLZ_improve: rounds not recognised")
