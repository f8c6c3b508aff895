"""Belief states: Bayesian update, sampling of observations and simulated trajectories."""
from spec import *

TITLE = "belief updates and simulation"


def joint(b, a, z, j):
    """probability of being in j and seeing z after action a from belief b"""
    return ent(el(g("R"), a), j, z) * SUM(S_, lambda i: el(b, i) * ent(el(g("P"), a), i, j))


def run(Pg, R):
    R.rule("update", "the belief after action and observation is the normalised joint probability of successor state and observation", 1)
    R.rule("impossible", "an update for an observation of probability zero is reported as failed and one of positive probability as done", 1)
    R.rule("used", "the result of a belief update is tested, and a failed update is not used as a belief", 1)
    R.rule("range", "actions and observations typed in are checked against the model's numbers before they are used", 1)
    R.rule("answer", "every line typed that does not end the dialogue gets one answer, the new belief or the empty list, and what is wrong with it is said", 1)
    R.rule("sample", "an observation is drawn with its probability: the first one whose cumulative probability exceeds a number drawn uniformly from 0 to 1", 1)
    R.rule("step", "a simulated step draws the observation from the current belief and action and updates exactly that belief with them", 1)
    R.rule("trajectory", "each step of a trajectory takes the policy's action for its belief, or a random action of the model, and fills the following step's belief", 1)
    R.rule("grid", "grid points are the simplex corners, or pairs of corners with equal weight, or beliefs reached by updates", 1)
    r = "update"
    F = get(Pg, R, r, "transformBeliefState")
    if F:
        b, out, a, z = (F.arg(k) for k in range(4))
        tot = SUM(S_, lambda j: joint(b, a, z, j))
        pom = eq0(g("gProblemType") - 2)
        ok = under(F.ret, pom)
        i = fresh(rng(0, S_))
        gd = pom * ok
        got = under(F.at(out, i, guard=gd), gd) if not has_unknown(ok) else F.at(out, i)
        same(R, r, F, "belief", gd * got, gd * joint(b, a, z, i) * inv(tot), "updated belief")
        if ok is not None:
            # decided by a threshold on the total probability, whatever the (small) tolerance
            bad, hit = [], False
            ats = [ALIST[x] for x in ok.atoms()]
            for t in ats:
                if t[0] in ("lt0", "le0", "eq0"):
                    d = t[1] - tot
                    e = t[1] + tot
                    c = d.const() if d.const() is not None else e.const()
                    if c is None or abs(c) > Fraction(1, 1000):
                        bad.append(show(A(*t)))
                    else:
                        hit = True
                else:
                    bad.append(show(A(*t)))
            zero = value_at(ok, tot, Fraction(0))
            one = value_at(ok, tot, Fraction(1, 10))
            R.check("impossible", hit and not bad and zero == 0, "transformBeliefState:zero", "%s:%d: an observation of probability zero counts as %s (%s)" % (F.f.file, F.f.line, zero, str(ok)[:200]))
            R.check("impossible", hit and not bad and one == 1, "transformBeliefState:positive", "%s:%d: an observation of positive probability counts as %s (%s)" % (F.f.file, F.f.line, one, str(ok)[:200]))
    # --- callers test the result
    from rules import result_tested
    for I in Pg.calls_to("transformBeliefState"):
        t = result_tested(Pg, I)
        key = "%s:transformBeliefState" % I.f.name
        R.check("used", t, key, "%s: the outcome of the belief update is ignored" % I.where(), I)
    F = get(Pg, R, "range", "UTIL_doBeliefUpdates")
    if F:
        for e in F.events("transformBeliefState"):
            for k, n, what in ((2, A_, "action"), (3, O_, "observation")):
                x = e.args[k]
                ok = not (e.guard * LT0(x)).m and not (e.guard * (ONE - LT0(x - n))).m
                R.check("range", ok, "UTIL_doBeliefUpdates:" + what, "%s: %s not checked against the model before the update" % (e.ins.where(), what), e.ins)
        for e in F.events("copyBelief"):
            up = [t for t in F.events("transformBeliefState") if t.res is not None and e.args[1] == t.args[1]]
            for t in up:
                R.check("used", not (e.guard * eq0(t.res)).m, "UTIL_doBeliefUpdates:copy", "%s: the belief of a failed update is taken over" % e.ins.where(), e.ins)
                same(R, "used", F, "to", e.args[0], t.args[0], "the updated belief becomes the current one", e.ins)
        first = [t for t in F.events("strtol", "strtod", "sscanf", "__isoc99_sscanf", "atoi") if len(t.vd) == 1 and any(t.res is not None and t.res == e.args[2] for e in F.events("transformBeliefState"))]
        put, k1 = outputs(F, g("stdout"))
        put2, k2 = outputs(F)
        err, k3 = outputs(F, g("stderr"))
        if len(first) == 1 and k1 and k2:
            t = first[0]

            def at(e):
                return subst(e.guard, {vid(e.vd[0][0]): t.vd[0][0]}) if e.vd[0][0] != t.vd[0][0] else e.guard
            empty = [e for e, p in put + put2 if p == "[]" and len(e.vd) == 1]
            done = [e for e in F.events("copyBelief") if len(e.vd) == 1]
            told = {id(e): e for e, p in err if len(e.vd) == 1}
            n = sum((at(e) for e in empty), ZERO)
            same(R, "answer", F, "one", n + sum((at(e) for e in done), ZERO), [at(t)] + [ONE - A(*ALIST[x]) for x in at(t).atoms() if "cmp(" in show(A(*ALIST[x])) and ALIST[x][0] == "eq0"], "answers given to a line", t.ins)
            if k3:
                for e in empty:
                    R.check("answer", not at(e).m or any((at(e) * at(o)).m for o in told.values()), "UTIL_doBeliefUpdates:told", "%s: nothing is said of what is wrong with the line" % e.ins.where(), e.ins)
            for x in at(t).atoms():
                q = A(*ALIST[x])
                if ALIST[x][0] == "eq0" and "cmp(" in show(q) and "str(exit)" in show(q):
                    R.check("answer", not (at(t) * q).m and bool((at(t) * (ONE - q)).m), "UTIL_doBeliefUpdates:exit", "%s: the dialogue ends on other words than exit, or goes on after it" % t.ins.where(), t.ins)
            for u in F.events("transformBeliefState"):
                if len(u.vd) == 1 and u.res is not None:
                    gd = at(u) * eq0(u.res)
                    R.check("answer", not gd.m or bool((gd * n).m), "UTIL_doBeliefUpdates:impossible", "%s: nothing is answered to an observation that is not possible" % u.ins.where(), u.ins)
                    if k3:
                        R.check("answer", not gd.m or any((gd * at(e)).m for e in told.values()), "UTIL_doBeliefUpdates:untold", "%s: nothing is said of an observation that is not possible" % u.ins.where(), u.ins)
        else:
            R.undecided("answer", "UTIL_doBeliefUpdates: answers not recognised")
    # --- sampling
    F = get(Pg, R, "sample", "getBeliefObservation")
    if F:
        a, b = F.arg(0), F.arg(1)
        pr = lambda z: SUM(S_, lambda j: joint(b, a, z, j))
        dr = F.events("fran", "getRandomDouble")
        if len(dr) == 1 and dr[0].res is not None:
            u = dr[0].res
            ok = len(dr[0].vd) == 0 and (dr[0].name == "fran" or tuple(x.const() for x in dr[0].args) == (0, 1))
            R.check("sample", ok, "getBeliefObservation:draw", "%s: more than one number is drawn, or not from 0 to 1" % dr[0].ins.where(), dr[0].ins)
            over = lambda z: lt0(u - SUM(rng(0, z + 1), pr), "f")
            z = fresh(rng(0, O_))
            some = SOME(O_, over)
            over2 = lambda z: lt0(u - SUM(rng(0, z), pr) - pr(z), "f")
            some2 = SOME(O_, over2)
            same(R, "sample", F, "first", some2 * F.ret, some2 * mk_fi(z, rng(0, O_), over2(z), z), "observation drawn")
        else:
            R.undecided("sample", "getBeliefObservation: draws not recognised")
    F = get(Pg, R, "step", "updateBeliefState")
    if F:
        b, a, nb = (F.arg(k) for k in range(3))
        ob = F.events("getBeliefObservation")
        tr = F.events("transformBeliefState")
        if len(ob) == 1 and len(tr) == 1:
            same(R, "step", F, "draw", A("pair", *ob[0].args), A("pair", a, b), "belief and action the observation is drawn for", ob[0].ins)
            same(R, "step", F, "update", A("pair", *tr[0].args), A("pair", b, nb, a, ob[0].res), "belief updated", tr[0].ins)
            same(R, "step", F, "result", F.ret, ob[0].res, "observation returned")
        else:
            R.undecided("step", "updateBeliefState: %d draws, %d updates" % (len(ob), len(tr)))
    r = "trajectory"
    F = get(Pg, R, r, "generateTrajectory")
    if F:
        T_, b0, pol = (F.arg(k) for k in range(3))
        for e in F.events("copyBelief"):
            same(R, r, F, "start", A("pair", *e.args), A("pair", fld(T_, "TrajectoryStruct.belief"), b0), "first belief", e.ins)
        for e in F.events("getRandomInt"):
            same(R, r, F, "random", A("pair", *e.args), A("pair", ZERO, A_ - 1), "range of random actions", e.ins)
        up = F.events("updateBeliefState")
        bv = F.events("bestVector")
        for e in bv:
            if up:
                same(R, r, F, "policy", A("pair", e.args[0], e.args[1]), A("pair", pol, up[0].args[0]), "policy and belief an action is chosen for", e.ins)
        for e in up:
            x = e.args[0].atom()
            if x and x[0] == "rd" and x[1] == ("fd", "TrajectoryStruct.belief"):
                node = x[2][0]
                same(R, r, F, "next", e.args[2], fld(fld(node, "TrajectoryStruct.next"), "TrajectoryStruct.belief"), "belief that is filled", e.ins)
                acts = [w for w in F.K.log if w.kind == "set" and w.region == ("fd", "TrajectoryStruct.action") and w.idx[0] == node]
                tot = sum((w.guard * w.val for w in acts), ZERO)
                if acts:
                    same(R, r, F, "action", e.guard * e.args[1], e.guard * tot, "action stored and used", e.ins)
            else:
                R.undecided(r, "generateTrajectory: belief of the step not recognised: %s" % show(e.args[0])[:200])
    # --- grids
    r = "grid"
    F = get(Pg, R, r, "FG_addSimplexCorners")
    if F:
        for e in F.events("appendBeliefList"):
            if len(e.vd) == 1 and e.vd[0][1] == rng(0, S_):
                i = e.vd[0][0]
                same(R, r, F, "corner", F.snapvec(e, 1, S_), VEC(S_, lambda j: eq0(j - i, "i")), "corner appended", e.ins)
            else:
                R.undecided(r, "FG_addSimplexCorners: loop not recognised")
    F = get(Pg, R, r, "FG_addPairwise")
    if F:
        for e in F.events("appendBeliefList"):
            if len(e.vd) == 2:
                i, j = e.vd[0][0], e.vd[1][0]
                want = VEC(S_, lambda k: Fraction(1, 2) * (eq0(k - i, "i") + eq0(k - j, "i")))
                same(R, r, F, "pair", F.snapvec(e, 1, S_), want, "midpoint of two corners appended", e.ins)
                cnt = ONE
                for v, d in reversed(e.vd):
                    cnt = mk_sum(v, d, cnt)
                same(R, r, F, "count", e.guard * cnt, [SUM(S_, lambda i: i), SUM(S_, lambda i: S_ - 1 - i)], "pairs of corners", e.ins)
            else:
                R.undecided(r, "FG_addPairwise: loop not recognised")
    for n in ("genInitialDerivedBeliefStates", "genAllBeliefStates"):
        F = get(Pg, R, r, n)
        if F:
            for e in F.events("appendBeliefList"):
                if e.args[0].const() == 0 and e.args[1] != g("gInitialBelief"):
                    same(R, r, F, "uniform", F.snapvec(e, 1, S_), VEC(S_, lambda j: inv(S_)), "uniform belief appended", e.ins)


def value_at(p, tot, x):
    """truth value p with the total probability equal to x"""
    r = Fraction(0)
    for k, c in p.m.items():
        t = c
        for a, e in k:
            at = ALIST[a]
            if at[0] not in ("lt0", "le0", "eq0"):
                return None
            d = at[1]
            s = 1
            if (d - tot).const() is not None:
                v = x + (d - tot).const()
            elif (d + tot).const() is not None:
                v = (d + tot).const() - x
            else:
                return None
            ok = v < 0 if at[0] == "lt0" else v <= 0 if at[0] == "le0" else v == 0
            t *= 1 if ok else 0
        r += t
    return r
