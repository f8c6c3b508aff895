"""Projections: gamma-discounted expectation through one action and observation plus the reward share."""
from spec import *

TITLE = "backup arithmetic of projections"


def run(Pg, R):
    R.rule("vector", "every component of a projected vector is discount * sum over successor states of P * R * old value plus the adjusted reward divided by the number of observations", 1)
    R.rule("labels", "a projected vector carries the action of its source, the observation it was projected for and a link to its source", 1)
    R.rule("list", "the projection of a list holds the projection of each of its vectors for the same action and observation; for an observation that cannot occur it holds the single vector of the reward share, labelled with action and observation and without source", 1)
    R.rule("impossible", "a projected list is labelled with its action and observation", 1)
    R.rule("all", "the projection table is filled for every action and every observation with the projection for exactly that pair", 1)
    r = "vector"
    F = get(Pg, R, r, "projectVector")
    if F:
        node, a, z = F.arg(0), F.arg(1), F.arg(2)
        al = F.field(F.ret, LT + "alpha")
        Pm, Rm = el(g("P"), a), el(g("R"), a)
        want = VEC(S_, lambda i: g("gDiscount") * SUM(S_, lambda j: ent(Pm, i, j) * ent(Rm, j, z) * el(fld(node, LT + "alpha"), j)) + call("getAdjustedReward", a, i) * inv(O_))
        same(R, r, F, "alpha", F.vec(al, S_), want, "projected vector")
        same(R, "labels", F, "action", F.field(F.ret, LT + "action"), fld(node, LT + "action"), "action of the projected vector")
        same(R, "labels", F, "obs", F.field(F.ret, LT + "obs"), z, "observation of the projected vector")
        same(R, "labels", F, "source", F.field(F.ret, LT + "prev_source"), node, "source of the projected vector")
    F = get(Pg, R, "list", "projectList")
    if F:
        lst, a, z = F.arg(0), F.arg(1), F.arg(2)
        imp = eq0(rd(("g", "gObservationPossible"), a, z)) if False else eq0(el(el(g("gObservationPossible"), a), z))
        gd = (ONE - eq0(lst)) * (ONE - imp)
        want = gd * SUM(LIST(fld(lst, LT + "head")), lambda v: tok("projectVector", v, a, z))
        same(R, "list", F, "project", F.esum("projectVector"), want, "vectors projected")

        ig = (ONE - eq0(lst)) * imp
        app = lambda e, k, x: F.node(x, "action", "obs", "prev_source", guard=e.guard, made=("projectVector",)) if k == 1 else x
        got = F.esum("appendNodeToAlphaList", "prependNodeToAlphaList", argmap=app)
        one = NODE(VEC(S_, lambda i: call("getAdjustedReward", a, i) * inv(O_)), action=a, obs=z, prev_source=ZERO)
        want = gd * SUM(LIST(fld(lst, LT + "head")), lambda v: tok("appendNodeToAlphaList", F.ret, A("made", "projectVector", (v, a, z)))) \
            + ig * tok("appendNodeToAlphaList", F.ret, one)
        same(R, "list", F, "append", got, want, "vectors placed in the projected list: one per vector of the old list, or the single reward vector when the observation cannot occur")
        same(R, "impossible", F, "labels", A("pair", F.field(F.ret, LT + "action"), F.field(F.ret, LT + "obs")), A("pair", a, z), "action and observation of the list")
    F = get(Pg, R, "all", "setAllProjections")
    if F:
        pr, lst = F.arg(0), F.arg(1)
        a, z = fresh(rng(0, A_)), fresh(rng(0, O_))
        x = F.at(el(pr, a), z)
        ma = F.made_args(x)
        got = A("proj", ma) if ma else x
        same(R, "all", F, "table", got, A("proj", (lst, a, z)), "entry [a][z] of the projection table")
