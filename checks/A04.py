"""Rewards of a model: from the entries of the file to the expected immediate rewards used by the solver."""
from spec import *

TITLE = "model rewards"
IR = "Imm_Reward_Node_Struct."
DT = "DTTableStruct."
DN = "DTNodeStruct."


def run(Pg, R):
    R.rule("expected", "the immediate reward of a state and action is the expectation of the specified rewards over successor states (and observations, in a POMDP)", 1)
    R.rule("minimum", "the smallest immediate reward is the minimum of zero and all rewards as they are used (costs negated)", 1)
    R.rule("adjusted", "the reward used by the solver is the immediate reward, negated for a cost model", 1)
    R.rule("possible", "an observation is possible for an action exactly when some reachable state gives it a probability above the tolerance; the count of possible ones agrees", 1)
    R.rule("enter", "a reward given for a value, row or matrix is stored at the action, states and observation it was given for", 1)
    R.rule("override", "each specified reward, zeroes included, replaces what was specified earlier for exactly the situations it matches", 1)
    R.rule("lookup", "looking a reward up finds the entry for the action, state, successor and observation, or else the default", 1)
    R.rule("unscale", "the values written out undo any shift of the rewards", 1)
    pomdp, mdp = enum(Pg, "POMDP_problem_type"), enum(Pg, "MDP_problem_type")
    isp = eq0(g("gProblemType") - pomdp)
    cost = eq0(g("gValueType") - enum(Pg, "COST_value_type"))

    def rew(a, i):
        p = SUM(S_, lambda j: SUM(O_, lambda z: ent(el(g("P"), a), i, j) * ent(el(g("R"), a), j, z) * call("getImmediateReward", a, i, j, z)))
        m = SUM(S_, lambda j: ent(el(g("P"), a), i, j) * call("getImmediateReward", a, i, j, ZERO))
        return p, m
    F = get(Pg, R, "expected", "computeRewards")
    if F:
        for gd, k, what in ((isp, 0, "POMDP"), (eq0(g("gProblemType") - mdp), 1, "MDP")):
            got = when(F.esum("addEntryToIMatrix"), g("gProblemType"), pomdp if k == 0 else mdp)
            want = SUM(A_, lambda a: SUM(S_, lambda i: tok("addEntryToIMatrix", g("IQ"), a, i, rew(a, i)[k])))
            same(R, "expected", F, what, got, want, "expected rewards of a " + what)
        for cg, sg, what in ((cost, -1, "cost"), (ONE - cost, 1, "reward")):
            got = when(when(final_g(F, "gMinimumImmediateReward"), g("gProblemType"), pomdp), g("gValueType"), enum(Pg, "COST_value_type") if sg < 0 else enum(Pg, "REWARD_value_type"))
            low = FOLD(rng(0, A_), ZERO, lambda a, st: FOLD(rng(0, S_), st, lambda i, s2: MIN_(s2, sg * rew(a, i)[0])))
            same(R, "minimum", F, what, got, low, "smallest reward of a %s model" % what)
    F = get(Pg, R, "adjusted", "getAdjustedReward")
    if F:
        plain = under(F.ret, eq0(g("gRequireNonNegativeRewards")))
        q = ent(g("Q"), F.arg(0), F.arg(1))
        same(R, "adjusted", F, "plain", plain, q - 2 * cost * q, "reward used")
        neg = lt0(g("gMinimumImmediateReward"), "f")
        sh = under(F.ret, (ONE - eq0(g("gRequireNonNegativeRewards"))) * neg)
        same(R, "adjusted", F, "shifted", sh, q - 2 * cost * q - g("gMinimumImmediateReward"), "reward used when negative ones are shifted away")
    F = get(Pg, R, "possible", "setPossibleObservations")
    if F:
        eps = F.arg(0)
        a, z = fresh(rng(0, A_)), fresh(rng(0, O_))
        Pa, Ra = el(g("P"), a), el(g("R"), a)
        row = lambda i: rng(el(fld(Pa, "Matrix_Struct.row_start"), i), el(fld(Pa, "Matrix_Struct.row_start"), i) + el(fld(Pa, "Matrix_Struct.row_length"), i))

        def pos(z):
            def seen(i, k):
                pr = ent(Ra, el(fld(Pa, "Matrix_Struct.col"), k), z)
                x, y = le0(eps - pr, "f"), le0(eps + pr, "f")
                return x + y - x * y
            return SOME(S_, lambda i: SOME(row(i), lambda k: seen(i, k)))
        got = F.at(el(g("gObservationPossible"), a), z)
        if got is not None and "row_start" in str(got):
            same(R, "possible", F, "flag", got, pos(z), "possible observations")
            same(R, "possible", F, "count", F.at(g("gNumPossibleObservations"), a), SUM(O_, pos) + el(g("gNumPossibleObservations"), a), "number of possible observations")
        else:
            R.undecided("possible", "setPossibleObservations: form not recognised: %s" % str(got)[:200])
    # --- entering
    r = "enter"
    node = g("gCurImmRewardNode")
    ty = lambda n: eq0(fld(node, IR + "type") - enum(Pg, n))
    F = get(Pg, R, r, "newImmReward")
    if F:
        act, cs, ns, ob = (F.arg(k) for k in range(4))
        new = final_g(F, "gCurImmRewardNode")
        for k, n in enumerate(("action", "cur_state", "next_state", "obs")):
            same(R, r, F, n, F.field(new, IR + n), F.arg(k), "field %s of a new reward" % n)
        NP = enum(Pg, "NOT_PRESENT") if any("NOT_PRESENT" == n for c in Pg.enums.values() for n, v in c) else -99
        no, nn, nc = eq0(ob - NP), eq0(ns - NP), eq0(cs - NP)
        V, W, M = (P(enum(Pg, "ir_" + n)) for n in ("value", "vector", "matrix"))
        for gd, w, what in ((isp * (ONE - no), V, "value-pomdp"), (isp * no * (ONE - nn), W, "vector-pomdp"), (isp * no * nn, M, "matrix-pomdp")):
            same(R, r, F, what, gd * under(F.field(new, IR + "type", gd), gd), gd * w, "kind of a new reward")
        ism = eq0(g("gProblemType") - mdp)
        for gd, w, what in ((ism * (ONE - nn), V, "value-mdp"), (ism * nn * (ONE - nc), W, "vector-mdp"), (ism * nn * nc, M, "matrix-mdp")):
            same(R, r, F, what, gd * under(F.field(new, IR + "type", gd), gd), gd * w, "kind of a new reward")
        for n in ("newIMatrix", "calloc"):
            for e in F.events(n):
                if n == "newIMatrix":
                    same(R, r, F, "rows", e.args[0], S_, "rows of a reward matrix", e.ins)
                else:
                    for gd, w in ((isp, O_), (ism, S_)):
                        if (e.guard * gd).m:
                            same(R, r, F, "row", under(e.args[0] * e.args[1], gd), 8 * w, "length of a reward row", e.ins)
    F = get(Pg, R, r, "enterImmReward")
    if F:
        cs, ns, ob, val = (F.arg(k) for k in range(4))
        for t, gd, want in (("matrix-pomdp", ty("ir_matrix") * isp, tok("addEntryToIMatrix", g("gCurIMatrix"), ns, ob, val)),
                            ("matrix-mdp", ty("ir_matrix") * (ONE - isp), tok("addEntryToIMatrix", g("gCurIMatrix"), cs, ns, val))):
            same(R, r, F, t, gd * F.esum("addEntryToIMatrix"), gd * want, "entry of a reward matrix")
        gd = ty("ir_value")
        same(R, r, F, "value", under(F.field(node, IR + "rep", gd), gd), val, "single reward")
        for t, gd, ix in (("vector-pomdp", ty("ir_vector") * isp, ob), ("vector-mdp", ty("ir_vector") * (ONE - isp), ns)):
            same(R, r, F, t, under(F.at(fld(node, IR + "rep"), ix, gd), gd), val, "entry of a reward row")
    F = get(Pg, R, r, "doneImmReward")
    if F:
        gd = ONE - eq0(node)
        ok = ty("ir_value") + ty("ir_vector") + ty("ir_matrix")
        same(R, r, F, "matrix", gd * ty("ir_matrix") * F.esum("transformIMatrix"), gd * ty("ir_matrix") * tok("transformIMatrix", g("gCurIMatrix")), "reward matrix that is kept")
        for t in ("ir_value", "ir_vector", "ir_matrix"):
            same(R, r, F, "tree-" + t, gd * ty(t) * F.esum("irAddToDecisionTree"), gd * ty(t) * tok("irAddToDecisionTree", node), "finished reward takes effect")
            same(R, r, F, "list-" + t, gd * ty(t) * F.esum("appendImmRewardList"), gd * ty(t) * tok("appendImmRewardList", g("gImmRewardList"), node), "finished reward is kept in the list")
    # --- effect on the table of rewards
    r = "override"
    F = get(Pg, R, r, "irAddToDecisionTree")
    if F:
        nd = F.arg(0)
        rep = fld(nd, IR + "rep")
        act, cs, ns, ob = (fld(nd, IR + n) for n in ("action", "cur_state", "next_state", "obs"))
        ty = lambda n: eq0(fld(nd, IR + "type") - enum(Pg, n))
        W = P(-1)
        got = F.esum("dtAdd")
        U = lambda gd, p: gd * under(p, gd)
        for key, gd, want in (("value-pomdp", ty("ir_value") * isp, tok("dtAdd", act, cs, ns, ob, rep)),
                              ("value-mdp", ty("ir_value") * (ONE - isp), tok("dtAdd", act, cs, ns, W, rep)),
                              ("vector-pomdp", ty("ir_vector") * isp, SUM(O_, lambda i: tok("dtAdd", act, cs, ns, i, el(rep, i)))),
                              ("vector-mdp", ty("ir_vector") * (ONE - isp), SUM(S_, lambda i: tok("dtAdd", act, cs, i, W, el(rep, i))))):
            same(R, r, F, key, U(gd, got), gd * want, "situations a reward is entered for")
        ln = lambda f, i: el(fld(rep, "Matrix_Struct." + f), i)
        rows = fld(rep, "Matrix_Struct.num_rows")
        for key, gd, zero, one in (("matrix-pomdp", ty("ir_matrix") * isp, tok("dtAdd", act, cs, W, W, ZERO), lambda i, c, v: tok("dtAdd", act, cs, i, c, v)),
                                   ("matrix-mdp", ty("ir_matrix") * (ONE - isp), tok("dtAdd", act, W, W, W, ZERO), lambda i, c, v: tok("dtAdd", act, i, c, W, v))):
            entries = SUM(rows, lambda i: SUM(ln("row_length", i), lambda j: one(i, ln("col", ln("row_start", i) + j), ln("mat_val", ln("row_start", i) + j))))
            entries2 = SUM(rows, lambda i: SUM(rng(ln("row_start", i), ln("row_start", i) + ln("row_length", i)), lambda k: one(i, ln("col", k), ln("mat_val", k))))
            n = O_ if key == "matrix-pomdp" else S_
            dense = SUM(rows, lambda i: SUM(n, lambda j: one(i, j, ent(rep, i, j))))
            same(R, r, F, key, U(gd, got), [gd * (zero + entries), gd * (zero + entries2), gd * dense], "situations a reward matrix is entered for (zero entries included)")
        # the clearing comes first
        ev = F.events("dtAdd")
        for n, e in enumerate(ev):
            if e.args[4].const() == 0 and not e.vd:
                for e2 in ev[:n]:
                    if e2.vd and (e2.guard * e.guard).m:
                        R.bad(r, "irAddToDecisionTree:order", "%s: entries of a reward matrix are cleared after they were entered" % e.ins.where(), e.ins)
    F = get(Pg, R, r, "dtAdd")
    if F:
        ev = F.events("dtAddInternal")
        if len(ev) == 1:
            e = ev[0]
            same(R, r, F, "tree", final_g(F, "gTree"), e.res, "changed tree is kept", e.ins)
            same(R, r, F, "args", A("tok", e.args[0], e.args[2], e.args[3]), A("tok", g("gTree"), ZERO, F.arg(4)), "tree, first level and value", e.ins)
            vec_args(R, r, F, e.args[1])
        else:
            R.undecided(r, "dtAdd: %d insertions" % len(ev))
    F = get(Pg, R, r, "dtAddInternal")
    if F:
        nd, vec, ix, val = (F.arg(k) for k in range(4))
        wild = ALL(rng(ix, P(4)), lambda k: eq0(el(vec, k) + 1))
        some = ONE - wild
        here = eq0(el(vec, ix) + 1)
        one = lambda *a: tok(*a)
        same(R, r, F, "all-destroy", under(F.esum("dtDestroyNode"), wild), tok("dtDestroyNode", nd), "what a reward for every remaining situation discards")
        same(R, r, F, "all-new", under(F.esum("dtNewNodeVal"), wild), tok("dtNewNodeVal", val), "reward for every remaining situation")
        m = F.maker(under(F.ret, wild))
        if m:
            R.check(r, m[0].name == "dtNewNodeVal", "dtAddInternal:all-ret", "%s: a reward for every remaining situation does not replace the node" % m[0].ins.where(), m[0].ins)
        else:
            R.undecided(r, "dtAddInternal: node returned for all situations: %s" % str(under(F.ret, wild))[:200])
        for gd, what in ((some * here, "wildcard"), (some * (ONE - here), "single")):
            conv = [e for e in F.events("dtConvertToTable") if (e.guard * gd).m]
            if len(conv) != 1:
                R.undecided(r, "dtAddInternal: %d conversions for %s" % (len(conv), what))
                continue
            c = conv[0]
            same(R, r, F, what + "-table", A("tok", *c.args), A("tok", nd, el(g("gTableSizes"), ix)), "table the node becomes", c.ins)
            same(R, r, F, what + "-ret", under(F.ret, gd), c.res, "node returned", c.ins)
            tab = A("fa", c.res, DN + "data")
            rec = [e for e in F.events("dtAddInternal") if (e.guard * gd).m]
            for e in rec:
                same(R, r, F, what + "-rest", A("tok", *e.args[1:]), A("tok", vec, ix + 1, val), "remaining levels and value", e.ins)
            if what == "single":
                if len(rec) == 1:
                    slot = [w for w in F.K.log if w.kind == "set" and w.region == ("mem",) and w.val == rec[0].res]
                    for w in slot:
                        same(R, r, F, "single-slot", w.idx[1], el(vec, ix), "entry that is changed", rec[0].ins)
                    if not slot:
                        R.bad(r, "dtAddInternal:single-lost", "%s: the changed entry is not put back into the table" % rec[0].ins.where(), rec[0].ins)
                    for i in sorted({i for a in rec[0].args[0].atoms() for i in poly._all_ids(a) if ALIST[i][0] in ("new", "ev")}):
                        mk = F.maker(A(*ALIST[i]))
                        if mk and mk[0].name != "dtConvertToTable" and mk[0].name not in ("dtDeepCopyNode", "dtAddInternal") and "defaultEntry" not in str(mk[0].args):
                            R.bad(r, "dtAddInternal:single-fresh", "%s: a new entry does not start from the default of its table" % mk[0].ins.where(), mk[0].ins)
                    cp = [e for e in F.events("dtDeepCopyNode") if (e.guard * gd).m]
                    if not cp:
                        R.undecided(r, "dtAddInternal: copy of the default not recognised")
                    for e in cp:
                        x = e.args[0].atom()
                        R.check(r, x and x[0] == "rd" and x[1] == ("fd", DT + "defaultEntry"), "dtAddInternal:single-default", "%s: a new entry does not start from the default of its table: %s" % (e.ins.where(), show(e.args[0])[:200]), e.ins)
                        sl = [w for w in F.K.log if w.kind == "set" and w.region == ("mem",) and w.val == e.res]
                        if len(sl) == 1 and len(slot) == 1:
                            same(R, r, F, "single-copy", A("pair", *sl[0].idx), A("pair", *slot[0].idx), "entry the default is copied to", e.ins)
                            old = rd(("mem",), *slot[0].idx)
                            same(R, r, F, "single-when", gd * under(e.guard, gd), gd * eq0(old), "default is copied exactly when there is no entry", e.ins)
                else:
                    R.undecided(r, "dtAddInternal: %d insertions below one entry" % len(rec))
            else:
                dflt = [e for e in rec if not e.vd]
                ents = [e for e in rec if e.vd]
                if not rec:
                    R.undecided(r, "dtAddInternal: nothing below a wildcard")
                    continue
                if len(dflt) == 0 and len(ents):
                    R.bad(r, "dtAddInternal:wild-default", "%s: a wildcard does not change the default" % ents[0].ins.where(), ents[0].ins)
                for e in dflt:
                    x = e.args[0].atom()
                    R.check(r, x and x[0] == "rd" and x[1] == ("fd", DT + "defaultEntry"), "dtAddInternal:wild-default-arg", "%s: not the default is changed" % e.ins.where(), e.ins)
                    w = [w for w in F.K.log if w.kind == "set" and w.region == ("fd", DT + "defaultEntry") and w.val == e.res]
                    R.check(r, bool(w), "dtAddInternal:wild-default-lost", "%s: the changed default is not put back" % e.ins.where(), e.ins)
                if not ents:
                    R.bad(r, "dtAddInternal:wild-entries", "%s: a wildcard leaves existing entries as they were" % dflt[0].ins.where(), dflt[0].ins)
                for e in ents:
                    if len(e.vd) == 1 and e.vd[0][1][0] == "rng":
                        same(R, r, F, "wild-range", A("pair", *e.vd[0][1][1:3]), A("pair", ZERO, el(g("gTableSizes"), ix)), "entries a wildcard changes", e.ins)
                        w = [w for w in F.K.log if w.kind == "set" and w.region == ("mem",) and w.val is not None and set(w.val.atoms()) & set(e.res.atoms())]
                        for x in w:
                            same(R, r, F, "wild-slot", x.idx[1], e.vd[0][0] if not x.vd else x.vd[0][0], "entry put back", e.ins)
                        R.check(r, bool(w), "dtAddInternal:wild-entry-lost", "%s: the changed entry is not put back" % e.ins.where(), e.ins)
                    else:
                        R.undecided(r, "dtAddInternal: loop over entries not recognised")
    F = get(Pg, R, r, "dtConvertToTable")
    if F:
        nd, n = F.arg(0), F.arg(1)
        isv = eq0(fld(nd, DN + "type") - enum(Pg, "DT_VAL"))
        ist = eq0(fld(nd, DN + "type") - enum(Pg, "DT_TABLE"))
        same(R, r, F, "table", when(F.ret, fld(nd, DN + "type"), enum(Pg, "DT_TABLE")), nd, "a table stays as it is")
        same(R, r, F, "value", under(F.esum("dtNewNodeVal"), isv), tok("dtNewNodeVal", fld(nd, DN + "data")), "the value becomes the default")
        same(R, r, F, "size", under(F.esum("dtNewNodeTable"), isv), tok("dtNewNodeTable", n), "size of the table")
        dv = [w for w in F.K.log if w.kind == "set" and w.region == ("fd", DT + "defaultEntry")]
        mk = [e for e in F.events("dtNewNodeVal")]
        if dv and mk:
            same(R, r, F, "default", dv[-1].val, mk[-1].res, "default of the new table")
        else:
            R.undecided(r, "dtConvertToTable: default not recognised")
    F = get(Pg, R, r, "dtInit")
    if F:
        gd = eq0(g("gTree"))
        t = final_g(F, "gTableSizes", gd)
        for k in range(4):
            same(R, r, F, "size%d" % k, under(F.at(under(t, gd), P(k), gd), gd), (F.arg(0), F.arg(1), F.arg(1), F.arg(2))[k], "entries of level %d" % k)
        same(R, r, F, "zero", under(F.esum("dtNewNodeVal"), gd), tok("dtNewNodeVal", ZERO), "rewards start as zero")
    F = get(Pg, R, r, "dtDeepCopyTable")
    if F:
        out, src = F.arg(0), F.arg(1)
        same(R, r, F, "size", F.esum("dtInitTable"), tok("dtInitTable", out, fld(src, DT + "numEntries")), "size of the copy")
        ev = F.events("dtDeepCopyNode")
        d = [e for e in ev if not e.vd]
        for e in d:
            same(R, r, F, "default", e.args[0], fld(src, DT + "defaultEntry"), "default that is copied", e.ins)
            same(R, r, F, "default-to", F.field(out, DT + "defaultEntry"), e.res, "default of the copy", e.ins)
        if not d:
            R.bad(r, "dtDeepCopyTable:default", "%s:%d: the default of a table is not copied" % (F.f.file, F.f.line))
        for e in [e for e in ev if e.vd]:
            if len(e.vd) == 1 and e.vd[0][1][0] == "rng":
                same(R, r, F, "entries", A("pair", *e.vd[0][1][1:3]), A("pair", ZERO, fld(src, DT + "numEntries")), "entries copied", e.ins)
                w = [w for w in F.K.log if w.kind == "set" and w.region == ("mem",) and e.res is not None and len(w.vd) == 1]
                for x in w:
                    same(R, r, F, "entry", x.idx[1], x.vd[0][0], "entry of the copy", e.ins)
            else:
                R.undecided(r, "dtDeepCopyTable: loop not recognised")
    # --- lookup
    r = "lookup"
    F = get(Pg, R, r, "getImmediateReward")
    if F:
        same(R, r, F, "get", F.ret, call("dtGet", *(F.arg(k) for k in range(4))), "reward looked up")
    F = get(Pg, R, r, "dtGet")
    if F:
        gd = ONE - eq0(g("gTree"))
        made = {c.f.name for c in Pg.calls_to("dtInit")}
        none = when(F.ret, g("gTree"), 0)
        if made <= {"irAddToDecisionTree", "doneImmReward"}:
            # the tree only exists once a reward was given
            same(R, r, F, "none", none, ZERO, "reward when the model gives none")
        t = under(F.ret, gd).atom()
        if t and t[0] in ("call", "ev") and t[1] == "dtGetInternal":
            args = t[2] if t[0] == "call" else t[4]
            same(R, r, F, "tree", A("pair", args[0], args[2]), A("pair", g("gTree"), ZERO), "tree and level a search starts at")
            vec_args(R, r, F, args[1])
        else:
            R.undecided(r, "dtGet: result not recognised: %s" % str(F.ret)[:200])
    F = get(Pg, R, r, "dtGetInternal")
    if F:
        nd, vec, ix = (F.arg(k) for k in range(3))
        isv = eq0(fld(nd, DN + "type") - enum(Pg, "DT_VAL"))
        ist = eq0(fld(nd, DN + "type") - enum(Pg, "DT_TABLE"))
        same(R, r, F, "value", when(F.ret, fld(nd, DN + "type"), enum(Pg, "DT_VAL")), fld(nd, DN + "data"), "value found")
        tab = A("fa", nd, DN + "data")
        t = when(F.ret, fld(nd, DN + "type"), enum(Pg, "DT_TABLE")).atom()
        if t and t[0] in ("call", "ev") and t[1] == "dtGetInternal":
            args = t[2] if t[0] == "call" else t[4]
            same(R, r, F, "rest", A("pair", *args[1:]), A("pair", vec, ix + 1), "remaining levels")
            e = next((x for x in (ALIST[i] for i in poly._all_ids(aid(args[0].atom())) ) if x[0] == "rd" and x[1] == ("mem",) and x[2][-1] != ix), None) if args[0].atom() else None
            rds = {i for a in args[0].atoms() for i in poly._all_ids(a)}
            ents = [ALIST[i] for i in rds if ALIST[i][0] == "rd" and ALIST[i][1] == ("mem",) and "entries" in str(ALIST[i][2][0])]
            dfl = [ALIST[i] for i in rds if ALIST[i][0] == "rd" and ALIST[i][1] == ("fd", DT + "defaultEntry")]
            if len(ents) == 1 and len(dfl) == 1:
                x, d = A(*ents[0]), A(*dfl[0])
                same(R, r, F, "entry", args[0], x + eq0(x) * d, "entry, or the default when there is none")
                same(R, r, F, "index", ents[0][2][1], el(vec, ix), "index of the entry")
            else:
                R.undecided(r, "dtGetInternal: entry not recognised: %s" % str(args[0])[:200])
        else:
            R.undecided(r, "dtGetInternal: result not recognised: %s" % str(F.ret)[:200])
    # --- undoing the shift
    r = "unscale"
    F = get(Pg, R, r, "makeScaledAlphaList")
    if F:
        dup = F.events("duplicateAlphaList")
        if len(dup) == 1:
            same(R, r, F, "copy", dup[0].args[0], F.arg(0), "list that is rescaled", dup[0].ins)
            same(R, r, F, "ret", F.ret, dup[0].res, "rescaled list", dup[0].ins)
            L = LIST(fld(dup[0].res, LT + "head"))
            n, i = fresh(L), fresh(rng(0, S_))
            same(R, r, F, "value", F.at(fld(n, LT + "alpha"), i), el(fld(n, LT + "alpha"), i) + call("getValueScaleFactor", F.arg(1)), "value after rescaling")
        else:
            R.undecided(r, "makeScaledAlphaList: copy not recognised")
    F = get(Pg, R, r, "valuesRequireScaling")
    if F:
        neg = (ONE - eq0(g("gRequireNonNegativeRewards"))) * lt0(g("gMinimumImmediateReward"), "f")
        same(R, r, F, "when", F.ret, neg + cost - neg * cost, "when values are rescaled")


def vec_args(R, r, F, v):
    """the local array that describes a situation: action, state, successor, observation"""
    t = v.atom()
    if not t or t[0] != "al":
        R.undecided(r, "%s: situation not recognised" % F.name)
        return
    for k in range(4):
        ws = [w for w in F.K.log if w.kind == "set" and w.region == ("al", t[1]) and (w.idx[0] if w.idx else ZERO).const() == k]
        if len(ws) == 1:
            same(R, r, F, "vec%d" % k, ws[0].val, F.arg(k), "place %d of the situation" % k)
        else:
            R.undecided(r, "%s: place %d of the situation" % (F.name, k))
