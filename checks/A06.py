"""Policy graphs: building them from vectors, writing and reading them, checking, relinking and evaluating them."""
from spec import *

TITLE = "policy graphs are built, written, read and evaluated faithfully"
PS = "PG_Struct."
LP = "Linked_PG_Struct."
CX = "PgEvalContextStruct."


def cur(p):
    """values after calls that may change memory stand for the current values"""
    return rewrite(p, "out->rd", lambda t: t[0] == "out" and len(t) == 5, lambda t: rd(t[3], *t[4]))


def wsum(F, base, clean=lambda p: p, kinds=("set",), keep=lambda w: True):
    """all writes to an array, as a formal sum"""
    r = ZERO
    for w in F.K.log:
        if w.kind not in kinds or w.region != ("mem",) or clean(w.idx[0]) != base and base is not None or not keep(w):
            continue
        c = clean(w.guard) * (A("tok", "write", (clean(w.idx[1]), clean(w.val))) if "add" not in kinds else clean(w.val) * A("tok", "at", (clean(w.idx[1]),)))
        for v, d in reversed(w.vd):
            c = mk_sum(v, tuple(clean(x) if isinstance(x, Poly) else x for x in d), c)
        r = r + c
    return r


ADD = lambda i, v: P(v) * A("tok", "at", (P(i),))
W = lambda i, v: A("tok", "write", (P(i), P(v)))


def run(Pg, R):
    R.rule("new", "a new graph has the nodes and sizes asked for, node n having id n; a copy has equal contents", 1)
    R.rule("fromlist", "the graph of a list of vectors has for its n-th vector the action of that vector and, per observation, the id of the vector chosen for it, or the marks for `impossible` and `unknown`", 1)
    R.rule("ids", "the vectors of a list are numbered in order as they are put into it", 1)
    R.rule("write", "a graph is written one node per line: its number, its action, and per observation the next node, X for impossible, - for unknown", 1)
    R.rule("read", "a graph is read back as id, action and one next node per observation, X and - giving the marks; an action out of range or a missing value is an error", 1)
    R.rule("linked", "nodes read are kept in order; finding, counting and locating go through all of them", 1)
    R.rule("verify", "a graph is valid exactly when all actions are in range and all next nodes exist", 1)
    R.rule("convert", "converting puts each node at the place of its id, and refuses ids that are out of range or repeated", 1)
    R.rule("relink", "relinking maps every link to a node by the given map and leaves the marks alone", 1)
    R.rule("equations", "the value of a node in a state is the immediate reward of its action plus the discounted expectation of the values of the nodes it leads to", 1)
    R.rule("evaluate", "the solution of the equations is stored for the state and node it was computed for", 1)
    R.rule("best", "the value of a belief is the largest over the nodes of the expected value, with the node that attains it", 1)
    inv, noinf = P(-1), P(-2)
    f = lambda p, x: fld(p, PS + x)

    # --- construction
    F = get(Pg, R, "new", "PG_Constructor")
    if F:
        n, z = F.arg(0), F.arg(3)
        for k, x in enumerate(("num_nodes", "num_states", "num_actions", "num_obs")):
            same(R, "new", F, x, F.field(F.ret, PS + x), F.arg(k), x)
        same(R, "new", F, "id", F.vec(F.field(F.ret, PS + "id"), n), VEC(n, lambda i: i), "ids")
        same(R, "new", F, "marked", F.vec(F.field(F.ret, PS + "marked"), n), VEC(n, lambda i: ZERO), "marks")
    F = get(Pg, R, "new", "PG_clone")
    if F:
        pg = F.arg(0)
        m = F.made_args(F.ret)
        if m:
            for k, x in enumerate(("num_nodes", "num_states", "num_actions", "num_obs")):
                same(R, "new", F, x, m[k], f(pg, x), x + " of the copy")
        for x in ("marked", "id", "action"):
            same(R, "new", F, x, wsum(F, f(F.ret, x)), SUM(f(pg, "num_nodes"), lambda n: W(n, el(f(pg, x), n))), x + " of the copy")
        k = fresh(rng(0, f(pg, "num_nodes")))
        ws = [w for w in F.K.log if w.kind == "set" and w.region == ("mem",) and len(w.vd) == 2]
        if len(ws) == 1:
            w = ws[0]
            got = A("tup", w.idx[0], w.idx[1], w.val)
            for v, d in reversed(w.vd):
                got = mk_sum(v, d, got)
            same(R, "new", F, "next", got, SUM(f(pg, "num_nodes"), lambda n: SUM(f(pg, "num_obs"), lambda z: A("tup", el(f(F.ret, "next"), n), z, el(el(f(pg, "next"), n), z)))), "links of the copy")
        else:
            R.undecided("new", "PG_clone: links are not copied in one place")

    F = get(Pg, R, "fromlist", "PG_ConstructorFromAlphaList")
    if F:
        L = LIST(fld(F.arg(0), LT + "head"))
        pos = lambda v: SUM(("pre", L[1], L[2], v), lambda w: ONE)
        m = F.made_args(F.ret)
        if m:
            for k, w in enumerate(([fld(F.arg(0), LT + "length"), call("sizeAlphaList", F.arg(0))], S_, A_, O_)):
                same(R, "fromlist", F, "size%d" % k, m[k], w, ("nodes", "states", "actions", "observations")[k] + " of the graph")
        same(R, "fromlist", F, "id", wsum(F, f(F.ret, "id")), SUM(L, lambda v: W(pos(v), fld(v, LT + "id"))), "ids of the nodes")
        same(R, "fromlist", F, "action", wsum(F, f(F.ret, "action")), SUM(L, lambda v: W(pos(v), fld(v, LT + "action"))), "actions of the nodes")
        got = ZERO
        for w in F.K.log:
            if w.kind == "set" and w.region == ("mem",) and w.idx[0] not in (f(F.ret, "id"), f(F.ret, "action")):
                c = w.guard * A("tup", w.idx[0], w.idx[1], w.val)
                for v, d in reversed(w.vd):
                    c = mk_sum(v, d, c)
                got = got + c

        def link(v, z):
            os_ = fld(v, LT + "obs_source")
            t = lambda x: A("tup", el(f(F.ret, "next"), pos(v)), z, P(x))
            no, imp = eq0(os_), eq0(el(os_, z))
            return no * t(noinf) + (ONE - no) * (imp * t(inv) + (ONE - imp) * t(fld(el(os_, z), LT + "id")))
        same(R, "fromlist", F, "next", got, SUM(L, lambda v: SUM(O_, lambda z: link(v, z))), "links of the nodes")

    F = get(Pg, R, "ids", "appendNodeToAlphaList")
    if F:
        l, n = F.arg(0), F.arg(1)
        emp = eq0(fld(l, LT + "length"))
        same(R, "ids", F, "id", F.field(n, LT + "id"), (ONE - emp) * (fld(fld(l, LT + "tail"), LT + "id") + 1), "number of a vector put at the end")
    F = get(Pg, R, "ids", "prependNodeToAlphaList")
    if F:
        l, n = F.arg(0), F.arg(1)
        emp = eq0(fld(l, LT + "length"))
        same(R, "ids", F, "id", F.field(n, LT + "id"), (ONE - emp) * (fld(fld(l, LT + "head"), LT + "id") - 1), "number of a vector put in front")

    # --- text form
    F = get(Pg, R, "write", "PG_printf")
    if F:
        pg, fl = F.arg(0), F.arg(1)
        seq, ok = outputs(F, fl)
        if not ok or not seq:
            R.undecided("write", "PG_printf: output not resolved")
        else:
            nx = lambda n, z: el(el(f(pg, "next"), n), z)
            is1, is2 = (lambda n, z: eq0(nx(n, z) - inv)), (lambda n, z: eq0(nx(n, z) - noinf))
            d = lambda x: num("d", x)
            N = f(pg, "num_nodes")
            same(R, "write", F, "node", out_sum(seq, 1), SUM(N, lambda n: OUT(d(n)) + OUT(d(el(f(pg, "action"), n))) + OUT("\n")), "number and action of each line")
            same(R, "write", F, "links", out_sum(seq, 2), SUM(N, lambda n: SUM(f(pg, "num_obs"), lambda z: is1(n, z) * OUT("X") + is2(n, z) * OUT("-") + (ONE - is1(n, z) - is2(n, z)) * OUT(d(nx(n, z))))), "next nodes of each line")
            kind = []
            for e, p in seq:
                k = "?"
                if p == "\n":
                    k = "end"
                elif len(e.vd) == 2:
                    k = "link"
                elif not isinstance(p, str):
                    k = "id" if p == d(e.vd[0][0]) else "action"
                if not kind or kind[-1] != k:
                    kind.append(k)
            if "?" not in kind and sorted(set(kind)) == ["action", "end", "id", "link"]:
                R.check("write", kind == ["id", "action", "link", "end"], "PG_printf:order", "%s:%d (PG_printf): the parts of a line are written in the order %s" % (F.f.file, F.f.line, kind))

    F = get(Pg, R, "read", "LPG_scanf")
    if F:
        read_rule(Pg, R, F, inv, noinf)

    # --- linked form
    nxt = LP + "next"
    F = get(Pg, R, "linked", "LPG_newNode")
    if F:
        for k, x in enumerate(("id", "action")):
            same(R, "linked", F, x, F.field(F.ret, LP + x), F.arg(k), x + " of a new node")
        same(R, "linked", F, "next", F.field(F.ret, nxt), ZERO, "a new node is followed by nothing")
        nb = F.arg(2)
        has = ONE - eq0(nb)
        same(R, "linked", F, "neighbor", F.vec(F.field(F.ret, LP + "neighbor"), O_, has), VEC(O_, lambda z: el(nb, z)), "next nodes of a new node")
    F = get(Pg, R, "linked", "LPG_append")
    if F:
        pg, nd = F.arg(0), F.arg(1)
        same(R, "linked", F, "head", F.ret, pg + eq0(pg) * nd, "first node after putting one at the end")
        ws = [w for w in F.K.log if w.kind == "set" and w.region == ("fd", nxt)]
        if len(ws) == 1 and not ws[0].vd:
            w = ws[0]
            last = SUM(LIST(pg, nxt), lambda x: x * eq0(fld(x, nxt)))
            same(R, "linked", F, "place", w.guard * w.idx[0], [(ONE - eq0(pg)) * last, (ONE - eq0(pg)) * A("nth", pg, nxt, A("inf"))], "the new node follows the last one")
            same(R, "linked", F, "link", w.guard * w.val, (ONE - eq0(pg)) * nd, "the new node is linked")
        else:
            R.undecided("linked", "LPG_append: linking not resolved")
    F = get(Pg, R, "linked", "LPG_addNode")
    if F:
        ap = F.events("LPG_append")
        if len(ap) == 1 and F.maker(ap[0].args[1]):
            e = ap[0]
            m = F.made_args(e.args[1])
            for k, x in enumerate(("id", "action", "next nodes")):
                same(R, "linked", F, "new%d" % k, m[k], F.arg(k + 1), x + " of the node added")
            same(R, "linked", F, "list", e.args[0], F.arg(0), "list the node is added to")
            same(R, "linked", F, "result", F.ret, e.res, "list returned")
        else:
            R.undecided("linked", "LPG_addNode: not one new node appended")
    hit = lambda i: (lambda x: eq0(fld(x, LP + "id") - i))
    FI = lambda dom, G, val: (lambda v: mk_fi(v, dom, G(v), val(v)))(fresh(dom))
    F = get(Pg, R, "linked", "LPG_findNode")
    if F:
        D = LIST(F.arg(0), nxt)
        same(R, "linked", F, "find", F.ret, FI(D, hit(F.arg(1)), lambda x: x), "node of an id")
    F = get(Pg, R, "linked", "LPG_size")
    if F:
        same(R, "linked", F, "size", F.ret, SUM(LIST(F.arg(0), nxt), lambda x: ONE), "number of nodes")
    F = get(Pg, R, "linked", "LPG_getPGNodePosition")
    if F:
        D = LIST(F.arg(0), nxt)
        has = SOME(D, hit(F.arg(1)))
        same(R, "linked", F, "position", F.ret, has * FI(D, hit(F.arg(1)), lambda x: SUM(("pre", D[1], D[2], x), lambda w: ONE)) - (ONE - has), "position of an id")
    F = get(Pg, R, "verify", "LPG_verify")
    if F:
        pg = F.arg(0)
        D = LIST(pg, nxt)

        def good(x):
            a = fld(x, LP + "action")
            return (ONE - LT0(a)) * LT0(a - A_) * ALL(O_, lambda z: ONE - eq0(call("LPG_findNode", pg, el(fld(x, LP + "neighbor"), z))))
        same(R, "verify", F, "valid", F.ret, ALL(D, good), "validity of a graph")
    F = get(Pg, R, "convert", "PG_convertLPGToPG")
    if F:
        lp = F.arg(0)
        D = LIST(lp, nxt)
        mk = [e for e in F.events("PG_Constructor")]
        if len(mk) == 1:
            e = mk[0]
            pg = e.res
            for k, (w, x) in enumerate((([call("LPG_size", lp), SUM(D, lambda x: ONE)], "nodes"), (S_, "states"), (A_, "actions"), (O_, "observations"))):
                same(R, "convert", F, "size%d" % k, e.args[k], w, x + " of the graph")
            idp = lambda x: fld(x, LP + "id")
            bad = lambda x: ONE - (ONE - LT0(idp(x))) * LT0(idp(x) - f(pg, "num_nodes")) * eq0(el(f(pg, "marked"), idp(x)))
            okall = ALL(D, lambda x: ONE - bad(x))
            same(R, "convert", F, "result", F.ret, okall * pg, "graph returned, or none")
            sofar = lambda x: (ONE - bad(x)) * ALL(("pre", D[1], D[2], x), lambda y: ONE - bad(y))
            same(R, "convert", F, "action", wsum(F, f(pg, "action")), SUM(D, lambda x: sofar(x) * W(idp(x), fld(x, LP + "action"))), "actions by id")
            same(R, "convert", F, "seen", wsum(F, f(pg, "marked"), keep=lambda w: w.val != ZERO), SUM(D, lambda x: sofar(x) * W(idp(x), ONE)), "ids seen")
            got = ZERO
            for w in F.K.log:
                if w.kind == "set" and w.region == ("mem",) and w.idx[0] not in (f(pg, "action"), f(pg, "marked"), f(pg, "id")):
                    c = w.guard * A("tup", w.idx[0], w.idx[1], w.val)
                    for v, d in reversed(w.vd):
                        c = mk_sum(v, d, c)
                    got = got + c
            same(R, "convert", F, "next", got, SUM(D, lambda x: sofar(x) * SUM(O_, lambda z: A("tup", el(f(pg, "next"), idp(x)), z, el(fld(x, LP + "neighbor"), z)))), "links by id")
        else:
            R.undecided("convert", "PG_convertLPGToPG: not one new graph")
    F = get(Pg, R, "relink", "PG_relink")
    if F:
        pg, mp, mx = (F.arg(k) for k in range(3))
        l = lambda n, z: el(el(f(pg, "next"), n), z)
        got = ZERO
        for w in F.K.log:
            if w.kind == "set" and w.region == ("mem",):
                c = w.guard * A("tup", w.idx[0], w.idx[1], w.val)
                for v, d in reversed(w.vd):
                    c = mk_sum(v, d, c)
                got = got + c
        big = lambda n, z: LT0(mx - l(n, z))
        t = lambda n, z, x: A("tup", el(f(pg, "next"), n), z, x)
        same(R, "relink", F, "map", got, SUM(f(pg, "num_nodes"), lambda n: SUM(f(pg, "num_obs"), lambda z: (ONE - LT0(l(n, z))) * (big(n, z) * t(n, z, noinf) + (ONE - big(n, z)) * t(n, z, el(mp, l(n, z)))))), "links after relinking")

    # --- evaluation
    F = get(Pg, R, "equations", "PGE_setRowCoefs")
    forms = (lambda n, s, N: n + s * N, lambda n, s, N: n * S_ + s)
    IX = forms[0]
    if F:
        pg, s, n, co = (F.arg(k) for k in range(4))
        N = f(pg, "num_nodes")
        a = el(f(pg, "action"), n)
        one = wsum(F, co, keep=lambda w: w.val == ONE)
        for fm in forms:
            if one == W(fm(n, s, N), ONE):
                IX = fm
        same(R, "equations", F, "diagonal", one, W(IX(n, s, N), ONE), "the value itself has coefficient one")
        Pa = el(g("P"), a)
        st = el(fld(Pa, "Matrix_Struct.row_start"), s)
        K_ = rng(st, st + el(fld(Pa, "Matrix_Struct.row_length"), s))
        nxs = lambda j: el(fld(Pa, "Matrix_Struct.col"), j)
        pr = lambda j: el(fld(Pa, "Matrix_Struct.mat_val"), j)
        want = SUM(K_, lambda j: SUM(O_, lambda z: ADD(IX(el(el(f(pg, "next"), n), z), nxs(j), N), -g("gDiscount") * pr(j) * ent(el(g("R"), a), nxs(j), z))))
        want2 = SUM(S_, lambda j: SUM(O_, lambda z: ADD(IX(el(el(f(pg, "next"), n), z), j, N), -g("gDiscount") * ent(Pa, s, j) * ent(el(g("R"), a), j, z))))
        same(R, "equations", F, "successors", wsum(F, co, kinds=("add",)), [want, want2], "coefficients of the successors are added up")
        zs = [w for w in F.K.log if w.kind == "set" and w.region == ("mem",) and w.idx[0] == co and w.val == ZERO]
        if len(zs) == 1 and len(zs[0].vd) == 1:
            same(R, "equations", F, "clear", wsum(F, co, keep=lambda w: w.val == ZERO), SUM(N * S_, lambda i: W(i, ZERO)), "coefficients start at zero")
        elif not F.events("memset", "bzero") and not zs:
            R.bad("equations", "PGE_setRowCoefs:clear", "%s:%d (PGE_setRowCoefs): the coefficients of the row are not set to zero first" % (F.f.file, F.f.line))
    F = get(Pg, R, "equations", "PGE_setPGCoefs")
    if F:
        pg, cx = F.arg(0), F.arg(1)
        N = f(pg, "num_nodes")
        every = lambda fn: SUM(S_, lambda s: SUM(N, lambda n: fn(s, n)))
        q = lambda s, n: ent(g("Q"), el(f(pg, "action"), n), s)
        strip = lambda e, k, x: cur(x)
        same(R, "equations", F, "rhs", F.esum("V_SetCmp", skip=(0,), argmap=strip), every(lambda s, n: tok("V_SetCmp", IX(n, s, N) + 1, q(s, n))), "right sides are the immediate rewards")
        same(R, "equations", F, "rows", F.esum("PGE_setRowCoefs", skip=(3,)), every(lambda s, n: tok("PGE_setRowCoefs", pg, s, n)), "rows of the equations")
        co = fld(cx, CX + "row_coef")
        nv, ze = fld(cx, CX + "num_vars"), fld(cx, CX + "zero_epsilon")
        same(R, "equations", F, "length", F.esum("Q_SetLen", skip=(0,), argmap=strip), every(lambda s, n: tok("Q_SetLen", IX(n, s, N) + 1, call("numNonZero", co, nv, ze))), "length of a row")

        def isz(i):
            x = el(co, i)
            return lt0(x - ze, "f") * lt0(-x - ze, "f")
        es = F.events("Q_SetEntry")
        if len(es) == 1:
            e = es[0]
            got = cur(tok_sum(e, skip=(0,)))
            def entry(lt):
                def fn(s, n, c):
                    z = lambda i: (lt0(el(co, i) - ze, "f") if lt else le0(el(co, i) - ze, "f")) * (lt0(-el(co, i) - ze, "f") if lt == 1 else le0(-el(co, i) - ze, "f"))
                    k = SUM(rng(0, c), lambda i: ONE - z(i))
                    return (ONE - z(c)) * tok("Q_SetEntry", IX(n, s, N) + 1, k, c + 1, el(co, c))
                return every(lambda s, n: SUM(nv, lambda c: fn(s, n, c)))
            same(R, "equations", F, "entries", got, [entry(1), entry(0), entry(2)], "entries of a row are the coefficients that are not zero, counted from zero, in columns counted from one", ins=None)
        else:
            R.undecided("equations", "PGE_setPGCoefs: entries are not made in one place")
    F = get(Pg, R, "equations", "numNonZero")
    if F:
        v, n, e = (F.arg(k) for k in range(3))
        z = lambda i, a, b: (lt0 if a else le0)(el(v, i) - e, "f") * (lt0 if b else le0)(-el(v, i) - e, "f")
        same(R, "equations", F, "count", F.ret, [SUM(n, lambda i: ONE - z(i, a, b)) for a in (1, 0) for b in (1, 0)], "number of entries that are not zero")
    F = get(Pg, R, "evaluate", "PGE_evaluate")
    if F:
        pg, cx = F.arg(0), F.arg(1)
        c = lambda x: fld(cx, CX + x)
        fine = eq0(call("LASResult"))
        same(R, "evaluate", F, "result", cur(F.ret), fine, "success exactly when the equations were solved")
        got = ZERO
        for w in F.K.log:
            if w.kind == "set" and w.region == ("mem",):
                m = F.maker(w.val)
                val = w.val
                if m and m[0].name == "V_GetCmp":
                    mk = F.made_args(w.val)
                    x0 = mk[0].atom()
                    val = A("made", "V_GetCmp", (mk[1],))
                    same(R, "evaluate", F, "vector", eq0(cur(mk[0]) - (F.events("V_SetAllCmp")[0].args[0] if F.events("V_SetAllCmp") else cur(mk[0]))), ONE, "the values come from the solution vector")
                t = w.guard * A("tup", w.idx[0], w.idx[1], val)
                for v, d in reversed(w.vd):
                    t = mk_sum(v, tuple(cur(x) if isinstance(x, Poly) else x for x in d), t)
                got = got + t
        got = cur(got)
        want = fine * SUM(c("num_states"), lambda s: SUM(c("num_nodes"), lambda n: A("tup", el(c("soln"), s), n, A("made", "V_GetCmp", (n + s * c("num_nodes") + 1 if IX is forms[0] else n * S_ + s + 1,)))))
        if got == ZERO:
            R.undecided("evaluate", "PGE_evaluate: values not stored here")
        else:
            same(R, "evaluate", F, "values", got, want, "solution by state and node")
        names = [e.name for e in F.K.events]
        steps = ("PGEC_update", "PGE_setPGCoefs", "JacobiIter")
        if all(names.count(x) == 1 for x in steps):
            ix = [names.index(x) for x in steps]
            R.check("evaluate", ix == sorted(ix), "PGE_evaluate:order", "%s:%d (PGE_evaluate): sizes, equations and solution are not in this order" % (F.f.file, F.f.line))
            va = F.events("V_SetAllCmp")
            if va:
                R.check("evaluate", names.index("V_SetAllCmp") < names.index("JacobiIter"), "PGE_evaluate:start", "%s:%d (PGE_evaluate): the start values are set after solving" % (F.f.file, F.f.line))
        unreached(R, "evaluate", F, "PGEC_allocMemory", "PGEC_update", what="the arrays do not follow the size of the graph")
        for nm in ("Q_Constr", "V_Constr"):
            for e in F.events(nm):
                same(R, "evaluate", F, nm, cur(e.args[2]), c("num_vars"), "size of the equations", ins=None)
    F = get(Pg, R, "evaluate", "PGEC_allocMemory")
    if F:
        cx, pg = F.arg(0), F.arg(1)
        N = f(pg, "num_nodes")
        for x, w in (("num_states", [S_, f(pg, "num_states")]), ("num_nodes", N), ("num_obs", f(pg, "num_obs")), ("num_vars", [N * S_, N * f(pg, "num_states")])):
            same(R, "evaluate", F, x, F.field(cx, CX + x), w, x)
    F = get(Pg, R, "evaluate", "PGEC_update")
    if F:
        cx, pg = F.arg(0), F.arg(1)
        eqs = [eq0(f(pg, x) - fld(cx, CX + x)) for x in ("num_states", "num_nodes", "num_obs")]
        need = ONE - eqs[0] * eqs[1] * eqs[2]
        same(R, "evaluate", F, "resize", F.esum("PGEC_allocMemory"), [need * tok("PGEC_allocMemory", cx, pg), (ONE - eqs[0] * eqs[1]) * tok("PGEC_allocMemory", cx, pg), tok("PGEC_allocMemory", cx, pg)], "arrays follow the size of the graph")
    F = get(Pg, R, "best", "PGEC_val")
    if F:
        cx, b, bn = (F.arg(k) for k in range(3))
        c = lambda x: fld(cx, CX + x)
        val = lambda n: SUM(c("num_states"), lambda s: el(b, s) * el(el(c("soln"), s), n))
        D = rng(0, c("num_nodes"))
        same(R, "best", F, "value", F.ret, FOLD(D, -A("HUGE"), lambda n, st: MAX_(val(n), st)), "largest expected value")
        got = F.K.final(("mem",), bn, ZERO)
        same(R, "best", F, "node", got, best_node(D, val), "node of the largest value")


def best_node(D, val):
    """the first index at which the largest value is attained, -1 for an empty range"""
    v, w, u = fresh(D), fresh(D), fresh(D)
    top = ONE - mk_any(w, D, lt0(val(v) - val(w), "f"))
    any_ = mk_any(u, D, ONE)
    return any_ * mk_fi(v, D, top, v) - (ONE - any_)


def read_rule(Pg, R, F, inv, noinf):
    fl, ver = F.arg(0), F.arg(1)
    r = "read"
    sc = [e for e in F.K.events if "scanf" in e.name]
    conv = []
    for e in sc:
        t = e.args[1].atom()
        conv.append(t[1] if t and t[0] == "str" else None)
    if not all(isinstance(x, str) for x in conv) or len(sc) != 3:
        R.undecided(r, "LPG_scanf: conversions not resolved (%s)" % conv)
        return
    kinds = [x.strip().lstrip("%").lstrip("0123456789")[:1] for x in conv]
    R.check(r, kinds[:2] == ["d", "d"] and kinds[2] == "s", "LPG_scanf:conversions", "%s:%d (LPG_scanf): id, action and next nodes are read with %s" % (F.f.file, F.f.line, conv))
    # all conversions succeed and the action is in range
    R.check(r, len(sc[2].vd) == len(sc[1].vd) + 1, "LPG_scanf:perobs", "%s:%d (LPG_scanf): next nodes are not read once per observation" % (F.f.file, F.f.line))
    if len(sc[2].vd) == len(sc[1].vd) + 1:
        v, d = sc[2].vd[-1]
        if d[0] == "rng":
            same(R, r, F, "count", d[2] - d[1], O_, "next nodes per line")
    ids, acts = sc[0].args[2], sc[1].args[2]
    isout = lambda x, loc: ALIST[x][0] == "out" and "scanf" in str(ALIST[x][1]) and loc in ALIST[x][2]

    def good(p):
        """everything is read and in range"""
        def one(t):
            s = str(P(A(*t)))
            q = t[1]
            if t[0] == "eq0" and "scanf" in s and any(ALIST[i][0] == "ev" and "scanf" in str(ALIST[i][1]) for a in q.atoms() for i in [a]):
                c = q.m.get((), 0)
                return ONE if abs(c) == 1 and c != 1 or c == -1 else ZERO
            if t[0] == "lt0" and any(isout(i, acts) for a in q.atoms() for i in [a]):
                return ONE if any(ALIST[i] == A_.atom() for a in q.atoms() for i in [a]) else ZERO
            return P(A(*t))
        return rewrite(p, "goodread", lambda t: t[0] in ("eq0", "lt0"), one)
    for e in F.events("LPG_addNode"):
        seen = [ALIST[i] for a in e.guard.atoms() for i in poly._all_ids(a) if ALIST[i][0] in ("lt0", "le0", "eq0") and any(isout(j, acts) for b in ALIST[i][1].atoms() for j in [b])]
        lo = hi = None
        for t in seen:
            x = t[1]
            c = x.m.get((), 0)
            up = any(ALIST[i] == A_.atom() for i in x.atoms())
            sg = [v for k, v in x.m.items() if k and isout(k[0][0], acts)]
            if t[0] == "eq0" or len(sg) != 1 or abs(sg[0]) != 1:
                continue
            # sg*action + c (- sg*gNumActions) < 0
            b = (-1 if t[0] == "lt0" else 0) - c          # sg*(action - n) <= b
            first_bad = (b + 1) if sg[0] > 0 else -b       # action < n + first_bad, the negation for sg < 0 begins at -b
            if up:
                hi = first_bad
            else:
                lo = first_bad
        if lo is not None:
            R.check(r, lo == 0, "LPG_scanf:low", "%s:%d (LPG_scanf): the smallest action accepted is %s" % (F.f.file, F.f.line, lo))
        if hi is not None:
            R.check(r, hi == 0, "LPG_scanf:high", "%s:%d (LPG_scanf): the first action refused is the number of actions + %s" % (F.f.file, F.f.line, hi))
        if lo is None and hi is None and not any(isout(i, acts) for a in e.guard.atoms() for i in poly._all_ids(a)):
            R.bad(r, "LPG_scanf:range", "%s:%d (LPG_scanf): the action read is used without a range check" % (F.f.file, F.f.line))
    got = ZERO
    buf = None
    for w in F.K.log:
        if w.kind == "set" and w.region == ("mem",):
            buf = w.idx[0]
            gd = good(w.guard)
            got = got + gd * A("tok", "neighbor", (good(w.val),))
    if buf is None:
        R.undecided(r, "LPG_scanf: next nodes not stored")
        return
    text = sc[2].args[2]
    sx = lambda c: eq0(call("strcmp", text, A("str", c)))
    t = lambda x: A("tok", "neighbor", (P(x),))
    isX, isD = sx("X"), sx("-")
    num = call("atoi", text)
    want = isX * t(inv) + (ONE - isX) * (isD * t(noinf) + (ONE - isD) * t(num))
    want2 = isD * t(noinf) + (ONE - isD) * (isX * t(inv) + (ONE - isX) * t(num))
    same(R, r, F, "marks", got, [want, want2], "X, - and numbers of next nodes")
    ad = F.events("LPG_addNode")
    if len(ad) == 1:
        e = ad[0]
        for k, loc, x in ((1, ids, "id"), (2, acts, "action")):
            q = e.args[k].atom()
            R.check(r, bool(q) and q[0] == "out" and loc in q[2], "LPG_scanf:" + x, "%s:%d (LPG_scanf): the %s of a node is not the one read for it: %s" % (F.f.file, F.f.line, x, str(e.args[k])[:200]))
        same(R, r, F, "nodes", e.args[3], buf, "next nodes of a node")
    else:
        R.undecided(r, "LPG_scanf: nodes are not added in one place")
