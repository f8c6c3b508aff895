"""Sparse matrices: entering, replacing, accumulating and removing entries; compressing; reading back."""
from spec import *

TITLE = "sparse matrices hold exactly the entries given"
RN = "I_Matrix_Row_Node_Struct."
IM = "I_Matrix_Struct."
MS = "Matrix_Struct."


def run(Pg, R):
    R.rule("row", "entering a value in a sorted row replaces (or adds to) the entry of its column, a new column is put in at its place, a zero removes the entry (or adds nothing); the count of the row follows", 1)
    R.rule("remove", "removing the entry of a column takes exactly that entry out of the row and lowers the count by one; a column without entry changes nothing", 1)
    R.rule("slot", "an entry goes into the row it names, with the count of that row", 1)
    R.rule("make", "a new matrix has the rows asked for, all of them empty", 1)
    R.rule("compress", "the compressed form has the same entries row by row: starts and lengths of the rows, columns and values", 1)
    R.rule("lookup", "an entry read back is the value stored for its row and column, and zero when nothing is stored", 1)
    R.rule("sum", "row sums and entry counts are over exactly the entries of the row or matrix", 1)
    R.rule("convert", "the compressed transition, observation and reward matrices of each action come from the ones read for that action, the rewards after the others", 1)
    R.rule("verify", "a model built by a program is valid exactly when all its transition and observation rows sum to one", 1)
    col = lambda x: fld(x, RN + "column")

    def nodes(F):
        """new row nodes by what they hold"""
        def one(t):
            p = P(A(*t))
            m = F.maker(p)
            if not m:
                return p
            if m[0].name == "newRowNode":
                return A("made", "row", tuple(F.made_args(p)))
            return A("made", "row", (F.field(p, RN + "column"), F.field(p, RN + "value")))
        return lambda p: rewrite(p, ("rownode", F.name), lambda t: t[0] in ("new", "ev") and t[1] in ("newRowNode", "malloc", "calloc"), one)

    def state(F, fd, x, gd):
        """value of a field of the node x at the end, x being any node there was: later writes over earlier ones"""
        v = fld(x, RN + fd)
        for w in F.K.log:
            if w.kind == "set" and w.region == ("fd", RN + fd):
                t = w.idx[0].atom()
                if t and t[0] in ("new", "ev"):
                    continue
                if w.vd:
                    return A("unk", "loop")
                c = w.guard * eq0(w.idx[0] - x)
                v = c * w.val + (ONE - c) * v
            elif w.kind == "havoc" and (w.guard * gd).m:
                return A("unk", "call")
        return gd * v

    FIRST = lambda dom, fn, val: (lambda v: mk_fi(v, dom, fn(v), val(v)))(fresh(dom))

    def cleared(p):
        """memory from calloc is zero"""
        return rewrite(p, "calloc0", lambda t: t[0] == "rd" and t[1] == ("mem",) and (P(t[2][0]).atom() or (0, 0))[:2] == ("new", "calloc"), lambda t: ZERO)

    F = get(Pg, R, "make", "newRowNode")
    if F:
        same(R, "make", F, "column", F.field(F.ret, RN + "column"), F.arg(0), "column of a new entry")
        same(R, "make", F, "value", F.field(F.ret, RN + "value"), F.arg(1), "value of a new entry")
        same(R, "make", F, "next", F.field(F.ret, RN + "next"), ZERO, "a new entry is followed by nothing")

    F = get(Pg, R, "row", "addEntryToRow")
    if F:
        row, c, v, cnt, acc = (F.arg(k) for k in range(5))
        D = LIST(row, RN + "next")
        eps = [t for t in {i for e in F.K.log + F.K.events for a in e.guard.atoms() for i in poly._all_ids(a)} if ALIST[t][0] in ("lt0", "le0")]
        eps = [ALIST[t][1] for t in eps]
        eps = [abs(p.m.get((), 0)) for p in eps if p - p.m.get((), 0) in (v, -v)]
        small = [e for e in eps if 0 < e < 1e-4]
        if not small:
            R.undecided("row", "addEntryToRow: no comparison of the value with a tolerance")
        else:
            e = P(min(small))
            # inside the open interval, as IS_ZERO has it
            zero = lt0(v - e, "f") * lt0(-v - e, "f")
            nz = ONE - zero
            N = A("made", "row", (c, v))
            fix = nodes(F)
            has = SOME(D, lambda x: eq0(col(x) - c))
            x = fresh(D)

            def at(fd, p, gd):
                return fix(state(F, fd, p, gd))
            same(R, "row", F, "value", at("value", x, nz), nz * (fld(x, RN + "value") * (ONE - eq0(col(x) - c)) + eq0(col(x) - c) * (v + (ONE - eq0(acc)) * fld(x, RN + "value"))), "values of the row after an entry is made")
            nx = fld(x, RN + "next")
            between = LT0(col(x) - c) * (eq0(nx) + (ONE - eq0(nx)) * LT0(c - col(nx)))
            same(R, "row", F, "link", at("next", x, nz), nz * (between * N + (ONE - between) * nx), "a new column is linked in between the smaller and the larger ones")
            front = eq0(row) + (ONE - eq0(row)) * LT0(c - col(row))
            same(R, "row", F, "head", fix(nz * F.ret), nz * (front * N + (ONE - front) * row), "first entry of the row")
            same(R, "row", F, "count", fix(nz * F.K.final(("mem",), cnt, ZERO, guard=nz)), nz * (el(cnt, ZERO) + ONE - has), "count of the row")
            after = SUM(D, lambda y: y * LT0(c - col(y)) * (ONE - SOME(("pre", row, RN + "next", y), lambda w: LT0(c - col(w)))))
            for q in F.events("newRowNode", "malloc"):
                if q.res is None or q.vd:
                    continue
                same(R, "row", F, "next", fix(q.guard * F.K.final(("fd", RN + "next"), q.res, guard=q.guard)), fix(q.guard * after), "the new entry is followed by the first larger column", ins=None)
                same(R, "row", F, "new", fix(q.guard * zero), ZERO, "no entry is made for a zero")
                same(R, "row", F, "dup", fix(q.guard * has), ZERO, "no second entry is made for a column")
            rm = F.events("removeRowNode")
            if rm:
                same(R, "row", F, "zero", F.esum("removeRowNode"), zero * eq0(acc) * tok("removeRowNode", row, c, cnt), "a zero removes the entry of its column, unless it is added")
                ra = [q for q in rm if q.res is not None]
                if len(ra) == 1:
                    same(R, "row", F, "zerohead", zero * F.ret, zero * ((ONE - eq0(acc)) * row + eq0(acc) * ra[0].res), "row after a zero was entered")

    F = get(Pg, R, "remove", "removeRowNode")
    if F:
        row, c, cnt = (F.arg(k) for k in range(3))
        D = LIST(row, RN + "next")
        has = SOME(D, lambda x: eq0(col(x) - c))
        nn = ONE - eq0(row)
        first = nn * eq0(col(row) - c)
        same(R, "remove", F, "head", F.ret, first * fld(row, RN + "next") + (ONE - first) * row, "first entry of the row")
        same(R, "remove", F, "count", F.K.final(("mem",), cnt, ZERO), el(cnt, ZERO) - has, "count of the row")
        x = fresh(D)
        nx = fld(x, RN + "next")
        gone = (ONE - eq0(nx)) * eq0(col(nx) - c)
        keep = ONE - eq0(col(x) - c)
        same(R, "remove", F, "link", state(F, "next", x, keep), keep * (gone * fld(nx, RN + "next") + (ONE - gone) * nx), "links of the remaining entries")
        fr = F.esum("free")
        same(R, "remove", F, "free", fr, SUM(D, lambda y: eq0(col(y) - c) * tok("free", y)), "entry released")

    for nm, flag in (("addEntryToIMatrix", 0), ("accumulateEntryInIMatrix", 1)):
        F = get(Pg, R, "slot", nm)
        if F:
            m, r, c, v = (F.arg(k) for k in range(4))
            rows, lens = fld(m, IM + "row"), fld(m, IM + "row_length")
            clean = lambda p: rewrite(p, "rowptr", lambda t: t[0] == "pa", lambda t: A("ea", t[1], t[2]))
            slot = lambda p: rewrite(p, "elptr", lambda t: t[0] == "ea" and len(t) == 3 and isinstance(t[1], tuple), lambda t: A("ea", t[2]))
            ev = F.events("addEntryToRow")
            if len(ev) != 1 or ev[0].vd:
                R.undecided("slot", "%s: not one call of addEntryToRow" % nm)
                continue
            e = ev[0]
            for k, (w, what) in enumerate(((el(rows, r), "row"), (c, "column"), (v, "value"))):
                same(R, "slot", F, "arg%d" % k, e.args[k], w, what + " of the entry")
            t = e.args[3].atom()
            pl = None
            if t and t[0] in ("pa", "ea") and len(t) == 3:
                pl = P(t[1]) if t[0] == "pa" else None
                same(R, "slot", F, "count", A("tup", P(t[1]), P(t[2])), A("tup", lens, r), "count of the row", ins=e.ins if hasattr(e, "ins") else None)
            else:
                R.undecided("slot", "%s: place of the count: %s" % (nm, str(e.args[3])[:200]))
            same(R, "slot", F, "flag", eq0(e.args[4]), ONE - flag, "entries are %s" % ("added" if flag else "replaced"))
            same(R, "slot", F, "store", F.K.final(("mem",), rows, r), e.res, "row after the entry")
            o = fresh(rng(0, fld(m, IM + "num_rows")))
            same(R, "slot", F, "others", (ONE - eq0(o - r)) * F.K.final(("mem",), rows, o), (ONE - eq0(o - r)) * el(rows, o), "other rows")

    F = get(Pg, R, "make", "newIMatrix")
    if F:
        n = F.arg(0)
        same(R, "make", F, "rows", F.field(F.ret, IM + "num_rows"), n, "number of rows")
        for x in ("row", "row_length"):
            q = F.field(F.ret, IM + x)
            same(R, "make", F, x, cleared(F.vec(q, n)), VEC(n, lambda i: ZERO), "initial " + x)
    F = get(Pg, R, "make", "newMatrix")
    if F:
        same(R, "make", F, "rows", F.field(F.ret, MS + "num_rows"), F.arg(0), "number of rows")
        same(R, "make", F, "nonzero", F.field(F.ret, MS + "num_non_zero"), F.arg(1), "number of entries")

    F = get(Pg, R, "compress", "transformIMatrix")
    if F:
        m = F.arg(0)
        nr = fld(m, IM + "num_rows")
        rows, lens = fld(m, IM + "row"), fld(m, IM + "row_length")
        L = lambda i: LIST(el(rows, i), RN + "next")
        ln = lambda i: SUM(L(i), lambda x: ONE)
        mk = F.made_args(F.ret)
        nz = SUM(nr, lambda i: el(lens, i))
        if mk:
            same(R, "compress", F, "rows", mk[0], nr, "number of rows")
            same(R, "compress", F, "nonzero", mk[1], [A("call", "countEntriesInIMatrix", m) if False else call("countEntriesInIMatrix", m), nz, SUM(nr, ln)], "number of entries")
        # the count kept with a row is the number of its entries (rules row, remove)
        cl = lambda p: rewrite(p, "rowlen", lambda t: t[0] == "rd" and t[1] == ("mem",) and P(t[2][0]) == lens, lambda t: ln(t[2][1]))
        i = fresh(rng(0, nr))
        st = fld(F.ret, MS + "row_start")
        for x, w, what in (("row_start", SUM(rng(0, i), ln), "start of a row"), ("row_length", ln(i), "length of a row")):
            same(R, "compress", F, x, cl(F.at(F.field(F.ret, MS + x), i)), w, what)
        x = fresh(L(i))
        pos = SUM(rng(0, i), ln) + SUM(("pre", el(rows, i), RN + "next", x), lambda w: ONE)
        for fd, a, what in (("column", "col", "column"), ("value", "mat_val", "value")):
            arr = F.field(F.ret, MS + a)
            ws = [w for w in F.K.log if w.kind == "set" and w.region == ("mem",) and w.idx[0] == arr]
            if len(ws) == 1 and ws[0].guard == ONE and len(ws[0].vd) == 2:
                w = ws[0]
                got = A("tup", cl(w.idx[1]), w.val)
                for v, d in reversed(w.vd):
                    got = mk_sum(v, d, got)
                same(R, "compress", F, a, got, SUM(nr, lambda i: SUM(L(i), lambda x: A("tup", SUM(rng(0, i), ln) + SUM(("pre", el(rows, i), RN + "next", x), lambda w: ONE), fld(x, RN + fd)))), what + " of each entry")
            else:
                R.undecided("compress", "transformIMatrix: entries of %s are not written in one place" % a)

    F = get(Pg, R, "lookup", "getEntryMatrix")
    if F:
        m, r, c = (F.arg(k) for k in range(3))
        st, ln, cl, va = (el(fld(m, MS + x), r) if x.startswith("row") else fld(m, MS + x) for x in ("row_start", "row_length", "col", "mat_val"))
        D = rng(st, st + ln)
        hit = lambda k: eq0(el(cl, k) - c)
        same(R, "lookup", F, "value", F.ret, [SOME(D, hit) * el(va, FIRST(D, hit, lambda k: k)), ent(m, r, c)], "value of an entry")

    F = get(Pg, R, "sum", "sumIMatrixRowValues")
    if F:
        same(R, "sum", F, "row", F.ret, SUM(LIST(el(fld(F.arg(0), IM + "row"), F.arg(1)), RN + "next"), lambda x: fld(x, RN + "value")), "sum of a row")
    F = get(Pg, R, "sum", "sumRowValues")
    if F:
        m, r = F.arg(0), F.arg(1)
        st, ln = el(fld(m, MS + "row_start"), r), el(fld(m, MS + "row_length"), r)
        same(R, "sum", F, "row", F.ret, [SUM(rng(0, A("ncols", m)), lambda k: ent(m, r, k)), SUM(rng(st, st + ln), lambda k: el(fld(m, MS + "mat_val"), k))], "sum of a row")
    F = get(Pg, R, "sum", "countEntriesInIMatrix")
    if F:
        m = F.arg(0)
        same(R, "sum", F, "count", F.ret, [SUM(fld(m, IM + "num_rows"), lambda i: el(fld(m, IM + "row_length"), i)),
                                           SUM(fld(m, IM + "num_rows"), lambda i: SUM(LIST(el(fld(m, IM + "row"), i), RN + "next"), lambda x: ONE))], "number of entries")

    F = get(Pg, R, "convert", "convertMatrices")
    if F:
        isp = eq0(g("gProblemType") - enum(Pg, "POMDP_problem_type"))
        pt = lambda p, k: when(p, g("gProblemType"), enum(Pg, k + "_problem_type"))
        a = fresh(rng(0, A_))
        cl = lambda p: rewrite(p, ("conv", F.name), lambda t: t[0] == "new" and t[1] == "transformIMatrix", lambda t: A("made", "transformIMatrix", tuple(F.made_args(P(A(*t))) or ())))
        for x, kinds in (("P", ("POMDP", "MDP")), ("R", ("POMDP",))):
            for k in kinds:
                gd = isp if k == "POMDP" else ONE - isp
                same(R, "convert", F, x + k, cl(pt(F.at(pt(final_g(F, x), k), a, gd if k == "POMDP" else None), k)), A("made", "transformIMatrix", (el(g("I" + x), a),)), "matrix %s of an action (%s)" % (x, k))
        same(R, "convert", F, "Q", cl(final_g(F, "Q")), A("made", "transformIMatrix", (g("IQ"),)), "reward matrix")
        ev = F.K.events
        pos = {}
        for k, e in enumerate(ev):
            if e.name == "transformIMatrix":
                for x in ("IP", "IR", "IQ"):
                    if any(ALIST[i][0] == "rd" and ALIST[i][1] == ("g", x) for b in e.args[0].atoms() for i in poly._all_ids(b)):
                        pos[x] = k
            elif e.name == "computeRewards":
                pos["rewards"] = k
                same(R, "convert", F, "rewards", e.guard, ONE, "rewards are computed")
        if "rewards" not in pos and not any(e.name not in ("transformIMatrix", "destroyIMatrix", "free") and any(ALIST[i][0] == "rd" and ALIST[i][1] == ("g", "IQ") for q in e.args for b in q.atoms() for i in poly._all_ids(b)) for e in ev):
            R.bad("convert", "convertMatrices:norewards", "%s: %s: the rewards are never entered into the matrix that is compressed" % (F.f.file, F.name))
        elif len(pos) == 4:
            R.check("convert", pos["IP"] < pos["rewards"] and pos["IR"] < pos["rewards"] < pos["IQ"], "convertMatrices:order",
                    "%s: rewards are computed from matrices that are not ready: %s" % (F.f.file, pos))
        else:
            R.undecided("convert", "convertMatrices: order of the steps not visible")

    F = get(Pg, R, "verify", "verifyIntermediateMDP")
    if F:
        isp = eq0(g("gProblemType") - enum(Pg, "POMDP_problem_type"))
        eps = {abs(abs(ALIST[i][1].m.get((), 0)) - 1) for a in F.ret.atoms() for i in poly._all_ids(a) if ALIST[i][0] in ("lt0", "le0")}
        eps = [e for e in eps if 0 < e < 0.01]
        if eps:
            e = P(min(eps))
            ok = lambda s: (ONE - lt0(s - (1 - e), "f")) * le0(s - (1 + e), "f")
            good = lambda X: ALL(A_, lambda a: ALL(S_, lambda i: ok(call("sumIMatrixRowValues", el(g(X), a), i))))
            same(R, "verify", F, "valid", F.ret, good("IP") * (ONE - isp + isp * good("IR")), "a model is valid")
        else:
            R.undecided("verify", "verifyIntermediateMDP: no tolerance around one")
