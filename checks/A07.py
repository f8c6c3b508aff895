"""The linear programs: their construction, how they reach the solver and how the answer comes back."""
from fractions import Fraction
from spec import *
import core
from rint import replay, Unable
from lists import Differs, Read, trial

TITLE = "the linear programs are the ones specified, and the solver gets them and its answer comes back unchanged"
LP = "LpStruct."
LR = "_lprec."
PTRS = ("matbeg", "matcnt", "matind", "matval", "rhs", "sense", "obj", "lowbnd", "upbnd", "x")
E, L, G = 69, 76, 71
MAXIMIZE = -1
BUILD = ("setUpObjectiveFunction", "setUpRegionConstraintsNew", "setUpRegionConstraintsOld", "addExtraVarColumn", "countNonZeroesAlpha", "countNonZeroesList", "countNonZeroesDiff",
         "setUpTwoPassLpObjective", "setUpTwoPassLpConstraints", "numTwoPassLpNonZeroes")


def vectors(W, n, k):
    """a list of k vectors with n components"""
    lst, prev = W.new(), None
    nodes = []
    for _ in range(k):
        x = W.new()
        vals = [W.r.choice((0, 0, 1, -1, 2, -2, Fraction(1, 2), 3)) for _ in range(n)]
        W.put(LT + "alpha", x, W.array(vals))
        nodes.append((x, vals))
        if prev is None:
            W.put(LT + "head", lst, x)
        else:
            W.put(LT + "next", prev, x)
        prev = x
    if prev is not None:
        W.put(LT + "next", prev, 0)
    else:
        W.put(LT + "head", lst, 0)
    W.put(LT + "tail", lst, prev or 0)
    W.put(LT + "length", lst, k)
    return lst, nodes


def built(F, W, env):
    """memory after the function made a linear program: the reader, the program and the sizes it was made with"""
    M = W.model()
    ev = F.events("LP_newLP")
    if len(ev) != 1 or ev[0].vd or ev[0].res is None:
        raise Unable("one call of LP_newLP expected")
    lp = M.ev(ev[0].res, env)
    # the sizes asked for are in the structure LP_newLP returns (rule `new`)
    size = [M.ev(a, env) for a in ev[0].args]
    for f, v in zip(("rows", "cols", "matspace"), size):
        W.put(LP + f, lp, v)
    for f in PTRS:
        W.put(LP + f, lp, W.new())
    W.put(LP + "objsen", lp, MAXIMIZE)
    mem, unknown = replay(F.K.log, M, env)
    if any(e.region == ("any",) for e in unknown):
        raise Unable("unknown effects")
    if M.ev(F.ret, env) != lp:
        raise Unable("the result is not the new linear program")
    return Read(W, M, mem), lp, size


def dense(rd, lp, rows, cols, space):
    """coefficients of the matrix stored by columns"""
    ptr = {f: rd(LP + f, lp) for f in PTRS}
    m, used = {}, set()
    for c in range(cols):
        b, k = rd(("mem",), ptr["matbeg"], c), rd(("mem",), ptr["matcnt"], c)
        if not (isinstance(b, int) and isinstance(k, int)) or k < 0 or b < 0 or b + k > space:
            raise Differs("column %d takes the positions %s..%s of %d" % (c, b, b + k - 1, space))
        for p in range(b, b + k):
            if p in used:
                raise Differs("position %d belongs to two columns" % p)
            used.add(p)
            r, v = rd(("mem",), ptr["matind"], p), rd(("mem",), ptr["matval"], p)
            if not 0 <= r < rows:
                raise Differs("row %s of %d in column %d" % (r, rows, c))
            if (r, c) in m:
                raise Differs("row %d twice in column %d" % (r, c))
            m[r, c] = v
    return m


def compare(rd, lp, size, want):
    rows, cols, space = size
    if (rows, cols) != want["size"]:
        raise Differs("%d rows and %d columns, expected %d and %d" % (rows, cols, *want["size"]))
    if space <= 0:
        raise Differs("no room for the coefficients")
    m = dense(rd, lp, rows, cols, space)
    for r in range(rows):
        for c in range(cols):
            x, y = m.get((r, c), 0), want["m"].get((r, c), 0)
            if x != y:
                raise Differs("coefficient of variable %d in constraint %d is %s, expected %s" % (c, r, x, y))
    sign = {MAXIMIZE: 1, -MAXIMIZE: -1}.get(rd(LP + "objsen", lp))
    if sign is None:
        raise Differs("direction of the objective is %s" % rd(LP + "objsen", lp))
    for f, n, w in (("obj", cols, [sign * x for x in want["obj"]]), ("lowbnd", cols, want["low"]), ("upbnd", cols, want["up"]), ("rhs", rows, want["rhs"]), ("sense", rows, want["sense"])):
        p = rd(LP + f, lp)
        for i in range(n):
            x = rd(("mem",), p, i)
            y = w[i]
            if (x < 10 ** 20 if y is None else x != y):
                raise Differs("%s of %s %d is %s, expected %s (written at %s)" % (f, "variable" if n is cols else "constraint", i, x if f != "sense" else chr(x), "infinite" if y is None else y if f != "sense" else chr(y), rd.where(("mem",), p, i)))


def run(Pg, R):
    R.rule("region", "the linear program of a vector and a list has the states, delta and the two halves of the value as variables; constraints: probabilities sum to one, the value of the vector is the value variable, every vector of the list plus delta is at most the value; delta is maximised; coefficients below the precision are left out", 1)
    R.rule("twopass", "the two-pass linear program has the states as variables, bounded by 0 and 1; constraints: probabilities sum to one, and for every observation each other projected vector is at most the one the vector was made of; the objective is what the neighbor adds to the vector", 1)
    R.rule("new", "a new linear program has the sizes asked for and arrays of these sizes", 1)
    R.rule("load", "the solver's structure holds exactly the linear program: objective (negated to maximise), coefficients, right-hand sides (negated for >=), equality constraints and bounds", 1)
    R.rule("answer", "objective value and values of the variables are the solver's, with the sign of the objective put back", 1)
    R.rule("status", "only a solver result 'optimal' counts as solved, all others as infeasible", 1)
    R.rule("point", "a vector has a region when the list is empty (any corner is the witness), or the linear program is solved and both objective and delta reach epsilon; the witness is the solution and the difference the objective value", 1)
    R.rule("neighbor", "a neighbor is useful when its linear program is solved", 1)
    R.rule("release", "every linear program made is released once", 1)
    V = core.view(*BUILD)

    F = get(V, R, "region", "setUpRegionLP")
    if F:
        def one(W):
            n, k = W.r.randint(1, 3), W.r.randint(1, 3)
            eps = W.r.choice((Fraction(1, 100), Fraction(3, 4)))
            W.g("gNumStates", n)
            lst, nodes = vectors(W, n, k)
            al = [W.r.choice((0, 1, -1, 2, Fraction(1, 2), -2)) for _ in range(n)]
            env = {aid(F.arg(0).atom()): W.array(al), aid(F.arg(1).atom()): lst, aid(F.arg(2).atom()): eps}
            rd, lp, size = built(F, W, env)
            m = {}
            for s in range(n):
                m[0, s] = 1
                m[1, s] = al[s] if abs(al[s]) > eps else 0
                for r, (_, v) in enumerate(nodes):
                    m[r + 2, s] = v[s] if abs(v[s]) > eps else 0
            for r in range(k):
                m[r + 2, n] = 1
            for r in range(1, k + 2):
                m[r, n + 1], m[r, n + 2] = -1, 1
            # the value is the difference of the last two variables, either way round
            if size[0] > 1 and size[1] == n + 3 and dense(rd, lp, *size).get((1, n + 1)) == 1:
                for r in range(1, k + 2):
                    m[r, n + 1], m[r, n + 2] = 1, -1
            compare(rd, lp, size, {"size": (k + 2, n + 3), "m": m, "obj": [0] * n + [1, 0, 0], "low": [0] * (n + 3), "up": [1] * n + [None] * 3,
                                   "rhs": [1] + [0] * (k + 1), "sense": [E, E] + [L] * k})
        trial(R, "region", F, "lp", "region linear program", one)

    F = get(V, R, "twopass", "setUpTwoPassLp")
    if F:
        def one(W):
            n, o = W.r.randint(1, 3), W.r.randint(1, 2)
            eps = W.r.choice((Fraction(1, 100), Fraction(3, 4)))
            W.g("gNumStates", n)
            W.g("gNumObservations", o)
            ls = [vectors(W, n, W.r.randint(1, 3)) for _ in range(o)]
            src = [W.r.choice(nodes) for _, nodes in ls]
            old, nb = W.new(), W.new()
            a0, a1 = ([W.r.choice((0, 1, -1, 2)) for _ in range(n)] for _ in range(2))
            W.put(LT + "alpha", old, W.array(a0))
            W.put(LT + "obs_source", old, W.array([x for x, _ in src]))
            W.put(LT + "alpha", nb, W.array(a1))
            W.put(LT + "prev_source", nb, old)
            env = {aid(F.arg(0).atom()): nb, aid(F.arg(1).atom()): W.array([l for l, _ in ls]), aid(F.arg(2).atom()): eps}
            rd, lp, size = built(F, W, env)
            m, r = {}, 1
            for s in range(n):
                m[0, s] = 1
            for (l, nodes), (x0, v0) in zip(ls, src):
                for x, v in nodes:
                    if x == x0:
                        continue
                    for s in range(n):
                        m[r, s] = v[s] - v0[s] if abs(v[s] - v0[s]) > eps else 0
                    r += 1
            compare(rd, lp, size, {"size": (r, n), "m": m, "obj": [y - x for x, y in zip(a0, a1)], "low": [0] * n, "up": [1] * n, "rhs": [1] + [0] * (r - 1), "sense": [E] + [L] * (r - 1)})
        trial(R, "twopass", F, "lp", "two-pass linear program", one)

    F = get(Pg, R, "load", "LP_loadLpSolveLP")
    if F:
        def one(W):
            rows, cols = W.r.randint(1, 3), W.r.randint(1, 3)
            lp = W.new()
            m, beg, cnt, ind, val = {}, [], [], [], []
            for c in range(cols):
                rs = W.r.sample(range(rows), W.r.randint(0, rows))
                beg.append(len(ind))
                cnt.append(len(rs))
                for r in rs:
                    ind.append(r)
                    val.append(W.r.choice((1, -1, 2, 3, -4)))
                    m[r, c] = val[-1]
            sense = [W.r.choice((E, L, G)) for _ in range(rows)]
            rhs = [W.r.choice((0, 1, -2)) for _ in range(rows)]
            obj = [W.r.choice((0, 1, -1, 5)) for _ in range(cols)]
            low, up = [W.r.choice((0, 1)) for _ in range(cols)], [W.r.choice((2, 3)) for _ in range(cols)]
            mx = W.r.choice((1, -1))
            for f, v in (("rows", rows), ("cols", cols), ("matspace", len(ind)), ("objsen", mx)):
                W.put(LP + f, lp, v)
            for f, v in (("matbeg", beg), ("matcnt", cnt), ("matind", ind), ("matval", val), ("rhs", rhs), ("sense", sense), ("obj", obj), ("lowbnd", low), ("upbnd", up)):
                W.put(LP + f, lp, W.array(v))
            env = {aid(F.arg(0).atom()): lp}
            M = W.model()
            ev = F.events("LP_make_lp")
            if len(ev) != 1 or ev[0].vd or ev[0].res is None:
                raise Unable("one call of LP_make_lp expected")
            q = M.ev(ev[0].res, env)
            size = [M.ev(a, env) for a in ev[0].args]
            if size[:2] != [rows, cols] or size[2] < len(ind) + cols:
                raise Differs("solver structure made for %s rows, columns and coefficients, needed %s" % (size, [rows, cols, len(ind) + cols]))
            P = {}
            for f in ("mat", "col_end", "orig_upbo", "orig_lowbo", "orig_rh"):
                P[f] = W.put(LR + f, q, W.new())
            mem, unknown = replay(F.K.log, M, env)
            if any(e.region == ("any",) for e in unknown):
                raise Unable("unknown effects")
            if M.ev(F.ret, env) != q:
                raise Unable("the result is not the new structure")
            for (reg, ix), x in list(mem.items()):
                if reg[0] == "fd" and reg[1].startswith("_matrec.") and ix[0] in M.parts:
                    mem[reg, M.parts[ix[0]]] = x
            rd = Read(W, M, mem)
            for i, w in enumerate([0]):
                if w is not None and rd(("mem",), P["col_end"], i) != w:
                    raise Differs("start of the first column is %s" % rd(("mem",), P["col_end"], i))
            for c in range(cols):
                got = {}
                for p in range(rd(("mem",), P["col_end"], c), rd(("mem",), P["col_end"], c + 1)):
                    r, v = (rd("_matrec." + f, P["mat"], p) for f in ("row_nr", "value"))
                    if r in got:
                        raise Differs("row %s twice in column %d" % (r, c))
                    got[r] = v
                want = {0: mx * obj[c]}
                want.update({r + 1: v * (-1 if sense[r] == G else 1) for (r, cc), v in m.items() if cc == c})
                for r in sorted(set(got) | set(want)):
                    if got.get(r, 0) != want.get(r, 0):
                        raise Differs("coefficient of variable %d in row %d is %s, expected %s" % (c, r, got.get(r, 0), want.get(r, 0)))
                for f, w in (("orig_upbo", up), ("orig_lowbo", low)):
                    if rd(("mem",), P[f], rows + c + 1) != w[c]:
                        raise Differs("%s of variable %d is %s, expected %s" % (f, c, rd(("mem",), P[f], rows + c + 1), w[c]))
            for r in range(rows):
                x = rd(("mem",), P["orig_rh"], r + 1)
                if x != (-rhs[r] if sense[r] == G else rhs[r]):
                    raise Differs("right-hand side of constraint %d (%s) is %s for %s" % (r, chr(sense[r]), x, rhs[r]))
                x = rd(("mem",), P["orig_upbo"], r + 1, need=False)
                if sense[r] == E and x != 0 or sense[r] != E and x is not None and x < 10 ** 20:
                    raise Differs("range of constraint %d (%s) is %s" % (r, chr(sense[r]), x))
                x = rd(("mem",), P["orig_lowbo"], r + 1, need=False)
                if x not in (None, 0):
                    raise Differs("lower bound of constraint %d is %s" % (r, x))
        trial(R, "load", F, "lp", "structure for the solver", one, 120)

    F = get(Pg, R, "load", "LP_loadLP")
    if F:
        same(R, "load", F, "call", F.esum("LP_loadLpSolveLP"), tok("LP_loadLpSolveLP", F.arg(0)), "conversion for the solver")
        v = F.field(F.arg(0), LP + "lp")
        m = F.maker(v)
        if m and m[0].name == "LP_loadLpSolveLP":
            R.hold("load")
        elif has_unknown(v):
            R.undecided("load", "LP_loadLP: %s" % v)
        else:
            R.bad("load", "LP_loadLP:lp", "%s:%d (LP_loadLP): the structure kept for the solver is %s" % (F.f.file, F.f.line, v))

    F = get(Pg, R, "answer", "LP_extractLpSolveSolution")
    if F:
        lp = F.arg(0)
        best = rd(("fd", LR + "best_solution"), rd(("fd", LP + "lp"), lp))
        mx = eq0(fld(lp, LP + "objsen") - MAXIMIZE)
        same(R, "answer", F, "objval", F.field(lp, LP + "objval"), el(best, ZERO) * (ONE - 2 * mx), "objective value")
        x = fld(lp, LP + "x")
        i = fresh(rng(0, fld(lp, LP + "cols")))
        nz = ONE - eq0(x)
        same(R, "answer", F, "x", nz * F.at(x, i, nz), nz * el(best, fld(lp, LP + "rows") + i + 1), "values of the variables")

    F = get(Pg, R, "answer", "LP_getSolution")
    if F:
        same(R, "answer", F, "call", F.esum("LP_extractLpSolveSolution"), tok("LP_extractLpSolveSolution", F.arg(0)), "solution is taken over")

    F = get(Pg, R, "status", "LP_optimizeLP")
    if F:
        sv = F.events("solve")
        lp = rd(("fd", LP + "lp"), F.arg(0))
        same(R, "status", F, "call", F.esum("solve"), tok("solve", lp), "the solver runs once on the loaded program")
        if sv and all(e.res is not None and not e.vd for e in sv):
            same(R, "status", F, "stat", F.field(F.arg(0), LP + "lpstat"), sum((e.guard * e.res for e in sv), ZERO), "status kept")

    V2 = core.view("LP_optimizeLP", "LP_getSolution", "LP_loadLP", "LP_unloadLP", "LP_extractLpSolveSolution", "LP_unloadLpSolveLP")
    F = get(V2, R, "status", "LP_solveLP")
    if F:
        lp = F.arg(0)
        sv = F.events("solve")
        ld = F.events("LP_loadLpSolveLP")
        if len(ld) == 1 and not ld[0].vd and sv and all(e.res is not None and not e.vd for e in sv):
            new = ld[0].res
            ok = sum((e.guard * eq0(e.res) for e in sv), ZERO)
            same(R, "status", F, "solve", F.esum("solve"), tok("solve", new), "the loaded program is solved")
            same(R, "load", F, "once", F.esum("LP_loadLpSolveLP"), tok("LP_loadLpSolveLP", lp), "the program is loaded once")
            same(R, "release", F, "delete", F.esum("delete_lp"), tok("delete_lp", new), "the solver's structure is released once")
            same(R, "release", F, "gone", F.field(lp, LP + "lp"), ZERO, "no structure stays loaded")
            same(R, "status", F, "ret", F.ret, ONE - ok, "result: 0 when solved, 1 otherwise")
            if len({e.args for e in sv}) == 1 and sum((e.guard for e in sv), ZERO) == ONE:
                best = rd(("fd", LR + "best_solution"), new)
                after = lambda i: A("out", "solve", (new,), ("mem",), (best, i))
                same(R, "answer", F, "objval", F.field(lp, LP + "objval"), after(ZERO) * (ONE - 2 * eq0(fld(lp, LP + "objsen") - MAXIMIZE)), "objective value after solving")
                x = fld(lp, LP + "x")
                i = fresh(rng(0, fld(lp, LP + "cols")))
                nz = ONE - eq0(x)
                same(R, "answer", F, "x", nz * F.at(x, i, nz), nz * after(fld(lp, LP + "rows") + i + 1), "values of the variables after solving")
        elif not unreached(R, "status", F, "solve", what="the program is never given to the solver"):
            if not ld and sv and all(e.args[0] == rd(("fd", LP + "lp"), lp) for e in sv):
                unreached(R, "load", F, "LP_loadLpSolveLP", what="the solver gets what was left there before, not this program")
            R.undecided("status", "LP_solveLP: calls of the solver not found")

    F = get(Pg, R, "new", "LP_newLP")
    if F:
        rows, cols, nz = (F.arg(k) for k in range(3))
        lp = F.ret
        for f, w in (("rows", rows), ("cols", cols), ("matspace", nz), ("objsen", P(MAXIMIZE)), ("lp", ZERO)):
            same(R, "new", F, f, F.field(lp, LP + f), w, "field %s" % f)
        sz = {"lowbnd": 8 * cols, "upbnd": 8 * cols, "matbeg": 4 * cols, "matcnt": 4 * cols, "matind": 4 * nz, "matval": 8 * nz, "rhs": 8 * rows, "sense": rows, "obj": 8 * cols, "x": 8 * cols}
        al = {}
        for e in F.events("XA_malloc", "XA_calloc", "malloc", "calloc"):
            if e.res is not None:
                al[e.res] = e.args[0] if "malloc" in e.name else e.args[0] * e.args[1]
        for f, w in sz.items():
            p = F.field(lp, LP + f)
            got = al.get(p)
            if got is None:
                R.undecided("new", "LP_newLP: %s is %s" % (f, p))
            else:
                same(R, "new", F, f + " size", got, w, "size of %s" % f)

    F = get(Pg, R, "point", "findRegionPoint")
    if F:
        al, lst, wit, diff, par = (F.arg(k) for k in range(5))
        PS = "PomdpSolveParamsStruct."
        empty = eq0(fld(lst, LT + "length"))
        mk, sv = F.events("setUpRegionLP"), F.events("LP_solveLP")
        prm = [t for e in mk for t in [e.args[2].atom()] if t]
        if len(mk) == 1 and len(sv) == 1 and not sv[0].vd and prm and prm[0][0] == "rd":
            PS = prm[0][1][1].rsplit(".", 1)[0] + "."
            lp, st = mk[0].res, sv[0].res
            same(R, "point", F, "lp", F.esum("setUpRegionLP"), (ONE - empty) * tok("setUpRegionLP", al, lst, fld(par, PS + "sparse_epsilon")), "linear program of the vector and the list")
            same(R, "point", F, "solve", F.esum("LP_solveLP"), (ONE - empty) * tok("LP_solveLP", lp, fld(par, PS + "stat")), "the linear program is solved")
            sa = (lp, fld(par, PS + "stat"))
            objval = A("out", "LP_solveLP", sa, ("fd", LP + "objval"), (lp,))
            x = fld(lp, LP + "x")
            xi = lambda i: A("out", "LP_solveLP", sa, ("mem",), (x, i))
            eps = fld(par, PS + "epsilon")
            solved = eq0(st)
            good = (ONE - empty) * solved * (ONE - lt0(objval - eps, "f")) * (ONE - lt0(xi(S_) - eps, "f"))
            same(R, "point", F, "ret", F.ret, empty + good, "a region exists")
            hd = ONE - eq0(diff)
            same(R, "point", F, "diff", hd * (empty + good) * F.K.final(("mem",), diff, ZERO, guard=hd * (empty + good)), hd * (empty * A("HUGE") + good * objval), "difference returned")
            hw = ONE - eq0(wit)
            i = fresh(rng(0, S_))
            same(R, "point", F, "witness", hw * (empty + good) * F.at(wit, i, hw * (empty + good)), hw * (empty * eq0(i) + good * xi(i)), "witness point returned")
            known = eq0(st) + eq0(st - 1) + eq0(st - 2)
            same(R, "release", F, "free", known * F.esum("LP_freeLP"), known * (ONE - empty) * tok("LP_freeLP", lp), "the linear program is released once")
        else:
            R.undecided("point", "findRegionPoint: linear program not found")

    F = get(Pg, R, "neighbor", "feasibleTwoPassLp")
    if F:
        mk, sv = F.events("setUpTwoPassLp"), F.events("LP_solveLP")
        if len(mk) == 1 and len(sv) == 1 and not sv[0].vd and mk[0].res is not None:
            lp = mk[0].res
            t = mk[0].args[2].atom()
            same(R, "neighbor", F, "ret", F.ret, eq0(sv[0].res), "useful neighbor")
            if t and t[0] == "rd" and t[1][0] == "fd":
                PS = t[1][1].rsplit(".", 1)[0] + "."
                same(R, "neighbor", F, "lp", F.esum("setUpTwoPassLp"), tok("setUpTwoPassLp", F.arg(0), F.arg(1), fld(F.arg(2), PS + "sparse_epsilon")), "linear program of the neighbor")
                same(R, "neighbor", F, "solve", F.esum("LP_solveLP"), tok("LP_solveLP", lp, fld(F.arg(2), PS + "stat")), "the linear program is solved")
            same(R, "release", F, "free", F.esum("LP_freeLP"), tok("LP_freeLP", lp), "the linear program is released once")
        else:
            R.undecided("neighbor", "feasibleTwoPassLp: linear program not found")
