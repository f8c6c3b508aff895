"""The pomdp-tools program: what each tool asks for, computes and writes."""
import core, step, kern
from spec import *
from step import in_order, first_ev
from lists import *
from A13 import struct_field, enum_of
from A12 import total

TITLE = "each tool of pomdp-tools needs its inputs and computes what it is documented to"
OP = "PomdpToolsProgOptionsStruct."
LT = "AlphaListType."
BL = "BeliefListStruct."
PG = "PG_Struct."
T_ = "POMDP_TOOLS_OPTS_Tool_"
MAXB = 100


def run(Pg, R):
    R.rule("tool", "each tool runs on its own inputs, and only when they are all given", 1)
    R.rule("values", "the value of a point is the dot product, and its best vectors are those within epsilon of the best", 1)
    R.rule("points", "each point is listed under its best vectors, uniquely or not", 1)
    R.rule("match", "vectors are matched by the smallest maximal component difference, the first such", 1)
    R.rule("files", "files are read, worked on in order, and written to the file named", 1)
    R.rule("shown", "what the reports show is what was computed", 1)
    kern.Kern.leave = True
    try:
        tools(Pg, R)
        values(Pg, R)
        points(Pg, R)
        match(Pg, R)
        compare(Pg, R)
        files(Pg, R)
        beliefs(Pg, R)
        shown(Pg, R)
    finally:
        kern.Kern.leave = False


def cargs(t):
    """arguments of a call in a term"""
    return t[2] if t[0] == "call" else t[4]


def empty(p):
    """tests for an empty text"""
    nil = lambda x: bool(P(x).atom()) and P(x).atom()[:2] == ("str", "")
    p = rewrite(p, "strcmp0", lambda t: t[0] in ("call", "ev") and t[1] in ("strcmp", "strlen") and (t[1] == "strlen" or any(nil(x) for x in cargs(t))),
                lambda t: el(cargs(t)[1] if t[1] != "strlen" and nil(cargs(t)[0]) else cargs(t)[0], 0))
    return p


# ------------------------------------------------------------------ which tool does what

TOOLS = {
    # tool: (needs, calls in order as (function, arguments))
    "compare_alphas": (("#states", "alpha1", "alpha2", "result_filename"), [("UTIL_compareAlphaFiles", ("alpha1", "alpha2", "#epsilon", "result_filename"))]),
    "belief_alpha_compare": (("#states", "alpha1", "alpha2", "belief", "result_filename"), [("UTIL_compareAlphaFilesUsingBeliefs", ("alpha1", "alpha2", "belief", "#epsilon", "result_filename"))]),
    "pg_eval": (("pomdp", "pg1"), [("initializePomdp", ("pomdp",)), ("PGE_main", ("pg1",)), ("cleanUpPomdp", ())]),
    "pg_relink": (("pomdp", "alpha1", "alpha2", "pg1", "result_filename"), [("initializePomdp", ("pomdp",)), ("UTIL_relinkPolicyGraph", ("alpha1", "pg1", "alpha2", "result_filename")), ("cleanUpPomdp", ())]),
    "map_beliefs": (("#states", "belief", "alpha1", "result_filename"), [("UTIL_mapBeliefList", ("belief", "alpha1", "#epsilon", "result_filename"))]),
    "purge_alphas": (("#states", "alpha1", "result_filename"), [("initCommon", ()), ("initGlobal", ()), ("initLpInterface", ("@params",)), ("UTIL_purgeAlphaFile", ("alpha1", "result_filename", "@params"))]),
    "sort_alphas": (("#states", "alpha1", "result_filename"), [("UTIL_sortAlphaFile", ("alpha1", "result_filename"))]),
    "update_beliefs": (("pomdp",), [("initializePomdp", ("pomdp",)), ("UTIL_doBeliefUpdates", ()), ("cleanUpPomdp", ())]),
    "pg_isomorphism": (("#obs", "pg1", "pg2"), []),
}


def tools(Pg, R):
    r = "tool"
    F = live(Pg, R, r, "main_tools")
    if not F:
        return
    o = [e for e in F.events("POMDP_TOOLS_OPTS_create") if e.res]
    q = [e for e in F.events("newPomdpSolveParams") if e.res]
    if len(o) != 1 or len(q) != 1:
        return R.undecided(r, "main_tools: options not recognised")
    opts, prm = o[0].res, q[0].res
    kind = fld(opts, OP + "tool")

    def clean(p):
        """conditions on the options alone: what the model reading leaves is its own"""
        return empty(p)
    def arg(a):
        if a == "@params":
            return prm
        if a[0] == "#":
            return fld(opts, OP + a[1:])
        return call("txt:" + a)

    def text(a):
        n = struct_field(F, a)
        t = P(a).atom()
        if t and t[0] == "ea" and n in TXT:
            return call("txt:" + n)
        return a
    TXT = {x for n, c in TOOLS.values() for x in n if x[0] != "#"}
    texts_ = lambda e, k: tuple(text(a) for a in e.args[:k])

    def none(n):
        if n[0] == "#":
            return lt0(fld(opts, OP + n[1:]) - 1, "i")
        return eq0(call("first:" + n))

    def flat(p):
        """a text option that is not given"""
        p = clean(p)
        return rewrite(p, "none", lambda t: t[0] == "eq0" and emptied(t[1]) is not None, lambda t: eq0(call("first:" + emptied(t[1]))))

    def emptied(x):
        a = P(x).atom()
        if a and a[0] == "rd" and a[1] == ("mem",) and P(a[2][1]) == ZERO:
            n = struct_field(F, a[2][0])
            return n if n in TXT else None
        return None
    poly_none = lambda p: flat(p)

    ks = {}
    for n in TOOLS:
        k = enum_of(Pg, T_ + n)
        if k is None:
            R.undecided(r, "no number for %s" % n)
            return
        ks[n] = k
    sel = lambda n, p: fix(p, kind, ks[n])
    for n, (needs, jobs) in TOOLS.items():
        if ("initializePomdp", ("pomdp",)) not in jobs:
            for gl, x in (("gNumStates", "states"), ("gNumObservations", "obs")):
                same(R, r, F, "%s:%s" % (n, x), sel(n, final_g(F, gl)), fld(opts, OP + x), "tool %s: number of %s is the one given" % (n, x))
        want = ONE
        for x in needs:
            c = none(x)
            want = want * (ONE - (c if x[0] == "#" else eq0(call("first:" + x))))
        for fn, args in jobs:
            got = ZERO
            for e in F.events(fn):
                gd = poly_none(sel(n, e.guard))
                gd = drop_model(gd)
                got = got + tok_cases(fn, texts_(e, len(args)), gd)
            same(R, r, F, "%s:%s" % (n, fn), got, want * tok(fn, *(arg(a) for a in args)), "tool %s: %s with what was given, when all of it is there" % (n, fn))
        # nothing else is done
        names = {f for _, (a, j) in TOOLS.items() for f, _ in j}
        for fn in sorted(names - {f for f, _ in jobs}):
            got = sum((poly_none(sel(n, e.guard)) for e in F.events(fn)), ZERO)
            same(R, r, F, "%s:not-%s" % (n, fn), got, ZERO, "tool %s does not call %s" % (n, fn))
        es = [[e for e in F.events(fn) if poly_none(sel(n, e.guard)).m] for fn, _ in jobs]
        for a, b in zip(es, es[1:]):
            for x in a:
                for y in b:
                    if F.K.events.index(x) > F.K.events.index(y):
                        R.bad(r, "main_tools:%s:order" % n, "%s: tool %s: %s comes before %s" % (x.ins.where(), n, y.name, x.name))
                    else:
                        R.hold(r)
        # what is missing is said, and the exit status tells
        ex = [e for e in F.events("exit")]
        got = ZERO
        for e in ex:
            got = got + drop_model(poly_none(sel(n, e.guard)))
        bad_ = ONE - want if n != "pg_isomorphism" else ONE
        same(R, r, F, "%s:refused" % n, got, bad_, "tool %s: refused when something is missing" % n)
    for e in F.events("exit"):
        c = e.args[0].const()
        if c is not None and e.guard.m:
            R.check(r, c != 0, "main_tools:status", "%s: a refused tool ends with status 0" % e.ins.where())
    got = ZERO
    for e in F.events("exit"):
        p = e.guard
        for n in ks:
            p = subst(p, {aid(eq0(kind - ks[n]).atom()): ZERO})
        got = got + p
    same(R, r, F, "unknown", got, ONE, "an unknown tool is refused")


def fix(p, x, k):
    """p for one value of x"""
    mp = {}
    for a in {i for q in p.atoms() for i in poly._all_ids(q)}:
        t = ALIST[a]
        if t[0] in ("eq0", "lt0", "le0"):
            d = P(t[1]) if isinstance(t[1], Poly) else None
            if d is None:
                continue
            v = subst(d, {aid(x.atom()): P(k)})
            if v != d and v.const() is not None:
                c = v.const()
                mp[a] = ONE if (c == 0 if t[0] == "eq0" else c < 0 if t[0] == "lt0" else c <= 0) else ZERO
    return subst(subst(p, mp), {aid(x.atom()): P(k)})


def drop_model(p):
    """conditions on the model read: taken as a model with a starting point"""
    mp = {}
    for a in p.atoms():
        t = ALIST[a]
        if t[0] == "eq0" and any(ALIST[i][0] == "out" and ALIST[i][1] == "initializePomdp" for i in poly._all_ids(a)):
            mp[a] = ZERO
    return subst(p, mp)


# ------------------------------------------------------------------ values at points

def belief_list(W, n, k):
    """k points of n states"""
    ps = []
    for _ in range(k):
        x = W.new()
        v = [W.r.choice((0, 1, 2, 3)) for _ in range(n)]
        W.put(BL + "b", x, W.array(v))
        ps.append((x, v))
    for (x, _), y in zip(ps, ps[1:] + [(0, None)]):
        W.put(BL + "next", x, y[0])
    return (ps[0][0] if ps else 0), ps


def values(Pg, R):
    r = "values"
    F = get(Pg, R, r, "UTIL_computeAlphaBeliefValues")
    if F:
        def one(W):
            n, k, m = W.r.randint(1, 3), W.r.randint(1, 4), W.r.randint(1, 3)
            W.g("gNumStates", n)
            lst, nodes = new_list(W, n, k)
            bl, pts = belief_list(W, n, m)
            rows, best, ls = [W.new() for _ in pts], W.new(), [W.new() for _ in pts]
            va, la = W.array(rows), W.array(ls)
            eps = W.r.choice((Fraction(1, 4), Fraction(3, 2)))
            for i, w in enumerate(ls):
                for j in range(8):
                    W.put(("mem",), (w, j), 77)
            rd, M_, env, unknown = run_(F, W, lst, bl, va, best, la, eps)
            for i, (p, b) in enumerate(pts):
                top, names = -10 ** 30, []
                for j, x in enumerate(nodes):
                    v = sum(c * y for c, y in zip(b, vals(W, x)))
                    if rd(("mem",), rows[i], j) != v:
                        raise Differs("value of point %s at vector %s is %s, should be %s" % (b, vals(W, x), rd(("mem",), rows[i], j), v))
                    if v >= top + eps:
                        top, names = v, [x]
                    elif abs(v - top) < eps:
                        names.append(x)
                if rd(("mem",), best, i) != top:
                    raise Differs("best value is %s, should be %s" % (rd(("mem",), best, i), top))
                got = []
                while rd(("mem",), ls[i], len(got)) not in (0, None) and len(got) < 7:
                    got.append(rd(("mem",), ls[i], len(got)))
                if got != names:
                    raise Differs("best vectors are %s, should be %s" % ([vals(W, x) if x in nodes else x for x in got], [vals(W, x) for x in names]))
        trial(R, r, F, "best", "values and best vectors", one, 80)


def run_(F, W, *args):
    return run_list(F, W, *args)


from lists import run as run_list


def points(Pg, R):
    r = "points"
    F = get(Pg, R, r, "UTIL_setAlphaMaximalPoints")
    if F:
        def one(W):
            n, k, m = W.r.randint(1, 2), W.r.randint(1, 3), W.r.randint(1, 4)
            W.g("gNumStates", n)
            lst, nodes = new_list(W, n, k)
            for i, x in enumerate(nodes):
                W.put(LT + "id", x, i)
            bl, pts = belief_list(W, n, m)
            bests = [W.r.sample(nodes, W.r.randint(1, len(nodes))) for _ in pts]
            la = W.array([W.array(b + [0, 5]) for b in bests])
            u, nu = [W.array([7, 7]) for _ in nodes], [W.array([7, 7]) for _ in nodes]
            ua, nua = W.array(u), W.array(nu)
            M_ = W.model()
            env = {aid(F.arg(i).atom()): v for i, v in enumerate((bl, lst, la, ua, nua))}
            mem, unknown = replay([e for e in F.K.log if e.kind != "havoc"], M_, env)
            rd = Read(W, M_, mem)
            for x in u + nu:
                if rd(("mem",), x, 0) != -1:
                    raise Differs("a list of points does not start empty")
            got = sorted(a for nme, a in calls(F.K.events, M_, env, ("UTIL_appendIndexList",)))
            want = sorted((u[nodes.index(b[0])], i) for i, b in enumerate(bests) if len(b) == 1)
            want = sorted(want + [(nu[nodes.index(x)], i) for i, b in enumerate(bests) if len(b) > 1 for x in b])
            if got != want:
                raise Differs("points are entered as %s, should be %s" % (got, want))
        trial(R, r, F, "lists", "points listed under vectors", one, 80)
    ll = lambda W, k: W.array([W.r.randint(0, 50) for _ in range(k)] + [-1] + [99] * 3)
    F = get(Pg, R, r, "UTIL_appendIndexList")
    if F:
        def one(W):
            k, x = W.r.randint(0, 5), W.r.randint(0, 60)
            p = ll(W, k)
            rd, M_, env, unknown = run_(F, W, p, x)
            got = [rd(("mem",), p, i) for i in range(k + 2)]
            want = [W(("mem",), (p, i)) for i in range(k)] + [x, -1]
            if got != want:
                raise Differs("list is %s, should be %s" % (got, want))
        trial(R, r, F, "append", "index added to a list", one)
    F = get(Pg, R, r, "UTIL_sizeIndexList")
    if F:
        def one(W):
            k = W.r.randint(0, 5)
            p = ll(W, k)
            M_ = W.model()
            got = M_.ev(F.ret, {aid(F.arg(0).atom()): p})
            if got != k:
                raise Differs("size is %s, should be %s" % (got, k))
        trial(R, r, F, "size", "size of a list", one)
    F = get(Pg, R, r, "UTIL_printIndexList")
    if F:
        def one(W):
            k = W.r.randint(0, 5)
            p, f = ll(W, k), W.new()
            M_ = W.model()
            env = {aid(F.arg(0).atom()): f, aid(F.arg(1).atom()): p}
            seq, ok = outputs(F, F.arg(0))
            if not ok:
                raise Unable("output not known")
            got = []
            for e, piece in seq:
                if isinstance(piece, str):
                    continue
                for ev, pos in rint._walk(M_, [v for v, d in e.vd], [d for v, d in e.vd], 0, dict(env), ()):
                    if M_.ev(e.guard, ev):
                        got.append(M_.ev(piece.atom()[2], ev))
            want = [W(("mem",), (p, i)) for i in range(k)]
            if got != want:
                raise Differs("shows %s, should show %s" % (got, want))
        trial(R, r, F, "print", "list shown", one)


# ------------------------------------------------------------------ matching vectors

def match(Pg, R):
    r = "match"
    F = get(Pg, R, r, "UTIL_measureAlphaDiff")
    if F:
        n = g("gNumStates")

        def one(W):
            k = W.r.randint(1, 4)
            W.g("gNumStates", k)
            a, b = ([W.r.randint(-4, 4) for _ in range(k)] for _ in range(2))
            pa, pb = W.array(a), W.array(b)
            M_ = W.model()
            got = M_.ev(F.ret, {aid(F.arg(0).atom()): pa, aid(F.arg(1).atom()): pb})
            if got != max(abs(x - y) for x, y in zip(a, b)):
                raise Differs("difference of %s and %s is %s" % (a, b, got))
        trial(R, r, F, "diff", "difference of two vectors", one)
    F = get(Pg, R, r, "UTIL_matchAlpha")
    if F:
        def one(W):
            k, m = W.r.randint(1, 3), W.r.randint(1, 5)
            W.g("gNumStates", k)
            lst, nodes = new_list(W, k, m)
            src = [W.r.randint(-2, 2) for _ in range(k)]
            p = W.array(src)
            d = {W(("fd", LT + "alpha"), (x,)): W.r.randint(0, 4) for x in nodes}
            W.results["UTIL_measureAlphaDiff"] = lambda kind, a: d[a[-1][1]] if a[-1][0] == p and a[-1][1] in d else d[a[-1][0]] if a[-1][1] == p and a[-1][0] in d else None
            M_ = W.model()
            got = M_.ev(F.ret, {aid(F.arg(0).atom()): p, aid(F.arg(1).atom()): lst})
            ds = [d[W(("fd", LT + "alpha"), (x,))] for x in nodes]
            if got != ds.index(min(ds)):
                raise Differs("differences %s: matched to %s" % (ds, got))
        trial(R, r, F, "closest", "closest vector", one, 80)
    F = get(Pg, R, r, "UTIL_matchAlphaLists")
    if F:
        def one(W):
            k, m = W.r.randint(1, 2), W.r.randint(1, 4)
            W.g("gNumStates", k)
            src, sn = new_list(W, k, m)
            dst, dn = new_list(W, k, 2)
            to = {W(("fd", LT + "alpha"), (x,)): W.r.randint(0, 5) for x in sn}
            W.results["UTIL_matchAlpha"] = lambda kind, a: to.get(a[-1][0]) if a[-1][1] == dst else 77
            rd, M_, env, unknown = run_(F, W, src, dst)
            p = M_.ev(F.ret, env)
            got = [rd(("mem",), p, i) for i in range(m)]
            if got != [to[W(("fd", LT + "alpha"), (x,))] for x in sn]:
                raise Differs("mapping is %s" % got)
        trial(R, r, F, "map", "mapping of a list", one)
        for e in F.events("XA_malloc", "malloc", "calloc", "XA_calloc"):
            sz = e.args[0] if len(e.args) == 1 else e.args[0] * e.args[1]
            room(R, r, F, e, sz, 4 * fld(F.arg(0), LT + "length"))
    F = get(Pg, R, r, "UTIL_relinkPolicyGraph")
    if F:
        a1, pgf, a2, out = (F.arg(k) for k in range(4))
        rd_ = {}
        for e in F.events("readAlphaList", "PG_read"):
            if e.res:
                rd_[e.args[0]] = e
        if not all(x in rd_ for x in (a1, pgf, a2)):
            for x, n in ((a1, "vectors"), (pgf, "policy graph"), (a2, "vectors before")):
                if x not in rd_ and len(rd_) >= 2 and not any(has_unknown(y) for y in rd_):
                    R.bad(r, "UTIL_relinkPolicyGraph:read:%s" % n, "%s:%d (UTIL_relinkPolicyGraph): the %s are not read from the file given" % (F.f.file, F.f.line, n))
            return
        A1, A2, G = rd_[a1].res, rd_[a2].res, rd_[pgf].res
        for x in (a1, a2):
            same(R, r, F, "all", rd_[x].args[1], [ZERO, P(-1)], "all vectors are read", rd_[x].ins)
        same(R, r, F, "unchecked", rd_[pgf].args[1], ZERO, "links of a finite-horizon policy graph are not checked on reading", rd_[pgf].ins)
        nn, no = fld(G, PG + "num_nodes"), fld(G, PG + "num_obs")
        ok = (ONE - eq0(A1)) * (ONE - eq0(A2)) * (ONE - eq0(G)) * eq0(fld(A1, LT + "length") - nn) * eq0(g("gNumObservations") - no)
        # lists that were read
        N = lambda p: before(p)
        mp = [e for e in F.events("UTIL_matchAlphaLists")]
        rl = [e for e in F.events("PG_relink")]
        same(R, r, F, "match", N(sum((tok_cases("m", e.args, e.guard) for e in mp), ZERO)), ok * tok("m", A2, A1), "vectors before are matched with the ones now, when the files fit together")
        if len(mp) == 1 and mp[0].res:
            same(R, r, F, "relink", N(sum((tok_cases("m", e.args, e.guard) for e in rl), ZERO)), ok * tok("m", G, mp[0].res, fld(A2, LT + "length") - 1), "links are replaced by the matches")
        same(R, r, F, "write", N(total(F, "PG_write")), ok * tok("PG_write", G, out), "the relinked policy graph is written to the file named")
        for e in F.events("PG_write"):
            for x in rl:
                R.check(r, F.K.events.index(x) < F.K.events.index(e), "UTIL_relinkPolicyGraph:late", "%s: the policy graph is written before it is relinked" % e.ins.where())


def before(p):
    return step.before(p)


def room(R, rule, F, e, got, need):
    """an allocation holds at least what is put there"""
    d = step.before(got) - need
    if has_unknown(d):
        return R.undecided(rule, "%s: size not recognised" % F.name)
    pos = [k for k in d.m]
    if d == ZERO or all(c > 0 for c in d.m.values()):
        R.hold(rule)
    elif all(c < 0 for c in d.m.values()):
        R.bad(rule, "%s:room" % F.name, "%s: allocates %s, needed %s" % (e.ins.where() if e.ins is not None else F.name, got, need))
    else:
        small = all(c <= 0 for k, c in d.m.items() if k)
        if small and len(d.m) == 2:
            R.bad(rule, "%s:room" % F.name, "%s: allocates %s, needed %s" % (e.ins.where() if e.ins is not None else F.name, got, need))
        elif short(F, e, d, got, need):
            R.bad(rule, "%s:room" % F.name, "%s: allocates %s, needed %s" % (e.ins.where() if e.ins is not None else F.name, got, need))
        else:
            R.undecided(rule, "%s: sizes not comparable" % F.name)


def short(F, e, d, got, need):
    """sizes for which too little is allocated"""
    for k in range(300):
        W = World(k)
        M_ = W.model()
        try:
            if M_.ev(e.guard, {}) and min(M_.ev(x, {}) for i in d.atoms() for x in (Poly({((i, 1),): Fraction(1)}),)) >= 0 and M_.ev(d, {}) < 0:
                return True
        except (Skip, Unable):
            pass
    return False


# ------------------------------------------------------------------ comparing two files of vectors

def compare(Pg, R):
    r = "files"
    name = "UTIL_compareAlphaFiles"
    F = get(Pg, R, r, name)
    if not F:
        return
    f1, f2, eps, out = (F.arg(k) for k in range(4))
    rd_ = {e.args[0]: e for e in F.events("readAlphaList") if e.res}
    fo = [e for e in F.events("fopen") if e.res]
    if set(rd_) != {f1, f2} or len(fo) != 1:
        return R.undecided(r, "%s: files not recognised" % name)
    A1, A2, fl = rd_[f1].res, rd_[f2].res, fo[0].res
    same(R, r, F, "out", tok("o", fo[0].args[0]), tok("o", out), "the comparison goes to the file named")
    sortish = lambda s: bool(s.log) and not any(e.name in ("fprintf", "fputs", "printf") for e in s.events) and any(depends_call(e.val, "UTIL_measureAlphaDiff") for e in s.log if e.kind != "havoc")
    st, K = step.steps(Pg, name, skip=sortish)
    ins = [s for s in st if sortish(s)]
    ins = [s for s in ins if not any(t is not s and set(t.body) < set(s.body) for t in ins)]
    outer = [s for s in st if any(e.name == "fprintf" and not e.vd for e in s.events) and any(set(t.body) < set(s.body) for t in ins)]
    if len(ins) != 1 or len(outer) != 1 or not K.whole:
        return R.undecided(r, "%s: loops not recognised" % name)
    s, o = ins[0], outer[0]
    w2 = [i for i in s.vars if s.inits[i] == fld(A2, LT + "head") and s.nexts[i] == fld(s.vars[i], LT + "next")]
    cn = [i for i in s.vars if s.inits[i] == ZERO and s.nexts[i] == s.vars[i] + 1]
    w1 = [i for i in o.vars if o.inits[i] == fld(A1, LT + "head") and o.nexts[i] == fld(o.vars[i], LT + "next")]
    c1 = [i for i in o.vars if o.inits[i] == ZERO and o.nexts[i] == o.vars[i] + 1]
    if len(w1) != 1 or len(w2) != 1 or len(c1) != 1 or len(cn) != 1:
        return R.undecided(r, "%s: walks not recognised" % name)
    X, k = s.vars[w2[0]], s.vars[cn[0]]
    Y, c = o.vars[w1[0]], o.vars[c1[0]]
    same(R, r, F, "second", s.cont, ONE - eq0(X), "all vectors of the second list")
    same(R, r, F, "first", o.cont, ONE - eq0(Y), "all vectors of the first list")
    base = {}
    for e in s.log:
        if e.kind == "set" and e.region == ("mem",) and not e.vd:
            v = e.val
            role = "idx" if v == k else "action" if v == fld(X, LT + "action") else "diff" if v.atom() and v.atom()[0] in ("call", "ev") and v.atom()[1] == "UTIL_measureAlphaDiff" else None
            if role:
                base[role] = e.idx[0]
    rest = {e.idx[0] for e in s.log if e.kind == "set" and e.region == ("mem",) and not e.vd} - set(base.values())
    if len(base) == 2 and len(rest) == 1:
        base[min({"idx", "action", "diff"} - set(base))] = min(rest, key=str)
    if set(base) != {"idx", "action", "diff"}:
        for x in sorted({"idx", "action", "diff"} - set(base)):
            R.undecided(r, "%s: where the %s is kept is not recognised" % (name, x))
        return

    def one(W):
        m = W.r.randint(0, 4)
        d = sorted(W.r.randint(0, 3) for _ in range(m))
        t = {}
        arr = {}
        for role, vs in (("diff", d), ("idx", [W.r.randint(0, 9) for _ in range(m)]), ("action", [W.r.randint(0, 9) for _ in range(m)])):
            arr[role] = (W.array(vs + [50] * 2), vs)
        x, y = new_node(W, 1), new_node(W, 1)
        new = W.r.randint(0, 4)
        W.results["UTIL_measureAlphaDiff"] = lambda kind, a: new
        M_ = W.model()
        env = {aid(X.atom()): x, aid(k.atom()): m, aid(Y.atom()): y, aid(c.atom()): W.r.randint(0, 9)}
        # earlier values taken at the start of the enclosing loop
        for e in s.log:
            for p in (e.val, e.guard) + tuple(e.idx):
                for i in {i for a in p.atoms() for i in poly._all_ids(a)} if isinstance(p, Poly) else ():
                    if ALIST[i][0] == "old" and ALIST[i][1] == Y:
                        env[i] = y
        for role in arr:
            env[aid(base[role].atom())] = arr[role][0]
        mem, unknown = replay(s.log, M_, env)
        rdm = Read(W, M_, mem)
        at = sum(1 for v in d if v <= new)
        alt = sum(1 for v in d if v < new)
        ent = {"diff": new, "idx": m, "action": W(("fd", LT + "action"), (x,))}
        okk = []
        for pos in (at, alt):
            okk.append(all([rdm(("mem",), p, i) for i in range(m + 1)] == vs[:pos] + [ent[role]] + vs[pos:] for role, (p, vs) in arr.items()))
        if not okk[0]:
            raise Differs("differences %s and %s: kept as %s" % (d, new, [[rdm(("mem",), p, i) for i in range(m + 1)] for p, vs in arr.values()]))
    trial(R, r, F, "insert", "differences kept in order, with the vectors they belong to", one, 80)
    for e in s.log:
        for p in (e.val,):
            for i in poly._all_ids(aid(p.atom())) if p.atom() else ():
                t = ALIST[i]
                if t[0] in ("call", "ev") and t[1] == "UTIL_measureAlphaDiff":
                    got = {strip_old(P(a)) for a in cargs(t)}
                    R.check(r, got == {fld(Y, LT + "alpha"), fld(X, LT + "alpha")} or any(has_unknown(q) for q in got), "%s:measured" % name, "%s: the difference is not that of the two vectors" % (e.ins.where() if e.ins is not None else name))
    for n, want in (("idx", 4), ("action", 4), ("diff", 8)):
        m = F.maker(base[n]) if base[n].atom() else None
        if m:
            a = m[0].args
            room(R, r, F, m[0], a[0] if len(a) == 1 else a[0] * a[1], want * fld(A2, LT + "length"))
    # what is shown of each vector: the closest, flagged when too far or when its action differs, then all within epsilon
    O_ = Shown(F, o)
    seq, ok = outputs(O_, fl)
    d0, i0, a0 = (el(base[n], 0) for n in ("diff", "idx", "action"))
    dn, fn = (lambda x: OUT(num("d", x))), (lambda x: OUT(num("f", x)))
    top = [(e, p) for e, p in seq if not e.vd]
    if not ok:
        return R.undecided("shown", "%s: output not known" % name)
    q = "shown"
    vals_ = out_sum([(e, p) for e, p in top if not isinstance(p, str)])
    same(R, q, F, "closest", vals_, dn(c) + dn(fld(Y, LT + "action")) + dn(i0) + fn(d0) + dn(a0), "each vector with the closest one")
    flag = lambda ws: sum((e.guard for e, p in top if isinstance(p, str) and ws in p), ZERO)
    same(R, q, F, "none", flag("NONE"), [lt0(eps - d0, "f"), ONE - lt0(d0 - eps, "f") - eq0(d0 - eps) * ONE], "flagged when no vector is close enough")
    same(R, q, F, "action", flag("DIFFERS"), ONE - eq0(a0 - fld(Y, LT + "action")), "flagged when the actions differ")
    rest = [t for t in st if t is not o and any(e.name == "fprintf" for e in t.events) and set(t.body) < set(o.body)]
    if len(rest) == 1:
        t = rest[0]
        v = [i for i in t.vars if t.nexts[i] == t.vars[i] + 1]
        if len(v) == 1:
            z = t.vars[v[0]]
            same(R, q, F, "from", t.inits[v[0]], ONE, "the others follow")
            n2 = fld(A2, LT + "length")
            go = lt0(z - n2, "i") * (ONE - lt0(eps - el(base["diff"], z), "f"))
            same(R, q, F, "within", step.before(t.cont * (ONE - t.leave)), [go, lt0(z - n2, "i") * (ONE - lt0(eps - el(base["diff"], z), "f"))], "others as long as they are close enough")
            sq, ok = outputs(Shown(F, t), fl)
            same(R, q, F, "others", under(step.before(out_sum([(e, p) for e, p in sq if not isinstance(p, str)])), step.before(t.cont * (ONE - t.leave))), dn(el(base["idx"], z)) + fn(el(base["diff"], z)) + dn(el(base["action"], z)), "the other vectors that are close")
        else:
            R.undecided(q, "%s: other vectors not recognised" % name)
    else:
        R.undecided(q, "%s: other vectors not recognised" % name)


class Shown:
    def __init__(o, F, s):
        class K:
            pass
        o.K = K()
        o.K.events = s.events
        o.name, o.f = F.name, F.f


def strip_old(p):
    return rewrite(p, "old", lambda t: t[0] == "old", lambda t: P(t[1]))


def depends_call(p, n):
    return isinstance(p, Poly) and any(ALIST[i][0] in ("call", "ev") and ALIST[i][1] == n for a in p.atoms() for i in poly._all_ids(a))


# ------------------------------------------------------------------ sort and purge

def files(Pg, R):
    r = "files"
    for name, out, steps_ in (("UTIL_sortAlphaFile", 1, ("sortAlphaList", "saveAlphaList")), ("UTIL_purgeAlphaFile", 1, ("purgeAlphaList", "sortAlphaList", "saveAlphaList"))):
        F = get(Pg, R, r, name)
        if not F:
            continue
        rd_ = [e for e in F.events("readAlphaList") if e.res]
        if len(rd_) != 1:
            R.undecided(r, "%s: reading not recognised" % name)
            continue
        L = rd_[0].res
        same(R, r, F, "read", tok("r", *rd_[0].args), [tok("r", F.arg(0), 0), tok("r", F.arg(0), -1)], "all vectors of the file given")
        ok = ONE - eq0(L)
        want = {"sortAlphaList": (L,), "saveAlphaList": (L, F.arg(out)), "purgeAlphaList": (L,) + ((fld(F.arg(2), "PomdpSolveParamStruct.q_purge_option"), F.arg(2)) if name == "UTIL_purgeAlphaFile" else ())}
        for n in steps_:
            same(R, r, F, n, step.before(total(F, n)), ok * tok(n, *want[n]), "%s of what was read" % n)
        es = [[e for e in F.K.events if e.name == n] for n in steps_]
        for a, b in zip(es, es[1:]):
            for x in a:
                for y in b:
                    R.check(r, F.K.events.index(x) < F.K.events.index(y), "%s:order:%s" % (name, x.name), "%s: %s comes before %s" % (y.ins.where(), y.name, x.name))


# ------------------------------------------------------------------ value functions at points

def beliefs(Pg, R):
    r = "files"
    size = lambda e: e.args[0] if len(e.args) == 1 else e.args[0] * e.args[1]
    for name in ("UTIL_mapBeliefList", "UTIL_compareAlphaFilesUsingBeliefs"):
        F = get(Pg, R, r, name)
        if not F:
            continue
        two = name != "UTIL_mapBeliefList"
        bf, afs, eps, out = (F.arg(2), (F.arg(0), F.arg(1)), F.arg(3), F.arg(4)) if two else (F.arg(0), (F.arg(1),), F.arg(2), F.arg(3))
        rb = [e for e in F.events("readBeliefList") if e.res]
        ra = {e.args[0]: e for e in F.events("readAlphaList") if e.res}
        fo = [e for e in F.events("fopen") if e.res]
        if len(rb) != 1 or len(fo) != 1 or len(ra) != len(afs):
            R.undecided(r, "%s: files not recognised" % name)
            continue
        same(R, r, F, "out", tok("o", fo[0].args[0]), tok("o", out), "the report goes to the file named")
        same(R, r, F, "beliefs", tok("o", rb[0].args[0]), tok("o", bf), "the points of the file given")
        same(R, r, F, "all-beliefs", rb[0].args[1], [ZERO, P(-1)], "all points of the file are read", rb[0].ins)
        for x in ra.values():
            same(R, r, F, "all-alphas", x.args[1], [ZERO, P(-1)], "all vectors of the file are read", x.ins)
        if set(ra) != set(afs):
            R.bad(r, "%s:alphas" % name, "%s:%d (%s): the vectors are not read from the files given" % (F.f.file, F.f.line, name))
            continue
        B, fl = rb[0].res, fo[0].res
        cv, sp, rp = F.events("UTIL_computeAlphaBeliefValues"), F.events("UTIL_setAlphaMaximalPoints"), F.events("UTIL_reportBeliefMapping")
        if not (len(cv) == len(sp) == len(rp) == len(afs)):
            R.undecided(r, "%s: steps not recognised" % name)
            continue
        ok = ONE
        for x in [ra[a].res for a in afs] + [B, fl]:
            ok = ok * (ONE - eq0(x))
        got = {}
        for a in afs:
            L = ra[a].res
            c = [e for e in cv if e.args[0] == L]
            p = [e for e in sp if e.args[1] == L]
            q = [e for e in rp if e.args[2] == L]
            if not (len(c) == len(p) == len(q) == 1):
                R.bad(r, "%s:lists" % name, "%s:%d (%s): a list of vectors is not worked on once" % (F.f.file, F.f.line, name)) if not any(has_unknown(e.args[0]) for e in cv) else R.undecided(r, "%s: lists" % name)
                continue
            c, p, q = c[0], p[0], q[0]
            V, bv, ba = c.args[2:5]
            U, NU = p.args[3:5]
            for e, n in ((c, "values"), (p, "points"), (q, "report")):
                same(R, r, F, n + "-when", e.guard, ok, "done when all files are there")
            same(R, r, F, "values", tok("c", *c.args), tok("c", L, B, V, bv, ba, eps), "values of the vectors at the points")
            same(R, r, F, "points", tok("c", *p.args), tok("c", B, L, ba, U, NU), "points of each vector")
            same(R, r, F, "report", tok("c", *q.args), tok("c", fl, B, L, V, bv, ba, U, NU), "report of points and vectors")
            ix = F.K.events.index
            R.check(r, ix(c) < ix(p) < ix(q), "%s:order" % name, "%s: points are listed or shown before their values are known" % p.ins.where())
            R.check(r, len({V, bv, ba, U, NU}) == 5, "%s:shared" % name, "%s: results share one array" % c.ins.where())
            got[a] = (bv, ba, U, NU)
            # room
            nb, na = call("sizeBeliefList", B), fld(L, LT + "length")
            for ptr, need, what in ((V, 8 * nb, "rows"), (bv, 8 * nb, "best values"), (ba, 8 * nb, "best vectors"), (U, 8 * na, "points"), (NU, 8 * na, "points")):
                m = F.maker(ptr)
                if m:
                    room(R, r, F, m[0], norm_size(size(m[0])), need)
            for ptr, cnt, need in ((V, nb, 8 * na), (ba, nb, P(8 * MAXB)), (U, na, P(4 * MAXB)), (NU, na, P(4 * MAXB))):
                w = [x for x in F.K.log if x.kind == "set" and x.region == ("mem",) and x.idx[0] == ptr and len(x.vd) == 1 and x.val != ZERO]
                if len(w) != 1:
                    R.undecided(r, "%s: rows not recognised" % name)
                    continue
                if w[0].vd[0][1][0] == "rng":
                    lo, hi = (norm_size(step.before(x)) for x in w[0].vd[0][1][1:3])
                    same(R, r, F, "rows", tok("r", lo, hi), tok("r", ZERO, cnt), "every row gets its memory", w[0].ins)
                m = F.maker(w[0].val)
                if m:
                    room(R, r, F, m[0], norm_size(size(m[0])), need)
        if two and len(got) == 2:
            c = F.events("UTIL_reportBeliefValueComparisons")
            x, y = got[afs[0]], got[afs[1]]
            same(R, r, F, "compared", sum((tok_cases("c", e.args, e.guard) for e in c), ZERO), ok * tok("c", fl, B, x[0], y[0], x[1], y[1], x[2], y[2], x[3], y[3], eps), "the two value functions are compared at the points")
        if not two:
            for n, want in (("writeBeliefList", (fl, B)), ("displayAlphaList", (fl, ra[afs[0]].res))):
                same(R, r, F, n, step.before(total(F, n)), ok * tok(n, *want), "points and vectors are shown")


def norm_size(p):
    return rewrite(p, "evsize", lambda t: t[0] == "ev" and t[1] == "sizeBeliefList", lambda t: call("sizeBeliefList", *cargs(t)))


# ------------------------------------------------------------------ reports

def shown(Pg, R):
    r = "shown"
    dn, fn = (lambda x: OUT(num("d", x))), (lambda x: OUT(num("f", x)))
    F = get(Pg, R, r, "UTIL_reportBeliefMapping")
    if F:
        fl, B, L, V, bv, ba, U, NU = (F.arg(k) for k in range(8))
        seq, ok = outputs(F, fl)
        if ok:
            nr = [(e, p) for e, p in seq if not isinstance(p, str)]
            bd = LIST(B, BL + "next")
            ad = LIST(fld(L, LT + "head"))
            pos = lambda x: PRE_COUNT(B, BL + "next", x)
            same(R, r, F, "sizes", norm_size(out_sum(nr, 0)), dn(call("sizeBeliefList", B)) + dn(fld(L, LT + "length")), "number of points and vectors")
            lvl = [(e, p) for e, p in nr if len(e.vd) == 1]
            same(R, r, F, "each", out_sum(lvl), SUM(bd, lambda x: dn(pos(x)) + fn(el(bv, pos(x)))) + SUM(ad, lambda y: dn(fld(y, LT + "id"))), "each point with its best value, each vector")
            sz = lambda t: t[0] in ("call", "ev") and t[1] == "UTIL_sizeIndexList"
            none = lambda t: P(t[1]).atom() and sz(P(t[1]).atom()) if t[0] == "eq0" else t[0] == "lt0" and P(t[1] + 1).atom() is not None and sz(P(t[1] + 1).atom())
            pr = rewrite(F.esum("UTIL_printIndexList"), "emptyidx", lambda t: bool(none(t)), lambda t: lt0(el(cargs(P(t[1] + (1 if t[0] == "lt0" else 0)).atom())[0], 0), "i"))
            one_ = lambda T, y: (ONE - lt0(el(el(T, fld(y, LT + "id")), 0), "i")) * tok("UTIL_printIndexList", fl, el(el(T, fld(y, LT + "id")), 0 - 0)) if False else (ONE - lt0(el(el(T, fld(y, LT + "id")), 0), "i")) * tok("UTIL_printIndexList", fl, el(T, fld(y, LT + "id")))
            full = lambda T, y: tok("UTIL_printIndexList", fl, el(T, fld(y, LT + "id")))
            same(R, r, F, "lists", pr, [SUM(ad, lambda y: one_(U, y) + one_(NU, y)), SUM(ad, lambda y: full(U, y) + full(NU, y))], "points of each vector")
            es = [e for e in F.events("UTIL_printIndexList")]
            if len(es) == 2:
                fst = [e for e in es if depends_arg(e.args[1], U)]
                if len(fst) == 1:
                    R.check(r, F.K.events.index(fst[0]) == min(F.K.events.index(e) for e in es), "UTIL_reportBeliefMapping:swapped", "%s: points where a vector is the only best one are shown as others" % fst[0].ins.where())

            def one(W):
                n, k, m = 1, W.r.randint(1, 3), W.r.randint(1, 3)
                lst, nodes = new_list(W, n, k)
                bl, pts = belief_list(W, n, m)
                bests = [W.r.sample(nodes, W.r.randint(1, len(nodes))) for _ in pts]
                la = W.array([W.array(b + [0, 5]) for b in bests])
                z = W.array([0] * 4)
                u = W.array([W.array([-1]) for _ in range(50)])
                W.results["sizeBeliefList"] = lambda kind, a: m
                M_ = W.model()
                env = {aid(F.arg(i).atom()): v for i, v in enumerate((1, bl, lst, z, z, la, u, u))}
                got = []
                for e, p in nr:
                    if len(e.vd) != 2:
                        continue
                    for ev, ps in rint._walk(M_, [v for v, d in e.vd], [d for v, d in e.vd], 0, dict(env), ()):
                        if M_.ev(e.guard, ev):
                            got.append((ps, M_.ev(p.atom()[2], ev)))
                got = [v for ps, v in sorted(got, key=lambda x: x[0])]
                want = [W(("fd", LT + "id"), (x,)) for b in bests for x in b]
                if got != want:
                    raise Differs("shows %s, should show %s" % (got, want))
            trial(R, r, F, "best", "best vectors of each point", one)
            un = [(e, p) for e, p in seq if isinstance(p, str) and "non-unique" in p]
            same(R, r, F, "unique", out_sum([(e, "x") for e, p in un]), SUM(bd, lambda x: (ONE - eq0(el(el(ba, pos(x)), 1))) * OUT("x")), "marked when there is more than one")
        else:
            R.undecided(r, "UTIL_reportBeliefMapping: output not known")
    F = get(Pg, R, r, "UTIL_reportBeliefValueComparisons")
    if F:
        comparisons(Pg, R, F)
    F = get(Pg, R, r, "UTIL_displayBelief")
    if F:
        seq, ok = outputs(F, A("ga", "stdout")) if False else outputs(F, F.events("fprintf")[0].args[0] if F.events("fprintf") else None)
        if ok:
            same(R, r, F, "belief", out_sum([(e, p) for e, p in seq if not isinstance(p, str)]), SUM(g("gNumStates"), lambda i: fn(el(F.arg(0), i))), "every probability is shown in order")
            same(R, r, F, "commas", out_sum([(e, p) for e, p in seq if isinstance(p, str) and "," in p]), [SUM(g("gNumStates"), lambda i: (ONE - eq0(i)) * OUT(",")), SUM(rng(1, g("gNumStates")), lambda i: OUT(","))], "probabilities are separated")
        else:
            R.undecided(r, "UTIL_displayBelief: output not known")
    F = get(Pg, R, r, "UTIL_getLine")
    if F:
        getline(Pg, R, F)


def depends_arg(p, x):
    return any(aid(x.atom()) in poly._all_ids(a) for a in p.atoms())


def PRE_COUNT(first, link, x):
    from kern import mk_sum as ms
    v = fresh()
    return ms(v, ("pre", first, link, x), ONE)


def comparisons(Pg, R, F):
    r = "shown"
    name = F.name
    fl, B, b1, b2, l1, l2 = (F.arg(k) for k in range(6))
    eps = F.arg(10)
    st, K = step.steps(Pg, name)
    c = [s for s in st if any(e.name == "fprintf" for e in s.events) and any(step.depends(s.nexts[i], s.vars[i]) for i in s.vars)]
    c = [s for s in c if not any(t is not s and set(s.body) < set(t.body) for t in c)]
    if len(c) != 1 or not K.whole:
        return R.undecided(r, "%s: loop not recognised" % name)
    s = c[0]
    w = [i for i in s.vars if s.inits[i] == B]
    n = [i for i in s.vars if s.inits[i] == ZERO and s.nexts[i] == s.vars[i] + 1]
    m = [i for i in s.vars if i not in w + n]
    if len(w) != 1 or len(n) != 1 or len(m) != 1:
        return R.undecided(r, "%s: walk not recognised" % name)
    X, k, mx = s.vars[w[0]], s.vars[n[0]], s.vars[m[0]]
    same(R, r, F, "points", s.cont, ONE - eq0(X), "all points")
    same(R, r, F, "next", s.nexts[w[0]], fld(X, BL + "next"), "one point after another")
    d = el(b2, k) - el(b1, k)
    ab = A("fabs", d) if False else None
    ap = [e for e in s.events if e.name == "UTIL_appendIndexList"]
    lists = []
    for e in ap:
        if e.args[0] not in lists:
            lists.append(e.args[0])
    if len(lists) != 2:
        return R.undecided(r, "%s: lists not recognised" % name)
    # the list of maximal points is the one reset
    rs = {x.idx[0] for x in s.log if x.kind == "set" and x.region == ("mem",) and x.idx[1] == ZERO and x.val == k}
    mxl = [l for l in lists if l in rs] or [l for l in lists if any(step.depends(e.guard, mx) for e in s.events if e.name == "UTIL_appendIndexList" and e.args[0] == l)]
    if len(mxl) != 1:
        return R.undecided(r, "%s: list of maximal differences not recognised" % name)
    M = mxl[0]
    D = [l for l in lists if l != M][0]

    def one(W):
        i = W.r.randint(0, 3)
        v1, v2 = ([W.r.randint(-3, 3) for _ in range(4)] for _ in range(2))
        e_ = W.r.choice((Fraction(1, 2), Fraction(3, 2)))
        mxv = W.r.choice((0, 0, 1, 2, 3))
        a1, a2, pd, pm, x = W.array(v1), W.array(v2), W.array([9, 9]), W.array([9, 9, 9]), W.new()
        la = W.array([W.array([0]) for _ in range(4)])
        W.put(BL + "next", x, 0)
        M_ = W.model()
        env = {aid(b1.atom()): a1, aid(b2.atom()): a2, aid(l1.atom()): la, aid(l2.atom()): la, aid(k.atom()): i, aid(mx.atom()): mxv, aid(eps.atom()): e_, aid(D.atom()): pd, aid(M.atom()): pm, aid(X.atom()): x, aid(fl.atom()): 1, aid(B.atom()): x}
        mem, unknown = replay([e for e in s.log if e.kind != "havoc"], M_, env)
        rdm = Read(W, M_, mem)
        got = sorted(a for q, a in calls(s.events, M_, env, ("UTIL_appendIndexList",)))
        nx = M_.ev(s.nexts[m[0]], env)
        df = v2[i] - v1[i]
        far = abs(df) >= e_
        more = far and abs(df) >= mxv + e_
        eqv = far and not more and abs(abs(df) - mxv) < e_
        want = ([(pd, i)] if far else []) + ([(pm, i)] if eqv else [])
        h = [rdm(("mem",), pm, j) for j in range(2)]
        if more and h[0] == -1 and (pm, i) in got:      # emptied, then entered
            got.remove((pm, i))
            h = [i, -1]
        if got != sorted(want):
            raise Differs("difference %s (largest so far %s, epsilon %s): point %d is entered in %s" % (df, mxv, e_, i, ["points with a difference" if a[0] == pd else "points with the largest" for a in got]))
        if nx != (abs(df) if more else mxv):
            raise Differs("difference %s: largest so far becomes %s from %s" % (df, nx, mxv))
        if more and h != [i, -1] or not more and h != [9, 9]:
            raise Differs("difference %s (largest so far %s): list of largest is %s" % (df, mxv, h))
    trial(R, r, F, "differences", "points that differ and the largest difference", one, 120)
    seq, ok = outputs(Shown(F, s), fl)
    dn, fn = (lambda x: OUT(num("d", x))), (lambda x: OUT(num("f", x)))
    if ok:
        fv = [(e, p) for e, p in seq if not isinstance(p, str) and not e.vd and p.atom()[1] == "f"]
        same(R, r, F, "values", out_sum(fv), fn(el(b1, k)) + fn(el(b2, k)) + fn(d), "both values and their difference are shown")
        nz = [(e, p) for e, p in seq if isinstance(p, str) and "non-zero" in p]

        def one(W):
            i = 0
            v1, v2 = W.r.randint(-3, 3), W.r.randint(-3, 3)
            e_ = Fraction(1, 2)
            M_ = W.model()
            env = {aid(b1.atom()): W.array([v1]), aid(b2.atom()): W.array([v2]), aid(k.atom()): i, aid(eps.atom()): e_, aid(mx.atom()): 0, aid(X.atom()): W.new()}
            if sum(int(M_.ev(e.guard, env)) for e, p in nz) != (v1 != v2):
                raise Differs("values %s and %s" % (v1, v2))
        trial(R, r, F, "non-zero", "marked when the values differ", one)
        for L, key in ((l1, "first"), (l2, "second")):
            iv = [(e, p) for e, p in seq if not isinstance(p, str) and e.vd and depends_arg(p, L)]

            def one(W):
                nodes = [new_node(W, 1) for _ in range(3)]
                b = W.r.sample(nodes, W.r.randint(1, 3))
                la = W.array([W.array([0]), W.array(b + [0, 5])])
                M_ = W.model()
                env = {aid(l1.atom()): la, aid(l2.atom()): la, aid(k.atom()): 1, aid(fl.atom()): 1, aid(X.atom()): W.new()}
                got = []
                for e, p in iv:
                    for ev, ps in rint._walk(M_, [v for v, dd in e.vd], [dd for v, dd in e.vd], 0, dict(env), ()):
                        if M_.ev(e.guard, ev):
                            got.append(M_.ev(p.atom()[2], ev))
                if got != [W(("fd", LT + "id"), (x,)) for x in b]:
                    raise Differs("shows %s" % got)
            trial(R, r, F, key, "best vectors of the point", one)
    else:
        R.undecided(r, "%s: output not known" % name)
    # summary after the loop
    inner = {(e.name, e.ins) for e in s.events}
    after = [e for e in F.K.events if (e.name, e.ins) not in inner]
    pr = [e for e in after if e.name == "UTIL_printIndexList"]
    if len(pr) == 2 and all(e.args[1] in (D, M) for e in pr):
        R.check(r, [e.args[1] for e in pr] == [D, M], "%s:summary" % name, "%s: points that differ and points that differ most are mixed up" % pr[0].ins.where())
    else:
        R.undecided(r, "%s: summary not recognised" % name)

    class O:
        pass
    o = O()
    o.K = O()
    o.K.events = after
    sq, ok = outputs(o, fl)
    if ok:
        ns = [P(p.atom()[2]) for e, p in sq if not isinstance(p, str) and p.atom()[1] == "d"]
        ls = []
        for x in ns:
            a = x.atom()
            ls.append(P(cargs(a)[0]) if a and a[0] in ("ev", "call") and a[1] == "UTIL_sizeIndexList" else None)
        if None in ls or len(ls) != 2:
            R.undecided(r, "%s: sizes not recognised" % name)
        else:
            R.check(r, ls == [D, M], "%s:counts" % name, "%s:%d (%s): the number of points that differ is that of another list" % (F.f.file, F.f.line, name))
    nb = call("sizeBeliefList", B)
    for L in (D, M):
        mk = F.maker(L)
        if mk:
            a = mk[0].args
            room(R, r, F, mk[0], norm_size(a[0] if len(a) == 1 else a[0] * a[1]), 4 * nb + 4)
            w0 = [x for x in F.K.log if x.kind == "set" and x.region == ("mem",) and x.idx == (L, ZERO) and not x.vd]
            R.check(r, bool(w0) and w0[0].val == P(-1), "%s:empty" % name, "%s: a list of points does not start empty" % (mk[0].ins.where())) if w0 or not has_unknown(L) else None


def getline(Pg, R, F):
    r = "shown"

    def one(W):
        size = W.r.randint(2, 5)
        k = W.r.randint(0, 7)
        txt = [W.r.choice((97, 98, 32, 99)) for _ in range(k)]
        end = W.r.choice((10, -1))
        p, fh = W.array([7] * 12), W.new()
        seq = txt + [end] + [-1] * 60
        W.results["getc"] = W.results["fgetc"] = lambda kind, a: None
        M_ = W.model()
        env = {aid(F.arg(0).atom()): fh, aid(F.arg(1).atom()): p, aid(F.arg(2).atom()): size}
        M_.reads = lambda i: seq[int(i)] if i < len(seq) else -1
        raise Unable("reads of a stream")
    R.functions.add(F.name)


import rint
