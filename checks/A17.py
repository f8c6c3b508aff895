"""The finite grid: which belief points it holds, how the search adds to it, and that every point gets a vector."""
import core, step
from spec import *
from lists import *
from lists import run as run_list
from A12 import total
from A13 import enum_of
from fractions import Fraction

TITLE = "the finite grid holds the points its type calls for, and every point gets its best vector"
BL = "BeliefListStruct."
PR = "PomdpSolveParamStruct."
OP = "PomdpSolveProgOptionsStruct."
T = "POMDP_SOLVE_OPTS_Fg_Type_"
GEN = {"simplex": ["FG_addSimplexCorners"], "pairwise": ["FG_addPairwise", "FG_addSimplexCorners"], "search": ["genAllBeliefStates"], "initial": ["genInitialDerivedBeliefStates"]}


def run(Pg, R):
    R.rule("points", "corners, even mixtures, observation classes and the start belief are what the grid begins with", 1)
    R.rule("search", "points are searched once, over all actions and observations, each new one is added, up to the limit", 1)
    R.rule("grid", "the type chosen decides the grid; it is saved when asked for", 1)
    R.rule("improve", "every grid point contributes its best vector", 1)
    points(Pg, R)
    search(Pg, R)
    grid(Pg, R)
    improve(Pg, R)


# ------------------------------------------------------------------ points put on the grid

class Grid:
    """lists of points, as numbers: what calls that build them give"""

    def __init__(s, W, n):
        s.W, s.n = W, n
        s.lists, s.ids = {0: ()}, {(): 0}
        W.extent, W.contents = n, {}
        W.results["appendBeliefList"] = s.append
        W.results["findBeliefState"] = s.find
        W.results["searchAndAddBeliefStates"] = s.searched

    def num(s, pts):
        if pts not in s.ids:
            i = 2 * 10 ** 8 + len(s.ids)
            s.ids[pts], s.lists[i] = i, pts
        return s.ids[pts]

    def get(s, i):
        if i not in s.lists:
            raise Unable("list not known")
        return s.lists[i]

    def known(s, pts):
        if any(None in p for p in pts):
            raise Unable("point not known")
        return pts

    def point(s, p, k, snap):
        for i, lam in snap or ():
            if i == k:
                return tuple(s.W.contents[lam][:s.n])
        v = []
        for j in range(s.n):
            x = s.W(("mem",), (p, j))
            v.append(x)     # None: not known; no harm where the value is not used
        return tuple(v)

    def args(s, kind, a):
        if kind == "ev":
            ar = list(a[2])
        elif kind == "call":
            ar = list(a[0])
            return ar, a[1] if len(a) > 1 else None
        else:
            raise Unable("result")
        c = s.W.contents.get(ar[-1])
        if c is not None and c and isinstance(c[0], tuple):
            return ar[:-1], c
        return ar, None

    def append(s, kind, a):
        if kind == "out":
            return None
        ar, sn = s.args(kind, a)
        return s.num(s.get(ar[0]) + (s.point(ar[1], 1, sn),))

    def find(s, kind, a):
        if kind == "out":
            return None
        ar, sn = s.args(kind, a)
        p = s.point(ar[1], 1, sn)
        e = ar[2]
        for i, q in enumerate(s.get(ar[0])):
            if None in p or None in q:
                raise Unable("point not known")
            if all(abs(x - y) <= e for x, y in zip(p, q)):
                return 3 * 10 ** 8 + i
        return 0

    def searched(s, kind, a):
        if kind == "out":
            return None
        ar, sn = s.args(kind, a)
        return s.num((("searched", s.get(ar[0]), ar[1], ar[2]),))


def shown(pts):
    return "{" + ", ".join("(" + " ".join(str(x) for x in p) + ")" for p in pts) + "}"


def params(W):
    p, o = W.new(), W.new()
    W.put(PR + "opts", p, o)
    W.put(OP + "finite_grid_points", o, W.r.randint(5, 90))
    W.put(OP + "fg_epsilon", o, Fraction(1, W.r.choice((100, 200, 1000))))
    return p, o


def points(Pg, R):
    r = "points"
    for name in ("FG_addSimplexCorners", "FG_addPairwise"):
        F = get(Pg, R, r, name)
        if not F:
            continue

        def one(W):
            n = W.r.randint(1, 4)
            W.g("gNumStates", n)
            G = Grid(W, n)
            W.g("gFGTempBelief", W.array([9] * n))
            old = W.r.choice(((), ((7,) * n,)))
            W.g("gFiniteGrid", G.num(old))
            M = W.model()
            got = G.known(G.get(M.ev(final_g(F, "gFiniteGrid"), {})))
            if name == "FG_addSimplexCorners":
                add = [tuple(int(i == j) for j in range(n)) for i in range(n)]
            else:
                h = Fraction(1, 2)
                add = [tuple(h if k in (i, j) else 0 for k in range(n)) for i in range(n) for j in range(i)]
            if sorted(got) != sorted(list(old) + add):
                raise Differs("%d states: the grid becomes %s, expected %s" % (n, shown(got), shown(list(old) + add)))
        trial(R, r, F, "points", "every %s is added to the grid" % ("corner of the belief simplex" if name == "FG_addSimplexCorners" else "even mixture of two states"), one)
    F = get(Pg, R, r, "genInitialDerivedBeliefStates")
    if F:
        def one(W):
            n = W.r.randint(1, 4)
            W.g("gNumStates", n)
            G = Grid(W, n)
            W.g("gFGTempBelief", W.array([9] * n))
            p, o = params(W)
            if W.r.randint(0, 1):
                b = tuple(W.r.choice((0, 1, 2, 3)) for _ in range(n))
                W.g("gInitialBelief", W.array(b))
            else:
                b = (Fraction(1, n) if n > 1 else 1,) * n
                W.g("gInitialBelief", 0)
            begun(F, W, G, p, o, [b], "start belief" if W(("g", "gInitialBelief"), ()) else "even belief")
        trial(R, r, F, "start", "the search begins at the start belief, or the even one when there is none", one)
    F = get(Pg, R, r, "genAllBeliefStates")
    if F:
        def one(W):
            n, na, nz = W.r.randint(1, 3), W.r.randint(1, 2), W.r.randint(1, 3)
            W.g("gNumStates", n)
            W.g("gNumActions", na)
            W.g("gNumObservations", nz)
            G = Grid(W, n)
            W.g("gFGTempBelief", W.array([9] * n))
            p, o = params(W)
            rm = W.g("R", W.array([W.new() for _ in range(na)]))
            M = W.model()
            want = [(Fraction(1, n) if n > 1 else 1,) * n]
            for a in range(na):
                for z in range(nz):
                    ss = [x for x in range(n) if M.ev(ent(el(g("R"), a), x, z), {}) != 0]
                    if ss:
                        q = tuple(Fraction(1, len(ss)) if x in ss and len(ss) > 1 else int(x in ss) for x in range(n))
                        if q not in want:
                            want.append(q)
            begun(F, W, G, p, o, want, "even beliefs over the states that give rise to an observation")
        trial(R, r, F, "classes", "the search begins at the even belief and those over states sharing an observation", one)


def begun(F, W, G, p, o, want, what):
    M = W.model()
    x = G.get(M.ev(F.ret, {aid(F.arg(0).atom()): p}))
    if len(x) != 1 or x[0][:1] != ("searched",):
        raise Differs("the points are not searched from")
    got, limit, eps = x[0][1:]
    G.known(got)
    if sorted(got) != sorted(want):
        raise Differs("the search begins with %s, expected the %s: %s" % (shown(got), what, shown(want)))
    if limit != W(("fd", OP + "finite_grid_points"), (o,)):
        raise Differs("the limit is not the number of grid points asked for")
    if eps != W(("fd", OP + "fg_epsilon"), (o,)):
        raise Differs("points are not told apart with the grid's precision")


# ------------------------------------------------------------------ the search

def lv_of(p):
    """loop variable a value is"""
    t = P(p).atom()
    while t and t[0] == "old":
        t = P(t[1]).atom()
    return t if t and t[0] == "lv" and len(t) == 3 else None


def search(Pg, R):
    r, name = "search", "searchAndAddBeliefStates"
    F = None
    if name not in Pg.funcs:
        R.missing(r, name)
        return
    R.present.add(name)
    st, K = step.steps(Pg, name, rough=True)
    if not K.whole:
        R.undecided(r, name + ": loops not recognised")
        return
    by = {s.h: s for s in st}
    inner = [s for s in st if any(e.name == "transformBeliefState" for e in s.events)]
    inner = [s for s in inner if not any(t is not s and set(t.body) < set(s.body) for t in inner)]
    if len(inner) != 1:
        R.undecided(r, name + ": the step from one point to the next is not recognised")
        return
    I = inner[0]
    tr = first_(I, "transformBeliefState")
    fn = Fn.__new__(Fn)
    fn.name, fn.f, fn.K = name, Pg.need(name), K
    # every action and every observation
    for k, n, what in ((2, "gNumActions", "actions"), (3, "gNumObservations", "observations")):
        v = lv_of(tr.args[k])
        if not v or v[1] not in by or v[2] not in by[v[1]].vars:
            R.undecided(r, "%s: loop over %s not recognised" % (name, what))
            continue
        s = by[v[1]]
        x = s.vars[v[2]]
        if s.nexts[v[2]] - x != ONE:
            R.undecided(r, "%s: loop over %s does not count" % (name, what))
            continue
        same(R, r, fn, what + ":first", s.inits[v[2]], ZERO, "%s are tried from the first" % what, tr.ins)
        same(R, r, fn, what, s.cont * (ONE - s.leave), lt0(x - g(n)), "all %s are tried" % what, tr.ins)
    # what the variables of the innermost loop stand for
    ap = [e for e in I.events if e.name == "appendBeliefList"]
    if len(ap) != 1:
        R.undecided(r, name + ": adding a point not recognised")
        return
    lst = lv_of(ap[0].args[0])
    if not lst or lst[1] != I.h or lst[2] not in I.vars:
        R.undecided(r, name + ": list not recognised")
        return
    role = {}
    for i in I.vars:
        h, j, chain = I.h, i, []
        while True:
            chain.append((h, j))
            x = by[h].inits[j]
            t = lv_of(x)
            if t and t[1] in by and t[2] in by[t[1]].vars:
                h, j = t[1], t[2]
                continue
            role[i] = (x, chain)
            break
    cnt = [i for i in I.vars if role[i][0] == call("sizeBeliefList", A("arg", 0))]
    def world(W):
        W.results["transformBeliefState"] = lambda k, a: W.tr if k == "ev" else None
        W.results["findBeliefState"] = lambda k, a: W.fd if k != "out" else None
        W.results["appendBeliefList"] = lambda k, a: 777 if k == "ev" else None
        W.tr, W.fd = W.r.choice((0, 1)), W.r.choice((0, 0, 88))
        env = {}
        for s in st:
            for i in s.vars:
                env[aid(s.vars[i].atom())] = W.r.randint(20, 60)
                env[aid(A("lv", s.h, i, "after", ()).atom())] = W.r.randint(20, 60)
        return env

    if not cnt:
        sz = {t for q in st for p in [q.cont, q.leave] + list(q.nexts.values()) + list(q.inits.values()) for a in p.atoms() for t in (ALIST[b] for b in poly._all_ids(a)) if t[0] == "call" and t[1] == "sizeBeliefList"}
        if sz and all(t == call("sizeBeliefList", A("arg", 0)).atom() for t in sz):
            R.bad(r, name + ":count", "%s: the points added are not counted against the limit" % ap[0].ins.where())
        else:
            R.undecided(r, name + ": number of points not recognised")
    ob = lv_of(tr.args[3])

    def noted(i):
        """becomes the same number, not zero, whenever a point is added"""
        if i in cnt or i == lst[2] or ob and i == ob[2] or len(role[i][1]) < 2 or role[i][0].const() is None:
            return False
        out = set()
        for seed in range(60):
            W = World(seed)
            env = world(W)
            W.tr, W.fd = 1, 0
            try:
                out.add(W.model().ev(I.nexts[i], env))
            except (Skip, Unable):
                return False
        return len(out) == 1 and out != {0}
    flg = [i for i in I.vars if noted(i)]

    def added(W):
        env = world(W)
        M = W.model()
        g_ = M.ev(ap[0].guard, env)
        if bool(g_) != (W.tr != 0 and W.fd == 0):
            raise Differs("a successor that is %s and %s list is %s" % ("possible" if W.tr else "not possible", "on the" if W.fd else "not on the", "added" if g_ else "not added"))
        for x, e in ((tr.args[1], "successor"),):
            if M.ev(ap[0].args[1], env) != M.ev(x, env):
                raise Differs("what is added is not the successor")
        w = 777 if W.tr and not W.fd else env[aid(I.vars[lst[2]].atom())]
        if M.ev(I.nexts[lst[2]], env) != w:
            raise Differs("the list does not go on with the point added")
        for i in cnt:
            o = env[aid(I.vars[i].atom())]
            if M.ev(I.nexts[i], env) != o + int(bool(W.tr and not W.fd)):
                raise Differs("the number of points is wrong after a point is %s" % ("added" if W.tr and not W.fd else "not added"))
        for i in flg:
            o = env[aid(I.vars[i].atom())] = W.r.choice((0, 1))
            M = W.model()
            x = M.ev(I.nexts[i], env)
            if bool(x) != bool(o or (W.tr and not W.fd)):
                raise Differs("a point was%s added in this pass, which is noted as %s" % ("" if o or (W.tr and not W.fd) else " not", bool(x)))
    fb = {t for a in ap[0].guard.atoms() for t in (ALIST[b] for b in poly._all_ids(a)) if t[0] == "call" and t[1] == "findBeliefState"}
    if len(fb) == 1:
        t = fb.pop()
        same(R, r, fn, "lookup", tok("f", *t[2]), tok("f", I.vars[lst[2]], tr.args[1], A("arg", 2)), "the successor is looked up on the list", ap[0].ins)
    else:
        R.undecided(r, name + ": looking up a point not recognised")
    trial(R, r, fn, "added", "a possible successor that is not on the list is added to it", added)
    # the looking up
    # the walk over the list
    pt = P(tr.args[0])
    walk = None
    for s in st:
        for i in s.vars:
            if strip_old(pt) == fld(s.vars[i], BL + "b"):
                walk = (s, i)
    if walk is None:
        R.undecided(r, name + ": the point searched from is not recognised")
        return
    s, i = walk
    x = s.vars[i]
    sub = [q for q in st if set(q.body) < set(s.body) and not any(set(q.body) < set(t.body) < set(s.body) for t in st)]
    ac = [c for c in cnt if any(h == s.h for h, j in role[c][1])]
    cj = [j for c in ac for h, j in role[c][1] if h == s.h]
    sj = [(h, j) for c in ac for h, j in role[c][1] for q in sub if h == q.h]

    def walking(W):
        env = world(W)
        p = env[aid(x.atom())] = W.r.choice((0, 5, 6, 7))
        lim = env[aid(A("arg", 1).atom())] = W.r.randint(20, 60)
        for q in (5, 6, 7):
            W.put(BL + "mark", q, W.r.choice((0, 0, 1)))
            W.put(BL + "next", q, 40 + q)
        W.results["loop"] = lambda k, a: 40 + p if k == "out" and a[1] == ("fd", BL + "next") else None
        for j in cj:
            if env[aid(s.vars[j].atom())] > lim:
                raise Skip      # no further step is made
        M = W.model()
        c = M.ev(s.cont, env)
        if p == 0:
            if c and not M.ev(s.leave, env):
                raise Differs("the walk goes on behind the end of the list")
            return
        mk = W(("fd", BL + "mark"), (p,))
        over = sj and env[aid(A("lv", sj[0][0], sj[0][1], "after", ()).atom())] > lim
        for q in sub:
            if q.events or any(set(t.body) <= set(q.body) and t is I for t in st):
                k = bool(M.ev(q.guard, env))
                if k and mk:
                    raise Differs("a point that was searched from before is searched from again")
                if c and not k and not mk:
                    raise Differs("a point that was not searched from before is passed over")
        nm = mk
        for e in s.log:
            if e.kind == "set" and e.region == ("fd", BL + "mark") and M.ev(e.guard, env):
                if M.ev(e.idx[0], env) == p:
                    nm = M.ev(e.val, env)
                elif not e.vd:
                    raise Differs("another point is marked as searched")
        if not nm and not [e for e in s.log if e.kind == "havoc" and "mark" in str(e.region)]:
            raise Differs("the point is not marked as searched from")
        if not sj:
            return
        lv = bool(M.ev(s.leave, env))
        if not mk and not over and lv:
            raise Differs("the search ends although the limit is not exceeded")
        n = M.ev(s.nexts[i], env)
        ended = not mk and over and n == 0
        if not lv and not ended and n != 40 + p:
            raise Differs("the walk does not go on with the next point")
        if not mk and over and not lv and not ended:
            # the walk may also end where it decides to go on
            e2 = dict(env)
            e2[aid(x.atom())] = 5 if p != 5 else 6
            for j in cj:
                e2[aid(s.vars[j].atom())] = env[aid(A("lv", sj[0][0], sj[0][1], "after", ()).atom())]
            M2 = W.model()
            if M2.ev(s.cont, e2) and not M2.ev(s.leave, e2):
                raise Differs("the search goes on although the limit is exceeded")
    trial(R, r, fn, "walk", "points not yet searched from are, once each, until the limit is exceeded", walking)
    same(R, r, fn, "first", strip_old(s.inits[i]), [strip_old(y) for y in starts(st, s, lst, role)], "the walk starts at the first point", tr.ins)
    for c in flg:
        j = [j for h, j in role[c][1] if h == s.h]
        if len(j) == 1:
            same(R, r, fn, "none", ONE - eq0(s.inits[j[0]]), ZERO, "at the start of a pass nothing was added", tr.ins)
    # one pass after the other
    outer = [q for q in st if set(s.body) < set(q.body)]
    if len(outer) != 1:
        R.undecided(r, name + ": passes not recognised")
        return
    O = outer[0]
    oc = [j for c in cnt for h, j in role[c][1] if h == O.h]
    wf = [j for c in flg for h, j in role[c][1] if h == s.h]
    of = []
    for j in O.vars:
        if any(A("lv", s.h, w, "after", ()).atom() in [ALIST[b] for a in O.nexts[j].atoms() for b in poly._all_ids(a)] for w in wf):
            of.append(j)
    if len(oc) != 1 or len(of) != 1:
        R.undecided(r, name + ": conditions of the passes not recognised")
        return

    def passes(W):
        env = world(W)
        lim = env[aid(A("arg", 1).atom())] = W.r.randint(30, 50)
        n = env[aid(O.vars[oc[0]].atom())] = W.r.randint(30, 50)
        fl = env[aid(O.vars[of[0]].atom())] = W.r.choice((0, 1))
        M = W.model()
        go = bool(M.ev(O.cont, env)) and not M.ev(O.leave, env)
        if go != bool(n <= lim and fl):
            raise Differs("%d points, limit %d, %s added in the last pass: the search %s" % (n, lim, "some" if fl else "none", "goes on" if go else "ends"))
        if not M.ev(O.inits[of[0]], env):
            raise Differs("nothing is searched in the first pass")
    trial(R, r, fn, "passes", "passes go on while points are added and the limit is not exceeded", passes)
    ol = [j for h, j in role[lst[2]][1] if h == O.h]
    if len(ol) == 1 and K.ret is not None:
        def result(W):
            env = world(W)
            a = env[aid(A("arg", 0).atom())] = W.r.choice((0, 44))
            z = env[aid(A("lv", O.h, ol[0], "after", ()).atom())]
            M = W.model()
            x = M.ev(K.ret, env)
            if x != (z if a else 0) and (a or x != z):
                raise Differs("the result is not the list with the points added")
        trial(R, r, fn, "result", "the result is the list with the points added", result)


def starts(st, s, lst, role):
    """the first point: the list as it is, by any of its names; the first node is the same one throughout"""
    out = [A("arg", 0)]
    for h, j in role[lst[2]][1]:
        for q in st:
            if q.h == h and set(s.body) < set(q.body):
                out.append(q.vars[j])
        for q in st:
            if q is s and q.h == h:
                out.append(q.inits[j])
    return out


def strip_old(p):
    p = P(p)
    for _ in range(4):
        at = [ALIST[b] for a in p.atoms() for b in poly._all_ids(a)]
        o = [t for t in at if t[0] == "old"]
        if not o:
            return p
        for t in o:
            p = subst(p, {aid(t): P(t[1])})
    return p


def first_(s, name):
    return [e for e in s.events if e.name == name][0]


# ------------------------------------------------------------------ the type

def grid(Pg, R):
    r = "grid"
    F = get(Pg, R, r, "initFiniteGrid")
    if F:
        ty = {k: enum_of(Pg, T + k) for k in GEN}
        alls = sorted({n for x in GEN.values() for n in x})
        there = {e.name for e in F.K.events}
        if any(v is None for v in ty.values()) or not set(alls) & there:
            R.undecided(r, "initFiniteGrid: generators not recognised")
        else:
            def one(W):
                k = W.r.choice(sorted(GEN))
                n = W.r.randint(1, 5)
                W.g("gNumStates", n)
                p, o = params(W)
                W.put(OP + "finite_grid_type", o, ty[k])
                sv = W.put(OP + "finite_grid_save", o, W.r.choice((0, 1)))
                f = W.put(PR + "report_file", p, W.new())
                W.g("gFiniteGrid", 0)
                for x in alls:
                    W.results[x] = lambda kd, a, x=x: 10 ** 7 + alls.index(x)
                W.results["sizeBeliefList"] = lambda kd, a: a[0][0] + 1 if kd == "call" else a[2][0] + 1 if kd == "ev" else None
                M = W.model()
                env = {aid(F.arg(0).atom()): p}
                got = sorted(nm for nm, a in rint.calls(F.K.events, M, env, set(alls)))
                if not set(GEN[k]) <= there and set(got) <= set(GEN[k]):
                    raise Skip
                if got != GEN[k]:
                    raise Differs("grid type \"%s\": calls %s, expected %s" % (k, " ".join(got) or "nothing", " ".join(GEN[k])))
                gr = M.ev(final_g(F, "gFiniteGrid"), env)
                if len(GEN[k]) == 1 and GEN[k][0].startswith("gen") and gr != 10 ** 7 + alls.index(GEN[k][0]):
                    raise Differs("grid type \"%s\": the grid is not the list generated" % k)
                ca = [a for nm, a in rint.calls(F.K.events, M, env, {"saveBeliefList"})]
                if bool(ca) != bool(sv):
                    raise Differs("the grid is %ssaved when that is %sasked for" % ("" if ca else "not ", "" if sv else "not "))
                if ca and ca[0][0] != gr:
                    raise Differs("what is saved is not the grid")
            trial(R, r, F, "type", "the grid is made as its type says, and saved when asked for", one)
            sp = [e for e in F.K.events if e.name in ("sprintf", "snprintf")]
            sb = F.events("saveBeliefList")
            if len(sp) == 1 and len(sb) == 1:
                a = sp[0].args
                k = 1 if sp[0].name == "sprintf" else 2
                t = a[k].atom()
                R.check(r, not (t and t[0] == "str" and isinstance(t[1], str)) or t[1] == "%s.belief", "initFiniteGrid:name", "%s: the grid is saved to a file called \"%s\"" % (sp[0].ins.where(), t[1] if t else ""))
                same(R, r, F, "buffer", tok("f", sb[0].args[1]), tok("f", a[0]), "the grid is saved under the name made up for it", sb[0].ins)
            else:
                R.undecided(r, "initFiniteGrid: file name not recognised")
        al = [e for e in F.K.events if e.res is not None and e.res == final_g(F, "gFGTempBelief")]
        if len(al) == 1 and len(al[0].args) == 2:
            same(R, r, F, "work", al[0].args[0] * al[0].args[1], 8 * S_, "the work area holds one number a state", al[0].ins)
            i = F.K.events.index(al[0])
            j = [F.K.events.index(e) for x in GEN.values() for n in x for e in F.K.events if e.name == n]
            R.check(r, not j or i < min(j), "initFiniteGrid:order", "%s: the work area is made after points are put on the grid" % al[0].ins.where())
        else:
            R.undecided(r, "initFiniteGrid: work area not recognised")
    F = get(Pg, R, r, "cleanUpFiniteGrid")
    if F:
        same(R, r, F, "clean", final_g(F, "gFiniteGrid"), ZERO, "no grid is left")
        d = F.events("destroyBeliefList")
        if len(d) == 1:
            same(R, r, F, "destroy", tok_cases("d", d[0].args, d[0].guard), [tok("d", g("gFiniteGrid")), tok_cases("d", (g("gFiniteGrid"),), ONE - eq0(g("gFiniteGrid")))], "the grid is destroyed", d[0].ins)
        else:
            R.check(r, not (not d and not any(has_unknown(e.guard) for e in F.K.events)), "cleanUpFiniteGrid:destroy", "cleanUpFiniteGrid: the grid is not destroyed")


# ------------------------------------------------------------------ improving

def improve(Pg, R):
    r = "improve"
    F = get(Pg, R, r, "improveFiniteGrid")
    if not F:
        return
    nl = [e for e in F.events("newAlphaList")]
    mk = F.events("makeAlphaVector")
    pu = F.events("purgeAlphaList")
    if len(nl) != 1 or not mk or has_unknown(F.ret):
        R.undecided(r, "improveFiniteGrid: lists not recognised")
        return
    new = nl[0].res
    pj, prm = F.arg(0), F.arg(1)
    same(R, r, F, "result", tok("r", F.ret), tok("r", new), "the result is the list of the vectors made")
    if all(e.vd for e in mk):
        got = ZERO
        for e in mk:
            x = tok_cases("m", e.args, e.guard)
            for v, d in reversed(e.vd):
                x = mk_sum(v, d, x)
            got = got + x
        want = SUM(LIST(g("gFiniteGrid"), BL + "next"), lambda b: tok("m", new, pj, fld(b, BL + "b"), fld(prm, PR + "alpha_epsilon")))
        same(R, r, F, "points", got, want, "every grid point gets its best vector", mk[0].ins)
    else:
        R.undecided(r, "improveFiniteGrid: walk over the grid not recognised")
    if len(pu) == 1:
        same(R, r, F, "purge", tok_cases("p", pu[0].args, pu[0].guard), tok("p", new, fld(prm, PR + "fg_purge_option"), prm), "the vectors are purged as the grid option says", pu[0].ins)
        R.check(r, F.K.events.index(pu[0]) > max(F.K.events.index(e) for e in mk), "improveFiniteGrid:order", "%s: vectors are purged before all are made" % pu[0].ins.where())
    else:
        R.check(r, len(pu) > 0 or any(has_unknown(e.guard) for e in F.K.events), "improveFiniteGrid:purge", "improveFiniteGrid: the vectors are not purged")
