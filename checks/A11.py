"""Lists of vectors: every operation leaves a well-formed list with exactly the vectors it should have."""
from fractions import Fraction
import core, step
from spec import *
from lists import *
from lists import run as run_fn

TITLE = "list operations keep exactly the vectors they should"
INL = ("newAlphaNode newAlphaList initAlphaList destroyAlphaNode appendNodeToAlphaList prependNodeToAlphaList dequeueAlphaNode enqueueAlphaNode appendAlphaList prependAlphaList "
       "destroyAlpha clearAlphaList newAlpha copyAlpha duplicateAlpha extractAlphaNode extractFromAlphaList extractUnmarkedVector duplicateAlphaNode newObsSourceArray "
       "duplicateObsSourceArray newAlphaNodeObsSource addWitnessToAlphaNode destroyAlphaList swapPointersAlphaList appendDuplicateNodeToAlphaList").split()
ALLOCS = ("XA_malloc", "XA_calloc", "malloc", "calloc")


def run(Pg, R):
    R.rule("add", "appending and prepending put exactly the one vector at the end or the front, its links and count right", 1)
    R.rule("take", "taking out the first, a given, a found, the best or an unmarked vector removes exactly it; when there is none the list stays as it was", 1)
    R.rule("node", "a new node holds the vector and action given and nothing else; a duplicate holds its own copies of vector, witness and choices and the same sources", 1)
    R.rule("copy", "a copy has the same vectors in the same order, each with its own memory, and the marks, ids and sources of the original", 1)
    R.rule("clear", "clearing and destroying a list release every node once and leave it empty", 1)
    R.rule("union", "a union appends all vectors of the second list to the first and releases only the header of the second", 1)
    R.rule("marks", "marks are cleared, set and asked for on all vectors; extracting the marked ones splits the list into marked and unmarked, in order", 1)
    R.rule("sort", "sorting only rearranges the vectors, in lexicographic order", 1)
    R.rule("same", "two lists are the same when they have the same vectors in the same order; the largest size is that of some list", 1)
    V = core.view(*INL)
    S = lambda W: W.g("gNumStates", W.r.randint(1, 3))

    def G(name, rule):
        return get(V, R, rule, name)

    def find(W):
        """stand-ins for the searches, which A05 is about"""
        W.g("gNumStates", W.cells.get((("g", "gNumStates"), ()), 2))

        def seek(kind, args):
            l, al = args[-1][0], args[-1][1]
            p = W(("fd", LT + "head"), (l,))
            row = lambda a: [W(("mem",), (a, i)) for i in range(W(("g", "gNumStates"), ()))]
            while p:
                if row(W(("fd", LT + "alpha"), (p,))) == row(al):
                    return p
                p = W(("fd", LT + "next"), (p,))
            return 0

        def unmarked(kind, args):
            p = W(("fd", LT + "head"), (args[-1][0],))
            while p and W(("fd", LT + "mark"), (p,)):
                p = W(("fd", LT + "next"), (p,))
            return p
        W.results["findAlphaVector"] = lambda k, a: seek(k, a) if k == "call" else None
        W.results["findUnmarkedVector"] = lambda k, a: unmarked(k, a) if k == "call" else None

    def row(rd, p, n):
        return [rd(("mem",), p, i) for i in range(n)]

    def number(W, rd, x, nodes, front):
        """a vector put in is numbered on from its neighbour"""
        f = ("fd", LT + "id")
        want = 0 if not nodes else W(f, (nodes[0],)) - 1 if front else W(f, (nodes[-1],)) + 1
        if rd(f, x) != want:
            raise Differs("the id of the new vector is %s, expected %s" % (rd(f, x), want))

    # ------------------------------------------------ adding
    for nm, front in (("appendNodeToAlphaList", 0), ("prependNodeToAlphaList", 1), ("enqueueAlphaNode", 0)):
        F = get(core.view("appendNodeToAlphaList") if nm == "enqueueAlphaNode" else Pg, R, "add", nm)
        if F:
            def one(W):
                n = S(W)
                lst, nodes = new_list(W, n, W.r.randint(0, 3))
                # a node that is put in stands alone before
                x = new_node(W, n, next=0)
                rd, M, env, unk_ = run_fn(F, W, lst, x)
                expect(rd, lst, [x] + nodes if front else nodes + [x])
                number(W, rd, x, nodes, front)
            trial(R, "add", F, "list", "list afterwards", one)
    for nm, front in (("appendAlphaList", 0), ("prependAlphaList", 1)):
        F = G(nm, "add")
        if F:
            def one(W):
                n = S(W)
                lst, nodes = new_list(W, n, W.r.randint(0, 3))
                al, act = W.array([1] * n), W.r.randint(0, 5)
                rd, M, env, unk_ = run_fn(F, W, lst, al, act)
                x = M.ev(F.ret, env)
                expect(rd, lst, [x] + nodes if front else nodes + [x])
                if rd(LT + "alpha", x) != al or rd(LT + "action", x) != act:
                    raise Differs("the new node has not the vector and action given")
                number(W, rd, x, nodes, front)
            trial(R, "add", F, "list", "list afterwards", one)
    F = G("appendUniqueAlphaList", "add")
    if F:
        def one(W):
            n = S(W)
            find(W)
            lst, nodes = new_list(W, n, W.r.randint(0, 3))
            old = W.r.choice(nodes) if nodes and W.r.randint(0, 1) else None
            al = W.array(vals(W, old) if old else [7] * n)
            rd, M, env, unk_ = run_fn(F, W, lst, al, 3, Fraction(1, 1000))
            x = M.ev(F.ret, env)
            if old:
                expect(rd, lst, nodes)
                if x != 0:
                    raise Differs("a node is returned though the vector was there")
            else:
                expect(rd, lst, nodes + [x])
        trial(R, "add", F, "list", "list afterwards", one)

    # ------------------------------------------------ nodes
    F = get(Pg, R, "node", "newAlphaNode")
    if F:
        for f, w in (("alpha", F.arg(0)), ("action", F.arg(1)), ("next", ZERO), ("obs_source", ZERO), ("prev_source", ZERO), ("first_source", ZERO), ("second_source", ZERO), ("witness", ZERO), ("mark", ZERO)):
            same(R, "node", F, f, F.field(F.ret, LT + f), w, "field %s of a new node" % f)
    F = get(Pg, R, "node", "initAlphaList")
    if F:
        for f in ("head", "tail", "length", "alpha", "next", "obs_source", "witness", "mark"):
            same(R, "node", F, f, F.field(F.arg(0), LT + f), ZERO, "field %s of an empty list" % f)
    F = G("duplicateAlphaNode", "node")
    if F:
        def one(W):
            n = S(W)
            o = W.g("gNumObservations", W.r.randint(1, 3))
            w = W.array([5] * n) if W.r.randint(0, 1) else 0
            src = W.array([W.r.randint(30, 60) for _ in range(o)]) if W.r.randint(0, 1) else 0
            x = new_node(W, n, witness=w, obs_source=src)
            rd, M, env, unk_ = run_fn(F, W, x)
            y = M.ev(F.ret, env)
            if y == x:
                raise Differs("the node itself is returned")
            for f in ("action", "id", "obs", "prev_source", "first_source", "second_source"):
                if rd(LT + f, y) != rd(LT + f, x):
                    raise Differs("field %s is %s, expected %s" % (f, rd(LT + f, y), rd(LT + f, x)))
            for f, k in (("alpha", n), ("witness", n), ("obs_source", o)):
                p, q = rd(LT + f, x), rd(LT + f, y)
                if (p == 0) != (q == 0) or p and p == q:
                    raise Differs("field %s is %s for %s" % (f, q, p))
                if p and row(rd, p, k) != row(rd, q, k):
                    raise Differs("field %s holds %s, expected %s" % (f, row(rd, q, k), row(rd, p, k)))
            if rd(LT + "next", y) != 0:
                raise Differs("the duplicate is linked to %s" % rd(LT + "next", y))
        trial(R, "node", F, "dup", "duplicate of a node", one)
    F = get(core.view("newAlpha"), R, "node", "addWitnessToAlphaNode")
    if F:
        def one(W):
            n = S(W)
            old = W.r.choice((0, W.array([4] * n)))
            x = new_node(W, n, witness=old)
            w = W.array([W.r.randint(0, 9) for _ in range(n)])
            rd, M, env, unk_ = run_fn(F, W, x, w)
            p = rd(LT + "witness", x)
            if p in (0, w, old) or row(rd, p, n) != row(rd, w, n):
                raise Differs("the witness is not a copy of the point")
            fr = [a[0] for c, a in calls(F.K.events, M, env, ("free",))]
            if fr != ([old] if old else []):
                raise Differs("released: %s, expected the old witness %s" % (fr, old))
        trial(R, "node", F, "witness", "witness of a node", one)
    F = G("appendDuplicateNodeToAlphaList", "node")
    if F:
        def one(W):
            n = S(W)
            W.g("gNumObservations", 1)
            lst, nodes = new_list(W, n, W.r.randint(0, 3))
            x = new_node(W, n)
            rd, M, env, unk_ = run_fn(F, W, lst, x)
            y = M.ev(F.ret, env)
            expect(rd, lst, nodes + [y])
            if row(rd, rd(LT + "alpha", y), n) != vals(W, x):
                raise Differs("the new node has another vector")
        trial(R, "node", F, "append", "duplicate appended", one)

    # ------------------------------------------------ taking out
    F = get(Pg, R, "take", "dequeueAlphaNode")
    if F:
        def one(W):
            n = S(W)
            lst, nodes = new_list(W, n, W.r.randint(0, 3))
            rd, M, env, unk_ = run_fn(F, W, lst)
            x = M.ev(F.ret, env)
            if x != (nodes[0] if nodes else 0):
                raise Differs("takes %s from %s" % (x, nodes))
            expect(rd, lst, nodes[1:])
            if x and rd(LT + "next", x) != 0:
                raise Differs("the vector taken is still linked")
        trial(R, "take", F, "list", "first vector", one)

    def taker(nm, prep, what, ret=True):
        F = G(nm, "take")
        if not F:
            return

        def one(W):
            n = S(W)
            find(W)
            lst, nodes = new_list(W, n, W.r.randint(0, 4))
            x, args = prep(W, n, lst, nodes)
            rd, M, env, unk_ = run_fn(F, W, lst, *args)
            expect(rd, lst, [y for y in nodes if y != x])
            if ret:
                got = M.ev(F.ret, env)
                if got != (x or 0):
                    raise Differs("returns %s, expected %s" % (got, x or 0))
            else:
                if M.ev(F.ret, env) != (1 if x else 0):
                    raise Differs("returns %s" % M.ev(F.ret, env))
                fr = [a[0] for c, a in calls(F.K.events, M, env, ("free",))]
                if fr.count(x) != (1 if x else 0) or any(y in fr for y in nodes if y != x):
                    raise Differs("released: %s, expected only %s" % (fr, x))
            if x and ret and rd(LT + "next", x) != 0:
                raise Differs("the vector taken is still linked")
        trial(R, "take", F, "list", what, one)

    def p_given(W, n, lst, nodes):
        x = W.r.choice(nodes) if nodes and W.r.randint(0, 4) else None
        return x, (x if x else W.r.choice((0, new_node(W, n))),)

    def p_found(W, n, lst, nodes):
        c = W.r.choice(nodes) if nodes and W.r.randint(0, 3) else None
        v = vals(W, c) if c else [77] * n
        x = next((y for y in nodes if vals(W, y) == v), None)
        return x, (W.array(v), Fraction(1, 1000))

    def p_unm(W, n, lst, nodes):
        return next((y for y in nodes if not W(("fd", LT + "mark"), (y,))), None), ()

    def p_best(W, n, lst, nodes):
        if not nodes:
            raise Skip
        x = W.r.choice(nodes)
        W.results["bestVector"] = lambda k, a: x if k in ("ev", "call") else None
        return x, (W.array([0] * n), 0)
    taker("extractAlphaNode", p_given, "a given vector")
    taker("extractFromAlphaList", p_found, "a vector found by value")
    taker("extractUnmarkedVector", p_unm, "the first unmarked vector")
    taker("removebestVectorNode", p_best, "the best vector")
    taker("removeFromAlphaList", p_found, "a vector found by value", ret=False)

    # ------------------------------------------------ clearing
    for nm in ("clearAlphaList", "destroyAlphaList"):
        F = get(core.view("initAlphaList", "clearAlphaList"), R, "clear", nm)
        if F:
            def one(W):
                n = S(W)
                lst, nodes = new_list(W, n, W.r.randint(0, 3))
                rd, M, env, unk_ = run_fn(F, W, lst)
                d = [a[0] for c, a in calls(F.K.events, M, env, ("destroyAlphaNode",))]
                if sorted(d) != sorted(nodes):
                    raise Differs("nodes destroyed: %s, of %s" % (d, nodes))
                fr = [a[0] for c, a in calls(F.K.events, M, env, ("free",))]
                if fr != ([lst] if nm == "destroyAlphaList" else []):
                    raise Differs("released: %s" % fr)
                if nm == "clearAlphaList":
                    expect(rd, lst, [])
            # the header that stays must be empty
            trial(R, "clear", F, "list", "nodes released", one)
    F = get(core.view("destroyAlpha"), R, "clear", "destroyAlphaNode")
    if F:
        def one(W):
            n = S(W)
            x = new_node(W, n, witness=W.r.choice((0, W.new())), obs_source=W.r.choice((0, W.new())))
            rd, M, env, unk_ = run_fn(F, W, x)
            fr = sorted(a[0] for c, a in calls(F.K.events, M, env, ("free",)))
            f0 = lambda f: W(("fd", LT + f), (x,))
            want = sorted(p for p in (f0("alpha"), f0("witness"), f0("obs_source"), x) if p)
            if [p for p in fr if p] != want:
                raise Differs("released: %s, expected %s" % (fr, want))
        trial(R, "clear", F, "node", "memory of a node", one)
    F = get(Pg, R, "clear", "clearObsSourceAlphaList")
    if F:
        def one(W):
            n = S(W)
            lst, nodes = new_list(W, n, W.r.randint(0, 3), obs_source=lambda j: W.r.choice((0, W.new())))
            rd, M, env, unk_ = run_fn(F, W, lst)
            fr = sorted(a[0] for c, a in calls(F.K.events, M, env, ("free",)))
            want = sorted(W(("fd", LT + "obs_source"), (x,)) for x in nodes)
            if [p for p in fr if p] != [p for p in want if p]:
                raise Differs("released: %s, expected %s" % (fr, want))
            for x in nodes:
                if rd(LT + "obs_source", x) != 0:
                    raise Differs("choices of a vector are left")
        trial(R, "clear", F, "obs", "choices released", one)

    # ------------------------------------------------ union
    F = get(Pg, R, "union", "unionTwoAlphaLists")
    if F:
        def one(W):
            n = S(W)
            a, na = new_list(W, n, W.r.randint(0, 3))
            b, nb = new_list(W, n, W.r.randint(0, 3))
            rd, M, env, unk_ = run_fn(F, W, a, b)
            expect(rd, a, na + nb, order=False)
            fr = [x[0] for c, x in calls(F.K.events, M, env)]
            if fr != [b]:
                raise Differs("released: %s, expected the header %s" % (fr, b))
        trial(R, "union", F, "list", "union", one)

    # ------------------------------------------------ marks
    for nm, v in (("clearMarkAlphaList", 0), ("markAllAlphaList", 1)):
        F = get(Pg, R, "marks", nm)
        if F:
            x = fresh(LIST(fld(F.arg(0), LT + "head")))
            some = ONE - eq0(F.arg(0))
            same(R, "marks", F, "all", some * F.field(x, LT + "mark"), some * v, "marks afterwards")
    F = get(Pg, R, "marks", "allMarkedAlphaList")
    if F:
        some = ONE - eq0(F.arg(0))
        same(R, "marks", F, "ret", some * F.ret, some * ALL(LIST(fld(F.arg(0), LT + "head")), lambda x: ONE - eq0(fld(x, LT + "mark"))), "all marked")

    def split():
        """one iteration of taking out the marked vectors, from any position"""
        F = get(Pg, R, "marks", "extractMarkedAlphaList")
        if not F:
            return
        Vx = core.view("newAlphaList", "initAlphaList")
        st, K = step.steps(Vx, "extractMarkedAlphaList")
        mk = [e for e in K.events if e.name in ALLOCS]
        ret = getattr(K, "ret", None)
        if len(st) != 1 or not K.whole:
            R.undecided("marks", "extractMarkedAlphaList: one loop expected")
            return
        s = st[0]
        ap = [e for e in s.events if e.name in ("appendNodeToAlphaList", "enqueueAlphaNode", "prependNodeToAlphaList")]
        lst = F.arg(0)
        # the loop variables: the position, and the one behind it
        pos = [i for i in s.vars if any(depends(s.cont, s.vars[i]) for _ in (0,))]
        if len(pos) != 1 or len(s.vars) > 2:
            R.undecided("marks", "extractMarkedAlphaList: loop variables not recognised")
            return
        pos = pos[0]
        other = [i for i in s.vars if i != pos]
        if s.inits[pos] != fld(lst, LT + "head") or any(s.inits[i] not in (fld(lst, LT + "head"), ZERO) for i in other):
            R.undecided("marks", "extractMarkedAlphaList: start of the loop not recognised")
            return
        behind0 = {i: s.inits[i] for i in other}

        def one(W):
            n = S(W)
            l, nodes = new_list(W, n, W.r.randint(1, 4))
            k = W.r.randint(0, len(nodes) - 1)
            # a vector before the position is unmarked (they were taken out otherwise)
            for y in nodes[:k]:
                W.put(LT + "mark", y, 0)
            M = W.model()
            env = {aid(lst.atom()): l, aid(s.vars[pos].atom()): nodes[k]}
            trail = nodes[k - 1] if k else None
            for i in other:
                env[aid(s.vars[i].atom())] = trail if k else (nodes[0] if behind0[i].m else 0)
            if not M.ev(s.cont, env):
                raise Differs("the loop ends at a vector")
            if M.ev(s.leave, env):
                raise Differs("the loop is left at a vector")
            mem, unknown = replay(s.log, M, env)
            rd = Read(W, M, mem)
            marked = W(("fd", LT + "mark"), (nodes[k],)) != 0
            took = calls(s.events, M, env, tuple(e.name for e in ap))
            if [a[1] for c, a in took] != ([nodes[k]] if marked else []):
                raise Differs("vector %s %smarked: taken %s" % (nodes[k], "" if marked else "un", [a[1] for c, a in took]))
            # links of the taken vector are set again when it is appended
            expect(rd, l, [y for y in nodes if y != nodes[k] or not marked])
            nxt = nodes[k + 1] if k + 1 < len(nodes) else 0
            if M.ev(s.nexts[pos], env) != nxt:
                raise Differs("goes on with %s, expected %s" % (M.ev(s.nexts[pos], env), nxt))
            for i in other:
                t = M.ev(s.nexts[i], env)
                rest = [y for y in nodes[:k + 1] if y != nodes[k] or not marked]
                if nxt and t != (rest[-1] if rest else (nxt if behind0[i].m else 0)):
                    raise Differs("the vector behind is %s, expected %s" % (t, rest[-1] if rest else nxt))
            if marked and rd(LT + "mark", nodes[k]) != 0:
                raise Differs("a taken vector stays marked")
            if marked and rd(LT + "next", nodes[k]) != 0:
                raise Differs("a taken vector stays linked")
        trial(R, "marks", F, "split", "marked vectors taken out", one, 120)
        if ap and all(e.args[0] == ap[0].args[0] for e in ap):
            same(R, "marks", F, "ret", K.ret, ap[0].args[0], "the list of the vectors taken")
            same(R, "marks", F, "order", P(sum(1 for e in ap if e.name == "prependNodeToAlphaList")), ZERO, "order of the vectors taken")
    split()

    F = get(core.view("destroyAlphaList"), R, "marks", "removeMarkedAlphaList")
    if F:
        ev = F.events("extractMarkedAlphaList")
        if len(ev) == 1 and not ev[0].vd:
            same(R, "marks", F, "call", F.esum("extractMarkedAlphaList"), tok("extractMarkedAlphaList", F.arg(0)), "marked vectors are taken out")
            x = ev[0].res
            same(R, "marks", F, "free", F.esum("clearAlphaList") + F.esum("free"), [tok("clearAlphaList", x) + tok("free", x), tok("clearAlphaList", x) + (ONE - eq0(x)) * tok("free", x)], "they are destroyed")
            same(R, "marks", F, "count", before(F.ret), fld(x, LT + "length"), "their number")
        else:
            R.undecided("marks", "removeMarkedAlphaList: extraction not found")
    F = get(Pg, R, "marks", "removeDominatedAlphaList") if "removeDominatedAlphaList" in Pg.funcs else None
    if F:
        ev = F.events("removeMarkedAlphaList", "markDominatedAlphaList", "clearMarkAlphaList")
        same(R, "marks", F, "ev", F.esum("removeMarkedAlphaList", "markDominatedAlphaList", "clearMarkAlphaList"),
             tok("clearMarkAlphaList", F.arg(1)) + tok("markDominatedAlphaList", F.arg(0), F.arg(1)) + tok("removeMarkedAlphaList", F.arg(1)), "dominated vectors are marked and removed")
        if [e.name for e in ev] != ["clearMarkAlphaList", "markDominatedAlphaList", "removeMarkedAlphaList"] and len(ev) == 3:
            R.bad("marks", "removeDominatedAlphaList:order", "%s:%d (removeDominatedAlphaList): order is %s" % (F.f.file, F.f.line, [e.name for e in ev]))

    # ------------------------------------------------ copies
    Vc = core.view("newAlpha", "copyAlpha", "duplicateAlpha", "newAlphaNode", "appendAlphaList", "prependAlphaList", "newAlphaList", "initAlphaList")
    F = get(Vc, R, "copy", "copyAlphaList")
    if F:
        st, K = step.steps(Vc, "copyAlphaList")
        s = [x for x in st if any(e.name in ("appendNodeToAlphaList", "enqueueAlphaNode") for e in x.events)]
        for f in ("head", "tail", "length"):
            pre = [e for e in F.K.log if e.kind == "set" and e.region == ("fd", LT + f) and not e.vd and e.idx == (F.arg(0),)]
            if pre:
                same(R, "copy", F, "start " + f, pre[0].val, ZERO, "%s of the copy before the first vector" % f)
            elif any(e.kind == "havoc" and e.val and e.val[0] in ("initAlphaList", "clearAlphaList") for e in F.K.log):
                pass
            else:
                R.bad("copy", "copyAlphaList:start " + f, "%s:%d (copyAlphaList): the %s of the copy is not set before vectors are appended" % (F.f.file, F.f.line, f))
        if len(s) == 1 and len(s[0].vars) == 1:
            s = s[0]
            (i, x), = s.vars.items()
            same(R, "copy", F, "first", s.inits[i], fld(F.arg(1), LT + "head"), "the copy begins with the first vector")
            same(R, "copy", F, "next", before(s.nexts[i]), fld(x, LT + "next"), "the copy goes on with the next vector")
            same(R, "copy", F, "cont", s.cont * (ONE - s.leave), ONE - eq0(x), "the copy ends after the last vector")
            ap = [e for e in s.events if e.name in ("appendNodeToAlphaList", "enqueueAlphaNode", "prependNodeToAlphaList")]
            same(R, "copy", F, "append", sum((tok_sum(e) for e in ap), ZERO), tok(ap[0].name, F.arg(0), ap[0].args[1]), "one vector is appended for each")

            def one(W):
                n = S(W)
                l, nodes = new_list(W, n, W.r.randint(1, 3))
                k = W.r.randint(0, len(nodes) - 1)
                d, _ = new_list(W, n, 0)
                M = W.model()
                env = {aid(F.arg(0).atom()): d, aid(F.arg(1).atom()): l, aid(x.atom()): nodes[k]}
                mem, unknown = replay(s.log, M, env)
                rd = Read(W, M, mem)
                y = M.ev(ap[0].args[1], env)
                for f in ("action", "id", "obs", "prev_source", "first_source", "second_source", "mark"):
                    if rd(LT + f, y) != W(("fd", LT + f), (nodes[k],)):
                        raise Differs("field %s is %s, expected %s" % (f, rd(LT + f, y), W(("fd", LT + f), (nodes[k],))))
                p = rd(LT + "alpha", y)
                if p == W(("fd", LT + "alpha"), (nodes[k],)) or row(rd, p, n) != vals(W, nodes[k]):
                    raise Differs("the vector is not a copy of its own")
                for f in ("witness", "obs_source"):
                    if rd(LT + f, y) != 0:
                        raise Differs("field %s is shared" % f)
            trial(R, "copy", F, "node", "vector of the copy", one)
        else:
            R.undecided("copy", "copyAlphaList: loop not recognised")
    F = get(Pg, R, "copy", "duplicateAlphaList")
    if F:
        ev = F.events("copyAlphaList", "newAlphaList")
        same(R, "copy", F, "call", F.esum("copyAlphaList"), tok("copyAlphaList", F.ret, F.arg(0)), "the new list is filled from the old one")
        m = F.maker(F.ret)
        R.check("copy", bool(m) and m[0].name == "newAlphaList" or has_unknown(F.ret), "duplicateAlphaList:new", "%s:%d (duplicateAlphaList): result is %s" % (F.f.file, F.f.line, F.ret))
    F = get(Pg, R, "copy", "duplicateAlphaListWithWitnesses") if "duplicateAlphaListWithWitnesses" in Pg.funcs else None
    if F:
        st, K = step.steps(Pg, "duplicateAlphaListWithWitnesses")
        ok = len(st) == 1 and len(st[0].vars) == 2
        if ok:
            s = st[0]
            lead = [i for i in s.vars if s.inits[i] == fld(F.arg(0), LT + "head")]
            if len(lead) == 1:
                a = s.vars[lead[0]]
                b = [s.vars[i] for i in s.vars if i != lead[0]][0]
                same(R, "copy", F, "cont", s.cont * (ONE - s.leave), ONE - eq0(a), "ends after the last vector")
                for i in s.vars:
                    n_ = before(s.nexts[i])
                    same(R, "copy", F, "next%d" % (i == lead[0]), n_, fld(s.vars[i], LT + "next"), "both lists are gone through together")
                got = sum((tok_sum(e) for e in s.events if e.name == "addWitnessToAlphaNode"), ZERO)
                w = fld(a, LT + "witness")
                same(R, "copy", F, "witness", (ONE - eq0(w)) * got, (ONE - eq0(w)) * tok("addWitnessToAlphaNode", b, w), "witnesses of the copies")
                i2 = [s.inits[i] for i in s.vars if i != lead[0]][0]
                i2 = before(i2)
                same(R, "copy", F, "start", i2, fld(F.ret, LT + "head"), "copies begin with the first one")
                same(R, "copy", F, "dup", F.esum("duplicateAlphaList"), tok("duplicateAlphaList", F.arg(0)), "the list is duplicated")
            else:
                R.undecided("copy", "duplicateAlphaListWithWitnesses: loop not recognised")
        else:
            R.undecided("copy", "duplicateAlphaListWithWitnesses: loop not recognised")

    # ------------------------------------------------ sorting
    F = get(Pg, R, "sort", "swapPointersAlphaList")
    if F:
        a, b = F.arg(0), F.arg(1)
        same(R, "sort", F, "x", F.K.final(("mem",), a, ZERO), el(b, ZERO), "first pointer after a swap")
        same(R, "sort", F, "y", F.K.final(("mem",), b, ZERO), el(a, ZERO), "second pointer after a swap")
    F = get(Pg, R, "sort", "quicksortAlphaList")
    if F:
        arr, lo, hi = (F.arg(k) for k in range(3))
        st, K = step.steps(core.view("swapPointersAlphaList"), "quicksortAlphaList")
        raw, _ = step.steps(Pg, "quicksortAlphaList")
        rec = F.events("quicksortAlphaList")
        if len(st) == 1 and len(st[0].vars) == 2 and len(rec) == 2:
            s = st[0]
            cnt = [i for i in s.vars if depends(s.cont, s.vars[i])]
            last = [i for i in s.vars if i not in cnt]
            if len(cnt) == 1 and len(last) == 1:
                i, l = cnt[0], last[0]
                same(R, "sort", F, "start", s.inits[l], lo, "last smaller one before the scan")
                # the cell looked at, for a value of the loop variable
                x = s.vars[i]
                at = []
                for e in s.log:
                    for q in e.guard.atoms():
                        for b in poly._all_ids(q):
                            if ALIST[b][0] == "rd" and ALIST[b][1] == ("mem",):
                                base, k = ALIST[b][2]
                                if base == arr:
                                    at.append(k)
                at = [q for q in at if depends(q, x)]
                if at and all(q == at[0] for q in at):
                    put = lambda v: subst(at[0], {aid(x.atom()): v})
                    same(R, "sort", F, "i", put(s.inits[i]), lo + 1, "scan begins after the pivot")
                    same(R, "sort", F, "inc", put(s.nexts[i]), at[0] + 1, "scan goes through all")
                    same(R, "sort", F, "end", s.cont * (ONE - s.leave), ONE - lt0(hi - at[0], "i"), "scan ends with the last one")
                else:
                    R.undecided("sort", "quicksortAlphaList: scan not recognised")

                def one(W):
                    n = S(W)
                    k = W.r.randint(2, 5)
                    xs = [new_node(W, n, vals=[W.r.randint(0, 2) for _ in range(n)]) for _ in range(k)]
                    p = W.array(xs)
                    j = W.r.randint(1, k - 1)
                    la = W.r.randint(0, j - 1)
                    W.results["isLexicographicallyBetterAlpha"] = lambda kd, a: None if kd != "call" else int(
                        [W(("mem",), (a[-1][0], q)) for q in range(n)] > [W(("mem",), (a[-1][1], q)) for q in range(n)])
                    M = W.model()
                    env = {aid(arr.atom()): p, aid(lo.atom()): 0, aid(hi.atom()): k - 1, aid(s.vars[i].atom()): j, aid(s.vars[l].atom()): la}
                    mem, unknown = replay(s.log, M, env)
                    rd = Read(W, M, mem)
                    now = [rd(("mem",), p, q) for q in range(k)]
                    l2 = M.ev(s.nexts[l], env)
                    want, l3 = list(xs), la
                    if vals(W, xs[0]) > vals(W, xs[j]):
                        l3 += 1
                        want[l3], want[j] = want[j], want[l3]
                    if sorted(now) != sorted(xs):
                        raise Differs("the scan loses vectors: %s of %s" % (now, xs))
                    if now != want or l2 != l3:
                        raise Differs("array %s, last %s; expected %s, %s" % (now, l2, want, l3))
                trial(R, "sort", F, "scan", "one step of the scan", one)
        sw = F.events("swapPointersAlphaList")
        ranges = sorted(str([str(a) for a in e.args[1:]]) for e in rec)
        if len(rec) == 2:
            lo_ = [e for e in rec if e.args[1] == lo]
            hi_ = [e for e in rec if e.args[2] == hi]
            if len(lo_) == 1 and len(hi_) == 1 and lo_ != hi_:
                same(R, "sort", F, "parts", hi_[0].args[1] - lo_[0].args[2], P(2), "the two parts leave out exactly the pivot")
                same(R, "sort", F, "when", lo_[0].guard * hi_[0].guard, LT0(lo - hi), "both parts are sorted")
                out = [e for e in sw if not e.vd]
                own = [e for e in F.K.log if e.region == ("mem",) and e.kind != "havoc" and e.idx[0] == arr]
                if len(out) == 1 and not own and any(e.vd for e in sw):
                    out = out * 2
                if len(out) == 2:
                    same(R, "sort", F, "pivot", sum((tok_sum(e) for e in out[1:]), ZERO),
                         LT0(lo - hi) * A("tok", "swapPointersAlphaList", tuple(pa(arr, x) for x in (lo, lo_[0].args[2] + 1))), "the pivot goes between the parts")
            else:
                R.bad("sort", "quicksortAlphaList:parts", "%s:%d (quicksortAlphaList): the parts sorted are %s" % (F.f.file, F.f.line, ranges))
        elif not rec or len(rec) == 1 and not rec[0].vd and len(raw) <= 1:
            R.bad("sort", "quicksortAlphaList:parts", "%s:%d (quicksortAlphaList): of the two parts, %s are sorted" % (F.f.file, F.f.line, ranges))
        else:
            R.undecided("sort", "quicksortAlphaList: recursion not recognised")
    F = get(Pg, R, "sort", "sortAlphaList")
    if F:
        lst = F.arg(0)
        st, K = step.steps(Pg, "sortAlphaList")
        tk = [s for s in st if any(e.name == "dequeueAlphaNode" for e in s.events)]
        pt = [s for s in st if any(e.name in ("enqueueAlphaNode", "appendNodeToAlphaList") for e in s.events)]
        qs = [e for e in K.events if e.name == "quicksortAlphaList"] if K.whole else []
        if len(tk) == 1 and len(pt) == 1 and len(qs) == 1 and all(len(s.vars) == 1 for s in tk + pt):
            n = fld(lst, LT + "length")
            arr = qs[0].args[0]
            old = lambda p: rewrite(p, "old", lambda t: t[0] == "old", lambda t: t[1])
            same(R, "sort", F, "range", tok("q", *qs[0].args[1:]), tok("q", ZERO, n - 1), "the whole array is sorted")
            for s, nm in ((tk[0], "taken"), (pt[0], "put back")):
                (i, x), = s.vars.items()
                same(R, "sort", F, nm + " start", s.inits[i], ZERO, "vectors %s from the first on" % nm)
                same(R, "sort", F, nm + " step", s.nexts[i], x + 1, "every vector is %s" % nm)
                same(R, "sort", F, nm + " end", old(s.cont * (ONE - s.leave)), LT0(x - n), "vectors %s up to the last" % nm)
                if nm == "taken":
                    ev = [e for e in s.events if e.name == "dequeueAlphaNode"]
                    w = [e for e in s.log if e.kind == "set" and e.region == ("mem",)]
                    if len(ev) == 1 and len(w) == 1:
                        same(R, "sort", F, nm, w[0].guard * tok("put", w[0].idx[0], w[0].idx[1], w[0].val), tok("put", arr, x, ev[0].res), "array of the vectors")
                    else:
                        R.undecided("sort", "sortAlphaList: vectors taken not recognised")
                else:
                    ev = [e for e in s.events if e.name in ("enqueueAlphaNode", "appendNodeToAlphaList")]
                    same(R, "sort", F, nm, sum((tok_sum(e) for e in ev), ZERO), tok(ev[0].name, lst, el(arr, x)), "vectors put back in the order of the array")
            order = [("take" if e.name == "dequeueAlphaNode" else "sort" if e.name == "quicksortAlphaList" else "put") for e in K.events
                     if e.name in ("dequeueAlphaNode", "quicksortAlphaList", "enqueueAlphaNode", "appendNodeToAlphaList")]
            R.check("sort", order == ["take", "sort", "put"], "sortAlphaList:order", "%s:%d (sortAlphaList): order of the phases is %s" % (F.f.file, F.f.line, order))
        elif not unreached(R, "sort", F, "quicksortAlphaList", "qsort", what="the vectors are not put in order"):
            R.undecided("sort", "sortAlphaList: phases not recognised")

    # ------------------------------------------------ comparing
    F = get(Pg, R, "same", "sameAlphaList")
    if F:
        def one(W):
            n = S(W)
            a, na = new_list(W, n, W.r.randint(0, 3))
            b, nb = new_list(W, n, W.r.choice((len(na), len(na), W.r.randint(0, 3))))
            if W.r.randint(0, 2) and len(na) == len(nb):
                for x, y in zip(na, nb):
                    W.put(LT + "alpha", y, W.array(vals(W, x)))
                if nb and W.r.randint(0, 1):
                    W.put(LT + "alpha", W.r.choice(nb), W.array([50] * n))
            W.results["sameAlpha"] = lambda k, g_: None if k != "call" else int([W(("mem",), (g_[-1][0], q)) for q in range(n)] == [W(("mem",), (g_[-1][1], q)) for q in range(n)])
            M = W.model()
            env = {aid(F.arg(k).atom()): v for k, v in enumerate((a, b, 0))}
            want = int([vals(W, x) for x in na] == [vals(W, x) for x in nb])
            if M.ev(F.ret, env) != want:
                raise Differs("returns %s for %s and %s" % (M.ev(F.ret, env), [vals(W, x) for x in na], [vals(W, x) for x in nb]))
        trial(R, "same", F, "ret", "equal lists", one, 120)
    for nm, w in (("sizeAlphaList", lambda F: fld(F.arg(0), LT + "length")), ("queryAlphaList", lambda F: ONE - eq0(call("findAlphaVector", F.arg(0), F.arg(1), F.arg(2))))):
        F = get(Pg, R, "same", nm) if nm in Pg.funcs else None
        if F:
            same(R, "same", F, "ret", F.ret, w(F), "result")
    F = get(Pg, R, "same", "maxSizeAlphaLists") if "maxSizeAlphaLists" in Pg.funcs else None
    if F:
        def one(W):
            ls = [new_list(W, 1, W.r.randint(0, 4))[0] for _ in range(W.r.randint(0, 4))]
            M = W.model()
            env = {aid(F.arg(0).atom()): W.array(ls), aid(F.arg(1).atom()): len(ls)}
            want = max([W(("fd", LT + "length"), (l,)) for l in ls], default=0)
            if M.ev(F.ret, env) != want:
                raise Differs("returns %s, expected %s" % (M.ev(F.ret, env), want))
        trial(R, "same", F, "ret", "largest size", one)


def depends(p, x):
    a = aid(x.atom())
    return any(a in poly._all_ids(q) for q in p.atoms())


def before(p):
    """fields left alone by the writes that only go to new memory"""
    return rewrite(p, "out", lambda t: t[0] == "out" and t[-2][0] == "fd", lambda t: A("rd", t[-2], t[-1]))
