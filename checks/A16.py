"""Files of vectors and of belief points: what is written is what is read back."""
import core, step, kern
from spec import *
from lists import *
from lists import run as run_list
from A12 import total

TITLE = "files of vectors and points hold everything and read back the same"
LT = "AlphaListType."
BL = "BeliefListStruct."
SCAN = ("fscanf", "__isoc99_fscanf", "__isoc23_fscanf")
NODE = ("appendNodeToAlphaList", "enqueueAlphaNode")


def run(Pg, R):
    R.rule("write", "every entry is written, in order, each followed by a blank, with its precision", 1)
    R.rule("read", "one entry after the other is read until the file ends or as many as asked for; anything else is an error", 1)
    R.rule("save", "the list is written to the file named", 1)
    R.rule("points", "lists of points: adding, counting, finding, copying", 1)
    kern.Kern.leave = True
    try:
        writing(Pg, R)
        reading(Pg, R)
        points(Pg, R)
    finally:
        kern.Kern.leave = False


def points_list(W, n, k):
    ps = []
    for _ in range(k):
        x = W.new()
        v = [W.r.choice((0, 1, 2, 3)) for _ in range(n)]
        W.put(BL + "b", x, W.array(v))
        ps.append((x, v))
    for (x, _), y in zip(ps, ps[1:] + [(0, None)]):
        W.put(BL + "next", x, y[0])
    return (ps[0][0] if ps else 0), ps


# ------------------------------------------------------------------ writing

def writing(Pg, R):
    r = "write"
    for name, alphas in (("writeAlphaList", True), ("writeBeliefList", False)):
        F = get(Pg, R, r, name)
        if not F:
            continue

        def one(W):
            n, k = W.r.randint(1, 3), W.r.randint(0 if alphas else 1, 3)
            W.g("gNumStates", n)
            if alphas:
                lst, nodes = new_list(W, n, k)
                want = []
                for x in nodes:
                    a = W.put(LT + "action", x, W.r.randint(0, 20))
                    want += [a] + vals(W, x)
            else:
                lst, ps = points_list(W, n, k)
                want = [y for x, v in ps for y in v]
            M_ = W.model()
            f = W.new()
            txt = printed(F, M_, {aid(F.arg(0).atom()): f, aid(F.arg(1).atom()): lst}, F.arg(0))
            if txt.split() != [str(x) for x in want]:
                raise Differs("%s are written as %r" % (" ".join(map(str, want)), txt[:120]))
            if txt and not txt[-1].isspace():
                raise Differs("the last entry is not ended")
        trial(R, r, F, "all", "entries written", one, 60)
        for e in F.K.events:
            if e.name != "fprintf" or len(e.args) < 2 or not e.args[1].atom() or e.args[1].atom()[0] != "str":
                continue
            fm = e.args[1].atom()[1]
            for spec_, prec in floats(fm, e.args[2:]):
                if prec is None:
                    R.undecided(r, "%s: precision not known" % name)
                else:
                    R.check(r, prec >= 15, "%s:precision" % name, "%s: numbers are written with %s decimals" % (e.ins.where() if e.ins is not None else name, prec))
    for name, w in (("saveAlphaList", "writeAlphaList"), ("saveBeliefList", "writeBeliefList")):
        F = get(Pg, R, "save", name)
        if not F:
            continue
        lst, fn = F.arg(0), F.arg(1)
        fo = [e for e in F.events("fopen") if e.res]
        if len(fo) != 1:
            R.undecided("save", "%s: file not recognised" % name)
            continue
        fl = fo[0].res
        same(R, "save", F, "file", tok("o", fo[0].args[0]), tok("o", fn), "the file named is opened")
        same(R, "save", F, "opened", fo[0].guard, ONE, "the file is opened in every case")
        m = fo[0].args[1].atom()
        R.check("save", not m or m[0] != "str" or m[1][:1] == "w", "%s:mode" % name, "%s: the file is not opened for writing anew" % fo[0].ins.where())
        same(R, "save", F, "written", total(F, w), (ONE - eq0(fl)) * tok(w, fl, lst), "the list is written to it")
        same(R, "save", F, "closed", total(F, "fclose"), (ONE - eq0(fl)) * tok("fclose", fl), "and it is closed")
        a, b = F.events(w), F.events("fclose")
        if a and b:
            ix = F.K.events.index
            R.check("save", max(map(ix, a)) < min(map(ix, b)), "%s:order" % name, "%s: the file is closed before the list is written" % b[0].ins.where())


def floats(fm, args):
    """conversions of numbers with decimals in a format: (conversion, decimals)"""
    import re
    out, k = [], 0
    for m in re.finditer(r"%(%|[-+ #0]*(\*|\d+)?(?:\.(\*|\d*))?(?:hh|h|ll|l|L|z|j|t)?([a-zA-Z]))", fm):
        if m.group(1) == "%":
            continue
        if m.group(2) == "*":
            k += 1
        prec = m.group(3)
        if prec == "*":
            c = args[k].const() if k < len(args) else None
            prec = None if c is None else int(c)
            k += 1
        elif prec is not None:
            prec = int(prec or 0)
        else:
            prec = 6
        k += 1
        if m.group(4) in "fFeEgG":
            out.append((m.group(4), prec if m.group(4) in "fF" else 15 if prec is not None and prec >= 16 else prec))
    return out


# ------------------------------------------------------------------ reading

def reading(Pg, R):
    r = "read"
    for name, alphas in (("readAlphaList", True), ("readBeliefList", False)):
        F = get(Pg, R, r, name)
        if not F:
            continue
        fn, mx = F.arg(0), F.arg(1)
        fo = [e for e in F.events("fopen") if e.res]
        if len(fo) != 1:
            R.undecided(r, "%s: file not recognised" % name)
            continue
        fl = fo[0].res
        same(R, r, F, "file", tok("o", fo[0].args[0]), tok("o", fn), "the file named is opened")
        st, K = step.steps(Pg, name)
        if not K.whole:
            R.undecided(r, "%s: loops not recognised" % name)
            continue
        outer = [s for s in st if any(e.name in SCAN and e.vd for e in s.events)]
        outer = [s for s in outer if not any(t is not s and set(s.body) < set(t.body) for t in outer)]
        if len(outer) != 1:
            R.undecided(r, "%s: loop over the entries not recognised" % name)
            continue
        s = outer[0]
        one_entry(Pg, R, F, name, alphas, s, mx)
        count(R, F, name, s, mx, alphas)
        ends(R, F, name, alphas, fl, mx)


def scans(ev):
    """reading calls: (event, format, kind)"""
    out = []
    for e in ev:
        if e.name in SCAN:
            t = e.args[1].atom()
            fm = t[1] if t and t[0] == "str" and isinstance(t[1], str) else None
            out.append((e, fm))
    return out


def answers(W, sc, act, comp):
    """what the reading calls answer"""
    ids = {e.ins.id: bool(e.vd) for e, fm in sc if e.ins is not None}

    def f(kind, a):
        if kind == "ev":
            if a[0] not in ids:
                return None
            if not ids[a[0]]:
                return act
            k = int(a[1][-1])
            return comp[k] if k < len(comp) else 0
        if kind == "out":
            return 7
        return None
    for n in SCAN:
        W.results[n] = f


def one_entry(Pg, R, F, name, alphas, s, mx):
    r = "read"
    sc = scans(s.events)
    if any(fm is None for e, fm in sc):
        return R.undecided(r, "%s: formats not known" % name)
    num_ = [(e, fm) for e, fm in sc if e.vd]
    act = [(e, fm) for e, fm in sc if not e.vd]
    if len(num_) != 1 or len(act) != (1 if alphas else 0) or len(num_[0][0].vd) != 1:
        return R.undecided(r, "%s: what is read is not recognised" % name)
    E, fm = num_[0]
    R.check(r, fm.strip() == "%lf", "%s:format" % name, "%s: numbers are read as %r" % (E.ins.where(), fm))
    for e, fm in act:
        R.check(r, fm.strip() == "%d", "%s:action" % name, "%s: actions are read as %r" % (e.ins.where(), fm))
        ix = s.events.index
        R.check(r, ix(e) < ix(E), "%s:order" % name, "%s: the action is read after the vector" % e.ins.where())

    def one(W):
        n = W.r.randint(1, 3)
        W.g("gNumStates", n)
        a = W.r.choice((1, 1, 1, 1, -1, 0)) if alphas else 1
        comp = [W.r.choice((1, 1, 1, 1, 1, 1, -1, 0)) for _ in range(n)]
        answers(W, sc, a, comp)
        M_ = W.model()
        lst = 901
        env = {aid(v.atom()): lst for v in s.vars.values()}
        if M_.ev(s.cont, env) == 0:
            raise Skip
        good = a == 1 and all(c == 1 for c in comp)
        if M_.ev(s.leave, env) != (not good):
            raise Differs("reading %s %s" % ("goes on after an entry that is not complete" if not good else "stops after", [a] + comp))
        if good:
            # each number goes to its place
            v, d = E.vd[0]
            tgt = []
            for ev, pos in rint._walk(M_, [v], [d], 0, dict(env), ()):
                if M_.ev(E.guard, ev):
                    x = M_.ev(E.args[2], ev)
                    tgt.append(M_.parts.get(x, (x, 0)))
            if len({b for b, i in tgt}) != 1 or [i for b, i in tgt] != list(range(n)):
                raise Differs("%d numbers are put at %s" % (n, [i for b, i in tgt]))
        nodes = {}
        got = []
        for e in s.events:
            for ev, pos in rint._walk(M_, [v for v, d in e.vd], [d for v, d in e.vd], 0, dict(env), ()):
                if not M_.ev(e.guard, ev):
                    continue
                args = [M_.ev(x, ev) for x in e.args]
                if e.name == "newAlphaNode":
                    nodes[M_.ev(e.res, ev)] = tuple(args)
                elif e.name in NODE:
                    got.append((args[0],) + nodes.get(args[1], (0, 0)))
                elif e.name in ("appendAlphaList", "appendBeliefList"):
                    got.append(tuple(args))
                elif e.name in ("prependAlphaList", "prependBeliefList", "prependNodeToAlphaList"):
                    raise Differs("entries are put in front of each other")
        if len(got) != (1 if good else 0):
            raise Differs("%s entries are added after reading %s" % (len(got), ([a] if alphas else []) + comp))
        if good:
            vec = {b for b, i in tgt}
            if got[0][1] not in vec:
                raise Differs("what is added is not what was read")
            if alphas and got[0][2] != 7:
                raise Differs("the vector is added with another action than that read")
            if not alphas and got[0][0] != lst:
                raise Differs("the point is added to another list")
    trial(R, r, F, "entry", "an entry read", one, 120)
    if not alphas:
        ap = [e for e in s.events if e.name == "appendBeliefList" and e.res]
        if len(ap) == 1:
            lv = [i for i in s.vars if s.vars[i] == ap[0].args[0]]
            if len(lv) == 1:
                same(R, r, F, "list", tok("l", s.inits[lv[0]]), tok("l", ZERO), "reading starts with no points")

                def two(W):
                    n = W.r.randint(1, 3)
                    W.g("gNumStates", n)
                    answers(W, sc, 1, [1] * n)
                    W.results["appendBeliefList"] = lambda kind, a: 777
                    M_ = W.model()
                    if M_.ev(s.nexts[lv[0]], {aid(v.atom()): 901 for v in s.vars.values()}) != 777:
                        raise Differs("the list with the new point is not kept")
                trial(R, r, F, "kept", "the list goes on", two, 10)


def count(R, F, name, s, mx, alphas):
    """how many entries are read at most"""
    r = "read"
    sc = scans(s.events)

    def one(W):
        n = W.r.randint(1, 2)
        W.g("gNumStates", n)
        k = W.r.choice((-2, -1, 0, 0, 1, 2, 3))
        answers(W, sc, 1, [1] * n)
        M_ = W.model()
        env = {aid(mx.atom()): k}
        st = {}
        for i in s.vars:
            try:
                st[i] = M_.ev(s.inits[i], env)
            except (Skip, Unable):
                st[i] = 901
        c = 0
        while c < 12:
            e = dict(env)
            for i, v in st.items():
                e[aid(s.vars[i].atom())] = v
            if not M_.ev(s.cont, e) or M_.ev(s.leave, e):
                break
            c += 1
            st = {i: M_.ev(s.nexts[i], e) for i in st}
        if k > 0 and c != k or k <= 0 and c < 12:
            raise Differs("%s entries are read when %s" % (c, "%d are asked for" % k if k > 0 else "all of them are asked for"))
    trial(R, r, F, "count", "number of entries read", one, 40)


def ends(R, F, name, alphas, fl, mx):
    """what reading gives, when one entry is asked for"""
    r = "read"
    sc = scans(F.K.events)

    def one(W):
        n = W.r.randint(1, 2)
        W.g("gNumStates", n)
        f = W.r.choice((0, 500, 500, 500))
        a = W.r.choice((1, 1, -1, 0)) if alphas else 1
        comp = [W.r.choice((1, 1, 1, -1, 0)) for _ in range(n)]
        ids = {e.ins.id: len(e.vd) for e, fm in sc}
        full = 2

        def g_(kind, x):
            if kind == "ev":
                if x[0] not in ids:
                    return None
                if alphas and ids[x[0]] < full:
                    return a
                k = int(x[1][-1])
                return comp[k] if k < n else 0
            return 7
        for q in SCAN:
            W.results[q] = g_
        W.results["fopen"] = lambda kind, x: f
        W.results["appendBeliefList"] = lambda kind, x: 777
        M_ = W.model()
        env = {aid(mx.atom()): 1}
        got = M_.ev(F.ret, env)
        first = a if alphas else comp[0]
        bad_ = [c for c in comp if c != 1]
        end = first == -1
        if not f:
            want, what = "none", "a file that is not there"
        elif alphas and a == -1:
            want, what = "list", "an empty file"
        elif not alphas and comp[0] == -1:
            want, what = "empty", "an empty file"
        elif a != 1 or bad_:
            want, what = "none", "a file with an entry that is not complete or not a number"
        else:
            want, what = "list", "a file with an entry"
        if (got == 0) != (want in ("none", "empty")):
            raise Differs("%s gives %s" % (what, "nothing" if got == 0 else "a list"))
        if want == "list" and not alphas and got != 777:
            raise Differs("the list given is not the one read")
        fc = [e for e in F.events("fclose")]
        c = len([1 for x in calls(F.K.events, M_, env, ("fclose",))])
        if c != (1 if f else 0):
            raise Differs("%s: the file is closed %d times" % (what, c))
        msg = [x for x in calls(F.K.events, M_, env, ("fprintf",))]
        if want == "none" and not msg:
            raise Differs("%s: no message" % what)
        if want != "none" and msg:
            raise Differs("%s: an error is reported" % what)
    trial(R, r, F, "result", "what reading gives", one, 120)
    if alphas:
        nl = [e for e in F.events("newAlphaList") if e.res]
        if len(nl) == 1:
            def two(W):
                W.g("gNumStates", 1)
                for q in SCAN:
                    W.results[q] = lambda kind, x: 1
                W.results["fopen"] = lambda kind, x: 500
                M_ = W.model()
                env = {aid(mx.atom()): 1}
                if M_.ev(F.ret, env) != M_.ev(nl[0].res, env):
                    raise Differs("the list given is not the one filled")
                for e in F.K.events:
                    if e.name in NODE + ("appendAlphaList",):
                        for ev, pos in rint._walk(M_, [v for v, d in e.vd], [d for v, d in e.vd], 0, dict(env), ()):
                            if M_.ev(e.guard, ev) and M_.ev(e.args[0], ev) != M_.ev(nl[0].res, env):
                                raise Differs("vectors are added to another list")
            trial(R, r, F, "list", "the list filled is the one given", two, 10)


# ------------------------------------------------------------------ lists of points

def points(Pg, R):
    r = "points"
    F = get(Pg, R, r, "sizeBeliefList")
    if F:
        def one(W):
            k = W.r.randint(1, 5)
            lst, ps = points_list(W, 1, k)
            M_ = W.model()
            got = M_.ev(F.ret, {aid(F.arg(0).atom()): lst})
            if got != k:
                raise Differs("%d points are counted as %s" % (k, got))
        trial(R, r, F, "size", "number of points", one, 20)
    F = get(Pg, R, r, "newBeliefNode")
    if F:
        def one(W):
            n = W.r.randint(1, 3)
            W.g("gNumStates", n)
            b = W.array([W.r.randint(0, 5) for _ in range(n)])
            rd, M_, env, unknown = run_list(F, W, b)
            x = M_.ev(F.ret, env)
            dup = [e for e in F.events("duplicateBelief") if e.res]
            c = rd.mem.get((("fd", BL + "b"), (x,)))
            if c is None or c[0] == b:
                raise Differs("the point is not given its own copy of the probabilities")
            if len(dup) != 1:
                raise Unable("copy not recognised")
            if dup[0].args[0] != F.arg(0) or c[0] != M_.ev(dup[0].res, env):
                raise Differs("the point is not given a copy of the probabilities")
            if rd(BL + "next", x) != 0 or rd(BL + "mark", x) != 0:
                raise Differs("the point does not start unmarked and alone")
        trial(R, r, F, "node", "a new point", one, 10)
    for name in ("appendBeliefList", "prependBeliefList"):
        F = get(Pg, R, r, name)
        if F:
            def one(W):
                n, k = 1, W.r.randint(0, 4)
                W.g("gNumStates", n)
                lst, ps = points_list(W, n, k)
                b, x = W.array([1]), W.new()
                W.put(BL + "next", x, 0)
                W.results["newBeliefNode"] = lambda kind, a: x if a[-1][0] == b else 0
                node = [e for e in F.events("newBeliefNode") if e.res]
                if len(node) != 1:
                    raise Unable("new node not recognised")
                rd, M_, env, unknown = run_list(F, W, lst, b)
                y = M_.ev(node[0].res, env)
                if node[0].args[0] != F.arg(1):
                    raise Differs("the point added is not the one given")
                p, got = M_.ev(F.ret, env), []
                while p and len(got) < 10:
                    got.append(p)
                    p = 0 if p == y and name == "appendBeliefList" and (("fd", BL + "next"), (y,)) not in rd.mem else rd(BL + "next", p)
                old = [q for q, v in ps]
                if got != (old + [y] if name == "appendBeliefList" else [y] + old):
                    raise Differs("%d points become %s" % (k, ["new" if q == y else old.index(q) if q in old else "?" for q in got]))
            trial(R, r, F, "add", "adding a point", one, 40)
    F = get(Pg, R, r, "sameBelief")
    if F:
        def one(W):
            n = W.r.randint(1, 3)
            W.g("gNumStates", n)
            a = [W.r.randint(0, 3) for _ in range(n)]
            b = [x + W.r.choice((0, 0, 0, 1, -1, 2)) for x in a]
            e = W.r.choice((Fraction(1, 2), Fraction(3, 2)))
            pa, pb = (W.array(a) if W.r.randint(0, 4) else 0), (W.array(b) if W.r.randint(0, 4) else 0)
            M_ = W.model()
            got = M_.ev(F.ret, {aid(F.arg(0).atom()): pa, aid(F.arg(1).atom()): pb, aid(F.arg(2).atom()): e})
            want = pa == pb if not pa or not pb else all(abs(x - y) < e for x, y in zip(a, b))
            if bool(got) != want:
                raise Differs("%s and %s are taken as %s" % (a if pa else None, b if pb else None, "the same" if got else "different"))
        trial(R, r, F, "same", "points that are the same", one, 80)
    F = get(Pg, R, r, "findBeliefState")
    if F:
        def one(W):
            n, k = 1, W.r.randint(0, 4)
            W.g("gNumStates", n)
            lst, ps = points_list(W, n, k)
            hit = {W(("fd", BL + "b"), (x,)): W.r.choice((0, 0, 1)) for x, v in ps}
            b, e = W.array([3]), Fraction(1, 8)
            W.results["sameBelief"] = lambda kind, a: hit.get(a[-1][0], hit.get(a[-1][1], 0)) if b in a[-1][:2] else 0
            M_ = W.model()
            got = M_.ev(F.ret, {aid(F.arg(0).atom()): lst, aid(F.arg(1).atom()): b, aid(F.arg(2).atom()): e})
            want = next((x for x, v in ps if hit[W(("fd", BL + "b"), (x,))]), 0)
            if got != want:
                raise Differs("finds %s instead of %s" % (got, want))
        trial(R, r, F, "find", "finding a point", one, 60)
    F = get(Pg, R, r, "duplicateBelief")
    if F:
        def one(W):
            n = W.r.randint(1, 3)
            W.g("gNumStates", n)
            v = [W.r.randint(0, 5) for _ in range(n)]
            b = W.array(v) if W.r.randint(0, 4) else 0
            rd, M_, env, unknown = run_list(F, W, b)
            p = M_.ev(F.ret, env)
            if not b:
                if p:
                    raise Differs("nothing is copied to something")
                return
            if p == b:
                raise Differs("a copy shares its memory")
            if any(k[0] == ("mem",) and k[1][0] == p and not 0 <= k[1][1] < n for k in rd.mem):
                raise Differs("more entries are copied than there are states")
            if [rd(("mem",), p, i) for i in range(n)] != v:
                raise Differs("%s is copied as %s" % (v, [rd(("mem",), p, i) for i in range(n)]))
        trial(R, r, F, "copy", "copy of a point", one, 30)
    F = get(Pg, R, r, "copyBelief")
    if F:
        def one(W):
            n = W.r.randint(1, 3)
            W.g("gNumStates", n)
            v = [W.r.randint(0, 5) for _ in range(n)]
            b, d = W.array(v), W.array([9] * 4)
            rd, M_, env, unknown = run_list(F, W, d, b)
            if any(k[0] == ("mem",) and k[1][0] == d and not 0 <= k[1][1] < n for k in rd.mem):
                raise Differs("more entries are copied than there are states")
            if [rd(("mem",), d, i) for i in range(n + 1)] != v + [9]:
                raise Differs("%s is copied as %s" % (v, [rd(("mem",), d, i) for i in range(n)]))
        trial(R, r, F, "copyto", "copy of a point", one, 30)
