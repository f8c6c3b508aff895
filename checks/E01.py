"""Runs repeat: the clock, the process number and addresses never reach a result, and draws follow the seed."""
import core
from prog import *
from spec import *
from step import loop_with, steps

TITLE = "the same model, options and seed give the same results"
CLOCK = {"gettimeofday", "time", "times", "getrusage", "clock", "clock_gettime", "getpid", "getppid", "getenv", "ftime", "rdtsc", "arc4random", "getrandom", "random_device"}
OTHER = {"rand", "random", "drand48", "lrand48", "mrand48", "srand", "srandom", "srand48", "rand_r"}
GEN = {"erand48", "nrand48", "jrand48"}
SEED, SEEDED = "random_seed48", "seeded"
PRINT = {"fprintf", "printf", "vfprintf", "fputs", "fputc", "putc", "puts", "putchar", "fflush", "fwrite", "exit", "free", "setitimer", "fclose", "fopen", "unlink"}
# what a result is kept in
RESULT = ("AlphaListType.", "BeliefListStruct.", "PolicyGraphStruct.", "PGStruct.", "LpStruct.", "_lprec.", "_matrec.", "VertexListStruct.", "MatrixStruct.", "I_Matrix", "Matrix", "PGEvalStruct.", "BeliefList")
GLOBALS = {"gDiscount", "gNumStates", "gNumActions", "gNumObservations", "gInitialBelief", "gInitialState", "gProblemType", "gValueType", "P", "R", "Q", "gTempBelief", "gTempAlpha", "gCurAlphaVector", "gFiniteGrid"}
PARAM = {"horizon", "epsilon", "lp_epsilon", "prune_epsilon", "alpha_epsilon", "belief_epsilon", "vertex_epsilon", "stop_delta", "cur_epoch", "impossible_obs_epsilon", "double_equality_precision", "starting_epsilon", "ending_epsilon", "epsilon_adjust_factor", "epoch_history_window_length", "epoch_history_window_delta", "sparse_epsilon", "max_soln_size"}


def run(Pg, R):
    R.rule("clock", "what comes from the clock, the process number or the environment never decides a step that makes results, nor is kept in one", 1)
    R.rule("address", "no order or number comes from where something lies in memory", 1)
    R.rule("generator", "every random number comes from the one generator, which only a seed not given takes from the clock", 1)
    R.rule("seed", "a seed given sets every part of the generator's state, and is printed as it is read", 1)
    R.rule("draw", "a random belief point is a distribution, made of draws from 0 to 1", 1)
    t = Flow(Pg)
    t.judge(R)
    addresses(Pg, R)
    generator(Pg, R)
    seed(Pg, R)
    draws(Pg, R)


class Flow:
    """values that come from the clock or the process, through memory by field, global and local variable"""

    def __init__(s, P):
        s.P = P
        s.v, s.mem, s.arg, s.ret, s.why = set(), set(), set(), set(), {}
        s.regions = {}
        s.ch = True
        while s.ch:
            s.ch = False
            for fn in sorted(P.reachable):
                f = P.funcs.get(fn)
                if f:
                    s.pass_(f)

    def add(s, S, x, I):
        if x not in S:
            S.add(x)
            s.ch = True
            s.why[x] = I

    def cells(s, f, t):
        k = slot_of(t)
        if k and (k == ("g", SEED) or k == ("el", ("g", SEED))):
            return []
        r = [k] if k else []
        fdp, b = False, t
        while b[0] in ("ix", "fd"):
            fdp = fdp or b[0] == "fd"
            b = b[1]
        if b[0] == "alloca":
            r.append(("alloca", f.name, b[1]))
        if b[0] == "arg" and not fdp:
            r.append(("argmem", f.name, b[1]))
        return r

    def is_(s, f, o):
        if o[0] == "v":
            return (f.name, o[1]) in s.v
        if o[0] == "a":
            return (f.name, o[1]) in s.arg
        if o[0] == "gep":
            return any(s.is_(f, x) for x in o[2])
        return False

    def pass_(s, f):
        P, T, fn = s.P, s.P.T[f.name], f.name
        for I in f.insts():
            me = (fn, I.id)
            if I.op == "call":
                c = I.callee
                if c in CLOCK:
                    s.add(s.v, me, I)
                    for o in I.args:
                        for k in s.cells(f, T.ref(o)):
                            s.add(s.mem, k, I)
                    continue
                g = P.funcs.get(c)
                if g:
                    for k, o in enumerate(I.args):
                        if s.is_(f, o):
                            s.add(s.arg, (c, k), I)
                        if ("argmem", c, k) in s.mem:
                            for x in s.cells(f, T.ref(o)):
                                s.add(s.mem, x, I)
                    if c in s.ret:
                        s.add(s.v, me, I)
                elif any(s.is_(f, o) for o in I.args):
                    if c in PRINT:
                        continue
                    s.add(s.v, me, I)
                    if I.args:
                        for x in s.cells(f, T.ref(I.args[0])):
                            s.add(s.mem, x, I)
            elif I.op == "store":
                if s.is_(f, I.args[0]):
                    for x in s.cells(f, T.ref(I.args[1])):
                        s.add(s.mem, x, I)
            elif I.op == "load":
                if any(x in s.mem for x in s.cells(f, T.ref(I.args[0]))):
                    s.add(s.v, me, I)
            elif I.op == "ret":
                if any(s.is_(f, o) for o in I.args):
                    s.add(s.ret, fn, I)
            elif I.op in ("br", "switch"):
                if any(s.is_(f, o) for o in I.args if o[0] in ("v", "a")):
                    s.region(f, I)
            else:
                ops = list(I.args) if I.op != "phi" else [x[0] for x in I.d["in"]]
                if any(s.is_(f, o) for o in ops):
                    s.add(s.v, me, I)

    def region(s, f, I):
        """blocks a branch decides about; values joined behind it depend on it too"""
        k = (f.name, I.b)
        if k not in s.regions:
            succ = list(dict.fromkeys(f.succ[I.b]))
            if len(succ) < 2:
                s.regions[k] = set()
                return
            def after(b):
                seen, st = set(), [b]
                while st:
                    x = st.pop()
                    if x not in seen:
                        seen.add(x)
                        st.extend(f.succ[x])
                return seen
            # blocks that not every way out of the branch must pass
            r = set()
            for x in set().union(*map(after, succ)):
                if not all(s.must(f, y, x) for y in succ):
                    r.add(x)
            s.regions[k] = r
            s.ch = True
        r = s.regions[k]
        for b in r:
            for J in f.blocks[b]:
                if J.op == "store":
                    for x in s.cells(f, s.P.T[f.name].ref(J.args[1])):
                        s.add(s.mem, x, I)
        for b in range(len(f.blocks)):
            if b not in r and sum(1 for u in f.pred[b] if u in r or u == I.b) > 1:
                for J in f.blocks[b]:
                    if J.op == "phi" and len({repr(x[0]) for x in J.d["in"] if x[1] in r or x[1] == I.b}) > 1:
                        s.add(s.v, (f.name, J.id), I)

    @staticmethod
    def must(f, y, x):
        """does every way from block y to the end go through block x?"""
        if y == x:
            return True
        seen, st = set(), [y]
        while st:
            b = st.pop()
            if b in seen or b == x:
                continue
            seen.add(b)
            if f.blocks[b] and f.blocks[b][-1].op == "ret":
                return False
            st.extend(f.succ[b])
        return True

    def result(s, k):
        while k[0] in ("el", "el*"):
            k = k[1]
        if k[0] == "fd":
            st, _, fl = k[1].partition(".")
            return k[1].startswith(RESULT) or st == "PomdpSolveParamStruct" and fl in PARAM
        return k[0] == "g" and k[1] in GLOBALS

    def makes_results(s, fn):
        for g in s.P.callgraph_reach(fn):
            f = s.P.funcs.get(g)
            for I in (f.insts() if f else ()):
                if I.op == "store":
                    k = slot_of(s.P.T[g].ref(I.args[1]))
                    if k and s.result(k):
                        return True
        return False

    def judge(s, R):
        n = 0
        for k in sorted(s.mem, key=repr):
            if k[0] in ("fd", "g", "el", "el*"):
                n += 1
                if s.result(k):
                    I = s.why[k]
                    R.bad("clock", "kept/%s" % (k[1],), "%s: %s depends on the clock or the process" % (I.where(), k[1]), I)
                else:
                    R.hold("clock", s.why[k])
        for (fn, b), r in sorted(s.regions.items()):
            f = s.P.funcs[fn]
            I = f.blocks[b][-1]
            hit = None
            for x in sorted(r):
                for J in f.blocks[x]:
                    if J.op == "call" and J.callee in s.P.funcs and s.makes_results(J.callee):
                        hit = J
            if hit:
                R.bad("clock", "decides/%s" % fn, "%s: the clock or the process decides whether %s is called (%s)" % (I.where(), hit.callee, hit.where()), I)
            else:
                R.hold("clock", I)
        for c, k in sorted(s.arg):
            R.hold("clock")
        for fn in sorted(s.P.reachable):
            f = s.P.funcs.get(fn)
            for I in (f.insts() if f else ()):
                if I.op == "call" and I.callee in CLOCK:
                    R.hold("clock", I)


def generated(I):
    w = I.where()
    return "scanner." in w or "parser." in w


def addresses(Pg, R):
    n = 0
    for fn in sorted(Pg.reachable):
        f = Pg.funcs.get(fn)
        for I in (f.insts() if f else ()):
            if I.op == "ptrtoint" and not generated(I):
                us = f.uses.get(I.id, ())
                if us and all(J.op == "sub" and all(o[0] == "v" and f.byid.get(o[1]) is not None and f.byid[o[1]].op == "ptrtoint" for o in J.args) for J in us):
                    R.hold("address", I)
                elif any(J.op in ("urem", "srem", "trunc", "and", "lshr", "sub", "add", "xor", "call", "store") or J.op == "icmp" and J.d.get("p", "") not in ("eq", "ne") for J in us):
                    R.bad("address", fn, "%s: an address is used as a number" % I.where(), I)
                else:
                    R.undecided("address", "%s: address taken as a number" % I.where())
            elif I.op == "icmp" and I.args and not generated(I):
                n += 1
                if I.d.get("p") in ("eq", "ne"):
                    continue
                if all(pointer(f, o) for o in I.args):
                    a, b = (root(Pg.T[fn].ref(o)) for o in I.args)
                    if a != b and a[0] in ("arg", "ld", "call") and b[0] in ("arg", "ld", "call"):
                        R.bad("address", fn + ":order", "%s: a choice depends on which of two things lies first in memory" % I.where(), I)
                    elif a != b:
                        R.undecided("address", "%s: addresses compared" % I.where())
    R.hold("address", None, n)


def pointer(f, o):
    if o[0] == "v":
        I = f.byid.get(o[1])
        return I is not None and I.d.get("t") == "ptr"
    if o[0] == "a":
        return o[1] < len(f.params) and f.params[o[1]].get("t") == "ptr"
    return o[0] in ("gep", "g")


def root(t):
    while t[0] in ("ix", "fd"):
        t = t[1]
    return t


def generator(Pg, R):
    for fn in sorted(Pg.reachable):
        f = Pg.funcs.get(fn)
        if not f:
            continue
        T = Pg.T[fn]
        for I in f.insts():
            if I.op == "call" and I.callee in GEN:
                t = T.ref(I.args[0])
                while t[0] == "ix":
                    t = t[1]
                R.check("generator", t == ("g", SEED), fn, "%s: numbers do not come from the seeded state" % I.where(), I)
            elif I.op == "call" and I.callee in OTHER and "lp-solve" not in I.where() and "laspack" not in I.where():
                if I.callee.startswith("s"):
                    continue
                R.bad("generator", fn, "%s: %s does not follow the seed" % (I.where(), I.callee), I)
            elif I.op == "store":
                t = T.ref(I.args[1])
                while t[0] == "ix":
                    t = t[1]
                if t == ("g", SEEDED):
                    v = T.ref(I.args[0])
                    R.check("generator", v[0] != "i" or v[1] != 0, fn + ":unseeded", "%s: the seed given is forgotten" % I.where(), I)
    # the clock is asked only when no seed was given
    clk = clockers(Pg)
    for n in ("fran", "randomize", "getRandomDouble", "getRandomInt"):
        if n not in Pg.funcs:
            continue
        F = get(Pg, R, "generator", n)
        if not F:
            continue
        for e in F.K.events:
            if e.name in CLOCK or e.name in clk and e.name != n and e.name not in ("fran", "randomize", "getRandomDouble", "getRandomInt"):
                given = subst(e.guard, {aid(g(SEEDED).atom()): ONE})
                R.check("generator", given == ZERO or has_unknown(given), n + ":again", "%s: a seed given is replaced" % e.ins.where(), e.ins)
        if n == "fran":
            r = F.ret
            er = F.events("erand48")
            if len(er) == 1 and er[0].res is not None and not er[0].vd:
                same(R, "generator", F, "ret", r, er[0].res, "number drawn")
        if n == "getRandomDouble":
            u = [e.res for e in F.events("fran", "erand48") if e.res is not None]
            if len(u) == 1:
                lo, hi = F.arg(0), F.arg(1)
                same(R, "draw", F, "ret", F.ret, lo + u[0] * (hi - lo), "number between the limits")


def clockers(Pg):
    """functions that set the seed from the clock"""
    r = set()
    for fn in Pg.funcs:
        c = Pg.callgraph_reach(fn)
        if c & CLOCK and any(writes_seed(Pg, x) for x in c if x in Pg.funcs):
            r.add(fn)
    return r


def writes_seed(Pg, fn):
    T = Pg.T[fn]
    for I in Pg.funcs[fn].insts():
        if I.op == "store":
            t = T.ref(I.args[1])
            while t[0] == "ix":
                t = t[1]
            if t == ("g", SEED):
                return True
    return False


def seed(Pg, R):
    r = "seed"
    F = get(Pg, R, r, "setRandomSeedFromString")
    if F:
        sc = [e for e in F.K.events if "scanf" in e.name]
        if len(sc) == 1 and not sc[0].vd:
            e = sc[0]
            fmt = e.args[1].atom()
            R.check(r, e.args[0] == F.arg(0), "setRandomSeedFromString:text", "%s: the seed is read from another text" % e.ins.where(), e.ins)
            n = [p for p in (fmt[1].split(":") if fmt and fmt[0] == "str" else [])]
            if n and len(n) == len(e.args) - 2:
                R.check(r, all(x.strip() in ("%d", "%i", "%u", "%hu", "%hd") for x in n), "setRandomSeedFromString:format", "%s: format %r" % (e.ins.where(), fmt[1]), e.ins)
                R.check(r, len(n) == 3, "setRandomSeedFromString:parts", "%s: %d parts are read" % (e.ins.where(), len(n)), e.ins)
                ga = g(SEED)
                got = [F.K.final(("g", SEED), P(k)) for k in range(3)]
                if any(has_unknown(x) for x in got):
                    R.undecided(r, "setRandomSeedFromString: state is %s" % got)
                else:
                    dst = []
                    for k, x in enumerate(got):
                        ids = {i for a in x.atoms() for i in poly._all_ids(a)}
                        outs = [ALIST_(i) for i in ids if ALIST_(i)[0] == "out"]
                        dst.append(repr(outs[0]) if len(outs) == 1 else repr(x))
                        R.check(r, bool(outs), "setRandomSeedFromString:state", "%s: part %d of the state is %s" % (e.ins.where(), k, x), e.ins)
                    R.check(r, len(set(dst)) == 3, "setRandomSeedFromString:each", "%s: two parts of the state come from the same number" % e.ins.where(), e.ins)
            else:
                R.undecided(r, "setRandomSeedFromString: format not recognised")
        else:
            R.undecided(r, "setRandomSeedFromString: %d readings" % len(sc))
        v = F.K.final(("g", SEEDED))
        if has_unknown(v):
            R.undecided(r, "setRandomSeedFromString: mark is %s" % v)
        else:
            R.check(r, v != g(SEEDED) and eq0(v) == ZERO, "setRandomSeedFromString:mark", "%s:%d: the seed given is not marked as given" % (F.f.file, F.f.line))


def ALIST_(i):
    return poly.ALIST[i]


def draws(Pg, R):
    r = "draw"
    F = get(Pg, R, r, "setRandomDistribution")
    s = loop_with(Pg, R, r, "setRandomDistribution", ("getRandomDouble", "fran", "erand48")) if F else None
    if not s:
        return
    x, n = F.arg(0), F.arg(1)
    dr = [e for e in s.events if e.name in ("getRandomDouble", "fran", "erand48")]
    if len(dr) != 1 or dr[0].vd or dr[0].res is None or len(s.vars) != 1:
        return R.undecided(r, "setRandomDistribution: draws not recognised")
    iv, = s.vars
    i = s.vars[iv]
    if dr[0].name == "getRandomDouble":
        a = tuple(z.const() for z in dr[0].args)
        R.check(r, a == (0, 1), "setRandomDistribution:limits", "%s: numbers are drawn from %s to %s" % ((dr[0].ins.where(),) + tuple(map(str, dr[0].args))), dr[0].ins)
    u = dr[0].res
    share = s.final(("mem",), x, i)
    j = fresh(rng(0, i))
    rest = s.final(("mem",), x, j)
    if has_unknown(share) or has_unknown(rest):
        return R.undecided(r, "setRandomDistribution: shares not resolved")
    same(R, r, F, "rest", rest, (ONE - share) * el(x, j), "what the earlier states keep")
    R.check(r, s.inits[iv].const() == 1 or has_unknown(s.inits[iv]), "setRandomDistribution:first", "%s: starts with state %s" % (dr[0].ins.where(), s.inits[iv]), dr[0].ins)
    R.check(r, s.nexts[iv] == i + 1 or has_unknown(s.nexts[iv]), "setRandomDistribution:next", "%s: the state after i is %s" % (dr[0].ins.where(), s.nexts[iv]), dr[0].ins)
    same(R, r, F, "all", s.cont, [lt0(i - n, "i"), ONE - eq0(i - n)], "a share for every state")
    first = [e for e in F.K.log if e.kind == "set" and e.region == ("mem",) and not e.vd and e.idx[0] == x and e.idx[1].const() == 0]
    if first:
        same(R, r, F, "start", first[-1].val, ONE, "the first state starts with everything")
    same(R, r, F, "share", share, [ONE - call("exp", inv(i) * call("log", u)), ONE - call("pow", u, inv(i))], "share of the next state")
