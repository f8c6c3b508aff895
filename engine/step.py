"""One iteration of a loop from an arbitrary state: what is read, called and written, under which conditions, and how the
loop variables go on.  Used where the whole loop has no closed form (work lists, searches)."""
import copy
from kern import *
import kern, poly


class Step:
    """name, header block; cont: condition to do the iteration; exits: conditions to leave in the middle;
    log/events as in summaries; inits/nexts: loop variables before the loop and after the iteration"""

    def __init__(s, K, h):
        s.K, s.h = K, h
        s.cont = s.log = s.events = None
        s.inits, s.nexts, s.vars = {}, {}, {}
        s.leave = ZERO
        s.before, s.line = [], 0

    def final(s, region, *idx, guard=None):
        return s.K.read(s.ctx, region, tuple(P(x) for x in idx), guard if guard is not None else s.stay)


class StepKern(Kern):
    def __init__(s, *a, skip=None, rough=False, **k):
        super().__init__(*a, **k)
        s.steps = {}
        s.skip = skip
        s.rough = rough

    def do_loop(s, h, ctx, guard, R):
        if h not in s.steps:
            env, it = dict(s.env), list(s.iters)
            try:
                s.steps[h] = None
                s.steps[h] = s.make(h, ctx, guard)
            except (Unsupported, RecursionError):
                pass
            s.env, s.iters = env, it
        if s.rough:
            return s.through(h, ctx, guard)
        if s.skip and s.steps[h] is not None and s.skip(s.steps[h]):
            # what the loop writes is taken as given
            c = copy.copy(ctx)
            c.log, c.events = list(ctx.log), list(ctx.events)
            ctx = c
        return super().do_loop(h, ctx, guard, R)

    def through(s, h, ctx, guard):
        """go past a loop knowing nothing of it but what it may write: its variables have some value, the same at every use"""
        f, body, dead = s.f, s.loops[h], s._deads()
        exits = [(u, t) for u in body for t in f.succ[u] if t not in body and t not in dead and u not in dead]
        it = tuple(s.iters)
        for b in body:
            for I in f.blocks[b]:
                if I.op not in ("store", "br") and any(J.b not in body for J in f.uses.get(I.id, ())):
                    s.env[I.id] = A("lv", h, I.id, "after", it)
        st = s.steps[h]
        if st is None:
            ctx.log.append(Entry("havoc", ("any",), (), guard, ("loop", ()), f.blocks[h][0]))
        else:
            for e in st.log:
                for r in [e.region]:
                    ctx.log.append(Entry("havoc", r, (e.idx[:1] if r[0] in ("elobj", "reach", "fdobj") else ()), guard, ("loop", (A("lv", h, "memory", it),)), e.ins))
        out, rest = {}, ONE
        for k, (u, t) in enumerate(exits):
            c = rest if k == len(exits) - 1 else rest * A("bool", "left", h, u, t, it)
            out[(u, t)] = c
            rest = rest - c
        return out

    def make(s, h, ctx, guard):
        f, body = s.f, s.loops[h]
        st = Step(s, h)
        st.body = body
        st.before = list(ctx.events)
        st.guard = guard
        phis = [I for I in f.blocks[h] if I.op == "phi"]
        for I in phis:
            outs = [o for o, u in I.d["in"] if u not in body]
            st.inits[I.id] = s.ref(outs[0]) if outs and all(s.ref(o) == s.ref(outs[0]) for o in outs) else unk("loop entry")
        st.outer = {}
        for i, v in list(s.env.items()):
            if s.volatile(v):
                st.outer[i] = v
                s.env[i] = A("old", v)
        for I in phis:
            s.env[I.id] = st.vars[I.id] = A("lv", h, I.id)
        s.iters = []
        lctx = Ctx(lambda region, idx: rd(region, *idx), None, h)
        st.ctx = lctx
        dead = s._deads()
        exits = [(u, t) for u in body for t in f.succ[u] if t not in body and t not in dead and u not in dead]
        hb = s.head(h, body, dead)[0]
        hx = [t for (u, t) in exits if u == hb]
        R2 = s.region_loop(h, body, lctx, hx)
        st.cont = R2["cont"] if R2["cont"] is not None else ONE
        for (u, t) in exits:
            if u == hb and t in hx and R2["cont"] is not None:
                continue
            c = R2["cond"].get((u, t))
            if c is not None:
                st.leave = st.leave + R2["guard"][R2["nd"](u)] * c
        st.stay = ONE - st.leave
        for I in phis:
            vals = [(s.ref(o), u) for o, u in I.d["in"] if u in body]
            if all(v == vals[0][0] for v, _ in vals):
                n = vals[0][0]
            else:
                n, tot = ZERO, ZERO
                for v, u in vals:
                    g_ = R2["guard"].get(R2["nd"](u), ZERO) * R2["cond"].get((u, h), ZERO)
                    n = n + g_ * v
                    tot = tot + g_
                n = under(n, tot)
            st.nexts[I.id] = n
        st.log, st.events = lctx.log, lctx.events
        return st

    @staticmethod
    def volatile(v):
        """value that names memory or an enclosing loop"""
        t = v.atom()
        if v.const() is not None or t and t[0] in ("arg", "str", "ga", "al", "fnaddr"):
            return False
        if t and t[0] in ("new", "ev"):
            # a result: the object stays the same
            return False
        return any(ALIST[i][0] in ("rd", "ph", "rm", "out", "call", "lv") for a in v.atoms() for i in poly._all_ids(a))


def steps(Pg, name, skip=None, rough=False):
    """the loops of a function, outermost first, in program order; and the summary run they belong to.
    skip: inner loops whose writes are taken as given; rough: nothing is said about what inner loops compute"""
    f = Pg.need(name)
    for k, p in enumerate(f.params):
        poly.NAMES[("arg", k)] = p["n"] or "arg%d" % k
    K = StepKern(Pg, f, effects(Pg), skip=skip, rough=rough)
    try:
        K.run()
        K.whole = True
    except (RecursionError, Unsupported, KeyError, IndexError, ValueError, AssertionError, TypeError, AttributeError):
        K.whole = False
    return [K.steps[h] for h in sorted(K.steps) if K.steps[h] is not None], K


# ---------------------------------------------------------------- judging one iteration

def depends(p, x):
    """the loop variable x occurs in p"""
    a = poly.aid(x.atom())
    return any(a in poly._all_ids(q) for q in p.atoms())


def before(p):
    """fields left alone by calls that only change other objects"""
    return poly.rewrite(p, "out", lambda t: t[0] == "out" and t[-2][0] == "fd", lambda t: A("rd", t[-2], t[-1]))


def bools(p, *ats):
    """p for truth values that are 0 or 1"""
    for x in ats:
        a = poly.aid(x.atom())
        p = subst(p, {a: ZERO}) * (ONE - x) + subst(p, {a: ONE}) * x
    return p


def first_ev(s, name):
    e = [e for e in s.events if e.name == name]
    return e[0] if len(e) == 1 else None


def evs_same(R, rule, F, s, wants, what, norm=None):
    """the calls of these functions are exactly the wanted ones: (name or name|name, arguments, condition)"""
    import spec
    norm = norm or (lambda p: p)
    for names in sorted({w[0] for w in wants}):
        ns = names.split("|")
        got = ZERO
        for e in s.events:
            if e.name in ns:
                t = spec.tok_cases(ns[0], e.args, e.guard)
                for v, d in reversed(e.vd):
                    t = mk_sum(v, d, t)
                got = got + t
        want = sum((spec.tok_cases(ns[0], tuple(P(a) for a in w[1]), w[2]) for w in wants if w[0] == names), ZERO)
        spec.same(R, rule, F, ns[0], norm(got), norm(want), "%s: calls of %s" % (what, ns[0]))


def in_order(R, rule, F, s, a, b):
    """every a comes before every b that can happen in the same iteration"""
    pick = lambda x: [e for e in s.events if e.name == x] if isinstance(x, str) else [x]
    for x in pick(a):
        for y in pick(b):
            if (x.guard * y.guard).m and s.events.index(x) > s.events.index(y):
                R.bad(rule, "%s:order:%s:%s" % (F.name, x.name, y.name), "%s: %s comes after %s" % (x.ins.where() if x.ins is not None else F.name, x.name, y.name))
                return
    R.hold(rule)


def loop_with(Pg, R, rule, name, with_):
    """the innermost loop that calls one of the functions"""
    st, K = steps(Pg, name)
    c = [s for s in st if any(e.name in with_ for e in s.events)]
    c = [s for s in c if not any(t is not s and set(t.body) < set(s.body) for t in c)]
    if len(c) != 1 or not K.whole:
        R.undecided(rule, "%s: loop not recognised" % name)
        return None
    return c[0]


class Outside:
    """what a function calls outside a loop"""

    def __init__(o, F, s):
        o.events = [e for e in F.K.events if s is None or (e.name, e.ins) not in {(x.name, x.ins) for x in s.events}]


def texts(F, s=None):
    """what is put together in each text buffer by the copy, append and format functions, in order:
    buffer -> list of (condition, pieces), pieces None when not known"""
    import spec
    r = {}
    for e in (s or F.K).events:
        if e.name in ("strcpy", "strcat", "sprintf", "snprintf", "strncpy", "strncat", "__strcpy_chk", "__strcat_chk"):
            d = e.args[0]
            if e.vd:
                r.setdefault(d, []).append(("?", e.guard, None))
                continue
            if "cpy" in e.name:
                r.setdefault(d, []).append(("=", e.guard, [e.args[1]]))
            elif "cat" in e.name:
                r.setdefault(d, []).append(("+", e.guard, [e.args[1]]))
            else:
                k = 2 if e.name == "snprintf" else 1
                t = e.args[k].atom()
                p = spec._pieces(t[1], list(e.args[k + 1:])) if t and t[0] == "str" else None
                r.setdefault(d, []).append(("=", e.guard, p))
    return r
