"""Comparison of function summaries (kern.py) with what the property says, in normal form."""
import itertools
from kern import *
import kern, poly

# what constructors put into the object they return (checked by A02/A05 against their own bodies)
CONTRACT = {
    "newAlphaNode": {"alpha": 0, "action": 1, "next": ZERO, "obs_source": ZERO, "prev_source": ZERO, "first_source": ZERO,
                     "second_source": ZERO, "witness": ZERO, "mark": ZERO, "obs": P(-1)},
    "newAlphaList": {"head": ZERO, "tail": ZERO, "length": ZERO, "next": ZERO, "obs_source": ZERO, "witness": ZERO, "mark": ZERO, "alpha": ZERO},
}
LT = "AlphaListType."


class Fn:
    """summary of one function with queries"""

    def __init__(s, Pg, name):
        s.P, s.name = Pg, name
        s.f = Pg.need(name)
        for k, p in enumerate(s.f.params):
            poly.NAMES[("arg", k)] = p["n"] or "arg%d" % k
        s.broken = None
        try:
            s.K = summarise(Pg, name)
        except (RecursionError, Unsupported, KeyError, IndexError, ValueError, AssertionError, TypeError, AttributeError) as e:
            s.broken = "%s: %s" % (type(e).__name__, e)
            s.K = None

    def arg(s, k):
        return A("arg", k)

    @property
    def ret(s):
        return s.K.ret

    def events(s, *names):
        return [e for e in s.K.events if e.name in names]

    def maker(s, ptr):
        """call that made a fresh object: (event, renaming of its variables to the ones in ptr)"""
        t = ptr.atom()
        if not t or t[0] not in ("new", "ev"):
            return None
        for e in s.K.events:
            if e.res is None:
                continue
            r = e.res.atom()
            if r and r[0] == t[0] and r[1:3] == t[1:3]:
                mp = {}
                for x, y in zip(r[3], t[3]):
                    if x.atom() and x.atom()[0] == "v":
                        mp[vid(x)] = y
                return e, mp
        return None

    def made_args(s, ptr):
        m = s.maker(ptr)
        return tuple(subst(a, m[1]) for a in m[0].args) if m else None

    def at(s, ptr, i, guard=None):
        """ptr[i] when the function returns"""
        return s.cases(ptr, lambda p, gd: s.K.final(("mem",), *_split(p, i), guard=gd), guard)

    def cases(s, p, fn, guard=None):
        """apply fn (pointer, condition) to a pointer that may be chosen under conditions"""
        base = ONE if guard is None else guard
        cg = lambda c: c * base if guard is not None or c != ONE else None
        if p.atom() or len(p.m) <= 1:
            return fn(p, guard)
        ats = sorted({a for k in p.m for a, _ in k if ALIST[a][0] in KIND_BOOL})
        if not ats or len(ats) > 4:
            return fn(p, guard)
        r = ZERO
        for bits in itertools.product((0, 1), repeat=len(ats)):
            c = ONE
            for a, b in zip(ats, bits):
                x = Poly({((a, 1),): Fraction(1)})
                c = c * (x if b else ONE - x)
            if not (c * base).m:
                continue
            q = under(p, c)
            if q.m:
                r = r + c * fn(q, cg(c))
        return r

    def field(s, ptr, name, guard=None):
        return s.cases(ptr, lambda p, gd: s._field(p, name, gd), guard)

    def _field(s, ptr, name, guard):
        v = s.K.final(("fd", name), ptr, guard=guard)
        t = ptr.atom()
        if t and t[0] == "new" and t[1] in CONTRACT:
            k = CONTRACT[t[1]].get(name.split(".")[-1])
            base = aid(rd(("fd", name), ptr).atom())
            if k is not None and any(base in poly._all_ids(a) for a in v.atoms()):
                v = subst(v, {base: k if isinstance(k, Poly) else s.made_args(ptr)[k]})
        return v

    def vec(s, ptr, n, guard=None):
        """contents of an array as a function of the index"""
        i = fresh(rng(0, n))
        return close("lam", [(i, rng(0, n))], (s.at(ptr, i, guard),))

    def node(s, ptr, *fields, guard=None, n=None, made=()):
        """a vector node by what it holds: its contents and the given fields; results of the functions in
        `made` are named by their arguments"""
        def one(p, guard):
            m = s.maker(p)
            if m and m[0].name in made:
                return A("made", m[0].name, s.made_args(p))
            if not m:
                return p
            al = s._field(p, LT + "alpha", guard)
            return A("node", s.vec(al, n if n is not None else S_, guard)) + sum(
                (A("has", f, s._field(p, LT + f, guard)) for f in fields), ZERO)
        return s.cases(ptr, one, guard)

    def snapvec(s, e, k, n):
        """contents of array argument k at the time of the call"""
        i = fresh(rng(0, n))
        for m, x in e.snap:
            if m == k:
                return close("lam", [(i, rng(0, n))], (lam_at(x, i),))
        return close("lam", [(i, rng(0, n))], (el(e.args[k], i),))

    def esum(s, *names, argmap=None, skip=()):
        """all calls of the named functions, as a formal sum (order does not matter)"""
        r = ZERO
        for e in s.events(*names):
            r = r + tok_sum(e, argmap, skip)
        return r


def _split(p, i):
    t = p.atom()
    if t and t[0] == "pa":
        return t[1], t[2] + i
    return p, i


def tok_sum(e, argmap=None, skip=()):
    args = [a for k, a in enumerate(e.args) if k not in skip]
    if argmap:
        args = [argmap(e, k, a) for k, a in enumerate(args)]
    t = tok_cases(e.name, args, e.guard)
    for v, d in reversed(e.vd):
        t = mk_sum(v, d, t)
    return t


def tok_cases(name, args, guard):
    ats = sorted({a for p in args for k in p.m for a, _ in k if ALIST[a][0] in KIND_BOOL})
    if len(ats) > 4:
        ats = []
    r = ZERO
    for bits in itertools.product((0, 1), repeat=len(ats)):
        c = guard
        for a, b in zip(ats, bits):
            x = Poly({((a, 1),): Fraction(1)})
            c = c * (x if b else ONE - x)
        if not c.m:
            continue
        r = r + c * A("tok", name, tuple(under(p, c) for p in args))
    return r


def tok(name, *args):
    return A("tok", name, tuple(P(a) for a in args))


def LT0(d):
    return lt0(P(d), "i")


def NODE(vec, **fields):
    return A("node", vec) + sum((A("has", f, P(x)) for f, x in fields.items()), ZERO)


def lam_at(l, i):
    t = l.atom()
    vs, ds, pl = poly.opened(t)
    return subst(pl[0], {vid(vs[0]): i})


def SUM(dom, fn):
    if not isinstance(dom, tuple):
        dom = rng(0, dom)
    v = fresh(dom)
    return mk_sum(v, dom, fn(v))


def SOME(dom, fn):
    if not isinstance(dom, tuple):
        dom = rng(0, dom)
    v = fresh(dom)
    return mk_any(v, dom, fn(v))


def ALL(dom, fn):
    return ONE - SOME(dom, lambda v: ONE - fn(v))


def VEC(n, fn):
    n = P(n)
    v = fresh(rng(0, n))
    return close("lam", [(v, rng(0, n))], (fn(v),))


def FOLD(dom, init, step, dir=1):
    """state after going through the domain in order"""
    v = fresh(dom)
    probe = step(v, ZERO)
    lv = 1 + max([ALIST[i][2] for a in probe.atoms() for i in poly._all_ids(a) if ALIST[i][0] == "st"] + [0])
    n = step(v, A("st", 0, lv))
    return close("fold", [(v, dom)], (0, (P(init),), (n,)) + ((dir,) if dom[0] == "rng" else ()), order=True)


def PRE(dom, v):
    return rng(dom[1], v) if dom[0] == "rng" else ("pre", dom[1], dom[2], v)


def LIST(first, link="AlphaListType.next"):
    return ("list", P(first), link)


def ent(m, i, j):
    return A("ent", P(m), P(i), P(j))


S_, A_, O_ = (g("gNumStates"), g("gNumActions"), g("gNumObservations"))


def same(R, rule, F, key, got, want, what, ins=None):
    """one instance: the code computes `got`, the property says `want`"""
    fn = getattr(F, "name", None) or str(F)
    wants = want if isinstance(want, (list, tuple)) else [want]
    for w in wants:
        if got == w:
            R.hold(rule)
            R.functions.add(fn)
            return True
    if got is None or has_unknown(got) or poly.has_inf(got):
        R.undecided(rule, "%s: %s: not resolved: %s" % (fn, what, str(got)[:300]))
        return None
    import rint
    eqs = [rint.equal(got, w) for w in wants]
    if True in eqs:
        R.hold(rule)
        R.functions.add(fn)
        return True
    if None in eqs:
        R.undecided(rule, "%s: %s: not comparable: %s" % (fn, what, str(got)[:300]))
        return None
    where = ins.where() if ins is not None else "%s:%d (%s)" % (F.f.file, F.f.line, fn)
    R.bad(rule, "%s:%s" % (fn, key), "%s: %s: computes  %s   expected  %s" % (where, what, str(got)[:700], str(wants[0])[:700]))
    R.functions.add(fn)
    return False


def get(Pg, R, rule, name):
    if name not in Pg.funcs:
        R.missing(rule, name)
        return None
    R.present.add(name)
    F = Fn(Pg, name)
    if F.broken:
        R.undecided(rule, "%s: summary not available (%s)" % (name, F.broken))
        return None
    return F


def unreached(R, rule, F, *names, what):
    """reports a function from which none of the named calls can be reached any more, directly or not"""
    if F is None or set(names) & set(F.P.callgraph_reach(F.f.name)):
        return False
    R.bad(rule, "%s:%s" % (F.f.name, names[0]), "%s:%d (%s): %s: no call of %s on any path" % (F.f.file, F.f.line, F.f.name, what, " or ".join(names)))
    return True


def live(Pg, R, rule, name):
    """summary in which ending the program is a call like others"""
    F = get(Pg, R, rule, name)
    if F is None:
        return None
    try:
        F.K = Live(Pg, F.f, effects(Pg)).run()
    except (RecursionError, Unsupported, KeyError, IndexError, ValueError, AssertionError, TypeError, AttributeError) as e:
        R.undecided(rule, "%s: not summarised: %s" % (name, e))
        return None
    return F


def enum(Pg, name):
    """value of an enumeration constant"""
    for c in Pg.enums.values():
        for n, v in c:
            if n == name:
                return v
    raise AnalysisBroken("enumeration constant %s not found" % name)


def final_g(F, name, guard=None):
    """value of a global variable when the function returns"""
    return F.K.final(("g", name), guard=guard)


def MIN_(a, b):
    """smaller of two expressions"""
    c = lt0(a - b, "f")
    return c * a + (ONE - c) * b


def MAX_(a, b):
    c = lt0(b - a, "f")
    return c * a + (ONE - c) * b


def when(p, x, c):
    """the expression for the case that x has the value c"""
    return subst(p, {aid(x.atom()): P(c)})


def num(kind, x):
    """a printed value"""
    return A("num", kind, P(x))


def OUT(x):
    """a printed piece: text or value"""
    return A("tok", "out", (A("str", x) if isinstance(x, str) else x,))


def _pieces(fmt, args):
    """a format string as text and values; None when it cannot be taken apart"""
    out, k, buf = [], 0, ""
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            buf += c
            i += 1
            continue
        if fmt[i + 1:i + 2] == "%":
            buf += "%"
            i += 2
            continue
        j = i + 1
        while j < len(fmt) and fmt[j] in "-+ #0123456789.lhzjtLq*":
            k += fmt[j] == "*"
            j += 1
        if j >= len(fmt) or k >= len(args):
            return None
        cv, x = fmt[j], args[k]
        t = x.atom()
        if cv == "s" and t and t[0] == "str" and isinstance(t[1], str):
            buf += t[1]
        else:
            if buf:
                out.append(buf)
            buf = ""
            spec = fmt[i + 1:j].strip("-+ #lhL")
            out.append(num("d" if cv in "diu" else "f" if cv in "feEgG" else cv, x) if True else spec)
        k += 1
        i = j + 1
    if buf:
        out.append(buf)
    return out


def outputs(F, stream=None, names=None):
    """what a function prints, in program order: [(event, piece)], piece a text without blanks or a value; and whether
    all of it is known.  stream None: standard output"""
    res, ok = [], True
    for e in F.K.events:
        if e.name in ("fprintf", "printf", "puts", "fputs", "fputc", "putc", "putchar"):
            a = list(e.args)
            if e.name in ("fputs", "fputc", "putc"):
                st, a = a[-1], a[:-1]
            elif e.name == "fprintf":
                st, a = a[0], a[1:]
            else:
                st = None
            if (st is None) != (stream is None) or st is not None and st != stream:
                continue
            t = a[0].atom()
            if e.name in ("fputc", "putc", "putchar"):
                c = a[0].const()
                ps = [chr(int(c))] if c is not None and 0 <= c < 256 else None
            elif not t or t[0] != "str" or not isinstance(t[1], str):
                ps = [num("s", a[0])] if e.name in ("puts", "fputs") else None
            elif e.name in ("puts", "fputs"):
                ps = [t[1] + ("\n" if e.name == "puts" else "")]
            else:
                ps = _pieces(t[1], a[1:])
            if ps is None:
                ok = False
                continue
            for p in ps:
                if isinstance(p, str):
                    for ln in p.replace("\n", " \n ").split(" "):
                        for w in ln.split("\t"):
                            if w:
                                res.append((e, w))
                else:
                    res.append((e, p))
    return res, ok


def out_sum(lst, depth=None):
    """printed pieces as a formal sum"""
    r = ZERO
    for e, p in lst:
        if depth is not None and len(e.vd) != depth:
            continue
        t = e.guard * OUT(p)
        for v, d in reversed(e.vd):
            t = mk_sum(v, d, t)
        r = r + t
    return r
