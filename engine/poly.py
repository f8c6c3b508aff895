"""Normal forms of the values a function computes.

A value is a polynomial with rational coefficients over atoms: memory reads, arguments, calls of functions without
side effects, truth values of comparisons (0/1), sums over an index range, and so on.  Constructors bring every atom
to a canonical form, so that two ways of writing the same computation give the same polynomial."""
import itertools
from fractions import Fraction

ATOMS = {}
ALIST = []
KIND_BOOL = {"lt0", "le0", "eq0", "any", "bool"}
INTS = set()


def aid(t):
    i = ATOMS.get(t)
    if i is None:
        i = ATOMS[t] = len(ALIST)
        ALIST.append(t)
    return i


class Poly:
    __slots__ = ("m", "_h")

    def __init__(s, m):
        s.m = m
        s._h = None

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.m.items()))
        return s._h

    def __eq__(s, o):
        return isinstance(o, Poly) and s.m == o.m

    def __add__(s, o):
        o = P(o)
        if not s.m:
            return o
        if not o.m:
            return s
        d = dict(s.m)
        for k, c in o.m.items():
            c = d.get(k, 0) + c
            if c:
                d[k] = c
            else:
                d.pop(k, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(s):
        return Poly({k: -c for k, c in s.m.items()})

    def __sub__(s, o):
        return s + (-P(o))

    def __rsub__(s, o):
        return P(o) - s

    def __mul__(s, o):
        o = P(o)
        d = {}
        for k1, c1 in s.m.items():
            for k2, c2 in o.m.items():
                k = mono_mul(k1, k2)
                if k is None:
                    continue
                c = d.get(k, 0) + c1 * c2
                if c:
                    d[k] = c
                else:
                    d.pop(k, None)
        return Poly(d)

    __rmul__ = __mul__

    def __repr__(s):
        return show(s)

    def const(s):
        """the number, if it is one"""
        if not s.m:
            return Fraction(0)
        if len(s.m) == 1 and () in s.m:
            return s.m[()]
        return None

    def atom(s):
        """the atom, if it is exactly one atom with coefficient 1"""
        if len(s.m) == 1:
            (k, c), = s.m.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1:
                return ALIST[k[0][0]]
        return None

    def atoms(s):
        return {a for k in s.m for a, _ in k}


def P(x):
    if isinstance(x, Poly):
        return x
    x = Fraction(x)
    return Poly({(): x} if x else {})


ZERO, ONE = P(0), P(1)


def A(*t):
    return Poly({((aid(tuple(t)), 1),): Fraction(1)})


_eqd = {}


def mono_mul(a, b):
    """product of two monomials; None when it vanishes"""
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, p in b:
        d[k] = d.get(k, 0) + p
    bools = []
    for k in list(d):
        kd = ALIST[k][0]
        if kd in KIND_BOOL:
            if d[k] > 1:
                d[k] = 1
            bools.append(k)
    # inv(x)*x
    for k in list(d):
        if k in d and ALIST[k][0] == "inv":
            x = ALIST[k][1]
            if len(x.m) == 1:
                (mk, c), = x.m.items()
                if c == 1 and len(mk) == 1:
                    j = mk[0][0]
                    if j in d and mk[0][1] == 1:
                        n = min(d[j], d[k])
                        for q in (j, k):
                            d[q] -= n
                            if not d[q]:
                                del d[q]
    bools = [k for k in bools if k in d]
    if bools:
        for i, x in enumerate(bools):
            X = ALIST[x]
            if X[0] == "eq0":
                at = _single(X[1])
                if at is not None and at in d:
                    return None            # [x=0]*x
            for y in bools[i + 1:]:
                r = bool_rel(X, ALIST[y])
                if r == 0:
                    return None
                if r == 1:
                    d.pop(y, None)         # x implies y
                elif r == -1:
                    d.pop(x, None)         # y implies x
    return tuple(sorted(d.items()))


def _single(p):
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if len(k) == 1 and k[0][1] == 1:
            return k[0][0]
    return None


def bool_rel(X, Y):
    """0 when X and Y exclude each other, 1 when X implies Y, -1 when Y implies X, None otherwise"""
    kx, ky = X[0], Y[0]
    if kx not in ("lt0", "le0", "eq0") or ky not in ("lt0", "le0", "eq0"):
        return None
    c = (X[1] - Y[1]).const()          # X = [dx ? 0], Y = [dx - c ? 0]
    if c is None:
        c2 = (X[1] + Y[1]).const()
        if c2 is None:
            return None
        # X: d ?x 0 ; Y: c2 - d ?y 0  i.e. d ?' c2
        if ky == "eq0":
            if kx == "eq0":
                return 0 if c2 != 0 else None
            t = (c2 < 0) if kx == "lt0" else (c2 <= 0)
            return -1 if t else 0
        if kx == "eq0":
            t = (c2 < 0) if ky == "lt0" else (c2 <= 0)
            return 1 if t else 0
        # d < 0 and d > c2
        if X[2] == "i":
            # d <= -1 and d >= c2+1
            if c2 + 1 > -1:
                return 0
            return None
        if c2 >= 0 and (c2 > 0 or kx == "lt0" or ky == "lt0"):
            return 0
        return None
    if kx == "eq0" and ky == "eq0":
        return 0 if c != 0 else None
    if kx == "eq0":                    # d=0; Y: -c ? 0
        t = (-c < 0) if ky == "lt0" else (-c <= 0)
        return 1 if t else 0
    if ky == "eq0":                    # d=c; X: c ? 0
        t = (c < 0) if kx == "lt0" else (c <= 0)
        return -1 if t else 0
    # d<0 and d<c
    if c > 0 or (c == 0 and kx == "lt0"):
        return 1
    return -1


# ------------------------------------------------------------------ variables
VARDOM = {}          # variable number -> domain
_vn = [0]
POSITIVE = {"gNumStates", "gNumActions", "gNumObservations"}


def fresh(dom=None):
    _vn[0] += 1
    v = A("v", _vn[0])
    if dom is not None:
        VARDOM[_vn[0]] = dom
    return v


def rng(lo, hi):
    return ("rng", P(lo), P(hi))


_fv = {}


def fv_atom(i):
    """free variables and placeholders (atom ids) of atom i"""
    r = _fv.get(i)
    if r is None:
        t = ALIST[i]
        if t[0] in ("v", "ph", "b", "rm"):
            r = {i}
            if t[0] == "rm":
                for x in _polys(t):
                    r |= fv(x)
            r = frozenset(r)
        else:
            s = set()
            for x in _polys(t):
                s |= fv(x)
            if t[0] == "ph":
                s.add(i)
            r = frozenset(s)
        _fv[i] = r
    return r


def fv(p):
    s = set()
    for k in p.m:
        for a, _ in k:
            s |= fv_atom(a)
    return s


def _polys(t):
    for x in t:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            yield from _polys(x)


def vid(v):
    """atom id of a variable given as Poly"""
    return aid(v.atom())


def depends(p, ids):
    return not fv(p).isdisjoint(ids)


# ------------------------------------------------------------------ booleans
def lead(p):
    """sign of the leading non-constant coefficient"""
    k = lead_mono(p)
    if k is None:
        return 0
    return 1 if p.m[k] > 0 else -1


def lead_mono(p):
    """leading monomial in an order that does not depend on the names of variables"""
    ks = [k for k in p.m if k]
    if len(ks) < 2:
        return ks[0] if ks else None
    return min(ks, key=lambda k: (sorted((_lcanon(a), e) for a, e in k), sorted((_catom(a), e) for a, e in k), k))


_lc = {}


def _lcanon(a):
    r = _lc.get(a)
    if r is None:
        t = ALIST[a]
        r = "~" if t[0] in ("v", "b") else _lcan(t)
        _lc[a] = r
    return r


def _lcan(x):
    if isinstance(x, Poly):
        return "{" + "+".join(sorted("%s*%s" % (c, ".".join(sorted("%s^%d" % (_lcanon(a), p) for a, p in k))) for k, c in x.m.items())) + "}"
    if isinstance(x, tuple):
        return "(" + ",".join(_lcan(y) for y in x) + ")"
    return str(x)


def _bool_table(d, f):
    """d is a polynomial over truth values only: the 0/1 polynomial of f(d)"""
    ats = sorted(d.atoms())
    if len(ats) > 6 or any(ALIST[a][0] not in KIND_BOOL for a in ats):
        return None
    res = ZERO
    for bits in itertools.product((0, 1), repeat=len(ats)):
        val = Fraction(0)
        asg = dict(zip(ats, bits))
        for k, c in d.m.items():
            if all(asg[a] for a, _ in k):
                val += c
        if f(val):
            t = ONE
            for a, b in asg.items():
                x = Poly({((a, 1),): Fraction(1)})
                t = t * (x if b else ONE - x)
            res = res + t
    return res


def _range_decide(d, ty):
    """(min,max) of d as numbers when the variables' ranges give them"""
    lo = hi = d
    for i in sorted(fv(d)):
        t = ALIST[i]
        if t[0] != "v":
            continue
        dom = VARDOM.get(t[1])
        if not dom or dom[0] != "rng":
            continue
        k = ((i, 1),)
        if any(i in fv_atom(a) and not (kk == k) for kk in d.m for a, _ in kk):
            return None, None
        c = d.m.get(k)
        if c is None:
            continue
        X = Poly({k: Fraction(1)})
        a, b = dom[1], dom[2] - 1
        if c > 0:
            lo, hi = lo + (a - X) * c, hi + (b - X) * c
        else:
            lo, hi = lo + (b - X) * c, hi + (a - X) * c
    return _bound(lo, -1), _bound(hi, 1)


def _bound(p, sgn):
    """numeric bound of p from below (-1) / above (1) using gNum* >= 1"""
    c = p.m.get((), Fraction(0))
    for k, v in p.m.items():
        if not k:
            continue
        if len(k) == 1 and k[0][1] == 1:
            t = ALIST[k[0][0]]
            if t[0] == "rd" and t[1][0] == "g" and t[1][1] in POSITIVE:
                if (v > 0) == (sgn < 0):
                    c += v
                    continue
        return None
    return c


def lt0(d, ty="f"):
    """[d < 0]"""
    c = d.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    r = _bool_table(d, lambda v: v < 0)
    if r is not None:
        return r
    f = _fabs_in(d)
    if f is not None:
        cf, x, rest = f
        if cf == 1:                       # |x| + rest < 0
            return lt0(x + rest, ty) * lt0(rest - x, ty)
        if cf == -1:                      # rest < |x|  = not(|x| <= rest)
            return ONE - le0(x - rest, ty) * le0(-x - rest, ty)
    if ty == "i":
        lo, hi = _range_decide(d, ty)
        if hi is not None and hi < 0:
            return ONE
        if lo is not None and lo >= 0:
            return ZERO
        if lead(d) < 0:
            return ONE - A("lt0", -d - 1, "i")
        return A("lt0", d, "i")
    if lead(d) < 0:
        return ONE - _fcmp("le0", -d)
    return _fcmp("lt0", d)


def le0(d, ty="f"):
    if ty == "i":
        return lt0(d - 1, "i")
    c = d.const()
    if c is not None:
        return ONE if c <= 0 else ZERO
    r = _bool_table(d, lambda v: v <= 0)
    if r is not None:
        return r
    f = _fabs_in(d)
    if f is not None:
        cf, x, rest = f
        if cf == 1:
            return le0(x + rest, ty) * le0(rest - x, ty)
        if cf == -1:
            return ONE - lt0(x - rest, ty) * lt0(-x - rest, ty)
    if lead(d) < 0:
        return ONE - _fcmp("lt0", -d)
    return _fcmp("le0", d)


def _fcmp(k, d):
    """d with positive leading coefficient, scaled to 1"""
    c = d.m[lead_mono(d)]
    if c != 1:
        d = d * (1 / c)
    return A(k, d, "f")


def _fabs_in(d):
    for k, c in d.m.items():
        if len(k) == 1 and k[0][1] == 1 and ALIST[k[0][0]][0] == "fabs" and c in (1, -1):
            x = ALIST[k[0][0]][1]
            rest = Poly({q: v for q, v in d.m.items() if q != k})
            return c, x, rest
    return None


def eq0(d, ty="i"):
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    r = _bool_table(d, lambda v: v == 0)
    if r is not None:
        return r
    if ty == "i":
        lo, hi = _range_decide(d, ty)
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            return ZERO
    t = d.atom()
    if t and t[0] in ("new", "pa", "al", "ga", "fa") and not (t[0] == "new" and t[1] in MAYNULL):
        return ZERO                        # allocation results and addresses are not null
    if len(d.m) == 2 and all(len(k) == 1 and k[0][1] == 1 for k in d.m):
        (k1, c1), (k2, c2) = d.m.items()
        t1, t2 = ALIST[k1[0][0]], ALIST[k2[0][0]]
        if c1 == -c2 and t1[0] == "new" and t2[0] in ("new", "arg"):
            return ZERO
        if c1 == -c2 and t2[0] == "new" and t1[0] in ("new", "arg"):
            return ZERO
    if len(d.m) == 1:                      # c * m = 0
        (k, c), = d.m.items()
        nz = [x for x in k if ALIST[x[0]][0] != "inv"]
        if len(nz) == 1:
            return A("eq0", Poly({((nz[0][0], 1),): Fraction(1)}), ty)
    c = d.m[lead_mono(d)]
    if c != 1:
        d = d * (1 / c)
    return A("eq0", d, ty)


MAYNULL = set()      # functions whose fresh result can also be null


def isbool(p):
    ats = p.atoms()
    return all(ALIST[a][0] in KIND_BOOL for a in ats) and _bool_table(p, lambda v: v not in (0, 1)) == ZERO


def truth(p):
    """[p != 0]"""
    return ONE - eq0(p)


# ------------------------------------------------------------------ other constructors
def fabs(d):
    c = d.const()
    if c is not None:
        return P(abs(c))
    if lead(d) < 0:
        d = -d
    return A("fabs", d)


def inv(d):
    c = d.const()
    if c is not None and c != 0:
        return P(1 / c)
    if len(d.m) == 1:
        (k, c), = d.m.items()
        r = P(1 / c)
        for a, p in k:
            t = ALIST[a]
            for _ in range(p):
                r = r * (t[1] if t[0] == "inv" else A("inv", Poly({((a, 1),): Fraction(1)})))
        return r
    c = d.m[lead_mono(d)]
    return A("inv", d * (1 / c)) * (1 / c)


def pa(base, idx):
    t = base.atom()
    if t and t[0] == "pa":
        base, idx = t[1], t[2] + idx
    if idx.const() == 0:
        return base
    return A("pa", base, idx)


def rd(region, *idx):
    idx = tuple(P(x) for x in idx)
    if region == ("mem",):
        t = _matrix_entry(idx)
        if t is not None:
            return t
    return A("rd", region, idx)


def g(name):
    return rd(("g", name))


def fld(obj, name):
    return rd(("fd", name), obj)


def el(base, i):
    t = base.atom()
    if t and t[0] == "pa":
        base, i = t[1], t[2] + i
    return rd(("mem",), base, i)


def _matrix_entry(idx):
    return None


def call(name, *args):
    if name == "getEntryMatrix":
        return A("ent", *[P(a) for a in args])
    return A("call", name, tuple(P(a) for a in args))


_un = [0]


def unk(why="", *what):
    _un[0] += 1
    return A("unk", _un[0], why, *what)


# ------------------------------------------------------------------ binders
def height(p):
    h = 0
    for k in p.m:
        for a, _ in k:
            h = max(h, _height(a))
    return h


_hh = {}


def _height(a):
    h = _hh.get(a)
    if h is None:
        t = ALIST[a]
        h = t[1] if t[0] == "b" else 0
        for x in _polys(t):
            h = max(h, height(x))
        _hh[a] = h
    return h


def dom_polys(d):
    return [x for x in d[1:] if isinstance(x, Poly)]


def dom_subst(d, mp):
    return tuple(subst(x, mp) if isinstance(x, Poly) else x for x in d)


def close(kind, vars_doms, payload, order=None):
    """binder atom with canonical names of the bound variables.  payload: tuple of polys (and other things)"""
    n = len(vars_doms)
    h = 0
    for x in list(_polys(payload)) + [y for _, d in vars_doms for y in dom_polys(d)]:
        h = max(h, height(x))
    while True:
        best = _close(kind, vars_doms, payload, order, n, h)
        own = set(range(h + 1, h + n + 1))
        inner = set()
        for x in _polys(best[2:]):
            for a in x.atoms():
                inner |= _bnames(a)
        if not (own & inner):
            return A(*best)
        h = max(inner)


_bn = {}


def _bnames(a):
    """names bound inside atom a"""
    r = _bn.get(a)
    if r is None:
        s = set()
        for i in _all_ids(a):
            t = ALIST[i]
            if t[0] in BINDERS:
                s |= set(t[1])
        r = _bn[a] = frozenset(s)
    return r


def _close(kind, vars_doms, payload, order, n, h):
    best = None
    perms = itertools.permutations(range(n)) if (order is None and n <= 4) else [tuple(range(n))]
    for pm in perms:
        vd = [vars_doms[i] for i in pm]
        # a domain may only mention variables bound before it
        ok = True
        for i, (v, d) in enumerate(vd):
            later = {vid(w) for w, _ in vd[i:]}
            if any(depends(x, later) for x in dom_polys(d)):
                ok = False
                break
        if not ok:
            continue
        mp = {vid(v): A("b", h + n - i) for i, (v, d) in enumerate(vd)}
        doms = tuple(dom_subst(d, mp) for _, d in vd)
        pl = tuple(raw_subst(x, mp) for x in payload)
        cand = (kind, tuple(h + n - i for i in range(n)), doms) + pl
        key = repr_atom(cand)
        if best is None or key < best[0]:
            best = (key, cand)
    return best[1]


def repr_atom(t):
    return _canon(t)


def _canon(x):
    if isinstance(x, Poly):
        return "{" + "+".join(sorted("%s*%s" % (c, ".".join(sorted("%s^%d" % (_catom(a), p) for a, p in k))) for k, c in x.m.items())) + "}"
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "v":
            return "(v)"
        return "(" + ",".join(_canon(y) for y in x) + ")"
    return str(x)


_ca = {}


def _catom(a):
    r = _ca.get(a)
    if r is None:
        r = _ca[a] = _canon(ALIST[a])
    return r


def opened(t):
    """binder atom -> (vars, doms, payload) with fresh variables"""
    kind, names, doms = t[0], t[1], t[2]
    mp = {}
    vs, ds = [], []
    for n, d in zip(names, doms):
        d2 = tuple(raw_subst(x, mp) if isinstance(x, Poly) else x for x in d)
        v = fresh(d2)
        mp[aid(("b", n))] = v
        vs.append(v)
        ds.append(d2)
    pl = tuple(raw_subst(x, mp) for x in t[3:])
    return vs, ds, pl


def raw_subst(p, mp):
    """substitution without going through binders' renaming (only for b/v renaming)"""
    return subst(p, mp)


BINDERS = {"S", "any", "fi", "max", "min", "fold", "prod", "lam"}


def subst(p, mp):
    """replace atoms (ids) by polynomials, re-normalising"""
    ids = frozenset(mp)
    return _subst(p, mp, ids, {})


def _subst(p, mp, ids, memo):
    if isinstance(p, Poly):
        hit = False
        for k in p.m:
            for a, _ in k:
                if a in ids or not _all_ids(a).isdisjoint(ids):
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return p
        r = ZERO
        for k, c in p.m.items():
            t = P(c)
            for a, e in k:
                x = _subst_atom(a, mp, ids, memo)
                for _ in range(e):
                    t = t * x
            r = r + t
        return r
    if isinstance(p, tuple):
        return tuple(_subst(x, mp, ids, memo) for x in p)
    return p


_ai = {}


def _all_ids(a):
    """every atom occurring in atom a"""
    r = _ai.get(a)
    if r is None:
        s = {a}
        for x in _polys(ALIST[a]):
            for k in x.m:
                for b, _ in k:
                    s |= _all_ids(b)
        r = _ai[a] = frozenset(s)
    return r


_hi = {}


def has_inf(p):
    """an unbounded count occurs in p, outside the contents of arrays passed to calls"""
    return any(_inf(a) for a in p.atoms())


def _inf(a):
    r = _hi.get(a)
    if r is None:
        t = ALIST[a]
        r = _hi[a] = t[0] == "inf" or t[0] != "with" and any(_inf(b) for x in _polys(t) for k in x.m for b, _ in k)
    return r


def _subst_atom(a, mp, ids, memo):
    if a in mp:
        return mp[a]
    if _all_ids(a).isdisjoint(ids):
        return Poly({((a, 1),): Fraction(1)})
    r = memo.get(a)
    if r is not None:
        return r
    t = ALIST[a]
    k = t[0]
    if k in BINDERS:
        # rename bound variables first, unless this very substitution is the renaming of them
        bound = {aid(("b", n)) for n in t[1]}
        if bound & ids:
            raise AssertionError("capture")
        if all(ALIST[i][0] == "b" for i in ids) or all(x.atom() and x.atom()[0] == "b" for x in mp.values()):
            # pure renaming: keep the binder as is when names cannot clash
            u = (k, t[1]) + tuple(_subst(x, mp, ids, memo) for x in t[2:])
            names = {n for x in mp.values() if x.atom() and x.atom()[0] == "b" for n in [x.atom()[1]]}
            if not (names & set(t[1])):
                if all(x.atom() and x.atom()[0] == "b" for x in mp.values()):
                    r = A(*u)
                    memo[a] = r
                    return r
        vs, ds, pl = opened(t)
        ds = [tuple(_subst(x, mp, ids, {}) for x in d) for d in ds]
        pl = tuple(_subst(x, mp, ids, {}) for x in pl)
        r = rebind(k, vs, ds, pl)
    else:
        u = tuple(_subst(x, mp, ids, memo) for x in t[1:])
        r = mk(k, u)
    memo[a] = r
    return r


_has = {}


def rewrite(p, tag, test, fn):
    """rebuild p bottom-up, replacing atoms that satisfy test(atom) by fn(atom).  tag names the test (for caching)"""
    def has(a):
        r = _has.get((tag, a))
        if r is None:
            r = _has[(tag, a)] = any(test(ALIST[i]) for i in _all_ids(a))
        return r

    memo = {}

    def go(p):
        if isinstance(p, tuple):
            return tuple(go(x) for x in p)
        if not isinstance(p, Poly):
            return p
        if not any(has(a) for k in p.m for a, _ in k):
            return p
        r = ZERO
        for k, c in p.m.items():
            t = P(c)
            for a, e in k:
                x = atom(a)
                for _ in range(e):
                    t = t * x
            r = r + t
        return r

    def atom(a):
        if not has(a):
            return Poly({((a, 1),): Fraction(1)})
        r = memo.get(a)
        if r is not None:
            return r
        t = ALIST[a]
        if t[0] in BINDERS and test(t):
            r = fn(t)
        elif t[0] in BINDERS:
            vs, ds, pl = opened(t)
            r = rebind(t[0], vs, [tuple(go(x) for x in d) for d in ds], tuple(go(x) for x in pl))
        else:
            u = (t[0],) + tuple(go(x) for x in t[1:])
            r = fn(u) if test(u) else mk(u[0], u[1:])
        memo[a] = r
        return r
    return go(p)


def mk(k, u):
    if k == "lt0":
        return lt0(u[0], u[1])
    if k == "le0":
        return le0(u[0], u[1])
    if k == "eq0":
        return eq0(u[0], u[1])
    if k == "fabs":
        return fabs(u[0])
    if k == "inv":
        return inv(u[0])
    if k == "pa":
        return pa(u[0], u[1])
    if k == "rd":
        if u[0] == ("mem",):
            return el(*u[1])
        return rd(u[0], *u[1])
    if k == "op":
        return op(u[0], *u[1])
    if k == "max2":
        return max2(*u)
    return A(k, *u)


def op(name, *args):
    return A("op", name, tuple(args))


def max2(a, b):
    a, b = sorted((a, b), key=_canon)
    return A("max2", a, b)


def rebind(kind, vs, ds, pl):
    for v, d in zip(vs, ds):
        VARDOM[v.atom()[1]] = d
    if kind == "S":
        r = pl[0]
        for v, d in reversed(list(zip(vs, ds))):
            r = mk_sum(v, d, r)
        return r
    if kind == "any":
        r = pl[0]
        for v, d in reversed(list(zip(vs, ds))):
            r = mk_any(v, d, r)
        return r
    if kind == "fi":
        return mk_fi(vs[0], ds[0], pl[0], pl[1])
    if kind in ("max", "min"):
        return mk_ext(kind, vs[0], ds[0], pl[0], pl[1])
    if kind == "lam":
        return close("lam", list(zip(vs, ds)), pl, order=True)
    return close(kind, list(zip(vs, ds)), pl, order=True)


def count(d):
    if d[0] == "rng":
        return d[2] - d[1]
    return None


# sparse matrices: name of the global a matrix comes from -> number of columns
MATCOLS = {"P": "gNumStates", "R": "gNumObservations", "Q": "gNumStates"}


def mat_root(M):
    t = M.atom()
    n = 0
    while t and n < 6:
        if t[0] == "rd" and t[1][0] == "g":
            return t[1][1]
        if t[0] == "rd" and t[2]:
            t = t[2][0].atom()
        elif t[0] == "pa":
            t = t[1].atom()
        else:
            return None
        n += 1
    return None


def row_of(dom):
    """(matrix, row) when the domain is the stored entries of one row of a sparse matrix"""
    if dom[0] != "rng":
        return None
    t = dom[1].atom()
    if not t or t[0] != "rd" or t[1] != ("mem",):
        return None
    b = t[2][0].atom()
    if not b or b[0] != "rd" or b[1] != ("fd", "Matrix_Struct.row_start"):
        return None
    M, i = b[2][0], t[2][1]
    if dom[2] == dom[1] + el(fld(M, "Matrix_Struct.row_length"), i):
        return M, i
    return None


def row_rewrite(v, dom, atoms_list):
    """monomial atoms over a stored row -> (new var, new domain, new poly) over all columns, or None"""
    ri = row_of(dom)
    if not ri:
        return None
    M, i = ri
    root = mat_root(M)
    val, col = el(fld(M, "Matrix_Struct.mat_val"), v), el(fld(M, "Matrix_Struct.col"), v)
    vi = aid(val.atom())
    if vi not in [a for a, _ in atoms_list]:
        return None
    cols = g(MATCOLS[root]) if root in MATCOLS else A("ncols", M)
    d2 = rng(0, cols)
    k = fresh(d2)
    p = ONE
    for a, e in atoms_list:
        x = Poly({((a, 1),): Fraction(1)})
        for _ in range(e):
            p = p * x
    p = subst(p, {vi: A("ent", M, i, k), aid(col.atom()): k})
    if vid(v) in fv(p):
        return None
    return k, d2, p


def mk_sum(v, dom, p):
    """sum of p for v in dom"""
    i = vid(v)
    VARDOM.setdefault(v.atom()[1], dom)
    if dom[0] == "rng" and (dom[2] - dom[1]).const() is not None and 0 <= (dom[2] - dom[1]).const() <= 1:
        if (dom[2] - dom[1]).const() == 0:
            return ZERO
        return subst(p, {i: dom[1]})
    res = ZERO
    for k, c in p.m.items():
        dep = [(a, e) for a, e in k if i in fv_atom(a)]
        ind = [(a, e) for a, e in k if i not in fv_atom(a)]
        f = Poly({tuple(sorted(ind)): c})
        if not dep:
            n = count(dom)
            res = res + f * (n if n is not None else close("S", [(v, dom)], (ONE,)))
            continue
        res = res + f * _sum_mono(v, dom, dep)
    return res


def _sum_mono(v, dom, dep):
    i = vid(v)
    # [v = x]
    if dom[0] == "rng":
        for a, e in dep:
            t = ALIST[a]
            if t[0] == "eq0":
                d = t[1]
                c = d.m.get(((i, 1),))
                if c in (1, -1):
                    x = (Poly({((i, 1),): c}) - d) * c
                    if i not in fv(x):
                        rest = ONE
                        for b, eb in dep:
                            if b != a:
                                for _ in range(eb):
                                    rest = rest * Poly({((b, 1),): Fraction(1)})
                        inn = (ONE - lt0(x - dom[1], "i")) * lt0(x - dom[2], "i")
                        return inn * subst(rest, {i: x})
    # bounds of the form [v < x] narrow nothing: kept as they are
    rw = row_rewrite(v, dom, dep)
    if rw:
        k, d2, p = rw
        return mk_sum(k, d2, p)
    body = ONE
    sums = [(a, e) for a, e in dep if ALIST[a][0] == "S"]
    if len(sums) == 1 and sums[0][1] == 1:
        a = sums[0][0]
        vs, ds, pl = opened(ALIST[a])
        q = pl[0]
        for b, e in dep:
            if b != a:
                for _ in range(e):
                    q = q * Poly({((b, 1),): Fraction(1)})
        return close_sum([(v, dom)] + list(zip(vs, ds)), q)
    for b, e in dep:
        for _ in range(e):
            body = body * Poly({((b, 1),): Fraction(1)})
    return close_sum([(v, dom)], body)


def close_sum(vd, q):
    res = ZERO
    for k, c in q.m.items():
        res = res + close("S", vd, (Poly({k: Fraction(1)}),)) * c
    return res


def mk_any(v, dom, gp):
    """1 if gp (0/1) holds for some v in dom"""
    i = vid(v)
    VARDOM.setdefault(v.atom()[1], dom)
    if not gp.m:
        return ZERO
    if dom[0] == "rng" and (dom[2] - dom[1]).const() == 0:
        return ZERO
    if i not in fv(gp):
        if dom[0] == "rng":
            return gp * lt0(dom[1] - dom[2], "i")
        if dom[0] == "list":
            return gp * (ONE - eq0(dom[1]))
        return gp
    if len(gp.m) == 1:
        (k, c), = gp.m.items()
        if c == 1:
            ind = [(a, e) for a, e in k if i not in fv_atom(a)]
            dep = [(a, e) for a, e in k if i in fv_atom(a)]
            if ind:
                return Poly({tuple(ind): Fraction(1)}) * mk_any(v, dom, Poly({tuple(dep): Fraction(1)}))
            if len(dep) == 1 and ALIST[dep[0][0]][0] == "any":
                vs, ds, pl = opened(ALIST[dep[0][0]])
                return close("any", [(v, dom)] + list(zip(vs, ds)), pl)
    # common independent factors
    com = None
    for k in gp.m:
        s = {a for a, e in k if i not in fv_atom(a) and ALIST[a][0] in KIND_BOOL}
        com = s if com is None else com & s
    if com:
        f = Poly({tuple((a, 1) for a in sorted(com)): Fraction(1)})
        rest = Poly({tuple((a, e) for a, e in k if a not in com): c for k, c in gp.m.items()})
        return f * mk_any(v, dom, rest)
    return close("any", [(v, dom)], (gp,))


def mk_fi(v, dom, G, val):
    """value of val at the first v in dom where G holds; 0 when there is none"""
    i = vid(v)
    VARDOM.setdefault(v.atom()[1], dom)
    if not G.m or not val.m:
        return ZERO
    if val == G:
        return mk_any(v, dom, G)
    if i not in fv(val):
        return val * mk_any(v, dom, G)
    # linear in val; keep c*G together
    res = ZERO
    for k, c in val.m.items():
        dep = tuple((a, e) for a, e in k if i in fv_atom(a))
        ind = tuple((a, e) for a, e in k if i not in fv_atom(a))
        f = Poly({ind: c})
        d = Poly({dep: Fraction(1)})
        if not dep:
            res = res + f * mk_any(v, dom, G)
        else:
            if (d - d * G) == ZERO and False:
                pass
            res = res + f * close("fi", [(v, dom)], (G, d))
    return fi_merge(res)


def fi_merge(p):
    """sum of fi(G, m_k) with the m_k adding up to G (or to c with m*G) -> any"""
    groups = {}
    for k, c in p.m.items():
        fs = [(a, e) for a, e in k if ALIST[a][0] == "fi"]
        if len(fs) == 1 and fs[0][1] == 1:
            t = ALIST[fs[0][0]]
            rest = tuple(x for x in k if x != fs[0])
            groups.setdefault((t[1], t[2], t[3], rest), []).append((k, c, t[4]))
    for (nm, dm, G, rest), L in groups.items():
        if len(L) < 2:
            continue
        s = ZERO
        for k, c, m in L:
            s = s + m * c
        q = None
        for kk, cc in G.m.items():
            if kk in s.m:
                q = s.m[kk] / cc
            break
        if q is not None and s == G * q:
            for k, c, m in L:
                p = p - Poly({k: c})
            anya = Poly({((aid(("any", nm, dm, G)), 1),): Fraction(1)})
            p = p + Poly({rest: q}) * anya
    return p


def mk_ext(kind, v, dom, e, init):
    i = vid(v)
    VARDOM.setdefault(v.atom()[1], dom)
    # drop guards: values where e is guarded stay as they are
    return close(kind, [(v, dom)], (e, init))


# ------------------------------------------------------------------ printing
_sym = {"lt0": "<0", "le0": "<=0", "eq0": "=0"}


def show(p):
    if not isinstance(p, Poly):
        return str(p)
    if not p.m:
        return "0"
    out = []
    for k, c in sorted(p.m.items(), key=lambda x: (len(x[0]), _canon(Poly({x[0]: Fraction(1)})))):
        f = [_showatom(a) + ("^%d" % e if e > 1 else "") for a, e in k]
        cs = ("%d" % c) if c.denominator == 1 else "%g" % float(c)
        if not f:
            out.append(cs)
        elif c == 1:
            out.append("*".join(f))
        elif c == -1:
            out.append("-" + "*".join(f))
        else:
            out.append(cs + "*" + "*".join(f))
    return " + ".join(out).replace("+ -", "- ")


def _showdom(d):
    if d[0] == "rng":
        return "[%s..%s)" % (show(d[1]), show(d[2]))
    return "%s(%s)" % (d[0], ",".join(show(x) for x in d[1:]))


NAMES = {}


def _showatom(a):
    t = ALIST[a]
    k = t[0]
    if k == "rd":
        r, ix = t[1], t[2]
        if r[0] == "g":
            return r[1] + "".join("[%s]" % show(x) for x in ix)
        if r[0] == "fd":
            return "%s->%s" % (show(ix[0]), r[1].split(".")[-1])
        return "%s[%s]" % (show(ix[0]), show(ix[1]))
    if k == "ent":
        return "%s(%s,%s)" % tuple(show(x) for x in t[1:4])
    if k in _sym:
        return "[%s%s]" % (show(t[1]), _sym[k])
    if k == "inv":
        return "1/(%s)" % show(t[1])
    if k == "fabs":
        return "|%s|" % show(t[1])
    if k == "arg":
        return NAMES.get(t, "arg%s" % t[1])
    if k in ("v", "b"):
        return "%s%d" % ("i" if k == "v" else "k", t[1])
    if k == "call":
        return "%s(%s)" % (t[1], ",".join(show(x) for x in t[2])) + ("{%s}" % ",".join(str(x) for x in t[3]) if len(t) > 3 else "")
    if k == "S":
        return "SUM{%s: %s}" % (", ".join("k%d in %s" % (n, _showdom(d)) for n, d in zip(t[1], t[2])), show(t[3]))
    if k == "any":
        return "SOME{%s: %s}" % (", ".join("k%d in %s" % (n, _showdom(d)) for n, d in zip(t[1], t[2])), show(t[3]))
    if k == "fi":
        return "FIRST{k%d in %s with %s: %s}" % (t[1][0], _showdom(t[2][0]), show(t[3]), show(t[4]))
    if k in ("max", "min"):
        return "%s{k%d in %s: %s; from %s}" % (k.upper(), t[1][0], _showdom(t[2][0]), show(t[3]), show(t[4]))
    if k == "pa":
        return "&%s[%s]" % (show(t[1]), show(t[2]))
    if k == "ga":
        return "&" + t[1]
    if k == "fa":
        return "&%s->%s" % (show(t[1]), t[2].split(".")[-1])
    return "%s(%s)" % (k, ",".join(_sh(x) for x in t[1:]))


def _sh(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, tuple):
        return "(" + ",".join(_sh(y) for y in x) + ")"
    return str(x)


def has_unknown(p, seen=None):
    """does p contain a part the analysis could not resolve?"""
    for i in set().union(*[_all_ids(a) for a in p.atoms()] or [set()]):
        t = ALIST[i]
        if t[0] in ("unk", "ph", "rm") or t[0] == "out" and t[1] in ("memcpy", "memmove", "memset", "bcopy"):
            return True
    return False
