"""Dataflow summary of one function: what it returns, what it leaves in memory and which calls it makes, as normal
forms (poly.py) over its inputs.  Loops are summarised from their recurrences (counters, list walks, sums, searches,
maxima); nothing is executed and no path is enumerated."""
import functools
import re
from prog import *
import itertools
from poly import *
import poly

ALLOC = {"malloc", "calloc", "xmalloc", "xcalloc", "xrealloc", "realloc", "strdup"}
IO = {"fprintf", "printf", "fputs", "fputc", "puts", "putchar", "fflush", "fclose", "fwrite", "perror", "putc"}
LIBPURE = {"sqrt", "strlen", "strcmp", "strcasecmp", "strncmp", "fabs", "abs", "atoi", "atof", "toupper", "tolower",
           "pow", "exp", "log", "floor", "ceil", "llvm.fabs.f64", "isspace", "strchr", "strrchr", "strstr", "getpid"}
EXTREAD = {"fopen", "remove", "signal", "setitimer", "feof", "ferror", "fseek", "ftell", "rewind", "unlink", "fgetc", "getc", "ungetc", "exit", "getppid", "sigaction"}
LIBMEM0 = {"memcpy", "memset", "strcpy", "strcat", "strncpy", "strncat", "sprintf", "snprintf", "fgets", "memmove",
           "llvm.memcpy.p0.p0.i64", "llvm.memset.p0.i64", "llvm.memmove.p0.p0.i64"}


class Effects:
    """what each function may modify, and whether calling it has any other visible effect"""

    def __init__(s, Pg):
        s.P = Pg
        s.mod, s.fx, s.alloc = {}, {}, {}
        for n in Pg.funcs:
            s.mod[n], s.fx[n] = set(), False
        ch = True
        while ch:
            ch = False
            for n, f in Pg.funcs.items():
                m, x = s._one(f)
                if m != s.mod[n] or x != s.fx[n]:
                    s.mod[n], s.fx[n] = m, x
                    ch = True

    def pure(s, n):
        if n in s.P.funcs:
            return not s.mod[n] and not s.fx[n] and not s.returns_fresh(n)
        return n in LIBPURE

    @functools.lru_cache(None)
    def returns_fresh(s, n):
        """every returned value is a fresh allocation (or null)"""
        if n in ALLOC:
            return True
        f = s.P.funcs.get(n)
        if not f or not f.ret.startswith("ptr") and f.ret != "ptr":
            return False
        T_ = s.P.T[n]
        ok = False
        for R in s.P.returns[n]:
            for b in s._bases(f, T_.ref(R.args[0]), set()):
                if b[0] == "call" and (b[1] in ALLOC or b[1] != n and s.returns_fresh(b[1])):
                    ok = True
                elif b[0] != "null":
                    return False
        return ok

    @functools.lru_cache(None)
    def truth(s, n):
        """every returned value is 0 or 1"""
        f = s.P.funcs.get(n)
        if not f or f.ret == "void":
            return False
        seen = set()

        def ok(o):
            if o[0] == "i":
                return o[1] in (0, 1)
            I = f.byid.get(o[1]) if o[0] == "v" else None
            if I is None:
                return False
            if I.id in seen:
                return True
            seen.add(I.id)
            if I.op == "zext":
                J = f.byid.get(I.args[0][1]) if I.args[0][0] == "v" else None
                return J is not None and (J.op in ("icmp", "fcmp") or J.op == "phi" and J.ty == "i1" or J.op in ("and", "or", "xor") and J.ty == "i1" or J.op == "select" and J.ty == "i1")
            if I.op == "phi":
                return all(ok(x) for x, _ in I.d["in"])
            if I.op == "select":
                return ok(I.args[1]) and ok(I.args[2])
            if I.op == "call":
                return I.callee is not None and I.callee != n and s.truth(I.callee)
            return False
        rs = s.P.returns.get(n) or []
        return bool(rs) and all(r.args and ok(r.args[0]) for r in rs)

    @functools.lru_cache(None)
    def may_null(s, n):
        if n in ALLOC or n not in s.P.funcs:
            return False
        f = s.P.funcs[n]
        T_ = s.P.T[n]
        for R in s.P.returns[n]:
            for b in s._bases(f, T_.ref(R.args[0]), set()):
                if b[0] == "null" or b[0] == "call" and b[1] != n and s.may_null(b[1]):
                    return True
        return False

    def _bases(s, f, t, seen):
        """what a pointer term may be based on"""
        if t in seen:
            return set()
        seen.add(t)
        k = t[0]
        if k == "ix":
            return s._bases(f, t[1], seen)
        if k == "phi":
            r = set()
            for o, _ in f.byid[t[1]].d["in"]:
                r |= s._bases(f, s.P.T[f.name].ref(o), seen)
            return r
        if k == "sel":
            return s._bases(f, t[2], seen) | s._bases(f, t[3], seen)
        return {t}

    def root(s, f, t, seen=None):
        """('arg', k) when everything on the way to t starts at one parameter, 'fresh' when it starts at an allocation"""
        seen = seen or set()
        if t in seen:
            return "none"
        seen.add(t)
        k = t[0]
        if k == "arg":
            return t
        if k in ("ld", "fd", "ix"):
            return s.root(f, t[1], seen)
        if k == "call" and (t[1] in ALLOC or t[1] in s.P.funcs and s.returns_fresh(t[1])):
            return "fresh"
        if k in ("phi", "sel"):
            rs = set()
            for b in s._bases(f, t, set()) - {t}:
                rs.add(s.root(f, b, seen))
            rs -= {"none"}
            return rs.pop() if len(rs) == 1 else None
        if k == "null":
            return "none"
        return None

    def _through(s, f, b, e):
        """effect e on what pointer term b leads to"""
        r = s.root(f, b)
        if r == "fresh":
            return set()
        if isinstance(r, tuple):
            return {("reach", r[1], e)}
        return {e}

    def _addr(s, f, a):
        """effect of writing through address term a"""
        r = set()
        if a[0] == "fd":
            for b in s._bases(f, a[1], set()):
                if b[0] == "call" and (b[1] in ALLOC or b[1] in s.P.funcs and s.returns_fresh(b[1])) or b[0] == "alloca":
                    continue
                if b[0] == "arg":
                    r.add(("fdarg", b[1], a[2]))
                else:
                    r |= s._through(f, b, ("fd", a[2]))
            return r
        if a[0] == "g":
            return {("g", a[1])}
        if a[0] == "ix":
            x = a
            while x[0] == "ix":
                x = x[1]
            if x[0] == "g":
                return {("g", x[1])}
            if x[0] == "fd":
                return {("fd", x[2])}
            a = x
        for b in s._bases(f, a, set()):
            if b[0] == "call" and (b[1] in ALLOC or b[1] in s.P.funcs and s.returns_fresh(b[1])) or b[0] == "alloca":
                continue
            if b[0] == "arg":
                r.add(("elarg", b[1]))
            elif b[0] == "ld":
                k = slot_of(b[1])
                r |= s._through(f, b, ("el", k) if k and b[1][0] != "alloca" else ("elany",))
            elif b[0] == "fd":
                r |= s._addr(f, b)
            elif b[0] == "g":
                r.add(("g", b[1]))
            elif b[0] != "null":
                r.add(("elany",))
        return r

    def _one(s, f):
        m, x = set(), False
        T_ = s.P.T[f.name]
        dead = deads(f)
        for I in f.insts():
            if I.b in dead:
                continue
            if I.op == "store":
                m |= s._addr(f, T_.ref(I.args[1]))
            elif I.op == "call":
                c = I.callee
                if c is None:
                    x = True
                    m.add(("any",))
                elif c in s.P.noreturn or c.startswith("llvm.dbg") or c.startswith("llvm.lifetime"):
                    pass
                elif c in s.P.funcs:
                    x = x or s.fx[c]
                    lib = is_lib(s.P.funcs[c]) and not is_lib(f)
                    for e in s.mod[c]:
                        if lib and e[0] in ("any", "elany", "el", "g", "fd"):
                            continue          # bundled numeric libraries work on their own structures and on what they are given
                        m |= s.translate(f, I, e)
                elif c in LIBPURE or c in ALLOC:
                    pass
                elif c in LIBMEM0:
                    if I.args:
                        m |= s._addr(f, ("ix", T_.ref(I.args[0]), ("i", 0)))
                elif c == "free":
                    x = True
                elif c in IO or c in EXTREAD:
                    x = True
                else:
                    x = True
                    for a in I.args:
                        t = T_.ref(a)
                        if t[0] in ("alloca", "arg", "ix", "fd") :
                            m |= s._addr(f, ("ix", t, ("i", 0)))
        return m, x

    def translate(s, f, I, e):
        T_ = s.P.T[f.name]
        if e[0] == "elarg":
            if e[1] >= len(I.args):
                return {("any",)}
            t = T_.ref(I.args[e[1]])
            if t[0] in ("fd", "g"):
                return s._addr(f, t)
            return s._addr(f, ("ix", t, ("i", 0)))
        if e[0] == "fdarg":
            if e[1] >= len(I.args):
                return {("fd", e[2])}
            return s._addr(f, ("fd", T_.ref(I.args[e[1]]), e[2]))
        if e[0] == "reach":
            if e[1] >= len(I.args):
                return {e[2]}
            return s._through(f, T_.ref(I.args[e[1]]), e[2])
        return {e}


def is_lib(f):
    return f.file.startswith(("src/lp-solve/", "src/laspack/"))


def deads(f):
    """blocks that inevitably end in a failed assertion or exit"""
    if not hasattr(f, "_dd"):
        dd = set()
        ch = True
        while ch:
            ch = False
            for b in range(len(f.blocks)):
                if b in dead_skip(dd, f, b):
                    continue
                if f.blocks[b][-1].op == "unreachable" or (f.succ[b] and all(t in dd for t in f.succ[b])):
                    dd.add(b)
                    ch = True
        f._dd = dd
    return f._dd


def dead_skip(dd, f, b):
    return {b} if b in dd or not f.blocks[b] else ()


class Entry:
    __slots__ = ("kind", "vd", "region", "idx", "guard", "val", "ins")

    def __init__(s, kind, region, idx, guard, val, ins=None, vd=()):
        s.kind, s.region, s.idx, s.guard, s.val, s.ins, s.vd = kind, region, idx, guard, val, ins, tuple(vd)

    def sub(s, mp):
        if not mp:
            return s
        if s.kind == "havoc":
            return Entry("havoc", s.region, s.idx, subst(s.guard, mp), tuple(subst(x, mp) if isinstance(x, Poly) else x for x in s.val) if isinstance(s.val, tuple) else s.val, s.ins,
                         [(v, dom_subst(d, mp)) for v, d in s.vd])
        return Entry(s.kind, s.region, tuple(subst(x, mp) for x in s.idx), subst(s.guard, mp), subst(s.val, mp), s.ins,
                     [(v, dom_subst(d, mp)) for v, d in s.vd])

    def __repr__(s):
        return "%s %s%s := %s if %s for %s" % (s.kind, s.region, [show(x) for x in s.idx] if s.idx else "", show(s.val) if isinstance(s.val, Poly) else s.val, show(s.guard), [(show(v), poly._showdom(d)) for v, d in s.vd])


class Event:
    __slots__ = ("name", "args", "guard", "vd", "ins", "id", "res", "snap")

    def __init__(s, name, args, guard, ins, vd=(), res=None, snap=()):
        s.name, s.args, s.guard, s.ins, s.vd, s.res = name, args, guard, ins, tuple(vd), res
        s.snap = tuple(snap)      # (argument number, contents of the array at the time of the call)

    def sub(s, mp):
        return Event(s.name, tuple(subst(x, mp) for x in s.args), subst(s.guard, mp), s.ins,
                     [(v, dom_subst(d, mp)) for v, d in s.vd], subst(s.res, mp) if s.res is not None else None,
                     [(n, subst(x, mp)) for n, x in s.snap])

    def __repr__(s):
        return "%s(%s) if %s for %s" % (s.name, ", ".join(show(x) for x in s.args), show(s.guard), [(show(v), poly._showdom(d)) for v, d in s.vd])


def literals(gd):
    """truth values (atom ids) decided by a guard"""
    mp = {}
    for a in gd.atoms():
        if ALIST[a][0] in KIND_BOOL:
            x = Poly({((a, 1),): Fraction(1)})
            if (gd - gd * x) == ZERO:
                mp[a] = ONE
            elif (gd * x) == ZERO:
                mp[a] = ZERO
    return mp


def under(p, gd):
    """p simplified with what gd says"""
    if gd == ONE or not gd.m:
        return p
    mp = literals(gd)
    if not mp:
        return under2(p, gd)
    # only top-level truth values
    r = ZERO
    for k, c in p.m.items():
        t = P(c)
        for a, e in k:
            x = mp.get(a)
            if x is None:
                x = Poly({((a, 1),): Fraction(1)})
            for _ in range(e):
                t = t * x
        r = r + t
    return under2(r, gd)


def under2(p, gd):
    """coefficients (combinations of truth values) that are always or never true when gd is true"""
    ga = {a for a in gd.atoms() if ALIST[a][0] in KIND_BOOL}
    if not ga or len(ga) > 12:
        return p
    groups = {}
    for k, c in p.m.items():
        b = tuple(x for x in k if x[0] in ga)
        o = tuple(x for x in k if x[0] not in ga)
        groups.setdefault(o, {})[b] = c
    if all(len(v) == 1 and () in v for v in groups.values()):
        return p
    r = ZERO
    for o, bs in groups.items():
        cf = Poly(bs)
        if len(bs) > 1 or () not in bs:
            x = gd * cf
            if x == gd:
                cf = ONE
            elif not x.m:
                continue
        r = r + cf * Poly({o: Fraction(1)})
    return r


# -------------------------------------------------------------- matching of locations
def choices(p):
    """a pointer chosen under conditions: (condition, pointer)"""
    if len(p.m) <= 1 and p.atom():
        return [(ONE, p)]
    ats = sorted({a for k in p.m for a, _ in k if ALIST[a][0] in KIND_BOOL})
    if not ats or len(ats) > 3:
        return [(ONE, p)]
    out = []
    for bits in itertools.product((0, 1), repeat=len(ats)):
        c = ONE
        for a, b in zip(ats, bits):
            x = Poly({((a, 1),): Fraction(1)})
            c = c * (x if b else ONE - x)
        if c.m:
            out.append((c, subst(p, {a: P(b) for a, b in zip(ats, bits)})))
    return out


def deref(region, idx):
    """what is dereferenced is not null"""
    if region[0] in ("mem", "fd") and idx and not idx[0].atom() and len(idx[0].m) > 1:
        c = {x for _, x in choices(idx[0])}
        if ZERO in c and len(c) == 2:
            c.discard(ZERO)
            return region, (c.pop(),) + tuple(idx[1:])
    return region, idx


def match(pat, q, vs, ptr):
    """condition under which pat (with variables vs, a dict id -> None/solution) equals q; None when unknown"""
    for i, sol in list(vs.items()):
        if sol is not None:
            pat = subst(pat, {i: sol})
    free = [i for i, sol in vs.items() if sol is None and i in fv(pat)]
    if not free:
        if pat == q:
            return ONE
        a, b = pat.atom(), q.atom()
        if a and b and a[0] == b[0]:
            if a[0] == "rd" and a[1] == b[1] and len(a[2]) == len(b[2]) and a[2]:
                return match_idx(a[1], a[2], b[2], vs)
            if a[0] == "pa":
                x = match(a[1], b[1], vs, True)
                if x is None or not x.m:
                    return x
                y = match(a[2], b[2], vs, False)
                return None if y is None else x * y
        if ptr:
            # different ways of reaching memory: assumed not to overlap
            if depends_ph(pat) or depends_ph(q):
                if a and b and (a[0] == "ph" or b[0] == "ph"):
                    return None
            r = ZERO
            for c, x in choices(pat):
                for d, y in choices(q):
                    if x == y and x.m:
                        r = r + c * d
            return r
        return eq0(pat - q, "i")
    if len(free) == 1:
        i = free[0]
        c = pat.m.get(((i, 1),))
        if c in (1, -1):
            rest = pat - Poly({((i, 1),): c})
            if i not in fv(rest):
                vs[i] = (q - rest) * c
                return ONE
    a, b = pat.atom(), q.atom()
    if a and b and a[0] == b[0] == "rd" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return match_idx(a[1], a[2], b[2], vs)
    if a and b and a[0] == b[0] == "new" and a[1:3] == b[1:3]:
        r = ONE
        for x, y in zip(a[3], b[3]):
            m = match(x, y, vs, False)
            if m is None:
                return None
            r = r * m
        return r
    if a and b and a[0] != b[0] and ptr:
        return ZERO
    if a and b and a[0] == "rd" == b[0] and a[1] != b[1] and ptr:
        return ZERO
    return None


def depends_ph(p):
    return any(ALIST[i][0] in ("ph", "rm") for i in fv(p))


def match_idx(region, pidx, qidx, vs):
    r = ONE
    unknown = False
    for n, (x, y) in enumerate(zip(pidx, qidx)):
        ptr = (region[0] in ("mem", "fd") and n == 0)
        m = match(x, y, vs, ptr)
        if m is None:
            unknown = True
            continue
        r = r * m
        if not r.m:
            return ZERO
    if unknown:
        return None
    return r


def in_dom(q, d):
    """condition that value q lies in domain d"""
    if d[0] == "rng":
        return (ONE - lt0(q - d[1], "i")) * lt0(q - d[2], "i")
    t = q.atom()
    if t and t[0] == "v" and VARDOM.get(t[1]) == d:
        return ONE
    if q == d[1]:
        return ONE
    return A("bool", "in", d, q)


class Unsupported(Exception):
    pass


class Ctx:
    def __init__(s, base, parent=None, loop=None):
        s.log, s.events = [], []
        s.base, s.parent, s.loop = base, parent, loop


class Kern:
    leave = False       # a loop left at its header, but not after a count, is one left early

    def __init__(s, Pg, f, fx, assume=None, args=None):
        s.P, s.f, s.fx = Pg, f, fx
        s.env = {}
        s.assume = assume or {}
        s.loops = f.loops
        s.iters = []           # iteration placeholders of the enclosing loops
        s.argv = args or {}
        s.isptr = set()

    # ---------------------------------------------------------- operands
    def ref(s, o, ctx=None):
        k = o[0]
        if k == "v":
            r = s.env.get(o[1])
            if r is None:
                r = s.env[o[1]] = unk("value %d" % o[1])
            return r
        if k == "a":
            return s.argv.get(o[1]) or A("arg", o[1])
        if k == "i":
            return P(o[1])
        if k == "f":
            x = float(o[1])
            if x in (float("inf"), float("-inf")):
                return A("HUGE") if x > 0 else -A("HUGE")
            return unk("nan") if x != x else P(Fraction(x))
        if k == "null" or k == "zero":
            return ZERO
        if k == "g":
            st = s.P.string(o)
            if st is not None and (o[1].startswith(".str") or "__const" in o[1]):
                return A("str", st)
            return A("ga", o[1])
        if k == "fn":
            return A("fnaddr", o[1])
        if k == "gep":
            st = s.P.string(o)
            if st is not None and o[2][0][0] == "g" and o[2][0][1].startswith(".str"):
                return A("str", st)
            return s.gep(o[1], [s.ref(x) for x in o[2]], [x for x in o[2]])
        if k == "undef" or k == "poison":
            return A("undef")
        return unk("operand " + str(k))

    def gep(s, ty, idx, raw):
        base = idx[0]
        if idx[1].const() != 0:
            base = pa(base, idx[1])
        for x in idx[2:]:
            if ty.startswith("%"):
                n = int(x.const())
                nm = ty.lstrip("%").split(".", 1)[1].split(".")[0] + "." + s.P.field(ty, n)
                base = A("fa", base, nm)
                ll = s.P.lls.get(ty.lstrip("%"))
                ty = ll[1][n] if ll else "?"
            elif ty.startswith("["):
                t = base.atom()
                if t and t[0] in ("ga", "fa", "ea"):
                    base = A("ea", base, x)
                else:
                    base = pa(base, x)
                ty = ty[ty.index(" x ") + 3:-1]
        return base

    @staticmethod
    def loc(a):
        """(region, index) of an address"""
        t = a.atom()
        if t:
            if t[0] == "fa":
                return ("fd", t[2]), (t[1],)
            if t[0] == "ga":
                return ("g", t[1]), ()
            if t[0] == "ea":
                r, i = Kern.loc(t[1])
                return r, i + (t[2],)
            if t[0] == "al":
                return ("al", t[1]), ()
            if t[0] == "pa":
                b = t[1].atom()
                if b and b[0] in ("ea", "ga", "fa", "al"):
                    if b[0] == "ea":
                        r, i = Kern.loc(t[1])
                        return r, i[:-1] + (i[-1] + t[2],)
                    r, i = Kern.loc(t[1])
                    return r, i + (t[2],)
                return ("mem",), (t[1], t[2])
        return ("mem",), (a, ZERO)

    # ---------------------------------------------------------- memory
    def read(s, ctx, region, idx, guard):
        region, idx = deref(region, tuple(idx))
        rest, res = ONE, ZERO
        for e in reversed(ctx.log):
            if e.region is not None and e.region != region:
                if not (e.kind == "havoc" and e.region[0] in ("el", "any", "elany", "reach", "elobj", "fdobj")):
                    continue
            r = s.entry_at(e, region, idx, guard)
            if r is None:
                continue
            c, val = r
            w = rest * c
            if not (w * guard).m and w.m and not has_unknown(w):
                continue
            if e.kind == "add":
                res = res + rest * val
                continue
            res = res + rest * val
            rest = rest * (ONE - c)
            if not rest.m or not (rest * guard).m:
                rest = ZERO
                break
        if rest.m:
            res = res + rest * ctx.base(region, idx)
        return under(res, guard)

    def entry_at(s, e, region, idx, guard):
        """(condition, condition*value) contributed by a log entry to a read"""
        if e.kind == "havoc":
            c = s.havoc_hits(e, region, idx)
            if c is None:
                return None
            if e.vd:
                return c * 1, c * unk("modified in a loop", region, tuple(idx))
            return c * e.guard, c * e.guard * s.out_value(e, region, idx)
        if len(e.idx) != len(idx):
            return ONE, unk("shape")
        ren, vs, doms = {}, {}, []
        for v, d in e.vd:
            w = fresh()
            ren[vid(v)] = w
            d = dom_subst(d, ren)
            VARDOM[w.atom()[1]] = d
            vs[vid(w)] = None
            doms.append((w, d))
        pidx = tuple(subst(x, ren) for x in e.idx)
        gd, val = subst(e.guard, ren), subst(e.val, ren)
        if e.kind == "add":
            c = ONE
            for n, (x, y) in enumerate(zip(pidx, idx)):
                ptr = region[0] in ("mem", "fd") and n == 0
                m = match(x, y, dict.fromkeys(vs), ptr) if ptr else eq0(x - y, "i")
                if m is None:
                    return ONE, unk("accumulation target")
                c = c * m
            if not c.m:
                return None
            r = c * gd * val
            for w, d in reversed(doms):
                r = mk_sum(w, d, r)
            return ONE, r
        c = match_idx(region, pidx, idx, vs)
        if c is not None and not c.m:
            return None
        mp = {i: x for i, x in vs.items() if x is not None}
        # resolve chains
        for _ in range(4):
            mp = {i: subst(x, mp) for i, x in mp.items()}
        if c is None:
            # value independent of the variables that stay open?
            cc = ONE
            for x, y in zip(pidx, idx):
                cc = cc * eq0(subst(x, mp) - y, "i")
            c = cc
        c = subst(c, mp) * subst(gd, mp)
        val = subst(val, mp)
        for w, d in doms:
            if vid(w) in mp:
                c = c * in_dom(mp[vid(w)], dom_subst(d, mp))
        for w, d in reversed(doms):
            if vid(w) not in mp:
                if vid(w) in fv(val):
                    val = unk("one of several writes")
                c = mk_any(w, d, c)
        if not c.m:
            return None
        return c, c * val

    def havoc_hits(s, e, region, idx):
        r = e.region
        if r[0] == "reach":
            if s.isfresh(e.idx[0]) and not s.isfresh(idx[0] if idx else ZERO):
                return None
            if s.isfresh(e.idx[0]) and e.idx[0] != idx[0] and idx[0].atom() and idx[0].atom()[0] == "new" and False:
                return None
            return s.havoc_hits(Entry("havoc", r[1], (), e.guard, e.val, e.ins, e.vd), region, idx)
        if r[0] == "any":
            return ONE
        if r[0] == "elany":                   # an element of some array reached through memory
            if region != ("mem",):
                return None
            t = idx[0].atom()
            return None if t and t[0] == "al" else ONE
        if r[0] == "g":
            return ONE if region == r else None
        if r[0] == "fd":
            return ONE if region == r else None
        if r[0] == "fdobj":
            if region != ("fd", r[1]):
                return None
            m = match(e.idx[0], idx[0], {}, True)
            return ONE if m is None else (m if m.m else None)
        if r[0] == "elobj":
            if region[0] == "al":
                t = e.idx[0].atom()
                return ONE if t and t[0] == "al" and t[1] == region[1] else None
            if region != ("mem",):
                t = e.idx[0].atom()
                if t and t[0] in ("fa", "ga", "ea"):
                    rr, ii = s.loc(e.idx[0])
                    if rr == region:
                        return ONE
                return None
            m = match(e.idx[0], idx[0], {}, True)
            return ONE if m is None else (m if m.m else None)
        if r[0] == "el":
            if region != ("mem",):
                return None
            t = idx[0].atom()
            k = r[1]
            while t and t[0] == "rd":
                if k[0] == "g" and t[1] == k:
                    return ONE
                if k[0] == "fd" and t[1] == k:
                    return ONE
                if k[0] in ("el", "el*"):
                    q = k
                    while q[0] in ("el", "el*"):
                        q = q[1]
                    if t[1] == q:
                        return ONE
                t = t[2][0].atom() if t[2] else None
            return None
        return ONE

    @staticmethod
    def isfresh(p):
        """reached from an object allocated in this function"""
        ats = [ALIST[i] for a in p.atoms() if ALIST[a][0] not in KIND_BOOL for i in poly._all_ids(a)]
        return any(t[0] == "new" for t in ats)

    def out_value(s, e, region, idx):
        name, args = e.val
        return A("out", name, args, region, idx)

    # ---------------------------------------------------------- evaluation
    def run(s):
        f = s.f
        ctx = Ctx(lambda region, idx: rd(region, *idx) if region[0] != "al" else A("undef"))
        s.top = ctx
        if 0 in s._deads():
            raise Unsupported("%s never returns" % f.name)
        blocks = {b for b in range(len(f.blocks)) if f.blocks[b] and b in f.idom}
        s.region(0, blocks, ctx, ONE, None)
        rets = [b for b in blocks if f.blocks[b][-1].op == "ret"]
        s.ret = None
        if rets and f.blocks[rets[0]][-1].args:
            rv = ZERO
            tot = ZERO
            for b in rets:
                g_ = s.guards.get(b, ZERO)
                rv = rv + g_ * s.ref(f.blocks[b][-1].args[0])
                tot = tot + g_
            s.ret = rv if len(rets) > 1 else s.ref(f.blocks[rets[0]][-1].args[0])
        s.endguard = s.guards.get(rets[0], ONE) if len(rets) == 1 else ONE
        s.log, s.events = ctx.log, ctx.events
        return s

    def final(s, region, *idx, guard=None):
        """value of a location when the function returns"""
        return s.read(s.top, region, tuple(P(x) for x in idx), guard if guard is not None else s.endguard)

    def dead(s, b):
        """block that cannot be left (assertion failure)"""
        return s.f.blocks[b] and s.f.blocks[b][-1].op == "unreachable"

    def _deads(s):
        return deads(s.f)

    def region(s, entry, blocks, ctx, g0, loop):
        """evaluate an acyclic collection of blocks; inner loops are summarised first"""
        f = s.f
        dead = s._deads()
        inner = [h for h in s.loops if h in blocks and h != loop]
        top = [h for h in inner if not any(h != k and h in s.loops[k] for k in inner)]
        node = {}
        for h in top:
            for b in s.loops[h]:
                node[b] = h
        nd = lambda b: node.get(b, b)
        # collapsed graph
        nodes = {nd(b) for b in blocks if b not in dead}
        succ = {n: set() for n in nodes}
        for b in blocks:
            if b in dead:
                continue
            for t in f.succ[b]:
                if t in dead or t not in blocks or nd(t) == nd(b) and b in node:
                    continue
                if t == entry:
                    continue
                succ[nd(b)].add(nd(t))
        order, seen = [], set()

        def dfs(n):
            st = [(n, iter(sorted(succ[n])))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(sorted(succ[y]))))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(entry)
        order.reverse()
        guard = {entry: g0}
        cond = {}                       # (u, t) -> condition relative to nd(u)
        s_exits = {}
        R = dict(nd=nd, order=order, cond=cond, guard=guard, loop=loop)
        incoming = {}
        for n in order:
            if n != entry:
                gsum = ZERO
                for (u, t), c in cond.items():
                    if t == n:
                        gsum = gsum + guard[nd(u)] * c
                guard[n] = gsum
            if n in top:
                ex = s.do_loop(n, ctx, guard[n], R)
                for (u, t), c in ex.items():
                    cond[(u, t)] = c
                continue
            s.block(n, ctx, guard[n], R, entry, loop)
            c = s.edges(n, guard[n])
            live = {t: x for t, x in c.items() if t not in dead}
            if len(live) == 1 and len(c) > 1:
                live = {t: ONE for t in live}
            for t, x in live.items():
                cond[(n, t)] = x
        if loop is None:
            s.guards = guard
        return R

    def edges(s, b, guard):
        t = s.f.blocks[b][-1]
        if t.op == "br":
            ss = t.d["s"]
            if len(ss) == 1 or ss[0] == ss[1]:
                return {ss[0]: ONE}
            c = under(s.cond(t.args[0]), guard)
            return {ss[0]: c, ss[1]: ONE - c}
        if t.op == "switch":
            x = s.ref(t.args[0])
            out, rest = {}, ONE
            for v, tgt in t.d["cases"]:
                c = eq0(x - v, "i")
                out[tgt] = out.get(tgt, ZERO) + c
                rest = rest - c
            out[t.d["def"]] = out.get(t.d["def"], ZERO) + rest
            return {k: under(v, guard) for k, v in out.items()}
        return {}

    def cond(s, o):
        p = s.ref(o)
        if isbool(p):
            return p
        return truth(p)

    def block(s, b, ctx, guard, R, entry, loop):
        for I in s.f.blocks[b]:
            if I.op == "phi":
                if b == entry and loop is not None:
                    continue            # header: placeholders set by do_loop
                s.env[I.id] = s.phi(I, b, R)
            elif I.op in ("br", "switch", "ret", "unreachable"):
                pass
            else:
                s.inst(I, ctx, guard)

    def phi(s, I, b, R):
        nd, cond, order = R["nd"], R["cond"], R["order"]
        ins = [(o, u) for o, u in I.d["in"] if (u, b) in cond]
        vals = [(s.ref(o), u) for o, u in ins]
        if not vals:
            return unk("phi")
        if all(v == vals[0][0] for v, _ in vals):
            return vals[0][0]
        D = nd(s.f.idom.get(b, b))
        if D not in order:
            D = order[0]
        # a dominator inside a collapsed loop: start from the node before
        rg = {D: ONE}
        i0 = order.index(D)
        for n in order[i0 + 1:order.index(b)]:
            g_ = ZERO
            for (u, t), c in cond.items():
                if t == n and nd(u) in rg:
                    g_ = g_ + rg[nd(u)] * c
            rg[n] = g_
        r, tot = ZERO, ZERO
        for v, u in vals:
            g_ = rg.get(nd(u), ZERO) * cond[(u, b)]
            r = r + g_ * v
            tot = tot + g_
        if tot != ONE:
            r = under(r, tot)
        return r

    def addr(s, o):
        return s.ref(o)

    def whole(s, region, idx):
        """the address of a global array is that of its first element"""
        if region[0] == "g" and not idx:
            gd = s.P.globals.get(region[1])
            if gd and gd.get("t", "").startswith("["):
                return region, (ZERO,) * (gd["t"].count("[") if "{" not in gd["t"] else 1)
        return region, idx

    def inst(s, I, ctx, guard):
        op_ = I.op
        e = s.env
        if op_ == "alloca":
            e[I.id] = A("al", I.id)
        elif op_ == "load":
            a = s.ref(I.args[0])
            region, idx = s.whole(*deref(*s.loc(a)))
            e[I.id] = s.read(ctx, region, idx, guard)
        elif op_ == "store":
            region, idx = s.whole(*deref(*s.loc(s.ref(I.args[1]))))
            ctx.log.append(Entry("set", region, idx, guard, s.ref(I.args[0]), I))
        elif op_ == "getelementptr":
            e[I.id] = s.gep(I.d["st"], [s.ref(x) for x in I.args], I.args)
        elif op_ in ("sext", "zext", "trunc", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "sitofp", "uitofp"):
            e[I.id] = s.ref(I.args[0])
            if op_ == "sext" and I.d.get("st") == "i1":
                e[I.id] = -s.ref(I.args[0])
        elif op_ in ("fptosi", "fptoui"):
            x = s.ref(I.args[0])
            e[I.id] = x if x.const() is not None and x.const().denominator == 1 else op("toint", x)
        elif op_ in ("icmp", "fcmp"):
            e[I.id] = under(s.compare(op_, I.d["p"], s.ref(I.args[0]), s.ref(I.args[1])), guard)
        elif op_ == "select":
            c = under(s.cond(I.args[0]), guard)
            e[I.id] = c * s.ref(I.args[1]) + (ONE - c) * s.ref(I.args[2])
        elif op_ in ("add", "fadd"):
            e[I.id] = s.ref(I.args[0]) + s.ref(I.args[1])
        elif op_ in ("sub", "fsub"):
            e[I.id] = s.ref(I.args[0]) - s.ref(I.args[1])
        elif op_ in ("mul", "fmul"):
            e[I.id] = s.ref(I.args[0]) * s.ref(I.args[1])
        elif op_ == "fneg":
            e[I.id] = -s.ref(I.args[0])
        elif op_ == "fdiv":
            e[I.id] = s.ref(I.args[0]) * inv(s.ref(I.args[1]))
        elif op_ == "shl" and s.ref(I.args[1]).const() is not None:
            e[I.id] = s.ref(I.args[0]) * (1 << int(s.ref(I.args[1]).const()))
        elif op_ in ("and", "or", "xor"):
            a, b = s.ref(I.args[0]), s.ref(I.args[1])
            if I.ty == "i1" or (isbool(a) and isbool(b)):
                if op_ == "xor":
                    if b.const() in (-1, 1):
                        e[I.id] = ONE - a
                    else:
                        e[I.id] = a + b - a * b * 2
                else:
                    if a.const() == -1:
                        a = ONE
                    if b.const() == -1:
                        b = ONE
                    e[I.id] = a * b if op_ == "and" else a + b - a * b
            else:
                a, b = sorted((a, b), key=poly._canon)
                e[I.id] = op(op_, a, b)
        elif op_ in ("sdiv", "udiv", "srem", "urem", "lshr", "ashr", "frem", "shl"):
            a, b = s.ref(I.args[0]), s.ref(I.args[1])
            if op_ == "sdiv" and a.const() is not None and b.const() and (a.const() / b.const()).denominator == 1:
                e[I.id] = P(a.const() / b.const())
            elif b.const() == 1 and op_ in ("sdiv", "udiv"):
                e[I.id] = a
            else:
                e[I.id] = op(op_, a, b)
        elif op_ == "call":
            s.do_call(I, ctx, guard)
        else:
            e[I.id] = unk(op_)

    def compare(s, op_, p, a, b):
        ty = "i" if op_ == "icmp" else "f"
        if p in ("eq", "oeq", "ueq"):
            return s.equal(a, b, ty)
        if p in ("ne", "une", "one"):
            return ONE - s.equal(a, b, ty)
        k = p[-2:]
        d = a - b
        return {"lt": lambda: lt0(d, ty), "le": lambda: le0(d, ty), "gt": lambda: lt0(-d, ty), "ge": lambda: le0(-d, ty)}[k]()

    def equal(s, a, b, ty):
        # x == 0 for a truth value
        if isbool(a) and b.const() == 0:
            return ONE - a
        if isbool(a) and b.const() == 1:
            return a
        for x, y in ((a, b), (b, a)):
            t = x.atom()
            if y.const() is not None and y.const() != 0 and t and t[0] in ("call", "ev") and s.fx.truth(t[1]):
                return ONE - eq0(x) if y.const() == 1 else ZERO
        return eq0(a - b, ty)

    def do_call(s, I, ctx, guard):
        c = I.callee
        args = tuple(s.ref(a) for a in I.args)
        e = s.env
        if c is None:
            fp = s.ref(I.d["c"])
            e[I.id] = unk("indirect call")
            ctx.log.append(Entry("havoc", ("any",), (), guard, ("?", args), I))
            ctx.events.append(Event("?", (fp,) + args, guard, I, (), e[I.id]))
            return
        if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c in s.P.noreturn:
            if isinstance(s, Live) and c in s.P.noreturn:
                ctx.events.append(Event(c, args, guard, I, (), ZERO))
            return
        if c in ("llvm.fabs.f64", "fabs", "abs"):
            e[I.id] = fabs(args[0])
            return
        if c in s.P.funcs:
            if s.fx.pure(c):
                e[I.id] = s.pure_call(c, args, ctx, guard)
                return
            it = tuple(s.iters)
            sn = s.snapshot(args, ctx, guard)
            if s.fx.returns_fresh(c):
                if s.fx.may_null(c):
                    poly.MAYNULL.add(c)
                res = A("new", c, I.id, it)
            else:
                res = A("ev", c, I.id, it, args if not sn else args + (A("with", sn),))
            if s.P.funcs[c].ret != "void":
                e[I.id] = res
            mod = s.fx.mod[c]
            sa = args if not sn else args + (A("with", sn),)
            for m in sorted(mod, key=repr):
                if m[0] == "elarg" and m[1] < len(args):
                    ctx.log.append(Entry("havoc", ("elobj",), (args[m[1]],), guard, (c, sa), I))
                elif m[0] == "reach" and m[1] < len(args):
                    ctx.log.append(Entry("havoc", ("reach", m[2]), (args[m[1]],), guard, (c, sa), I))
                elif m[0] == "fdarg" and m[1] < len(args):
                    ctx.log.append(Entry("havoc", ("fdobj", m[2]), (args[m[1]],), guard, (c, sa), I))
                else:
                    ctx.log.append(Entry("havoc", m, (), guard, (c, sa), I))
            ctx.events.append(Event(c, args, guard, I, (), res, sn))
            return
        if c in ALLOC:
            res = A("new", c, I.id, tuple(s.iters))
            e[I.id] = res
            ctx.events.append(Event(c, args, guard, I, (), res))
            return
        if c in LIBPURE:
            e[I.id] = A("call", c, args)
            return
        res = A("ev", c, I.id, tuple(s.iters), args)
        e[I.id] = res
        if c in LIBMEM0:
            n = s.cleared(c, args)
            if n is not None:
                v = fresh(rng(0, n))
                x = ZERO if "memset" in c else s.read(ctx, ("mem",), (args[1], v), guard)
                ctx.log.append(Entry("set", ("mem",), (args[0], v), guard, x, I, [(v, rng(0, n))]))
            else:
                ctx.log.append(Entry("havoc", ("elobj",), (args[0],), guard, (c, args), I))
        elif c not in IO and c != "free":
            for a in args:
                t = a.atom()
                if t and t[0] in ("al", "fa", "ea", "pa", "ga"):
                    ctx.log.append(Entry("havoc", ("elobj",), (a,), guard, (c, args), I))
        ctx.events.append(Event(c, args, guard, I, (), res))

    @staticmethod
    def cleared(c, args):
        """how many elements a memset to zero or a copy of a whole array of numbers or pointers sets; None when it is not one"""
        if not re.search("memset|memcpy|memmove", c) or len(args) < 3 or args[2].const() is not None or "memset" in c and args[1].m:
            return None
        for p in args[:1] if "memset" in c else args[:2]:
            t = p.atom()
            if not t or t[0] not in ("g", "rd", "rm", "arg", "new"):
                return None
        for w in (8, 4):
            if all(x % w == 0 for x in args[2].m.values()):
                return args[2] * Fraction(1, w)
        return None

    def pure_call(s, c, args, ctx, guard):
        if c == "getEntryMatrix":
            return call(c, *args)
        sn = s.snapshot(args, ctx, guard)
        if sn:
            return A("call", c, args, sn)
        return A("call", c, args)

    def snap(s, args, ctx, guard):
        sn = s.snapshot(args, ctx, guard)
        return args if not sn else args + (A("with", sn),)

    def snapshot(s, args, ctx, guard):
        """contents of argument arrays written earlier in this function"""
        out = []
        for n, a in enumerate(args):
            t = a.atom()
            if not t or t[0] not in ("new", "arg", "rd", "al", "pa", "rm", "ph"):
                continue
            c, hit = ctx, False
            while c is not None and not hit:
                hit = any(e.kind in ("set", "add") and e.region == ("mem",) and e.idx[0] == a for e in c.log)
                c = c.parent
            if hit:
                k = fresh(rng(0, A("inf")))
                v = s.read(ctx, ("mem",), (a, k), guard)
                out.append((n, close("lam", [(k, rng(0, A("inf")))], (v,))))
        return tuple(out)

    # ---------------------------------------------------------- loops
    def do_loop(s, h, ctx, guard, R):
        f = s.f
        body = s.loops[h]
        it = A("ph", h, "it")
        phis = [I for I in f.blocks[h] if I.op == "phi"]
        saved_iters = list(s.iters)
        inits, ph = {}, {}
        for I in phis:
            outs = [o for o, u in I.d["in"] if u not in body]
            iv = s.ref(outs[0]) if outs and all(s.ref(o) == s.ref(outs[0]) for o in outs) else unk("loop entry")
            x = A("ph", h, I.id)
            inits[vid(x)] = iv
            ph[I.id] = x
            s.env[I.id] = x
        s.iters = saved_iters + [it]
        lctx = Ctx(lambda region, idx: A("rm", h, region, idx), ctx, h)
        # header's own exit
        dead = s._deads()
        ht = f.blocks[h][-1]
        exits = [(u, t) for u in body for t in f.succ[u] if t not in body and t not in dead and u not in dead]
        hb, chain = s.head(h, body, dead)
        hx = [t for (u, t) in exits if u == hb]
        R2 = s.region_loop(h, body, lctx, hx)
        cont = R2["cont"]              # condition to go on at the header (None: header does not leave the loop)
        latches = [u for u in f.pred[h] if u in body]
        nexts = {}
        for I in phis:
            vals = [(s.ref(o), u) for o, u in I.d["in"] if u in body]
            if len(vals) == 1:
                n = vals[0][0]
            elif all(v == vals[0][0] for v, _ in vals):
                n = vals[0][0]
            else:
                n, tot = ZERO, ZERO
                for v, u in vals:
                    g_ = R2["guard"].get(R2["nd"](u), ZERO) * R2["cond"].get((u, h), ZERO)
                    n = n + g_ * v
                    tot = tot + g_
                n = under(n, tot)
            nexts[vid(ph[I.id])] = n
        # early exits
        early = {}
        for (u, t) in exits:
            if u == hb and t in hx and cont is not None:
                continue
            c = R2["cond"].get((u, t))
            if c is None:
                continue
            early[(u, t)] = R2["guard"][R2["nd"](u)] * c
        if s.leave and cont is not None and Solver(s, h, it, inits, nexts, cont, ZERO, lctx, ctx, guard).find_domain() is None:
            # not a count: leaving at the header is like leaving anywhere else
            for x in lctx.log + lctx.events:
                if x.ins is None or x.ins.b not in chain:
                    x.guard = x.guard * cont
            early = {k: c * cont for k, c in early.items()}
            for t in hx:
                early[(hb, t)] = ONE - cont
            cont = None
        G = ZERO
        for c in early.values():
            G = G + c
        # nexts hold when the iteration is completed
        stay = ONE - G
        if G.m:
            nexts = {k: under(n, stay) for k, n in nexts.items()}
        s.iters = saved_iters
        sol = Solver(s, h, it, inits, nexts, cont, G, lctx, ctx, guard)
        sol.solve()
        # results
        out = {}
        for (u, t), c in early.items():
            out[(u, t)] = sol.early(c)
        if cont is not None:
            nx = ONE
            for x in out.values():
                nx = nx - x
            nx = fi_merge(nx)
            for t in hx:
                out[(hb, t)] = nx
        # values used outside
        for b in body:
            for I in f.blocks[b]:
                if I.id in s.env and I.op not in ("store", "br"):
                    us = f.uses.get(I.id, ())
                    if any(J.b not in body for J in us):
                        ex = [e_ for e_ in early if f.dominates(b, e_[0])]
                        norm = cont is not None and b in chain
                        s.env[I.id] = sol.lift(s.env[I.id], norm, bool(ex))
        # memory and calls
        for e_ in sol.entries():
            e_.guard = e_.guard * guard
            ctx.log.append(e_)
        for ev in lctx.events:
            ev2 = sol.map_event(ev, sol.inside)
            ev2.guard = ev2.guard * guard * sol.alive()
            ev2.vd = ((sol.v, sol.dom),) + ev2.vd
            ctx.events.append(ev2)
        return out

    def head(s, h, body, dead):
        """the block that decides whether to go on: the header, or one behind it after nothing but checks that end the program"""
        b, chain = h, [h]
        f = s.f
        while True:
            live = {t for t in f.succ[b] if t not in dead}
            if any(t not in body for t in live):
                return b, chain
            if len(live) != 1 or any(I.op in ("store", "call") and not (I.callee or "").startswith("llvm.dbg") for I in f.blocks[b]):
                return h, [h]
            t = next(iter(live))
            if t == h or t in s.loops or [u for u in f.pred[t] if u not in dead] != [b]:
                return h, [h]
            b = t
            chain.append(b)

    def region_loop(s, h, body, lctx, hx):
        """evaluate the loop body; the header's leaving edge is taken out"""
        f = s.f
        s._hcont = None
        R2 = s._region_body(h, body, lctx, hx)
        return R2

    def _region_body(s, h, body, ctx, hx):
        f = s.f
        dead = s._deads()
        hb = s.head(h, body, dead)[0]
        inner = [k for k in s.loops if k in body and k != h]
        top = [k for k in inner if not any(k != j and k in s.loops[j] for j in inner)]
        node = {}
        for k in top:
            for b in s.loops[k]:
                node[b] = k
        nd = lambda b: node.get(b, b)
        nodes = {nd(b) for b in body if b not in dead}
        succ = {n: set() for n in nodes}
        for b in body:
            if b in dead:
                continue
            for t in f.succ[b]:
                if t in dead or t not in body or t == h or (nd(t) == nd(b) and b in node):
                    continue
                succ[nd(b)].add(nd(t))
        order, seen = [], set()
        st = [(h, iter(sorted(succ[h])))]
        seen.add(h)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(sorted(succ[y]))))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        guard, cond = {h: ONE}, {}
        R = dict(nd=nd, order=order, cond=cond, guard=guard, loop=h, cont=None)
        for n in order:
            if n != h:
                gsum = ZERO
                for (u, t), c in cond.items():
                    if t == n:
                        gsum = gsum + guard[nd(u)] * c
                guard[n] = gsum
            if n in top:
                for (u, t), c in s.do_loop(n, ctx, guard[n], R).items():
                    cond[(u, t)] = c
                continue
            s.block(n, ctx, guard[n], R, h, h)
            c = s.edges(n, guard[n])
            live = {t: x for t, x in c.items() if t not in dead}
            if len(live) == 1 and len(c) > 1:
                live = {t: ONE for t in live}
            if n == hb and hx and any(t in hx for t in live) and any(t not in hx for t in live):
                k = ZERO
                for t, x in live.items():
                    if t not in hx:
                        k = k + x
                R["cont"] = k
                live = {t: (ONE if t not in hx else ZERO) for t in live}
                live = {t: x for t, x in live.items() if t not in hx}
            for t, x in live.items():
                cond[(n, t)] = x
        return R


class Solver:
    """solution of the recurrences of one loop"""

    def __init__(s, K, h, it, inits, nexts, cont, G, lctx, ctx, guard):
        s.K, s.h, s.it = K, h, it
        s.inits, s.nexts, s.cont, s.G = dict(inits), dict(nexts), cont, G
        s.lctx, s.ctx, s.guard = lctx, ctx, guard
        s.inm = {}          # placeholder -> value at the start of iteration v
        s.fin = {}          # placeholder -> value after the last iteration
        s.rmem = {}         # rm atom id -> value
        s.cells = {}

    # domain of the loop
    def find_domain(s):
        step = {}
        for x, n in s.nexts.items():
            X = Poly({((x, 1),): Fraction(1)})
            d = n - X
            t = n.atom()
            if d.const() is not None:
                step[x] = ("c", d.const())
            elif t and t[0] == "pa" and t[1] == X and t[2].const() is not None:
                step[x] = ("p", t[2].const())
            elif t and t[0] in ("rm", "rd"):
                r, i = (t[2], t[3]) if t[0] == "rm" else (t[1], t[2])
                if r[0] == "fd" and len(i) == 1 and i[0] == X:
                    step[x] = ("w", r[1])
        s.step = step
        c = s.cont
        if c is None:
            return None
        d = ty = kind = None
        t = c.atom()
        nt = (ONE - c).atom()
        if t and t[0] == "lt0" and t[2] == "i":
            d, kind = t[1], "lt"
        elif nt and nt[0] == "lt0" and nt[2] == "i":
            d, kind = -nt[1] - 1, "lt"
        elif nt and nt[0] == "eq0":
            d, kind = nt[1], "ne"
        elif t and t[0] == "rm" or (t and t[0] == "ph"):
            d, kind = c, "ne"
        if d is None:
            return None
        cand = [x for x in step if x in fv(d)]
        if len(cand) != 1:
            return None
        x = cand[0]
        X = Poly({((x, 1),): Fraction(1)})
        k, st = step[x]
        if k == "w":
            if kind == "ne" and d in (X, -X):
                return x, ("list", s.inits[x], st), None
            return None
        cf = d.m.get(((x, 1),))
        if cf not in (1, -1):
            return None
        r = d - X * cf
        if x in fv(r) or st not in (1, -1):
            return None
        bad = [i for i in fv(r) if ALIST[i][0] in ("ph", "rm") and ALIST[i][1] == s.h]
        s.bound_rm = bad
        if kind == "lt":
            if st == 1 and cf == 1:
                return x, (s.inits[x], -r), 1
            if st == -1 and cf == -1:
                return x, (r + 1, s.inits[x] + 1), -1
            return None
        b = r * (-cf)                      # leave when x == b
        if st == 1:
            return x, (s.inits[x], b), 1
        return x, (b + 1, s.inits[x] + 1), -1

    def solve(s):
        dm = s.find_domain()
        if dm is None:
            s.dir = 1
            s.ctr = None
            s.dom = rng(0, A("inf"))
            s.v = fresh(s.dom)
        else:
            s.ctr, d, s.dir = dm
            if d[0] == "list":
                s.dom = d
                s.dir = 1
            else:
                lo, hi = s.outer(d[0]), s.outer(d[1])
                s.dom = rng(lo, hi)
            s.v = fresh(s.dom)
            s.inm[s.ctr] = s.v
            if s.dom[0] == "list":
                s.fin[s.ctr] = ZERO
            else:
                s.fin[s.ctr] = s.dom[2] if s.dir == 1 else s.dom[1] - 1
        s.inm[vid(s.it)] = s.v
        # simple counters, walkers and invariants first
        for x, (k, st) in s.step.items():
            if x in s.inm:
                continue
            if k == "c" and st == 0:
                s.inm[x] = s.fin[x] = s.inits[x]
            elif k == "c" and s.dom[0] == "rng":
                s.inm[x] = s.inits[x] + s.done() * st
                s.fin[x] = s.inits[x] + (s.dom[2] - s.dom[1]) * st
            elif k == "p" and s.dom[0] == "rng":
                s.inm[x] = pa(s.inits[x], s.done() * st)
                s.fin[x] = pa(s.inits[x], (s.dom[2] - s.dom[1]) * st)
            elif k == "w":
                if s.dom[0] == "rng":
                    s.inm[x] = A("nth", s.inits[x], st, s.done())
                    s.fin[x] = A("nth", s.inits[x], st, s.dom[2] - s.dom[1])
        s.memory()
        s.recurrences()
        s.close_memory()

    def done(s):
        """iterations completed before v"""
        if s.dom[0] == "rng":
            return s.v - s.dom[1] if s.dir == 1 else s.dom[2] - 1 - s.v
        return mk_sum(fresh(), s.before(), ONE)

    def before(s):
        if s.dom[0] == "rng":
            return rng(s.dom[1], s.v) if s.dir == 1 else rng(s.v + 1, s.dom[2])
        return ("pre", s.dom[1], s.dom[2], s.v)

    def outer(s, p):
        """an expression that is invariant in the loop, as it is on entry"""
        def fn(t):
            if s.writes_may(t[2], t[3]):
                return unk("loop bound modified in the loop")
            return s.K.read(s.ctx, t[2], t[3], s.guard)
        return s.rewrite(p, fn)

    def rewrite(s, p, fn):
        return rewrite(p, ("rm", s.h), lambda t: t[0] == "rm" and t[1] == s.h, fn)

    def resolved(s, p):
        """p with the counters and the reads from memory replaced"""
        return s.rewrite(subst(p, s.inm), s.rm_value)

    def rm_value(s, t):
        key = (t[2], tuple(subst(x, s.inm) for x in t[3]))
        r = s.rmem.get(key)
        if r is None:
            r = s.rmem[key] = s.resolve(key[0], key[1], s.lctx.log)
        return r

    def res_entry(s, e):
        return s.map_entry(e, s.resolved)

    @staticmethod
    def map_entry(e, fn):
        mt = lambda x: fn(x) if isinstance(x, Poly) else (tuple(mt(y) for y in x) if isinstance(x, tuple) else x)
        for v, d in e.vd:
            VARDOM[v.atom()[1]] = mt(d)
        idx = tuple(fn(x) for x in e.idx)
        if e.kind != "havoc" and e.region is not None:
            idx = deref(e.region, idx)[1]
        return Entry(e.kind, e.region, idx, fn(e.guard), mt(e.val), e.ins,
                     [(v, mt(d)) for v, d in e.vd])

    @staticmethod
    def map_event(e, fn):
        mt = lambda x: fn(x) if isinstance(x, Poly) else (tuple(mt(y) for y in x) if isinstance(x, tuple) else x)
        for v, d in e.vd:
            VARDOM[v.atom()[1]] = mt(d)
        return Event(e.name, tuple(fn(x) for x in e.args), fn(e.guard), e.ins, [(v, mt(d)) for v, d in e.vd],
                     fn(e.res) if e.res is not None else None, [(n, fn(x)) for n, x in e.snap])

    def writes_may(s, region, idx):
        """can the loop body modify this location (coarse)?"""
        for e in s.lctx.log:
            if e.kind == "havoc":
                if s.K.havoc_hits(e, region, idx) is not None:
                    return True
            elif e.region == region and len(e.idx) == len(idx):
                vs = {vid(v): None for v, _ in e.vd}
                m = match_idx(region, e.idx, idx, vs)
                if m is None or m.m:
                    return True
        return False

    def memory(s):
        """decide what reads from the memory of earlier iterations give"""
        s.lctx.log = log = [s.map_entry(e, lambda p: subst(p, s.inm)) for e in s.lctx.log]
        # where the body writes, first
        new = []
        for e in log:
            idx = tuple(s.resolved(x) for x in e.idx)
            new.append(Entry(e.kind, e.region, idx, e.guard, e.val, e.ins, [(v, tuple(s.resolved(x) if isinstance(x, Poly) else x for x in d)) for v, d in e.vd]))
        s.rmem.clear()
        s.lctx.log = new
        s.log = s.lctx.log = [s.res_entry(e) for e in new]
        s.lctx.events = [s.map_event(e, s.resolved) for e in s.lctx.events]
        s.nexts = {x: s.resolved(n) if n is not None else None for x, n in s.nexts.items()}
        s.G = s.resolved(s.G)

    def resolve(s, region, idx, log):
        """value at the start of iteration v of a location that the body reads"""
        vi = vid(s.v)
        cellkey = None
        real, idx = idx, tuple(s.strip(x) for x in idx)
        outer_ok = True
        why = ""
        for e in log:
            if e.kind == "havoc":
                h = s.K.havoc_hits(e, region, idx)
                if h is not None:
                    return unk("modified by %s in an earlier iteration" % (e.val[0] if isinstance(e.val, tuple) else "?"))
                continue
            if e.region != region or len(e.idx) != len(idx):
                continue
            # could an earlier iteration have written it?
            w = fresh(s.dom)
            ren = {vi: w}
            vs = {vid(w): None}
            for v, d in e.vd:
                u = fresh()
                ren[vid(v)] = u
                VARDOM[u.atom()[1]] = dom_subst(d, ren)
                vs[vid(u)] = None
            pidx = tuple(s.strip(subst(x, ren)) for x in e.idx)
            m = match_idx(region, pidx, idx, vs)
            if m is not None and not m.m:
                continue
            sol = vs.get(vid(w))
            if m == ONE and sol is not None and sol == s.v:
                continue                  # only this very iteration writes it
            if m == ONE and sol is not None and s.dom[0] == "rng":
                # written by iteration sol; excluded if sol is later or outside
                if (sol - s.v).const() is not None and ((sol - s.v).const() > 0) == (s.dir == 1):
                    continue
                over, under_ = (sol - P(s.dom[2])).const(), (P(s.dom[1]) - sol).const()
                if over is not None and over >= 0 or under_ is not None and under_ > 0:
                    continue              # no iteration writes it
            eidx = tuple(s.strip(x) for x in e.idx)
            if eidx == idx and not any(depends(x, {vi}) for x in idx) and not e.vd and not any(
                    ALIST[j][0] in ("ph", "rm") and ALIST[j][1] == s.h for x in idx for j in fv(x)):
                cellkey = (region, real)
                continue
            # accumulation x[f] = x[f] + e
            if e.kind == "add":
                why = "accumulated in an earlier iteration"
                outer_ok = False
                continue
            if eidx == idx and e.kind == "set" and any(ALIST[a][0] == "acc" or (ALIST[a][0] == "rm" and ALIST[a][1] == s.h and ALIST[a][2] == region and tuple(s.strip(subst(x, s.inm)) for x in ALIST[a][3]) == tuple(s.strip(x) for x in idx)) for a in e.val.atoms()):
                cellkey = cellkey or ("acc",)
                continue
            outer_ok = False
            why = "written in an earlier iteration"
        if not outer_ok:
            r = s.prior(region, real, idx, log) if why == "written in an earlier iteration" else None
            return r if r is not None else unk(why)
        if cellkey == ("acc",):
            # the value is only used to be added to: keep the placeholder; close_memory turns it into an accumulation
            return A("acc", s.h, region, real)
        idx = real
        if cellkey:
            c = s.cells.get(cellkey)
            if c is None:
                c = A("ph", s.h, ("cell",) + cellkey)
                s.cells[cellkey] = c
                s.inits[vid(c)] = s.K.read(s.ctx, region, idx, s.guard)
                s.nexts[vid(c)] = None
            return c
        return s.K.read(s.ctx, region, idx, s.guard)

    def prior(s, region, real, idx, log):
        """value at the start of iteration v when the body's writes do not depend on the state of the loop"""
        w = fresh(s.before())
        ren = {vid(s.v): w}
        own = lambda p: any(ALIST[j][0] in ("ph", "rm", "acc") and ALIST[j][1] == s.h for a in p.atoms() for j in poly._all_ids(a))
        rest, val, cov = ONE, ZERO, ZERO
        for e in reversed(log):
            if e.kind == "havoc" or e.region != region or len(e.idx) != len(idx):
                continue
            if e.kind != "set":
                return None
            e2 = Entry("set", e.region, tuple(s.strip(subst(x, ren)) for x in e.idx), subst(e.guard, ren), subst(e.val, ren), e.ins,
                       [(u, dom_subst(d, ren)) for u, d in e.vd])
            r = s.K.entry_at(e2, region, idx, ONE)
            if r is None:
                continue
            if own(r[0]) or own(r[1]) or has_unknown(r[0]):
                return None
            val = val + rest * r[1]
            cov = cov + rest * r[0]
            rest = rest * (ONE - r[0])
            if not rest.m:
                break
        if not cov.m:
            return None
        base = s.K.read(s.ctx, region, real, s.guard)
        wi = vid(w)
        if not depends(cov, {wi}) and not depends(val, {wi}):
            some = mk_any(fresh(s.before()), s.before(), ONE)
            return some * val + (ONE - some * cov) * base
        pins = set()
        for a in cov.atoms():
            t = ALIST[a]
            if t[0] == "eq0":
                cf = t[1].m.get(((wi, 1),))
                if cf in (1, -1) and wi not in fv(t[1] - w * cf):
                    pins.add(t[1] * (-cf) + w)
        for p in pins:
            if eq0(w - p, "i") * cov == cov:
                q = {wi: p}
                inb = in_dom(p, s.before())
                return inb * subst(val, q) + (ONE - inb * subst(cov, q)) * base
        return None

    def strip(s, p):
        """reads at the start of the iteration, as plain reads (to compare locations)"""
        return rewrite(p, "rm*", lambda t: t[0] == "rm", lambda t: mk("rd", (t[2], t[3])))

    def recurrences(s):
        K = s.K
        # invariant locations that are written but not read are cells too
        for e in s.log:
            if e.kind == "set" and not e.vd and (e.region, e.idx) not in s.cells:
                if any(vid(s.v) in fv(x) for x in e.idx) or any(ALIST[j][0] in ("ph", "rm", "acc") and ALIST[j][1] == s.h for x in e.idx for j in fv(x)):
                    continue
                if any(vid(s.v) in poly._all_ids(a) for x in e.idx for a in x.atoms()):
                    continue
                # no other write in the loop may overlap
                clash = False
                for e2 in s.log:
                    if e2 is e or (e2.region == e.region and e2.idx == e.idx and not e2.vd):
                        continue
                    if e2.kind == "havoc":
                        if K.havoc_hits(e2, e.region, e.idx) is not None:
                            clash = True
                    elif e2.region == e.region:
                        m = match_idx(e.region, e2.idx, e.idx, {vid(v): None for v, _ in e2.vd})
                        if m is None or m.m:
                            clash = True
                if clash:
                    continue
                c = A("ph", s.h, ("cell", e.region, e.idx))
                s.cells[(e.region, e.idx)] = c
                s.inits[vid(c)] = K.read(s.ctx, e.region, e.idx, s.guard)
                s.nexts[vid(c)] = None
        for key, c in s.cells.items():
            if s.nexts[vid(c)] is None:
                cc = Ctx(lambda region, idx, c=c, key=key: c if (region, idx) == key else unk("cell"))
                cc.log = s.log
                s.nexts[vid(c)] = under(K.read(cc, key[0], key[1], ONE), ONE - s.G if s.G.m else ONE)
        todo = [x for x in s.nexts if x not in s.inm]
        for _ in range(50):
            if not todo:
                break
            prog = False
            uns = set(todo)
            for x in list(todo):
                n = subst(s.nexts[x], s.inm)
                s.nexts[x] = n
                deps = {i for i in s.allph(n) if i in uns}
                if deps - {x}:
                    continue
                if s.one(x, n, x in deps):
                    todo.remove(x)
                    uns.discard(x)
                    prog = True
            if not prog:
                s.group(todo)
                break
        for x in s.nexts:
            if x not in s.inm:
                s.inm[x] = unk("recurrence")
                s.fin[x] = unk("recurrence")

    def allph(s, p):
        r = set()
        for a in p.atoms():
            for i in poly._all_ids(a):
                if ALIST[i][0] == "ph":
                    r.add(i)
        return r

    def one(s, x, n, selfdep):
        X = Poly({((x, 1),): Fraction(1)})
        init = s.inits[x]
        vi = vid(s.v)
        d = n - X
        if not d.m:
            s.inm[x] = s.fin[x] = init
            return True
        if x not in s.allph(d):
            w = fresh(s.before())
            s.inm[x] = init + mk_sum(w, s.before(), subst(d, {vi: w}))
            w = fresh(s.dom)
            s.fin[x] = init + mk_sum(w, s.dom, subst(d, {vi: w}))
            return True
        if not selfdep:
            if s.dom[0] == "rng":
                if vi not in fv(n) and init == n:
                    s.inm[x] = s.fin[x] = n
                    return True
                first = eq0(s.v - (s.dom[1] if s.dir == 1 else s.dom[2] - 1), "i")
                s.inm[x] = first * init + (ONE - first) * subst(n, {vi: s.v - s.dir})
                ne = lt0(s.dom[1] - s.dom[2], "i")
                s.fin[x] = ne * subst(n, {vi: (s.dom[2] - 1 if s.dir == 1 else s.dom[1])}) + (ONE - ne) * init
            else:
                if vi not in fv(n):
                    ne = ONE - eq0(s.dom[1])
                    s.fin[x] = ne * n + (ONE - ne) * init
                    first = eq0(s.v - s.dom[1])
                    s.inm[x] = first * init + (ONE - first) * n
                else:
                    s.fin[x] = s.fold([x], [n], s.dom, 0)
                    s.inm[x] = s.fold([x], [n], s.before(), 0)
            return True
        # n = a*X + b
        co, rest, lin = ZERO, ZERO, True
        for k, c in n.m.items():
            hit = [q for q in k if q[0] == x]
            if hit:
                if hit[0][1] != 1:
                    lin = False
                co = co + Poly({tuple(q for q in k if q[0] != x): c})
            else:
                rest = rest + Poly({k: c})
        if lin and x not in s.allph(co) and x not in s.allph(rest):
            gset = ONE - co
            if isbool(co):
                # when gset: becomes rest/gset
                if rest == gset and isbool_or_const(init):
                    for dd, tgt in ((s.before(), s.inm), (s.dom, s.fin)):
                        w = fresh(dd)
                        a = mk_any(w, dd, subst(gset, {vi: w}))
                        tgt[x] = a + (ONE - a) * init
                    return True
                if not rest.m:
                    for dd, tgt in ((s.before(), s.inm), (s.dom, s.fin)):
                        w = fresh(dd)
                        a = mk_any(w, dd, subst(gset, {vi: w}))
                        tgt[x] = (ONE - a) * init
                    return True
                # constant assigned under a condition
                cst = None
                for kk, cc in gset.m.items():
                    pass
                r0 = under(rest, gset)
                if vi not in fv(r0) and rest == gset * r0:
                    for dd, tgt in ((s.before(), s.inm), (s.dom, s.fin)):
                        w = fresh(dd)
                        a = mk_any(w, dd, subst(gset, {vi: w}))
                        tgt[x] = a * r0 + (ONE - a) * init
                    return True
            if not rest.m:
                for dd, tgt in ((s.before(), s.inm), (s.dom, s.fin)):
                    w = fresh(dd)
                    tgt[x] = init * close("prod", [(w, dd)], (subst(co, {vi: w}),))
                return True
        # maxima and minima: n = c*e + (1-c)*X, c = [X < e]
        r = s.extreme(x, n)
        if r:
            kind, e = r
            for dd, tgt in ((s.before(), s.inm), (s.dom, s.fin)):
                w = fresh(dd)
                tgt[x] = mk_ext(kind, w, dd, subst(e, {vi: w}), init)
            return True
        s.inm[x] = s.fold([x], [n], s.before(), 0)
        s.fin[x] = s.fold([x], [n], s.dom, 0)
        return True

    def extreme(s, x, n):
        X = Poly({((x, 1),): Fraction(1)})
        # candidates for e: the monomials without X at top level
        cands = set()
        for k, c in n.m.items():
            if any(a == x for a, _ in k):
                continue
            val = tuple(q for q in k if ALIST[q[0]][0] not in KIND_BOOL)
            cands.add(val)
        # group: e may be a sum; try the sum over all monomials guarded only by comparisons with X
        es = []
        nob = ZERO
        for k, c in n.m.items():
            bs = [q for q in k if ALIST[q[0]][0] in KIND_BOOL and x in poly._all_ids(q[0])]
            if len(bs) == 0 and not any(a == x for a, _ in k):
                nob = nob + Poly({k: c})
        one_b = ZERO
        for k, c in n.m.items():
            bs = [q for q in k if ALIST[q[0]][0] in KIND_BOOL and x in poly._all_ids(q[0])]
            if bs and not any(a == x for a, _ in k):
                one_b = one_b + Poly({tuple(q for q in k if q not in bs): c})
        for e in (nob, one_b, -one_b):
            if not e.m or x in s.allph(e):
                continue
            for kind, c in (("max", lt0(X - e)), ("max", le0(X - e)), ("min", lt0(e - X)), ("min", le0(e - X)),
                            ("max", lt0(X - e, "i")), ("min", lt0(e - X, "i")), ("max", le0(X - e, "i")), ("min", le0(e - X, "i"))):
                if n == c * e + (ONE - c) * X:
                    return kind, e
        return None

    def fold(s, xs, ns, dom, j):
        """general fold over the iterations; component j"""
        vi = vid(s.v)
        w = fresh(dom)
        # states of enclosed folds keep their own level
        lv = 1 + max([ALIST[i][2] for n in ns for a in n.atoms() for i in poly._all_ids(a) if ALIST[i][0] == "st"] + [0])
        mp = {x: A("st", k, lv) for k, x in enumerate(xs)}
        mp[vi] = w
        inits = tuple(s.inits[x] for x in xs)
        nx = tuple(subst(n, mp) for n in ns)
        dr = (s.dir,) if dom[0] in ("rng",) else ()
        return close("fold", [(w, dom)], (j, inits, nx) + dr, order=True)

    def group(s, todo):
        xs = list(todo)
        X0 = {x: A("st", "*", 0) for x in xs}

        def key(x):
            mp = dict(X0)
            mp[x] = A("st", "self", 0)
            return (poly._canon(s.inits[x]), poly._canon(subst(s.nexts[x], mp)))
        # closed subgroup: follow dependencies
        xs.sort(key=key)
        ns = [subst(s.nexts[x], s.inm) for x in xs]
        uns = set(xs)
        deps = {x: {i for i in s.allph(n) if i in uns} for x, n in zip(xs, ns)}

        def closure(x):
            r, st = set(), [x]
            while st:
                y = st.pop()
                if y not in r:
                    r.add(y)
                    st.extend(deps[y])
            return r
        for x in xs:
            cl = [y for y in xs if y in closure(x)]
            nn = [ns[xs.index(y)] for y in cl]
            j = cl.index(x)
            s.inm[x] = s.fold(cl, nn, s.before(), j)
            s.fin[x] = s.fold(cl, nn, s.dom, j)

    def inside(s, p):
        """p as seen in iteration v, without placeholders"""
        for _ in range(4):
            q = subst(s.rewrite(p, s.rm_value), s.inm)
            if q == p:
                return q
            p = q
        return p

    def close_memory(s):
        """log entries as seen from outside the loop"""
        K = s.K
        out = []
        cellset = set(s.cells)
        vi = vid(s.v)
        al = s.alive()
        for e in s.log:
            if e.kind == "set" and not e.vd and (e.region, e.idx) in cellset:
                continue
            e2 = s.map_entry(e, s.inside)
            if e2.kind == "set":
                accs = [i for i in e2.val.atoms() if ALIST[i][0] == "acc" and ALIST[i][1] == s.h]
                if accs:
                    i = accs[0]
                    t = ALIST[i]
                    Xa = Poly({((i, 1),): Fraction(1)})
                    d = e2.val - Xa
                    if len(accs) == 1 and t[2] == e2.region and tuple(s.inside(x) for x in t[3]) == e2.idx and not any(
                            ALIST[j][0] == "acc" for a in d.atoms() for j in poly._all_ids(a)):
                        out.append(Entry("add", e2.region, e2.idx, e2.guard * al, d, e2.ins, ((s.v, s.dom),) + e2.vd))
                        continue
                    e2.val = unk("accumulation")
            if e2.kind == "havoc":
                out.append(Entry("havoc", e2.region, e2.idx, e2.guard * al, e2.val, e2.ins, ((s.v, s.dom),) + e2.vd))
                continue
            out.append(Entry(e2.kind, e2.region, e2.idx, e2.guard * al, e2.val, e2.ins, ((s.v, s.dom),) + e2.vd))
        for key, c in s.cells.items():
            out.append(Entry("set", key[0], key[1], ONE, s.lift(c, s.cont is not None, bool(s.G.m)), next((e.ins for e in s.log if e.region == key[0]), None)))
        s.out = out

    def entries(s):
        return s.out

    def alive(s):
        """no early exit in an earlier iteration"""
        G = s.inside(s.G)
        if not G.m:
            return ONE
        dd = s.before()
        w = fresh(dd)
        return ONE - mk_any(w, dd, subst(G, {vid(s.v): w}))

    def Gv(s):
        return s.inside(s.G)

    def early(s, c):
        c = s.inside(c)
        w = fresh(s.dom)
        return mk_fi(w, s.dom, subst(s.Gv(), {vid(s.v): w}), subst(c, {vid(s.v): w}))

    def lift(s, p, norm, early):
        """value of p (in terms of placeholders) after the loop"""
        K = s.K
        res = ZERO
        G = s.Gv()
        if not any(ALIST[i][0] in ("ph", "rm") and ALIST[i][1] == s.h for a in p.atoms() for i in poly._all_ids(a)) and not depends(p, {vid(s.v)}):
            return p
        anyx = ZERO
        w = fresh(s.dom)
        if G.m:
            anyx = mk_any(w, s.dom, subst(G, {vid(s.v): w}))
        if norm:
            def late(t):
                q = subst(s.rm_value(t), s.fin)
                return unk("memory after the loop") if vid(s.v) in fv(q) else q
            a = subst(s.rewrite(p, late), s.fin)
            a = subst(a, s.fin)
            res = res + ((ONE - anyx) * a if early and G.m else a)
        if early and G.m:
            a = s.inside(p)
            w = fresh(s.dom)
            G2, a2 = subst(G, {vid(s.v): w}), subst(a, {vid(s.v): w})
            # value at the exiting iteration
            val = mk_fi(w, s.dom, G2, a2 * G2) if False else mk_fi(w, s.dom, G2, under(a2, G2))
            res = res + val
        return res


def isbool_or_const(p):
    return p.const() in (0, 1) or isbool(p)


def summarise(Pg, name, fx=None, args=None):
    f = Pg.need(name)
    fx = fx or effects(Pg)
    return Kern(Pg, f, fx, args=args).run()


class Live(Kern):
    """summary that keeps the ways a function ends the program"""
    def _deads(s):
        return set()


def effects(Pg):
    if not hasattr(Pg, "_fx"):
        Pg._fx = Effects(Pg)
    return Pg._fx


if __name__ == "__main__":
    import sys, core
    sys.setrecursionlimit(20000)
    Pg = core.load_prog()
    fx = effects(Pg)
    for n in [a for a in sys.argv[1:] if a[0] != "-"]:
        f = Pg.need(n)
        for k, p in enumerate(f.params):
            poly.NAMES[("arg", k)] = p["n"]
        print("==", n, "pure" if fx.pure(n) else "", "mod:", sorted(fx.mod[n], key=repr), "fx" if fx.fx[n] else "")
        S = summarise(Pg, n, fx)
        print("ret:", S.ret)
        for e in S.log:
            if e.kind != "havoc" or "-h" in sys.argv:
                print("  ", e)
        for e in S.events:
            print("   call", e)
