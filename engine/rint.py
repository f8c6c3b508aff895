"""Random interpretation of normal forms.

Two normal forms that are written differently may still denote the same value.  Before a mismatch is reported both are
interpreted over small random structures (numbers of states, actions and observations, contents of memory, results of
functions); only when some structure tells them apart is the mismatch reported.  Nothing of the analysed program runs."""
import functools, random, zlib
from fractions import Fraction
from poly import *
import poly


# fields that grow along their lists in every state the programs reach (kept so by rule `row` of A10)
SORTED = {("fd", "I_Matrix_Row_Node_Struct.column")}


def _prob(t):
    """entries of the transition and observation matrices are never negative"""
    if t and t[0] == "rd" and t[1] == ("fd", "Matrix_Struct.mat_val"):
        t = t[2][0].atom()
    elif t and t[0] == "ent":
        t = P(t[1]).atom()
    else:
        return False
    if t and t[0] == "rd" and t[1] == ("mem",):
        t = t[2][0].atom()
    return bool(t) and t[0] == "rd" and t[1][0] == "g" and t[1][1] in ("P", "R", "IP", "IR")


class Skip(Exception):
    pass


class Unable(Exception):
    pass


class World:
    """memory contents given by a check"""

    def __init__(s, seed):
        s.r = random.Random(seed)
        s.cells = {}
        s.seed = seed
        s.n = 10
        s.results = {}      # function -> what a call gives, from (kind, arguments)

    def result(s, kind, name, args):
        f = s.results.get(name)
        return f(kind, args) if f else None

    def new(s):
        s.n += 1
        return s.n

    def put(s, region, ix, v):
        s.cells[(("fd", region) if isinstance(region, str) else region, tuple(ix) if isinstance(ix, (tuple, list)) else (ix,))] = v
        return v

    def array(s, vals):
        p = s.new()
        for i, v in enumerate(vals):
            s.put(("mem",), (p, i), v)
        return p

    def g(s, name, v):
        return s.put(("g", name), (), v)

    def __call__(s, region, ix):
        return s.cells.get((region, tuple(int(x) if getattr(x, "denominator", 1) == 1 else x for x in ix)))

    def model(s):
        M = Model(s.seed)
        M.hook = s
        return M


class Model:
    def __init__(s, seed, pool=None, aims=None):
        s.aims = aims or {}     # what is compared with a number -> numbers to try
        s.cells = {}            # values given to those, by what they stand for
        s.seed = seed
        s.memo = {}
        s.size = 0
        s.pool = pool or {}
        s.parts = {}        # pointers into arrays: (start, offset)
        s.hook = None       # contents of memory given by a check: (region, index values) -> value or None

    def h(s, *key):
        x = zlib.crc32(repr((s.seed,) + key).encode())
        x = ((x ^ (x >> 16)) * 0x85ebca6b) & 0xffffffff
        x = ((x ^ (x >> 13)) * 0xc2b2ae35) & 0xffffffff
        return x ^ (x >> 16)

    def big(s, *key):
        return 1000 + s.h("A", *key) * 4096 + s.h("B", *key) % 4096

    def small(s, *key):
        c = s.pool.get(key[:2] if key[0] in ("rd", "arg") else key[0])
        if c and s.h("pick", *key) % 4:
            return c[s.h("which", *key) % len(c)]
        x = s.h("s", *key)
        x ^= x >> 15
        x = (x * 2654435761 ^ (x >> 7)) & 0xffffffff
        return (0, 1, 2, 3, -1, 1, 0, 4)[(x >> 9) % 8]

    def given(s, a, key):
        """any value, the same whenever the same thing is asked for"""
        if not s.aims:
            return s.small(*key)
        r = s.cells.get(key)
        if r is None:
            c = s.aims.get(a)
            if c and s.h("aim", key) % 2:
                r = c[s.h("at", key) % len(c)]
            else:
                r = s.small(*key)
            s.cells[key] = r
        return r

    # ---- polynomials and atoms
    def ev(s, p, env):
        t = 0
        for k, c in p.m.items():
            x = c
            for a, e in sorted(k, key=lambda q: (ALIST[q[0]][0] not in KIND_BOOL, poly._height(q[0]))):
                y = s.atom(a, env)
                if y == 0:
                    x = 0
                    break
                x = x * y ** e
            t += x
        if isinstance(t, Fraction) and t.denominator == 1:
            return int(t)
        return t

    def atom(s, a, env):
        s.size += 1
        if s.size > 400000:
            raise Unable("too large")
        free = fv_atom(a)
        b = poly._all_ids(a)
        key = (a,) + tuple((i, env[i]) for i in sorted(b) if i in env)
        r = s.memo.get(key)
        if r is None:
            r = s.memo[key] = s.atom0(a, env)
        return r

    def deep(s, x, env):
        if isinstance(x, Poly):
            return s.ev(x, env)
        if isinstance(x, tuple):
            return tuple(s.deep(y, env) for y in x)
        if isinstance(x, Fraction) and x.denominator == 1:
            return int(x)
        return x

    def memory(s, region, ix):
        """contents of memory before the function"""
        if s.hook is not None:
            x = s.hook(region, ix)
            if x is not None:
                return x
        return s.small("rd", region, ix)

    def link(s, name, p):
        """next element of a chain; chains end"""
        if s.hook is not None:
            x = s.hook(("fd", name), (p,))
            if x is not None:
                return x
        r = s.h("lk", name, p) % 5
        if p >= 8 or r >= 3:
            return 0
        n = int(p) + 1 + r
        return n if n != 0 else 0

    def dom(s, d, env, cap=128, inf=3):
        if d[0] == "rng":
            lo = s.ev(d[1], env)
            t = d[2].atom()
            if t and t[0] == "inf":
                hi = lo + inf
            else:
                hi = s.ev(d[2], env)
            if hi - lo > cap:
                raise Skip
            if isinstance(lo, Fraction) or isinstance(hi, Fraction):
                raise Skip
            return list(range(lo, hi))
        if d[0] in ("list", "pre"):
            p = s.ev(d[1], env)
            stop = s.ev(d[3], env) if d[0] == "pre" else None
            out = []
            if p > 1000:
                raise Skip
            while p != 0 and p != stop:
                out.append(p)
                p = s.link(d[2], p)
                if len(out) > 60:
                    raise Skip
            if d[0] == "pre" and p != stop:
                raise Skip
            return out
        raise Unable("domain " + str(d[0]))

    def over(s, names, doms, env, inf=3):
        if not names:
            yield env
            return
        b = aid(("b", names[0]))
        for x in s.dom(doms[0], env, inf=inf):
            e = dict(env)
            e[b] = x
            yield from s.over(names[1:], doms[1:], e, inf)

    @staticmethod
    def endless(doms):
        return any(d[0] == "rng" and d[2].atom() and d[2].atom()[0] == "inf" for d in doms)

    def atom0(s, a, env):
        t = ALIST[a]
        k = t[0]
        if a in env:
            return env[a]
        if k == "lt0":
            return int(s.ev(t[1], env) < 0)
        if k == "le0":
            return int(s.ev(t[1], env) <= 0)
        if k == "eq0":
            return int(s.ev(t[1], env) == 0)
        if k == "fabs":
            return abs(s.ev(t[1], env))
        if k == "inv":
            x = s.ev(t[1], env)
            if x == 0:
                raise Skip
            return Fraction(1) / x
        if k == "v":
            d = VARDOM.get(t[1])
            if d is None:
                return s.small("v", t[1])
            D = s.dom(d, env)
            if not D:
                raise Skip
            return D[s.h("v", t[1]) % len(D)]
        if k == "rd":
            ix = s.deep(t[2], env)
            if s.hook is not None:
                x = s.hook(t[1], ix)
                if x is not None:
                    return x
            if t[1][0] == "g" and t[1][1] in POSITIVE and not ix:
                return 1 + s.h(t[1][1]) % 3
            if t[1][0] == "fd" and t[1][1].split(".")[-1] == "next":
                return s.link(t[1][1], ix[0])
            if t[1] in SORTED:
                return 2 * ix[0] - s.h("sorted", t[1]) % 7
            if t[1] == ("mem",) and _prob(t[2][0].atom()):
                return abs(s.small("rd", t[1], ix))
            return s.given(a, ("rd", t[1], ix))
        if k == "pa":
            b, i = s.ev(t[1], env), s.ev(t[2], env)
            r = b if i == 0 else s.big("pa", b, i)
            s.parts[r] = (b, i)
            return r
        if k in ("call", "ev", "out", "ent", "ncols"):
            if s.hook is not None and s.hook.results:
                x = s.hook.result(k, t[1], [s.deep(y, env) for y in t[2:]])
                if x is not None:
                    return x
            if k == "out" and t[1] in ("memcpy", "memmove", "memset", "bcopy"):
                raise Unable("copied bytes")
            if k == "ev":
                return s.given(a, (k, t[1], s.deep(t[2:], env)))
            if k == "ent" and _prob(t):
                return abs(s.small(k, s.deep(t[1:], env)))
            return s.given(a, (k, s.deep(t[1:], env)))
        if k == "new":
            if t[1] in MAYNULL and s.h("nul", s.deep(t[1:], env)) % 3 == 0:
                return 0
            return s.big(k, s.deep(t[1:], env))
        if k == "arg":
            return s.small("arg", t[1])
        if k == "lv":
            return s.small("lv", t[1:])
        if k == "old":
            return s.ev(t[1], env)
        if k == "top":
            return s.small("top", s.deep(t[1:], env))
        if k in ("al", "ga", "fa", "fnaddr", "str", "undef", "node", "has", "made", "pair", "tok", "proj", "ea", "acc", "tup", "step", "src", "dup", "cross", "all", "enum", "node_of", "num"):
            return s.big(k, s.deep(t[1:], env))
        if k == "HUGE":
            return 10 ** 9 + 7
        if k == "max2":
            return max(s.ev(t[1], env), s.ev(t[2], env))
        if k == "op":
            if t[1] == "toint":
                return int(s.ev(t[2][0], env))
            return s.small("op", t[1], s.deep(t[2], env))
        if k == "S":
            return sum(s.ev(t[3], e) for e in s.over(t[1], t[2], env))
        if k == "any":
            r = any(s.ev(t[3], e) for e in s.over(t[1], t[2], env, 30))
            if not r and s.endless(t[2]):
                raise Skip
            return int(r)
        if k == "fi":
            for e in s.over(t[1], t[2], env, 30):
                if s.ev(t[3], e):
                    return s.ev(t[4], e)
            if s.endless(t[2]):
                raise Skip
            return 0
        if k == "prod":
            r = 1
            for e in s.over(t[1], t[2], env):
                r *= s.ev(t[3], e)
            return r
        if k in ("max", "min"):
            r = s.ev(t[4], env)
            for e in s.over(t[1], t[2], env):
                x = s.ev(t[3], e)
                r = max(r, x) if k == "max" else min(r, x)
            return r
        if k == "lam":
            n = getattr(s.hook, "extent", None)
            vals = tuple(s.ev(t[3], e) for e in s.over(t[1], t[2], env, inf=3 if n is None else n))
            r = s.big("lam", vals)
            if n is not None:
                s.hook.contents[r] = vals
            return r
        if k == "fold":
            j, inits, steps = t[3], t[4], t[5]
            st = [s.ev(x, env) for x in inits]
            lv = None
            for x in steps:
                for i in x.atoms():
                    for q in poly._all_ids(i):
                        if ALIST[q][0] == "st" and (lv is None or ALIST[q][2] > lv):
                            lv = ALIST[q][2]
            D = s.dom(t[2][0], env)
            if len(t) > 6 and t[6] == -1:
                D.reverse()
            b = aid(("b", t[1][0]))
            for x in D:
                e = dict(env)
                e[b] = x
                for n, y in enumerate(st):
                    e[aid(("st", n, lv))] = y
                st = [s.ev(y, e) for y in steps]
            return st[j]
        if k == "nth":
            p, n = s.ev(t[1], env), s.ev(t[3], env)
            for _ in range(int(n)):
                p = s.link(t[2], p)
            return p
        if k == "bool" and t[1] == "in":
            return int(s.ev(t[3], env) in s.dom(t[2], env))
        if k == "with":
            x = s.deep(t[1:], env)
            r = s.big(k, x)
            if getattr(s.hook, "extent", None) is not None:
                s.hook.contents[r] = x[0]
            return r
        if k == "st" or k == "b":
            raise Unable("unbound " + k)
        raise Unable("no interpretation for " + k)


def replay(log, M, env=None):
    """memory after the writes of a summary under an interpretation: {(region, index values): (value, write, loop position)}; and the
    calls that may have changed something"""
    env = env or {}
    mem, unknown, todo = {}, [], []
    for n, e in enumerate(log):
        if e.kind == "havoc":
            unknown.append(e)
            continue
        if e.kind not in ("set", "add"):
            raise Unable(e.kind)
        names, doms = [v for v, d in e.vd], [d for v, d in e.vd]
        ids = [aid(v.atom()) for v in names]
        for ev, pos in _walk(M, names, doms, 0, dict(env), ()):
            if not M.ev(e.guard, ev):
                continue
            todo.append((n, e, ev, list(zip(ids, pos))))
    todo.sort(key=functools.cmp_to_key(_turn))
    for n, e, ev, at in todo:
        k = (e.region, tuple(M.ev(x, ev) for x in e.idx))
        if e.region == ("mem",) and k[1][0] in M.parts:
            b, i = M.parts[k[1][0]]
            k = (e.region, (b, i + k[1][1]))
        v = M.ev(e.val, ev)
        if e.kind == "add":
            old = mem.get(k)
            v += old[0] if old is not None else M.memory(e.region, k[1])
        mem[k] = (v, e, at)
    return mem, unknown


def _turn(x, y):
    """which of two writes comes first: iterations of the loops they share, then the order in the body"""
    for (a, i), (b, j) in zip(x[3], y[3]):
        if a != b:
            break
        if i != j:
            return -1 if i < j else 1
    return x[0] - y[0]


def calls(events, M, env=None, names=None):
    """the calls made under an interpretation: [(name, argument values)]"""
    env = env or {}
    out = []
    for e in events:
        if names is not None and e.name not in names:
            continue
        for ev, pos in _walk(M, [v for v, d in e.vd], [d for v, d in e.vd], 0, dict(env), ()):
            if M.ev(e.guard, ev):
                out.append((e.name, tuple(M.ev(a, ev) for a in e.args)))
    return out


def _walk(M, names, doms, n, env, pos):
    if n == len(names):
        yield env, pos
        return
    for k, x in enumerate(M.dom(doms[n], env, cap=128, inf=30)):
        e = dict(env)
        e[aid(names[n].atom())] = x
        yield from _walk(M, names, doms, n + 1, e, pos + (k,))


def constants(*ps):
    """values that conditions compare memory and arguments with: sampled often, so that the cases are reached"""
    pool = {}
    for p in ps:
        for i in {i for a in p.atoms() for i in poly._all_ids(a)}:
            t = ALIST[i]
            if t[0] not in ("eq0", "lt0", "le0"):
                continue
            q = t[1]
            c0 = q.m.get((), 0)
            ks = [k for k in q.m if k]
            if not 1 <= len(ks) <= 2 or any(len(k) != 1 or k[0][1] != 1 or abs(q.m[k]) != 1 for k in ks) or len(ks) == 2 and not 2 <= abs(c0) <= 10 ** 6:
                continue
            for kk in ks:
                x = ALIST[kk[0][0]]
                if x[0] == "rd" and not (x[1][0] == "fd" and x[1][1].split(".")[-1] == "next") and x[1] != ("mem",):
                    k = ("rd", x[1])
                elif x[0] == "arg":
                    k = ("arg", x[1])
                else:
                    continue
                v = -c0 / q.m[kk]
                # two quantities some way apart: one of them as far as that
                for w in ((v,) if t[0] == "eq0" and len(ks) == 1 else (v, v + 1, v - 1)):
                    w = int(w) if getattr(w, "denominator", 1) == 1 else w
                    L = pool.setdefault(k, [])
                    if w not in L:
                        L.append(w)
    return {k: sorted(v) for k, v in pool.items()}


def targets(*ps):
    """memory, results of calls: the numbers they are compared with"""
    out = {}
    for p in ps:
        for i in {i for a in p.atoms() for i in poly._all_ids(a)}:
            t = ALIST[i]
            if t[0] not in ("eq0", "lt0", "le0"):
                continue
            q = t[1]
            c0 = q.m.get((), 0)
            ks = [k for k in q.m if k]
            if len(ks) != 1 or len(ks[0]) != 1 or ks[0][0][1] != 1 or abs(q.m[ks[0]]) != 1:
                continue
            a = ks[0][0][0]
            x = ALIST[a]
            if not (x[0] in ("call", "ev", "out") or x[0] == "rd" and x[1] == ("mem",)):
                continue
            v = -c0 / q.m[ks[0]]
            if getattr(v, "denominator", 1) != 1 or v == 0:
                continue
            for w in ((v,) if t[0] == "eq0" else (v, v + 1, v - 1)):
                L = out.setdefault(a, [])
                if int(w) not in L:
                    L.append(int(w))
    return {k: sorted(v) for k, v in out.items()}


def equal(a, b, n=60):
    """True: no structure tells them apart; False: some structure does; None: cannot be interpreted"""
    seen = 0
    pool = constants(a, b)
    aims = targets(a, b)
    n += 20 * sum(map(len, pool.values())) + 10 * min(20, sum(map(len, aims.values())))
    work = 0
    for seed in range(1500):
        if seed >= n * 3 and (work > 60000 or seen < 20):
            break
        M = Model(seed, pool if seed % 4 else None, aims if seed % 3 else None)
        try:
            x, y = M.ev(a, {}), M.ev(b, {})
        except Skip:
            work += M.size
            continue
        except (Unable, RecursionError, OverflowError):
            return None
        if x != y:
            return False
        seen += 1
        work += M.size
        if seen >= n and work > 60000:
            return True
    return True if seen >= n // 4 else None
