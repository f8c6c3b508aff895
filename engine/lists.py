"""Vector lists in given memory contents, and reading them back after a function's writes."""
import functools
import rint, spec
from spec import *
from rint import World, replay, calls, Skip, Unable

FIELDS = ("action", "id", "obs", "prev_source", "first_source", "second_source", "mark", "hook")


class Differs(Exception):
    pass


class Read:
    """reading the memory left by a function"""

    def __init__(s, W, M, mem):
        s.W, s.M, s.mem = W, M, mem

    def __call__(s, region, *ix, need=True):
        region = ("fd", region) if isinstance(region, str) else region
        r = s.mem.get((region, ix))
        if r is not None:
            return r[0]
        x = s.W(region, ix)
        if x is None and need:
            raise Differs("%s%s is never written" % (region[-1].split(".")[-1] if region[0] == "fd" else "", "".join("[%s]" % i for i in ix[1:])))
        return x

    def where(s, region, *ix):
        r = s.mem.get((("fd", region) if isinstance(region, str) else region, ix))
        return r[1].ins.where() if r is not None and r[1].ins is not None else None


def new_node(W, n, **kw):
    """a node outside of any list"""
    x = W.new()
    vals = kw.pop("vals", None)
    if vals is None:
        vals = [W.r.choice((0, 1, -1, 2, 3, -2)) for _ in range(n)]
    W.put(LT + "alpha", x, W.array(vals))
    for f in FIELDS:
        W.put(LT + f, x, kw.get(f, W.r.randint(1, 40) if f != "mark" else W.r.randint(0, 1)))
    W.put(LT + "next", x, kw.get("next", 0))
    W.put(LT + "witness", x, kw.get("witness", 0))
    W.put(LT + "obs_source", x, kw.get("obs_source", 0))
    W.put(LT + "head", x, 0)
    W.put(LT + "tail", x, 0)
    W.put(LT + "length", x, -1)
    return x


def new_list(W, n, k, **kw):
    """a list of k vectors with n components; kw: field values, functions of the position"""
    lst = W.new()
    nodes = [new_node(W, n, **{f: v(i) for i in (j,) for f, v in kw.items()}) for j in range(k)]
    for a, b in zip(nodes, nodes[1:] + [0]):
        W.put(LT + "next", a, b)
    W.put(LT + "head", lst, nodes[0] if nodes else 0)
    W.put(LT + "tail", lst, nodes[-1] if nodes else 0)
    W.put(LT + "length", lst, k)
    for f in FIELDS + ("alpha", "next", "witness", "obs_source"):
        W.put(LT + f, lst, 0)
    return lst, nodes


def contents(rd, lst, what="the list"):
    """nodes of a well-formed list"""
    out, p = [], rd(LT + "head", lst)
    while p:
        if p in out or len(out) > 40:
            raise Differs("%s runs in a circle" % what)
        out.append(p)
        p = rd(LT + "next", p)
    t, k = rd(LT + "tail", lst), rd(LT + "length", lst)
    if k != len(out):
        raise Differs("%s has %d vectors and says %s" % (what, len(out), k))
    if t != (out[-1] if out else 0):
        raise Differs("the last vector of %s is not the one it says" % what)
    return out


def expect(rd, lst, want, what="the list", order=True):
    got = contents(rd, lst, what)
    if (got != list(want)) if order else (sorted(got) != sorted(want) or len(set(got)) != len(got)):
        raise Differs("%s is %s, expected %s" % (what, got, list(want)))


def vals(W, x):
    p, out, i = W(("fd", LT + "alpha"), (x,)), [], 0
    while W(("mem",), (p, i)) is not None:
        out.append(W(("mem",), (p, i)))
        i += 1
    return out


def trial(R, rule, F, key, what, one, n=60):
    """one instance, judged over structures; one(W) raises Differs when the function does something else"""
    if F is None:
        return
    name = getattr(F, "name", None) or F.f.name
    seen = 0
    for seed in range(n * 4):
        W = World(seed)
        try:
            one(W)
        except Skip:
            continue
        except (Unable, RecursionError, OverflowError, KeyError, TypeError, AttributeError) as e:
            R.undecided(rule, "%s: %s: not interpretable: %s %s" % (name, what, type(e).__name__, e))
            return
        except Differs as e:
            R.bad(rule, "%s:%s" % (name, key), "%s:%d (%s): %s: %s" % (F.f.file, F.f.line, name, what, e))
            return
        seen += 1
        if seen >= n:
            break
    if seen < n // 3:
        R.undecided(rule, "%s: %s: not enough structures" % (name, what))
        return
    R.functions.add(name)
    R.hold(rule)


def run(F, W, *args, log=None):
    """memory after the function for argument values; also the interpretation and its environment"""
    M = W.model()
    env = {aid(F.arg(k).atom()): v for k, v in enumerate(args)}
    log = F.K.log if log is None else log
    for e in log:
        if e.kind != "havoc" and (has_unknown(e.val) or has_unknown(e.guard) or any(has_unknown(x) for x in e.idx)):
            raise Unable("write not resolved")
    mem, unknown = replay(log, M, env)
    return Read(W, M, mem), M, env, unknown


def printed(F, M, env, stream=None):
    """the text a function prints under an interpretation, in the order it is printed"""
    todo = []
    for n, e in enumerate(F.K.events):
        if e.name not in ("fprintf", "printf", "puts", "fputs", "fputc", "putc", "putchar"):
            continue
        a = list(e.args)
        if e.name in ("fputs", "fputc", "putc"):
            st, a = a[-1], a[:-1]
        elif e.name == "fprintf":
            st, a = a[0], a[1:]
        else:
            st = None
        if (st is None) != (stream is None) or st is not None and st != stream:
            if st is not None and stream is not None and has_unknown(st):
                raise Unable("output not known")
            continue
        t = a[0].atom()
        if e.name in ("fputc", "putc", "putchar"):
            c = a[0].const()
            ps = [chr(int(c))] if c is not None and 0 <= c < 256 else None
        elif not t or t[0] != "str" or not isinstance(t[1], str):
            ps = None
        elif e.name in ("puts", "fputs"):
            ps = [t[1] + ("\n" if e.name == "puts" else "")]
        else:
            ps = spec._pieces(t[1], a[1:])
        if ps is None:
            raise Unable("output not known")
        ids = [aid(v.atom()) for v, d in e.vd]
        for ev, pos in rint._walk(M, [v for v, d in e.vd], [d for v, d in e.vd], 0, dict(env), ()):
            if M.ev(e.guard, ev):
                todo.append((n, ps, ev, list(zip(ids, pos))))
    todo.sort(key=functools.cmp_to_key(rint._turn))
    out = ""
    for n, ps, ev, at in todo:
        for p in ps:
            out += p if isinstance(p, str) else str(M.ev(p.atom()[2], ev))
    return out
