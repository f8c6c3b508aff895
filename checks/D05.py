"""Loops that cannot end: a pass that changes nothing which decides the loop, or a counter that moves away from its limit."""
from kern import effects, IO, LIBPURE, ALLOC, EXTREAD
from prog import *

TITLE = "every loop moves on: no pass repeats itself for ever"
CAP = 3000


def run(P, R):
    R.rule("pass", "every way round a loop changes something that decides how the loop goes on", 1)
    R.rule("towards", "a counter that alone decides when a loop ends moves towards its limit", 1)
    fx = effects(P)
    vol = changed_by_signals(P)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f:
            continue
        for h in sorted(f.loops):
            L = Loop(P, f, h, fx, vol)
            L.judge(R)


def changed_by_signals(P):
    r = set()
    for n in P.addr_taken:
        f = P.funcs.get(n)
        for I in (f.insts() if f else ()):
            if I.op == "store":
                a = P.T[n].ref(I.args[1])
                if a[0] == "g":
                    r.add(a[1])
    return r


class Loop:
    def __init__(s, P, f, h, fx, vol):
        s.P, s.f, s.h, s.fx, s.vol = P, f, h, fx, vol
        s.T = P.T[f.name]
        s.body = f.loops[h]
        s.inner = [k for k in f.loops if k != h and k in s.body]

    def outermost(s, b):
        """the largest loop inside this one that contains b"""
        c = [k for k in s.inner if b in s.f.loops[k] and h_in(s.f, k, s.h)]
        return max(c, key=lambda k: len(s.f.loops[k])) if c else None

    def ways(s):
        """the ways round: [(blocks in order, chosen edges, blocks of loops passed)], None when there are too many"""
        out, st, n = [], [(s.h, [s.h], {}, frozenset())], 0
        while st:
            b, path, edge, thru = st.pop()
            n += 1
            if n > CAP:
                return None
            k = s.outermost(b) if b != s.h else None
            if k is not None:
                if b != k:
                    return None                # enters a loop other than by its head
                bl = s.f.loops[k]
                nx = [(u, v) for u in bl for v in s.f.succ[u] if v not in bl]
                thru2 = thru | bl
            else:
                nx, thru2 = [(b, v) for v in s.f.succ[b]], thru
            for u, v in nx:
                if v not in s.body:
                    continue
                e = dict(edge)
                e[v] = u
                if v == s.h:
                    out.append((path, e, thru2))
                elif v in path:
                    return None
                else:
                    st.append((v, path + [v], e, thru2))
        return out

    def judge(s, R):
        ws = s.ways()
        I0 = next((I for I in s.f.blocks[s.h] if "l" in I.d), s.f.blocks[s.h][0])
        inst = "%s/loop%d" % (s.f.name, sorted(s.f.loops).index(s.h))
        if ws is None:
            R.undecided("pass", inst + ": too many ways round")
            return
        for w in ws:
            if s.contradictory(w):
                continue
            if s.futile(w):
                R.bad("pass", inst, "%s: a pass through the loop changes nothing that decides whether it goes on" % I0.where(), I0)
                return
        R.hold("pass", I0)
        s.towards(R, inst, I0)

    # -------------------------------------------------- one way round
    def futile(s, w):
        path, edge, thru = w
        on = set(path) | thru
        writes, impure = s.writes(on)
        if writes is None:
            return False
        seen, todo = set(), []
        for b in on:
            t = s.f.blocks[b][-1]
            if t.op in ("br", "switch") and t.args and len(s.f.succ[b]) > 1:
                todo.append(t.args[0])
        while todo:
            o = todo.pop()
            if o[0] != "v":
                continue
            I = s.f.byid.get(o[1])
            if I is None:
                return False
            if I.id in seen:
                continue
            seen.add(I.id)
            if I.b not in s.body:
                continue
            if I.op == "phi":
                if I.b == s.h:
                    nx = {tuple(s.along(x, path, edge, thru)) for x, pb in I.d["in"] if pb == edge[s.h]}
                    if nx != {("v", I.id)}:
                        return False
                elif I.b in thru:
                    todo += [x for x, _ in I.d["in"]]
                else:
                    todo += [x for x, pb in I.d["in"] if pb == edge.get(I.b)]
                continue
            if I.op == "load":
                a = s.T.ref(I.args[0])
                if not s.still(a, writes):
                    return False
                todo.append(I.args[0])
                continue
            if I.op == "call":
                c = I.callee
                if c is None or not s.fx.pure(c) and c not in LIBPURE:
                    return False
                if (impure or writes) and c not in ("sqrt", "fabs", "abs", "toupper", "tolower", "isspace", "floor", "ceil", "pow", "exp", "log", "llvm.fabs.f64"):
                    return False
                todo += list(I.args)
                continue
            if I.op in ("alloca",):
                continue
            todo += [x for x in I.args if x and x[0] == "v"]
        return True

    def along(s, o, path, edge, thru):
        n = 0
        while o[0] == "v" and n < 50:
            I = s.f.byid[o[1]]
            if I.op != "phi" or I.b == s.h or I.b not in edge or I.b not in path:
                return o
            if I.b in thru:
                vs = {tuple(x) for x, _ in I.d["in"]} - {("v", I.id)}
                if len(vs) != 1:
                    return o
                o = list(vs.pop())
            else:
                o = [x for x, pb in I.d["in"] if pb == edge[I.b]][0]
            n += 1
        return o

    def writes(s, on):
        """what may be written on these blocks (terms of stores, effects of calls), and whether a call does anything else"""
        W, imp = [], False
        for b in on:
            for I in s.f.blocks[b]:
                if I.op == "store":
                    W.append(("st", s.T.ref(I.args[1]), s.region(s.T.ref(I.args[1])), I))
                elif I.op == "call":
                    c = I.callee
                    if c is None:
                        return None, True
                    if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c in LIBPURE or c in ALLOC or c == "free":
                        continue
                    if c in s.P.funcs:
                        imp = imp or s.fx.fx[c]
                        for e in s.fx.mod[c]:
                            for r in s.fx.translate(s.f, I, e):
                                W.append(("ca", None, {r}, I))
                        for x in I.args:
                            t = s.T.ref(x)
                            al = base_alloca(t)
                            if al is not None:
                                W.append(("al", al, set(), I))
                    elif c in IO:
                        imp = True
                    else:
                        imp = True
                        for x in I.args:
                            t = s.T.ref(x)
                            al = base_alloca(t)
                            if al is not None:
                                W.append(("al", al, set(), I))
                            elif t[0] in ("arg", "ix", "fd", "g", "ld", "phi", "call"):
                                W.append(("ca", None, s.region(("ix", t, ("i", 0))) or {("elany",)}, I))
        return W, imp

    def region(s, a):
        return s.fx._addr(s.f, a)

    def still(s, a, writes):
        """is what is loaded from a surely not written?"""
        if a[0] == "g" and a[1] in s.vol:
            return False
        al = base_alloca(a)
        if al is not None:
            for k, t, r, I in writes:
                if k == "al" and t == al or k == "st" and base_alloca(t) == al:
                    return False
            return not escapes(s.f, s.T, al) or not any(k == "ca" for k, t, r, I in writes)
        if own_address(s.P, a):
            k0 = ("g", a[1]) if a[0] == "g" else ("fd", a[2])
            return not any(b_ in (k0, ("any",)) for k, t, r, I in writes for b_ in flat(r))
        me = s.region(a)
        if not me:
            return not writes                  # belongs to memory made here
        for k, t, r, I in writes:
            if k == "st" and not r and base_alloca(t) is None:
                return False
            if any(hits(x, y) for x in me for y in r):
                return False
        return True

    def contradictory(s, w):
        path, edge, thru = w
        facts = []
        for k, b in enumerate(path):
            nxt = path[k + 1] if k + 1 < len(path) else s.h
            if b in thru or edge.get(nxt) != b:
                continue
            t = s.f.blocks[b][-1]
            if t.op == "br" and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
                o = s.along(t.args[0], path, edge, thru)
                if o[0] == "i":
                    if bool(o[1]) != (t.d["s"][0] == nxt):
                        return True
                    continue
                facts += facts_of(s.f, s.T, o, t.d["s"][0] == nxt)
            elif t.op == "switch":
                v = s.T.ref(t.args[0])
                cs = [c[0] for c in t.d["cases"] if c[1] == nxt]
                if nxt != t.d["def"]:
                    if len(cs) == 1:
                        facts.append(("eq", v, ("i", cs[0])))
                else:
                    return True                # none of the values listed
        eqs = {}
        for p, a, b in facts:
            if p == "eq" and b[0] in ("i", "null"):
                if eqs.setdefault(a, b) != b:
                    return True
        nes = {}
        for p, a, b in facts:
            if p == "ne" and b[0] == "i":
                nes.setdefault(a, set()).add(b)
            for q, c, d in facts:
                if p[0] == "!" and q[0] == "!" and (a, b) == (c, d) and {p[2], q[2]} == {"l", "g"} and "e" in p[3:] + q[3:]:
                    return True                # neither less nor greater nor equal
        if any(len(x) > 1 for x in nes.values()):
            return True                        # none of several values
        for p, a, b in facts:
            if p in NEG and (NEG[p], a, b) in facts:
                return True
            if p == "ne" and eqs.get(a) == b:
                return True
            if a in eqs and eqs[a][0] == "i" and b[0] == "i" and p in CMP and not CMP[p](eqs[a][1], b[1]):
                return True
        return False

    # -------------------------------------------------- counters
    def towards(s, R, inst, I0):
        out = [(u, v) for u in s.body for v in s.f.succ[u] if v not in s.body]
        cs = []
        for u, v in out:
            t = s.f.blocks[u][-1]
            if t.op == "switch":
                cs.append([("switch", s.T.ref(t.args[0]), ("null",))])
                continue
            if t.op != "br" or len(t.d["s"]) != 2:
                cs.append(None)
                continue
            fs = facts_of(s.f, s.T, t.args[0], t.d["s"][1] == v)
            cs.append(fs)
        for k, fs in enumerate(cs):
            if fs is None or len(fs) != 1:
                continue
            c = core_of(fs[0][1])
            if c is None or any(j != k and (o is None or any(core_of(x) == c for q in o for x in q[1:3])) for j, o in enumerate(cs)):
                continue
            s.counter(R, inst, I0, fs, len(cs) == 1)

    def counter(s, R, inst, I0, fs, alone):
        p, a, b = fs[0]
        if p not in ("slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"):
            return
        sg = 1 if p in ("slt", "sle", "ult", "ule") else -1
        d = s.step(b)
        e = s.step(a)
        if d is None or e is None:
            return
        # goes on while a < b (or a > b): every change of a - b has to be able to raise (lower) it
        ch = [x - y for x in e for y in d]
        if all(x == 0 for x in ch):
            return
        if all(x * sg <= 0 for x in ch) and (alone or all(x for x in ch)):
            R.bad("towards", inst, "%s: the counter moves away from the limit that ends the loop" % I0.where(), I0)
        elif all(x * sg > 0 for x in ch):
            R.hold("towards", I0)

    def step(s, t):
        """the amounts by which a term changes in a pass: set of integers, None when not known"""
        if t[0] in ("i", "arg"):
            return {0}
        if t[0] == "phi":
            I = s.f.byid[t[1]]
            if I.b not in s.body:
                return {0}
            if I.b != s.h:
                return None
            r = set()
            for o, pb in I.d["in"]:
                if pb in s.body:
                    k = s.delta(s.T.ref(o), t, set())
                    if k is None:
                        return None
                    r |= k
            return r
        if t[0] == "add" and t[2][0] == "i":
            return s.step(t[1])
        if t[0] == "add" and t[1][0] == "i":
            return s.step(t[2])
        if t[0] in ("add", "mul", "sext", "zext", "sub") and all(s.step(x) == {0} for x in t[1:]):
            return {0}
        if t[0] == "ld":
            ws, imp = s.writes(s.body)
            if ws is None or not s.still(t[1], ws):
                return None
            for x in subterms(t[1]):
                if x[0] == "phi" and s.f.byid[x[1]].b in s.body:
                    return None
                if x[0] == "ld" and not s.still(x[1], ws):
                    return None
            return {0}
        return None

    def delta(s, t, ph, seen):
        if t == ph:
            return {0}
        if t in seen:
            return set()
        seen = seen | {t}
        if t[0] == "add":
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if y[0] == "i":
                    k = s.delta(x, ph, seen)
                    return None if k is None else {z + y[1] for z in k}
        if t[0] == "phi" and s.f.byid[t[1]].b in s.body:
            J = s.f.byid[t[1]]
            if J.b in s.f.loops:
                return None
            r = set()
            for o, _ in J.d["in"]:
                k = s.delta(s.T.ref(o), ph, seen)
                if k is None:
                    return None
                r |= k
            return r
        return None


CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}


def flat(r):
    for x in r:
        while x[0] == "reach":
            x = x[2]
        yield ("fd", x[2]) if x[0] == "fdarg" else x


def own_address(P, a):
    """a global or field that is only ever read and written by its name: no pointer to it is made"""
    if a[0] not in ("g", "fd"):
        return False
    c = P.__dict__.setdefault("_named", {})
    k = ("g", a[1]) if a[0] == "g" else ("fd", a[2])
    if not c:
        c["pointed"] = pt = set()
        for f in P.funcs.values():
            T = P.T[f.name]
            for I in f.insts():
                ops = [x for x, _ in I.d["in"]] if I.op == "phi" else I.args[:1] if I.op == "store" else [] if I.op == "load" else I.args
                if I.op == "getelementptr" or I.op == "gep":
                    ops = []
                for o in ops:
                    if o[0] not in ("v", "g"):
                        continue
                    t = T.ref(o)
                    while t[0] == "ix":
                        t = t[1]
                    if t[0] in ("g", "fd"):
                        pt.add(("g", t[1]) if t[0] == "g" else ("fd", t[2]))
                    if t[0] == "sel":
                        for x in t[2:4]:
                            if x[0] in ("g", "fd"):
                                pt.add(("g", x[1]) if x[0] == "g" else ("fd", x[2]))
        c["structs"] = {n for n, g in P.globals.items() if str(g.get("t", "")).startswith(("%", "[", "{"))}
    return k not in c["pointed"] and not (k[0] == "g" and k[1] in c["structs"])


def core_of(t):
    """the counter in a counter plus a constant"""
    while t[0] == "add":
        if t[2][0] == "i":
            t = t[1]
        elif t[1][0] == "i":
            t = t[2]
        else:
            return None
    return t if t[0] == "phi" else None


def h_in(f, k, h):
    return k in f.loops[h] and h not in f.loops[k]


def base_alloca(a):
    while a[0] in ("ix", "fd"):
        a = a[1]
    return a if a[0] == "alloca" else None


def escapes(f, T, al):
    for I in f.insts():
        if I.op == "store" and T.ref(I.args[0]) == al:
            return True
        if I.op == "phi" and any(T.ref(o) == al for o, _ in I.d["in"]):
            return True
    return False


def hits(a, b):
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if x[0] == "any":
            return True
        if x[0] == "reach":
            return hits(x[2], y)
        if x[0] == "fdarg":
            return hits(("fd", x[2]), y)
        if x[0] in ("elany", "elarg"):
            return y[0] in ("el", "elany", "elarg", "g", "any") or y[0] == "fd"
        if x[0] == "g" and y[0] == "el" and y[1] == ("g", x[1]):
            return True
    return False
