"""Ownership of acquired resources: release/keep/borrow summaries, leak paths, use after release."""
import functools
from prog import *

HEAP = {"malloc", "calloc", "strdup", "realloc"}
KINDS = {"heap": (HEAP, {"free": 0}), "file": ({"fopen"}, {"fclose": 0})}
CASTS = {"bitcast", "freeze", "getelementptr"}


class Owner:
    def __init__(s, P, kind):
        s.P, s.kind = P, kind
        s.acq, s.rel = KINDS[kind]
        s._disp = {}
        s._fresh = {}
        s._given = {}
        s._drop = None

    # -- operand root: SSA id (or ('a',k)) an operand is derived from through casts and address arithmetic
    def root(s, f, o):
        n = 0
        while o and o[0] == "v":
            I = f.byid.get(o[1])
            if I is None or I.op not in CASTS:
                return o[1] if I is not None else ("a", o[1])
            o = I.args[0]
            n += 1
        if o and o[0] == "a":
            return ("a", o[1])
        if o and o[0] == "gep":
            return s.root(f, o[2][0])
        return None

    def exact(s, f, o):
        """root when the operand is the pointer itself (no address arithmetic)"""
        while o and o[0] == "v":
            I = f.byid.get(o[1])
            if I is None:
                return ("a", o[1])
            if I.op in ("bitcast", "freeze"):
                o = I.args[0]
                continue
            return o[1]
        if o and o[0] == "a":
            return ("a", o[1])
        return None

    # -- summaries ---------------------------------------------------------
    def fresh(s, name, depth=8):
        """does name return a resource nobody else refers to?"""
        if name in s.acq:
            return True
        if name in s._fresh:
            return s._fresh[name]
        s._fresh[name] = False
        g = s.P.funcs.get(name)
        if g is None or depth < 0:
            return False
        rets = s.P.returns.get(name, [])
        if not rets:
            return False
        any_ = False
        ok = True
        for R in rets:
            st, seen = [R.args[0]], set()
            while st and ok:
                o = st.pop()
                if o[0] == "null":
                    continue
                r = s.exact(g, o)
                if r is None:
                    ok = False
                    break
                if r in seen:
                    continue
                seen.add(r)
                I = g.byid.get(r) if not isinstance(r, tuple) else None
                if I is None:
                    ok = False
                elif I.op == "phi":
                    st += [x[0] for x in I.d["in"]]
                elif I.op == "select":
                    st += I.args[1:]
                elif I.op == "call" and I.callee and s.fresh(I.callee, depth - 1):
                    any_ = True
                    if s.escapes(g, r):
                        ok = False
                else:
                    ok = False
        s._fresh[name] = ok and any_
        return s._fresh[name]

    def escapes(s, f, r):
        """value r is stored in memory or kept by a callee somewhere in f (flow-insensitive)"""
        al, st = {r}, [r]
        while st:
            x = st.pop()
            for U in f.uses.get(x if not isinstance(x, tuple) else x[1], []):
                if U.op in ("phi", "select") or U.op in CASTS:
                    if U.id not in al:
                        al.add(U.id)
                        st.append(U.id)
                elif U.op == "store" and s.root(f, U.args[0]) in al and U.d.get("vt") == "ptr":
                    return True
                elif U.op == "call":
                    for k, a in enumerate(U.args):
                        if s.root(f, a) in al and s.disp_call(U, k) == "keep":
                            return True
        return False

    def disp_call(s, I, k):
        if I.callee is None:
            return "keep"
        if s.rel.get(I.callee) == k:
            return "free"
        if I.callee == "realloc" and s.kind == "heap" and k == 0:
            return "free"
        return s.disp(I.callee, k)

    def disp(s, name, k):
        key = (name, k)
        if key in s._disp:
            return s._disp[key]
        if s.rel.get(name) == k:
            return "free"
        g = s.P.funcs.get(name)
        if g is None:
            return "borrow"
        s._disp[key] = "borrow"
        if k >= len(g.params):
            return "borrow"
        ev = s.events(g, ("a", k))
        r = "borrow"
        if ev == "none":
            r = "borrow"
        else:
            rel = ev["free"]
            if rel:
                r = "free" if not s.path_to_ret(g, ("a", k)) else "mayfree"
            if ev["keep"] and r == "borrow":
                r = "keep"
        s._disp[key] = r
        return r

    def given(s, I, k):
        """is parameter k of the call released once every argument is there? (a function that does nothing at all
        when one of its arguments is NULL, this one or another, releases it on every other path)"""
        n = (I.callee, k)
        if n not in s._given:
            s._given[n] = False
            g = s.P.funcs.get(I.callee)
            if g is not None and k < len(g.params):
                E = [(b, x, l[1]) for b in range(len(g.blocks)) for x in g.succ[b] for q, p, r in s.edge_facts(g, b, x)
                     for l, r in ((p, r), (r, p)) if q == "eq" and l[0] == "arg" and r in (("null",), ("i", 0)) and g.params[l[1]].get("t") == "ptr"]
                idle = {x for b, x, a in E if a == k}
                s._drop = {(g.name, b, x) for b, x, a in E if x in idle}
                try:
                    s._given[n] = len(s._drop) > 1 and not s.path_to_ret(g, ("a", k))
                finally:
                    s._drop = None
        return s._given[n] and not any(a[0] == "null" for a in I.args)

    @functools.lru_cache(None)
    def cond(s, name, k):
        """(constants returned after parameter k was disposed of, constants returned while the caller still owns it)
        when the result tells the two apart, else None"""
        g = s.P.funcs.get(name)
        if g is None or k >= len(g.params) or s.disp(name, k) not in ("keep", "mayfree"):
            return None
        r = ("a", k)
        got = {True: set(), False: set()}
        st, seen = [(0, None, False)], set()
        while st:
            b, pb, done = st.pop()
            if (b, pb, done) in seen:
                continue
            seen.add((b, pb, done))
            for I in g.blocks[b]:
                if I.op == "store" and s.exact(g, I.args[0]) == r and I.d.get("vt") == "ptr":
                    done = True
                elif I.op == "call":
                    for j, a in enumerate(I.args):
                        if s.exact(g, a) == r and s.disp_call(I, j) != "borrow":
                            done = True
                elif I.op == "phi" and any(s.exact(g, o) == r for o, _ in I.d["in"]):
                    return None
                elif I.op == "ret":
                    o = I.args[0] if I.args else None
                    J = g.byid.get(o[1]) if o and o[0] == "v" else None
                    if J is not None and J.op == "phi" and J.b == b and pb is not None:
                        o = [x for x, q in J.d["in"] if q == pb][0]
                    if not o or o[0] not in ("i", "null"):
                        return None
                    got[done].add(0 if o[0] == "null" else o[1])
            for x in g.succ[b]:
                st.append((x, b, done))
        if not got[True] or not got[False] or got[True] & got[False]:
            return None
        if 0 not in got[True] | got[False]:
            return None
        return frozenset(got[True]), frozenset(got[False])

    def cond_call(s, I, k):
        return s.cond(I.callee, k) if I.callee and I.id is not None else None

    def edge_kept(s, f, fs, I, cd):
        """do edge facts about the result of call I say the value was disposed of (True), is still owned (False), or nothing (None)"""
        me = s.P.T[f.name].val(I.id)
        for q, l, r in fs:
            for q, l, r in ((q, l, r), (SWAP.get(q), r, l)):
                if l == me and r in (("i", 0), ("null",)):
                    if q == "eq":
                        return 0 in cd[0]
                    if q in ("ne", "sgt", "ugt"):
                        return 0 not in cd[0]
        return None

    def events(s, f, r):
        """which things happen to value r anywhere in f"""
        ev = {"free": 0, "keep": 0}
        al, st = {r}, [r]
        while st:
            x = st.pop()
            for U in f.uses.get(x[1] if isinstance(x, tuple) else x, []):
                if isinstance(x, tuple) and not any(o[0] == "a" and o[1] == x[1] for o in ([y[0] for y in U.d["in"]] if U.op == "phi" else list(U.args))):
                    continue
                if U.op in ("phi", "select", "bitcast", "freeze"):
                    if U.id not in al:
                        al.add(U.id)
                        st.append(U.id)
                elif U.op == "getelementptr":
                    pass
                elif U.op == "store" and s.exact(f, U.args[0]) in al and U.d.get("vt") == "ptr":
                    if not s.note(U):
                        ev["keep"] += 1
                elif U.op == "ret":
                    ev["keep"] += 1
                elif U.op == "call":
                    for k, a in enumerate(U.args):
                        if s.exact(f, a) in al:
                            d = s.disp_call(U, k)
                            if d in ("free", "mayfree"):
                                ev["free"] += 1
                            elif d == "keep":
                                ev["keep"] += 1
        return ev

    def path_to_ret(s, f, r):
        """a path from entry to a return on which parameter r (not NULL) is never released"""
        return s.walk(f, 0, -1, r, leak=True, param=True)

    def start_facts(s, f, b, ck):
        return frozenset((p, (repr(l), repr(r))) for p, l, r in facts_at(f, s.P.T[f.name], b) if (repr(l), repr(r)) in ck)

    def step_facts(s, f, b, x, nf, ck):
        """facts that survive entering x from b: those about redefined values go, except that a counter stepped up
        keeps its lower bound; a counter entering with a constant gets that value"""
        phis = [I for I in f.blocks[x] if I.op == "phi"]
        if not phis:
            return nf
        T = s.P.T[f.name]
        red = ["'phi', %d)" % I.id for I in phis]
        out = set(z for z in nf if not any(q in z[1][0] or q in z[1][1] for q in red))
        for I in phis:
            me = ("phi", I.id)
            keys = [k for k in ck if k[0] == repr(me)]
            if not keys:
                continue
            inc = [T.ref(o) for o, pb in I.d["in"] if pb == b]
            if not inc:
                continue
            v = inc[0]
            if v[0] == "i":
                for k in keys:
                    c = k[1]
                    if c.startswith("('i', "):
                        n = int(c[6:-1])
                        out.add(("eq" if v[1] == n else "slt" if v[1] < n else "sgt", k))
            elif v[0] == "add" and me in v[1:] and [z for z in v[1:] if z[0] == "i"]:
                d = [z for z in v[1:] if z[0] == "i"][0][1]
                c0 = [T.ref(o) for o, pb in I.d["in"] if T.ref(o) != v]
                if d > 0 and c0 and all(z[0] == "i" for z in c0):
                    for k in keys:
                        if k[1].startswith("('i', ") and int(k[1][6:-1]) < min(z[1] for z in c0) + d:
                            out.add(("sgt", k))
                for (q, k) in nf:
                    if k in keys and d > 0 and q in ("eq", "sgt", "sge"):
                        out.add(("sgt", k))
                    elif k in keys and d < 0 and q in ("eq", "slt", "sle"):
                        out.add(("slt", k))
        return frozenset(out)

    @functools.cached_property
    def closed(s):
        """storage classes whose content is released somewhere"""
        r = set()
        for f in s.P.funcs.values():
            for I in f.calls():
                for k, a in enumerate(I.args):
                    if I.callee and (s.rel.get(I.callee) == k):
                        t = s.P.term(I, a)
                        if t[0] == "ld":
                            r.add(slot_of(t[1]))
        return r

    def note(s, I):
        """a stream stored where nothing ever closes it is only noted there: the owner stays the same"""
        if s.kind != "file":
            return False
        k = slot_of(s.P.term(I, I.args[1]))
        return k is not None and k[0] in ("g", "fd") and k not in s.closed

    # -- path walk -----------------------------------------------------------
    def condkeys(s, f):
        """branch conditions tested more than once (for pruning contradictory paths)"""
        if "_ck" in f.__dict__:
            return f._ck
        T = s.P.T[f.name]
        cnt = {}
        for b in f.blocks:
            if b and b[-1].op == "br" and len(b[-1].d["s"]) == 2:
                for truth in (True, False):
                    for p, a, c in facts_of(f, T, b[-1].args[0], truth):
                        cnt.setdefault((repr(a), repr(c)), set()).add(b[-1].b)
        f._ck = {k for k, v in cnt.items() if len(v) > 1 or k[0].startswith("('phi',") and k[1].startswith("('i', ")}
        return f._ck

    def edge_facts(s, f, b, x):
        br = f.blocks[b][-1]
        T = s.P.T[f.name]
        if br.op == "br" and len(br.d["s"]) == 2 and br.d["s"][0] != br.d["s"][1]:
            return facts_of(f, T, br.args[0], br.d["s"][0] == x)
        if br.op == "switch":
            vs = [c[0] for c in br.d.get("cases", []) if c[1] == x]
            t = T.ref(br.args[0])
            if x == br.d["def"]:
                return [("ne", t, ("i", c[0])) for c in br.d["cases"] if c[1] != x]
            if len(vs) == 1:
                return [("eq", t, ("i", vs[0]))]
        return []

    def null_edge(s, f, fs, al):
        """edge facts say that a member of al is NULL"""
        T = s.P.T[f.name]
        for p, a, b in fs:
            for q, l, r in ((p, a, b), (SWAP.get(p), b, a)):
                if q == "eq" and r in (("null",), ("i", 0)):
                    for m in al:
                        t = ("arg", m[1]) if isinstance(m, tuple) else T.val(m)
                        if t == l and l[0] != "ld":
                            return True
                if q == "ne" and r in (("null",), ("i", 0)) and False:
                    pass
        return False

    def walk(s, f, b0, p0, r0, leak=True, param=False, limit=4000):
        """follow value r0 from just after (b0,p0).
        leak: returns (inst, trail) of a return (or re-execution of the acquisition) reached while r0 is still owned."""
        ck = s.condkeys(f)
        f0 = s.start_facts(f, b0, ck)
        st = [(b0, p0 + 1, frozenset([r0]), f0, (b0,), None)]    # last: call that disposed of the value depending on its result
        seen = set()
        n = 0
        while st:
            b, p, al, facts, tr, pend = st.pop()
            n += 1
            if n > limit:
                return None
            if p == 0 or (p0 + 1 == 0 and b == b0):
                k = (b, al, facts, pend)
                if k in seen:
                    continue
                seen.add(k)
            done = False
            for I in f.blocks[b][p:]:
                if I.op == "phi":
                    continue
                if I.id in al:
                    al = al - {I.id}
                    if not al:
                        if pend is not None:
                            done = True
                            break
                        return I, tr
                if I.op in ("bitcast", "freeze") and s.exact(f, I.args[0]) in al:
                    al = al | {I.id}
                elif I.op == "select" and any(s.exact(f, a) in al for a in I.args[1:]):
                    al = al | {I.id}
                elif I.op == "store" and s.root(f, I.args[0]) in al and I.d.get("vt") == "ptr":
                    if s.note(I):
                        continue
                    done = True
                    break
                elif I.op == "ret":
                    if pend is not None:
                        done = True
                        break
                    if I.args and s.root(f, I.args[0]) in al:
                        if param:
                            return I, tr
                        done = True
                        break
                    return I, tr
                elif I.op == "unreachable":
                    done = True
                    break
                elif I.op == "call":
                    for k, a in enumerate(I.args):
                        if s.root(f, a) in al:
                            d = s.disp_call(I, k)
                            if d in ("free", "mayfree", "keep"):
                                if param and d != "free":
                                    continue
                                if not param and s.cond_call(I, k):
                                    pend = (I.id, k)
                                    continue
                                done = True
                                # realloc keeps the block alive on failure only; treated as release
                                break
                    if done:
                        break
            if done:
                continue
            for x in f.succ[b]:
                fs = s.edge_facts(f, b, x)
                if s.null_edge(f, fs, al) or s._drop is not None and (f.name, b, x) in s._drop:
                    continue
                np = pend
                if pend is not None:
                    C = f.byid[pend[0]]
                    kept = s.edge_kept(f, fs, C, s.cond_call(C, pend[1]))
                    if kept:
                        continue
                    if kept is False:
                        np = None
                nf = facts
                bad = False
                for q, l, r in fs:
                    kk = (repr(l), repr(r))
                    if kk in ck:
                        for (q2, k2) in facts:
                            if k2 == kk and contradict(q, q2):
                                bad = True
                        nf = nf | {(q, kk)}
                if bad:
                    continue
                na = set(al)
                add, drop = set(), set()
                for I in f.blocks[x]:
                    if I.op != "phi":
                        break
                    inc = [o for o, pb in I.d["in"] if pb == b]
                    if inc and s.exact(f, inc[0]) in al:
                        add.add(I.id)
                    else:
                        drop.add(I.id)
                na = (na - drop) | add
                if not na:
                    if np is not None:
                        continue
                    return f.blocks[x][0], tr + (x,)
                nf = s.step_facts(f, b, x, nf, ck)
                st.append((x, 0, frozenset(na), nf, tr + (x,), np))
        return None

    def leaks(s, f):
        """[(acquisition, leak point)] and number of acquisitions tracked"""
        out, n = [], 0
        for I in f.calls():
            if I.callee and s.fresh(I.callee):
                n += 1
                r = s.walk(f, I.b, I.pos, I.id)
                if r:
                    out.append((I, r[0]))
        return out, n

    # -- use after release ------------------------------------------------------
    @functools.cached_property
    def mods(s):
        """function -> slots it may store, transitively"""
        M = {f.name: set() for f in s.P.funcs.values()}
        for k, L in s.P.stores_to.items():
            for f, I, o in L:
                M[f.name].add(k)
        ch = True
        cg = {f.name: {c.callee for c in f.calls() if c.callee in M} for f in s.P.funcs.values()}
        while ch:
            ch = False
            for n in M:
                for c in cg[n]:
                    if not M[c] <= M[n]:
                        M[n] |= M[c]
                        ch = True
        return M

    def releases(s, f):
        for I in f.calls():
            for k, a in enumerate(I.args):
                d = s.disp_call(I, k)
                if d == "free" or d == "mayfree" and s.given(I, k):
                    yield I, k, a

    def uaf(s, f):
        """[(release, use)] and number of releases examined"""
        P, T = s.P, s.P.T[f.name]
        out, n = [], 0
        for I, k, a in s.releases(f):
            if a[0] == "null":
                continue
            r = s.exact(f, a)
            if r is None:
                continue
            n += 1
            J = f.byid.get(r) if not isinstance(r, tuple) else None
            addr = None
            if J is not None and J.op == "load":
                addr = P.term(J, J.args[0])
                if s.killed_between(f, J, I, addr):
                    addr = None
            u = s._uaf(f, I, r, addr)
            if u:
                out.append((I, u))
        return out, n

    def kills(s, addr, I):
        """may I change what the address expression addr denotes or holds?"""
        P = s.P
        slots = s.slots_in(addr)
        if I.op == "store":
            ta = P.term(I, I.args[1])
            return ta == addr or (slot_of(ta) in slots) or any(x == ta for x in subterms(addr))
        if I.op == "call":
            if I.callee is None:
                return True
            if I.callee in s.mods and slots & s.mods[I.callee]:
                return True
        return I.id is not None and I.op != "store" and mentions(addr, I.id)

    def slots_in(s, addr):
        r = {slot_of(addr)} | {slot_of(x[1]) for x in subterms(addr) if x[0] == "ld"}
        r.discard(None)
        return r

    def killed_between(s, f, J, I, addr):
        for K in f.insts():
            if K is not J and K is not I and s.kills(addr, K):
                if path_avoiding(f, J.b, J.pos, lambda X: X is K, lambda X: X is J or X is I) and \
                   path_avoiding(f, K.b, K.pos, lambda X: X is I, lambda X: X is J):
                    return True
        return False

    def _uaf(s, f, I0, r0, addr0, limit=4000):
        P = s.P
        ck = s.condkeys(f)
        st = [(I0.b, I0.pos + 1, frozenset([r0]), addr0, s.start_facts(f, I0.b, ck))]
        seen = set()
        n = 0
        while st:
            b, p, al, addr, facts = st.pop()
            n += 1
            if n > limit:
                return None
            if p == 0:
                kk = (b, al, repr(addr), facts)
                if kk in seen:
                    continue
                seen.add(kk)
            for I in f.blocks[b][p:]:
                if I.op == "phi":
                    continue
                if I.op == "load":
                    if s.root(f, I.args[0]) in al:
                        return I
                if I.id in al:
                    al = al - {I.id}
                if I.op == "load":
                    if addr is not None and I.ty == "ptr" and P.term(I, I.args[0]) == addr:
                        al = al | {I.id}
                elif I.op == "store":
                    if s.root(f, I.args[1]) in al:
                        return I
                elif I.op == "call":
                    for k, a in enumerate(I.args):
                        if s.root(f, a) in al:
                            if I is I0 and addr is None and False:
                                continue
                            return I
                if addr is not None and I.op != "load" and s.kills(addr, I):
                    addr = None
            if not al and addr is None:
                continue
            for x in f.succ[b]:
                fs = s.edge_facts(f, b, x)
                bad = False
                nf = facts
                for q, l, r in fs:
                    kk = (repr(l), repr(r))
                    if kk in ck:
                        for (q2, k2) in facts:
                            if k2 == kk and contradict(q, q2):
                                bad = True
                        nf = nf | {(q, kk)}
                if bad:
                    continue
                na, add, drop, ad = set(al), set(), set(), addr
                for I in f.blocks[x]:
                    if I.op != "phi":
                        break
                    inc = [o for o, pb in I.d["in"] if pb == b]
                    if inc and s.exact(f, inc[0]) in al:
                        add.add(I.id)
                    else:
                        drop.add(I.id)
                    if ad is not None and mentions(ad, I.id):
                        ad = None
                na = (na - drop) | add
                nf = s.step_facts(f, b, x, nf, ck)
                st.append((x, 0, frozenset(na), ad, nf))
        return None


def mentions(t, i):
    return any(x[0] in ("phi", "alloca") and x[1] == i or x[0] == "call" and x[2] == i for x in subterms(t))


def contradict(p, q):
    C = {"eq": {"ne", "slt", "sgt", "ult", "ugt"}, "ne": {"eq"}, "slt": {"eq", "sge", "sgt", "ugt"}, "sge": {"slt", "ult"}, "sgt": {"sle", "eq", "slt"},
         "sle": {"sgt"}, "ult": {"uge", "eq", "ugt"}, "uge": {"ult"}, "ugt": {"ule", "eq", "ult"}, "ule": {"ugt"}}
    return q in C.get(p, ())
