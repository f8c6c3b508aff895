"""Where does a value that is null (or was never given a value) go?

A fact is ("v", id) or ("a", k): that SSA value is null / has no value; ("m", t): the memory at address term t holds null.
`fate` follows every path from a starting point under the facts and says whether all of them run into an instruction
that needs the value."""
from prog import *
from rules import *

NEEDS = {  # library routines that read or write through these arguments
    "strlen": (0,), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1),
    "fprintf": (0,), "fclose": (0,), "fgets": (0, 2), "fgetc": (0,), "getc": (0,), "fputs": (0, 1), "fputc": (1,), "putc": (1,), "fscanf": (0,), "__isoc99_fscanf": (0,),
    "atoi": (0,), "atof": (0,), "strtol": (0,), "strtod": (0,), "fread": (0, 3), "fwrite": (0, 3), "rewind": (0,), "memcpy": (0, 1), "strdup": (0,), "getcwd": (0,), "ungetc": (1,), "feof": (0,), "ferror": (0,), "llvm.memcpy.p0.p0.i64": (0, 1), "llvm.memset.p0.i64": (0,),
}
MAYBE = {"fopen", "getenv", "strchr", "strrchr", "strstr", "strtok", "fgets", "malloc", "calloc", "realloc", "popen", "tmpfile", "fdopen", "freopen"}


class Fate:
    def __init__(s, P):
        s.P = P
        s.sum = {}
        s._st = {}

    # slots a function may store to, itself or in what it calls
    def stored(s, fn):
        if fn in s._st:
            return s._st[fn]
        r = set()
        for g in s.P.callgraph_reach(fn):
            f = s.P.funcs.get(g)
            if f is None:
                continue
            T = s.P.T[g]
            for I in f.insts():
                if I.op == "store":
                    r.add(slot_of(T.ref(I.args[1])) or "?")
        s._st[fn] = r
        return r

    def base(s, f, o):
        """the pointer an address operand is computed from"""
        while True:
            if o[0] == "v":
                J = f.byid.get(o[1])
                if J is not None and J.op == "getelementptr":
                    o = J.args[0]
                    continue
                if J is not None and J.op in ("bitcast", "freeze"):
                    o = J.args[0]
                    continue
            if o[0] == "gep":
                o = o[1]
                if not isinstance(o, (list, tuple)):
                    return None
                continue
            return o

    def key(s, f, o):
        b = s.base(f, o)
        if b is None:
            return None
        return ("null",) if b[0] == "null" else tuple(b[:2])

    def needs(s, f, I, null=True):
        """operands whose null-ness makes instruction I fail"""
        if I.op == "load":
            return [I.args[0]]
        if I.op == "store":
            return [I.args[1]]
        if I.op == "call" and I.callee:
            if I.callee in NEEDS:
                return [I.args[k] for k in NEEDS[I.callee] if k < len(I.args)]
            if I.callee in s.P.funcs:
                return [a for k, a in enumerate(I.args) if s.must(I.callee, k)]
        return []

    def must(s, fn, k):
        """does fn fail whenever its parameter k is null?"""
        if (fn, k) in s.sum:
            return s.sum[fn, k]
        s.sum[fn, k] = False
        f = s.P.funcs[fn]
        if k >= len(f.params):
            return False
        u = [U for U in f.uses.get(k, [])]
        r = bool(u) and s.null(f, 0, 0, frozenset([("a", k)]), fatal=True) is not None
        s.sum[fn, k] = r
        return r

    def null(s, f, b, p, facts, fatal=False, src=None):
        """None if some path from (b,p) can end without needing one of the facts; else the first instruction that does"""
        T = s.P.T[f.name]
        st, seen, hit = [(b, p, facts, True)], set(), None
        steps = 0
        while st:
            b, p, F, first = st.pop()
            steps += 1
            if steps > 4000:
                return None
            done = False
            F = set(F)
            for I in f.blocks[b][p:]:
                if I.op == "phi":
                    continue
                if not first or I.id not in [x[1] for x in F if x[0] == "v"]:
                    F.discard(("v", I.id))
                for o in s.needs(f, I):
                    if s.key(f, o) in F:
                        hit = hit or I
                        done = True
                if done:
                    break
                if I.op == "ret":
                    return None
                if I.op == "unreachable":
                    if fatal:
                        hit = hit or I
                    done = True
                    break
                if I.op == "load":
                    if ("m", T.ref(I.args[0])) in F:
                        F.add(("v", I.id))
                elif I.op == "store":
                    a = T.ref(I.args[1])
                    sl = slot_of(a)
                    F = {x for x in F if x[0] != "m" or slot_of(x[1]) != sl and sl is not None}
                    k = s.key(f, I.args[0]) if I.d.get("vt") == "ptr" else None
                    if k in F and sl:
                        F.add(("m", a))
                elif I.op == "call" and any(x[0] == "m" for x in F):
                    if I.callee in s.P.funcs:
                        W = s.stored(I.callee)
                        F = {x for x in F if x[0] != "m" or slot_of(x[1]) not in W and "?" not in W}
                    elif I.callee is None:
                        F = {x for x in F if x[0] != "m"}
                if not F:
                    return None
            if done:
                continue
            t = f.blocks[b][-1]
            for n in f.succ[b]:
                if t.op == "br" and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
                    if s.clash(f, T, facts_of(f, T, t.args[0], t.d["s"][0] == n), F):
                        continue
                G = set()
                ph = [I for I in f.blocks[n] if I.op == "phi"]
                ids = {I.id for I in ph}
                for x in F:
                    if x[0] == "v" and x[1] in ids:
                        continue
                    if x[0] == "m" and any(y in ids for y in _phis(x[1])):
                        continue
                    G.add(x)
                for I in ph:
                    for o, u in I.d["in"]:
                        if u == b and (tuple(o[:2]) in F):
                            G.add(("v", I.id))
                if not G:
                    return None
                k = (n, frozenset(G))
                if k not in seen:
                    seen.add(k)
                    st.append((n, 0, G, False))
        return hit

    def clash(s, f, T, L, F):
        for p, a, b in L:
            if p in ("ne", "eq"):
                if b == ("null",) or b == ("i", 0):
                    x = a
                elif a == ("null",):
                    x = b
                else:
                    continue
                k = s.fact(x)
                if p == "ne" and k and k in F:
                    return True
        return False

    def fact(s, t):
        if t[0] == "arg":
            return ("a", t[1])
        if t[0] == "phi":
            return ("v", t[1])
        if t[0] == "call":
            return ("v", t[2])
        if t[0] == "ld":
            return ("m", t[1])
        return None


def _phis(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "phi":
            yield t[1]
        else:
            for x in t:
                yield from _phis(x)


# ---- values never set
def undef_fate(P, f, b, ids, first_exit=None, ret_counts=True):
    """every path from the start of block b meets an instruction using one of the values `ids`: the first one, or None.
    first_exit: a block that may not be entered from b (leaving a loop before its first round)"""
    st, seen, hit = [(b, frozenset(ids), True)], set(), None
    while st:
        b, F, first = st.pop()
        F = set(F)
        done = False
        for I in f.blocks[b]:
            if I.op == "phi":
                continue
            ops = list(I.args) + ([I.d["c"]] if I.op == "call" else [])
            if any(o[0] == "v" and o[1] in F for o in ops):
                if I.op == "ret" and not ret_counts:
                    return None
                hit = hit or I
                done = True
                break
            if I.op == "ret":
                return None
            if I.op == "unreachable":
                done = True
                break
            F.discard(I.id)
            if not F:
                return None
        if done:
            continue
        for n in f.succ[b]:
            if first and n == first_exit:
                continue
            ids = {I.id for I in f.blocks[n] if I.op == "phi"}
            G = {x for x in F if x not in ids}
            for I in f.blocks[n]:
                if I.op == "phi":
                    for o, u in I.d["in"]:
                        if u == b and o[0] == "v" and o[1] in F:
                            G.add(I.id)
            if not G:
                return None
            k = (n, frozenset(G))
            if k not in seen:
                seen.add(k)
                st.append((n, k[1], False))
    return hit


def result_used(P, fn):
    cs = [c for c in P.callers.get(fn, []) if c.f.name in P.reachable]
    return any(c.f.uses.get(c.id) for c in cs)


def unset_locals(P, f):
    """loads of an addressable scalar variable that nothing can have set before"""
    for A in f.insts():
        if A.op != "alloca" or A.d.get("at", A.d.get("ty", "")).startswith("["):
            continue
        # values that are the address of A
        al, work = {A.id}, [A]
        while work:
            J = work.pop()
            for U in f.uses.get(J.id, []):
                if U.op in ("getelementptr", "bitcast", "phi", "select") and U.id not in al:
                    al.add(U.id)
                    work.append(U)
        use = lambda o: o[0] == "v" and o[1] in al or o[0] == "gep" and isinstance(o[1], list) and o[1][0] == "v" and o[1][1] in al
        def sets(I):
            if I.op == "store":
                return use(I.args[1]) or use(I.args[0])
            return I.op == "call" and not (I.callee or "").startswith("llvm.lifetime") and not (I.callee or "").startswith("llvm.dbg") and any(use(a) for a in I.args)
        # blocks that may be reached after A was set
        st = [n for b in range(len(f.blocks)) if any(sets(I) for I in f.blocks[b]) for n in f.succ[b]]
        after = set()
        while st:
            n = st.pop()
            if n not in after:
                after.add(n)
                st.extend(f.succ[n])
        n = 0
        for b in range(len(f.blocks)):
            if b in after:
                continue
            for I in f.blocks[b]:
                if sets(I):
                    break
                if I.op == "load" and use(I.args[0]):
                    yield A, I
                    break
