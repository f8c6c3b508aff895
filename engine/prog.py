"""The whole program: noreturn pruning, value flow (origins), path queries."""
import functools, collections
from ir import *
from terms import *
import terms

terms.PURE |= {"strlen", "getEntryMatrix", "getAdjustedReward"}


class Prog(Module):
    def __init__(s, d):
        super().__init__(d)
        s._prune_noreturn()
        s.T = {}
        for f in s.funcs.values():
            s.T[f.name] = T(f)
        s.mains = [n for n in ("main", "main_tools", "main_fg") if n in s.funcs]
        if len(s.mains) != 3:
            raise AnalysisBroken("expected the entry points of three programs, found %s" % s.mains)

    def _prune_noreturn(s):
        s.noreturn = {"exit", "abort", "_exit", "__assert_fail", "longjmp"}
        ch = True
        while ch:
            ch = False
            for f in s.funcs.values():
                if f.name in s.noreturn:
                    continue
                for bi, b in enumerate(f.blocks):
                    for k, I in enumerate(b):
                        if I.op == "call" and I.callee in s.noreturn and (k + 1 < len(b) and b[k + 1].op != "unreachable"):
                            del b[k + 1:]
                            J = Inst(f, bi, k + 1, {"o": "unreachable", "i": -1000 - bi, "l": I.d.get("l")} if "l" in I.d else {"o": "unreachable", "i": -1000 - bi})
                            b.append(J)
                            f.succ[bi] = []
                            ch = True
                            break
                # recompute reachability
                seen, st = set(), [0]
                while st:
                    v = st.pop()
                    if v in seen:
                        continue
                    seen.add(v)
                    st.extend(f.succ[v])
                for bi in range(len(f.blocks)):
                    if bi not in seen and f.blocks[bi]:
                        f.blocks[bi] = []
                        f.succ[bi] = []
                f.pred = [[] for _ in f.blocks]
                for i, ss in enumerate(f.succ):
                    for t in ss:
                        f.pred[t].append(i)
                if not any(b and b[-1].op == "ret" for b in f.blocks):
                    s.noreturn.add(f.name)
                    ch = True
        for f in s.funcs.values():
            f.byid = {}
            for b in f.blocks:
                for I in b:
                    f.byid[I.id] = I
                    if I.op == "phi":
                        I.d["in"] = [x for x in I.d["in"] if x[1] in f.pred[I.b]]

    @functools.cached_property
    def reachable(s):
        """functions reachable from the three entry points (address-taken ones included)"""
        return s.callgraph_reach(*s.mains)

    def term(s, I_or_f, o):
        f = I_or_f.f if isinstance(I_or_f, Inst) else I_or_f
        return s.T[f.name].ref(o)

    # -- all stores by field / global -------------------------------------
    @functools.cached_property
    def stores_to(s):
        """('fd',name) or ('g',name) or ('arrof', key) -> [(f, inst, value operand)]"""
        D = collections.defaultdict(list)
        for f in s.funcs.values():
            t = s.T[f.name]
            for I in f.insts():
                if I.op == "store":
                    a = t.ref(I.args[1])
                    k = slot_of(a)
                    if k:
                        D[k].append((f, I, I.args[0]))
        return D

    @functools.cached_property
    def returns(s):
        R = {}
        for f in s.funcs.values():
            R[f.name] = [b[-1] for b in f.blocks if b and b[-1].op == "ret" and b[-1].args]
        return R

    def global_init(s, name):
        g = s.globals.get(name)
        return g.get("init") if g else None

    def origins(s, f, t, I=None, depth=12, seen=None, stop=None):
        """Leaf terms a value can come from: [(func, term, inst)].
        Follows phis, selects, parameters (all callers), fields and globals (all stores), returns."""
        seen = set() if seen is None else seen
        k = (f.name, t)
        if k in seen or depth < 0:
            return []
        seen.add(k)
        if stop and stop(f, t, I):
            return [(f, t, I)]
        op = t[0]
        rec = lambda ff, tt, ii: s.origins(ff, tt, ii, depth - 1, seen, stop)
        if op == "phi":
            P = f.byid[t[1]]
            r = []
            for o, pb in P.d["in"]:
                r += rec(f, s.term(f, o), f.blocks[pb][-1] if f.blocks[pb] else I)
            return r
        if op == "sel":
            return rec(f, t[2], I) + rec(f, t[3], I)
        if op == "arg":
            cs = s.callers.get(f.name, [])
            if not cs:
                return [(f, t, I)]
            r = []
            for c in cs:
                if c.f.name not in s.reachable:
                    continue
                if t[1] < len(c.args):
                    r += rec(c.f, s.term(c, c.args[t[1]]), c)
            return r
        if op == "ld":
            a = t[1]
            if a[0] == "alloca":
                r = []
                for J in f.insts():
                    if J.op == "store" and s.term(J, J.args[1]) == a:
                        r += rec(f, s.term(J, J.args[0]), J)
                return r or [(f, t, I)]
            k = slot_of(a)
            if k:
                r = []
                if k[0] == "g":
                    ini = s.global_init(k[1])
                    if ini and ini[0] not in ("null", "zero", "undef"):
                        r.append((f, ("init", k[1]), None))
                for (ff, J, o) in s.stores_to.get(k, []):
                    if ff.name in s.reachable:
                        r += rec(ff, s.term(J, o), J)
                return r or [(f, t, I)]
        if op == "call":
            g = s.funcs.get(t[1])
            if g:
                r = []
                for R in s.returns[g.name]:
                    r += rec(g, s.term(g, R.args[0]), R)
                return r
        return [(f, t, I)]


def slot_of(a):
    """storage class of an address, flow-insensitive: field, global, or element of one"""
    if a[0] == "g":
        return ("g", a[1])
    if a[0] == "fd":
        return ("fd", a[2])
    if a[0] == "ix":
        b = a[1]
        if b[0] == "g":
            return ("el", ("g", b[1]))
        if b[0] == "fd":
            return ("el", ("fd", b[2]))
        if b[0] == "ld":
            k = slot_of(b[1])
            if k:
                return ("el*", k)
    return None


# --------------------------------------------------------------------------
# conditions
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def facts_of(f, Tf, o, truth, depth=0):
    """atomic comparisons implied by operand o being truth: [(pred, a, b)]"""
    t = Tf.ref(o) if isinstance(o, list) else o
    return term_facts(f, Tf, t, truth, depth)


def term_facts(f, Tf, t, truth, depth=0):
    if depth > 8:
        return []
    if isinstance(truth, tuple):
        if truth[0] == "case":
            return [("in", t, ("set", truth[1]))] + ([("eq", t, ("i", truth[1][0]))] if len(truth[1]) == 1 else [])
        return [("ne", t, ("i", v)) for v in truth[1]]
    if t[0] == "cmp":
        p, a, b = t[1], t[2], t[3]
        # (x cmp ..) != 0 where x itself is boolean
        if p in ("ne", "eq") and b == ("i", 0) and a[0] in ("cmp", "and", "or", "xor", "phi") and _isbool(f, a):
            return term_facts(f, Tf, a, truth if p == "ne" else not truth, depth + 1)
        if truth:
            return [(p, a, b)]
        if p in NEG:
            return [(NEG[p], a, b)]
        return [("!" + p, a, b)]
    if t[0] == "and" and truth and _isbool(f, t):
        return term_facts(f, Tf, t[1], True, depth + 1) + term_facts(f, Tf, t[2], True, depth + 1)
    if t[0] == "or" and not truth and _isbool(f, t):
        return term_facts(f, Tf, t[1], False, depth + 1) + term_facts(f, Tf, t[2], False, depth + 1)
    if t[0] == "xor" and len(t) == 3 and (t[1] == ("i", -1) or t[1] == ("i", 1) or t[2] in (("i", -1), ("i", 1))):
        x = t[2] if t[1][0] == "i" else t[1]
        return term_facts(f, Tf, x, not truth, depth + 1)
    if t[0] == "phi":
        # short-circuit phi: constants on some edges, a condition on the others
        P = f.byid[t[1]]
        cands = []
        for o, pb in P.d["in"]:
            if o[0] == "i":
                if bool(o[1]) == truth:
                    cands.append(("const", pb))
            else:
                cands.append((o, pb))
        if len(cands) == 1:
            o, pb = cands[0]
            r = []
            if o != "const":
                r += facts_of(f, Tf, o, truth, depth + 1)
            r += facts_at(f, Tf, pb, depth + 1)
            # edge pb -> P.b
            term = f.blocks[pb][-1]
            if term.op == "br" and len(term.d["s"]) == 2 and term.d["s"][0] != term.d["s"][1]:
                r += facts_of(f, Tf, term.args[0], term.d["s"][0] == P.b, depth + 1)
            return r
        return []
    return [("ne" if truth else "eq", t, ("i", 0))]


def _isbool(f, t):
    if t[0] == "cmp":
        return True
    if t[0] in ("and", "or", "xor"):
        return all(_isbool(f, x) or x in (("i", -1), ("i", 1), ("i", 0)) for x in t[1:])
    if t[0] == "phi":
        P = f.byid[t[1]]
        return P.ty == "i1"
    return False


def facts_at(f, Tf, b, depth=0):
    """comparisons known to hold whenever block b runs"""
    c = f.__dict__.setdefault("_facts", {})
    if b in c:
        return c[b]
    c[b] = []
    r = []
    for o, truth, br in f.conds_at(b):
        r += facts_of(f, Tf, o, truth, depth + 1)
    c[b] = r
    return r


def path_avoiding(f, start_block, start_pos, goal, avoid, edge_ok=None):
    """Is there a path from just after (start_block,start_pos) to an instruction satisfying goal that meets no
    instruction satisfying avoid?  Returns the goal instruction and the list of blocks, or None."""
    st = [(start_block, start_pos + 1, (start_block,))]
    seen = set()
    while st:
        b, p, tr = st.pop()
        stop = False
        for I in f.blocks[b][p:]:
            if goal(I):
                return I, tr
            if avoid(I):
                stop = True
                break
        if stop:
            continue
        for x in f.succ[b]:
            if edge_ok and not edge_ok(b, x):
                continue
            if x not in seen:
                seen.add(x)
                st.append((x, 0, tr + (x,)))
    return None
