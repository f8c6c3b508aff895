from flow0 import *
TITLE = "No value is read before it is set and no null pointer is followed"

# null only for an empty list, which the callers have excluded
EMPTY = {"dequeueAlphaNode": "gives null only for an empty list", "makeAlphaVector": "gives null only for a belief no vector covers, in code that needs CPLEX",
         "extractUnmarkedVector": "callers make sure there is an unmarked one", "extractAlphaNode": "gives null for a node not in the list; callers pass members", "searchAndAddBeliefStates": "null only for an empty list",
         "removebestVectorNode": "callers pass non-empty lists", "removeRowNode": "null is the empty row", "dtDeepCopyNode": "null is the empty tree", "duplicateAlpha": "null only for a missing vector", "duplicateBelief": "null only for a missing belief"}
# fields the maker leaves open: set by the step that first needs them
LATER = {
    "LpStruct.lpstat": "the answer of the solver, written by every solution attempt", "LpStruct.objval": "the answer of the solver, written by every solution attempt",
    "PgEvalContextStruct.zero_epsilon": "set when the context is first fitted to a controller", "PomdpSolveParamStruct.epsilon_diff_of_last_prune": "written by the pruning whose result it is",
    "SolutionStatsStruct.cur_context_start_time": "set when a context starts", "SolutionStatsStruct.epoch_start_time_system": "set when an epoch starts", "SolutionStatsStruct.epoch_start_time_user": "set when an epoch starts",
}


def memory(P, f, o):
    """does the value come straight from the system's allocator (running out of memory is not looked at)?"""
    if o[0] == "m":
        T = P.T[f.name]
        return any(I.op == "store" and T.ref(I.args[1]) == o[1] and memory(P, f, I.args[0]) for I in f.insts())
    J = f.byid.get(o[1]) if o[0] == "v" else None
    return J is not None and J.op == "call" and J.callee in ("malloc", "calloc", "realloc")


def files(f):
    return f.file.startswith("src/lp-solve") or f.file.startswith("src/laspack") or f.file.endswith("scanner.c")


def run(P, R):
    R.rule("unset", "no instruction uses a value, or reads a local variable, that no path has given a value", 1)
    R.rule("path-unset", "a variable given a value on some paths only is not used on the others", 1)
    R.rule("null", "where a pointer has been found (or set) to be null it is not followed, nor handed to a routine that follows it", 1)
    R.rule("maybe", "the result of a routine that answers with null when it finds or opens nothing is looked at before it is followed", 1)
    R.rule("fields", "a structure just obtained has every field that is ever read set before it is handed out", 1)
    for n, fl, ln in P.noret:
        R.bad("unset", n + ":result", "%s:%d (%s): a path ends without a result, which callers use" % (fl, ln, n))
    F = Fate(P)
    never_set(P, R, F)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f:
            continue
        unset(P, R, f)
        null(P, R, F, f)
        maybe(P, R, F, f)
        fields(P, R, f)


def unset(P, R, f):
    fn, bad, n = f.name, set(), 0
    for I in f.insts():
        if I.op == "phi":
            continue
        n += 1
        if any(a == ["undef"] for a in I.args):
            if I.op == "ret" and not result_used(P, fn):
                continue
            bad.add(I.id)
            R.bad("unset", "%s/%s" % (fn, I.callee or I.op), "%s: uses a value that was never set" % I.where(), I)
    for A, I in unset_locals(P, f):
        nm = (f.names.get(A.id) or ["a local variable"])[0]
        bad.add(I.id)
        R.bad("unset", "%s/%s" % (fn, nm), "%s: reads %s, which nothing can have set yet" % (I.where(), nm), I)
    R.hold("unset", f, n - len(bad))
    heads = {h for h, _ in f.loops} if isinstance(f.loops, list) else set(f.loops)
    for b in range(len(f.blocks)):
        ph = [I for I in f.blocks[b] if I.op == "phi"]
        for u in f.pred[b]:
            ids = [I.id for I in ph if any(o == ["undef"] and w == u for o, w in I.d["in"])]
            for x in ids:
                I = f.byid[x]
                out = None
                if b in heads:
                    L = f.loops[b]
                    o = [n for n in f.succ[b] if n not in L]
                    out = o[0] if len(o) == 1 and len(f.succ[b]) == 2 else None
                h = undef_fate(P, f, b, [x], out, result_used(P, fn))
                nm = (f.names.get(x) or ["a variable"])[0]
                if h is None:
                    R.hold("path-unset", I)
                else:
                    R.bad("path-unset", "%s/%s" % (fn, nm), "%s: uses %s, which a path reaching this point has not set" % (h.where(), nm), h)


def null(P, R, F, f):
    fn, T = f.name, P.T[f.name]
    for b in range(len(f.blocks)):
        if not f.blocks[b]:
            continue
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
            for k, n in enumerate(t.d["s"]):
                fs = set()
                for p, a, q in facts_of(f, T, t.args[0], k == 0):
                    if p == "eq" and ("null",) in (a, q):
                        x = F.fact(a if q == ("null",) else q)
                        if x and not memory(P, f, x):
                            fs.add(x)
                if not fs:
                    continue
                G = set(fs)
                for I in f.blocks[n]:
                    if I.op == "phi":
                        G.discard(("v", I.id))
                        for o, u in I.d["in"]:
                            if u == b and tuple(o[:2]) in fs:
                                G.add(("v", I.id))
                h = F.null(f, n, 0, frozenset(G)) if G else None
                if h is not None and not f.edge_dominates(b, n, h.b) and any(b in L and n not in L for L in f.loops.values()):
                    h = None
                report(R, "null", f, t, h, "found to be null")
    for I in f.insts():
        if I.op == "phi":
            for o, u in I.d["in"]:
                if o == ["null"]:
                    h = F.null(f, I.b, 0, frozenset([("v", I.id)]))
                    if f.file.endswith("scanner.c"):
                        h = None
                    report(R, "null", f, I, h, "set to null")
        elif I.op == "store" and I.args[0] == ["null"]:
            a = T.ref(I.args[1])
            if slot_of(a):
                h = F.null(f, I.b, f.blocks[I.b].index(I) + 1, frozenset([("m", a)]))
                report(R, "null", f, I, h, "set to null")
        if I.op in ("load", "store", "call"):
            for o in F.needs(f, I):
                if F.key(f, o) == ("null",):
                    R.bad("null", "%s/%s" % (fn, I.callee or I.op), "%s: follows a null pointer" % I.where(), I)


def never_set(P, R, F):
    """pointers of file or static scope that start out null and are given nothing anywhere are not followed"""
    used, given = {}, set()
    for f in P.funcs.values():
        for I in f.insts():
            ops = list(I.args) if I.op != "phi" else [x[0] for x in I.d["in"]]
            for k, o in enumerate(ops):
                if o[0] == "g":
                    if I.op == "load":
                        used.setdefault(o[1], []).append((f, I))
                    else:
                        given.add(o[1])
                elif o[0] not in ("v", "a", "i"):
                    given |= {n for n in used if n in repr(o)} | set(core_names(o))
    for n, g in sorted(P.globals.items()):
        if g.get("t") != "ptr" or g.get("init") not in (["null"], ["zero"]) or n in given or "lp-solve" in repr(g.get("l")) or "laspack" in repr(g.get("l")):
            continue
        for f, I in used.get(n, ()):
            if f.name not in P.reachable or files(f):
                continue
            for J in f.insts():
                if any(F.key(f, o) == ("v", I.id) for o in F.needs(f, J)) and not tested(P, f, I, J):
                    R.bad("null", "%s/%s" % (f.name, n.split(".")[-1]), "%s: follows %s, which is null: nothing ever sets it" % (J.where(), n.split(".")[-1]), J)
                    break
        R.hold("null")


def core_names(o):
    return [o[1]] if o and o[0] == "g" else [n for x in o if isinstance(x, (list, tuple)) for n in core_names(x)]


def tested(P, f, I, J):
    """is J reached only when the pointer read by I, or from the same place, was found not to be null?"""
    T = P.T[f.name]
    me = {T.ref(["v", I.id])}
    return any(p in ("ne", "ugt") and (("null",) in (a, b) or ("i", 0) in (a, b)) and me & {a, b} for p, a, b in facts_at(f, T, J.b))


def report(R, rule, f, I, h, what):
    if h is None:
        R.hold(rule, f)
    else:
        R.bad(rule, "%s/%s" % (f.name, h.callee or h.op), "%s: a pointer %s at %s is followed here%s" % (h.where(), what, I.where(), " by " + h.callee if h.callee else ""), h)


def gives_null(P, fn, depth=4):
    g = P.funcs.get(fn)
    if g is None:
        return fn in MAYBE and fn not in ("malloc", "calloc", "realloc")
    if fn in EMPTY:
        return False
    for r in P.returns[fn]:
        o = r.args[0]
        if o == ["null"]:
            return True
        if o[0] == "v" and g.byid[o[1]].op == "phi" and any(x == ["null"] for x, _ in g.byid[o[1]].d["in"]):
            return True
        if o[0] == "v" and depth and g.byid[o[1]].op == "call" and g.byid[o[1]].callee and gives_null(P, g.byid[o[1]].callee, depth - 1):
            return True
    return False


def maybe(P, R, F, f):
    if files(f):
        return
    for I in f.calls():
        c = I.callee
        if not c or c in ("malloc", "calloc", "realloc"):
            continue
        if c not in P.funcs and gives_null(P, c) or c in P.funcs and not files(P.funcs[c]) and gives_null(P, c):
            report(R, "maybe", f, I, F.null(f, I.b, f.blocks[I.b].index(I) + 1, frozenset([("v", I.id)])), "that may be null, from %s" % c)


def fields(P, R, f):
    T = P.T[f.name]
    if files(f):
        return
    rd = reads(P)
    for I in f.calls("XA_malloc", "malloc"):
        st = {}
        for U in f.uses.get(I.id, []):
            if U.op == "getelementptr" and U.d.get("st", "").startswith("%struct") and len(U.args) == 3 and U.args[1] == ["i", 0]:
                st.setdefault(U.d["st"], []).append(U)
        for k, L in st.items():
            nm = k.split(".")[1]
            for name in sorted(rd.get(nm, ())):
                key = nm + "." + name
                if key in LATER:
                    continue
                sets = lambda J: sets_field(P, f, J, I, nm, name)
                out = path_avoiding(f, I.b, f.blocks[I.b].index(I), lambda J: J.op == "ret" and gone(f, J, I), sets, lambda u, v: not null_edge(f, T, u, v, I))
                if out is None:
                    R.hold("fields", I)
                else:
                    R.bad("fields", "%s/%s" % (f.name, key), "%s: the %s obtained here is handed out without its field %s, which is read elsewhere, having been set" % (I.where(), nm, name), I)


def null_edge(f, T, u, v, I):
    t = f.blocks[u][-1]
    if t.op != "br" or len(t.d["s"]) != 2 or t.d["s"][0] == t.d["s"][1]:
        return False
    return any(p == "eq" and ("null",) in (a, b) and T.ref(["v", I.id]) in (a, b) for p, a, b in facts_of(f, T, t.args[0], t.d["s"][0] == v))


def gone(f, J, I):
    """does the object outlive the function? (it is returned, or its address was put somewhere)"""
    return True


_READS = {}


def reads(P):
    """structure -> names of the fields some reachable function reads"""
    if id(P) not in _READS:
        D = {}
        for fn in P.reachable:
            f = P.funcs.get(fn)
            if not f:
                continue
            for J in f.insts():
                if J.op == "load":
                    a = P.T[fn].ref(J.args[0])
                    if a[0] == "fd" and "." in a[2]:
                        s, n = a[2].split(".", 1)
                        D.setdefault(s, set()).add(n)
        _READS[id(P)] = D
    return _READS[id(P)]


def sets_field(P, f, J, I, nm, name, depth=3):
    T = P.T[f.name]
    if J.op == "store":
        a = T.ref(J.args[1])
        while a[0] == "ix":
            a = a[1]
        return a[0] == "fd" and a[2] == nm + "." + name
    if J.op == "call" and J.callee and J is not I:
        mine = [k for k, a in enumerate(J.args) if a == ["v", I.id]]
        if J.callee.startswith("llvm.mem") or J.callee in ("memset", "memcpy"):
            return 0 in mine
        g = P.funcs.get(J.callee)
        # a helper given the object, or the address of the field
        if g and depth:
            if mine and any(sets_field(P, g, K, I, nm, name, depth - 1) for K in g.insts()):
                return True
            for a in J.args:
                if a[0] in ("v", "gep"):
                    t = T.ref(a)
                    if t[0] == "fd" and t[2] == nm + "." + name:
                        return True
    return False
