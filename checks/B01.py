from strbound import *
TITLE = "Text copied into fixed-size storage is always bounded"

CONVMAX = {"d": 11, "i": 11, "u": 10, "x": 8, "c": 1, "p": 18, "ld": 20, "lu": 20, "f": 317, "lf": 317, "g": 24, "e": 24, "lg": 24, "le": 24}


def run(P, R):
    S = Strings(P)
    R.rule("copy", "every strcpy/strcat/sprintf/vsprintf/strncpy/fgets/memcpy into storage of known size is given text whose greatest length fits it", 20)
    R.rule("scan", "every %s/%[ conversion of scanf/fscanf/sscanf carries a field width smaller than the storage it writes", 1)
    R.rule("putc", "every character stored at a running position of a fixed-size text buffer is stored under a test of that position against the buffer size", 4)
    for fn in sorted(P.reachable):
        f = P.funcs.get(fn)
        if not f or f.file.startswith("src/lp-solve") or "scanner" in f.file or "bison" in f.file:
            continue
        if "/lp-solve/" in f.file or "/laspack/" in f.file:
            continue
        for I in f.calls():
            c = I.callee
            if c in ("strcpy", "strcat", "sprintf", "strncpy", "strncat", "snprintf", "fgets", "memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "gets", "vsprintf"):
                copy(P, S, R, f, I)
            elif c in ("scanf", "fscanf", "sscanf", "__isoc99_scanf", "__isoc99_fscanf", "__isoc99_sscanf"):
                scan(P, S, R, f, I)
        for I in f.insts():
            if I.op == "store" and I.d.get("vt") == "i8":
                putc(P, S, R, f, I)


def dest(P, S, f, t, I):
    return S.caps(f, t, I)


def args(P, I):
    return [P.term(I, a) for a in I.args]


def copy(P, S, R, f, I):
    a = args(P, I)
    c = I.callee
    d = a[0]
    app = c in ("strcat", "strncat")
    # buf + strlen(buf) is an append
    if d[0] == "ix" and d[2][0] != "i":
        i = d[2]
        if i == ("pure", "strlen", d[1]):
            app, d = True, d[1]
    caps = S.caps(f, d, I)
    if not caps:
        if c in ("llvm.memcpy.p0.p0.i64", "memcpy", "memmove"):
            return
        R.undecided("copy", "%s: %s into storage of unknown size %s" % (I.where(), c, show(d, f)))
        return
    # greatest text length
    if c in ("strcpy", "strcat"):
        n, why = S.maxlen(f, a[1], I)
        srct = a[1]
    elif c in ("sprintf", "vsprintf"):
        n, why = fmtlen(P, S, f, I, a, 1)
        srct = None
    elif c in ("snprintf", "fgets", "strncpy", "strncat"):
        szt = {"snprintf": a[1], "fgets": a[1], "strncpy": a[2], "strncat": a[2]}[c]
        v = const(szt)
        if v is None:
            srct = szt
            n, why = INF, "size argument %s" % show(szt, f)
            for cap, desc in caps:
                if isinstance(cap, tuple) and cap[0] == "size" and cap[2] == szt:
                    R.hold("copy", I)
                    return
            R.undecided("copy", "%s: %s with a computed size" % (I.where(), c))
            return
        n, why = v - (0 if c in ("strncpy", "strncat") else 1), "size argument"
        if c == "strncpy":
            n = v - 1   # at most v bytes are written
        srct = None
    elif c in ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64"):
        v = const(a[2])
        if v is None:
            for cap, desc in caps:
                if isinstance(cap, tuple) and cap[0] == "size" and cap[2] == a[2]:
                    R.hold("copy", I)
                    return
            lens = [x for x in subterms(a[2]) if x[0] == "pure" and x[1] == "strlen"]
            if not lens:
                return
            n = S.evalsize(f, a[2], I)
            n = INF if n is None else n - 1
            why = "computed length"
            srct = lens[0][2]
        else:
            n, why, srct = v - 1, "size argument", None
    else:
        n, why, srct = INF, "unbounded", None
    if app:
        prior = S.prior(f, I, d) if hasattr(S, "prior") else prior_len(P, S, f, I, d)
        if n < INF:
            n = n + prior
            why += " appended to up to %s characters" % prior
    for cap, desc in caps:
        if isinstance(cap, tuple):
            # heap block sized from the source text
            fd = fits_dynamic(P, S, f, cap, srct, I, a, c) if cap[0] == "size" else None
            if fd:
                R.hold("copy", I)
            elif fd is False:
                R.bad("copy", "%s/%s/%s" % (f.name, c, desc), "%s: %s copies %s into %s allocated with %s bytes, which leaves no room for the terminator" % (
                    I.where(), c, show(srct, f), desc, show(cap[2], f)), I)
            elif cap[0] == "size" and n < INF and (S.minsize(P.funcs[cap[1]], cap[2]) or 0) > n:
                R.hold("copy", I)
            elif n == INF and const_size(S, P, cap) is not None:
                R.bad("copy", "%s/%s/%s" % (f.name, c, desc), "%s: %s writes text of unbounded length (%s) into %s of %s bytes" % (
                    I.where(), c, why, desc, const_size(S, P, cap)), I)
            else:
                R.undecided("copy", "%s: %s into %s of computed size; text up to %s (%s)" % (I.where(), c, desc, n, why))
            continue
        if n + 1 <= cap:
            R.hold("copy", I)
        else:
            R.bad("copy", "%s/%s/%s" % (f.name, c, desc), "%s: %s writes text of up to %s characters (%s) into %s of %s bytes" % (
                I.where(), c, "unbounded" if n == INF else n, why, desc, cap), I)


def const_size(S, P, cap):
    """size of a heap block that is the same constant at every place it is allocated"""
    if any(x[0] == "pure" for x in subterms(cap[2])):
        return None
    return S.minsize(P.funcs[cap[1]], cap[2])


def fits_dynamic(P, S, f, cap, srct, I, a, c):
    """heap block of strlen(x)+k bytes, k >= 1, receiving x"""
    t = cap[2]
    def terms_(t):
        if t[0] == "add":
            return terms_(t[1]) + terms_(t[2])
        return [t]
    parts = terms_(t)
    k = sum(p[1] for p in parts if p[0] == "i")
    ls = [p[2] for p in parts if p[0] == "pure" and p[1] == "strlen"]
    if srct is not None and any(same(P, x, srct) for x in ls):
        return k >= 1
    return None


def same(P, x, y):
    return x == y


def prior_len(P, S, f, I, d):
    """longest text already in buffer d when the append I runs: sum over the writes that can precede it"""
    # walk backwards to the write that starts the text
    tot = 0
    best = None
    # forward must-order: find dominating initialising writes to d; collect appends between
    inits = [J for J in f.calls("strcpy", "sprintf", "strncpy", "snprintf", "fgets") if P.term(J, J.args[0]) == d and f.idominates(J, I)]
    apps = [J for J in f.calls("strcat", "strncat") if P.term(J, J.args[0]) == d and J is not I]
    if not inits:
        # str[0] = '\0'
        z = [J for J in f.insts() if J.op == "store" and J.d.get("vt") == "i8" and P.term(J, J.args[0]) == ("i", 0)
             and P.term(J, J.args[1]) in (d, ("ix", d, ("i", 0))) and f.idominates(J, I)]
        if not z:
            return INF
        base = 0
        init = z[-1]
    else:
        init = max(inits, key=lambda J: (len([K for K in inits if f.idominates(K, J)]), J.pos))
        a = args(P, init)
        if init.callee == "strcpy":
            base = S.maxlen(f, a[1], init)[0]
        elif init.callee == "sprintf":
            base = fmtlen(P, S, f, init, a, 1)[0]
        else:
            v = const(a[2] if init.callee == "strncpy" else a[1])
            base = INF if v is None else v - 1
    for J in apps:
        # can J run between init and I
        if path_avoiding(f, init.b, init.pos, lambda X: X is J, lambda X: X is I) and \
           path_avoiding(f, J.b, J.pos, lambda X: X is I, lambda X: X is init):
            if path_avoiding(f, J.b, J.pos, lambda X: X is J, lambda X: X is init):
                return INF
            base += S.maxlen(f, args(P, J)[1], J)[0]
    if path_avoiding(f, I.b, I.pos, lambda X: X is I, lambda X: X is init):
        return INF
    return base


def fmtlen(P, S, f, I, a, k):
    fmt = a[k]
    if fmt[0] != "str":
        return (INF, "computed format")
    n = 0
    why = []
    ai = k + 1
    for p in fmt_parts(fmt[1]):
        if p[0] == "lit":
            n += 1
            continue
        _, fl, w, pr, lm, cv = p
        if w == "*" or pr == "*":
            return (INF, "computed width")
        if cv == "s":
            m, y = S.maxlen(f, a[ai], I)
            if pr is not None:
                m = min(m, int(pr or 0))
            if m == INF:
                why.append(y)
        else:
            m = CONVMAX.get(lm + cv, CONVMAX.get(cv, 20))
            if cv == "f":
                m = 310 + int(pr if pr else 6)
        if w:
            m = max(m, int(w))
        n += m
        ai += 1
    return (n, "; ".join(why) or "format")


def scan(P, S, R, f, I):
    a = args(P, I)
    k = {"scanf": 0, "__isoc99_scanf": 0}.get(I.callee, 1)
    if a[k][0] != "str":
        return
    ai = k + 1
    for p in fmt_parts(a[k][1]):
        if p[0] == "lit":
            continue
        _, fl, w, pr, lm, cv = p
        star = "*" == w
        if star:
            continue
        if cv == "s" or cv[0] == "[":
            for cap, desc in S.caps(f, a[ai], I):
                if not isinstance(cap, (int, float)):
                    R.undecided("scan", I.where())
                elif w and int(w) + 1 <= cap:
                    R.hold("scan", I)
                else:
                    # sscanf of a bounded source into storage as large
                    if I.callee.endswith("sscanf"):
                        n, _ = S.maxlen(f, a[0], I)
                        if n + 1 <= cap:
                            R.hold("scan", I)
                            continue
                    R.bad("scan", "%s/%s" % (f.name, desc), "%s: %s with format %r can write past %s of %s bytes" % (I.where(), I.callee, a[k][1], desc, cap), I)
        ai += 1


def putc(P, S, R, f, I):
    a = P.term(I, I.args[1])
    if a[0] != "ix" or a[2][0] == "i":
        return
    base, idx = a[1], a[2]
    caps = [(c, d) for c, d in S.caps(f, base, I) if isinstance(c, (int, float))]
    if not caps:
        return
    v = P.term(I, I.args[0])
    ub = upper(P, S, f, idx, I)
    for cap, desc in caps:
        if ub is not None and ub < cap:
            R.hold("putc", I)
        elif ub is None and overwrites(P, f, base, idx, I):
            R.hold("putc", I)
        elif ub is None and idx[0] not in ("phi", "add", "ld"):
            R.undecided("putc", "%s: position %s" % (I.where(), show(idx, f)))
        else:
            R.bad("putc", "%s/%s" % (f.name, desc), "%s: character stored at position %s of %s (%s bytes) without a test of the position against its size" % (I.where(), show(idx, f), desc, cap), I)


def overwrites(P, f, base, idx, I):
    """the position holds an element of the text already in the buffer (it was read there)"""
    for J in f.insts():
        if J.op == "load" and P.term(J, J.args[0]) == ("ix", base, idx) and J.ty == "i8":
            if f.idominates(J, I):
                return True
    return False


def upper(P, S, f, t, I, depth=6):
    """constant upper bound of an index at I"""
    c = const(t)
    if c is not None:
        return c
    best = None
    for fact in facts_at(f, P.T[f.name], I.b):
        if len(fact) != 3 or fact[0].startswith("!"):
            continue
        p, a, b = fact
        if p not in SWAP:
            continue
        for p_, a_, b_ in ((p, a, b), (SWAP[p], b, a)):
            if a_ == t:
                n = S.evalsize(f, b_, I)
                if n is None:
                    continue
                v = {"slt": n - 1, "ult": n - 1, "sle": n, "ule": n, "eq": n}.get(p_)
                if v is not None:
                    best = v if best is None else min(best, v)
    if best is not None or depth < 0:
        return best
    if t[0] == "add":
        x, y = upper(P, S, f, t[1], I, depth - 1), upper(P, S, f, t[2], I, depth - 1)
        return None if x is None or y is None else x + y
    if t[0] == "sub":
        x = upper(P, S, f, t[1], I, depth - 1)
        y = const(t[2])
        return None if x is None or y is None else x - y
    if t[0] == "pure" and t[1] == "strlen":
        n = S.maxlen(f, t[2], I)[0]
        return n if n < INF else None
    if t[0] == "phi":
        # value of a counter: bounded if every value that can enter it is, and it is stepped up only under a bound
        group, leaves, st = set(), [], [t]
        while st:
            x = st.pop()
            if x in group:
                continue
            group.add(x)
            for o, pb in f.byid[x[1]].d["in"]:
                y = P.term(f, o)
                if y[0] == "phi":
                    st.append(y)
                else:
                    leaves.append((y, pb))
        worst = None
        for x, pb in leaves:
            inc = None
            if x[0] == "add":
                inc = x[1] if x[2] in group else x[2] if x[1] in group else None
            if inc is not None:
                if inc[0] != "i":
                    return None
                if inc[1] <= 0:
                    continue
                b = None
                for J in f.insts():
                    if J.op == "add" and P.T[f.name].val(J.id) == x:
                        for fact in facts_at(f, P.T[f.name], J.b):
                            p, a_, b_ = fact
                            for q, l, r in ((p, a_, b_), (SWAP.get(p), b_, a_)):
                                if l in group and q in ("slt", "ult", "sle", "ule"):
                                    n = S.evalsize(f, r, I)
                                    if n is not None:
                                        v = n - 1 if q in ("slt", "ult") else n
                                        b = v if b is None else min(b, v)
                if b is not None:
                    b += inc[1]
            else:
                b = upper(P, S, f, x, f.blocks[pb][-1], depth - 1)
            if b is None:
                return None
            worst = b if worst is None else max(worst, b)
        return worst
    return None
