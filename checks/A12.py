"""The solution process: set-up, one full backup an epoch, and what is saved."""
import core, step
from spec import *
from step import evs_same, in_order, first_ev, bools, before, loop_with
from A13 import struct_field, enum_of

TITLE = "each epoch is one full backup, and its result is kept, numbered and saved"
PR = "PomdpSolveParamStruct."
OP = "PomdpSolveProgOptionsStruct."
LT = "AlphaListType."
M = "POMDP_SOLVE_OPTS_Method_"


def run(Pg, R):
    R.rule("setup", "the model is read, the discount overridden, files are named after the prefix, the method is made ready", 1)
    R.rule("start", "value iteration starts from the terminal values given, or from zero", 1)
    R.rule("epoch", "one epoch backs up the last result once, measures the change, and saves the sorted result", 1)
    R.rule("stop", "it goes on until stopped, the criterion is met or the horizon is reached", 1)
    R.rule("backup", "a backup builds all projections, purges them, and uses the method chosen for every action", 1)
    R.rule("saved", "solutions are written with their true values to the files named, with the policy graph", 1)
    setup(Pg, R)
    epoch(Pg, R)
    backup(Pg, R)
    saved(Pg, R)


def methods(Pg):
    return {m: enum_of(Pg, M + m) for m in "enum twopass witness incprune grid linsup mcgs".split()}


def total(F, name, n=None, s=None):
    """calls with arguments and conditions"""
    t = ZERO
    for e in (s or F.K).events:
        if e.name == name:
            x = tok_cases(name, e.args[:n] if n is not None else e.args, e.guard)
            for v, d in reversed(e.vd):
                x = mk_sum(v, d, x)
            t = t + x
    return t


def field_file(F, e, k):
    """the parameter whose text is an argument"""
    return struct_field(F, e.args[k])


# ------------------------------------------------------------------ one epoch

def epoch(Pg, R):
    r = "epoch"
    F = get(Pg, R, r, "solvePomdp")
    s = loop_with(Pg, R, r, "solvePomdp", ("improveV",)) if F else None
    if not s:
        return
    prm = F.arg(0)
    im, st, ms = (first_ev(s, n) for n in ("improveV", "startViEpoch", "meetStopCriteria"))
    if not im or not im.res or not ms or not ms.res:
        return R.undecided(r, "solvePomdp: backup or stop test not recognised")
    new = im.res
    # state: the last result, the one before it, and whether it is over
    cur = [i for i in s.vars if s.nexts[i] == new]
    if len(cur) != 1:
        late = [i for i in s.vars if s.vars[i] == im.args[0]]
        if len(late) == 1 and not has_unknown(s.nexts[late[0]]):
            R.bad(r, "solvePomdp:next", "%s: the next epoch does not start from the result of this one" % im.ins.where())
        else:
            R.undecided(r, "solvePomdp: result not recognised")
        return
    C = s.vars[cur[0]]
    flags = [i for i in s.vars if i != cur[0] and s.inits[i].const() is not None and s.nexts[i] != C]
    done = {aid(s.vars[i].atom()): s.inits[i] for i in flags if step.depends(s.cont * (ONE - s.leave), s.vars[i]) or any(step.depends(e.guard, s.vars[i]) for e in s.events)}
    prev = [i for i in s.vars if s.nexts[i] == C]
    if len(done) > 1:
        return R.undecided(r, "solvePomdp: state not recognised")
    # within an iteration nothing is over yet
    run_ = eq0(g("gInterrupt"))
    live = {aid(run_.atom()): ONE}
    live.update(done)
    N = lambda p: subst(p, live)
    met_r = ms.res

    same(R, "start", F, "first", s.inits[cur[0]], [init_list(F, prm)], "what value iteration starts from")
    once = lambda n: sum((N(e.guard) for e in s.events if e.name == n), ZERO)
    for n, what in (("improveV", "one backup an epoch"), ("startViEpoch", "the epoch is counted"), ("meetStopCriteria", "the change is measured"), ("epochStartStats", "the epoch is announced"), ("epochEndStats", "the epoch is reported"), ("clearObsSourceAlphaList", "links into the list before are dropped")):
        same(R, r, F, n, once(n), ONE, what)
    same(R, r, F, "backup", tok("improveV", *im.args), tok("improveV", C, prm), "the last result is backed up")
    same(R, r, F, "change", tok("stop", ms.args[0], ms.args[1], ms.args[3]), tok("stop", C, new, prm), "the change from the last result to the new one")
    cl = first_ev(s, "clearObsSourceAlphaList")
    if cl:
        same(R, r, F, "links", tok("clear", *cl.args), tok("clear", C), "links of the last result into the one before are dropped")
    for i in prev[:1]:
        p = s.vars[i]
        got = N(total(F, "destroyAlphaList", 1, s))
        same(R, r, F, "freed", got, [(ONE - eq0(p)) * tok("destroyAlphaList", p), tok("destroyAlphaList", p)], "only the list before the last one is released")
        same(R, r, F, "none", s.inits[i], ZERO, "there is no list before the first")
        if cl:
            in_order(R, r, F, s, "clearObsSourceAlphaList", "destroyAlphaList")
    u = ("fd", PR + "update_count")
    ZL = enum_of(Pg, "ZlzSpeedup")
    zq = eq0(fld(prm, PR + "vi_variation") - ZL) if ZL is not None else None
    # the speed-up keeps its own count
    nozl = lambda p: subst(p, {aid(zq.atom()): ZERO}) if zq is not None and zq.atom() else p
    same(R, r, F, "updates", nozl(N(s.final(u, prm))), fld(prm, PR + "update_count") + 1, "the number of updates")
    # saving
    pen = [e for e in s.events if e.name == "saveAlphaList" and field_file(F, e, 1) == "penultimate_filename"]
    bak = [e for e in s.events if e.name == "saveAlphaList" and field_file(F, e, 1) == "backup_file"]
    oth = [e for e in s.events if e.name == "saveAlphaList" and e not in pen and e not in bak]
    for e in oth:
        f = field_file(F, e, 1)
        if f:
            R.bad(r, "solvePomdp:file:%s" % f, "%s: an intermediate result is written to %s" % (e.ins.where(), f))
        else:
            R.undecided(r, "solvePomdp: file of a saved list not recognised")
    yes = eq0(fld(fld(prm, PR + "opts"), OP + "save_penultimate") - 1)
    later = ONE - lt0(fld(prm, PR + "cur_epoch") - 1, "i")
    later2 = ONE - eq0(fld(prm, PR + "cur_epoch"))
    same(R, r, F, "penultimate", sum((tok_cases("save", e.args[:1], N(e.guard)) for e in pen), ZERO), [yes * later * tok("save", C), yes * later2 * tok("save", C), truth_of(yes) * later * tok("save", C)], "the result before the last is saved when asked for")
    for e in pen:
        if st:
            in_order(R, r, F, s, e, st)
    same(R, r, F, "saved", sum((tok_cases("save", e.args[:1], N(e.guard)) for e in bak), ZERO), tok("save", new), "every epoch's result is saved")
    srt = [e for e in s.events if e.name == "sortAlphaList"]
    sv = [e for e in s.events if e.name == "handleSaveAll"]
    zl = [e for e in s.events if e.name == "ZLZ_ViSpeedup"]
    always = [e for e in srt if N(e.guard) == ONE and e.args[0] == new]
    last_change = [s.events.index(e) for e in zl] or [0]
    if bak:
        k = s.events.index(bak[0])
        ok = any(max(last_change) < s.events.index(e) < k for e in always)
        if ok or not [e for e in srt if e not in always and s.events.index(e) < k and not N(e.guard) == eq0(fld(prm, PR + "save_all") - 1)]:
            R.check(r, ok, "solvePomdp:sorted", "%s: the result is saved and kept without being sorted and numbered" % bak[0].ins.where())
        else:
            R.undecided(r, "solvePomdp: sorting not recognised")
    al = eq0(fld(prm, PR + "save_all") - 1)
    same(R, r, F, "all", sum((tok_cases("all", e.args[:2], N(e.guard)) for e in sv), ZERO), [al * tok("all", new, prm), (ONE - eq0(fld(prm, PR + "save_all"))) * tok("all", new, prm)], "every epoch's result goes to its own files when asked for")
    for e in sv:
        bf = [x for x in srt if x.args[0] == new and s.events.index(x) < s.events.index(e)]
        R.check(r, any((N(e.guard) - N(e.guard) * N(x.guard)) == ZERO for x in bf), "solvePomdp:all-sorted", "%s: an epoch's files are written before the result is sorted and numbered" % e.ins.where()) if not bf or all((N(e.guard) * N(x.guard)).m for x in bf) else R.undecided(r, "solvePomdp: sorting before saving not recognised")
    if ZL is not None:
        z = eq0(fld(prm, PR + "vi_variation") - ZL)
        got = both(sum((tok_cases("zlz", (e.args[0], e.args[2]), N(e.guard)) for e in zl), ZERO), met_r)
        same(R, r, F, "speedup", got, both(eq0(met_r) * z * tok("zlz", new, prm), met_r), "the speed-up is applied while the criterion is not met")
    err = [e.args[2] for e in s.events if e.name == "epochEndStats"] + [e.args[1] for e in zl]
    for e in [x for x in s.events if x.name in ("epochEndStats", "ZLZ_ViSpeedup")]:
        x = e.args[2] if e.name == "epochEndStats" else e.args[1]
        a = x.atom()
        if a and a[0] == "out" and a[1] == "meetStopCriteria":
            R.hold(r)
        elif x.const() is not None or not [q for y in x.atoms() for q in poly._all_ids(y) if ALIST[q][0] in ("out", "unk", "ev")]:
            R.bad(r, "solvePomdp:error", "%s: the error passed to %s is not the one measured" % (e.ins.where(), e.name))
        else:
            R.undecided(r, "solvePomdp: error passed to %s not recognised" % e.name)
    for e in [x for x in s.events if x.name == "epochEndStats"]:
        sz = lambda p: rewrite(p, "size", lambda t: t[0] in ("out", "rd") and t[-2] == ("fd", LT + "length"), lambda t: call("size", *t[-1]))
        a = sz(e.args[1]) if zq is None else subst(sz(e.args[1]), {aid(zq.atom()): ZERO})
        same(R, r, F, "size", a, [call("size", new), call("sizeAlphaList", new)], "the size reported is that of the result")
    for a, b in (("improveV", "meetStopCriteria"), ("startViEpoch", "improveV"), ("clearObsSourceAlphaList", "improveV"), ("epochStartStats", "improveV"), ("improveV", "epochEndStats"), ("meetStopCriteria", "ZLZ_ViSpeedup"), ("handleSaveAll", "ZLZ_ViSpeedup"), ("improveV", "saveAlphaList:bak")):
        if ":" in b:
            for e in bak:
                in_order(R, r, F, s, a, e)
        else:
            in_order(R, r, F, s, a, b)
    # going on
    nx = {}
    for k, v in done.items():
        i = [j for j in flags if aid(s.vars[j].atom()) == k][0]
        nx[k] = s.nexts[i]
    cont = s.cont * (ONE - s.leave)
    hor = lambda p: rewrite(p, "epoch", lambda t: t[0] == "out" and t[-2] == ("fd", PR + "cur_epoch"), lambda t: A("rd", t[-2], t[-1]))
    here = subst(cont, done)
    nextgo = subst(cont, nx) if nx else ONE
    go = hor(both(bit(N(here) * N(subst(nextgo, done))), met_r))
    want = both(eq0(met_r) * (ONE - eq0(fld(prm, PR + "cur_epoch") - fld(prm, PR + "horizon"))), met_r)
    same(R, "stop", F, "on", go, want, "goes on")
    stopped = subst(subst(cont, done), {aid(run_.atom()): ZERO})
    same(R, "stop", F, "interrupt", bit(stopped) if not nx else bit(stopped * ONE), ZERO, "an interrupt ends it") if step_dep(cont, run_) else R.bad("stop", "solvePomdp:interrupt", "%s: an interrupt does not end value iteration" % im.ins.where())
    ev = [e for e in s.events if e.name == "endViEpoch"]
    got = hor(both(sum((bit(N(e.guard)) for e in ev), ZERO), met_r))
    same(R, "stop", F, "adapt", got, [want, ONE], "the tolerance is adapted before the next epoch")
    # afterwards
    o = step.Outside(F, s)
    en = [e for e in o.events if e.name == "endPomdpSolve"]
    last = {aid(s.vars[i].atom()): i for i in s.vars}
    if len(en) == 1:
        if always_runs(F, en[0].ins) or after(en[0].guard) == ONE:
            R.check("saved", en[0].args[0] == prm, "solvePomdp:end", "%s: the solution is written for other parameters" % en[0].ins.where())
        elif has_unknown(en[0].guard) or [q for a in en[0].guard.atoms() for q in poly._all_ids(a) if ALIST[q][0] in ("lv", "any")]:
            R.undecided("saved", "solvePomdp: condition for writing the solution not recognised")
        else:
            R.bad("saved", "solvePomdp:end", "%s: the solution is not always written" % en[0].ins.where())
        w = which(F, s, en[0], 1)
        if w is not None:
            R.check("saved", w == cur[0], "solvePomdp:last", "%s: the list written as solution is not the last result" % en[0].ins.where())
        else:
            R.undecided("saved", "solvePomdp: list written not recognised")
        rm = [e for e in o.events if e.name == "removeFile"]
        for e in rm:
            R.check("saved", field_file(F, e, 0) in ("backup_file", None), "solvePomdp:removed", "%s: %s is removed" % (e.ins.where(), field_file(F, e, 0)))
            in_order(R, "saved", F, o, "endPomdpSolve", "removeFile")
        in_order(R, "saved", F, o, "endPomdpSolve", "destroyAlphaList")
        w = en[0].args[1]
        ds = [e for e in o.events if e.name == "destroyAlphaList"]
        if w.atom() and len(ds) == 2 and ds[0].args[0] != ds[1].args[0]:
            R.check("saved", any(e.args[0] == w for e in ds), "solvePomdp:solution", "%s: the list written as solution is not the last one" % en[0].ins.where())
            pv = [e for e in ds if e.args[0] != w]
            t = w.atom()
    elif not en:
        R.bad("saved", "solvePomdp:end", "%s: the solution is not written" % F.f.file)
    else:
        R.undecided("saved", "solvePomdp: end not recognised")
    first = [e for e in o.events if e.name == "handleSaveAll"]
    if first:
        same(R, "saved", F, "names", sum((tok_cases("all", e.args[:2], e.guard) for e in first), ZERO), [al * tok("all", 0, prm), (ONE - eq0(fld(prm, PR + "save_all"))) * tok("all", 0, prm), tok("all", 0, prm)], "files of the epochs are named after the parameters")
    else:
        R.bad("saved", "solvePomdp:names", "%s: the files of the epochs are not named" % F.f.file)
    z = [x for x in F.K.log if x.kind != "havoc" and x.region == ("fd", PR + "cur_epoch")]
    if z:
        R.check(r, all(x.val == ZERO for x in z), "solvePomdp:count", "%s: the first epoch is not epoch 1" % z[0].ins.where())


def after(p):
    """a condition once the loop is over"""
    return subst(p, {q: ONE for q in p.atoms() if ALIST[q][0] == "any"})


def always_runs(F, ins):
    """every way to return goes through this call"""
    f = F.f
    if ins.f is not f:
        return False
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen or b == ins.b:
            continue
        seen.add(b)
        if f.blocks[b][-1].op == "ret":
            return False
        todo.extend(f.succ[b])
    return True


def which(F, s, e, k):
    """the loop variable an argument of a call after the loop is the last value of"""
    f = F.f
    if e.ins.f is not f:
        return None
    defs = {I.id: I for b in f.blocks for I in b if I.id is not None}

    def of(o, n=0):
        if not o or o[0] != "v" or n > 8:
            return None
        if o[1] in s.vars:
            return o[1]
        for i in s.vars:
            # what the state is about to become
            if ["v", o[1]] in [x for x, u in defs[i].d["in"] if u in s.body]:
                return i
        I = defs.get(o[1])
        if I is None or I.op != "phi":
            return None
        r = {of(x, n + 1) for x, u in I.d["in"]}
        return r.pop() if len(r) == 1 else None
    return of(e.ins.args[k]) if k < len(e.ins.args) else None


def step_dep(p, x):
    a = aid(x.atom())
    return any(a in poly._all_ids(q) for q in p.atoms())


def truth_of(p):
    return p


def bit(p):
    """[1 - x = 0] and [x = 0] of a truth value are x and 1 - x"""
    def one(t):
        q = t[1]
        if is_bit(q):
            return ONE - q
        if is_bit(ONE - q):
            return q
        return A(*t)
    return rewrite(p, "bit", lambda t: t[0] == "eq0" and (is_bit(t[1]) or is_bit(ONE - t[1])), one)


def is_bit(q):
    """a polynomial over truth values that is itself one"""
    at = {a for k in q.m for a, _ in k}
    if not at or len(at) > 6 or any(ALIST[a][0] not in ("eq0", "lt0", "le0", "any") for a in at):
        return False
    at = sorted(at)
    for k in range(2 ** len(at)):
        c = subst(q, {a: P((k >> i) & 1) for i, a in enumerate(at)}).const()
        if c not in (0, 1):
            return False
    return True


def both(p, x):
    """the result of a test is TRUE or FALSE: [x = 1] is 1 - [x = 0]"""
    z, o = eq0(x), eq0(x - 1)
    m = {}
    if o.atom():
        m[aid(o.atom())] = ONE - z
    return subst(p, m)


def init_list(F, prm):
    ip = fld(prm, PR + "initial_policy")
    d, c = F.events("getDefaultInitialPolicy"), F.events("duplicateAlphaList")
    a = d[0].res if len(d) == 1 and d[0].res else call("getDefaultInitialPolicy")
    b = c[0].res if len(c) == 1 and c[0].res and c[0].args[0] == ip else call("duplicateAlphaList", ip)
    return eq0(ip) * a + (ONE - eq0(ip)) * b


# ------------------------------------------------------------------ backup

def backup(Pg, R):
    r = "backup"
    F = get(Pg, R, r, "improveV")
    ms = methods(Pg)
    if F:
        prev, prm = F.arg(0), F.arg(1)
        me = fld(fld(prm, PR + "opts"), OP + "method")
        mk = F.events("makeAllProjections")
        if len(mk) == 1 and mk[0].res:
            pj = mk[0].res
            same(R, r, F, "projections", total(F, "makeAllProjections"), tok("makeAllProjections", prev), "projections of the last result")
            same(R, r, F, "purged", total(F, "purgeProjections", 2), tok("purgeProjections", pj, prm), "projections are purged")
            fn = {"enum": "improveEnumeration", "twopass": "improveByQ", "witness": "improveByQ", "incprune": "improveByQ", "grid": "improveFiniteGrid"}
            for m, f in sorted(fn.items()):
                if ms[m] is None:
                    continue
                e = F.events(f)
                got = sum((tok_cases(n, x.args[:2], when(x.guard, me, ms[m])) for n in sorted(set(fn.values()) | {"improveLinSupport", "MCGS_improve"}) for x in F.events(n)), ZERO)
                same(R, r, F, m, got, tok(f, pj, prm), "method %s" % m)
                if len(e) == 1 and e[0].res:
                    same(R, r, F, m + ":ret", when(F.ret, me, ms[m]), e[0].res, "result of method %s" % m)
                    same(R, r, F, m + ":links", sum((tok_cases("relink", [when(a, me, ms[m]) for a in x.args[:1]], when(x.guard, me, ms[m])) for x in F.events("relinkObsSources")), ZERO), tok("relink", e[0].res), "choices lead to the last result")
                same(R, r, F, m + ":freed", sum((tok_cases("free", x.args[:1], when(x.guard, me, ms[m])) for x in F.events("freeAllProjections")), ZERO), tok("free", pj), "projections are released")
            for a in sorted(set(fn.values())):
                in_order(R, r, F, F.K, "purgeProjections", a)
                in_order(R, r, F, F.K, a, "relinkObsSources")
            in_order(R, r, F, F.K, "relinkObsSources", "freeAllProjections")
        else:
            R.undecided(r, "improveV: projections not recognised")
    F = get(Pg, R, r, "improveByQ")
    if F:
        pj, prm = F.arg(0), F.arg(1)
        me = fld(fld(prm, PR + "opts"), OP + "method")
        fn = {"twopass": "improveTwoPass", "witness": "improveWitness", "incprune": "improveIncPrune"}
        out = F.ret
        for m, f in sorted(fn.items()):
            if ms[m] is None:
                continue
            got = ZERO
            for n in sorted(fn.values()):
                for x in F.events(n):
                    t = tok_cases(n, x.args[:2], when(x.guard, me, ms[m]))
                    for v, d in reversed(x.vd):
                        t = mk_sum(v, d, t)
                    got = got + t
            same(R, r, F, m, got, SUM(A_, lambda a: tok(f, el(pj, a), prm)), "method %s for every action" % m)
            us = F.events("unionTwoAlphaLists")
            ev = F.events(f)
            if len(us) == 1 and len(ev) == 1 and ev[0].res and len(us[0].vd) == 1 and len(ev[0].vd) == 1:
                v = us[0].vd[0][0]
                q = when(us[0].args[1], me, ms[m])
                # the list made for this action in the same round
                a_ = q.atom()
                ok = a_ and a_[0] == "new" and a_[1] == f
                w = when(us[0].guard, me, ms[m])
                same(R, r, F, m + ":union", w * tok("into", us[0].args[0]), tok("into", out), "vectors of every action are taken")
                if a_ and a_[0] == "new":
                    R.check(r, ok, "improveByQ:%s:list" % m, "%s: the vectors taken for an action are not those of method %s" % (us[0].ins.where(), m))
                else:
                    R.undecided(r, "improveByQ: list of method %s not recognised" % m)
                same(R, r, F, m + ":actions", mk_sum(v, us[0].vd[0][1], w), g("gNumActions"), "vectors of all actions are taken")
            else:
                R.undecided(r, "improveByQ: union not recognised")
        same(R, r, F, "purge", total(F, "purgeAlphaList", 3), tok("purgeAlphaList", out, fld(prm, PR + "q_purge_option"), prm), "the union is purged as asked for")
        nl = F.events("newAlphaList")
        if len(nl) == 1 and nl[0].res:
            same(R, r, F, "ret", out, nl[0].res, "result")
        in_order(R, r, F, F.K, "unionTwoAlphaLists", "purgeAlphaList")
    F = get(Pg, R, "start", "getDefaultInitialPolicy")
    if F:
        r = "start"
        ap = F.events("appendNodeToAlphaList", "prependNodeToAlphaList")
        nd, al = F.events("newAlphaNode"), F.events("newAlpha")
        if len(ap) == 1 and len(nd) == 1 and len(al) == 1 and nd[0].res and al[0].res:
            same(R, r, F, "ret", F.ret, ap[0].args[0], "the list is returned")
            same(R, r, F, "one", ap[0].guard * tok("a", ap[0].args[1]), tok("a", nd[0].res), "one vector")
            same(R, r, F, "vector", tok("a", *nd[0].args[:1]), tok("a", al[0].res), "its values")
            i = fresh(rng(0, S_))
            sn = [x for k, x in nd[0].snap if k == 0]
            got = F.final(("mem",), al[0].res, i) if hasattr(F, "final") else F.at(al[0].res, i)
            same(R, r, F, "zero", got, ZERO, "values are zero")
        else:
            R.undecided(r, "getDefaultInitialPolicy: vector not recognised")


# ------------------------------------------------------------------ saving

def scaled(R, r, F, lst, name, cond):
    """the list, or its scaled copy when values were shifted, is saved under the name"""
    sc = eq0(call("valuesRequireScaling"))
    mk = F.events("makeScaledAlphaList")
    rs = mk[0].res if len(mk) == 1 and mk[0].res else None
    vr = F.events("valuesRequireScaling")
    hide = {}
    for e in vr:
        if e.res and e.res.atom():
            hide[aid(e.res.atom())] = call("valuesRequireScaling")
    N = lambda p: subst(p, hide)
    sv = F.events("saveAlphaList")
    got = ZERO
    for e in sv:
        f = name(e)
        if f is None:
            R.undecided(r, "%s: file not recognised" % F.name)
            return
        w = e.args[0]
        if rs is not None:
            w = subst(w, {aid(rs.atom()): call("scaled")}) if rs.atom() else w
        got = got + N(tok_cases("save:" + f, (w,), e.guard))
    want = cond * (sc * tok("save:" + name(None), lst) + (ONE - sc) * tok("save:" + name(None), call("scaled")))
    same(R, r, F, "values", got, want, "the solution is written with its true values")
    if rs is not None:
        same(R, r, F, "scaled", tok("s", *mk[0].args[:2]), tok("s", lst, fld(F.prm, PR + "update_count")), "values are scaled for the number of updates")


def saved(Pg, R):
    r = "saved"
    F = get(Pg, R, r, "endPomdpSolve")
    if F:
        prm, sol = F.arg(0), F.arg(1)
        F.prm = prm
        scaled(R, r, F, sol, lambda e: "alpha_filename" if e is None else struct_field(F, e.args[1]), ONE)
        pg = F.events("APG_writePolicyGraph")
        got = sum((tok_cases("pg:%s" % struct_field(F, e.args[1]), e.args[:1], e.guard) for e in pg), ZERO)
        same(R, r, F, "graph", got, tok("pg:pg_filename", sol), "the policy graph is written")
    F = get(Pg, R, r, "handleSaveAll")
    if F:
        lst, prm = F.arg(0), F.arg(1)
        F.prm = prm
        tx = {}
        for d, l in step.texts(F).items():
            a = d.atom()
            if a:
                tx[a] = l
        files = {}
        # the name: the text copied at first, then the number of the epoch
        def kind(p):
            for e in F.events("snprintf", "sprintf"):
                if P(e.args[0]) == P(p):
                    k = 2 if e.name == "snprintf" else 1
                    f = struct_field(F, e.args[k + 1]) if len(e.args) > k + 1 else None
                    if f in ("alpha_filename", "pg_filename"):
                        return f
            for e in F.events("strcpy"):
                if P(e.args[0]) == P(p):
                    f = struct_field(F, e.args[1])
                    if f in ("alpha_filename", "pg_filename"):
                        return f
            f = struct_field(F, p)
            return f if f in ("alpha_filename", "pg_filename") and P(p).atom()[0] != "ga" else None
        there = ONE - eq0(lst)
        scaled(R, r, F, lst, lambda e: "alpha_filename" if e is None else kind(e.args[1]), there)
        Z = enum_of(Pg, "ZlzSpeedup")
        pg = F.events("APG_writePolicyGraph")
        ks = [kind(e.args[1]) for e in pg]
        if None in ks:
            R.undecided(r, "handleSaveAll: file of the policy graph not recognised")
        elif Z is not None:
            got = sum((tok_cases("pg:%s" % k, e.args[:1], e.guard) for k, e in zip(ks, pg)), ZERO)
            same(R, r, F, "graph", got, [there * (ONE - eq0(fld(prm, PR + "vi_variation") - Z)) * tok("pg:pg_filename", lst), there * tok("pg:pg_filename", lst)], "the policy graph of the epoch is written")
        for e in F.events("snprintf", "sprintf"):
            k = 2 if e.name == "snprintf" else 1
            f = e.args[k].atom()
            if kind(e.args[0]) is None or not f or f[0] != "str":
                continue
            ps = _p(f[1], list(e.args[k + 1:]))
            if ps is None:
                R.undecided(r, "handleSaveAll: name of a file not recognised")
                continue
            ep = num("d", fld(prm, PR + "cur_epoch"))
            ok = bool(ps) and not isinstance(ps[-1], str) and P(ps[-1]) == ep
            if ok or not any(not isinstance(x, str) and has_unknown(P(x)) for x in ps):
                R.check(r, ok, "handleSaveAll:number:%s" % kind(e.args[0]), "%s: the name of an epoch's file does not end in its number" % e.ins.where())
            else:
                R.undecided(r, "handleSaveAll: number of an epoch's file not recognised")
        for w in ("saveAlphaList", "APG_writePolicyGraph"):
            for b in F.events("snprintf", "sprintf"):
                for x in F.events(w):
                    if x.args[1] == b.args[0]:
                        in_order(R, r, F, F.K, b, x)


def _p(fmt, args):
    import spec
    return spec._pieces(fmt, args)


# ------------------------------------------------------------------ set-up

def setup(Pg, R):
    r = "setup"
    F = get(Pg, R, r, "initPomdpSolve")
    if F:
        prm = F.arg(0)
        op = fld(prm, PR + "opts")
        ms = methods(Pg)
        i = F.events("initializePomdp")
        if len(i) == 1:
            R.check(r, struct_field(F, i[0].args[0]) in ("param_filename", None), "initPomdpSolve:model", "%s: the model is read from %s" % (i[0].ins.where(), struct_field(F, i[0].args[0])))
            same(R, r, F, "model", i[0].guard, ONE, "the model is read")
            ov = fld(prm, PR + "override_discount")
            d = F.K.final if False else None
            wr = [x for x in F.K.log if x.kind != "havoc" and x.region == ("g", "gDiscount")]
            same(R, r, F, "discount", sum((x.guard * tok("d", x.val) for x in wr), ZERO), [(ONE - lt0(ov, "f")) * tok("d", ov)], "the discount given replaces that of the model")
            for x in wr:
                k = F.K.log.index(x)
                hv = [j for j, y in enumerate(F.K.log) if y.kind == "havoc" and y.ins is i[0].ins]
                if hv:
                    R.check(r, k > min(hv), "initPomdpSolve:late", "%s: the discount is overridden before the model is read" % x.ins.where())
        else:
            R.undecided(r, "initPomdpSolve: model not recognised")
        want = {"alpha_filename": ["prefix_str", ".alpha"], "pg_filename": ["prefix_str", ".pg"], "penultimate_filename": ["prefix_str", ".prev.alpha"]}
        for d, l in step.texts(F).items():
            f = struct_field(F, d)
            if f in want:
                got, ok = [], True
                for how, gd, ps in l:
                    if gd != ONE or ps is None or how == "?":
                        ok = False
                        break
                    if how == "=":
                        got = []
                    for x in ps:
                        if not isinstance(x, str):
                            a = P(x).atom()
                            if a and a[0] == "num":
                                x = a[-1]
                                a = P(x).atom()
                            x = a[1] if a and a[0] == "str" else struct_field(F, x)
                        if x is None:
                            ok = False
                            break
                        if got and got[-1].startswith(".") and x.startswith("."):
                            got[-1] += x
                        else:
                            got.append(x)
                if ok:
                    R.check(r, got == want[f], "initPomdpSolve:%s" % f, "%s: %s is made of %s, not %s" % (F.f.file, f, " + ".join(got), " + ".join(want[f])))
                else:
                    R.undecided(r, "initPomdpSolve: %s not recognised" % f)
        rd = F.events("readAlphaList")
        if len(rd) == 1 and rd[0].res:
            R.check("start", struct_field(F, rd[0].args[0]) in ("initial_policy_filename", None), "initPomdpSolve:terminal", "%s: terminal values are read from %s" % (rd[0].ins.where(), struct_field(F, rd[0].args[0])))
            same(R, "start", F, "all", lt0(rd[0].args[1], "i"), ONE, "all vectors of the file are taken")
            wr = [x for x in F.K.log if x.kind != "havoc" and x.region == ("fd", PR + "initial_policy")]
            same(R, "start", F, "kept", sum((tok_cases("p", (x.val,), x.guard) for x in wr), ZERO), tok_cases("p", (rd[0].res,), rd[0].guard), "terminal values are kept")
            a = (ONE - rd[0].guard).atom()
            if a and a[0] in ("eq0",):
                R.hold("start")
            elif rd[0].guard.atom() and rd[0].guard.atom()[0] == "eq0":
                R.bad("start", "initPomdpSolve:given", "%s: terminal values are read when none are given" % rd[0].ins.where())
        else:
            R.undecided("start", "initPomdpSolve: terminal values not recognised")
        me = fld(op, OP + "method")
        for m, n in (("witness", "initWitness"), ("grid", "initFiniteGrid")):
            if ms[m] is not None:
                same(R, r, F, m, when(sum((e.guard for e in F.events(n)), ZERO), me, ms[m]), ONE, "method %s is made ready" % m)
        for m in ("enum", "twopass", "witness", "incprune", "grid"):
            if ms[m] is None:
                continue
            for n in ("initCommon", "initGlobal", "initLpInterface", "setUpIntervalTimer", "setMemoryLimit", "setUpCtrlC", "setInterruptParamContext"):
                if n in Pg.funcs and (n != "setMemoryLimit" or F.events(n)):  # its limits may be compiled out
                    same(R, r, F, n + ":" + m, when(sum((e.guard for e in F.events(n)), ZERO), me, ms[m]), ONE, "%s for method %s" % (n, m))
        for n, f in (("setUpIntervalTimer", "max_secs"), ("setMemoryLimit", "memory_limit")):
            for e in F.events(n):
                same(R, r, F, n, tok("limit", *e.args), tok("limit", fld(prm, PR + f)), "limit asked for")
        for n in ("initCommon", "initGlobal", "initWitness", "initFiniteGrid"):
            in_order(R, r, F, F.K, "initializePomdp", n)
    F = get(Pg, R, r, "cleanUpPomdpSolve")
    if F:
        prm = F.arg(0)
        me = fld(fld(prm, PR + "opts"), OP + "method")
        ms = methods(Pg)
        for m in ("enum", "twopass", "witness", "incprune", "grid"):
            for n in ("cleanUpLpInterface", "cleanUpCommon", "cleanUpGlobal", "cleanUpPomdp", "destroyPomdpSolveParams"):
                if ms[m] is not None:
                    same(R, r, F, n + ":" + m, when(sum((e.guard for e in F.events(n)), ZERO), me, ms[m]), ONE, "%s for method %s" % (n, m))
        for n in ("cleanUpLpInterface", "cleanUpCommon", "cleanUpGlobal", "cleanUpPomdp", "fclose"):
            in_order(R, r, F, F.K, n, "destroyPomdpSolveParams")
    F = get(Pg, R, r, "main") if "main" in Pg.funcs else None
