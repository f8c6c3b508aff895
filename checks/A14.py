"""Limits, interrupts and the statistics reported."""
import core, step
from spec import *
from step import in_order, first_ev, loop_with
from A13 import struct_field, enum_of
from A12 import total

TITLE = "limits and interrupts take effect, and statistics report what happened"
ST, EP, PR, PP = "SolutionStatsStruct.", "EpochStatStruct.", "PomdpSolveParamStruct.", "LpStruct."
USER, SYS = call("user"), call("sys")


def run(Pg, R):
    R.rule("limits", "the time limit ends the run, an interrupt ends it after the epoch", 1)
    R.rule("phases", "phases are opened and closed in pairs, never one within another, on every path", 1)
    R.rule("work", "each part of an epoch is accounted to its own phase", 1)
    R.rule("counts", "linear programs, times and epochs are counted where they belong", 1)
    R.rule("report", "the statistics shown are those counted", 1)
    limits(Pg, R)
    phases(Pg, R)
    counts(Pg, R)
    report(Pg, R)


def clock(p):
    """readings of the clock: user and system time"""
    def one(t):
        if t[0] == "ev":
            return USER + SYS
        a = t[2]
        if len(a) == 2:
            for k, v in enumerate((USER, SYS)):
                x = P(a[k]).atom()
                if x and x[0] == "al" and t[-2] == ("al", x[1]):
                    return v
                if struct_field(None, a[k]) is not None and t[-2][0] == "fd" and t[-2][1].split(".")[-1] == struct_field(None, a[k]):
                    return v
        return A(*t)
    return rewrite(p, "clock", lambda t: (t[0] == "ev" or t[0] == "call") and t[1] == "getSecs" or t[0] == "out" and t[1] == "getSecsDetail", one)


def on(stat, p):
    """when statistics are kept"""
    z = eq0(stat).atom()
    return subst(p, {aid(z): ZERO}) if z else p


# ------------------------------------------------------------------ limits

def handlers(F, sig):
    r = []
    for e in F.K.events:
        if e.name in ("signal", "sigset", "__sysv_signal", "bsd_signal") and e.args[0] == P(sig):
            t = e.args[1].atom()
            r.append((e, t[1] if t and t[0] == "fnaddr" else None))
    return r


def stays(Pg, name):
    """the function can return"""
    f = Pg.need(name)
    ends = ("exit", "_exit", "_Exit", "abort", "quick_exit")
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(I.op == "call" and (I.callee in ends or I.callee in Pg.funcs and I.callee != name and f.blocks[b][-1].op == "unreachable") for I in f.blocks[b]):
            continue
        if f.blocks[b][-1].op == "ret":
            return True
        todo.extend(f.succ[b])
    return False


def limits(Pg, R):
    r = "limits"
    F = get(Pg, R, r, "setUpIntervalTimer")
    if F:
        secs = F.arg(0)
        asked = ONE - lt0(secs - 1, "i")
        tm = F.events("setitimer")
        same(R, r, F, "timer", sum((tok_cases("t", (e.args[0],), e.guard) for e in tm), ZERO), asked * tok("t", 1), "the timer is set when a limit is given")
        if len(tm) == 1 and tm[0].args[1].atom():
            at = [x for x in F.K.log if x.kind != "havoc" and x.region == ("fd", "timeval.tv_sec") and struct_field(F, x.idx[0]) == "it_value"]
            us = [x for x in F.K.log if x.kind != "havoc" and x.region == ("fd", "timeval.tv_usec") and struct_field(F, x.idx[0]) == "it_value"]
            same(R, r, F, "secs", sum((tok_cases("s", (x.val,), x.guard) for x in at), ZERO), [asked * tok("s", secs)], "the limit is the seconds given") if at else R.undecided(r, "setUpIntervalTimer: limit not recognised")
            if us:
                same(R, r, F, "usecs", sum((tok_cases("s", (x.val,), x.guard) for x in us), ZERO), [asked * tok("s", 0)], "no fraction of a second")
        h = handlers(F, 26)
        same(R, r, F, "handled", sum((e.guard for e, n in h), ZERO), asked, "running out of time is handled")
        for e, n in h:
            if n is None:
                R.undecided(r, "setUpIntervalTimer: handler not recognised")
                continue
            if n not in Pg.funcs:
                R.bad(r, "%s:default" % n, "%s: %s does not end the run" % (e.ins.where(), n))
                continue
            R.check(r, not stays(Pg, n), "%s:goes-on" % n, "%s: the run goes on after the time limit" % Pg.need(n).file)
            R.check(r, bool(reaches(Pg, n) & {"reportSIGVTALRM", "fprintf", "fputs", "fwrite", "puts", "printf"}), "%s:silent" % n, "%s: the time limit is not reported" % Pg.need(n).file)
    F = get(Pg, R, r, "setUpCtrlC")
    if F:
        h = handlers(F, 2)
        same(R, r, F, "handled", sum((e.guard for e, n in h), ZERO), ONE, "interrupts are handled")
        same(R, r, F, "clear", final_g(F, "gInterrupt"), ZERO, "no interrupt yet")
        for e, n in h:
            H = get(Pg, R, r, n) if n and n in Pg.funcs else None
            if H is None:
                if n is None:
                    R.undecided(r, "setUpCtrlC: handler not recognised")
                continue
            got = final_g(H, "gInterrupt")
            z = eq0(got)
            same(R, r, H, "flag", z, ZERO, "an interrupt is noted")
    # nothing else takes the signals over or clears the note while the run is on
    for f in Pg.funcs.values():
        if not f.blocks:
            continue
        for b in f.blocks:
            for I in b:
                if I.op == "call" and I.callee in ("signal", "sigaction", "sigset"):
                    k = I.args[0]
                    if k and k[0] == "i" and k[1] in (2, 26):
                        R.check(r, f.name in ("setUpIntervalTimer", "setUpCtrlC") or not known(f.name), "%s:signal" % f.name, "%s: %s takes over signal %d" % (I.where(), f.name, k[1]))
                        R.functions.add(f.name)
    F = get(Pg, R, r, "setInterruptParamContext")
    if F:
        same(R, r, F, "ctx", final_g(F, "gInterruptParamContext"), F.arg(0), "what the handlers report on")


def known(n):
    import json, os
    return n in _base()


def _base(c=[]):
    if not c:
        import json, os
        d = json.load(open(os.path.join(os.path.dirname(core.__file__), "functions.json")))
        c.append(set(d if isinstance(d, list) else d.keys()))
    return c[0]


def reaches(Pg, name):
    seen, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = Pg.funcs.get(n)
        if f is None or not f.blocks:
            continue
        for b in f.blocks:
            for I in b:
                if I.op == "call" and I.callee:
                    todo.append(I.callee)
    return seen


# ------------------------------------------------------------------ phases

PHASE = {"makeAllProjections": "Projection_build", "purgeProjections": "Projection_purge", "improveTwoPass": "Q_a_build", "improveWitness": "Q_a_build",
         "improveIncPrune": "Q_a_build", "bellmanError": "Stop_Criteria", "weakBound": "Stop_Criteria"}


def phases(Pg, R):
    r = "phases"
    opens = {n for n in Pg.funcs if Pg.funcs[n].blocks and n != "startContext" and "startContext" in reaches(Pg, n)}
    direct = [n for n in sorted(Pg.funcs) if Pg.funcs[n].blocks and n not in ("startContext", "endContext") and known(n) and (opened(Pg, n))]
    if not direct:
        R.undecided(r, "no phases found")
    for n in direct:
        F = get(Pg, R, r, n)
        if not F:
            continue
        groups = {}
        for k, e in enumerate(F.K.events):
            if e.name in ("startContext", "endContext"):
                groups.setdefault(str(e.vd), []).append((k, e))
        spans = []
        for vd, l in groups.items():
            start = sum((e.guard * tok("phase", e.args[1]) for k, e in l if e.name == "startContext"), ZERO)
            end = sum((e.guard * tok("phase", e.args[1]) for k, e in l if e.name == "endContext"), ZERO)
            # where the function is left by an error nothing needs closing
            eg = F.K.endguard if F.K.endguard is not None else ONE
            lives = [ONE] + ([eg] if not l[0][1].vd else [])
            last = [e for e in F.K.events if str(e.vd) == vd and e.name not in ("startContext", "endContext", "fprintf")]
            if last and l[0][1].vd:
                lives.append(last[-1].guard)
            ok = same(R, r, F, "pairs", end, [start * w for w in lives], "every phase opened is closed, and no other")
            if not ok:
                continue
            # nesting: at each opening nothing is open; at each closing the phase is
            bal = ZERO
            for k, e in l:
                if e.name == "startContext":
                    same(R, r, F, "nested:%d" % k, e.guard * bal, ZERO, "no phase is opened within another")
                    bal = bal + e.guard
                else:
                    same(R, r, F, "open:%d" % k, e.guard * bal, e.guard, "only an open phase is closed")
                    bal = bal - e.guard
            for k, e in l:
                if e.name == "startContext":
                    stops = [j for j, x in l if x.name == "endContext" and j > k and (x.guard * e.guard).m]
                    if stops:
                        spans.append((k, max(stops), e))
        for k, j, e in spans:
            for x in F.K.events[k + 1:j]:
                if x.name in opens and (x.guard * e.guard).m:
                    R.bad(r, "%s:within:%s" % (n, x.name), "%s: %s, which opens phases, is called within a phase" % (x.ins.where(), x.name))
                    break
            else:
                R.hold(r)
        # work
        cs = {v: enum_of(Pg, "Context_" + v) for v in set(PHASE.values()) | {"Q_a_merge", "Zlz_Speedup"}}
        for x in F.K.events:
            ph = PHASE.get(x.name)
            if n == "improveByQ" and x.name == "purgeAlphaList":
                ph = "Q_a_merge"
            if ph is None or cs.get(ph) is None:
                continue
            at = F.K.events.index(x)
            got = ZERO
            for k, e in enumerate(F.K.events[:at]):
                if str(e.vd) == str(x.vd) and e.name in ("startContext", "endContext"):
                    got = got + (1 if e.name == "startContext" else -1) * e.guard * tok("phase", e.args[1])
            same(R, "work", F, x.name, x.guard * got, x.guard * tok("phase", cs[ph]), "%s is accounted to its phase" % x.name)
        for e in F.K.events:
            if e.name in ("startContext", "endContext"):
                f = struct_field(F, e.args[0]) or field_of(e.args[0])
                if f:
                    R.check(r, f == "stat", "%s:%s:stat" % (n, e.name), "%s: phase of %s" % (e.ins.where(), f))

def field_of(p):
    t = P(p).atom()
    if t and t[0] == "rd" and t[1][0] == "fd":
        return t[1][1].split(".")[-1]
    return None


def opened(Pg, n):
    """the function, or a helper of its own, opens or closes phases"""
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        f = Pg.funcs.get(m)
        if f is None or not f.blocks or m in ("startContext", "endContext") or m != n and known(m):
            continue
        for b in f.blocks:
            for I in b:
                if I.op == "call" and I.callee in ("startContext", "endContext"):
                    return True
                if I.op == "call" and I.callee:
                    todo.append(I.callee)
    return False


# ------------------------------------------------------------------ counting

def counts(Pg, R):
    r = "counts"
    F = get(Pg, R, r, "newSolutionStats")
    if F:
        st = F.ret
        for x in ("tot_time", "lp_count", "constraint_count"):
            i = fresh(rng(0, P(enum_max(Pg))))
            same(R, r, F, x, F.K.final(("fd", ST + x), st, i), ZERO, "nothing counted yet")
        for x, v in (("cur_context", P(enum_of(Pg, "Context_None") or 0)), ("cur_epoch", ZERO), ("epoch_stats", ZERO), ("report_file", F.arg(0)), ("stat_summary", F.arg(1))):
            same(R, r, F, x, F.K.final(("fd", ST + x), st), v, "%s at the start" % x)
        c = F.events("getSecsDetail")
        if len(c) == 1:
            want = "start_time_user", "start_time_system"
            fs = tuple(struct_field(F, a) for a in c[0].args[:2])
            if None not in fs:
                R.check(r, fs == want, "newSolutionStats:clock", "%s: the clock is read into %s" % (c[0].ins.where(), " and ".join(fs)))
            same(R, r, F, "clocked", c[0].guard, ONE, "the start is noted")
        else:
            R.undecided(r, "newSolutionStats: clock not recognised")
    F = get(Pg, R, r, "recordLpStats")
    if F:
        st, cx = F.arg(0), fld(F.arg(0), ST + "cur_context")
        same(R, r, F, "lps", on(st, F.K.final(("fd", ST + "lp_count"), st, cx)), A("rd", ("fd", ST + "lp_count"), (st, cx)) + 1, "one more linear program in the phase")
        same(R, r, F, "constraints", on(st, F.K.final(("fd", ST + "constraint_count"), st, cx)), A("rd", ("fd", ST + "constraint_count"), (st, cx)) + F.arg(2), "its constraints in the phase")
        for x in ("lp_count", "constraint_count"):
            w = [e for e in F.K.log if e.kind != "havoc" and e.region == ("fd", ST + x)]
            R.check(r, all(len(e.idx) == 2 and e.idx[0] == st and e.idx[1] == cx for e in w), "recordLpStats:other:%s" % x, "%s: counted to another phase" % F.f.file) if all(not has_unknown(q) for e in w for q in e.idx) else R.undecided(r, "recordLpStats: phase not recognised")
    for n, f in sorted(Pg.funcs.items()):
        if f.blocks and known(n) and any(I.op == "call" and I.callee == "recordLpStats" for b in f.blocks for I in b):
            F = get(Pg, R, r, n)
            if not F:
                continue
            for e in F.events("recordLpStats"):
                fs = [field_of(a) for a in e.args[1:3]]
                if None not in fs:
                    R.check(r, fs == ["cols", "rows"], "%s:size" % n, "%s: the size counted is %s by %s" % (e.ins.where(), fs[0], fs[1]))
                else:
                    R.undecided(r, "%s: size not recognised" % n)
                w = eq0(A("rd", ("g", "gVerbose"), (ONE,)) - 1)
                same(R, r, F, "when", e.guard, [w, ONE], "every linear program is counted when asked for")
                for x in ("LP_loadLP", "solve", "LP_solve"):
                    in_order(R, r, F, F.K, e, x) if F.events(x) and x != "LP_loadLP" else None
    F = get(Pg, R, r, "startContext")
    if F:
        st = F.arg(0)
        same(R, r, F, "phase", on(st, F.K.final(("fd", ST + "cur_context"), st)), F.arg(1), "the phase is the one opened")
        same(R, r, F, "clock", on(st, clock(F.K.final(("fd", ST + "cur_context_start_time"), st))), USER + SYS, "its start is noted")
    F = get(Pg, R, r, "endContext")
    if F:
        st, cx = F.arg(0), F.arg(1)
        took = USER + SYS - fld(st, ST + "cur_context_start_time")
        same(R, r, F, "none", on(st, F.K.final(("fd", ST + "cur_context"), st)), P(enum_of(Pg, "Context_None") or 0), "no phase is open afterwards")
        same(R, r, F, "time", on(st, clock(F.K.final(("fd", ST + "tot_time"), st, cx))), A("rd", ("fd", ST + "tot_time"), (st, cx)) + took, "its time is added")
        same(R, r, F, "epoch", on(st, clock(total(F, "incrementEpochContextTime"))), tok("incrementEpochContextTime", fld(st, ST + "cur_epoch"), cx, took, st), "its time is added to the epoch")
    F = get(Pg, R, r, "epochStartStats")
    if F:
        st = F.arg(0)
        same(R, r, F, "epoch", on(st, F.K.final(("fd", ST + "cur_epoch"), st)), fld(st, ST + "cur_epoch") + 1, "the next epoch")
        c = F.events("getSecsDetail")
        if len(c) == 1:
            fs = tuple(struct_field(F, a) for a in c[0].args[:2])
            if None not in fs:
                R.check(r, fs == ("epoch_start_time_user", "epoch_start_time_system"), "epochStartStats:clock", "%s: the clock is read into %s" % (c[0].ins.where(), " and ".join(fs)))
            same(R, r, F, "clocked", on(st, c[0].guard), ONE, "the start of the epoch is noted")
    F = get(Pg, R, r, "epochEndStats")
    if F:
        st, ep = F.arg(0), fld(F.arg(0), ST + "cur_epoch")
        u, s_ = USER - fld(st, ST + "epoch_start_time_user"), SYS - fld(st, ST + "epoch_start_time_system")
        for nm, a in (("recordEpochSolutionSize", (ep, F.arg(1), st)), ("recordEpochCurStopDelta", (ep, F.arg(2), st)), ("recordEpochTime", (ep, u, s_, st))):
            same(R, r, F, nm, on(st, clock(total(F, nm))), tok(nm, *a), "recorded for the epoch")
    for nm, x in (("recordEpochSetEpsilon", [("set_epsilon", 1)]), ("recordEpochSolutionSize", [("solution_size", 1)]), ("recordEpochMaxEpsilon", [("max_epsilon", 1)]),
                  ("recordEpochCurStopDelta", [("actual_stop_delta", 1)]), ("recordEpochTime", [("user_time", 1), ("system_time", 2)])):
        F = get(Pg, R, r, nm)
        if F:
            st = F.arg(len(F.f.params) - 1)
            c = F.events("getOrCreateEpochStats")
            if len(c) == 1 and c[0].res:
                same(R, r, F, "which", on(st, total(F, "getOrCreateEpochStats")), tok("getOrCreateEpochStats", st, F.arg(0)), "the record of the epoch")
                for f, k in x:
                    w = [e for e in F.K.log if e.kind != "havoc" and e.region == ("fd", EP + f)]
                    same(R, r, F, f, on(st, sum((tok_cases("set", e.idx + (e.val,), e.guard) for e in w), ZERO)), tok("set", c[0].res, F.arg(k)), "%s of the epoch" % f)
            else:
                R.undecided(r, "%s: record not recognised" % nm)
    for nm, add in (("recordEpochContextTime", 0), ("incrementEpochContextTime", 1)):
        F = get(Pg, R, r, nm)
        if F:
            st = F.arg(3)
            c = F.events("getOrCreateEpochStats")
            if len(c) == 1 and c[0].res:
                same(R, r, F, "which", on(st, total(F, "getOrCreateEpochStats")), tok("getOrCreateEpochStats", st, F.arg(0)), "the record of the epoch")
                w = [e for e in F.K.log if e.kind != "havoc" and e.region == ("fd", EP + "epoch_time")]
                old = lambda p: rewrite(p, "old", lambda t: t[0] == "out" and t[-2] == ("fd", EP + "epoch_time"), lambda t: A("rd", t[-2], t[-1]))
                same(R, r, F, "time", old(on(st, sum((tok_cases("set", e.idx + (e.val,), e.guard) for e in w), ZERO))), tok("set", c[0].res, F.arg(1), F.arg(2) + (A("rd", ("fd", EP + "epoch_time"), (c[0].res, F.arg(1))) if add else 0)), "time of the phase in the epoch")
            else:
                R.undecided(r, "%s: record not recognised" % nm)
    F = get(Pg, R, r, "newEpochStatNode")
    if F:
        nd = F.ret
        same(R, r, F, "num", F.K.final(("fd", EP + "epoch_num"), nd), F.arg(0), "number of the epoch")
        for x, v in (("user_time", 0), ("system_time", 0), ("next", 0)):
            same(R, r, F, x, F.K.final(("fd", EP + x), nd), P(v), "%s at first" % x)
        i = fresh(rng(0, P(enum_max(Pg))))
        same(R, r, F, "times", F.K.final(("fd", EP + "epoch_time"), nd, i), ZERO, "no time yet")
    F = get(Pg, R, r, "getOrCreateEpochStats")
    if F:
        st, no = F.arg(0), F.arg(1)
        new = [e for e in F.events("newEpochStatNode")]
        ls, K = step.steps(Pg, "getOrCreateEpochStats")
        vs = [(t, i) for t in ls for i in t.vars if t.inits[i] == fld(st, ST + "epoch_stats") and t.nexts[i] == fld(t.vars[i], EP + "next")]
        if len(vs) == 1:
            t, i = vs[0]
            x = t.vars[i]
            same_, nxt = eq0(fld(x, EP + "epoch_num") - no), eq0(fld(x, EP + "next"))
            gone = ONE - t.cont * (ONE - t.leave)
            C = lambda p, a, b: subst(subst(p, {aid(eq0(x).atom()): ZERO}), {aid(same_.atom()): P(a), aid(nxt.atom()): P(b)})
            same(R, r, F, "found", C(gone, 1, 0), ONE, "the search ends at the record of the epoch")
            same(R, r, F, "further", C(gone, 0, 0), ZERO, "records of other epochs are passed over")
        else:
            R.undecided(r, "getOrCreateEpochStats: search not recognised")
        w = [e for e in F.K.log if e.kind != "havoc" and e.region in (("fd", EP + "next"), ("fd", ST + "epoch_stats"))]
        if F.K.whole and not any(e.kind == "havoc" and e.region in (("fd", EP + "next"), ("fd", ST + "epoch_stats")) for e in F.K.log):
            for reg, what in ((ST + "epoch_stats", "the first record is kept nowhere"), (EP + "next", "a further record is kept nowhere")):
                if not any(e.region == ("fd", reg) for e in w) and not any(e.region == ("mem",) for e in F.K.log):
                    R.bad(r, "getOrCreateEpochStats:kept", "%s:%d (getOrCreateEpochStats): %s" % (F.f.file, F.f.line, what))
        for e in w:
            v = e.val.atom()
            if v and any(e.val == x.res for x in new):
                R.hold(r)
            elif v and v[0] in ("new", "unk", "out") or has_unknown(e.val):
                R.undecided(r, "getOrCreateEpochStats: record added not recognised")
            else:
                R.bad(r, "getOrCreateEpochStats:added", "%s: what is added is not the new record" % e.ins.where())
            if e.region[1] == ST + "epoch_stats":
                same(R, r, F, "first", e.guard, [eq0(fld(st, ST + "epoch_stats"))], "the first record")
        same(R, r, F, "number", sum((e.guard * tok("n", *e.args) for e in new), ZERO), sum((e.guard * tok("n", no) for e in new), ZERO), "number of the new record")


def enum_max(Pg):
    m = max((v for v in (enum_of(Pg, "Context_" + x) for x in ("Projection_build", "Projection_purge", "Q_a_build", "Q_a_merge", "Zlz_Speedup", "Stop_Criteria")) if v is not None), default=6)
    return m + 1


# ------------------------------------------------------------------ reporting

def shown(F, fl, st=None):
    seq, ok = outputs(F, fl)
    return seq if ok else None


def nums(F, seq, depth=None, st=None):
    """the values shown, as a sum over loops"""
    l = [(e, p) for e, p in seq if not isinstance(p, str)]
    r = out_sum(l, depth)
    r = clock(r)
    return on(st, r) if st is not None else r


def report(Pg, R):
    r = "report"
    d, f_, s_ = (lambda x: OUT(num("d", x))), (lambda x: OUT(num("f", x))), (lambda x: OUT(num("s", x)))
    n = P(enum_max(Pg))
    C = rng(0, n)
    F = get(Pg, R, r, "epochEndStats")
    if F:
        st = F.arg(0)
        seq, ok = outputs(F, fld(st, ST + "report_file"))
        u, s2 = USER - fld(st, ST + "epoch_start_time_user"), SYS - fld(st, ST + "epoch_start_time_system")
        if ok:
            same(R, r, F, "epoch", nums(F, seq, None, st), d(F.arg(1)) + f_(u + s2) + f_(USER + SYS - fld(st, ST + "start_time_user") - fld(st, ST + "start_time_system")) + f_(F.arg(2)), "size, time and error of the epoch")
        else:
            R.undecided(r, "epochEndStats: output not recognised")
    F = get(Pg, R, r, "epochStartStats")
    if F:
        st = F.arg(0)
        seq, ok = outputs(F, fld(st, ST + "report_file"))
        if ok:
            same(R, r, F, "epoch", nums(F, seq, None, st), d(fld(st, ST + "cur_epoch") + 1), "number of the epoch")
    F = get(Pg, R, r, "getLpStats")
    if F:
        st = F.arg(0)
        for k, x in ((1, "lp_count"), (2, "constraint_count")):
            same(R, r, F, x, on(st, F.K.final(("mem",), F.arg(k), 0)), SUM(C, lambda i: A("rd", ("fd", ST + x), (st, i))), "total over the phases")
    F = get(Pg, R, r, "reportLpStats")
    if F:
        st = F.arg(0)
        lp, co = (lambda i: A("rd", ("fd", ST + "lp_count"), (st, i))), (lambda i: A("rd", ("fd", ST + "constraint_count"), (st, i)))
        seq, ok = outputs(F, fld(st, ST + "report_file"))
        if ok:
            v = [(e, p) for e, p in seq if not isinstance(p, str) and "num(s" not in str(p)]
            same(R, r, F, "phases", nums(F, v, 1, st), SUM(C, lambda i: (ONE - eq0(i)) * (d(lp(i)) + d(co(i)))), "linear programs and constraints of each phase")
            same(R, r, F, "total", nums(F, v, 0, st), d(SUM(C, lp)) + d(SUM(C, co)), "linear programs and constraints in all")
        else:
            R.undecided(r, "reportLpStats: output not recognised")
    F = get(Pg, R, r, "reportStats")
    if F:
        st = F.arg(0)
        u, s2 = USER - fld(st, ST + "start_time_user"), SYS - fld(st, ST + "start_time_system")
        fl = fld(st, ST + "report_file")
        got = ZERO
        for e in F.events("reportTimes"):
            t = e.args[2].atom()
            w = t[1].split()[0].lower() if t and t[0] == "str" and t[1].split() else "?"
            got = got + e.guard * tok(w, *e.args[:2])
        same(R, r, F, "times", on(st, clock(got)), tok("user", fl, u) + tok("system", fl, s2) + tok("total", fl, u + s2), "user, system and total time")
        sm = fld(st, ST + "stat_summary")
        for x in ("reportEpochSummary", "reportContextDetails"):
            same(R, r, F, x, on(st, total(F, x)), (ONE - eq0(sm)) * tok(x, st), "the summary when asked for")
    F = get(Pg, R, r, "reportTimes")
    if F:
        fl, t = F.arg(0), F.arg(1)
        e = F.events("fprintf")
        if len(e) == 1:
            seq, ok = outputs(F, fl)
            ns = [p for x, p in seq if not isinstance(p, str) and "num(s" not in str(p)]
            if ok and len(ns) == 4:
                val = [p.atom()[-1] if isinstance(p, Poly) and p.atom() and p.atom()[0] == "num" else p for p in ns]
                if P(val[0]).atom() and P(val[1]).atom() and P(val[0]) != P(val[1]):
                    mn, hr = {aid(P(val[1]).atom()): call("minutes")}, {aid(P(val[0]).atom()): call("hours")}
                    val = [subst(subst(P(x), mn), hr) for x in val]
                same(R, r, F, "sum", P(val[0]) * 3600 + P(val[1]) * 60 + P(val[2]), t, "hours, minutes and seconds make up the time")
                same(R, r, F, "secs", P(val[3]), t, "the time in seconds")
            else:
                R.undecided(r, "reportTimes: output not recognised")
    F = get(Pg, R, r, "reportContextDetails")
    if F:
        st = F.arg(0)
        cx = fld(st, ST + "cur_context")
        seq, ok = outputs(F, fld(st, ST + "report_file"))
        tt = lambda i: A("rd", ("fd", ST + "tot_time"), (st, i)) + (ONE - eq0(cx)) * eq0(cx - i) * (USER + SYS - fld(st, ST + "cur_context_start_time"))
        if ok:
            v = [(e, p) for e, p in seq if not isinstance(p, str) and "num(s" not in str(p)]
            same(R, r, F, "phases", nums(F, v, 1, st), SUM(C, lambda i: (ONE - eq0(i)) * f_(tt(i))), "time of each phase, the open one included")
            same(R, r, F, "total", nums(F, v, 0, st), f_(SUM(C, lambda i: (ONE - eq0(i)) * tt(i))), "time of all phases")
        else:
            R.undecided(r, "reportContextDetails: output not recognised")
    F = get(Pg, R, r, "reportEpochSummary")
    if F:
        st = F.arg(0)
        L = LIST(fld(st, ST + "epoch_stats"), EP + "next")
        seq, ok = outputs(F, fld(st, ST + "report_file"))
        if ok:
            v = [(e, p) for e, p in seq if not isinstance(p, str) and "num(s" not in str(p)]
            ls = [(e, p) for e, p in v if len(e.vd) == 1 and "list" in str(e.vd[0][1])]
            fe = lambda x, k: fld(x, EP + k)
            pre = [(e, p) for e, p in ls if e.guard == ONE]
            same(R, r, F, "epochs", nums(F, pre, 1), SUM(L, lambda x: d(fe(x, "epoch_num")) + d(fe(x, "solution_size")) + f_(fe(x, "actual_stop_delta")) + f_(fe(x, "user_time") + fe(x, "system_time"))), "number, size, error and time of each epoch")
            same(R, r, F, "phases", nums(F, [(e, p) for e, p in v if len(e.vd) == 2], 2), SUM(L, lambda x: SUM(C, lambda i: (ONE - eq0(i)) * f_(A("rd", ("fd", EP + "epoch_time"), (x, i))))), "time of each phase in each epoch")
            same(R, r, F, "total", nums(F, [(e, p) for e, p in v if not e.vd], 0), f_(SUM(L, lambda x: fe(x, "user_time") + fe(x, "system_time"))), "time of all epochs")
            tp = [(e, p) for e, p in v if len(e.vd) == 1 and "list" not in str(e.vd[0][1])]
            same(R, r, F, "phase-total", nums(F, tp, 1), SUM(C, lambda i: (ONE - eq0(i)) * f_(SUM(L, lambda x: A("rd", ("fd", EP + "epoch_time"), (x, i))))), "time of each phase in all epochs")
        else:
            R.undecided(r, "reportEpochSummary: output not recognised")
    for n in ("getSecsDetail", "getSecs"):
        F = get(Pg, R, r, n)
        if F and n == "getSecsDetail":
            for k, x in ((0, "tms_utime"), (1, "tms_stime")):
                v = F.K.final(("mem",), F.arg(k), 0)
                fs = {ALIST[q][1][1].split(".")[-1] for a in v.atoms() for q in poly._all_ids(a) if ALIST[q][0] == "rd" and ALIST[q][1][0] == "fd"} | {ALIST[q][-2][1].split(".")[-1] for a in v.atoms() for q in poly._all_ids(a) if ALIST[q][0] == "out" and ALIST[q][-2][0] == "fd"}
                if fs:
                    R.check(r, fs == {x}, "getSecsDetail:%s" % x, "%s: the time given is %s" % (F.f.file, ", ".join(sorted(fs))))
                else:
                    R.undecided(r, "getSecsDetail: time not recognised")
        if F and n == "getSecs":
            same(R, r, F, "sum", clock(F.ret), USER + SYS, "user and system time")
