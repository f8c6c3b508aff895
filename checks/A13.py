"""Options: command line, configuration file, ranges, defaults, and where the values go."""
import core, step
from prog import subterms
from fractions import Fraction
from spec import *
from step import evs_same, in_order, first_ev, bools, before, loop_with

TITLE = "options are taken, checked, defaulted and passed on as documented"
CL, AS, PO, CF = "CommandLineStruct.", "AssocArrayStruct.", "ProgramOptionsStruct.", "ConfigFileStruct."
PR, OP = "PomdpSolveParamStruct.", "PomdpSolveProgOptionsStruct."
BIG = 2147483647
HUGE = A("HUGE")
PURGE = "none domonly normal_prune epsilon_prune"

# the options as documented: name -> field, kind, range or values, default
SOLVE = {
    "stdout": ("report_filename", "s"), "rand_seed": ("rand_seed", "s"), "stat_summary": ("stat_summary", "b", 0),
    "memory_limit": ("memory_limit", "i", 1, None, 0), "time_limit": ("max_secs", "i", 1, None, 0), "pomdp": ("param_filename", "s"),
    "terminal_values": ("initial_policy_filename", "s"), "horizon": ("horizon", "i", 1, None, 0), "discount": ("override_discount", "d", 0, 1, -1),
    "stop_criteria": ("stop_criteria", "e", "exact weak bellman", "weak", "Stop_Criteria"), "stop_delta": ("stop_delta", "d", 0, None, 1e-9),
    "o": ("prefix_str", "s", "solution"), "save_all": ("save_all", "b", 0),
    "vi_variation": ("vi_variation", "e", "normal zlz adjustable_epsilon fixed_soln_size", "normal", "Vi_Variation"),
    "start_epsilon": ("starting_epsilon", "d", 0, None, 0), "end_epsilon": ("ending_epsilon", "d", 0, None, 0),
    "epsilon_adjust": ("epsilon_adjust_factor", "d", 0, None, 0), "max_soln_size": ("max_soln_size", "d", 0, None, 0),
    "history_length": ("epoch_history_window_length", "i", 1, None, 0), "history_delta": ("epoch_history_window_delta", "i", 1, None, 0),
    "dom_check": ("domination_check", "b", 1), "prune_epsilon": ("prune_epsilon", "d", 0, None, 1e-9), "epsilon": ("epsilon", "d", 0, None, 1e-9),
    "lp_epsilon": ("lp_epsilon", "d", 0, None, 1e-9), "fg_epsilon": ("fg_epsilon", "d", 0, None, 1e-9),
    "proj_purge": ("proj_purge", "e", PURGE, "normal_prune", "Proj_Purge"), "q_purge": ("q_purge_option", "e", PURGE, "normal_prune", "Q_Purge"),
    "witness_points": ("use_witness_points", "b", 0), "alg_rand": ("alg_init_rand_points", "i", 0, None, 0), "prune_rand": ("prune_init_rand_points", "i", 0, None, 0),
    "method": ("method", "e", "enum twopass linsup witness incprune grid mcgs", "incprune", "Method"),
    "enum_purge": ("enum_purge_option", "e", PURGE, "normal_prune", "Enum_Purge"),
    "inc_prune": ("ip_type", "e", "normal restricted_region generalized", "normal", "Inc_Prune"),
    "fg_type": ("finite_grid_type", "e", "simplex pairwise search initial", "initial", "Fg_Type"), "fg_points": ("finite_grid_points", "i", 1, None, 10000),
    "fg_save": ("finite_grid_save", "b", 0), "fg_purge": ("fg_purge_option", "e", PURGE, "normal_prune", "Fg_Purge"), "save_penultimate": ("save_penultimate", "b", 0),
    "mcgs_traj_length": ("mcgs_traj_length", "i", 1, None, 100), "mcgs_num_traj": ("mcgs_num_traj", "i", 1, None, 1000),
    "mcgs_traj_iter_count": ("mcgs_traj_iter_count", "i", 1, None, 1), "mcgs_prune_freq": ("mcgs_prune_freq", "i", 1, None, 100),
}
TOOLS = {
    "tool": ("tool", "e", "update_beliefs compare_alphas map_beliefs pg_isomorphism purge_alphas sort_alphas pg_eval pg_relink belief_alpha_compare none", "none", "Tool"),
    "pomdp": ("pomdp", "s"), "pg1": ("pg1", "s"), "pg2": ("pg2", "s"), "alpha1": ("alpha1", "s"), "alpha2": ("alpha2", "s"), "belief": ("belief", "s"),
    "epsilon": ("epsilon", "d", 0, None, 1e-9), "states": ("states", "i", 1, None, 0), "obs": ("obs", "i", 1, None, 0), "o": ("result_filename", "s", "toolsoln"),
}
# options copied to the parameters under the same or another name
COPIED = ("stat_summary override_discount horizon max_secs memory_limit save_all use_witness_points domination_check alg_init_rand_points "
          "prune_init_rand_points prune_epsilon epsilon lp_epsilon stop_delta starting_epsilon ending_epsilon epsilon_adjust_factor max_soln_size "
          "epoch_history_window_length epoch_history_window_delta").split()
PURGES = {"none": "purge_none", "domonly": "purge_dom", "normal_prune": "purge_prune", "epsilon_prune": "purge_epsilon_prune"}
MAPPED = {
    "ip_type": ("Inc_Prune", {"normal": "NormalIp", "restricted_region": "RestrictedRegionIp", "generalized": "GeneralizedIp"}),
    "proj_purge": ("Proj_Purge", PURGES), "q_purge_option": ("Q_Purge", PURGES), "enum_purge_option": ("Enum_Purge", PURGES), "fg_purge_option": ("Fg_Purge", PURGES),
    "vi_variation": ("Vi_Variation", {"normal": "NormalVi", "zlz": "ZlzSpeedup", "adjustable_epsilon": "AdjustableEpsilonVi", "fixed_soln_size": "FixedSolnSizeVi"}),
}


def nz(p, *ptrs):
    """p when the pointers are not null"""
    for x in ptrs:
        p = subst(p, {aid(eq0(x).atom()): ZERO})
    return p


def order(p):
    """which string is named first does not matter for equality"""
    def one(t):
        a = t[1].atom()
        if a and a[0] in ("call", "ev") and a[1] == "strcmp":
            args = a[-1]
            if len(args) == 2 and repr(args[0]) > repr(args[1]):
                return eq0(A(*a[:-1], (args[1], args[0])))
        return A(*t)
    return rewrite(p, "strcmp", lambda t: t[0] == "eq0", one)


def same_str(a, b):
    return eq0(call("strcmp", a, b))


def run(Pg, R):
    R.rule("line", "every word of the command line is classified, and kept, as flag, option with value, or argument", 1)
    R.rule("file", "the configuration file is read as attribute = value lines with comments, and malformed lines are counted", 1)
    R.rule("merge", "a later setting replaces an earlier one, and the command line overrides the configuration file", 1)
    R.rule("get", "an option is found by its name, converted, and checked against its range or values", 1)
    R.rule("table", "each documented option sets its own field within its documented range, or is reported", 1)
    R.rule("default", "an option not given has its documented default", 1)
    R.rule("echo", "the report of the options shows every option with its own value", 1)
    R.rule("pass", "each option reaches the parameter it stands for", 1)
    line(Pg, R)
    config(Pg, R)
    merge(Pg, R)
    getters(Pg, R)
    table(Pg, R, "POMDP_SOLVE_OPTS", "PomdpSolveProgOptionsStruct.", SOLVE)
    table(Pg, R, "POMDP_TOOLS_OPTS", None, TOOLS)
    passed(Pg, R)
    modes(Pg, R)


def line(Pg, R):
    r = "line"
    F = get(Pg, R, r, "CL_parseCommandLine")
    s = loop_with(Pg, R, r, "CL_parseCommandLine", ("CL_addFlag", "CL_addArgOption", "CL_addArgProper")) if F else None
    if s:
        argc, argv = F.arg(0), F.arg(1)
        e = [x for x in s.events if x.name == "CL_addArgProper"]
        v = [i for i in s.vars if step.depends(s.cont, s.vars[i])]
        if e and len(v) == 1:
            i, cl = s.vars[v[0]], e[0].args[0]
            dash = lambda k: eq0(el(el(argv, k), 0) - 45)
            last = eq0(argc - 1 - i)
            flag = dash(i) * (last + (ONE - last) * dash(i + 1))
            opt = dash(i) * (ONE - last) * (ONE - dash(i + 1))
            past, two = argc - 1 - i, (argc - 2 - i)
            def inside(p):
                m = {aid(x.atom()): y for x, y in ((lt0(past, "i"), ZERO), (lt0(two, "i"), eq0(past))) if x.atom()}
                return subst(p, m)
            evs_same(R, r, F, s, [("CL_addFlag", (cl, el(argv, i)), flag), ("CL_addArgOption", (cl, el(argv, i), el(argv, i + 1)), opt), ("CL_addArgProper", (cl, el(argv, i)), ONE - dash(i))], "one word", norm=inside)
            same(R, r, F, "next", inside(s.nexts[v[0]]), i + 1 + opt, "next word")
            same(R, r, F, "first", s.inits[v[0]], ONE, "first word after the program name")
            same(R, r, F, "cont", s.cont * (ONE - s.leave), [lt0(i - argc, "i"), lt0(i - argc), ONE - eq0(i - argc)], "every word")
            same(R, r, F, "kept", F.ret, cl, "the words kept are returned")
        else:
            R.undecided(r, "CL_parseCommandLine: words not recognised")
    for fn, n, mx, arr in (("CL_addFlag", "num_flags", "max_flags", "flags"), ("CL_addArgProper", "num_args_proper", "max_args_proper", "args_proper")):
        F = get(Pg, R, r, fn)
        if not F:
            continue
        cl, x = F.arg(0), F.arg(1)
        N = lambda p: nz(p, cl, x)
        cnt = fld(cl, CL + n)
        ok = lt0(cnt - fld(cl, CL + mx), "i") * lt0(call("strlen", x) - 1024, "i")
        d = eq0(el(x, 0) - 45) if fn == "CL_addFlag" else ZERO
        got = sum((tok_cases("copy", e.args[:2], e.guard) for e in F.events("strcpy")), ZERO)
        want = ok * ((ONE - d) * tok("copy", el(fld(cl, CL + arr), cnt), x) + d * tok("copy", el(fld(cl, CL + arr), cnt), adr(x, 1)))
        same(R, r, F, "text", N(got), want, "text kept")
        same(R, r, F, "count", N(F.field(cl, CL + n)), cnt + ok, "number kept")
        same(R, r, F, "error", N(sum((e.guard * tok("error", e.args[0]) for e in F.events("CL_handleError")), ZERO)), (ONE - ok) * tok("error", cl), "reports what cannot be kept")
        same(R, r, F, "ret", N(F.ret), ok, "result")
    F = get(Pg, R, r, "CL_addArgOption")
    if F:
        cl, o, v = F.arg(0), F.arg(1), F.arg(2)
        N = lambda p: nz(p, cl, o, v)
        ok = lt0(call("strlen", o) - 1024, "i") * lt0(call("strlen", v) - 1024, "i")
        d = eq0(el(o, 0) - 45)
        t = fld(cl, CL + "args_opt")
        got = sum((tok_cases("put", e.args[:3], e.guard) for e in F.events("AA_put")), ZERO)
        same(R, r, F, "text", N(got), ok * (d * tok("put", t, adr(o, 1), v) + (ONE - d) * tok("put", t, o, v)), "option and value kept")
        e = F.events("AA_put")
        res = {aid(x.res.atom()): call("AA_put") for x in e if x.res and x.res.atom()}
        good = eq0(call("AA_put") - 1)
        same(R, r, F, "ret", cases01(subst(N(F.ret), res)), cases01(ok * good), "result")
        same(R, r, F, "error", cases01(subst(N(sum((x.guard * tok("error", x.args[0]) for x in F.events("CL_handleError")), ZERO)), res)), cases01((ONE - ok * good) * tok("error", cl)), "reports what cannot be kept")
    F = get(Pg, R, r, "CL_hasFlag")
    if F:
        cl, x = F.arg(0), F.arg(1)
        same(R, r, F, "ret", order(F.ret), order(SOME(rng(0, fld(cl, CL + "num_flags")), lambda k: same_str(el(fld(cl, CL + "flags"), k), x))), "the flag is among those kept")
    F = get(Pg, R, r, "CL_getArgOption")
    if F:
        cl, x = F.arg(0), F.arg(1)
        same(R, r, F, "ret", nz(F.ret, cl, x), value_of(F, fld(cl, CL + "args_opt"), x), "value of the option")


def cases01(p):
    return p


def value_of(F, t, x):
    e = F.events("AA_get")
    if len(e) == 1 and e[0].res:
        return e[0].res
    return call("AA_get", t, x)


def adr(p, k):
    return A("pa", P(p), P(k))


def first_of(n, cond, val):
    """value for the first index with the condition, 0 if there is none"""
    D = rng(0, n)
    v = fresh(D)
    return mk_fi(v, D, cond(v), val(v))


def merge(Pg, R):
    r = "merge"
    F = get(Pg, R, r, "AA_put")
    if F:
        t, k, v = (F.arg(i) for i in range(3))
        N = lambda p: order(nz(p, t, k, v))
        n, mx = fld(t, AS + "cur_size"), fld(t, AS + "max_size")
        keys, vals = fld(t, AS + "keys"), fld(t, AS + "values")
        is_ = lambda i: same_str(el(keys, i), k)
        old = SOME(rng(0, n), is_)
        room = lt0(n - mx, "i")
        new = (ONE - old) * room
        at = first_of(n, is_, lambda i: i)
        same(R, r, F, "ret", N(F.ret), order(new - (ONE - old) * (ONE - room)), "result of putting a pair")
        same(R, r, F, "count", N(F.field(t, AS + "cur_size")), order(n + new), "number of pairs")
        cp = F.events("strcpy")
        gone = [e for e in cp if e.guard.m]
        got = {}
        for e in gone:
            kind = "value" if P(e.args[1]) == v else "key" if P(e.args[1]) == k else "other"
            # where: the first slot with that key, or the first free one
            w = N(e.args[0])
            got.setdefault(kind, []).append((w, N(e.guard)))
        tot = lambda kind, want: sum((g_ * tok("at", w) for w, g_ in got.get(kind, [])), ZERO)
        fi = N(at)
        same(R, r, F, "key", tot("key", 0), order(new * tok("at", el(keys, n))), "a new key goes to the next slot")
        w_old, w_new = tok("at", el(vals, fi)), tok("at", el(vals, n))
        hide = lambda p: rewrite(p, "slot", lambda x: x[0] == "rd" and x[1] == ("mem",) and P(x[2][0]) == vals, lambda x: el(vals, n) if P(x[2][1]) == n else call("slot_of_key"))
        same(R, r, F, "value", hide(tot("value", 0)), order(new) * tok("at", el(vals, n)) + order(old) * tok("at", call("slot_of_key")), "its value goes with it, or replaces the old one")
        for w, g_ in got.get("value", []):
            x = w.atom()
            if x and x[0] == "rd" and (g_ * order(old)) == g_ and P(x[2][1]) != n:
                ok = subst_any(P(x[2][1]), order(old))
                same(R, r, F, "slot", ok, subst_any(fi, order(old)), "slot of the key replaced")
        if got.get("other"):
            R.undecided(r, "AA_put: other text copied")
    F = get(Pg, R, r, "AA_get")
    if F:
        t, k = F.arg(0), F.arg(1)
        n, keys, vals = fld(t, AS + "cur_size"), fld(t, AS + "keys"), fld(t, AS + "values")
        is_ = lambda i: same_str(el(keys, i), k)
        same(R, r, F, "ret", order(nz(F.ret, t, k)), order(first_of(n, is_, lambda i: el(vals, i))), "value of a key")
    F = get(Pg, R, r, "PO_overlayAssocArray")
    if F:
        o, src = F.arg(0), F.arg(1)
        dst = fld(fld(o, PO + "cmd_line"), CL + "args_opt")
        every(Pg, R, r, F, "AA_put", fld(src, AS + "cur_size"), lambda i: (dst, el(fld(src, AS + "keys"), i), el(fld(src, AS + "values"), i)), lambda p: nz(p, o, src), "pairs")
    F = get(Pg, R, r, "PO_overlayConfigFile")
    if F:
        o, c = F.arg(0), F.arg(1)
        same(R, r, F, "all", nz(F.esum("PO_overlayAssocArray"), o, c), tok("PO_overlayAssocArray", o, fld(c, CF + "params")), "every line of the configuration file")
    F = get(Pg, R, r, "PO_overlayCommandLine")
    if F:
        o, c = F.arg(0), F.arg(1)
        N = lambda p: nz(before(p), o, c)
        d = fld(o, PO + "cmd_line")
        same(R, r, F, "options", N(F.esum("PO_overlayAssocArray")), tok("PO_overlayAssocArray", o, fld(c, CL + "args_opt")), "options of the command line")
        every(Pg, R, r, F, "AA_put", fld(c, CL + "num_flags"), lambda i: (fld(d, CL + "args_opt"), el(fld(c, CL + "flags"), i), A("str", "true")), N, "flags")
        every(Pg, R, r, F, "CL_addArgProper", fld(c, CL + "num_args_proper"), lambda i: (d, el(fld(c, CL + "args_proper"), i)), N, "arguments")
    F = get(Pg, R, r, "PO_create")
    if F:
        e = {n: F.events(n) for n in ("CL_parseCommandLine", "PO_overlayConfigFile", "PO_overlayCommandLine", "CF_read", "PO_new", "PO_handleError")}
        if all(len(e[n]) == 1 and (e[n][0].res or "overlay" in n) for n in e if n != "PO_handleError"):
            cl, o, cf = e["CL_parseCommandLine"][0].res, e["PO_new"][0].res, e["CF_read"][0].res
            valid = ONE - eq0(call("CL_isValid", cl))
            help_ = ONE - eq0(call("CL_hasFlag", cl, A("str", "h")))
            f = call("CL_getArgOption", cl, A("str", "f"))
            N = lambda p: nz(p, cl)
            go = valid * (ONE - help_)
            same(R, r, F, "parse", tok("p", *e["CL_parseCommandLine"][0].args), tok("p", F.arg(0), F.arg(1)), "the command line is read")
            same(R, r, F, "read", N(F.esum("CF_read")), go * (ONE - eq0(f)) * tok("CF_read", f), "the configuration file is read when given")
            same(R, r, F, "line", N(F.esum("PO_overlayCommandLine")), go * tok("PO_overlayCommandLine", o, cl), "command line options are taken")
            cfg = (ONE - eq0(f)) * N(sum((x.guard * tok("file", *[subst(N(a), {aid(eq0(f).atom()): ZERO}) for a in x.args]) for x in e["PO_overlayConfigFile"]), ZERO))
            same(R, r, F, "file", cfg, (ONE - eq0(f)) * go * tok("file", o, cf), "configuration file options are taken")
            in_order(R, r, F, F.K, "PO_overlayConfigFile", "PO_overlayCommandLine")
            bad = (ONE - valid) + go * (ONE - eq0(f)) * (eq0(cf) + (ONE - eq0(cf)) * eq0(call("CF_isValid", cf)))
            same(R, r, F, "errors", N(sum((x.guard for x in e["PO_handleError"]), ZERO)), bad, "malformed input is reported")
            same(R, r, F, "ret", F.ret, o, "result")
        else:
            R.undecided(r, "PO_create: calls not recognised")


def every(Pg, R, r, F, name, n, args, N, what):
    """name is called for every number below n"""
    s = loop_with(Pg, R, r, F.name, (name,))
    e = [x for x in s.events if x.name == name] if s else []
    if len(e) != 1:
        return R.undecided(r, "%s: %s not recognised" % (F.name, what)) if s else None
    v = [i for i in s.vars if s.inits[i] == ZERO and step.depends(s.cont, s.vars[i])]
    if len(v) != 1:
        return R.undecided(r, "%s: the number of %s not recognised" % (F.name, what))
    i = s.vars[v[0]]
    same(R, r, F, what, N(e[0].guard * tok(name, *e[0].args[:len(args(i))])), tok(name, *args(i)), "every one of the %s is taken" % what, e[0].ins)
    same(R, r, F, what + ":next", s.nexts[v[0]], i + 1, "one after the other")
    same(R, r, F, what + ":all", N(s.cont * (ONE - s.leave)), [lt0(i - n, "i"), lt0(i - n), N(ONE - eq0(i - n))], "all of the %s" % what)


def subst_any(p, some):
    """p for the case that the condition holds for some index"""
    return subst(p, {aid(some.atom()): ONE}) if some.atom() else p


def getters(Pg, R):
    r = "get"
    VALID, NONE, ERR = ONE, ZERO, -ONE
    F = get(Pg, R, r, "PO_getStringOption")
    if F:
        o, name, out, mn, mx = (F.arg(k) for k in range(5))
        t = fld(fld(o, PO + "cmd_line"), CL + "args_opt")
        n, keys, vals = fld(t, AS + "cur_size"), fld(t, AS + "keys"), fld(t, AS + "values")
        d = eq0(el(name, 0) - 45)
        for dash in (0, 1):
            key = adr(name, 1) if dash else name
            is_ = lambda i: same_str(el(keys, i), key)
            N = lambda p: order(subst(subst(nz(p, o, name, out), {aid(mn.atom()): ZERO, aid(mx.atom()): ZERO}), {aid(d.atom()): P(dash)}))
            some = order(SOME(rng(0, n), is_))
            same(R, r, F, "ret%d" % dash, N(F.ret), some * VALID + (ONE - some) * NONE, "whether the option is there")
            got = ZERO
            for e in F.events("strcpy"):
                got = got + N(e.guard) * tok("copy", *[subst_any(N(a), some) for a in e.args[:2]])
            at = order(first_of(n, is_, lambda i: i))
            same(R, r, F, "text%d" % dash, got, some * tok("copy", out, el(vals, subst_any(at, some))), "text of the option")
            seen = fld(o, PO + "option_seen")
            w = [x for x in F.K.log if x.kind == "set" and x.region == ("mem",) and P(x.idx[0]) == seen] if F.K.log and hasattr(F.K.log[0], "region") else []
            if len(w) == 1:
                same(R, r, F, "seen%d" % dash, subst_any(N(w[0].idx[1]), some), subst_any(at, some), "the option found is marked as known")
                v = N(w[0].val)
                b = el(seen, N(w[0].idx[1]))
                same(R, r, F, "mark%d" % dash, v - b if (v - b).const() is not None else v, [ONE], "the option found is marked as known")
    F = get(Pg, R, r, "PO_getEnumOption")
    if F:
        o, name, out, vals = (F.arg(k) for k in range(4))
        e = F.events("PO_getStringOption")
        if len(e) == 1 and e[0].res:
            x, buf = e[0].res, e[0].args[2]
            N = lambda p: nz(p, o, name, out, vals)
            same(R, r, F, "call", tok("c", *e[0].args), tok("c", o, name, buf, 0, 0), "text of the option")
            empty = lambda i: ONE - (ONE - eq0(el(vals, i))) * (ONE - lt0(call("strlen", el(vals, i)) - 1, "i"))
            match = lambda i: same_str(el(vals, i), buf)
            D = rng(0, INF)
            v = fresh(D)
            stop = ONE - (ONE - empty(v)) * (ONE - match(v))
            # entries are texts, never null, and the list ends with an empty one
            E = lambda p: ended(settle(order(nz_all(N(p), vals)), buf))
            good = E(close_fi(v, D, stop, (ONE - empty(v)) * match(v)))
            ok = eq0(x - 1)
            same(R, r, F, "ret", E(F.ret), ok * (2 * good - 1) + (ONE - ok) * x, "the value is one of those allowed")
            idx = E(close_fi(v, D, stop, v))
            w = E(F.K.read(F.K.ctx, ("mem",), (P(out), ZERO), ONE)) if hasattr(F.K, "ctx") else E(F.at(out, 0))
            same(R, r, F, "index", subst_good(w, good, ok), idx, "its position")
        else:
            R.undecided(r, "PO_getEnumOption: text not recognised")
    for fn, conv, k in (("PO_getIntegerOption", "atoi", "i"), ("PO_getDoubleOption", "strtod", "f")):
        F = get(Pg, R, r, fn)
        if not F:
            continue
        o, name, out, mn, mx = (F.arg(k_) for k_ in range(5))
        e = F.events("PO_getStringOption")
        if len(e) != 1 or not e[0].res:
            R.undecided(r, fn + ": text not recognised")
            continue
        x, buf = e[0].res, e[0].args[2]
        N = lambda p: nz(p, o, name, out)
        same(R, r, F, "call", tok("c", *e[0].args), tok("c", o, name, buf, 0, 0), "text of the option")
        cs = [c for c in F.events(conv, "strtol", "strtoll", "sscanf", "atof")]
        ok = eq0(x - 1)
        val = N(F.at(out, 0))
        v = subst(val, {aid(ok.atom()): ONE})
        a = v.atom()
        if a and a[0] in ("ev", "call") and a[1] in (("atoi", "strtol", "atol", "strtoll") if k == "f" else ("strtod", "atof", "strtof")):
            R.bad(r, fn + ":conversion", "%s: the option's number is taken as %s" % (cs[0].ins.where() if cs else fn, "a whole number" if k == "f" else "a fraction"))
            continue
        if not a or a[0] not in ("ev", "call") or a[1] not in ("atoi", "strtod", "strtol", "atof"):
            R.undecided(r, fn + ": conversion not recognised")
            continue
        same(R, r, F, "value", val, ok * v + (ONE - ok) * el(out, 0), "the number given is stored")
        same(R, r, F, "text", a[-1][0], buf, "the number is that of the option")
        rngd = (ONE - lt0(v - mn, k)) * (ONE - lt0(mx - v, k))
        for lo, hi in ((1, BIG), (0, BIG), (0, 1)) if k == "i" else ((0, HUGE), (0, 1)):
            at = lambda p: subst(p, {aid(mn.atom()): P(lo), aid(mx.atom()): P(hi)})
            same(R, r, F, "range", at(N(F.ret)), at(ok * (2 * rngd - 1) + (ONE - ok) * x), "the number is within its range")
    F = get(Pg, R, r, "PO_endValidate")
    if F:
        o = F.arg(0)
        fs, os_, as_ = (fld(o, PO + n) for n in ("flag_seen", "option_seen", "arg_seen"))
        n = fld(fld(fld(o, PO + "cmd_line"), CL + "args_opt"), AS + "cur_size")
        got = ZERO
        for e in F.events("PO_handleError"):
            t = nz(e.guard, o, fs, os_, as_)
            for v, dm in reversed(e.vd):
                t = mk_sum(v, dm, t)
            got = got + t
        fl = SUM(rng(0, fld(fld(o, PO + "cmd_line"), CL + "num_flags")), lambda i: eq0(el(fs, i)))
        op = SUM(rng(0, n), lambda i: eq0(el(os_, i)))
        same(R, r, F, "unknown", got, [fl + op, op], "every option that is not known is reported")
    F = get(Pg, R, r, "PO_isValid")
    if F:
        c = fld(F.arg(0), PO + "error_count")
        same(R, r, F, "ret", F.ret, [lt0(c - 1, "i"), eq0(c)], "valid without errors")
    for fn, f in (("PO_handleError", PO + "error_count"), ("CL_handleError", CL + "error_count")):
        F = get(Pg, R, r, fn)
        if F:
            o = F.arg(0)
            same(R, r, F, "count", nz(F.field(o, f), o), fld(o, f) + 1, "errors are counted")


def close_fi(v, D, c, x):
    return mk_fi(v, D, c, x)


def nz_all(p, vals):
    """entries of the list are not null; one that starts with the end mark is empty"""
    def one(t):
        a = t[1].atom()
        if a and a[0] == "rd" and a[1] == ("mem",) and a[2][1] == ZERO:
            b = P(a[2][0]).atom()
            if b and b[0] == "rd" and b[1] == ("mem",) and P(b[2][0]) == vals:
                return lt0(call("strlen", a[2][0]) - 1, "i")
        if a and a[0] == "rd" and a[1] == ("mem",) and P(a[2][0]) == vals:
            return ZERO
        return A(*t)
    return rewrite(p, ("nz", aid(vals.atom())), lambda t: t[0] == "eq0", one)


def settle(p, buf):
    """the search stops at an entry that is empty or equal to the text: if it is not one it is the other"""
    def one(t):
        vs, ds, pl = poly.opened(t)
        G, d = pl
        ids = {i for k in d.m for i, _ in k if ALIST[i][0] in ("eq0", "lt0")}
        em = [i for i in ids if ALIST[i][0] == "lt0" and "strlen" in show(A(*ALIST[i]))]
        ma = [i for i in ids if ALIST[i][0] == "eq0" and "strcmp" in show(A(*ALIST[i]))]
        if len(em) == 1 and len(ma) == 1:
            e, m = A(*ALIST[em[0]]), A(*ALIST[ma[0]])
            if len(d.m) == 1 and G == e + m - e * m:
                q = subst(d, {em[0]: ONE, ma[0]: ONE}) * (e + m - 1)
                return mk_fi(vs[0], ds[0], G, q)
        return mk_fi(vs[0], ds[0], G, d)
    return rewrite(p, "settle", lambda t: t[0] == "fi", one)


INF = A("inf")


def ended(p):
    """the search ends; where it ends stands for itself"""
    p = rewrite(p, "ends", lambda t: t[0] == "any" and len(t[2]) == 1 and t[2][0][0] == "rng" and INF == t[2][0][2], lambda t: ONE)
    n = 0
    return rewrite(p, "limit", lambda t: t == ("inf",), lambda t: call("entries"))


def subst_good(w, good, ok):
    m = {aid(ok.atom()): ONE}
    if good.atom():
        m[aid(good.atom())] = ONE
    elif (ONE - good).atom():
        m[aid((ONE - good).atom())] = ZERO
    return subst(w, m)


def texts_of(Pg, name):
    """the texts of an array of strings"""
    g_ = Pg.globals.get(name)
    ini = g_.get("init") if g_ else None
    if not ini or ini[0] != "arr":
        return None
    r = []
    for x in ini[1]:
        if x[0] == "g":
            s = Pg.string(x)
            r.append(s if isinstance(s, str) else None)
        else:
            r.append("" if x in (["null"], ["z"]) or x[0] in ("null", "z") else None)
    return r


def table(Pg, R, pre, st, opts):
    r = "table"
    F = get(Pg, R, r, pre + "_parse")
    if not F:
        return
    made = F.ret.atom()
    o = F.ret
    ev = {}
    for e in F.events("PO_getIntegerOption", "PO_getDoubleOption", "PO_getEnumOption", "PO_getStringOption"):
        t = e.args[1].atom()
        if t and t[0] == "str":
            ev.setdefault(t[1].lstrip("-"), []).append(e)
    errs = F.events("PO_handleError")
    if not o.atom() or o.atom()[0] not in ("new", "ev"):
        return R.undecided(r, "%s: result not recognised" % F.name)
    for name, d in sorted(opts.items()):
        f, kind = d[0], d[1]
        es = ev.get(name, [])
        if not es:
            R.bad(r, "%s:%s" % (F.name, name), "%s: option -%s is never looked up" % (F.name, name))
            continue
        if len(es) != 1 or es[0].vd:
            R.undecided(r, "%s: -%s looked up in several places" % (F.name, name))
            continue
        e = es[0]
        same(R, r, F, name + ":always", e.guard, ONE, "-%s is looked up" % name, e.ins)
        want = {"i": "PO_getIntegerOption", "d": "PO_getDoubleOption", "e": "PO_getEnumOption", "b": "PO_getEnumOption", "s": "PO_getStringOption"}[kind]
        if e.name != want:
            R.bad(r, "%s:%s:kind" % (F.name, name), "%s: -%s is read by %s" % (e.ins.where(), name, e.name))
            continue
        if e.res:
            g_ = sum((x.guard for x in errs if e.res.atom() and aid(e.res.atom()) in {i for a in x.guard.atoms() for i in poly._all_ids(a)}), ZERO)
            same(R, r, F, name + ":error", g_, eq0(e.res + 1), "a wrong value of -%s is reported" % name, e.ins)
        fr = struct_field(F, e.args[2])
        if kind in "ids":
            if fr is None:
                R.undecided(r, "%s: -%s: destination not recognised" % (F.name, name))
            else:
                R.check(r, fr == f, "%s:%s:field" % (F.name, name), "%s: -%s sets %s, not %s" % (e.ins.where(), name, fr, f))
        if kind in "id":
            lo, hi = d[2], d[3]
            top = P(hi) if hi is not None else (P(BIG) if kind == "i" else HUGE)
            same(R, r, F, name + ":range", tok("range", e.args[3], e.args[4]), tok("range", P(lo), top), "range of -%s" % name, e.ins)
        if kind in "eb":
            arr = e.args[3].atom()
            ts = texts_of(Pg, arr[1]) if arr and arr[0] == "ga" else None
            vals = d[2].split() if kind == "e" else ["false", "true"]
            sfield = [x for x in (stt + f for stt in struct_names(Pg, f))]
            if ts is None or any(t is None for t in ts):
                R.undecided(r, "%s: values of -%s not recognised" % (F.name, name))
            else:
                end = ts.index("") if "" in ts else len(ts)
                R.check(r, "" in ts, "%s:%s:end" % (F.name, name), "%s: the values of -%s have no end mark" % (e.ins.where(), name))
                R.check(r, sorted(ts[:end]) == sorted(vals), "%s:%s:values" % (F.name, name), "%s: the values of -%s are %s, not %s" % (e.ins.where(), name, " ".join(ts[:end]), " ".join(vals)))
                for v in vals:
                    en = "%s_%s_%s" % (pre, d[4], v) if kind == "e" else "Boolean_" + v
                    num = enum_of(Pg, en)
                    if num is not None and v in ts[:end]:
                        R.check(r, ts.index(v) == num, "%s:%s:%s" % (F.name, name, v), "%s: value %s of -%s means number %d, which is not %s" % (e.ins.where(), v, name, ts.index(v), en))
            # where the position goes
            dst = [x for x in F.K.log if x.kind != "havoc" and x.region[0] == "fd" and x.region[1].endswith("." + f)]
            ok = eq0(e.res - 1) if e.res else None
            if len(dst) == 1 and ok is not None and ok.atom():
                w = dst[0]
                # given: set; not given: the default, or the first value when that is the default
                same(R, r, F, name + ":set", subst(w.guard, {aid(ok.atom()): ONE}), ONE, "-%s takes effect when given" % name, e.ins)
                dflt = enum_of(Pg, "%s_%s_%s" % (pre, d[4], d[3])) if kind == "e" else d[2]
                if dflt != 0:
                    same(R, r, F, name + ":kept", subst(w.guard, {aid(ok.atom()): ZERO}), ZERO, "without -%s its default stays" % name, e.ins)
            else:
                R.undecided(r, "%s: -%s: destination not recognised" % (F.name, name))
    owner = {d[0]: n for n, d in opts.items()}
    for w in F.K.log:
        if w.kind == "havoc" or w.region[0] != "fd":
            continue
        f = w.region[1].split(".")[-1]
        src = sources(w.val)
        if f in owner and len(src) == 1 and src <= set(opts):
            R.check(r, src == {owner[f]}, "%s:%s:from" % (F.name, f), "%s: %s, which stands for -%s, is set from -%s" % (w.ins.where() if w.ins is not None else F.name, f, owner[f], sorted(src)[0]))
    if True:
        v = F.events("PO_endValidate")
        same(R, r, F, "unknown", sum((x.guard for x in v), ZERO), ONE, "unknown options are looked for")
        for e in [x for l in ev.values() for x in l]:
            if v and F.K.events.index(e) > F.K.events.index(v[0]):
                R.bad(r, "%s:order" % F.name, "%s: an option is looked up after unknown ones have been reported" % e.ins.where())
        er = [x for x in F.K.log if x.kind != "havoc" and x.region[0] == "fd" and x.region[1].endswith(".__error__")]
        valid = call("PO_isValid", F.arg(0))
        if len(er) == 1 and er[0].val.const() is not None and er[0].val != ZERO:
            same(R, r, F, "error", er[0].guard, eq0(valid), "errors are noted")
    echo(Pg, R, pre, opts)
    N = get(Pg, R, "default", pre + "_new")
    if N:
        o = N.ret
        for name, d in sorted(opts.items()):
            f, kind = d[0], d[1]
            ss = struct_names(Pg, f)
            ss = [s for s in ss if any(x.kind != "havoc" and x.region == ("fd", s + f) for x in N.K.log)] or ss
            if kind == "s":
                dv = d[2] if len(d) > 2 else ""
                cp = [e for e in N.events("strcpy") if struct_field(N, e.args[0]) == f]
                if dv:
                    same(R, "default", N, name, sum((e.guard * tok("text", e.args[1]) for e in cp), ZERO), tok("text", A("str", dv)), "default of -%s" % name)
                else:
                    w = [x for x in N.K.log if x.kind != "havoc" and any(struct_field(N, P(i)) == f for i in x.idx[:1])]
                    w += [x for x in N.K.log if x.kind != "havoc" and x.region[0] == "fd" and x.region[1].endswith("." + f)]
                    if len(w) == 1:
                        same(R, "default", N, name, w[0].val, ZERO, "default of -%s" % name)
                    elif cp:
                        same(R, "default", N, name, sum((e.guard * tok("text", e.args[1]) for e in cp), ZERO), tok("text", A("str", "")), "default of -%s" % name)
                    else:
                        R.undecided("default", "%s: default of -%s not recognised" % (N.name, name))
                continue
            w = [x for x in N.K.log if x.kind != "havoc" and x.region[0] == "fd" and x.region[1].endswith("." + f)]
            if not w:
                R.undecided("default", "%s: default of -%s not recognised" % (N.name, name))
                continue
            v = N.field(o, w[0].region[1])
            if kind == "e":
                dv = enum_of(Pg, "%s_%s_%s" % (pre, d[4], d[3]))
            else:
                dv = d[2] if kind == "b" else d[4]
            if dv is None:
                R.undecided("default", "%s: -%s: no such value" % (N.name, name))
                continue
            same(R, "default", N, name, v, [P(Fraction(dv)), P(Fraction(str(dv)))], "default of -%s" % name)
    C = get(Pg, R, r, pre + "_create")
    if C:
        p, q = C.events("PO_create"), C.events(pre + "_parse")
        if len(p) == 1 and len(q) == 1 and p[0].res and q[0].res:
            same(R, r, C, "args", tok("c", *p[0].args), tok("c", C.arg(0), C.arg(1)), "the command line given")
            same(R, r, C, "parse", tok("c", *q[0].args), tok("c", p[0].res), "the options of the command line")
            same(R, r, C, "ret", C.ret, q[0].res, "result")
        exits(Pg, R, r, pre)


def echo(Pg, R, pre, opts):
    """the report names every option with its own value"""
    r = "echo"
    F = get(Pg, R, r, pre + "_toConfigFile")
    if not F:
        return
    ev, got = F.K.events, {}
    for k, e in enumerate(ev):
        if e.name == "CF_addParam":
            n = e.args[1].atom()
            if not n or n[0] != "str":
                R.undecided(r, "%s: name not recognised" % F.name)
                continue
            v = None
            if struct_field(F, e.args[2]):
                v = ("%s", e.args[2], e)
            else:
                for x in ev[k - 1::-1] if k else []:
                    if x.name in ("sprintf", "snprintf") and x.args[0] == e.args[2]:
                        i = 1 if x.name == "sprintf" else 2
                        f = x.args[i].atom()
                        if x.guard == e.guard and f and f[0] == "str" and len(x.args) == i + 2:
                            v = (f[1], x.args[i + 1], x)
                        break
            got.setdefault(n[1], []).append((v, e))
    for name, d in sorted(opts.items()):
        L = got.get(name, [])
        if len(L) != 1 or L[0][0] is None or L[0][1].guard != ONE:
            R.undecided(r, "%s: -%s not recognised" % (F.name, name)) if L or not got else R.bad(r, "%s:%s" % (F.name, name), "%s: the report leaves out -%s" % (F.name, name))
            continue
        (fmt, val, x), e = L[0]
        f = struct_field(F, val)
        a = val.atom()
        tab = None
        if a and a[0] == "rd" and a[1] == ("mem",):
            f, g_ = struct_field(F, a[2][1]), P(a[2][0]).atom()
            tab = texts_of(Pg, g_[1]) if g_ and g_[0] == "ga" else None
        elif a and a[0] == "rd" and a[1][0] == "g":
            f = struct_field(F, a[2][-1])
            tab = texts_of(Pg, a[1][1])
        if f is None:
            R.undecided(r, "%s: value of -%s not recognised" % (F.name, name))
            continue
        R.check(r, f == d[0], "%s:%s" % (F.name, name), "%s: the report shows %s as -%s" % (x.ins.where(), f, name))
        if d[1] in "eb" and tab is not None:
            vals = d[2].split() if d[1] == "e" else ["false", "true"]
            R.check(r, sorted(tab[:tab.index("")] if "" in tab else tab) == sorted(vals), "%s:%s:values" % (F.name, name), "%s: the report shows -%s by the values of another option" % (x.ins.where(), name))


def sources(p):
    """the options a value is read from"""
    r = set()
    for i in {i for a in p.atoms() for i in poly._all_ids(a)}:
        t = ALIST[i]
        if t[0] == "out" and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) > 1:
            x = P(t[2][1]).atom()
            if x and x[0] == "str":
                r.add(x[1].lstrip("-"))
    return r


def exits(Pg, R, r, pre):
    """after wrong options the program ends: every path that goes on has no usage request, valid options and no error"""
    f = Pg.need(pre + "_create")
    n = 0
    for I in f.insts():
        if I.op == "call" and I.callee == "exit":
            n += 1
    R.check(r, n >= 1, pre + "_create:exit", "%s_create: wrong options do not end the program" % pre)


def enum_of(Pg, name):
    for es in Pg.enums.values():
        for n, v in es:
            if n == name:
                return v
    return None


def struct_names(Pg, f):
    return [s + "." for s, d in Pg.structs.items() if any((x[0] if isinstance(x, (list, tuple)) else x.get("n") if isinstance(x, dict) else x) == f for x in (d.get("fields", d.get("f", [])) if isinstance(d, dict) else d))]


def struct_field(F, p):
    """name of the field an address points to"""
    for _ in range(3):
        t = P(p).atom()
        if not t:
            return None
        if t[0] in ("ea", "pa"):
            p = t[1]
            continue
        for x in t[1:]:
            if isinstance(x, str) and "." in x:
                return x.split(".")[-1]
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "fd":
                return x[1].split(".")[-1]
        return None
    return None


def passed(Pg, R):
    r = "pass"
    F = get(Pg, R, r, "tempOptsToParamConversion")
    if F:
        p = F.arg(0)
        o = fld(p, PR + "opts")
        for f in COPIED:
            same(R, r, F, f, F.field(p, PR + f), fld(o, OP + f), "parameter %s" % f)
        for f, (en, mp) in sorted(MAPPED.items()):
            x = fld(o, OP + f)
            got = F.field(p, PR + f)
            for a, b in sorted(mp.items()):
                ca, cb = enum_of(Pg, "POMDP_SOLVE_OPTS_%s_%s" % (en, a)), enum_of(Pg, b)
                if ca is None or cb is None:
                    R.undecided(r, "value %s of %s has no number" % (a, f))
                    continue
                same(R, r, F, "%s:%s" % (f, a), when(got, x, ca), P(cb), "parameter %s for value %s" % (f, a))
        cp = {}
        for e in F.events("strcpy"):
            a, b = struct_field(F, e.args[0]), struct_field(F, e.args[1])
            if a and b and e.guard == ONE:
                cp[a] = (b, e)
        for f in ("report_filename", "param_filename", "initial_policy_filename"):
            if f in cp:
                R.check(r, cp[f][0] == f, "%s:%s" % (F.name, f), "%s: parameter %s is set from option %s" % (cp[f][1].ins.where(), f, cp[f][0]))
            else:
                R.undecided(r, "parameter %s not recognised" % f)
    F = get(Pg, R, r, "enforceSmallestPrecision")
    if F:
        v = el(F.arg(0), 0)
        tiny = P(Fraction(1e-12))
        c = lt0(v - tiny, "f")
        same(R, r, F, "value", F.at(F.arg(0), 0), c * tiny + (ONE - c) * v, "smallest precision")
    F = get(Pg, R, r, "doPostOptionParseActions")
    if F:
        p = F.arg(0)
        o = fld(p, PR + "opts")
        e = F.events("enforceSmallestPrecision")
        for f in ("prune_epsilon", "epsilon", "lp_epsilon"):
            g_ = sum((x.guard for x in e if struct_field(F, x.args[0]) == f), ZERO)
            same(R, r, F, f + ":limit", settled(g_), ONE, "smallest precision of %s" % f)
        def plain(q):
            return settled(rewrite(q, "opt", lambda t: t[0] == "out" and t[-2][0] == "fd" and t[-2][1].startswith(OP), lambda t: A("rd", t[-2], t[-1])))
        ep, lp = fld(o, OP + "epsilon"), fld(o, OP + "lp_epsilon")
        c = lt0(ep - lp, "f")
        same(R, r, F, "lp_epsilon", plain(F.field(o, OP + "lp_epsilon")), c * ep + (ONE - c) * lp, "precision of the linear programs is at most the general one")
        if len(F.events("LP_setPrecision")) > 1:
            R.undecided(r, "the precision of the linear programs is set several times")
        else:
            same(R, r, F, "lp", plain(F.esum("LP_setPrecision")), [c * tok("LP_setPrecision", ep) + (ONE - c) * tok("LP_setPrecision", lp), tok("LP_setPrecision", c * ep + (ONE - c) * lp)], "precision of the linear programs")
        z = enum_of(Pg, "POMDP_SOLVE_OPTS_Vi_Variation_zlz")
        w = plain(F.field(o, OP + "use_witness_points"))
        k = fld(o, OP + "vi_variation")
        u = fld(o, OP + "use_witness_points")
        if z is not None:
            same(R, r, F, "zlz", ONE - eq0(when(w, k, z)), [ONE, truth(w)], "the speed-up uses witness points") if when(w, k, z).const() is not None else same(R, r, F, "zlz", when(when(w, k, z), u, 0), ONE, "the speed-up uses witness points")
        ss = F.events("setRandomSeedFromString")
        rz = F.events("randomize")
        same(R, r, F, "seed", sum((x.guard for x in ss), ZERO) + sum((x.guard for x in rz), ZERO), ONE, "random numbers are seeded once")
        c = sum((x.guard for x in ss), ZERO)
        if len(ss) == 1 and ONE - c != ZERO:
            one = (ONE - c).atom()
            neg = c.atom()
            if (one and one[0] == "eq0") or (neg and neg[0] == "eq0"):
                R.check(r, bool(one), F.name + ":given", "%s: the seed is set when the option is not given" % ss[0].ins.where())
        for x in ss:
            R.check(r, struct_field(F, x.args[0]) in ("rand_seed", None), F.name + ":seed", "%s: the seed is that of another option" % x.ins.where())
    F = get(Pg, R, r, "parseCmdLineAndCfgFile")
    if F:
        a, b, c = F.events("POMDP_SOLVE_OPTS_create"), F.events("doPostOptionParseActions"), F.events("tempOptsToParamConversion")
        if len(a) == 1 and len(b) == 1 and len(c) == 1:
            same(R, r, F, "steps", a[0].guard + b[0].guard + c[0].guard, P(3), "options are read, checked and passed on")
            same(R, r, F, "args", tok("a", *a[0].args), tok("a", F.arg(0), F.arg(1)), "the command line given")
            if a[0].res:
                same(R, r, F, "opts", F.field(F.ret, PR + "opts"), a[0].res, "the options read are used") if F.ret.atom() else None
            in_order(R, r, F, F.K, "POMDP_SOLVE_OPTS_create", "doPostOptionParseActions")
            in_order(R, r, F, F.K, "doPostOptionParseActions", "tempOptsToParamConversion")
        else:
            R.undecided(r, "parseCmdLineAndCfgFile: steps not recognised")


def settled(p):
    """searches in texts end"""
    return ended(p)


# ---------------------------------------------------------------- configuration file: an automaton

PRE_A, IN_A, POST_A, PRE_V, IN_V, POST_V, COMMENT, WRONG = "before attribute|in attribute|after attribute|before value|in value|after value|in comment|in a wrong line".split("|")


def automaton(st, ch, full):
    """(next state, add the pair, wrong lines, what is stored, index) ; index: None as before, 0, 1, +"""
    if ch in "\n\r":
        if st in (IN_A, POST_A):
            return ("end", 0, 1, None)
        if st in (PRE_V, IN_V):
            return ("end", 1, 0, "v0")
        return ("end", 0, 0, None)
    if st in (COMMENT, WRONG):
        return (st, 0, 0, None)
    if ch == "#":
        if st in (IN_A, POST_A):
            return (WRONG, 0, 1, None)
        if st in (POST_V, PRE_A):
            return (COMMENT, 0, 0, None)
        return (COMMENT, 1, 0, "v0")
    if ch == "=":
        if st in (IN_V, POST_V, PRE_A, PRE_V):
            return (WRONG, 0, 1, None)
        return (PRE_V, 0, 0, "a0" if st == IN_A else None)
    if ch in " \t":
        if st == IN_A:
            return (POST_A, 0, 0, "a0")
        if st == IN_V:
            return (POST_V, 1, 0, "v0")
        return (st, 0, 0, None)
    if st == IN_A:
        return (WRONG, 0, 1, None) if full else (IN_A, 0, 0, "a")
    if st == IN_V:
        return (WRONG, 0, 1, None) if full else (IN_V, 0, 0, "v")
    if st in (POST_A, POST_V):
        return (WRONG, 0, 1, None)
    return (IN_A, 0, 0, "a") if st == PRE_A else (IN_V, 0, 0, "v")


def config(Pg, R):
    r = "file"
    F = get(Pg, R, r, "CF_addParam")
    if F:
        c, a, v = (F.arg(k) for k in range(3))
        same(R, r, F, "put", nz(F.esum("AA_put"), c, a, v), tok("AA_put", fld(c, CF + "params"), a, v), "attribute and value are kept")
    F = get(Pg, R, r, "CF_read")
    if F:
        o, s = F.events("fopen"), F.events("CF_fscanf")
        if len(o) == 1 and len(s) == 1 and o[0].res and s[0].res:
            f = o[0].res
            same(R, r, F, "file", tok("f", o[0].args[0]), tok("f", F.arg(0)), "the file named")
            same(R, r, F, "ret", F.ret, (ONE - eq0(f)) * s[0].res, "what the file says")
            same(R, r, F, "from", s[0].guard * tok("f", *s[0].args), (ONE - eq0(f)) * tok("f", f), "read from that file")
    F = get(Pg, R, r, "CF_fscanf")
    s = loop_with(Pg, R, r, "CF_fscanf", ("fgetc", "getc", "_IO_getc")) if F else None
    if not s:
        return
    gc = [e for e in s.events if e.name in ("fgetc", "getc", "_IO_getc")]
    if len(gc) != 1 or not gc[0].res or not gc[0].res.atom():
        return R.undecided(r, "CF_fscanf: character not recognised")
    ch = aid(gc[0].res.atom())
    add = [e for e in s.events if e.name == "CF_addParam"]
    bufs = {(e.args[1], e.args[2]) for e in add}
    if len(bufs) != 1:
        return R.undecided(r, "CF_fscanf: pair not recognised")
    ab, vb = next(iter(bufs))
    if ab == vb:
        return R.bad(r, "CF_fscanf:pair", "%s: attribute and value are the same text" % add[0].ins.where())
    rec = add[0].args[0]
    name = lambda b: ("al", b.atom()[1]) if b.atom() and b.atom()[0] == "al" else None
    if name(ab) is None or name(vb) is None:
        return R.undecided(r, "CF_fscanf: buffers not recognised")
    writes = [x for x in s.log if x.kind != "havoc" and x.region in (name(ab), name(vb))]
    errw = [x for x in s.log if x.kind != "havoc" and x.region == ("fd", CF + "error_count")]
    # the variable that indexes the buffers
    idxv = {i for i in s.vars for x in writes for p in x.idx if step.depends(P(p), s.vars[i])}
    if len(idxv) != 1:
        return R.undecided(r, "CF_fscanf: position not recognised")
    iv = next(iter(idxv))
    pos = s.vars[iv]
    others = [i for i in s.vars if i != iv]
    init = {}
    outer = {}
    for i in others:
        c = s.inits[i].const()
        init[i] = c if c is not None else None
    # lines go on with what the surrounding loop keeps; those are end-of-file marks, 0 at first
    start = tuple(init[i] if init[i] is not None else Fraction(0) for i in others)
    if s.inits[iv] != ZERO:
        R.check(r, s.inits[iv].const() is None or False, "CF_fscanf:start", "%s: the position does not start at 0" % gc[0].ins.where())
    seen, todo, pairs = set(), [(start, PRE_A)], 0
    CH = ["#", "=", "\n", "\r", " ", "\t", "x", "-", "9", None]
    bad = False
    while todo and not bad:
        cur = todo.pop()
        if cur in seen:
            continue
        seen.add(cur)
        vals, st = cur
        for c in CH:
            for full, at_ in ((0, 1), (0, 5)) + (((1, 1023),) if c in ("x", "-", "9") else ()) if st in (IN_A, IN_V) else ((0, 0 if st in (PRE_A, PRE_V) else 5),):
                code = -1 if c is None else ord(c)
                # the first position, one well inside, or the last one
                m = {ch: P(code), aid(pos.atom()): P(at_)}
                m.update({aid(s.vars[i].atom()): P(v) for i, v in zip(others, vals)})
                E = lambda p: subst(p, m)
                nxt, adds, wrong, store = automaton(st, "\n" if c is None else c, full)
                where = "%s, character %s" % (st, "end of file" if c is None else repr(c))
                ga = sum((E(e.guard) for e in add), ZERO)
                ge = ZERO
                for x in errw:
                    ge = ge + E(x.guard)
                if ga.const() is None or ge.const() is None:
                    R.undecided(r, "CF_fscanf: %s: not resolved" % where)
                    continue
                pairs += 1
                if not R.check(r, ga.const() == adds, "CF_fscanf:add", "%s: %s: the pair is %s" % (gc[0].ins.where(), where, "added" if ga.const() else "not added")):
                    bad = True
                if not R.check(r, (ge.const() != 0) == bool(wrong), "CF_fscanf:wrong", "%s: %s: the line is %s" % (gc[0].ins.where(), where, "counted as wrong" if ge.const() else "not counted as wrong")):
                    bad = True
                # stored text
                got = {}
                for x in writes:
                    g_ = E(x.guard)
                    if g_.const() is None:
                        got = None
                        break
                    if g_.const():
                        got[(x.region, E(P(x.idx[0]) if x.idx else ZERO).const())] = E(x.val).const()
                if got is None:
                    R.undecided(r, "CF_fscanf: %s: text not resolved" % where)
                    continue
                ni = E(s.nexts[iv]).const()
                if store:
                    reg = name(ab) if store[0] == "a" else name(vb)
                    k = 0 if st in (PRE_A, PRE_V) and store in ("a", "v") else at_
                    if st == PRE_V and store == "v0":
                        continue_pos = got.get((reg, at_), None)
                        k = at_
                    want = 0 if store.endswith("0") else code
                    if not R.check(r, got.get((reg, k)) == want, "CF_fscanf:text", "%s: %s: the text kept is wrong" % (gc[0].ins.where(), where)):
                        bad = True
                    if not store.endswith("0") and not R.check(r, ni == k + 1, "CF_fscanf:position", "%s: %s: the position does not go on" % (gc[0].ins.where(), where)):
                        bad = True
                    if nxt == PRE_V and not R.check(r, ni == 0, "CF_fscanf:position", "%s: %s: the value does not start at 0" % (gc[0].ins.where(), where)):
                        bad = True
                    if st == IN_A and nxt == POST_A and not R.check(r, ni == 0, "CF_fscanf:position", "%s: %s: the value does not start at 0" % (gc[0].ins.where(), where)):
                        bad = True
                nv = []
                for i in others:
                    q = E(s.nexts[i]).const()
                    nv.append(q)
                if any(q is None for q in nv):
                    R.undecided(r, "CF_fscanf: %s: next state not resolved" % where)
                    continue
                mm = {aid(s.vars[i].atom()): P(v) for i, v in zip(others, nv)}
                go = subst(s.cont, mm).const()
                lv = E(s.leave).const()
                if go is None or lv is None:
                    R.undecided(r, "CF_fscanf: %s: end of line not resolved" % where)
                    continue
                ends = lv != 0 or go == 0
                if not R.check(r, ends == (nxt == "end"), "CF_fscanf:end", "%s: %s: the line %s" % (gc[0].ins.where(), where, "ends" if ends else "goes on")):
                    bad = True
                if not ends and nxt != "end":
                    todo.append((tuple(nv), nxt))
    R.check(r, pairs > 0, "CF_fscanf", "no state of CF_fscanf analysed") if pairs else R.undecided(r, "CF_fscanf: no state analysed")


def modes(Pg, R):
    """-verbose turns on the mode it names: the number of the mode stored as the option is the one whose switch is set"""
    sets, vals = [], []
    for fn in sorted(Pg.reachable):
        f = Pg.funcs.get(fn)
        for I in (f.insts() if f else ()):
            if I.op == "store":
                a, v = Pg.term(I, I.args[1]), Pg.term(I, I.args[0])
                if a[0] == "ix" and a[1] == ("g", "gVerbose"):
                    if v[0] != "i" or v[1] != 0:
                        sets.append((I, a[2], v))
                elif a[0] == "fd" and a[2] == OP + "verbose" and v[0] != "i":
                    vals.append((I, v))
    tests = [I for fn in sorted(Pg.reachable) if fn in Pg.funcs for I in Pg.funcs[fn].insts() if I.op == "load" and Pg.term(I, I.args[0])[:2] == ("ix", ("g", "gVerbose"))]
    if not tests:
        return
    if not sets:
        escaped = any(("g", "gVerbose") in [x for x in subterms(Pg.term(I, o))] for fn in sorted(Pg.reachable) if fn in Pg.funcs for I in Pg.funcs[fn].insts() if I.op in ("call", "phi") or I.op == "store"
                      for o in ([x for x, _ in I.d["in"]] if I.op == "phi" else I.args[:1] if I.op == "store" else I.args))
        if escaped:
            R.undecided("pass", "verbose modes are set through a pointer")
        else:
            R.bad("pass", "verbose:modes", "%s: verbose modes are tested here, but nothing turns one on" % tests[0].where(), tests[0])
        return
    for I, ix, v in sets:
        if any(J.f is I.f and x == ix for J, x in vals) or ix[0] == "ld" and ix[1][0] == "fd" and ix[1][2] == OP + "verbose":
            if v == ("i", 1):
                R.hold("pass", I)
                return
    R.undecided("pass", "verbose modes are set in another way")
