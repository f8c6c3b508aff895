"""What a model file says is what the model becomes: grammar actions, matrix entries, names, counts and errors."""
from spec import *
import grammar

TITLE = "model files mean what the format says, and wrong ones are rejected"
CTX = ("trans_single", "trans_row", "trans_all", "obs_single", "obs_row", "obs_all", "reward_single", "reward_row", "reward_all",
       "reward_mdp_only", "start_belief", "mdp_start", "start_include", "start_exclude")
WILD, ABSENT = P(-1), P(-99)


def names(R, Pg):
    c = {x: enum(Pg, "mc_" + x) for x in CTX}
    c["none"] = enum(Pg, "mc_none")
    c["POMDP"], c["MDP"] = enum(Pg, "POMDP_problem_type"), enum(Pg, "MDP_problem_type")
    return c


def anyof(ps):
    """at least one of the conditions"""
    r = ONE
    for p in ps:
        r = r * (ONE - p)
    return ONE - r


def wit(e):
    """condition of a call, without what it ranges over"""
    g_ = e.guard
    for v, d in reversed(e.vd):
        g_ = mk_any(v, d, g_)
    return g_


def run(Pg, R):
    for n, t in (("context", "a specification names its actions, states and observations: the given one, or all for a wildcard; the first value goes to row 0, column 0; rewards and start states are prepared"),
                 ("enter", "each value of a matrix goes to the next row and column of every action named, and one value too many is an error"),
                 ("fill", "uniform, identity and reset put the probabilities they stand for into every row named"),
                 ("count", "a matrix with too few or too many values is an error, and a reward specification is completed"),
                 ("start", "start states give a distribution: as listed, uniform over the included or not excluded states, or an error"),
                 ("names", "names are numbered in the order in which they are given, a repeated name is an error, and a name stands for its number"),
                 ("numbers", "numbers for actions, states, observations, probabilities and the discount outside of their range are errors, others are used as they are"),
                 ("dispatch", "each form of specification takes its action, states and observation from their places"),
                 ("check", "a model without discount, values, states or actions, with rows that do not sum to one, or with observation probabilities but no observations is an error"),
                 ("reject", "a file with a syntax error or any other error is rejected and no model is made from it")):
        R.rule(n, t, 1)
    C = names(R, Pg)
    context(Pg, R, C)
    enter(Pg, R, C)
    fill(Pg, R, C)
    count(Pg, R, C)
    start(Pg, R, C)
    name(Pg, R, C)
    check(Pg, R, C)
    gram(Pg, R, C)


def cc(p, C, c, pt=None):
    p = when(p, g("curMatrixContext"), C[c])
    return when(p, g("gProblemType"), C[pt]) if pt else p


# ------------------------------------------------------------------ contexts
def context(Pg, R, C):
    r = "context"
    F = get(Pg, R, r, "setMatrixContext")
    if not F:
        return
    c, a, i, j, o = (F.arg(k) for k in range(5))
    n = {"A": a, "I": i, "J": j, "Obs": o}
    top = {"A": A_, "I": S_, "J": S_, "Obs": O_}
    for x in n:
        wild = lt0(n[x], "i")
        for key, wv in (("min", ZERO), ("max", top[x] - 1)):
            got = final_g(F, key + x)
            same(R, r, F, key + x, (ONE - wild) * got, (ONE - wild) * n[x], "range of the %s named" % x)
            same(R, r, F, key + x + ":all", when(got, n[x], -1), wv, "range of the %s for a wildcard" % x)
    for x in ("curRow", "curCol", "gTooManyEntries"):
        same(R, r, F, x, final_g(F, x), ZERO, "start of a matrix")
    same(R, r, F, "ctx", final_g(F, "curMatrixContext"), c, "kind of specification")
    ev = F.esum("newImmReward")

    def sel(p, x, pt):
        return when(when(p, c, C[x]), g("gProblemType"), C[pt])
    for x, pt, want in (("reward_single", "POMDP", (a, i, j, o)), ("reward_row", "POMDP", (a, i, j, ABSENT)), ("reward_all", "POMDP", (a, i, ABSENT, ABSENT)),
                        ("reward_row", "MDP", (a, i, j, ZERO)), ("reward_all", "MDP", (a, i, ABSENT, ZERO)), ("reward_mdp_only", "MDP", (a, ABSENT, ABSENT, ZERO))):
        same(R, r, F, "reward:%s:%s" % (x, pt), sel(ev, x, pt), tok("newImmReward", *want), "%s in a%s" % (x, " POMDP" if pt == "POMDP" else "n MDP"))
    for x in ("trans_single", "trans_row", "trans_all", "obs_single", "obs_row", "obs_all"):
        same(R, r, F, "noreward:" + x, sel(ev, x, "POMDP"), ZERO, "no reward is started by " + x)
    errs = anyof([wit(e) for e in F.events("ERR_enter")])
    for x, pt in (("reward_single", "MDP"), ("reward_mdp_only", "POMDP"), ("start_include", "MDP"), ("start_exclude", "MDP")):
        same(R, r, F, "err:%s:%s" % (x, pt), sel(errs, x, pt), ONE, "%s is an error in a%s" % (x, " POMDP" if pt == "POMDP" else "n MDP"))
    for x in CTX:
        for pt in ("MDP", "POMDP"):
            if (x, pt) not in (("reward_single", "MDP"), ("reward_mdp_only", "POMDP"), ("start_include", "MDP"), ("start_exclude", "MDP")) and not (pt == "MDP" and x == "start_belief") and not (pt == "POMDP" and x == "mdp_start"):
                same(R, r, F, "ok:%s:%s" % (x, pt), sel(errs, x, pt), ZERO, "%s is accepted" % x)
    for x, v in (("start_include", ZERO), ("start_exclude", ONE)):
        same(R, "start", F, x, VEC(S_, lambda k: sel(F.at(g("gInitialBelief"), k), x, "POMDP")), VEC(S_, lambda k: v), "belief before states are " + x[6:] + "d")


def entry(m, i, j, v):
    return tok("addEntryToIMatrix", m, i, j, v)


def rg(x):
    return rng(g("min" + x), g("max" + x) + 1)


def mats(F, C, c, pt):
    return cc(F.esum("addEntryToIMatrix"), C, c, pt)


def enter(Pg, R, C):
    r = "enter"
    F = get(Pg, R, r, "enterMatrix")
    if not F:
        return
    v = F.arg(0)
    row, col = g("curRow"), g("curCol")
    ip = lambda a: el(g("IP"), a)
    ir_ = lambda a: el(g("IR"), a)
    add = F.esum("addEntryToIMatrix")
    rew = F.esum("enterImmReward")
    both = add + rew
    cells = lambda m, X, Y: SUM(rg("A"), lambda a: SUM(rg(X), lambda x: SUM(rg(Y), lambda y: entry(m(a), x, y, v))))
    for pt in ("POMDP", "MDP"):
        same(R, r, F, "trans_single:" + pt, cc(both, C, "trans_single", pt), cells(ip, "I", "J"), "one transition probability")
    same(R, r, F, "obs_single", cc(both, C, "obs_single", "POMDP"), cells(ir_, "J", "Obs"), "one observation probability")
    for x in ("obs_single", "obs_row", "obs_all"):
        same(R, r, F, x + ":MDP", cc(both, C, x, "MDP"), ZERO, "no observation probabilities in an MDP")

    def line(key, c, pt, n, val):
        """values of one row"""
        ok = LT0(col - n)
        same(R, r, F, key, cc(both, C, c, pt), ok * val(col), "value of a row")
        same(R, r, F, key + ":col", ok * cc(final_g(F, "curCol"), C, c, pt), ok * (col + 1), "next column")
        same(R, r, F, key + ":many", (ONE - ok) * cc(final_g(F, "gTooManyEntries"), C, c, pt), ONE - ok, "more values than columns")
        same(R, r, F, key + ":fits", ok * cc(final_g(F, "gTooManyEntries"), C, c, pt), ok * g("gTooManyEntries"), "no error while there is room")

    def table(key, c, pt, n, val):
        """values row after row"""
        full = ONE - LT0(col - n)
        rr, k = row + full, (ONE - full) * col
        ok = LT0(rr - S_)
        same(R, r, F, key, cc(both, C, c, pt), ok * val(rr, k), "value of a matrix")
        same(R, r, F, key + ":col", ok * cc(final_g(F, "curCol"), C, c, pt), ok * (k + 1), "next column")
        same(R, r, F, key + ":row", ok * cc(final_g(F, "curRow"), C, c, pt), ok * rr, "next row")
        same(R, r, F, key + ":many", (ONE - ok) * cc(final_g(F, "gTooManyEntries"), C, c, pt), ONE - ok, "more values than rows")
        same(R, r, F, key + ":fits", ok * cc(final_g(F, "gTooManyEntries"), C, c, pt), ok * g("gTooManyEntries"), "no error while there is room")
    forA = lambda fn: SUM(rg("A"), fn)
    for pt in ("POMDP", "MDP"):
        line("trans_row:" + pt, "trans_row", pt, S_, lambda k: forA(lambda a: SUM(rg("I"), lambda x: entry(ip(a), x, k, v))))
        table("trans_all:" + pt, "trans_all", pt, S_, lambda x, k: forA(lambda a: entry(ip(a), x, k, v)))
    line("obs_row", "obs_row", "POMDP", O_, lambda k: forA(lambda a: SUM(rg("J"), lambda x: entry(ir_(a), x, k, v))))
    table("obs_all", "obs_all", "POMDP", O_, lambda x, k: forA(lambda a: entry(ir_(a), x, k, v)))
    im = lambda a, b, c: tok("enterImmReward", a, b, c, v)
    line("reward_row", "reward_row", "POMDP", O_, lambda k: im(0, 0, k))
    table("reward_all", "reward_all", "POMDP", O_, lambda x, k: im(0, x, k))
    one = eq0(col)
    for c, pt in (("reward_single", "POMDP"), ("reward_row", "MDP")):
        same(R, r, F, c + ":" + pt, cc(both, C, c, pt), one * im(0, 0, 0), "single reward")
        same(R, r, F, c + ":many:" + pt, (ONE - one) * cc(final_g(F, "gTooManyEntries"), C, c, pt), ONE - one, "more than one value")
        same(R, r, F, c + ":col:" + pt, one * cc(final_g(F, "curCol"), C, c, pt), one, "value is counted")
    line("reward_all:MDP", "reward_all", "MDP", S_, lambda k: im(0, k, 0))
    table("reward_mdp_only", "reward_mdp_only", "MDP", S_, lambda x, k: im(x, k, 0))
    # start
    ok = LT0(col - S_)
    same(R, "start", F, "belief", ok * cc(F.at(g("gInitialBelief"), col), C, "start_belief", "POMDP"), ok * v, "listed start probability")
    same(R, "start", F, "belief:col", ok * cc(final_g(F, "curCol"), C, "start_belief", "POMDP"), ok * (col + 1), "next state")
    same(R, "start", F, "belief:many", (ONE - ok) * cc(final_g(F, "gTooManyEntries"), C, "start_belief", "POMDP"), ONE - ok, "more start probabilities than states")
    errs = anyof([wit(e) for e in F.events("ERR_enter")])
    for x in ("trans_single", "trans_row", "trans_all", "obs_single", "obs_row", "obs_all", "reward_single", "reward_row", "reward_all", "start_belief"):
        same(R, r, F, "accept:" + x, cc(errs, C, x, "POMDP"), ZERO, "values are accepted")
    st = lambda p: when(cc(p, C, "mdp_start", "MDP"), col, 0)
    bad = anyof([LT0_f(v), ONE - LT0_f(v - S_)])
    same(R, "start", F, "mdp", st(errs), bad, "start state of an MDP out of range")
    tv = A("op", "toint", (v,))
    got = st(final_g(F, "gInitialState"))
    same(R, "start", F, "mdp:state", (ONE - bad) * got, (ONE - bad) * tv, "start state of an MDP")


def LT0_f(d):
    return lt0(P(d), "f")


def fill(Pg, R, C):
    r = "fill"
    F = get(Pg, R, r, "enterUniformMatrix")
    ip = lambda a: el(g("IP"), a)
    ir_ = lambda a: el(g("IR"), a)
    forA = lambda fn: SUM(rg("A"), fn)
    if F:
        for x, m, rows, n in (("trans_row", ip, "I", S_), ("trans_all", ip, None, S_), ("obs_row", ir_, "J", O_), ("obs_all", ir_, None, O_)):
            same(R, r, F, x, mats(F, C, x, "POMDP"), forA(lambda a: SUM(rg(rows) if rows else S_, lambda i: SUM(n, lambda k: entry(m(a), i, k, inv(n))))), "uniform probabilities")
        same(R, r, F, "start", cc(F.esum("setStartStateUniform"), C, "start_belief", "POMDP"), tok("setStartStateUniform"), "uniform start")
        errs = anyof([wit(e) for e in F.events("ERR_enter")])
        for x in ("trans_row", "trans_all", "obs_row", "obs_all", "start_belief"):
            same(R, r, F, "ok:" + x, cc(errs, C, x, "POMDP"), ZERO, "uniform is accepted")
        same(R, r, F, "err", cc(errs, C, "mdp_start", "MDP"), ONE, "uniform start of an MDP is an error")
    F = get(Pg, R, r, "enterIdentityMatrix")
    if F:
        # entries that are zero add nothing
        def nz(e, k, x):
            return x
        same(R, r, F, "identity", mats(F, C, "trans_all", "POMDP"),
             [forA(lambda a: SUM(S_, lambda i: SUM(S_, lambda k: eq0(i - k) * entry(ip(a), i, k, ONE) + (ONE - eq0(i - k)) * entry(ip(a), i, k, ZERO)))),
              forA(lambda a: SUM(S_, lambda i: entry(ip(a), i, i, ONE)))], "identity matrix")
        same(R, r, F, "err", cc(anyof([wit(e) for e in F.events("ERR_enter")]), C, "trans_all", "POMDP"), ZERO, "identity is accepted")
    F = get(Pg, R, r, "enterResetMatrix")
    if F:
        same(R, r, F, "reset", mats(F, C, "trans_row", "POMDP"),
             forA(lambda a: SUM(rg("I"), lambda i: SUM(S_, lambda k: entry(ip(a), i, k, el(g("gInitialBelief"), k))))), "reset goes to the start belief")
        gi = g("gInitialState")
        known = ONE - lt0(gi, "i")
        got = mats(F, C, "trans_row", "MDP")
        same(R, r, F, "reset:mdp", known * got, known * forA(lambda a: SUM(rg("I"), lambda i: entry(ip(a), i, gi, ONE))), "reset goes to the start state")
        errs = anyof([wit(e) for e in F.events("ERR_enter")])
        for v in (0, -1):
            same(R, r, F, "err:%d" % v, when(cc(errs, C, "trans_row", "MDP"), gi, v), P(-v), "reset without a start state is an error")
        same(R, r, F, "reset:none", when(got, gi, -1), ZERO, "reset without a start state enters nothing")
        for x in ("obs_row", "obs_all", "start_belief"):
            same(R, r, F, "err:" + x, cc(errs, C, x, "POMDP"), ONE, "reset outside of a transition row is an error")


def count(Pg, R, C):
    r = "count"
    F = get(Pg, R, r, "checkMatrix")
    if not F:
        return
    row, col = g("curRow"), g("curCol")
    many = ONE - eq0(g("gTooManyEntries"))
    errs = anyof([wit(e) for e in F.events("ERR_enter")])
    fewrow = lambda n: LT0(col - n)
    fewtab = lambda n: anyof([LT0(row - S_ + 1), eq0(row - S_ + 1) * LT0(col - n)])
    for c, pt, few in (("trans_row", "POMDP", fewrow(S_)), ("trans_all", "POMDP", fewtab(S_)), ("obs_row", "POMDP", fewrow(O_)), ("obs_all", "POMDP", fewtab(O_)),
                       ("start_belief", "POMDP", fewrow(S_)), ("reward_row", "POMDP", fewrow(O_)), ("reward_all", "POMDP", fewtab(O_)), ("reward_all", "MDP", fewrow(S_)),
                       ("reward_mdp_only", "MDP", fewtab(S_)), ("reward_single", "POMDP", ZERO), ("reward_row", "MDP", ZERO), ("mdp_start", "MDP", ZERO)):
        # more rows than the matrix has are an error already (rule enter)
        over = LT0(S_ - 1 - row)
        pre = ONE - over if "all" in c or "only" in c else ONE
        same(R, r, F, c + ":" + pt, pre * cc(errs, C, c, pt), pre * anyof([many, few]), "number of values of " + c)
    done = F.esum("doneImmReward")
    for c, pt in (("reward_single", "POMDP"), ("reward_row", "POMDP"), ("reward_all", "POMDP"), ("reward_row", "MDP"), ("reward_all", "MDP"), ("reward_mdp_only", "MDP")):
        same(R, r, F, "done:" + c + pt, cc(done, C, c, pt), tok("doneImmReward"), "the reward specification is completed once")
    for c in ("trans_row", "trans_all", "obs_row", "obs_all", "start_belief"):
        same(R, r, F, "notdone:" + c, cc(done, C, c, "POMDP"), ZERO, "no reward specification")


def start(Pg, R, C):
    r = "start"
    b = g("gInitialBelief")
    F = get(Pg, R, r, "enterStartState")
    if F:
        i = F.arg(0)
        wild = eq0(i - WILD)
        k = fresh(rng(0, S_))
        for x, v in (("start_include", ONE), ("start_exclude", ZERO)):
            named = when(cc(F.at(b, i), C, x, "POMDP"), g("gProblemType"), C["POMDP"])
            inr = (ONE - lt0(i, "i")) * LT0(i - S_)
            same(R, r, F, x, inr * named, inr * v, "named start state")
            al = when(cc(F.at(b, k), C, x, "POMDP"), i, -1)
            same(R, r, F, x + ":all", al, v, "wildcard names all start states")
            oth = cc(F.at(b, k), C, x, "POMDP")
            cond = inr * (ONE - eq0(k - i))
            same(R, r, F, x + ":others", cond * oth, cond * el(b, k), "other states keep their mark")
    F = get(Pg, R, r, "setStartStateUniform")
    if F:
        same(R, r, F, "uniform", VEC(S_, lambda k: when(F.at(b, k), g("gProblemType"), C["POMDP"])), VEC(S_, lambda k: inv(S_)), "uniform start belief")
    F = get(Pg, R, r, "endStartStates")
    if F:
        tot = SUM(S_, lambda k: el(b, k))
        errs = anyof([wit(e) for e in F.events("ERR_enter")])
        k = fresh(rng(0, S_))
        pos = ONE - le0(tot)
        for x in ("start_include", "start_exclude"):
            same(R, r, F, x + ":norm", pos * cc(F.at(b, k), C, x, "POMDP"), pos * el(b, k) * inv(tot), "uniform over the states left")
            same(R, r, F, x + ":none", cc(errs, C, x, "POMDP"), ONE - pos, "no start state left is an error")
        for x in ("start_belief", "none"):
            same(R, r, F, x + ":sum", cc(errs, C, x, "POMDP"), offone(tot), "start probabilities that do not sum to one are an error")
            same(R, r, F, x + ":keep", cc(F.at(b, k), C, x, "POMDP"), el(b, k), "listed probabilities stay as they are")


def le0(p):
    return ONE - lt0(-P(p), "f")


EPS = Fraction(1, 100000)


def offone(x):
    return anyof([lt0(x - (1 - EPS), "f"), lt0(1 + EPS - x, "f")])


# ------------------------------------------------------------------ names
def name(Pg, R, C):
    r = "names"
    NS = "Node_Struct."
    T3 = (("nt_state", "gNumStates"), ("nt_action", "gNumActions"), ("nt_observation", "gNumObservations"))
    F = get(Pg, R, r, "H_enter")
    if F:
        s, t = F.arg(0), F.arg(1)
        h = call("H_string", s)
        chain = LIST(el(g("Hash_Table"), h), NS + "next")
        for en, gl in T3:
            ty = enum(Pg, en)
            dup = SOME(chain, lambda n: (ONE - eq0(call("H_match", s, P(ty), n))))
            new = ONE - dup
            same(R, r, F, "ret:" + en, when(F.ret, t, ty), new, "a name that is there already is refused")
            same(R, r, F, "count:" + en, when(final_g(F, gl), t, ty), new * (g(gl) + 1) + dup * g(gl), "a new name is counted")
            for en2, gl2 in T3:
                if gl2 != gl:
                    same(R, r, F, "count:%s:%s" % (en, gl2), when(final_g(F, gl2), t, ty), g(gl2), "other kinds are not counted")
            node = next((e.res for e in F.events("malloc") if e.res is not None and any(w.region == ("fd", NS + "number") and w.idx[0] == e.res for w in F.K.log)), None)
            if node is None:
                R.undecided(r, "H_enter: new node not recognised")
                continue
            same(R, r, F, "number:" + en, new * when(F.field(node, NS + "number", new), t, ty), new * g(gl), "number of a new name")
            same(R, r, F, "type:" + en, new * when(F.field(node, NS + "type", new), t, ty), new * ty, "kind of a new name")
            cp = [e for e in F.events("strcpy", "strncpy", "memcpy", "strdup")]
            if len(cp) == 1:
                al = lambda p: when_bool(p, dup, 0)
                same(R, r, F, "str:" + en, A("src", cp[0].args[-1 if cp[0].name == "strdup" else 1]) + (al(F.field(node, NS + "str", cp[0].guard if cp[0].name != "strdup" else new))), A("src", s) + (cp[0].args[0] if cp[0].name != "strdup" else cp[0].res), "text of a new name")
            head = el(g("Hash_Table"), h)
            first = new * eq0(head)
            got = when(F.at(g("Hash_Table"), h), t, ty)
            same(R, r, F, "first:" + en, when(got, head, 0), when(new * node, head, 0), "a new name becomes the first of an empty chain")
    F = get(Pg, R, r, "H_lookup")
    if F:
        s, t = F.arg(0), F.arg(1)
        chain = LIST(el(g("Hash_Table"), call("H_string", s)), NS + "next")
        v = fresh(chain)
        hit = lambda n: (ONE - eq0(call("H_match", s, t, n)))
        some = SOME(chain, hit)
        first = close("first", [(v, chain)], (hit(v), v))
        fi = [ALIST[i] for a in F.ret.atoms() for i in poly._all_ids(a) if ALIST[i][0] == "first"]
        same(R, r, F, "absent", when_bool(F.ret, some, 0), P(-1), "number of a name that was not given")
        nums = {i for a in F.ret.atoms() for i in poly._all_ids(a) if ALIST[i][0] == "rd" and ALIST[i][1] == ("fd", NS + "number")}
        if len(nums) == 1:
            same(R, r, F, "present", when_bool(F.ret, some, 1), A(*ALIST[nums.pop()]), "number of a name")
        else:
            R.undecided(r, "H_lookup: number not recognised: %s" % str(F.ret)[:200])
    F = get(Pg, R, r, "H_match")
    if F:
        s, t, n = (F.arg(k) for k in range(3))
        same(R, r, F, "match", F.ret, [eq0(t - fld(n, NS + "type")) * eq0(call("strcmp", x, y)) for x, y in ((s, fld(n, NS + "str")), (fld(n, NS + "str"), s))], "a name matches in kind and text")
    F = get(Pg, R, r, "enterString")
    if F:
        b = F.arg(0)
        ev = F.events("H_enter")
        if len(ev) == 1:
            same(R, r, F, "enter", A("pair", *ev[0].args), A("pair", fld(b, "cNode.theValue"), g("curMnemonic")), "name that is entered")
            same(R, r, F, "dup", anyof([wit(e) for e in F.events("ERR_enter")]), eq0(ev[0].res), "a repeated name is an error")
        else:
            R.undecided(r, "enterString: more than one name entered")
    F = get(Pg, R, r, "H_create")
    if F:
        for _, gl in T3:
            same(R, r, F, gl, final_g(F, gl), ZERO, "no names at first")


def when_bool(p, b, v):
    """the case that a condition (a single atom) has value v"""
    return subst(p, {aid(b.atom()): P(v)}) if b.atom() else p


# ------------------------------------------------------------------ whole file
def check(Pg, R, C):
    r = "check"
    F = get(Pg, R, r, "verifyPreamble")
    if F:
        d = [eq0(g(x)) for x in ("discountDefined", "valuesDefined", "statesDefined", "actionsDefined")]
        same(R, r, F, "missing", anyof([wit(e) for e in F.events("ERR_enter")]), anyof(d), "a missing part of the preamble is an error")
        no = eq0(g("observationsDefined"))
        same(R, r, F, "type", final_g(F, "gProblemType"), no * C["MDP"] + (ONE - no) * C["POMDP"], "a model with observations is a POMDP")
        same(R, r, F, "obs", final_g(F, "gNumObservations"), (ONE - no) * O_, "number of observations")
        for x, n in (("statesDefined", "gNumStates"), ("actionsDefined", "gNumActions")):
            same(R, r, F, n, (ONE - eq0(g(x))) * final_g(F, n), (ONE - eq0(g(x))) * g(n), "a number that was given is kept")
    F = get(Pg, R, r, "checkProbs")
    if F:
        row = lambda m: SOME(A_, lambda a: SOME(S_, lambda i: offone(call("sumIMatrixRowValues", el(g(m), a), i))))
        errs = [wit(e) for e in F.events("ERR_enter")]
        spec_ = ONE - eq0(g("observationSpecDefined"))
        got = [when(e, g("gProblemType"), C["POMDP"]) for e in errs]
        same(R, r, F, "pomdp", anyof([e for e in got if e.m]), anyof([row("IP"), row("IR")]), "rows that do not sum to one")
        got = [when(e, g("gProblemType"), C["MDP"]) for e in errs]
        same(R, r, F, "mdp", anyof([e for e in got if e.m]), anyof([row("IP"), spec_]), "rows that do not sum to one, observation probabilities without observations")
    r = "reject"
    F = get(Pg, R, r, "readMDPFile")
    if F:
        y, d = F.events("yyparse"), F.events("ERR_dump")
        if len(y) == 1 and len(d) == 1 and d[0].guard == ONE:
            ok = eq0(y[0].res) * eq0(d[0].res)
            same(R, r, F, "ret", ONE - eq0(F.ret), ok, "a file is accepted when it parses without errors")
            same(R, r, F, "convert", F.esum("convertMatrices"), ok * tok("convertMatrices"), "the model is made from an accepted file")
            for e in F.events("convertMatrices"):
                if e.ins.pos is not None and order(F, e) < max(order(F, y[0]), order(F, d[0])):
                    R.bad(r, "readMDPFile:order", "%s: the model is made before the errors are known" % e.ins.where())
        else:
            R.undecided(r, "readMDPFile: parse or error report not recognised")
    F = get(Pg, R, r, "readMDP")
    if F:
        rd_ = F.events("readMDPFile")
        if len(rd_) == 1:
            same(R, r, F, "ret", ONE - eq0(F.ret), rd_[0].guard * (ONE - eq0(rd_[0].res)), "a file that is not accepted is reported")
    F = get(Pg, R, r, "ERR_dump")
    if F:
        EN = "enode.nextError"
        same(R, r, F, "ret", ONE - eq0(F.ret), ONE - eq0(fld(g("Err_list"), EN)), "errors that were recorded are reported")
    F = get(Pg, R, r, "ERR_enter")
    if F:
        EN = "enode.nextError"
        ok = LT0(F.arg(2) - 29)
        new = next((e.res for e in F.events("malloc", "calloc") if e.res is not None and any(w.kind == "set" and w.region == ("fd", "enode.errorNumber") and w.idx[0] == e.res for w in F.K.log)), None)
        if new is None:
            R.undecided(r, "ERR_enter: new entry not recognised")
        else:
            same(R, r, F, "number", ok * F.field(new, "enode.errorNumber", ok), ok * F.arg(2), "kind of a recorded error")
            same(R, r, F, "line", ok * F.field(new, "enode.lineNumber", ok), ok * F.arg(1), "line of a recorded error")
            links = [w.guard for w in F.K.log if w.kind == "set" and w.region == ("fd", EN) and w.idx[0] != new and w.val == new]
            same(R, r, F, "linked", anyof(links), ok, "an error is put into the list")


def order(F, e):
    return next(k for k, x in enumerate(F.K.events) if x is e)


# ------------------------------------------------------------------ grammar
def gram(Pg, R, C):
    try:
        acts = grammar.Actions(Pg)
        rules = grammar.rules()
    except AnalysisBroken as e:
        for r in ("numbers", "dispatch"):
            R.undecided(r, "grammar: %s" % str(e)[:200])
        return
    bare = lambda r: [x for x in r.rhs if x[0] not in "$@"]
    table = {}
    for r in rules:
        if r.host:
            h = r.host[0]
            table[(h.lhs, tuple(bare(h)), len([x for x in h.rhs[:r.host[1]] if x[0] not in "$@"]))] = r
        else:
            table[(r.lhs, tuple(bare(r)), None)] = r

    def act(rule, lhs, rhs, pos=None):
        r = table.get((lhs, tuple(rhs.split()), pos))
        if r is None:
            R.undecided(rule, "no such form in the grammar: %s: %s" % (lhs, rhs))
            return None
        try:
            a = grammar.Act(acts, r)
        except (RecursionError, Unsupported, KeyError, IndexError, ValueError, AssertionError, TypeError, AttributeError) as e:
            R.undecided(rule, "%s: summary not available (%s: %s)" % (r, type(e).__name__, e))
            return None
        a.key = "%s:%s%s" % (lhs, "_".join(rhs.split()), "" if pos is None else "@%d" % pos)
        return a

    def cmp(rule, a, key, got, want, what):
        wants = want if isinstance(want, (list, tuple)) else [want]
        got = a.norm(got) if got is not None else None
        same(R, rule, a, a.key + ":" + key, got, wants, "%s: %s" % (a.rule, what))

    def err(a):
        return anyof([wit(e) for e in a.K.events if e.name == "ERR_enter"]) if a.K else ZERO

    def calls(a, *ns):
        z = ZERO
        for e in (a.K.events if a.K else ()):
            if e.name in ns:
                z = z + tok_sum(e)
        return z
    full = lambda a, k: sum(1 for x in a.rule.host[0].rhs[:k] if 1) if a.rule.host else k

    def place(a, k):
        """$k counting only symbols that are written in the grammar"""
        rhs = a.rule.host[0].rhs if a.rule.host else a.rule.rhs
        n = 0
        for p, x in enumerate(rhs):
            if x[0] not in "$@":
                n += 1
            if n == k:
                return A("top", P(p + 1 - a.rule.depth))
        raise AnalysisBroken("no symbol %d in %s" % (k, a.rule))
    r = "dispatch"
    # (form, place of the action inside, context, places of action, state, next state, observation; None: not used)
    forms = [("trans_spec_tail", "action COLONTOK state COLONTOK state prob", 5, "trans_single", (1, 3, 5, None)),
             ("trans_spec_tail", "action COLONTOK state u_matrix", 3, "trans_row", (1, 3, None, None)),
             ("trans_spec_tail", "action ui_matrix", 1, "trans_all", (1, None, None, None)),
             ("obs_spec_tail", "action COLONTOK state COLONTOK obs prob", 5, "obs_single", (1, None, 3, 5)),
             ("obs_spec_tail", "action COLONTOK state u_matrix", 3, "obs_row", (1, None, 3, None)),
             ("obs_spec_tail", "action u_matrix", 1, "obs_all", (1, None, None, None)),
             ("reward_spec_tail", "action COLONTOK state COLONTOK state COLONTOK obs number", 7, "reward_single", (1, 3, 5, 7)),
             ("reward_spec_tail", "action COLONTOK state COLONTOK state num_matrix", 5, "reward_row", (1, 3, 5, None)),
             ("reward_spec_tail", "action COLONTOK state num_matrix", 3, "reward_all", (1, 3, None, None)),
             ("reward_spec_tail", "action num_matrix", 1, "reward_mdp_only", (1, None, None, None)),
             ("start_state", "STARTTOK INCLUDETOK COLONTOK start_state_list", 3, "start_include", (None,) * 4),
             ("start_state", "STARTTOK EXCLUDETOK COLONTOK start_state_list", 3, "start_exclude", (None,) * 4)]
    for lhs, rhs, pos, ctx, pl in forms:
        a = act(r, lhs, rhs, pos)
        if not a or not a.K:
            continue
        ev = [e for e in a.K.events if e.name == "setMatrixContext"]
        if len(ev) != 1:
            R.undecided(r, "%s: context set %d times" % (a.rule, len(ev)))
            continue
        e = ev[0]
        used = [k for k in range(4) if pl[k] is not None]
        cmp(r, a, "ctx", e.guard * A("tup", e.args[0], *(e.args[1 + k] for k in used)), A("tup", P(C[ctx]), *(place(a, pl[k]) for k in used)), "kind of specification and its action, states and observation")
    a = act(r, "start_state", "STARTTOK COLONTOK u_matrix", 2)
    if a and a.K:
        for pt, ctx in (("POMDP", "start_belief"), ("MDP", "mdp_start")):
            ev = [e for e in a.K.events if e.name == "setMatrixContext"]
            cmp(r, a, "ctx" + pt, sum((when(e.guard * e.args[0], g("gProblemType"), C[pt]) for e in ev), ZERO), P(C[ctx]), "start of a " + pt)
    MC = ("enterMatrix", "checkMatrix", "enterUniformMatrix", "enterIdentityMatrix", "enterResetMatrix", "endStartStates", "verifyPreamble", "allocateIntermediateMDP",
          "checkProbs", "setStartStateUniform", "enterStartState", "enterString")
    ends = [("trans_spec_tail", "action COLONTOK state COLONTOK state prob", None, [("enterMatrix", 6)]),
            ("obs_spec_tail", "action COLONTOK state COLONTOK obs prob", None, [("enterMatrix", 6)]),
            ("reward_spec_tail", "action COLONTOK state COLONTOK state COLONTOK obs number", None, [("enterMatrix", 8), ("checkMatrix",)]),
            ("reward_spec_tail", "action COLONTOK state COLONTOK state num_matrix", None, [("checkMatrix",)]),
            ("reward_spec_tail", "action COLONTOK state num_matrix", None, [("checkMatrix",)]),
            ("reward_spec_tail", "action num_matrix", None, [("checkMatrix",)]),
            ("ui_matrix", "UNIFORMTOK", None, [("enterUniformMatrix",)]), ("ui_matrix", "IDENTITYTOK", None, [("enterIdentityMatrix",)]), ("ui_matrix", "prob_matrix", None, [("checkMatrix",)]),
            ("u_matrix", "UNIFORMTOK", None, [("enterUniformMatrix",)]), ("u_matrix", "RESETTOK", None, [("enterResetMatrix",)]), ("u_matrix", "prob_matrix", None, [("checkMatrix",)]),
            ("prob_matrix", "prob_matrix prob", None, [("enterMatrix", 2)]), ("prob_matrix", "prob", None, [("enterMatrix", 1)]),
            ("num_matrix", "num_matrix number", None, [("enterMatrix", 2)]), ("num_matrix", "number", None, [("enterMatrix", 1)]),
            ("start_state_list", "start_state_list state", None, [("enterStartState", 2)]), ("start_state_list", "state", None, [("enterStartState", 1)]),
            ("ident_list", "ident_list STRINGTOK", None, [("enterString", 2)]), ("ident_list", "STRINGTOK", None, [("enterString", 1)]),
            ("start_state", "", None, [("setStartStateUniform",)]),
            ("pomdp_file", "preamble start_state param_list", 1, [("verifyPreamble",), ("allocateIntermediateMDP",)]),
            ("pomdp_file", "preamble start_state param_list", 2, [("endStartStates",)]),
            ("pomdp_file", "preamble start_state param_list", None, [("checkProbs",)])]
    for lhs, rhs, pos, want in ends:
        a = act(r, lhs, rhs, pos)
        if not a:
            continue
        got = ZERO
        n = 0
        for e in (a.K.events if a.K else ()):
            if e.name in MC:
                got = got + e.guard * A("step", P(n), A("tok", e.name, tuple(a.norm(x) for x in e.args)))
                n += 1
        cmp(r, a, "calls", got, sum((A("step", P(k), tok(w[0], *(place(a, x) for x in w[1:]))) for k, w in enumerate(want)), ZERO), "what the values are used for")
    a = act(r, "start_state", "STARTTOK COLONTOK STRINGTOK")
    if a and a.K:
        num = call("H_lookup", fld(place(a, 3), "cNode.theValue"), P(enum(Pg, "nt_state")))
        ok = (ONE - lt0(num, "i")) * LT0(num - S_)
        cmp(r, a, "err", err(a), ONE - ok, "an unknown start state is an error")
        cmp(r, a, "mdp", ok * when(a.norm(a.K.final(("g", "gInitialState"))), g("gProblemType"), C["MDP"]), ok * num, "start state of an MDP")
        cmp(r, a, "pomdp", ok * when(a.norm(a.K.final(("mem",), g("gInitialBelief"), raw(a, "H_lookup"))), g("gProblemType"), C["POMDP"]) if raw(a, "H_lookup") is not None else None, ok, "start state of a POMDP")
    a = act(r, "param_spec", "obs_prob_spec")
    if a and a.K:
        cmp(r, a, "seen", a.K.final(("g", "observationSpecDefined")), ONE, "observation probabilities were given")
    r = "numbers"
    for lhs, n, en in (("state", "gNumStates", "nt_state"), ("action", "gNumActions", "nt_action"), ("obs", "gNumObservations", "nt_observation")):
        for form, val in (("INTTOK", lambda x: x), ("STRINGTOK", lambda x: call("H_lookup", x, P(enum(Pg, en))))):
            a = act(r, lhs, form)
            if a and a.K:
                v = val(fld(place(a, 1), "cNode.theValue"))
                ok = (ONE - lt0(v, "i")) * LT0(v - g(n))
                cmp(r, a, "err", err(a), ONE - ok, "out of range is an error")
                cmp(r, a, "value", ok * a.acts.value(a.rule.n), ok * v, "number it stands for")
        a = act(r, lhs, "ASTERICKTOK")
        if a and a.K:
            cmp(r, a, "wild", a.acts.value(a.rule.n), WILD, "wildcard")
    for lhs, n, df, en in (("state", "gNumStates", "statesDefined", "nt_state"), ("action", "gNumActions", "actionsDefined", "nt_action"), ("obs", "gNumObservations", "observationsDefined", "nt_observation")):
        tail = "obs_param_tail" if lhs == "obs" else lhs + "_tail"
        head = {"state": "STATETOK", "action": "ACTIONTOK", "obs": "OBSTOK"}[lhs]
        a = act(r, tail, "INTTOK")
        if a and a.K:
            v = fld(place(a, 1), "cNode.theValue")
            bad = LT0(v - 1)
            cmp(r, a, "err", err(a), bad, "a number below one is an error")
            cmp(r, a, "num", (ONE - bad) * a.norm(a.K.final(("g", n))), (ONE - bad) * v, "number given")
        a = act(r, lhs + "_param", "%s COLONTOK %s" % (head, tail), 2)
        if a and a.K:
            cmp(r, a, "kind", a.K.final(("g", "curMnemonic")), P(enum(Pg, en)), "kind of the names that follow")
        a = act(r, lhs + "_param", "%s COLONTOK %s" % (head, tail))
        if a and a.K:
            cmp(r, a, "seen", a.K.final(("g", df)), ONE, "this part of the preamble was given")
    a = act(r, "discount_param", "DISCOUNTTOK COLONTOK number")
    if a and a.K:
        v = place(a, 3)
        cmp(r, a, "value", a.K.final(("g", "gDiscount")), v, "discount")
        cmp(r, a, "err", err(a), anyof([lt0(v, "f"), lt0(1 - v, "f")]), "a discount outside of 0 to 1 is an error")
        cmp(r, a, "seen", a.K.final(("g", "discountDefined")), ONE, "the discount was given")
    a = act(r, "value_param", "VALUESTOK COLONTOK value_tail")
    if a and a.K:
        cmp(r, a, "seen", a.K.final(("g", "valuesDefined")), ONE, "the kind of values was given")
    for t, en in (("REWARDTOK", "REWARD_value_type"), ("COSTTOK", "COST_value_type")):
        a = act(r, "value_tail", t)
        if a and a.K:
            cmp(r, a, "kind", a.K.final(("g", "gValueType")), P(enum(Pg, en)), "rewards or costs")
    mdp = eq0(g("curMatrixContext") - C["mdp_start"])
    for t, kd in (("INTTOK", "i"), ("FLOATTOK", "f")):
        a = act(r, "prob", t)
        if a and a.K:
            v = fld(place(a, 1), "cNode.theValue")
            cmp(r, a, "value", a.acts.value(a.rule.n), v, "value")
            out = anyof([lt0(v, "f"), lt0(1 - v, "f")])
            cmp(r, a, "err", err(a), (ONE - mdp) * out if kd == "i" else anyof([mdp, out]), "a probability outside of 0 to 1 is an error")
        a = act(r, "number", "optional_sign " + t)
        if a and a.K:
            v = fld(place(a, 2), "cNode.theValue")
            neg = ONE - eq0(place(a, 1))
            cmp(r, a, "value", a.acts.value(a.rule.n), v - 2 * neg * v, "signed number")
    for t, v in (("PLUSTOK", 0), ("MINUSTOK", 1), ("", 0)):
        a = act(r, "optional_sign", t)
        if a:
            got = a.acts.value(a.rule.n) if a.K else None
            if got is not None:
                cmp(r, a, "sign", ONE - eq0(got), P(v), "sign")


def raw(a, fn):
    """the call as it appears in the summary"""
    for w in a.K.log:
        for x in w.idx:
            t = x.atom()
            if t and t[0] == "call" and t[1] == fn:
                return x
    return None
