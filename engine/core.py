"""Common runner: one report per property, evidence file, known findings."""
import json, os, sys, time, traceback, argparse, importlib, re, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
from prog import *

KNOWN = os.path.join(VERIF, "known-findings.json")


class Report:
    def __init__(s, prop, title):
        s.prop, s.title = prop, title
        s.obl = {}          # rule -> number of instances examined
        s.ok = {}
        s.und = {}          # rule -> undecided instances (text)
        s.viol = []         # (key, text)
        s.notes = []
        s.functions = set()
        s.rules = {}
        s.present, s.gone = set(), set()

    def rule(s, name, text, floor=1):
        """declare a rule; floor = least number of instances confirmed by reading"""
        s.rules[name] = (text, floor)
        s.obl.setdefault(name, 0)
        s.ok.setdefault(name, 0)

    def hold(s, rule, I=None, n=1):
        s.obl[rule] += n
        s.ok[rule] += n
        if I is not None:
            s.functions.add(I.f.name if hasattr(I, "f") else str(I))

    def missing(s, rule, name):
        """a function the rule is about does not exist (any more)"""
        s.gone.add(name)
        s.undecided(rule, "function %s not found" % name)

    def undecided(s, rule, text):
        s.obl[rule] += 1
        s.und.setdefault(rule, []).append(text)

    def bad(s, rule, key, text, I=None):
        s.obl[rule] += 1
        if I is not None:
            s.functions.add(I.f.name)
        k = "%s:%s" % (rule, key)
        if k not in [v[0] for v in s.viol]:
            s.viol.append((k, text))

    def check(s, rule, cond, key, text, I=None):
        if cond:
            s.hold(rule, I)
        else:
            s.bad(rule, key, text, I)
        return cond


_PROG = None


def load_prog():
    global _PROG
    if _PROG is None:
        _PROG = Prog(extract(keep=keep_list()))
    return _PROG


_VIEWS = {}


def view(*inline):
    """the program with the given functions (too) put in place of their calls"""
    k = frozenset(inline)
    if k not in _VIEWS:
        _VIEWS[k] = Prog(extract(keep=keep_list() - k))
    return _VIEWS[k]


def keep_list():
    p = os.path.join(HERE, "functions.json")
    return set(json.load(open(p)))


def known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN)).get("findings", [])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    rc = 0
    props = a.prop.split(",")
    if a.prop == "all":
        props = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "checks")) if re.match(r"^[A-Z]\d\d\.py$", f))
    for p in props:
        try:
            rc = max(rc, run_one(p, a))
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s %s" % (p, e))
            rc = max(rc, 3)
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s internal error" % p)
            rc = max(rc, 3)
    return rc


def run_one(prop, a):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(prop)
    P = load_prog()
    R = Report(prop, mod.TITLE)
    # what cannot be analysed is undecided; a run that decides nothing is no answer
    stopped = None
    try:
        mod.run(P, R)
    except AnalysisBroken:
        raise
    except Exception as e:
        traceback.print_exc()
        stopped = "analysis stopped early: %r" % (e,)
    for name, (text, floor) in R.rules.items():
        if R.obl[name] < floor:
            R.undecided(name, stopped or "%d instances found, at least %d confirmed by reading" % (R.obl[name], floor))
    if stopped:
        R.notes.append(stopped)
    if not R.viol and not any(R.ok.values()):
        raise AnalysisBroken("nothing decided: %s" % (stopped or "no rule found an instance"))
    if not R.viol and len(R.gone) > len(R.present):
        raise AnalysisBroken("most anchor functions have vanished: %s" % ", ".join(sorted(R.gone)))
    if a.tier == "thorough" and hasattr(mod, "thorough"):
        mod.thorough(P, R)
    kf = {k["key"]: k for k in known() if k["property"] == prop}
    new = []
    for k, text in R.viol:
        if k in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        else:
            new.append((k, text))
    repd = os.path.join(VERIF, "evidence")
    os.makedirs(repd, exist_ok=True)
    replay = os.path.join(repd, prop + ".report.txt")
    lines = ["property %s: %s" % (prop, R.title)]
    for name, (text, floor) in R.rules.items():
        lines.append("rule %s: %s" % (name, text))
        lines.append("  instances %d, satisfied %d, undecided %d" % (R.obl[name], R.ok[name], len(R.und.get(name, []))))
        for u in R.und.get(name, []):
            lines.append("  undecided: " + u)
    for n in R.notes:
        lines.append("note: " + n)
    for k, text in new:
        lines.append("VIOLATION [%s] %s" % (k, text))
    open(replay, "w").write("\n".join(lines) + "\n")
    if a.v:
        print("\n".join(lines))
    tot = sum(R.obl.values())
    ok = sum(R.ok.values())
    ev = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the SSA form of the current sources of the three programs (%d functions compiled, %d reachable from the entry points). %s Rule instances examined: %d; satisfied: %d; undecided (no verdict): %d; reported: %d." % (
                len(P.funcs), len(P.reachable),
                " ".join("[%s] %s (%d instances)." % (n, t[0].rstrip("."), R.obl[n]) for n, t in R.rules.items()),
                tot, ok, sum(len(v) for v in R.und.values()), len(R.viol)),
            "functions_compiled": len(P.funcs), "functions_reachable": len(P.reachable),
            "functions_with_instances": sorted(R.functions),
            "rules": {n: {"rule": t[0], "instances": R.obl[n], "satisfied": R.ok[n], "undecided": len(R.und.get(n, []))} for n, t in R.rules.items()},
            "known_findings": [k for k, _ in R.viol if k in kf],
            "notes": R.notes,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    if not a.no_evidence:
        json.dump(ev, open(os.path.join(repd, prop + ".json"), "w"), indent=1)
    if new:
        for k, text in new:
            if not a.v:
                print("  %s: %s" % (k, text))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("OK property=%s instances=%d satisfied=%d undecided=%d known=%d functions=%d wall=%.1fs" % (
        prop, tot, ok, sum(len(v) for v in R.und.values()), len(R.viol), len(R.functions), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
