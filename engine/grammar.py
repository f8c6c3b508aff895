"""Semantic actions of the model-file grammar, each as a function of its own."""
import os, subprocess, tempfile, shutil, copy
import xml.etree.ElementTree as ET
from kern import *
from poly import rewrite
import kern, ir

YFILE = "src/mdp/parser.y"


class Rule:
    def __init__(s, n, lhs, rhs):
        s.n, s.lhs, s.rhs = n, lhs, rhs
        s.host = None      # (rule, position) of an action inside a rule

    @property
    def depth(s):
        """number of symbols on the stack that the action can name"""
        return s.host[1] if s.host else len(s.rhs)

    def __repr__(s):
        if s.host:
            h = s.host[0]
            return "%s: %s {action}" % (h.lhs, " ".join(h.rhs[:s.host[1]]))
        return "%s: %s" % (s.lhs, " ".join(s.rhs) or "/* empty */")


def rules(root=None):
    root = root or ir.REPO
    d = tempfile.mkdtemp(prefix="verif-y-")
    try:
        ir._run(["bison", "-y", "--xml=" + os.path.join(d, "g.xml"), "-o", os.path.join(d, "p.c"), os.path.join(root, YFILE)])
        t = ET.parse(os.path.join(d, "g.xml"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = []
    for r in t.getroot().find("grammar").find("rules"):
        out.append(Rule(int(r.get("number")), r.find("lhs").text, [x.text for x in r.find("rhs").findall("symbol")]))
    by = {r.lhs: r for r in out if r.lhs[0] in "$@" and r.n}
    for r in out:
        for k, x in enumerate(r.rhs):
            if x in by and x.startswith(("$@", "@")):
                by[x].host = (r, k)
    return out


class Actions:
    def __init__(s, Pg, fn="yyparse"):
        s.P = Pg
        s.f = f = Pg.need(fn)
        sw = None
        for b in f.blocks:
            if b and b[-1].op == "switch" and len(b[-1].d["cases"]) > 20:
                if sw is None or len(b[-1].d["cases"]) > len(sw.d["cases"]):
                    sw = b[-1]
        if sw is None:
            raise ir.AnalysisBroken("dispatch over grammar rules not found in %s" % fn)
        s.sw = sw
        s.case = {c[0]: c[1] for c in sw.d["cases"]}
        s.join = f.ipdom.get(sw.b) if hasattr(f, "ipdom") else None
        s.memo = {}
        # byacc numbers its rules from 0 ($accept), bison from 1
        s.byacc = any("YYSTACKDATA" in x for x in Pg.lls)
        s.shift = 0 if s.byacc else 1

    def peel(s, o):
        """value that was stored into the union carried by a value of another type"""
        I = s.f.byid.get(o[1]) if o[0] == "v" else None
        if I is None or I.op not in ("bitcast", "inttoptr"):
            return o
        x = I.args[0]
        J = s.f.byid.get(x[1]) if x[0] == "v" else None
        if J is not None and J.op == "or":
            for y in J.args:
                Z = s.f.byid.get(y[1]) if y[0] == "v" else None
                if Z is not None and Z.op == "zext":
                    return Z.args[0]
                if y[0] == "i":
                    v = y[1] & 0xffffffff
                    return ["i", v - (1 << 32) if v >= 1 << 31 else v]
            return o
        if J is not None and J.op == "and":     # constant zero put into the low part
            return ["i", 0]
        return x if J is None else o

    def func(s, n):
        """body of the action of rule n as a function"""
        f = s.f
        entry = s.case.get(n + s.shift)
        if entry is None or entry == s.sw.d["def"]:
            return None
        region, st = [], [entry]
        join = s.join
        while st:
            b = st.pop()
            if b in region or b == join:
                continue
            region.append(b)
            st += f.succ[b]
        m = {b: k for k, b in enumerate(region)}
        ret = len(region)
        inside = {I.id for b in region for I in f.blocks[b]}
        outer = {}

        def val(o):
            if not isinstance(o, list) or not o:
                return o
            if o[0] == "v" and o[1] not in inside:
                return ["a", outer.setdefault(o[1], len(outer))]
            if o[0] == "a":
                return ["a", outer.setdefault(("a", o[1]), len(outer))]
            return [val(x) if isinstance(x, list) else x for x in o]
        blocks = []
        for b in region:
            L = []
            for I in f.blocks[b]:
                d = copy.deepcopy(I.d)
                if "a" in d:
                    d["a"] = [val(x) for x in d["a"]]
                if d["o"] == "call":
                    d["c"] = val(d["c"])
                if d["o"] == "phi":
                    d["in"] = [[val(x), m[b]] for x, b in d["in"] if b in m]
                if "s" in d:
                    d["s"] = [m.get(x, ret) for x in d["s"]]
                if d["o"] == "switch":
                    d["cases"] = [[c[0], m.get(c[1], ret)] for c in d["cases"]]
                    d["def"] = m.get(d["def"], ret)
                L.append(d)
            blocks.append(L)
        last, rv = [], []
        for I in f.blocks[join] if join is not None else ():
            if I.op == "phi" and not rv:
                ins = [[val(s.peel(x)), m[b]] for x, b in I.d["in"] if b in m]
                if ins:
                    last.append({"o": "phi", "i": 10 ** 7 + 1, "t": I.ty, "in": ins})
                    rv = [["v", 10 ** 7 + 1]]
        blocks.append(last + [{"o": "ret", "i": 10 ** 7, "a": rv}])
        ps = [None] * len(outer)
        for v, k in outer.items():
            ps[k] = {"n": "outer_%s" % (v,), "t": "?", "v": v}
        g = ir.Func(s.P, {"name": "%s#%d" % (f.name, n), "file": f.file, "line": f.line, "static": True, "va": False, "ret": "void",
                          "args": ps, "names": {}, "blocks": blocks})
        g.outer = outer
        return g

    def summary(s, n):
        if n not in s.memo:
            g = s.func(n)
            s.memo[n] = (g, Kern(s.P, g, effects(s.P)).run()) if g else (None, None)
        return s.memo[n]

    def _isbase(s, b):
        t = b.atom()
        if s.byacc:
            return bool(t) and t[0] == "rd" and t[1] == ("fd", "YYSTACKDATA.l_mark")
        return bool(t) and t[0] == "arg"

    def norm(s, p):
        """name the values on the parser's stack by their distance from the top"""
        if p is None:
            return None
        def low(t):
            """value put into the low half of a wider one"""
            if t[0] == "op" and t[1] == "or" and len(t[2]) == 2:
                for k in (0, 1):
                    x = t[2][k].atom()
                    if x and x[0] == "op" and x[1] == "and" and P(-4294967296) in x[2]:
                        return t[2][1 - k]
        p = rewrite(p, "low", lambda t: low(t) is not None, low)
        return rewrite(p, "stack%d" % s.byacc, lambda t: t[0] == "rd" and t[1] == ("mem",) and s._isbase(t[2][0]),
                       lambda t: A("top", t[2][1] if len(t[2]) > 1 else ZERO))

    def value(s, n):
        """what the action leaves in $$"""
        g, K = s.summary(n)
        if K is None:
            return None
        return s.norm(K.ret if K.ret is not None else K.final(("g", "yyval")))


class Act:
    """summary of an action with the interface of spec.Fn"""

    def __init__(s, acts, rule):
        s.acts, s.rule = acts, rule
        s.P = acts.P
        s.name = "%s [%s]" % (acts.f.name, rule)
        g, s.K = acts.summary(rule.n)

        class Where:
            file, line = YFILE, 0
        for I in (g.insts() if g else ()):
            l = I.d.get("l")
            if l and l[0].endswith("parser.y"):
                Where.line = l[1]
                break
        s.f = Where

    def sym(s, k):
        """$k"""
        return A("top", P(k - s.rule.depth))

    def norm(s, p):
        return s.acts.norm(p)
