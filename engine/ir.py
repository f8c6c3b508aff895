"""Facts about the program under analysis: SSA form of every function that the
three programs are built from, obtained by compiling /repo's current sources.

Nothing here executes the program: it compiles to LLVM IR, normalises it with
irx (inlining of functions that are not in the keep list, promotion of locals)
and reads the result back."""
import functools, glob, hashlib, json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchors vanished, no build...)."""


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build_tool():
    """Compile irx if there is no binary for the current source."""
    src = os.path.join(HERE, "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "verif-irx-cache")):
        try:
            os.makedirs(d, exist_ok=True)
            exe = os.path.join(d, "irx-" + h)
            if os.path.exists(exe) and os.access(exe, os.X_OK):
                return exe
            cfg = "/usr/lib/llvm-18/bin/llvm-config"
            cxx = [f for f in _run([cfg, "--cxxflags"]).split() if not f.startswith("-std")]
            ld = _run([cfg, "--ldflags"]).split()
            tmp = exe + ".%d" % os.getpid()
            _run(["clang++", "-O1", "-std=c++17", "-fno-rtti"] + cxx + [src, "-o", tmp] + ld + ["-lLLVM-18"])
            os.rename(tmp, exe)
            return exe
        except OSError:
            continue
    raise AnalysisBroken("no directory for the fact extractor")


GENERATED = {  # grammar/scanner source -> what the build makes from it
    "src/mdp/parser.y": ["src/mdp/parser.c", "src/mdp/parser.h"],
    "src/mdp/scanner.l": ["src/mdp/scanner.c"],
}
NOT_BUILT = {"src/extra.c", "src/pg-isomorphism.c"}
LP_SRC = ["debug", "hash", "lpkit", "presolve", "solve"]


def _sha(p):
    try:
        return hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError:
        return None


def _base_hashes():
    p = os.path.join(HERE, "generated.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def sources(root):
    s = [os.path.relpath(p, root) for p in sorted(glob.glob(root + "/src/*.c"))]
    s = [p for p in s if p not in NOT_BUILT]
    s += [os.path.relpath(p, root) for p in sorted(glob.glob(root + "/src/mdp/*.c"))]
    s += ["src/lp-solve/%s.c" % n for n in LP_SRC]
    s += [os.path.relpath(p, root) for p in sorted(glob.glob(root + "/src/laspack/*.c"))]
    return s


def _gen_dir(root, tmp):
    """Regenerate parser/scanner in tmp when the build would."""
    base = _base_hashes()
    over = {}
    for src, outs in GENERATED.items():
        ch = lambda f: _sha(os.path.join(root, f)) != base.get(f)
        if base and ch(src) and not any(ch(o) for o in outs):
            d = os.path.join(tmp, "gen")
            os.makedirs(d, exist_ok=True)
            if src.endswith(".y"):
                _run(["bison", "-y", "-d", "-o", os.path.join(d, "parser.c"), os.path.join(root, src)])
                over["src/mdp/parser.c"] = os.path.join(d, "parser.c")
            else:
                _run(["flex", "-o", os.path.join(d, "scanner.c"), os.path.join(root, src)])
                over["src/mdp/scanner.c"] = os.path.join(d, "scanner.c")
    return over


def extract(root=None, keep=None, cflags=()):
    """Compile the current sources and return the parsed fact dictionary."""
    root = root or REPO
    tool = build_tool()
    tmp = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        over = _gen_dir(root, tmp)
        inc = ["-I" + os.path.join(root, d) for d in (".", "src", "src/mdp", "src/lp-solve", "src/laspack")]
        if over:
            inc = ["-I" + os.path.join(tmp, "gen")] + inc

        def one(s):
            out = os.path.join(tmp, s.replace("/", "_") + ".bc")
            path = over.get(s, os.path.join(root, s))
            ren = {"src/pomdp-tools-main.c": ["-Dmain=main_tools"], "src/pomdp-fg-main.c": ["-Dmain=main_fg"]}.get(s, [])
            cmd = ["clang", "-O0", "-g", "-w", "-std=gnu17", "-Wno-error=implicit-function-declaration",
                   "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types",
                   "-Wno-error=return-type", "-ffp-contract=off", "-Xclang", "-disable-O0-optnone",
                   "-fno-builtin", "-fno-discard-value-names", "-emit-llvm", "-DHAVE_CONFIG_H",
                   *cflags, *ren, *inc, "-c", path, "-o", out]
            try:
                # gcc knows the standard string routines even where no header was included
                _run(cmd + ["-include", "string.h"], cwd=root)
            except Exception:
                _run(cmd, cwd=root)
            return out
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, sources(root)))
        out = os.path.join(tmp, "facts.json")
        kf = "-"
        if keep is not None:
            kf = os.path.join(tmp, "keep")
            open(kf, "w").write("\n".join(sorted(keep)) + "\n")
        _run([tool, out, kf] + bcs)
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------
class Inst:
    __slots__ = ("f", "b", "pos", "op", "id", "ty", "d", "args", "callee")

    def __init__(s, f, b, pos, d):
        s.f, s.b, s.pos, s.d = f, b, pos, d
        s.op, s.id, s.ty = d["o"], d["i"], d.get("t")
        s.args = d.get("a", [])
        s.callee = None
        if s.op == "call":
            c = d["c"]
            s.callee = c[1] if c[0] == "fn" else None

    @property
    def line(s):
        return s.d["l"][1] if "l" in s.d else 0

    def where(s):
        l = s.d.get("l")
        if not l:
            # nearest instruction with a location
            for j in range(s.pos, -1, -1):
                l = s.f.blocks[s.b][j].d.get("l")
                if l:
                    break
        if not l:
            l = [s.f.file, s.f.line]
        fn = l[0]
        fn = fn[len(REPO) + 1:] if fn.startswith(REPO + "/") else fn
        i = fn.rfind("src/")
        if i > 0:
            fn = fn[i:]
        t = "%s:%d (%s)" % (fn, l[1], s.f.name)
        return t

    def __repr__(s):
        return "<%s %d %s @%s>" % (s.op, s.id, s.callee or "", s.line)


class Func:
    def __init__(s, m, d):
        s.m = m
        s.name, s.file, s.line = d["name"], d["file"], d["line"]
        i = s.file.rfind("src/")
        if i >= 0:
            s.file = s.file[i:]
        s.static, s.va, s.ret = d["static"], d["va"], d["ret"]
        s.rd = d.get("rd", "")
        s.params = d["args"]
        s.names = {int(k): v for k, v in d["names"].items()}
        s.blocks = []
        s.byid = {}
        for bi, b in enumerate(d["blocks"]):
            L = []
            for k, x in enumerate(b):
                I = Inst(s, bi, k, x)
                L.append(I)
                s.byid[I.id] = I
            s.blocks.append(L)
        n = len(s.blocks)
        s.succ = [s._succ(b) for b in s.blocks]
        s.pred = [[] for _ in range(n)]
        for i, ss in enumerate(s.succ):
            for t in ss:
                s.pred[t].append(i)

    @staticmethod
    def _succ(b):
        if not b:
            return []
        t = b[-1]
        if t.op == "br":
            return list(dict.fromkeys(t.d["s"]))
        if t.op == "switch":
            return list(dict.fromkeys([c[1] for c in t.d["cases"]] + [t.d["def"]]))
        return []

    def insts(s):
        for b in s.blocks:
            yield from b

    def calls(s, *names):
        for i in s.insts():
            if i.op == "call" and (not names or i.callee in names):
                yield i

    # ---- dominators
    def _dom(s, roots, succ, pred, n):
        order, seen = [], set()
        for r in roots:
            st = [(r, iter(succ[r]))] if r not in seen else []
            seen.add(r)
            while st:
                v, it = st[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        st.append((w, iter(succ[w])))
                        break
                else:
                    order.append(v)
                    st.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {r: r for r in roots}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b in roots:
                    continue
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        return idom

    @functools.cached_property
    def idom(s):
        return s._dom([0], s.succ, s.pred, len(s.blocks))

    @functools.cached_property
    def ipdom(s):
        n = len(s.blocks)
        ex = n
        succ = [[] for _ in range(n + 1)]
        pred = [[] for _ in range(n + 1)]
        for i in range(n):
            ss = s.succ[i] or [ex]
            for t in ss:
                succ[t].append(i)
                pred[i].append(t)
        # infinite loops: ignored (not reverse reachable)
        return s._dom([ex], succ, pred, n + 1)

    @functools.cached_property
    def _domdepth(s):
        return {}

    def dominates(s, a, b):
        """block a dominates block b"""
        idom = s.idom
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]

    def postdominates(s, a, b):
        ip = s.ipdom
        if b not in ip:
            return False
        while True:
            if a == b:
                return True
            if ip[b] == b:
                return False
            b = ip[b]

    def idominates(s, x, y):
        """instruction x dominates instruction y"""
        if x.b == y.b:
            return x.pos < y.pos
        return s.dominates(x.b, y.b)

    @functools.cached_property
    def reach(s):
        n = len(s.blocks)
        R = []
        for i in range(n):
            seen, st = set(), list(s.succ[i])
            while st:
                v = st.pop()
                if v not in seen:
                    seen.add(v)
                    st.extend(s.succ[v])
            R.append(seen)
        return R

    @functools.cached_property
    def loops(s):
        """natural loops: header -> set of blocks"""
        L = {}
        for b in range(len(s.blocks)):
            if b not in s.idom:
                continue
            for t in s.succ[b]:
                if s.dominates(t, b):
                    body = L.setdefault(t, {t})
                    st = [b]
                    while st:
                        v = st.pop()
                        if v not in body:
                            body.add(v)
                            st.extend(p for p in s.pred[v] if p in s.idom)
        return L

    def loop_nest(s, b):
        """headers of the loops containing block b, outermost first"""
        hs = [h for h, body in s.loops.items() if b in body]
        return sorted(hs, key=lambda h: -len(s.loops[h]))

    @functools.cached_property
    def uses(s):
        U = {}
        for i in s.insts():
            ops = list(i.args)
            if i.op == "phi":
                ops = [x[0] for x in i.d["in"]]
            if i.op == "call":
                ops = ops + [i.d["c"]]
            for o in ops:
                if o[0] in ("v", "a"):
                    U.setdefault(o[1], []).append(i)
        return U

    # ---- branch conditions that hold on entry of a block
    @functools.cached_property
    def _edgeconds(s):
        """block -> list of (condition ref, truth) implied by its unique entering edges on the dominator path"""
        out = {}
        return out

    def conds_at(s, b):
        """[(cond_operand, True/False | ('case', v) , branch inst)] that hold whenever block b executes
        (from dominating branches one of whose edges dominates b)"""
        if b in s._edgeconds:
            return s._edgeconds[b]
        res = []
        seen = set()
        cur = b
        while True:
            if s.idom.get(cur, cur) == cur:
                break
            d = s.idom[cur]
            t = s.blocks[d][-1]
            if t.op == "br" and len(t.d["s"]) == 2 and t.d["s"][0] != t.d["s"][1]:
                for k, tgt in enumerate(t.d["s"]):
                    if s.edge_dominates(d, tgt, b):
                        res.append((t.args[0], k == 0, t))
            elif t.op == "switch":
                tg = {}
                for v, x in t.d["cases"]:
                    tg.setdefault(x, []).append(v)
                for x, vs in tg.items():
                    if x != t.d["def"] and s.edge_dominates(d, x, b):
                        res.append((t.args[0], ("case", tuple(vs)), t))
                if t.d["def"] not in tg and s.edge_dominates(d, t.d["def"], b):
                    res.append((t.args[0], ("notcase", tuple(v for v, _ in t.d["cases"])), t))
            cur = d
        s._edgeconds[b] = res
        return res

    def edge_dominates(s, u, v, b):
        """every path from entry to b takes edge u->v"""
        if not s.dominates(v, b):
            return False
        # v is entered only through u (apart from back edges from blocks v dominates)
        for p in s.pred[v]:
            if p == u:
                continue
            if not s.dominates(v, p):
                return False
        return True


class Module:
    def __init__(s, d):
        s.d = d
        s.noret = d.get("noret", [])
        s.structs, s.lls, s.enums, s.typedefs, s.globals = d["structs"], d["lls"], d["enums"], d["typedefs"], d["globals"]
        s.decls = set(d["decls"])
        s.funcs = {}
        for f in d["functions"]:
            F = Func(s, f)
            s.funcs[F.name] = F

    @functools.cached_property
    def callers(s):
        C = {}
        for f in s.funcs.values():
            for c in f.calls():
                if c.callee:
                    C.setdefault(c.callee, []).append(c)
        return C

    def calls_to(s, name):
        """direct calls of a function from functions the programs can reach"""
        return [c for c in s.callers.get(name, []) if c.f.name in s.reachable]

    @functools.cached_property
    def addr_taken(s):
        """functions whose address is used other than as a call target"""
        A = {}
        for f in s.funcs.values():
            for i in f.insts():
                ops = list(i.args) if i.op != "phi" else [x[0] for x in i.d["in"]]
                for o in ops:
                    for n in _fnrefs(o):
                        A.setdefault(n, []).append(i)
        for g, gd in s.globals.items():
            for n in _fnrefs(gd.get("init")):
                A.setdefault(n, []).append(g)
        return A

    def callgraph_reach(s, *roots):
        seen, st = set(), [r for r in roots if r in s.funcs]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            f = s.funcs.get(n)
            if not f:
                continue
            for i in f.insts():
                if i.op == "call" and i.callee:
                    st.append(i.callee)
                ops = list(i.args) if i.op != "phi" else [x[0] for x in i.d["in"]]
                for o in ops:
                    st.extend(_fnrefs(o))
        return seen

    def need(s, name):
        f = s.funcs.get(name)
        if f is None:
            raise AnalysisBroken("anchor function %s not found in the analysed program" % name)
        return f

    def string(s, ref):
        """C string behind an operand, or None"""
        if ref and ref[0] == "gep":
            idx = ref[2]
            if all(x == ["i", 0] for x in idx[1:]):
                ref = idx[0]
        if ref and ref[0] == "g":
            g = s.globals.get(ref[1])
            if g and g.get("const") and g.get("init"):
                if g["init"][0] == "s":
                    v = g["init"][1]
                    k = v.find("\0")
                    return v if k < 0 else v[:k]
                if g["init"][0] == "zero":
                    return ""
        return None

    def cstr(s, init):
        return s.string(init)

    def field(s, structname, k):
        """C name of element k of an LLVM struct type"""
        n = re.sub(r"^(struct|union)\.", "", structname.lstrip("%"))
        n = re.sub(r"\.\d+$", "", n)
        st = s.structs.get(n)
        ll = s.lls.get(structname.lstrip("%"))
        if st and ll and len(st) == len(ll[1]):
            return st[k][0]
        if st and k < len(st) and (not ll or len(st) >= len(ll[1])):
            return st[k][0]
        return "#%d" % k

    def field_type(s, structname, k):
        n = re.sub(r"^(struct|union)\.", "", structname.lstrip("%"))
        n = re.sub(r"\.\d+$", "", n)
        st = s.structs.get(n)
        return st[k][1] if st and k < len(st) else ""


def _fnrefs(o):
    if not o:
        return []
    if o[0] == "fn":
        return [o[1]]
    if o[0] in ("arr", "struct"):
        r = []
        for x in o[1]:
            r += _fnrefs(x)
        return r
    return []


if __name__ == "__main__":
    print(build_tool())
