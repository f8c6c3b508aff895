"""Small flow questions several checks ask."""
from ir import *


def _fwd(f, I):
    """values of f computed from the result of I (through arithmetic, casts, phis, comparisons and local variables)"""
    seen, st = {I.id}, [I]
    while st:
        J = st.pop()
        for U in f.uses.get(J.id, []):
            ops = [x[0] for x in U.d["in"]] if U.op == "phi" else list(U.args) + ([U.d["c"]] if U.op == "call" else [])
            if ["v", J.id] not in [list(o[:2]) for o in ops]:
                continue
            if U.op == "store":
                # a local variable that was not promoted
                t = U.args[1]
                if U.args[0][0] == "v" and U.args[0][1] == J.id and t[0] == "v":
                    for L in f.uses.get(t[1], []):
                        if L.op == "load" and L.id not in seen:
                            seen.add(L.id)
                            st.append(L)
                yield U
                continue
            yield U
            if U.op in ("call", "br", "ret", "switch"):
                continue
            if U.id not in seen:
                seen.add(U.id)
                st.append(U)


def result_tested(Pg, I, depth=4):
    """does any decision, in the caller or in what it hands the result to, depend on the result of call I?"""
    f = I.f
    for U in _fwd(f, I):
        if U.op in ("br", "switch"):
            return True
        if U.op == "ret":
            cs = [c for c in Pg.callers.get(f.name, [])]
            if not cs or depth <= 0 or any(result_tested(Pg, c, depth - 1) for c in cs):
                return True
        if U.op in ("call", "store", "select"):
            return True
    return False
