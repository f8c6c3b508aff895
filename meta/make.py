#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (the table of properties)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS

def design(props):
    rd = lambda n: open(os.path.join(H, n)).read()
    t = rd("DESIGN.in.md")
    L = []
    for p in sorted(props, key=lambda p: p["id"]):
        L.append("### %s %s" % (p["id"], p["title"]))
        L.append("")
        if "na" in p:
            L.append("Not applicable: " + p["na"])
        else:
            L.append("*Decided by* %s. %s" % (p["technique"], p["note"]))
            if p.get("detail"):
                L.append("")
                L.append(p["detail"])
        L.append("")
    kf = json.load(open(os.path.join(V, "known-findings.json")))
    fixed = "\n".join("* " + x for x in kf["fixed"])
    find = "\n".join("* %s `%s`: %s" % (k["property"], k["key"], k.get("what", "")) for k in kf["findings"]) or "None."
    rows = ["| change | property | what it breaks | caught |", "|---|---|---|---|"]
    res = json.load(open(os.path.join(H, "seeded.json"))) if os.path.exists(os.path.join(H, "seeded.json")) else {}
    sd = os.path.join(V, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), res.get(d, "?")))
    for k, v in (("TABLE", "\n".join(L)), ("FIXED", fixed), ("FINDINGS", find), ("SEEDED", "\n".join(rows)), ("EXTRA", rd("extra.md"))):
        t = t.replace("@@%s@@" % k, v)
    open(os.path.join(V, "DESIGN.md"), "w").write(t)

def main():
    out, checks, na = [], [], []
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["all"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", [])],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}
        out.append(d)
        assert len(d["title"]) <= 80, d["title"]
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                           "thorough_cmd": "./check %s --tier thorough" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"],
                           "evidence_file": "evidence/%s.json" % p["id"]})
    out.sort(key=lambda d: d["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in out:
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 engine/ir.py --build", "checks": sorted(checks, key=lambda c: c["property"]),
         "not_applicable": sorted(na, key=lambda c: c["property"]),
         "notes": "All checks are static: they compile /repo's current sources to LLVM IR and decide over the SSA form; nothing of /repo is executed. No hooks in /repo."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    design(PROPS)
    print(len(out), "properties,", len(checks), "claimed,", len(na), "not applicable")
main()
