#!/usr/bin/env python3
"""Generates checks/*.json, properties.jsonl and MANIFEST.json from scripts/props/*.py.

Each props file defines P(...) entries; this is the single place where a
property, the harnesses that decide it, and their bounds are tied together."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []

def P(id, title, statement, over, text, why, files, mechanism, harnesses, assumptions=(), outside="", note="", **kw):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement)
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, harnesses=harnesses, assumptions=list(assumptions), outside=outside, note=note, kw=kw))

def H(func, bounds="", secs=60, params=None, thorough=None, reach=(), labels=(), **kw):
    d = {"func": func, "secs": secs, "bounds": bounds}
    if params: d["params"] = params
    if thorough: d["params_thorough"] = thorough
    if reach: d["reach"] = list(reach)
    if labels: d["labels"] = list(labels)
    d.update(kw)
    return d

def N(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, reason=reason))

env = dict(P=P, H=H, N=N)
for f in sorted(glob.glob(os.path.join(V, "scripts/props/*.py"))):
    exec(compile(open(f).read(), f, "exec"), env)
PROPS.sort(key=lambda p: p["id"]); NA.sort(key=lambda p: p["id"])
os.makedirs(os.path.join(V, "checks"), exist_ok=True)
for f in glob.glob(os.path.join(V, "checks/*.json")):
    os.remove(f)

def line(p):
    return json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "hook_needed": None}})
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in sorted(PROPS + NA, key=lambda p: p["id"]):
        o.write(line(p) + "\n")
checks = []
for p in PROPS:
    c = {"property": p["id"], "harnesses": p["harnesses"], "outside": p["outside"], "assumptions": p["assumptions"]}
    c.update(p["kw"])
    json.dump(c, open(os.path.join(V, "checks", p["id"] + ".json"), "w"), indent=1)
    checks.append({"property": p["id"], "quick_cmd": f"bash scripts/check.sh {p['id']} quick", "thorough_cmd": f"bash scripts/check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the real Go code (go/ssa) with z3 deciding every fork and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": (p["note"] + " " if p["note"] else "") + "Bounded: the solver decides all values within the bounds given in the evidence file; harness environment (apiserver, mysqld, agent) is a nondeterministic stand-in; trusted: go/ssa, the executor in engine/, z3, the stand-ins. Outside: " + (p["outside"] or "anything beyond the stated bounds") + "."})
m = {"version": 1, "setup_cmd": "bash scripts/setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "No hooks in /repo: harness packages are laid over /repo/zzvf through a build overlay. Only 'fix:' commits were made in /repo (known_findings.json)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

d = open(os.path.join(V, "scripts/design.md")).read()
fixed = "\n".join("* " + k["what"].replace("fixed: property=", "", 1) for k in json.load(open(os.path.join(V, "known_findings.json"))) if k["status"] == "fixed")
known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))) if k["status"] == "known"]
if known: fixed += "\n\nKnown findings (not repaired):\n\n" + "\n".join("* " + k["property"] + " " + k["what"] for k in known)
sj = os.path.join(V, "scripts/seeded.json")
seeded = json.load(open(sj)) if os.path.exists(sj) else {}
rows = ["| planted bug | property | what it breaks | quick check |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded*/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f)); x = json.load(open(f))
    seeded.setdefault(i, {}); seeded[i].setdefault("result", "?"); seeded[i]["property"] = x["property"]; seeded[i]["what"] = x["what_it_breaks"]
for i, x in sorted(seeded.items()):
    rows.append(f"| {i} | {x['property']} | {x['what']} | {x['result']} |")
json.dump(seeded, open(sj, "w"), indent=1, sort_keys=True)
sec = []
for p in PROPS:
    t = [f"### {p['id']} {p['title']}", "", p["statement"], "", f"*Quantified* {p['text']}. *Why tests cannot settle it:* {p['why']}", "", "*Anchors:* " + "; ".join(f"{a} ({b})" for a, b in p["mechanism"]), ""]
    for h in p["harnesses"]:
        th = "; thorough: " + ", ".join(f"{k}={v}" for k, v in h["params_thorough"].items()) if h.get("params_thorough") else ""
        pr = ", ".join(f"{k}={v}" for k, v in h.get("params", {}).items())
        if "preempt" in h: pr += f", preemptions<={h['preempt']}"
        t.append(f"* `{h['func']}`" + (f" ({pr}{th})" if pr or th else "") + (" thorough only" if h.get("thorough_only") else "") + (": " + h["bounds"] if h["bounds"] else ""))
    if p["assumptions"]: t += ["", "*Assumed:* " + "; ".join(p["assumptions"]) + "."]
    if p["outside"]: t += ["", "*Outside:* " + p["outside"] + "."]
    sec.append("\n".join(t))
na = "\n".join(f"* {p['id']} {p['title']}: {p['reason']}" for p in NA) or "Every listed property is claimed."
d = d.replace("<!--fixed-->", fixed).replace("<!--seeded-->", "\n".join(rows)).replace("<!--properties-->", "\n\n".join(sec)).replace("<!--na-->", na)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
print(len(PROPS), "properties,", len(NA), "not applicable")
