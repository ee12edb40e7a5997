#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py. Run from /verif."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, checks, na = [], [], []
for p in PROPS:
    pid = p["id"]
    assert len(p["title"]) <= 80, pid
    out.append({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None},
    })
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    d = os.path.join(here, "harness", pid.lower())
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.isdir(d) and any(x.endswith(".go") for x in os.listdir(d)):
        checks.append({
            "property": pid, "quick_cmd": "./run.sh " + pid, "thorough_cmd": "./run.sh " + pid + " thorough",
            "evidence_file": "evidence/" + pid + ".json",
            "technique": "bounded symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, cvc5)",
            "level": "model_checking",
            "level_note": p["note"] + " Trusted: the SSA-to-SMT engine (its models are replayed on the compiled code on every run), the solvers, and the stubs named in the evidence.",
        })
    else:
        na.append({"property": pid, "reason": "no check built for it: see DESIGN.md"})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
               "notes": "Engine: /verif/engine (Go). Harnesses: /verif/harness/<property>. No hooks in /repo: harnesses are overlaid at load time."},
              f, indent=1, ensure_ascii=False)
    f.write("\n")
import re
lines = ["# Harnesses", "", "Generated by tools/gen.py from the comments in harness/. What each check explores, and within what bounds.", ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    d = os.path.join(here, "harness", p["id"].lower())
    if not os.path.isdir(d):
        continue
    lines += ["## %s: %s" % (p["id"], p["title"]), "", p["note"], ""]
    for f in sorted(os.listdir(d)):
        src = open(os.path.join(d, f)).read()
        for m in re.finditer(r"((?://[^\n]*\n)+)func (ZZ_\w+)\(\) \{\n(.*?)\n\}\n", src, re.S):
            doc = " ".join(x.lstrip("/ ") for x in m.group(1).strip().split("\n"))
            doc = re.sub(r"^ZZ_\w+( checks)?:? ", "", doc)
            b = " ".join(re.findall(r'zz\.Bound\("((?:[^"\\\\]|\\\\.)*)"', m.group(3)))
            lines.append("- `%s`: %s%s" % (m.group(2), doc, " *Bounds:* " + b if b else ""))
    lines.append("")
with open(os.path.join(here, "HARNESSES.md"), "w") as f:
    f.write("\n".join(lines))
print(len(checks), "checks,", len(na), "not applicable:", [x["property"] for x in na])
