#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json, MANIFEST.json and the per-property part of DESIGN.md from tools/props.py."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NOT_APPLICABLE

def main():
    lines, checks, man = [], {}, []
    design = []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", ["return values and container contents through the public API"]), "hook_needed": None}}))
        if p["id"] in [n["property"] for n in NOT_APPLICABLE]:
            continue
        c = {"sources": p["sources"], "cases": p["cases"], "rule": p["rule"]}
        for k in ("defs", "inc", "libsrc", "std", "thorough_factor", "flags", "also", "nostd", "group"):
            if k in p: c[k] = p[k]
        checks[p["id"]] = c
        man.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                    "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"],
                    "technique": p.get("technique", "property-based testing, stateful model-based generation with shrinking"),
                    "level": "exploration",
                    "level_note": p.get("note", "Generated-input search against an independent reference; holds on every case explored, no claim beyond the generators' reach.")})
        design.append("### %s %s\n\n%s\n\nGenerators and oracle: %s\n\nHarness: %s. Non-trivial: %s.\n" % (
            p["id"], p["title"], p["statement"], p["design"], ", ".join("`harness/%s`" % s for s in p["sources"]), p["rule"].split("non-trivial = ")[-1]))
    w = lambda f, t: open(os.path.join(ROOT, f), "w").write(t)
    w("properties.jsonl", "\n".join(lines) + "\n")
    w("checks.json", json.dumps(checks, indent=1) + "\n")
    w("MANIFEST.json", json.dumps({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": man, "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks are needed in /repo. Known findings and repairs: known_findings.txt. See DESIGN.md."}, indent=1) + "\n")
    d = open(os.path.join(ROOT, "DESIGN.md")).read() if os.path.exists(os.path.join(ROOT, "DESIGN.md")) else "<!-- properties -->\n<!-- /properties -->\n"
    d = re.sub(r"<!-- properties -->.*<!-- /properties -->", lambda m: "<!-- properties -->\n" + "\n".join(design) + "<!-- /properties -->", d, flags=re.S)
    w("DESIGN.md", d)
    print(len(lines), "properties,", len(man), "checks")
main()
