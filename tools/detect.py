#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {"string-find-tail", "hash-continue", "span-bytes-static", "expected-error-assign", "pool-erase-order", "stringbuf-read-end",
                "optional-value-or-kept", "tuple-visit-const-stop", "function-virtual-state"}
rows = []
for f in glob.glob(ROOT + "/seeded/*/meta.json"):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"], "missed first" if i in FIRST_MISSED else ""))
t = "| caught by | change | what it breaks | needs | |\n|---|---|---|---|---|\n" + "".join("| %s | %s | %s | %s | %s |\n" % r for r in sorted(rows))
d = open(ROOT + "/DESIGN.md").read()
a, b = d.index("<!-- detection -->"), d.index("<!-- /detection -->")
open(ROOT + "/DESIGN.md", "w").write(d[:a] + "<!-- detection -->\n" + t + d[b:])
