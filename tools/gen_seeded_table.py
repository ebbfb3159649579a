#!/usr/bin/env python3
"""Section 7 of DESIGN.md: the planted bugs, from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
rows = []
for d in os.listdir(S):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append((m["property"], d, m["needs"].strip().rstrip("."), m["what_it_breaks"].strip().rstrip(".")))
rows.sort()
t = "## 7. Planted bugs\n\nEvery one passes the 121 tests and is caught by the quick check of its property (the counterexample found is confirmed by a second run).\n\n| property | id | needs | breaks |\n|---|---|---|---|\n"
for r in rows:
    t += "| " + " | ".join(x.replace("|", "\\|").replace("\n", " ") for x in r) + " |\n"
t += "\n`chacha-cached-block` was missed at first (a cache keyed by all but part of the arguments); the neighbouring calls of `hist_near` (C26) were added for it. Missed at first and the reason for extensions, too: `json-length-cache`, `map-get-marks-key` (read-only mapping), `heap-static-compare` (orders that differ per nesting level), `json-name-8bit` (long names in C32), `selection-found-unset` (-O0 for the unset build), `json-find-recursive` (more texts in `stack`), `map-key-16bit` (keys of 64 KiB and more in `map_sizes`).\n"
t += "Changes that were planted and dropped because an existing test notices them: map full check first, heap build start, Vernam decrypt key case, decimal overflow comparisons, reflect by 32, exclusive-or exchange, JSON value cut off, Base64 truncation.\n"
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
s = s.split("## 7. Planted bugs")[0].rstrip() + "\n\n" + t
open(f, "w").write(s)
