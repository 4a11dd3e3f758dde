#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md (table of planted bugs) from seeded/*/meta.json. Development aid; no check reads seeded/."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
# bugs the check missed when they were planted; the check was strengthened until it caught them
MISSED = set("""c01-orientation-of-small-cells c02-repeats-beyond-a-window c02-repeats-only-noticed-side-by-side c05-activation-not-below-eight-levels
c07-one-long-edge-is-enough c10-interior-functions-of-bisected-elements c11-weak-entries-left-out c16-large-rules c17-large-groups-overwrite
c18-entry-count-of-large-matrices c19-prefix-of-the-second c21-functions-of-distant-ancestors c22-element-id-cut-off c23-descendants-below-eight-levels
c05-shortest-edges-stay-inactive c14-old-orders-of-new-elements c16-rescaled-to-reversed-intervals c17-indices-of-large-matrices c20-nearest-below-a-bound
c24-edge-of-both-parts c26-small-permeability c06-repeats-by-a-small-set c08-repeats-by-a-small-set""".split()) | set(open(here + "/missed_at_first.txt").read().split() if os.path.exists(here + "/missed_at_first.txt") else [])
p = here + "/DESIGN.md"
s = open(p).read()
i = s.find("## 6. Planted bugs")
s = s[:i] if i >= 0 else s.rstrip() + "\n\n"
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['needs']} | {m['property']}{' *' if n in MISSED else ''} |")
s += f"""## 6. Planted bugs

`seeded/` holds them ({len(rows)}); each was written from a property's text and the code, and confirmed (builds, passes the suite, demonstration fails with it
and passes without). The last column names the check whose quick run reports it. `*`: missed when planted, caught since the check was strengthened.
(This table is written by `gen_design_table.py`.)

| bug | needs | caught by |
|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
