#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = """c03-threshold c05-zero-grad-plain c04-guest-prefers c08-prev-data c08-balance-rate c09-abnormal-dedupe c12-union-alias c12-mapreduce
c15-softmax-rows c17-host-meta c17-shared-criterion c18-strip c20-sample-per-round c21-weight-drift c22-affine-sign c23-flowid c01-lambda-zero
c01-prefix-site c02-tiny-hess c05-obfuscator-kept c05-root-plain c06-sub-self c10-order c13-stale-cache c15-checker-bool c16-parse-merge
c18-acc-type c19-norm-inf c22-iadd""".split() + open(os.path.join(V, "tools/missed.txt")).read().split()
OPEN = {}
HEAD = "## Planted bugs and what catches them\n"


def main():
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    s = s[:s.index(HEAD)] if HEAD in s else s + "\n"
    rows = []
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        rows.append("| %s | %s%s | %s |" % (d, m["property"] if d not in OPEN else m["property"] + ", " + OPEN[d], " *" if d in MISSED else "", m["needs"].replace("|", "/")))
    s += HEAD + "\n%d bugs; each, but for the %d marked so, is caught (exit 1, VIOLATION line) by its property's quick check with the default seed. `*`: the check missed the bug when it was\n" \
        "planted and was strengthened because of it (%d of them).\n\n| bug | caught by | needs |\n|---|---|---|\n" % (len(rows), len(OPEN), sum(" * |" in r for r in rows)) + "\n".join(rows) + "\n"
    open(p, "w").write(s)


main()
