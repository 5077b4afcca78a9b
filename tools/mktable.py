"""Rewrite the table of planted bugs in DESIGN.md from seeded/. A star marks those listed in MISSED."""
import collections
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""
c15-validated-once c02-nested-conjunction c25-wide-challenge c05-marked-skip c23-built-once c26-repeat-bases c06-fifth-clause c08-ctor-mark-inequality c08-ctor-mark-signature
c01-many-candidates c01-wide-sum c02-first-term-only c03-id-wrap c03-flat-ids c04-message-head c04-message-newline
c04-challenge-carry c06-late-conjunct c07-unreduced-simulated-rand c10-cached-randomizers c11-size-limit
c13-mapping-filled c13-marks-left c14-or-shared-copy c15-order-bits c17-value-in-one-word c18-shared-generator
c19-cached-pairing c19-old-signature c19-messages-alias c20-g2-wsum-skip c21-short-names c24-seed-width
""".split())

if __name__ == "__main__":
    rows = collections.defaultdict(list)
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
        bid = os.path.basename(os.path.dirname(f))
        rows[json.load(open(f))["property"]].append(bid.split("-", 1)[1] + ("*" if bid in MISSED else ""))
    table = "| property | planted |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(rows[p])) for p in sorted(rows))
    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    text = re.sub(r"\| property \| planted \|\n(\|.*\n)+", lambda m: table, text)
    open(path, "w").write(text)
