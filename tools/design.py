#!/usr/bin/env python3
"""Write DESIGN.md from DESIGN.in, meta.py, known_findings.txt and the table of planted bugs (seeds.txt)."""
import os, re, sys, json, collections
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import meta
T = {}
for l in open(os.path.join(VERIF, "tools/design/times.txt")):
    if l.strip() and l[0] != "#":
        a = l.split(None, 2); T[a[0]] = (a[1], a[2].strip() if len(a) > 2 else "")
out = []
for id, p in meta.P.items():
    c = p["check"]; q, t = T.get(id, ("", ""))
    out.append("### %s %s\n" % (id, p["title"]))
    out.append("* **Decided by** %s (`harness/%s.cc`%s)." % (c["technique"], id, ", `harness/C28.py`" if id == "C28" else ""))
    out.append("* **Explored**: %s." % c["rule"].rstrip("."))
    b = c["bounds"]
    out.append("* **Bounds**: quick: %s. Thorough: %s." % (b["quick"].rstrip("."), b["thorough"].rstrip(".")))
    out.append("* **Cost**: quick %s s%s." % (q, ", thorough %s s" % t if t else ""))
    out.append("* **Beyond tests**: %s" % p["why"])
    out.append("* **Limits**: %s\n" % c["level_note"])
props = "\n".join(out)
fx = collections.OrderedDict()
for l in open(os.path.join(VERIF, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.setdefault(m.group(1), []).append("%s (%s)" % (m.group(3).strip(), m.group(2)))
fixed = "\n".join("* **%s**: %s." % (k, "; ".join(fx[k])) for k in sorted(fx))
n = sum(len(v) for v in fx.values())
seeds = ["| seed | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = {}
for l in open(os.path.join(VERIF, "tools/design/seeds.txt")):
    if l.strip() and l[0] != "#":
        a = l.split(None, 1); caught[a[0]] = a[1].strip()
for d in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    m = json.load(open(os.path.join(VERIF, "seeded", d, "meta.json")))
    seeds.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], caught.get(d, "")))
s = open(os.path.join(VERIF, "tools/design/DESIGN.in")).read()
for k, v in (("PROPS", props), ("FIXED", fixed), ("SEEDS", "\n".join(seeds)), ("NFIXED", str(n))):
    assert "@@%s@@" % k in s, k
    s = s.replace("@@%s@@" % k, v)
assert "@@" not in s
open(os.path.join(VERIF, "DESIGN.md"), "w").write(s)
