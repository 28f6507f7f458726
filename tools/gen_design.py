#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_tail.md, properties.jsonl, MANIFEST.json, the checks and the last evidence of the quick tier."""
import importlib.util, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
rd = lambda p: open(os.path.join(root, p)).read()
tech = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
out = [rd("tools/design_head.md").rstrip(), ""]
for l in rd("properties.jsonl").splitlines():
    q = json.loads(l)
    i = q["id"]
    s = rd("mc/checks/%s.py" % i.lower())
    rule = eval("(" + re.search(r"^RULE = ((?:.|\n)*?)^[A-Z_]+ = ", s, re.M).group(1).strip().replace("\\\n", "") + ")")
    e = json.loads(rd("evidence/%s.json" % i))
    assert e["tier"] == "quick" and not e["violations"], "no quick evidence of %s" % i
    out += ["### %s %s" % (i, q["title"]), "", "*Decided by* %s (`%s`)." % (tech[i]["technique"], tech[i]["level"]), "",
            "*Enumerated and judged*: %s." % rule.rstrip("."), ""]
    why = q.get("why_tests_cant")
    if why:
        out += ["*Beyond the tests*: %s" % why, ""]
    for p in e["coverage"]["parts"]:
        n = p.get("states") or p.get("cases")
        out.append("- %s: %s - %s%s" % (p["part"], p["bound"], "%d states, %d transitions to depth %d" % (p["states"], p["transitions"], p["depth_completed"]) if "depth_completed" in p
                   else "%d cases" % p["cases"], ", %d operations" % p["operations"] if p.get("operations") else ""))
    out += ["", "Cost: about %d s." % max(1, round(e["wall_s"])), ""]
out += [rd("tools/design_tail.md").rstrip(), ""]
seen = {}
if os.path.exists(os.path.join(root, "tools/matrix.txt")):
    for l in rd("tools/matrix.txt").splitlines():
        m = re.match(r"(\S+)\s+(C\d+) (caught|MISSED|ERROR|DOES)", l)
        if m:
            seen[m.group(1)] = (m.group(2), m.group(3))
out += ["| bug | property | result | needs |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % b))
    r = seen.get(b)
    out.append("| %s | %s | %s | %s |" % (b, m["property"], "caught by " + r[0] if r and r[1] == "caught" else "not caught" if r else "caught by " + m["property"], str(m["needs"]).replace("|", "/")))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
