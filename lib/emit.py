"""Write properties.jsonl and MANIFEST.json from checks/meta.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
from checks import RUN, meta  # noqa: E402

V = os.path.dirname(here)
NA = getattr(meta, "NOT_APPLICABLE", {})
with open(V + "/properties.jsonl", "w", encoding="utf-8") as fh:
    for pid in sorted(meta.P):
        p = meta.P[pid]
        assert len(p["title"]) <= 80, pid
        fh.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                 anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
checks = [dict(property=pid, quick_cmd="./check.py %s --tier quick" % pid, thorough_cmd="./check.py %s --tier thorough" % pid, evidence_file="evidence/%s.json" % pid,
               technique=meta.P[pid]["technique"], level=meta.P[pid]["level"], level_note=meta.P[pid]["note"].strip()) for pid in sorted(RUN)]
na = [dict(property=pid, reason=NA.get(pid, "no check built yet")) for pid in sorted(meta.P) if pid not in RUN]
man = dict(version=1, setup_cmd="/opt/vp/venv/bin/python lib/vbuild.py", checks=checks, not_applicable=na,
           notes="Every check rebuilds what it needs from /repo's working tree (cache in build/, keyed by content). No hooks in /repo are used.")
with open(V + "/MANIFEST.json", "w", encoding="utf-8") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")


def design():
    """DESIGN.md from its template, the properties, the known findings and the planted bugs."""
    out = []
    for pid in sorted(meta.P):
        p = meta.P[pid]
        ev = os.path.join(V, "evidence", pid + ".json")
        cost = ""
        if os.path.exists(ev):
            e = json.load(open(ev, encoding="utf-8"))
            cov = e.get("coverage", {})
            cost = "%s cases (%s distinct non-trivial), %.0f s on 8 cores in the last %s run" % (cov.get("evaluations"), cov.get("distinct_nontrivial"), e.get("wall_s", 0), e.get("tier"))
        out += ["### %s %s" % (pid, p["title"]), "", p["statement"], "", "- *Enumerated:* " + p["technique"] + ".", "- *Bounds and assumptions:* " + p["note"].strip(),
                "- *Counting:* " + p["rule"] + ".", "- *Observed:* " + ", ".join(p["observe"]) + ".", "- *Why the tests cannot settle it:* " + p["why"],
                "- *Anchors:* " + "; ".join("%s (`%s`)" % ((m["name"], m["where"]) if isinstance(m, dict) else tuple(m)) for m in p["mechanism"]) + "."] + (["- *Cost:* " + cost + "."] if cost else []) + [""]
    fixed = []
    for line in open(os.path.join(V, "known-findings.txt"), encoding="utf-8"):
        if line.startswith("fixed: "):
            pid, commit, what = line[len("fixed: property="):].strip().split(" ", 2)
            fixed.append("- %s (`%s`): %s" % (pid, commit, what))
    seeded = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    d = os.path.join(V, "seeded")
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        m = json.load(open(os.path.join(d, x, "meta.json"), encoding="utf-8"))
        seeded.append("| %s | %s | %s | %s |" % (x, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
    text = open(os.path.join(here, "design.md"), encoding="utf-8").read()
    for k, v in (("PROPERTIES", out), ("FIXED", fixed), ("SEEDED", seeded)):
        text = text.replace("@@%s@@" % k, "\n".join(v).rstrip())
    with open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8") as fh:
        fh.write(text)


design()
