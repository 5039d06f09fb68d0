"""Regenerates properties.jsonl, MANIFEST.json and DESIGN.md from catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import P  # noqa: E402

NOTE = ("Search over generated inputs against an explicit oracle; no violation "
        "found on everything explored, which is not a proof. Trusts numpy/scipy "
        "and the independent reference in /verif/vt.")


def seeds():
    rows = ["| planted bug | property (its check catches it) | what it breaks | needs |",
            "|---|---|---|---|"]
    base = os.path.join(ROOT, "seeded")
    for d in sorted(os.listdir(base)):
        with open(os.path.join(base, d, "meta.json")) as f:
            m = json.load(f)
        rows.append("| " + " | ".join((d, m["property"], m["what_it_breaks"], m["needs"]))
                    + " |")
    return "\n".join(rows)


def main():
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "vt", "props"))
            if f.startswith("p")}
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    print("no module:", set(ids) - have, "no entry:", have - set(ids))
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} if w else {"name": n}
                                          for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    na = []
    for p in P:
        if p["id"] not in have:
            na.append({"property": p["id"], "reason": "no check built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "property-based testing (hypothesis generators, shrinking, "
                         "independent oracle / metamorphic relations)",
            "level": "exploration",
            "level_note": NOTE + (f" Assumes: {p['assume']}." if p["assume"] else ""),
        })
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                   "not_applicable": na,
                   "notes": "No hooks: every check drives the public API of the "
                            "working tree in /repo."}, f, indent=1)
        f.write("\n")
    out = [open(os.path.join(HERE, "design_head.md")).read()]
    out.append("\n## Properties and how each is decided\n")
    for p in P:
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
                   f"*Over*: {p['text']}.\n\n*Decided by*: {p['how']}"
                   + (f"\n\n*Assumes*: {p['assume']}." if p["assume"] else "")
                   + f"\n\n*Why the tests can't*: {p['why']}.\n")
    for t in ("design_findings.md", "design_seeded.md"):
        t = os.path.join(HERE, t)
        if os.path.exists(t):
            out.append(open(t).read().replace("@@TABLE@@", seeds()))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
