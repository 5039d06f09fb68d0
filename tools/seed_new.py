"""seed_new.py ID PROPERTY FILE < blocks: makes seeded/ID/patch.diff from an edit
(OLD ===== NEW blocks separated by #####), plus demo.py and meta.json sections:
blocks, then '@@demo', python demo, then '@@needs', text, then '@@breaks', text."""
import json, os, subprocess, sys
i, pid, rel = sys.argv[1:4]
txt = sys.stdin.read()
edit, rest = txt.split("\n@@demo\n")
demo, rest = rest.split("\n@@needs\n")
needs, breaks = rest.split("\n@@breaks\n")
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip() == ""
try:
    cur = rel
    p = "/repo/" + rel
    for b in edit.split("\n#####\n"):
        if b.startswith("FILE "):
            head, b = b.split("\n", 1); p = "/repo/" + head[5:].strip()
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        old, new = b.split("\n=====\n")
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (p, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run("git -C /repo diff --binary", shell=True, capture_output=True).stdout
finally:
    subprocess.run("git -C /repo checkout -- .", shell=True)
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(diff)
open(d + "/demo.py", "w").write(demo.strip() + "\n")
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
    '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({"property": pid, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(d + "/meta.json", "w"), indent=1)
print(len(diff), "bytes")
