"""Try planted bugs: seed_try.py ID...  (applies in /repo, tests, demo, check, reverts)"""
import json, os, subprocess, sys
V = "/verif"
def sh(cmd, t=900):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def git(a): return sh("git -C /repo " + a)
assert git("status --porcelain")[1].strip() == "", "repo dirty"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
notest = "--notest" in sys.argv
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = f"{V}/seeded/{i}"
    pid = json.load(open(f"{d}/meta.json"))["property"]
    r0, o0 = sh(f"cd /repo && bash {d}/demo.sh", 300)
    try:
        rc, out = git(f"apply {d}/patch.diff")
        if rc: print(i, "PATCH FAILS", out); continue
        r1, o1 = sh(f"cd /repo && bash {d}/demo.sh", 300)
        bad = "-"
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            t = json.load(open("/tmp/seed_t.json"))
            bad = sorted(stable - set(t["passed"]))
        rc, out = sh(f"cd {V} && VERIF_SEED=1 bash check.sh {pid} quick")
        print(i, pid, f"demo clean={r0} patched={r1} tests_lost={bad} check={rc}")
        if r0: print("   clean demo:", o0[-400:])
        if not r1: print("   demo passes with patch", o1[-300:])
        print("   ", [l for l in out.splitlines() if l.startswith(("facet", "VIOL"))][:1] or out[-300:])
        sys.stdout.flush()
    finally:
        git("checkout -- .")
