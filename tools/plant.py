#!/usr/bin/env python3
"""plant.py ID file OLD NEW [file OLD NEW ...]: plants a bug in /repo, confirms it (builds, stable tests pass, the
demonstration in seeded/ID fails with it and passes without it), writes seeded/ID/patch.diff, says whether the
property's check sees it, and restores /repo.  With only ID: the patch is taken as it is."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, ed = sys.argv[1], sys.argv[2:]
d = f"{V}/seeded/{i}"
prop = json.load(open(d + "/meta.json"))["property"]
run = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert run("git -C /repo status --porcelain").stdout == "", "repo not clean"
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
try:
    if ed:
        for f, o, n in zip(ed[::3], ed[1::3], ed[2::3]):
            s = open("/repo/" + f).read()
            assert s.count(o) >= 1, ("not found", o)
            open("/repo/" + f, "w").write(s.replace(o, n, 1))
        open(d + "/patch.diff", "w").write(run("git -C /repo diff").stdout)
    else:
        r = run(f"git -C /repo apply {d}/patch.diff")
        assert r.returncode == 0, r.stdout
    r = run("bash /opt/vp/build.sh")
    assert r.returncode == 0, r.stdout[-3000:]
    run("bash /opt/vp/test.sh /tmp/plant.json")
    o = json.load(open("/tmp/plant.json"))
    print("tests:", len(o["passed"]), "passed;", o["failed"])
    r = run(f"bash {d}/demo.sh", cwd="/repo")
    print("demo with the bug:", r.returncode, r.stdout[-300:].strip())
    if "--nocheck" not in os.environ.get("PLANT", ""):
        r = run(f"VERIF_SEED=1 python3 {V}/check.py {prop}", timeout=900)
        print("check:", r.returncode, r.stdout[-500:].strip())
finally:
    run("git -C /repo checkout -- .")
    r = run("bash /opt/vp/build.sh")
r = run(f"bash {d}/demo.sh", cwd="/repo")
print("demo without:", r.returncode, r.stdout[-300:].strip())
