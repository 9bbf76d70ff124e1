#!/usr/bin/env python3
"""plant.py verify ID...   : for each seeded change: apply to /repo, build, stable
tests, demo must fail, its check must report; revert, rebuild, demo must pass.
   plant.py save ID PROP 'needs' 'breaks' : store /repo's current diff as seeded/ID and revert."""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def save(i, prop, needs, breaks):
    d = "%s/seeded/%s" % (V, i); os.makedirs(d, exist_ok=True)
    diff = sh("git -C %s diff" % R).stdout
    assert diff.strip(), "no diff"
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -- ." % R)
    print("saved", i)


def tests():
    b = json.load(open("/opt/vp/BASELINE.json"))
    stable = b.get("stable_tests") or b.get("passed") or b.get("stable") or []
    sh("bash /opt/vp/test.sh /tmp/o.json")
    ok = set(json.load(open("/tmp/o.json"))["passed"])
    return [x for x in stable if x not in ok], len(stable)


def verify(i, checks=True):
    d = "%s/seeded/%s" % (V, i); m = json.load(open(d + "/meta.json"))
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
    out = [i]
    try:
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr); return False
        miss, n = tests()
        if not n: print("no baseline!")
        out.append("tests ok" if not miss else "TESTS FAIL %s" % miss[:3])
        sh("rm -rf /tmp/demo_%s; cp -r %s /tmp/demo_%s" % (i, d, i))
        r = sh("timeout 300 bash /tmp/demo_%s/demo.sh" % i, cwd=R)
        out.append("demo fails(%d)" % r.returncode if r.returncode else "DEMO PASSES WITH BUG")
        if checks:
            r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check %s quick" % m["property"], cwd=V)
            caught = r.returncode == 1 and "VIOLATION property=" in r.stdout
            out.append("CAUGHT" if caught else "MISSED rc=%d %s" % (r.returncode, r.stdout[-600:]))
            if caught: out.append("; ".join(x.strip() for x in r.stdout.split("\n") if "violation:" in x or "first event" in x)[:300])
    finally:
        sh("git -C %s checkout -- ." % R)
    sh("bash /opt/vp/build.sh")
    r = sh("timeout 300 bash /tmp/demo_%s/demo.sh" % i, cwd=R)
    out.append("demo clean ok" if r.returncode == 0 else "DEMO FAILS CLEAN rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-500:]))
    sh("rm -rf /tmp/demo_%s" % i)
    print(" | ".join(out), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "save":
        save(*sys.argv[2:6])
    else:
        ids = sys.argv[2:]
        if ids == ["all"]: ids = sorted(os.listdir(V + "/seeded"))
        for i in ids: verify(i)
