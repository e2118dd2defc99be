#!/usr/bin/env python3
"""Confirm a planted bug: plant.py ID [--no-check].  The patch is applied in /repo and undone."""
import json, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main(bid, check=True):
    d = f"{V}/seeded/{bid}"
    meta = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo not clean"
    demo = lambda: sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
    sh("bash /opt/vp/build.sh")
    r = demo(); ok = r.returncode == 0
    print(bid, meta["property"], "demo clean:", r.returncode)
    if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
    try:
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode: print(a.stderr); return 1
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print("BUILD FAILS", b.stdout[-1500:]); return 1
        t = sh("bash /opt/vp/test.sh /tmp/plant_test.json")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/plant_test.json"))
        def passed(j):
            p = j.get("passed") or j.get("pass") or j.get("stable") or []
            return set(p)
        bad = passed(base) - passed(got)
        print(" tests lost:", sorted(bad)[:5], "of", len(passed(base)))
        r = demo(); print(" demo with bug:", r.returncode, (r.stdout + r.stderr)[-200:].replace("\n", " | "))
        ok = ok and not bad and r.returncode != 0
        if check:
            man = json.load(open(V + "/MANIFEST.json"))
            for c in man.get("checks", man.get("properties", [])):
                if c.get("property", c.get("id")) == meta["property"]:
                    cmd = c.get("quick", c.get("quick_cmd"))
                    cmd = cmd if isinstance(cmd, str) else cmd.get("cmd")
                    k = sh(cmd, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                    v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
                    print(" check rc", k.returncode, v[:1], k.stdout[-300:] if not v else "")
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    print(bid, "VALID" if ok else "INVALID")
    return 0 if ok else 1
if __name__ == "__main__":
    for b in [a for a in sys.argv[1:] if not a.startswith("-")]: main(b, "--no-check" not in sys.argv)
