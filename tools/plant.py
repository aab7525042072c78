#!/usr/bin/env python3
"""For development: plant.py ID... tries planted bugs: applies seeded/ID/patch.diff to /repo, builds, runs the
stable tests and the demonstration, runs the property's check, and puts /repo back. --nobuild skips build and
tests, --nodemo the demonstration, --seconds N limits the check."""
import argparse, json, os, subprocess, sys, time
a = argparse.ArgumentParser()
a.add_argument("ids", nargs="+"); a.add_argument("--nobuild", action="store_true"); a.add_argument("--nodemo", action="store_true")
a.add_argument("--nocheck", action="store_true"); a.add_argument("--seconds"); a.add_argument("--props"); a.add_argument("--cleandemo", action="store_true")
a = a.parse_args()
V = "/verif"
def run(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
for i in a.ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    if run("git -C /repo status --porcelain --untracked-files=no").stdout.strip():
        sys.exit("/repo is not clean")
    if a.cleandemo:
        t = time.time(); r = run(["bash", f"{d}/demo.sh"], cwd="/repo"); print(i, "demo on the unchanged tree:", r.returncode, f"{time.time()-t:.0f}s", r.stderr[-300:] if r.returncode else "")
    r = run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"])
    if r.returncode:
        print(i, "does not apply", r.stderr); continue
    try:
        if not a.nobuild:
            r = run("bash /opt/vp/build.sh"); print(i, "build", r.returncode, r.stdout[-600:] if r.returncode else "")
            run("bash /opt/vp/test.sh /tmp/plant.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t = json.load(open("/tmp/plant.json"))
            print(i, "stable tests failing:", sorted(base - set(t["passed"])))
        if not a.nodemo:
            t = time.time(); r = run(["bash", f"{d}/demo.sh"], cwd="/repo"); print(i, "demo with the bug:", r.returncode, f"{time.time()-t:.0f}s", (r.stdout + r.stderr)[-200:])
        if not a.nocheck:
            for p in (a.props or meta["property"]).split(","):
                t = time.time(); r = run([sys.executable, f"{V}/tools/check.py", p] + (["--seconds", a.seconds] if a.seconds else []), cwd=V, env=dict(os.environ, VERIF_SEED="1"))
                print(i, p, "check:", r.returncode, f"{time.time()-t:.0f}s", "\n   ".join([l for l in r.stdout.splitlines() if l.startswith((p + ":", "VIOLATION"))][:3])[:500], r.stderr[-300:] if r.returncode not in (0, 1) else "")
    finally:
        run("git -C /repo checkout -- .")
    sys.stdout.flush()
