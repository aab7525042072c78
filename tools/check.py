#!/usr/bin/env python3
"""Decide one property by simulation: check.py PROP [--tier quick|thorough] [--seconds N] [--seed N]

Builds the simulator from /repo's working tree, explores seeded cases on every core, and
reports. A violation is believed only if two fresh processes replay it to the same outcome
and the same trace hash; it is then minimised, and what is written is what was minimised.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build failed, ...)."""
import argparse, array, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import catalogue

BIN = os.path.join(VERIF, "build/gsim")


def sh(cmd, timeout=None):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 98, "", "timed out")


def replay(path):
    """(status, hash, text) of one replay in a process of its own."""
    r = sh([BIN, "replay", path], 400)
    for line in r.stdout.splitlines():
        m = re.match(r"RESULT (\d+) (\d+) (.*)", line)
        if m:
            return int(m[1]), m[2], m[3]
    return 3, "", (r.stderr or r.stdout or "no result")[-300:]


def category(text):
    return text.split()[0] if text.split() else ""


def known(prop):
    """[(regex over the violation's text, what to say)], from the committed file."""
    out = []
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) match=/(.*?)/ case=/(.*?)/ (.*)", line.strip())
        if m and m[1] == prop:
            out.append((re.compile(m[2]), re.compile(m[3]), m[4]))
    return out


def on_record(prop):
    """What is said of each recorded case which still fails: [text]."""
    cases = []
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", line.strip())
        if m and m[1] == prop:
            cases.append((os.path.join(VERIF, m[2]), m[3]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return [f"{t} ({os.path.relpath(c, VERIF)})" for (c, t), r in zip(cases, ex.map(lambda x: replay(x[0]), cases)) if r[0] == 1]


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--seconds", type=float)
    a.add_argument("--workers", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    a = a.parse_args()
    start = time.time()
    info = catalogue.CHECKS[a.prop]
    budget = a.seconds or info[a.tier]

    env = dict(os.environ)
    if info.get("build") == "edges":
        global BIN
        BIN = os.path.join(VERIF, "build-edges/gsim")
        env["GSIM_EDGES"] = "1"
    b = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build.py")], stdin=subprocess.DEVNULL, env=env)
    if b.returncode != 0:
        print(f"{a.prop}: the simulator does not build from /repo's working tree", file=sys.stderr)
        return 2
    built = time.time()

    d = tempfile.mkdtemp(prefix=f"gsim-{a.prop}-")
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    try:
        return explore(a, info, budget, start, built, d, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore(a, info, budget, start, built, d, out):
    finds = known(a.prop)
    seen_known = {}
    deadline = time.time() + budget
    state = {w: w for w in range(a.workers)}  # the case each worker is to look at next
    total = dict(cases=0, skipped=0, steps=0)
    counts, samples, unexplained = {}, [], []
    hashes = {"schedule": set(), "shape": set()}
    violation = None

    def merge(j):
        for k in total:
            total[k] += j.get(k, 0)
        for k, v in j["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("most ") else counts.get(k, 0) + v
        if len(samples) < 6:
            samples.extend(j["samples"][:1])

    while state and violation is None:
        left = deadline - time.time()
        if left < 0.5 and total["cases"]:
            break
        procs = {}
        for w, first in state.items():
            cmd = [BIN, "run", a.prop, str(a.seed), str(w), str(a.workers), str(max(1.0, left)), d, str(first)]
            procs[w] = subprocess.Popen(cmd, stdout=open(f"{d}/o{w}", "w"), stderr=open(f"{d}/e{w}", "w"), stdin=subprocess.DEVNULL)
        again, suspects = {}, []
        for w, p in procs.items():
            try:
                p.wait(timeout=max(1.0, left) + 400)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            j = None
            try:
                j = json.loads(open(f"{d}/o{w}").read().strip().splitlines()[-1])
            except (ValueError, IndexError):
                pass
            load_hashes(f"{d}/h{w}", hashes)
            if j:
                merge(j)
                if j["violation"]:
                    again[w] = j["next"] + a.workers
                    c = f"{d}/suspect{w}.case"
                    shutil.copy(f"{d}/v{w}.case", c)
                    suspects.append((w, c))
            else:
                # the worker itself ended: the case it was looking at is the suspect
                try:
                    idx = int(open(f"{d}/cur{w}").read())
                except (OSError, ValueError):
                    print(f"{a.prop}: worker {w} ended with {p.returncode}: {open(f'{d}/e{w}').read()[-500:]}", file=sys.stderr)
                    return 2
                again[w] = idx + a.workers
                c = f"{d}/suspect{w}.case"
                g = sh([BIN, "gen", a.prop, str(a.seed), str(idx)], 120)
                open(c, "w").write(g.stdout)
                suspects.append((w, c))
        for w, c in suspects:
            r1, r2 = replay(c), replay(c)
            if r1[0] != 1 or r1 != r2:
                unexplained.append((open(c).read(), r1, r2))
                keep = os.path.join(out, f"{a.prop}-unexplained{len(unexplained)}.case")
                shutil.copy(c, keep)
                continue
            k = match_known(finds, r1[2], open(c).read())
            if k is None:
                violation = (c, r1)
                break
            seen_known[k] = seen_known.get(k, 0) + 1
        state = again if time.time() < deadline - 0.5 else {}

    # what is on record and must still be said, found by this run's seeds or not
    for k in finds:
        print(f"KNOWN-FINDING: property={a.prop} {k[2]}")
    for t in on_record(a.prop):
        print(f"KNOWN-FINDING: property={a.prop} {t}")

    code = 0
    if violation:
        code = report(a, out, *violation, finds)
    elif unexplained:
        for text, r1, r2 in unexplained[:3]:
            print(f"{a.prop}: a suspect did not replay: {r1} then {r2}", file=sys.stderr)
        code = 2
    nontrivial = len(hashes["schedule"])
    cov = dict(
        evaluations=total["cases"],
        distinct_nontrivial=nontrivial,
        rule=info["rule"],
        samples=samples[:4] or ["none"],
        skipped=total["skipped"],
        simulated_steps=total["steps"],
        distinct_histories=len(hashes["schedule"]),
        distinct_case_shapes=len(hashes["shape"]),
        measure=info["measure"],
        cases_per_hour=int(total["cases"] * 3600 / max(1e-9, time.time() - built)),
        simulated_steps_per_hour=int(total["steps"] * 3600 / max(1e-9, time.time() - built)),
        simulated_time=info.get("time", "the code has no timers: simulated time is counted in scheduler steps"),
        faults_injected={k[7:]: v for k, v in sorted(counts.items()) if k.startswith("fault: ")},
        counts={k: v for k, v in sorted(counts.items()) if not k.startswith("fault: ")},
        real_components=info["real"],
        stubs=info["stubs"],
        build_s=round(built - start, 1),
    )
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=info["level"], coverage=cov, assumptions=info["assumes"],
              wall_s=round(time.time() - start, 1), violations=1 if code == 1 else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, f"evidence/{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{a.prop}: {total['cases']} cases, {nontrivial} distinct histories, {total['steps']} steps in {time.time() - built:.0f}s after a {built - start:.0f}s build; seed {a.seed}")
    return code


def load_hashes(path, hashes):
    try:
        raw = open(path, "rb").read()
    except OSError:
        return
    v = array.array("Q")
    v.frombytes(raw[: len(raw) // 8 * 8])
    if not v:
        return
    n = v[0]
    hashes["schedule"].update(v[1:1 + n])
    hashes["shape"].update(v[2 + n:])
    os.unlink(path)


def match_known(finds, text, case):
    for i, (t, c, _) in enumerate(finds):
        if t.search(text) and c.search(case):
            return i
    return None


def report(a, out, case, r, finds):
    """Minimise, check that what was minimised replays, and say so."""
    small = os.path.join(out, f"{a.prop}.case")
    shutil.copy(case, small)
    mini = os.path.join(os.path.dirname(case), "mini.case")
    secs = 60 if a.tier == "quick" else 300
    m = sh([BIN, "min", case, mini, str(secs)], secs + 300)
    text = r[2]
    if m.returncode == 0:
        r1, r2 = replay(mini), replay(mini)
        if r1[0] == 1 and r1 == r2 and category(r1[2]) == category(r[2]) and match_known(finds, r1[2], open(mini).read()) is None:
            shutil.copy(mini, small)
            text = r1[2]
    print(f"{a.prop}: {text}")
    print(open(small).read())
    print(f"to replay: {os.path.relpath(BIN, VERIF)} replay {os.path.relpath(small, VERIF)}")
    print(f"VIOLATION property={a.prop} replay={small}", flush=True)
    return 1


if __name__ == "__main__":
    sys.exit(main())
