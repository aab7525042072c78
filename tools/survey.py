#!/usr/bin/env python3
"""For development: run a property on many cases, carry on past violations, and
group what is found. survey.py PROP SEED SECONDS [WORKERS]"""
import collections, json, os, re, subprocess, sys, tempfile, time, concurrent.futures
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.environ.get("GSIM_BIN", os.path.join(VERIF, "build/gsim"))
prop, seed, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
W = int(sys.argv[4]) if len(sys.argv) > 4 else 8
MAXV = int(os.environ.get("MAXV", "12"))
end = time.time() + secs
def work(w):
    d = tempfile.mkdtemp(prefix="survey")
    nxt, found, tot, counts = w, [], 0, collections.Counter()
    while time.time() < end and len(found) < MAXV:
        r = subprocess.run([BIN, "run", prop, seed, str(w), str(W), str(max(1, end - time.time())), d, str(nxt)], capture_output=True, text=True)
        try:
            j = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            j = None
        if j:
            tot += j["cases"]; counts.update({k: v for k, v in j["counts"].items()})
            if not j["violation"]:
                break
            nxt = j["next"] + W
            src = os.path.join(d, f"v{w}.case")
        else:
            idx = int(open(os.path.join(d, f"cur{w}")).read())
            nxt = idx + W
            src = os.path.join(d, "crash.case")
            open(src, "w").write(subprocess.run([BIN, "gen", prop, seed, str(idx)], capture_output=True, text=True).stdout)
        out = os.path.join(d, f"m{len(found)}.case")
        m = subprocess.run([BIN, "min", src, out, "15"], capture_output=True, text=True)
        if m.returncode == 0:
            found.append((m.stdout.strip(), open(out).read()))
        else:
            found.append(("NOT REPRODUCED " + m.stderr + (r.stderr or "")[-200:], open(src).read()))
    return found, tot, counts
with concurrent.futures.ThreadPoolExecutor(W) as ex:
    res = list(ex.map(work, range(W)))
groups = collections.defaultdict(list)
for f, _, _ in res:
    for text, case in f:
        t = re.sub(r"minimised in \d+ runs: ", "", text)
        kinds = ",".join(sorted(re.findall(r"^con (\S+)", case, re.M)) + sorted(set(re.findall(r"^pre (\S+)", case, re.M))))
        groups[(t.split()[0] if t else "?", kinds)].append((t, case))
print("cases", sum(t for _, t, _ in res), "violations", sum(len(f) for f, _, _ in res))
c = collections.Counter()
for _, _, k in res:
    c.update(k)
if os.environ.get("COUNTS"):
    print(dict(c))
for (cat, kinds), v in sorted(groups.items(), key=lambda x: -len(x[1])):
    print("=====", len(v), cat, kinds)
    for t, case in v[:int(os.environ.get("SHOW", "1"))]:
        if os.environ.get("KEEP"):
            os.makedirs(os.environ["KEEP"], exist_ok=True)
            name = os.path.join(os.environ["KEEP"], f"{cat.strip(':')}-{kinds.replace(',', '-')[:60]}.case")
            open(name, "w").write(case)
        print("   ", t[:300])
        keep = [l for l in case.splitlines() if re.match(r"(var|con|obj|pre|op|dec)", l) or (re.match(r"p (?!bseed|sseed|stopseed|lseed)", l) and not l.endswith(" 0"))]
        print("    " + "\n    ".join(keep[:40]))
