#!/usr/bin/env python3
"""Builds the simulator: every library source of /repo's working tree, with
GCS_SIMULATION on, together with /verif/sim, into one binary.

Nothing of /repo's own build tree is used. Objects are cached by the contents of
everything they were made from, in /verif/build (ignored by git)."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSIM_REPO", "/repo")
BUILD = os.environ.get("GSIM_BUILD", os.path.join(VERIF, "build"))
# one build of the library says whenever a basic block is entered, so that threads can change over there
EDGES = os.environ.get("GSIM_EDGES") == "1"
if EDGES and "GSIM_BUILD" not in os.environ:
    BUILD = os.path.join(VERIF, "build-edges")

CXX = shutil.which("clang++-20") or shutil.which("clang++") or shutil.which("g++-14") or "g++"
CLANG = "clang" in os.path.basename(CXX)

BASE = ["-std=c++23", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-DGCS_SIMULATION", "-D_GLIBCXX_ASSERTIONS",
        "-I" + os.path.join(VERIF, "shim"), "-I" + REPO, "-I" + os.path.join(VERIF, "sim")]
# Compiled without the optimiser: enormous instantiations that are not hot.
UNOPT = {"gcs/constraints/element/element.cc", "gcs/constraints/divide_modulus/divide_modulus.cc"}


class BuildError(Exception):
    pass


def library_sources():
    text = open(os.path.join(REPO, "gcs/CMakeLists.txt")).read()
    text = re.sub(r"#.*", "", text)
    m = re.search(r"add_library\(\s*glasgow_constraint_solver\b(.*?)\)", text, re.S)
    if not m:
        raise BuildError("cannot find the library's source list in gcs/CMakeLists.txt")
    srcs = [s for s in m.group(1).split() if s.endswith(".cc")]
    return ["gcs/" + s for s in srcs]


_hash_cache = {}


def file_hash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _hash_cache:
        with open(path, "rb") as f:
            _hash_cache[k] = hashlib.sha1(f.read()).hexdigest()
    return _hash_cache[k]


def parse_deps(depfile):
    try:
        text = open(depfile).read()
    except OSError:
        return None
    text = text.replace("\\\n", " ")
    _, _, rest = text.partition(":")
    # system headers cannot change here
    return [d for d in rest.split() if not d.startswith("/usr/")]


def key_of(cmd, deps):
    h = hashlib.sha1("\0".join(cmd).encode())
    for d in sorted(set(deps)):
        h.update(d.encode())
        h.update(file_hash(d).encode())
    return h.hexdigest()


def up_to_date(out, cmd):
    deps = parse_deps(out + ".d")
    if deps is None or not os.path.exists(out):
        return False
    try:
        return open(out + ".key").read() == key_of(cmd, deps)
    except OSError:
        return False


def compile_one(src, out, cmd, times, label):
    if up_to_date(out, cmd):
        return
    t = time.time()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(cmd + ["-MMD", "-MF", out + ".d", "-c", src, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"cannot compile {src}:\n{r.stderr[-4000:]}")
    with open(out + ".key", "w") as f:
        f.write(key_of(cmd, parse_deps(out + ".d") or []))
    times[label] = time.time() - t


def build(sim_sources=None, verbose=False, output="gsim", extra=()):
    """Returns (path of the binary, seconds taken)."""
    start = time.time()
    os.makedirs(BUILD, exist_ok=True)
    times = {}
    try:
        weights = json.load(open(os.path.join(VERIF, "tools/weights.json")))
    except (OSError, ValueError):
        weights = {}

    flags = BASE + list(extra)
    pch_args = []
    if CLANG:
        pch_src = os.path.join(VERIF, "sim/pch.hh")
        pch = os.path.join(BUILD, "all.pch")
        compile_one(pch_src, pch, [CXX, "-x", "c++-header", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp"] + flags, times, "pch")
        pch_args = ["-include-pch", pch]

    jobs = []
    for s in library_sources():
        cmd = [CXX] + flags + pch_args
        if s in UNOPT:
            cmd = [CXX] + flags + ["-O0"]
        if EDGES and CLANG:
            cmd = cmd + ["-fsanitize-coverage=trace-pc-guard"]
        jobs.append((os.path.join(REPO, s), os.path.join(BUILD, "lib", s.replace("/", "_") + ".o"), cmd, s))
    simdir = os.path.join(VERIF, "sim")
    for s in sorted(sim_sources if sim_sources is not None else [f for f in os.listdir(simdir) if f.endswith(".cc")]):
        jobs.append((os.path.join(simdir, s), os.path.join(BUILD, "sim", s + ".o"), [CXX] + flags + pch_args, "sim/" + s))
    jobs.sort(key=lambda j: -weights.get(j[3], 3.0))

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = [ex.submit(compile_one, s, o, c, times, l) for s, o, c, l in jobs]
        errs = []
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
                for g in futs:
                    g.cancel()
            except concurrent.futures.CancelledError:
                pass
    if errs:
        raise BuildError(errs[0])

    out = os.path.join(BUILD, output)
    # unoptimised objects last, so that their copies of inline functions are not the ones kept
    objs = [o for _, o, _, l in sorted(jobs, key=lambda j: (j[3] in UNOPT, j[3]))]
    link = [CXX, "-rdynamic"] + (["-fuse-ld=lld"] if shutil.which("ld.lld") or shutil.which("ld.lld-20") else [])
    link_cmd = link + objs + ["-o", out, "-lfmt", "-lstdc++exp", "-lpthread", "-ldl"]
    k = key_of(link_cmd, objs)
    if not (os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == k):
        r = subprocess.run(link_cmd, capture_output=True, text=True)
        if r.returncode:
            r2 = subprocess.run([c for c in link_cmd if c != "-lstdc++exp"], capture_output=True, text=True)
            if r2.returncode:
                raise BuildError("cannot link:\n" + r.stderr[-4000:])
        with open(out + ".key", "w") as f:
            f.write(k)
    if verbose:
        for l, t in sorted(times.items(), key=lambda x: -x[1])[:25]:
            print(f"{t:6.1f} {l}")
        print(f"built in {time.time() - start:.1f}s")
    if os.environ.get("GSIM_SAVE_WEIGHTS"):
        weights.update({l: round(t, 1) for l, t in times.items()})
        json.dump(weights, open(os.path.join(VERIF, "tools/weights.json"), "w"), indent=0, sort_keys=True)
    return out, time.time() - start


if __name__ == "__main__":
    try:
        build(verbose=True)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
