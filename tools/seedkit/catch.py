#!/usr/bin/env python3
"""catch.py [ID...] [--tests] [--props C01,..]: with each planted bug in a scratch clone, which checks report it (and, with
--tests, whether the repository's own tests still pass, for which the patch is put into /repo for a moment)."""
import os, shutil, subprocess, sys, json, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
tests = "--tests" in sys.argv
props = [a[8:].split(",") for a in sys.argv if a.startswith("--props=")]
S = os.environ.get("SEEDSCRATCH", "/tmp/seedcatch")
base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if tests and "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
for id in args or sorted(os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{id}"
    prop = json.load(open(d + "/meta.json"))["property"]
    shutil.rmtree(S, ignore_errors=True)
    sh("git", "clone", "-q", "/repo", S)
    r = sh("git", "-C", S, "apply", d + "/patch.diff")
    if r.returncode: print(id, "does not apply", r.stderr); continue
    line = f"{id}:"
    if tests:
        sh("git", "-C", "/repo", "apply", d + "/patch.diff")
        sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json")
        sh("git", "-C", "/repo", "checkout", "--", ".")
        j = json.load(open("/tmp/seedtest.json"))
        line += f" tests {len(j['passed'])} passed {j['failed']}"
    for p in (props[0] if props else [prop]):
        t = time.time()
        r = sh("python3", V + "/check.py", p, "quick", env={**os.environ, "LFZ_REPO": S})
        got = f"VIOLATION property={p}" in r.stdout
        first = ""
        line += f" {p}={'CAUGHT' if got else 'missed' if r.returncode == 0 else 'rc%d' % r.returncode} {time.time()-t:.0f}s"
    print(line, flush=True)
shutil.rmtree(S, ignore_errors=True)
