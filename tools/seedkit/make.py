#!/usr/bin/env python3
"""make.py [ID...]: writes seeded/ID (patch, demo, meta) after confirming in a scratch copy that the patch builds and that
the demonstration tells the trees apart. make.py --tests ID...: also runs the repository's tests on /repo with the patch."""
import os, shutil, subprocess, sys, json
K = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(K))
sys.path.insert(0, K)
sys.dont_write_bytecode = True
from bugs import B
S = "/tmp/seedscratch"
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def original(repo, f, old):
    txt = open(f"{repo}/{f}").read()
    i = txt.index(old)
    a = txt[:i].count("\n") + 1
    return a
def one(id):
    b = B[id]
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    r = sh("git", "-C", "/repo", "worktree", "prune")
    sh("git", "clone", "-q", "/repo", S + "/repo")
    r = S + "/repo"
    base = sh("git", "-C", r, "rev-list", "--max-parents=0", "HEAD").stdout.strip()[:7]
    base = "bf80791"
    for f, old, new in b["edits"]:
        t = open(f"{r}/{f}").read()
        if t.count(old) != 1: return f"{id}: text occurs {t.count(old)} times in {f}: {old[:80]!r}"
        open(f"{r}/{f}", "w").write(t.replace(old, new))
    diff = sh("git", "-C", r, "diff").stdout
    # at least one removed line is of the original repository
    orig = 0
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- "): cur = l[6:]
        elif l.startswith("@@"): n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-"):
            bl = sh("git", "-C", r, "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", cur).stdout
            orig += bl.lstrip("^").startswith(base)
            n += 1
        elif l.startswith(" "): n += 1
    d = f"{V}/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(K + "/drv.hpp", d)
    shutil.copy(K + "/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write('#include "drv.hpp"\n' + b["demo"].lstrip("\n"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    p = sh("bash", d + "/demo.sh", cwd=r)
    q = sh("bash", d + "/demo.sh", cwd="/repo")
    ok = q.returncode == 0 and p.returncode == 1 and orig > 0
    return f"{'ok  ' if ok else 'BAD '} {id} orig={orig} clean={q.returncode} patched={p.returncode}" + ("" if ok else "\n" + q.stdout + q.stderr + "---\n" + p.stdout + p.stderr)
for id in (sys.argv[1:] or list(B)):
    print(one(id), flush=True)
shutil.rmtree(S, ignore_errors=True)
