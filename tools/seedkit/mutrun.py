#!/usr/bin/env python3
"""mutrun.py [ID prefix...]: run each change of mutants.py against the check of its property."""
import os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
from mutants import MU
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = os.environ.get("SEEDSCRATCH", "/tmp/seedmut")
for id, prop, edits in MU:
    if sys.argv[1:] and not any(id.startswith(a) for a in sys.argv[1:]): continue
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", S])
    ok = True
    for f, a, b in edits:
        s = open(f"{S}/{f}").read()
        if s.count(a) != 1: print(id, "edit matches", s.count(a), a[:60]); ok = False; continue
        open(f"{S}/{f}", "w").write(s.replace(a, b))
    if not ok: continue
    line = f"{id}:"
    for p in prop.split():
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", p, "quick"], capture_output=True, text=True, env={**os.environ, "LFZ_REPO": S})
        line += f" {p}={'CAUGHT' if f'VIOLATION property={p}' in r.stdout else 'missed' if r.returncode == 0 else 'rc%d' % r.returncode} {time.time()-t:.0f}s"
    print(line, flush=True)
shutil.rmtree(S, ignore_errors=True)
