#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: generated-input search for one property on /repo's current tree.

Exit 0: no counterexample (known findings are printed). Exit 1: VIOLATION line. Exit 2: the check could not run.
"""
import json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import build as B

NW = 8
#        cases, seconds, minimum number of cases whatever the time
BUDGET = {"quick": (80000, 70, 1200), "thorough": (4000000, 1200, 5000)}
# variants of the build used by the workers (worker i uses VARIANTS[i % n])
VARIANTS = {"C21": ["asan"] * 5 + ["plain"] * 3, "C19": ["plain", "tsan", "asan", "tsan", "plain", "tsan", "plain", "asan"]}
LEVEL = {"C09": "fault_enumeration", "C10": "fault_enumeration", "C11": "fault_enumeration", "C12": "fault_enumeration",
         "C13": "fault_enumeration", "C17": "fault_enumeration", "C18": "fault_enumeration", "C22": "fault_enumeration"}
ASSUME = ["the kernel side of FUSE is replaced by a driver that issues the operations the kernel and libfuse 3 (high level) issue; the mount itself is not exercised",
          "the underlying file system (tmpfs and the sandbox's /tmp) behaves as POSIX says",
          "clean process exit is treated like a kill for the data that must be durable"]

ASSUME_SCRIPTS = ["the scripts run as an unprivileged user in a scratch copy, with recording stand-ins for lazyfs, fusermount3, fusermount, umount and sudo",
                  "names contain no comma or backslash (the subdir module of libfuse itself does not take those)"]


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("finding: property=" + prop + " "):
                kv = dict(x.split("=", 1) for x in l.split(" what=", 1)[0].split()[1:])
                out.append((kv["case"], l.split(" what=", 1)[1]))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cases, secs, mn = BUDGET[tier]
    if os.environ.get("LFZ_SECS"):
        secs = float(os.environ["LFZ_SECS"])
    variants = VARIANTS.get(prop, ["plain"])
    try:
        bins = {} if prop == "C24" else {v: B.build(v) for v in sorted(set(variants))}
    except RuntimeError as e:
        print("the harness does not build against %s:\n%s" % (B.REPO, e), file=sys.stderr)
        return 2
    tb = time.time() - t0
    shm = "/dev/shm/lfz%d" % os.getpid()
    tmp = "/tmp/lfz%d" % os.getpid()
    rep = os.path.join(VERIF, "replays")
    for d in (shm, tmp):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chmod(d, 0o755)
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    procs = []
    try:
        return run(prop, tier, seed, t0, tb, cases, secs, mn, variants, bins, shm, tmp, rep, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        for d in (shm, tmp):
            for _ in range(5):
                shutil.rmtree(d, ignore_errors=True)
                if not os.path.exists(d):
                    break
                time.sleep(.2)


def wait_all(ps, grace):
    """wait for the workers; after the first failure stop the others"""
    live = dict(ps)
    rc = {}
    failed_at = None
    while live:
        for i, p in list(live.items()):
            r = p.poll()
            if r is not None:
                rc[i] = r
                del live[i]
                if r == 1 and failed_at is None:
                    failed_at = time.time()
        if failed_at is not None and live:
            for i, p in live.items():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            break
        if time.time() > grace:
            for i, p in live.items():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                rc[i] = -1
            break
        time.sleep(.05)
    return rc


def run(prop, tier, seed, t0, tb, cases, secs, mn, variants, bins, shm, tmp, rep, procs):
    ps, outs = {}, {}
    lp = prop == "C20"
    nw = 0 if prop == "C24" else NW - 2 if lp else NW
    limit = 780 if tier == "quick" else 6 * 3600
    for i in range(nw):
        # the disk's file system recycles inode numbers, the memory's does not
        base = (tmp if i % (2 if prop == "C06" else 4) == 1 else shm) + "/w%d" % i
        out = os.path.join(shm, "o%d.json" % i)
        cmd = [bins[variants[i % len(variants)]], "run", "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(i), "--nshards", str(nw),
               "--cases", str(cases), "--secs", str(secs), "--min", str(mn // nw), "--shrink", "40", "--base", base, "--out", out, "--repdir", rep]
        if lp and i == 0:
            cmd += ["--keeplog", os.path.join(tmp, "real")]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1",
                   TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:detect_deadlocks=0:atexit_sleep_ms=0")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, start_new_session=True)
        procs.append(p)
        ps[i] = p
        outs[i] = out
    if nw < NW:
        tool = "logparse.py" if lp else "scripts.py"
        for i in range(nw, NW):
            out = os.path.join(shm, "o%d.json" % i)
            cmd = [sys.executable, os.path.join(VERIF, "tools", tool), "run", str(seed), str(i - nw), str(NW - nw), str(cases), str(secs * (.8 if lp else .5)), "200",
                   os.path.join(shm, "lp%d" % i), out, rep]
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            procs.append(p)
            ps[i] = p
            outs[i] = out
    rc = wait_all(ps, t0 + limit)
    res = []
    for i, o in outs.items():
        if rc.get(i) in (0, 1):
            try:
                res.append((i, json.load(open(o))))
            except (OSError, ValueError):
                pass
    reallogs = 0
    if lp and all(r in (0,) for r in rc.values()):
        logs = [os.path.join(tmp, f) for f in os.listdir(tmp) if f.startswith("real")]
        out = os.path.join(shm, "oreal.json")
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "tools", "logparse.py"), "run", str(seed), "0", "1", "0", "0", "0", os.path.join(shm, "lpr"), out, rep] + logs,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        procs.append(p)
        wait_all({"r": p}, time.time() + 120)
        if os.path.exists(out):
            d = json.load(open(out))
            res.append((NW, d))
            reallogs = d["reallogs"]
    if not res:
        print("no worker finished: %r" % rc, file=sys.stderr)
        return 2
    tot = {}
    prof, stat, samples, flaky, fails, rule = {}, {}, [], [], [], ""
    for i, d in res:
        for k in ("evaluations", "nontrivial", "distinct_nontrivial", "vacuous", "inconclusive", "skipped", "fuse_ops", "injections", "injection_points", "sessions", "flaky"):
            tot[k] = tot.get(k, 0) + d.get(k, 0)
        for k, v in d.get("profiles", {}).items():
            prof[k] = prof.get(k, 0) + v
        for k, v in d.get("stat", {}).items():
            stat[k] = stat.get(k, 0) + v
        if len(samples) < 4:
            samples += d.get("samples", [])[:1]
        flaky += d.get("flaky_notes", [])
        rule = d.get("rule") or rule
        if d.get("failure"):
            fails.append(d["failure"])
    regress = 0
    rdir = os.path.join(VERIF, "regress")
    for fn in sorted(os.listdir(rdir)) if bins else []:
        # minimal reproductions of repaired defects, found by the generators
        if not fn.startswith(prop + "-"):
            continue
        b = bins.get("plain") or list(bins.values())[0]
        cmd = [b, "replay", "--file", os.path.join(rdir, fn), "--prop", prop, "--base", os.path.join(shm, "g"), "--reps"]
        r = subprocess.run(cmd + ["1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        regress += 1
        if r.returncode == 1 and subprocess.run(cmd + ["3"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1:
            fails.append({"cat": "REGRESSION", "msg": r.stdout.decode("latin1").strip()[:500], "text": open(os.path.join(rdir, fn), encoding="latin1").read(), "replay": os.path.join(rdir, fn)})
    known = []
    kdir = os.path.join(shm, "k")
    for case, what in known_findings(prop):
        b = bins.get("plain") or list(bins.values())[0]
        r = subprocess.run([b, "replay", "--file", os.path.join(VERIF, case), "--prop", prop, "--base", kdir, "--reps", "2"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        known.append({"case": case, "reproduced": r.returncode == 1})
        if r.returncode == 1:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, case))
    cov = dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct_nontrivial"],
               rule="cases come from seeded generators (configuration, initial tree, operations, faults; profiles below); non-trivial: " + rule,
               samples=samples, profiles=prof, fuse_operations=tot["fuse_ops"], mount_sessions=tot["sessions"], injection_points_reached=tot["injection_points"],
               injections_fired=tot["injections"], cases_without_verdict=tot["vacuous"] + tot["inconclusive"] + tot["skipped"], unreproducible=tot["flaky"], unreproducible_notes=flaky[:5],
               model_events=stat, builds=sorted(bins), workers_lost=len(outs) - len([i for i in outs if rc.get(i) in (0, 1)]), build_s=round(tb, 1), known_findings=known, regressions_replayed=regress)
    if lp:
        cov["logparse_cases"] = sum(d["evaluations"] for i, d in res if nw <= i < NW)
        cov["logparse_real_logs"] = reallogs
    assume = ASSUME_SCRIPTS if prop == "C24" else ASSUME
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "exploration"), coverage=cov, assumptions=assume, wall_s=round(time.time() - t0, 2), violations=len(fails))
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d file system operations, %.0f s (build %.0f s)" %
          (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], cov["fuse_operations"], time.time() - t0, tb))
    if fails:
        f = fails[0]
        print("%s: %s" % (f["cat"], f["msg"]))
        print(f["text"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, f["replay"]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
