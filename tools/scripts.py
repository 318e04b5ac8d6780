#!/usr/bin/env python3
"""Generated command lines for lazyfs/scripts/{mount,umount}-lazyfs.sh (property C24).

The scripts are copied to a scratch directory and run there by an unprivileged user, with recording stand-ins for ./build/lazyfs, fusermount3,
umount and sudo.  Oracle: what the stand-ins were started with is what the command line asked for.

usage: scripts.py run SEED SHARD NSHARDS CASES SECS MIN SCRATCH OUT REPDIR | scripts.py replay FILE
"""
import hashlib, json, os, random, shutil, signal, subprocess, sys, time

REPO = os.environ.get("LFZ_REPO", "/repo")
S = REPO + "/lazyfs/scripts/"
CHARS = ["a", "b", "x", "1", "_", "-", ".", " ", "  ", "*", "?", "[a]", "$HOME", "`id`", "'", '"', ";", "&", "#", "(", ")", "~", "é", "|", "%s", "=", "!", "{a,b}".replace(",", "")]
WAIT = 8  # how long the start in the background may take
STUB = """#!/bin/bash
f="$LZ_REC/$(basename "$0").$$.tmp"
printf '%s\\0' "$PWD" "$0" "$@" > "$f"
mv "$f" "${f%.tmp}.rec"
"""


def name(r):
    k = r.random()
    if k < .4:
        return r.choice(["mnt", "root", "data", "d1", "lazy.mnt"])
    while True:
        n = "".join(r.choice(CHARS) for _ in range(r.randint(1, 6)))
        if n.strip(" ") and n not in (".", "..") and not n.startswith("-"):
            return n


def gen(seed):
    r = random.Random(seed)
    c = {"script": "mount" if r.random() < .75 else "umount"}
    c["names"] = {k: name(r) + "." + k for k in ("m", "r", "c")}
    c["slash"] = r.random() < .2
    c["rel"] = r.random() < .3
    c["missing"] = r.choice(["m", "r", "c"]) if r.random() < .2 else None
    args = []
    if c["script"] == "mount":
        parts = [("-c", "--config-path", "c"), ("-m", "--mount.dir", "m"), ("-r", "--root.dir", "r")]
        r.shuffle(parts)
        parts = [[r.choice(p[:2]), "@" + p[2]] for p in parts]
        c["fg"] = r.random() < .5
        if c["fg"]:
            parts.insert(r.randint(0, len(parts)), [r.choice(["-f", "--foreground"])])
        if r.random() < .12:
            del parts[r.randrange(len(parts))]
    else:
        parts = [[r.choice(["-m", "--mount.dir"]), "@m"]]
    k = r.random()
    if k < .08:
        parts.insert(r.randint(0, len(parts)), [r.choice(["-h", "--help"])])
    elif k < .16:
        parts.insert(r.randint(0, len(parts)), [r.choice(["-x", "--mount", "word", "--", "-mount.dir", "-mf"])])
    elif k < .19:
        parts = []
    c["args"] = [a for p in parts for a in p]
    if c["args"] and c["args"][-1][0] == "@" and r.random() < .05:
        del c["args"][-1]  # an option without its value
    return c


def expected(c):
    """what must be started: None (nothing), or a description; second: free to start nothing"""
    a, i, got = c["args"], 0, {}
    M = {"-c": "c", "--config-path": "c", "-m": "m", "--mount.dir": "m", "-r": "r", "--root.dir": "r"} if c["script"] == "mount" else {"-m": "m", "--mount.dir": "m"}
    if not a:
        return None
    while i < len(a):
        if a[i] in M:
            if i + 1 == len(a):
                return None
            got[M[a[i]]] = True
            i += 2
        elif a[i] in ("-f", "--foreground") and c["script"] == "mount":
            got["f"] = True
            i += 1
        else:
            return None  # help, or not a known option
    need = "cmr" if c["script"] == "mount" else "m"
    if any(n not in got for n in need):
        return None
    if c["script"] == "mount" and c["missing"]:
        return None
    return got


def check(c, scratch):
    if os.path.exists(scratch):
        shutil.rmtree(scratch)
    top = scratch + "/lazyfs"
    for d in ("/scripts", "/build", "/rec", "/bin", "/w"):
        os.makedirs(top + d)
    for f in ("mount-lazyfs.sh", "umount-lazyfs.sh"):
        shutil.copy(S + f, top + "/scripts/" + f)
        os.chmod(top + "/scripts/" + f, 0o755)
    for f in ("build/lazyfs", "bin/fusermount3", "bin/fusermount", "bin/umount", "bin/sudo"):
        open(top + "/" + f, "w").write(STUB)
        os.chmod(top + "/" + f, 0o755)
    real = {}
    for k in "mrc":
        p = ("w/" if c["rel"] else top + "/w/") + c["names"][k]
        if c["missing"] != k or c["script"] == "umount":
            if k == "c":
                open(os.path.join(top, p), "w").close()
            else:
                os.makedirs(os.path.join(top, p))
        real[k] = p + ("/" if c["slash"] and k != "c" else "")
    for d, ds, fs in os.walk(scratch):
        os.chmod(d, 0o777)
    argv = [real[a[1:]] if a.startswith("@") else a for a in c["args"]]

    def low():
        os.setsid()
        if os.getuid() == 0:
            os.setgid(65534)
            os.setuid(65534)
    env = {"PATH": top + "/bin:/usr/bin:/bin", "LZ_REC": top + "/rec", "HOME": top, "LANG": "C.UTF-8"}
    p = subprocess.Popen(["/bin/bash", "scripts/%s-lazyfs.sh" % c["script"]] + argv, cwd=top, env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=low)
    try:
        p.wait(30)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return "the script does not end", None
    exp = expected(c)
    until = time.time() + (.02 if exp is None else WAIT if not exp.get("f") and c["script"] == "mount" else .3)
    while time.time() < until:
        if any(f.endswith(".rec") for f in os.listdir(top + "/rec")):
            break
        time.sleep(.005)
    recs = [open(top + "/rec/" + f, "rb").read().split(b"\0")[:-1] for f in sorted(os.listdir(top + "/rec")) if f.endswith(".rec")]
    recs = [[x.decode(errors="replace") for x in r] for r in recs]
    if exp is None:
        if recs:
            return "nothing may be started by %r, but %r was" % (c["args"], recs[0][1:]), None
        return None, "tr"
    if len(recs) != 1:
        return "started %d times instead of once: %r" % (len(recs), [r[1:] for r in recs]), None
    cwd, prog, args = recs[0][0], os.path.basename(recs[0][1]), recs[0][2:]
    same = lambda a, b: os.path.normpath(os.path.join(cwd, a)) == os.path.normpath(os.path.join(top, b))
    if c["script"] == "umount":
        rest = [a for a in args if a not in ("-u", "-z", "-q", "-uz")]
        if prog not in ("fusermount3", "fusermount", "umount") or len(rest) != 1 or not same(rest[0], real["m"]) or (prog != "umount" and "-u" not in args):
            return "asked to unmount %r, started %r" % (real["m"], [prog] + args), None
        return None, "nt"
    if prog != "lazyfs":
        return "started %r" % prog, None
    o, pos, cfg, fg, i = [], [], [], False, 0
    while i < len(args):
        a = args[i]
        if a == "--config-path" or a == "-c":
            cfg.append(args[i + 1] if i + 1 < len(args) else "")
            i += 1
        elif a == "-o":
            o += (args[i + 1] if i + 1 < len(args) else "").split(",")
            i += 1
        elif a.startswith("-o"):
            o += a[2:].split(",")
        elif a == "-f":
            fg = True
        else:
            pos.append(a)
        i += 1
    sub = [x[7:] for x in o if x.startswith("subdir=")]
    if len(pos) != 1 or not same(pos[0], real["m"]):
        return "mount directory is %r, asked for %r" % (pos, real["m"]), None
    if len(cfg) != 1 or not same(cfg[0], real["c"]):
        return "configuration is %r, asked for %r" % (cfg, real["c"]), None
    if len(sub) != 1 or not same(sub[0], real["r"]):
        return "root directory is %r, asked for %r" % (sub, real["r"]), None
    if "modules=subdir" not in o or "allow_other" not in o:
        return "options are %r" % o, None
    if fg != bool(exp.get("f")):
        return "foreground is %r, asked for %r" % (fg, bool(exp.get("f"))), None
    return None, "nt"


def shrink(c, scratch):
    global WAIT
    WAIT = 1
    msg = check(c, scratch)[0]
    for f in (lambda d: d.update(slash=False), lambda d: d.update(rel=False), lambda d: d.update(missing=None), lambda d: d.update(names=dict(d["names"], m="m")),
              lambda d: d.update(names=dict(d["names"], r="r")), lambda d: d.update(names=dict(d["names"], c="c"))):
        t = dict(c)
        f(t)
        b = check(t, scratch)[0]
        if b:
            c, msg = t, b
    for n in "mrc":
        i = len(c["names"][n]) - 1
        while i >= 0 and len(c["names"][n]) > 1:
            x = c["names"][n][:i] + c["names"][n][i + 1:]
            if x.strip() and x not in (".", "..") and x not in [c["names"][k] for k in "mrc" if k != n]:
                t = dict(c, names=dict(c["names"], **{n: x}))
                b = check(t, scratch)[0]
                if b:
                    c, msg = t, b
            i -= 1
    return c, msg


def main():
    if sys.argv[1] == "replay":
        sc = "/dev/shm/sc%d" % os.getpid()
        try:
            b, _ = check(json.load(open(sys.argv[2])), sc)
        finally:
            shutil.rmtree(sc, ignore_errors=True)
        print("FAIL " + b if b else "OK")
        return 1 if b else 0
    seed, shard, nsh, cases, secs, mn, scratch, out, repdir = sys.argv[2:11]
    shard, nsh, cases, secs, mn = int(shard), int(nsh), int(cases), float(secs), int(mn)
    os.makedirs(os.path.dirname(scratch), exist_ok=True)
    os.chmod(os.path.dirname(scratch), 0o755)
    t0 = time.time()
    ev = nt = 0
    seen, samples, failure, prof = set(), [], None, {}
    j = shard
    while not failure and j < cases and (time.time() - t0 < secs or ev < mn):
        c = gen("%s/%d" % (seed, j))
        j += nsh
        b, k = check(c, scratch)
        ev += 1
        prof[c["script"]] = prof.get(c["script"], 0) + 1
        if b:
            if check(c, scratch)[0]:
                c2, m2 = shrink(c, scratch)
                text = json.dumps(c2)
                rp = os.path.join(repdir, "C24-%s.json" % hashlib.sha256(text.encode()).hexdigest()[:16])
                open(rp, "w").write(text)
                failure = {"cat": "SCRIPT", "msg": m2 or b, "case": j - nsh, "replay": rp, "text": text}
        elif k == "nt":
            nt += 1
            seen.add(json.dumps(c, sort_keys=True))
            if not samples:
                samples.append(json.dumps(c))
    shutil.rmtree(scratch, ignore_errors=True)
    d = {"evaluations": ev, "nontrivial": nt, "distinct_nontrivial": len(seen), "profiles": prof, "samples": samples, "secs": time.time() - t0,
         "rule": "a command line that asks for a mount or unmount, which was started"}
    if failure:
        d["failure"] = failure
    json.dump(d, open(out, "w"))
    return 1 if failure else 0


if __name__ == "__main__":
    sys.exit(main())
