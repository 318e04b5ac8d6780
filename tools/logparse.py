#!/usr/bin/env python3
"""Generated logs against logparse/parse.py: the parser runs as a user runs it (its own main, own command line);
the oracle is the list of operations the log was written from.

usage: logparse.py run SEED SHARD NSHARDS CASES SECS MINCASES SCRATCH OUT.json REPDIR [REALLOG ...]
       logparse.py replay FILE
"""
import ast, contextlib, hashlib, io, json, os, random, re, runpy, signal, sys, time, types

sys.dont_write_bytecode = True
REPO = os.environ.get("LFZ_REPO", "/repo")
PARSE = REPO + "/logparse/parse.py"
DEFAULT = ["write", "rename", "fsync", "create", "open", "release", "read", "truncate"]
OTHER = ["getattr", "unlink", "mkdir", "rmdir", "opendir", "readdir", "readlink", "link", "symlink", "chmod", "utimens"]
MODES = ["O_RDONLY", "O_WRONLY", "O_RDWR", "O_TRUNC", "OTHER"]


class Node:
    def __init__(self, name, **kw):
        self.name, self.kw = name, kw


class Dot:
    last = None

    def __init__(self, *a, **k):
        self.nodes, self.edges = [], []
        Dot.last = self

    def add_node(self, n):
        self.nodes.append(n)

    def add_edge(self, e):
        self.edges.append(e)

    def write_png(self, p):
        pass


class Edge:
    def __init__(self, a, b, **kw):
        self.a, self.b = a, b


def stub():
    m = types.ModuleType("pydot")
    m.Dot, m.Node, m.Edge = Dot, Node, Edge
    sys.modules["pydot"] = m


def line(op, t):
    pre = "[2026-11-18 16:%02d:%02d.%03d] [global] [info] " % (t // 60 % 60, t % 60, t % 1000)
    k = op["k"]
    if k == "fault":
        return "[2026-11-18 16:00:00.000] [global] [critical] Triggered fault condition (op=write,timing=after)"
    if k == "noise":
        return pre + op["text"]
    s = pre + "[lazyfs.ops]: lfs_%s(" % k
    if k in ("rename", "link", "symlink"):
        return s + "from=%s,to=%s)" % (op["from"], op["to"])
    s += "path=" + op["path"]
    if k in ("read", "write"):
        s += ",size=%d,off=%d" % (op["size"], op["off"])
    elif k in ("truncate", "readlink"):
        s += ",size=%d" % op["size"]
    elif k in ("open", "create"):
        s += ",mode=" + op["mode"]
    elif k == "fsync":
        s += ",isdatasync=%d" % op["ds"]
    return s + ")"


def gen_op(r, paths, kinds):
    k = r.choice(kinds)
    op = {"k": k}
    if k in ("rename", "link", "symlink"):
        op["from"], op["to"] = r.choice(paths), r.choice(paths)
        return op
    op["path"] = r.choice(paths)
    if k in ("read", "write", "truncate", "readlink"):
        op["size"] = r.choice([0, 1, 7, 100, 4095, 4096, 4097, 8192, 10 ** 9, r.randrange(20000)])
        op["off"] = r.choice([0, 4096, r.randrange(100000)])
    if k in ("open", "create"):
        op["mode"] = r.choice(MODES)
    if k == "fsync":
        op["ds"] = r.randrange(2)
    return op


def gen(seed):
    r = random.Random(seed)
    np = r.randint(1, 4)
    names = ["/mnt/a", "/mnt/b", "/mnt/dir/c", "/mnt/a1", "/mnt/data.db", "/mnt/x-y_z", "/mnt/with space", "/mnt/pg_wal/000000010000000000000001"]
    paths = r.sample(names, np)
    kinds = r.sample(DEFAULT, r.randint(1, len(DEFAULT)))
    ops = []
    total = r.choice([0, 1, 2, 3, 5, 10, 20, 40, 80])
    while len(ops) < total:
        m = r.random()
        if m < 0.45:  # a repeated pattern, its last repetition perhaps cut short
            pat = [gen_op(r, paths, kinds) for _ in range(r.randint(1, 5))]
            reps = r.randint(1, 5)
            seq = [dict(o) for _ in range(reps) for o in pat]
            for o in seq:
                if o["k"] in ("read", "write") and r.random() < .5:
                    o["size"], o["off"] = r.randrange(9000), r.randrange(100000)
            if r.random() < .5:
                seq += [dict(o) for o in pat[:r.randint(0, len(pat))]]
            ops += seq
        elif m < 0.85:
            ops.append(gen_op(r, paths, kinds))
        elif m < 0.9:
            ops.append(gen_op(r, paths, OTHER))
        elif m < 0.94:
            ops.append({"k": "fault"})
        else:
            ops.append({"k": "noise", "text": r.choice(["[lazyfs.ops]: Calling a sparse write.", "[lazyfs.fifo]: received 'lazyfs::clear-cache'",
                        "[lazyfs.cmds]: cache usage (%pages) is 12.5%", "[lazyfs]: clearing cache..."])})
    o = {"filter": r.random() < .4, "text": True, "big": r.random() < .3, "limit": r.choice([None, None, 1, 2, 3, 4, 6, 10]),
         "page": r.choice([None, None, 1, 100, 4096, 10000]), "syscalls": None, "files": None, "graph": False}
    if r.random() < .3:
        o["syscalls"] = r.sample(DEFAULT + ["unlink", "mkdir", "link"], r.randint(1, 4))
    if r.random() < .3:
        fs = r.sample([p for p in names if re.fullmatch(r"[/A-Za-z0-9_ -]+", p)], r.randint(1, 3))
        o["files"] = fs
        ops = [x for x in ops if "from" not in x or (x["from"] in fs) == (x["to"] in fs)]
    if not o["filter"] and r.random() < .2:
        o["text"], o["graph"] = False, True
    return {"ops": ops, "opt": o}


def covered(case):
    cov = case["opt"]["syscalls"] or DEFAULT
    fs = case["opt"]["files"]
    out = []
    for x in case["ops"]:
        if x["k"] == "fault":
            out.append(x)
        elif x["k"] in cov:
            if fs and not (x["from"] in fs and x["to"] in fs if "from" in x else x["path"] in fs):
                continue
            out.append(x)
    return out


class Timeout(Exception):
    pass


def run_parser(case, scratch, log=None):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    lp = os.path.join(scratch, "l.log")
    with open(lp, "w") as f:
        if log is not None:
            f.write(log)
        else:
            for i, x in enumerate(case["ops"]):
                f.write(line(x, i) + "\n")
    if os.path.exists("res.txt"):
        os.unlink("res.txt")
    o = case["opt"]
    argv = ["parse.py", "--logpath", lp, "-o", "res"]
    if o["text"]:
        argv.append("-t")
    if o["filter"]:
        argv.append("-fo")
    if o["big"]:
        argv.append("-bw")
    if o["limit"]:
        argv += ["--group_limit", str(o["limit"])]
    if o["page"]:
        argv += ["--page_size", str(o["page"])]
    if o["syscalls"]:
        argv += ["--syscalls"] + o["syscalls"]
    if o["files"]:
        argv += ["--files"] + o["files"]
    so = io.StringIO()
    keep = sys.argv
    sys.argv = argv
    Dot.last = None

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    try:
        with contextlib.redirect_stdout(so):
            runpy.run_path(PARSE, run_name="__main__")
    finally:
        signal.alarm(0)
        sys.argv = keep
    return so.getvalue()


def ident(x):
    if x["k"] == "fault":
        return ("fault",)
    if "from" in x:
        return (x["k"], x["from"], x["to"])
    return (x["k"], x["path"])


def ident_out(d):
    if d.get("syscall") == "fault":
        return ("fault",)
    if "from_" in d:
        return (d["syscall"], d["from_"], d["to"])
    return (d["syscall"], d.get("path"))


def full_ok(d, x, strict):
    """the shown details, if shown, are those of the operation"""
    if ident_out(d) != ident(x):
        return False
    for key, mine in (("size", "size"), ("off", "off"), ("mode", "mode")):
        if key in d and str(d[key]) != str(x.get(mine)):
            return False
        if strict and key not in d and (x["k"] in ("read", "write") and key in ("size", "off") or x["k"] in ("open", "create") and key == "mode"):
            return False
    return True


def check(case, scratch, log=None):
    exp = covered(case)
    # link and symlink carry from/to but the parser shows paths of renames only
    if any(x["k"] in ("link", "symlink") for x in exp):
        return None, "skip"
    try:
        so = run_parser(case, scratch, log)
    except Timeout:
        return "the parser does not end", None
    except SystemExit as e:
        if e.code:
            return "the parser exits with %r" % (e.code,), None
        so = ""
    except Exception as e:
        return "the parser fails: %s: %s" % (type(e).__name__, e), None
    o = case["opt"]
    if o["graph"]:
        g = Dot.last
        if g is None:
            return "no graph was made", None
        i = 0
        for n in g.nodes:
            lab = n.kw.get("label", "")
            if lab == "fault":
                seq, reps = [("fault",)], 1
            else:
                ls = lab.split("\n")
                m = re.fullmatch(r"reps (\d+)", ls[-1])
                if not m:
                    return "node without repetitions: %r" % lab, None
                reps = int(m.group(1))
                seq = [l for l in ls[:-1] if l]
            for _ in range(reps):
                for s in seq:
                    if i >= len(exp):
                        return "the graph shows an operation too many: %r" % (s,), None
                    x = exp[i]
                    i += 1
                    if s == ("fault",):
                        if x["k"] != "fault":
                            return "the graph shows a fault instead of %r" % (ident(x),), None
                        continue
                    if x["k"] == "fault":
                        return "the graph misses a fault", None
                    want = "%s from=%s to=%s" % ident(x) if "from" in x else "%s path=%s" % ident(x)
                    if not (s == want or s.startswith(want + " ")):
                        return "operation %d in the graph is %r, logged was %r" % (i - 1, s, want), None
        if i != len(exp):
            return "the graph accounts for %d of %d operations" % (i, len(exp)), None
    elif not os.path.exists("res.txt"):
        return "no output file", None
    else:
        txt = open("res.txt").read()
        if o["filter"]:
            got = [ast.literal_eval(l) for l in txt.split("\n") if l.strip()]
            if len(got) != len(exp):
                return "the filtered text has %d operations, the log %d covered ones" % (len(got), len(exp)), None
            for i, (d, x) in enumerate(zip(got, exp)):
                if not full_ok(d, x, True):
                    return "operation %d is shown as %r, logged was %r" % (i, d, x), None
        else:
            seq = []
            pos = 0
            for m in re.finditer(r"\*+ FAULT \*+|_+ reps: (\d+) _+\n([^\n]*)\n", txt):
                if txt[pos:m.start()].strip():
                    return "unexpected text %r" % txt[pos:m.start()][:80], None
                pos = m.end()
                if m.group(1) is None:
                    seq.append({"syscall": "fault"})
                else:
                    d = ast.literal_eval(m.group(2))
                    part = d["group"] if d.get("syscall") == "group" else [d]
                    seq += part * int(m.group(1))
            if txt[pos:].strip():
                return "unexpected text %r" % txt[pos:][:80], None
            for i, (d, x) in enumerate(zip(seq, exp)):
                if not full_ok(d, x, False):
                    return "expanded operation %d is shown as %r, logged was %r" % (i, d, x), None
            if len(seq) != len(exp):
                return "the text expands to %d operations, the log has %d covered ones" % (len(seq), len(exp)), None
    if o["big"]:
        want, cnt = {}, {}
        for x in exp:
            if x["k"] == "write":
                cnt[x["path"]] = cnt.get(x["path"], 0) + 1
                if x["size"] > (o["page"] or 4096):
                    want.setdefault(x["path"], []).append((x["size"], x["off"], cnt[x["path"]]))
        got, cur = {}, None
        for l in so.split("\n"):
            m = re.match(r">\s+(.*)$", l)
            if m:
                cur = m.group(1)
                continue
            m = re.match(r"\s+- size:\s+(\d+)\s*, off:\s+(\d+)\s*, occurrence:\s+(\d+)", l)
            if m:
                got.setdefault(cur, []).append(tuple(int(v) for v in m.groups()))
        if got != want:
            return "big writes are %r, listed are %r" % (want, got), None
    n = len(exp)
    nt = n >= 4 and any(ident(a) == ident(b) for i, a in enumerate(exp) for b in exp[i + 1:i + 6])
    return None, ("nt" if nt else "tr")


def shrink(case, scratch):
    until = time.time() + 20
    msg = None
    n = max(1, len(case["ops"]) // 2)
    while time.time() < until:
        i, any_ = 0, False
        while i < len(case["ops"]):
            t = dict(case, ops=case["ops"][:i] + case["ops"][i + n:])
            b, _ = check(t, scratch)
            if b:
                case, msg, any_ = t, b, True
            else:
                i += n
        if n == 1 and not any_:
            break
        n = max(1, n // 2) if not any_ or n > len(case["ops"]) else n
    return case, msg


def parse_real(text):
    ops = []
    for l in text.split("\n"):
        m = re.match(r".*\[lazyfs.ops\]: lfs_([a-z_]+)\((.*)\)$", l)
        if not m:
            continue
        kv = dict(p.strip().split("=", 1) for p in m.group(2).split(",") if "=" in p)
        k = m.group(1)
        if re.search(r"[()]", m.group(2)) or m.group(2).count("path=") + m.group(2).count("from=") != 1:
            return None
        if k not in DEFAULT:
            continue
        op = {"k": k}
        for a in ("path", "from", "to", "mode"):
            if a in kv:
                op[a] = kv[a]
        for a in ("size", "off"):
            if a in kv:
                op[a] = int(kv[a])
        if k == "fsync":
            op["ds"] = int(kv.get("isdatasync", 0))
        ops.append(op)
    return ops


def main():
    stub()
    if sys.argv[1] == "replay":
        case = json.load(open(sys.argv[2]))
        sc = "/dev/shm/lp%d" % os.getpid()
        b, _ = check(case, sc)
        os.chdir("/")
        import shutil
        shutil.rmtree(sc, ignore_errors=True)
        print("FAIL " + b if b else "OK")
        return 1 if b else 0
    seed, shard, nsh, cases, secs, mn, scratch, out, repdir = sys.argv[2:11]
    reals = sys.argv[11:]
    shard, nsh, cases, secs, mn = int(shard), int(nsh), int(cases), float(secs), int(mn)
    t0 = time.time()
    ev = nt = sk = nreal = 0
    seen = set()
    samples, failure = [], None

    def fail(case, msg, log=None):
        case2, m2 = (case, msg) if log is not None else shrink(case, scratch)
        text = json.dumps(case2)
        rp = os.path.join(repdir, "C20-lp-%s.json" % hashlib.sha256(text.encode()).hexdigest()[:16])
        open(rp, "w").write(text)
        return {"cat": "LOGPARSE", "msg": m2 or msg, "case": -1, "replay": rp, "text": text}
    for rl in reals:
        if shard != 0 or not os.path.exists(rl):
            continue
        log = open(rl, errors="replace").read()
        ops = parse_real(log)
        if not ops:
            continue
        for filt in (True, False):
            case = {"ops": ops, "opt": {"filter": filt, "text": True, "big": True, "limit": None, "page": 64, "syscalls": None, "files": None, "graph": False}}
            b, k = check(case, scratch, log)
            nreal += 1
            ev += 1
            if b:
                failure = fail(case, "on a log of the file system: " + b)
                break
        if failure:
            break
    j = shard
    while not failure and j < cases and (time.time() - t0 < secs or ev < mn):
        case = gen("%s/%d" % (seed, j))
        j += nsh
        b, k = check(case, scratch)
        ev += 1
        if b:
            if check(case, scratch)[0]:
                failure = fail(case, b)
        elif k == "skip":
            sk += 1
        elif k == "nt":
            nt += 1
            seen.add(hashlib.sha256(json.dumps(case).encode()).digest())
            if not samples:
                samples.append(json.dumps(case)[:1200])
    os.chdir("/")
    d = {"evaluations": ev, "nontrivial": nt, "distinct_nontrivial": len(seen), "skipped": sk, "reallogs": nreal, "samples": samples, "secs": time.time() - t0}
    if failure:
        d["failure"] = failure
    json.dump(d, open(out, "w"))
    return 1 if failure else 0


if __name__ == "__main__":
    sys.exit(main())
