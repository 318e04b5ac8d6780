#!/usr/bin/env python3
"""automut.py OUT FILE[:from-to] ... [--sample=N] [--seed=K]: generic one-line mutations of /repo's sources, each run against all
properties for a few seconds; survivors are written to OUT for reading. A tool to find gaps, no check depends on it."""
import glob, json, os, random, re, shutil, subprocess, sys, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")); sys.dont_write_bytecode = True
import build as B
REPO = os.environ.get("LFZ_REPO", "/repo")
opts = [a for a in sys.argv[1:] if a.startswith("--")]
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = dict(o[2:].split("=") for o in opts)
OUT, files = args[0], args[1:]
PROPS = ["C%02d" % i for i in range(1, 24)]
W = "/tmp/automut"
os.makedirs(W, exist_ok=True)

def muts(path, lo, hi):
    L = open(path).read().split("\n")
    res = []
    incom = False
    for i, l in enumerate(L):
        n = i + 1
        s = l.strip()
        if s.startswith("/*"): incom = True
        if incom:
            if "*/" in s: incom = False
            continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "spdlog", "std::cout", "cout")) or "spdlog" in s: continue
        if n < lo or n > hi: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\1" * (len(m.group(0)) - 2) + '"', l)
        c = code.find("//")
        if c >= 0: code = code[:c]
        def add(a, b, new, why): res.append((n, l[:a] + new + l[b:], why))
        for pat, news in [(r" < ", [" <= "]), (r" > ", [" >= "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
                          (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" and ", [" or "]), (r" or ", [" and "]),
                          (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
                          (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bnot ", [""]), (r"(?<=[\(\s])!(?=[a-zA-Z\(])", [""]),
                          (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r" \+= ", [" = "]), (r"\+\+", ["--"]), (r"(?<![\w.\"])0(?=[,;\)])", ["1"]), (r"(?<![\w.\"])-1(?=[,;\)])", ["0"]),
                          (r"min \(", ["max ("]), (r"max \(", ["min ("]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"])]:
            for m in re.finditer(pat, code):
                for new in news: add(m.start(), m.end(), new, f"{m.group(0)!r}->{new!r}")
        m = re.match(r"^(\s*)(\} else )?if \((.*)\)( \{)?$", code)
        if m and code.count("(") == code.count(")"):
            a = code.index("if (") + 4
            b = code.rindex(")")
            add(a, b, "true", "if true"); add(a, b, "false", "if false")
        m = re.match(r"^\s*(return )?(.*);$", code)
        if s.endswith(";") and code.count("(") == code.count(")") and code.count("{") == code.count("}"):
            if re.match(r"^\s*(this|[a-zA-Z_][\w:>\.\-\[\] ]*)(\s\(|\s?=[^=]|\s?\+=|\s?-=|\.\w+|->)", code) and not re.match(r"^\s*(return|const|auto|int|string|bool|off_t|size_t|struct|char|std::|vector|map|unordered|Page|Item|Metadata|shared_ptr|uint\w+|ssize_t|float|double|long|for|if|else|case|using|typedef|pair|delete|throw)\b", code):
                res.append((n, re.match(r"^\s*", l).group(0) + ";", "delete"))
            if re.match(r"^\s*(std::unique_lock|std::lock_guard|std::shared_lock)", code): pass
    return L, res

work = []
for f in files:
    lo, hi = 1, 10**9
    if ":" in f: f, r = f.split(":"); lo, hi = map(int, r.split("-"))
    L, res = muts(f"{REPO}/{f}", lo, hi)
    seen = set()
    for n, new, why in res:
        if (n, new) in seen: continue
        seen.add((n, new))
        work.append((f, n, new, why))
rnd = random.Random(int(opt.get("seed", "1")))
rnd.shuffle(work)
if "sample" in opt: work = work[:int(opt["sample"])]
work = work[int(opt.get("skip", "0")):]
print(len(work), "mutants", flush=True)
if "list" in opt:
    for w in sorted(work): print(w)
    sys.exit()

# base objects
B.build("plain")
shutil.rmtree(W + "/h", ignore_errors=True); os.makedirs(W + "/h")
src = B.repo_sources()
fl = B.FLAGS["plain"]
inc = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-I" + REPO + "/lazyfs/include", "-I" + REPO + "/libs/libpcache/include"]
open(W + "/syms", "w").write("".join("%s %s\n" % kv for kv in B.REDIR.items()))
hh = B.tree_hash(B.headers())
objs = {}
for s in src:
    o = os.path.join(B.VERIF, "build", "r-" + B.tree_hash([s], hh, ["g++", "-std=c++17", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", *fl], B.REDIR, "r3") + ".o")
    shutil.copy(o, W + "/h/" + os.path.basename(o)); objs[s] = W + "/h/" + os.path.basename(o)
hk = B.tree_hash(glob.glob(B.H + "/*.hpp"))
hobjs = []
for s in sorted(glob.glob(B.H + "/*.cpp")):
    o = os.path.join(B.VERIF, "build", "h-" + B.tree_hash([s], hk, fl) + ".o")
    shutil.copy(o, W + "/h/" + os.path.basename(o)); hobjs.append(W + "/h/" + os.path.basename(o))
base = {}
def one(j):
    k, (f, n, new, why) = j
    d = f"{W}/m{k}"
    os.makedirs(d, exist_ok=True)
    try:
        path = f"{REPO}/{f}"
        L = open(path).read().split("\n")
        old = L[n - 1]
        L[n - 1] = new
        c = f"{d}/x.cpp"
        open(c, "w").write("\n".join(L))
        r = subprocess.run(["g++", "-std=c++17", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", *fl, *inc, "-I" + os.path.dirname(path), "-c", c, "-o", d + "/x.o"], capture_output=True, text=True)
        if r.returncode: return (f, n, why, "nocompile", "")
        subprocess.run(["objcopy", "--redefine-syms=" + W + "/syms", d + "/x.o"], check=True)
        key = subprocess.run("objdump -d --no-show-raw-insn %s | tail -n +4 | sha1sum" % (d + "/x.o"), shell=True, capture_output=True, text=True).stdout
        ol = [d + "/x.o" if s == path else o for s, o in objs.items()]
        exe = d + "/lfz"
        r = subprocess.run(["g++", *fl, "-o", exe, *ol, *hobjs, "-lspdlog", "-lfmt", "-lfuse3", "-lpthread"], capture_output=True, text=True)
        if r.returncode: return (f, n, why, "nolink", "")
        sb = f"/dev/shm/am{k}"
        os.makedirs(sb, exist_ok=True)
        tick = [x for x in PROPS]
        for secs in [float(x) for x in opt.get("secs", "2,8").split(",")]:
            for p in tick:
                out = f"{d}/o.json"
                if os.path.exists(out): os.unlink(out)
                try:
                    r = subprocess.run([exe, "run", "--prop", p, "--tier", "quick", "--seed", str(100 + k), "--shard", "0", "--nshards", "1", "--cases", "400000", "--secs", str(secs), "--shrink", "0.1", "--base", sb, "--out", out, "--repdir", d], capture_output=True, text=True, timeout=secs + 90)
                except subprocess.TimeoutExpired:
                    return (f, n, why, "timeout", p)
                if not os.path.exists(out): return (f, n, why, "rc%d" % r.returncode, p)
                j = json.load(open(out))
                if j.get("failure"): return (f, n, why, "killed", p + " " + j["failure"]["cat"])
                if j.get("flaky"): return (f, n, why, "flaky", p)
        return (f, n, why, "SURVIVED", new.strip())
    except Exception as e:
        return (f, n, why, "error", repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(f"/dev/shm/am{k}", ignore_errors=True)

cnt = {}
with concurrent.futures.ThreadPoolExecutor(int(opt.get("j", "8"))) as ex, open(OUT, "a") as fo:
    for r in ex.map(one, list(enumerate(work))):
        cnt[r[3]] = cnt.get(r[3], 0) + 1
        print("%s:%d\t%s\t%s\t%s" % r, file=fo, flush=True)
print(cnt)
