#!/usr/bin/env python3
"""Builds the harness against /repo's current sources. Objects are cached by content hash in /verif/build.

usage: build.py [plain|asan|tsan]  -> prints the path of the binary
"""
import glob, hashlib, os, subprocess, sys, concurrent.futures, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LFZ_REPO", "/repo")
H = os.path.join(VERIF, "harness")

REDIR = {"open": "lz_open", "open64": "lz_open64", "openat": "lz_openat", "openat64": "lz_openat64", "creat": "lz_creat",
    "creat64": "lz_creat64", "pread": "lz_pread", "pread64": "lz_pread64", "pwrite": "lz_pwrite", "pwrite64": "lz_pwrite64",
    "pwritev": "lz_pwritev", "pwritev64": "lz_pwritev64", "preadv": "lz_preadv", "preadv64": "lz_preadv64",
    "ftruncate": "lz_ftruncate", "ftruncate64": "lz_ftruncate64", "truncate": "lz_truncate", "truncate64": "lz_truncate64",
    "stat": "lz_stat", "stat64": "lz_stat64", "lstat": "lz_lstat", "lstat64": "lz_lstat64", "fstat": "lz_fstat",
    "fstat64": "lz_fstat64", "fstatat": "lz_fstatat", "fstatat64": "lz_fstatat64", "rename": "lz_rename",
    "renameat": "lz_renameat", "renameat2": "lz_renameat2", "unlink": "lz_unlink", "unlinkat": "lz_unlinkat",
    "remove": "lz_remove", "link": "lz_link", "linkat": "lz_linkat", "symlink": "lz_symlink", "mkdir": "lz_mkdir",
    "rmdir": "lz_rmdir", "chmod": "lz_chmod", "chown": "lz_chown", "lchown": "lz_lchown", "fsync": "lz_fsync",
    "fdatasync": "lz_fdatasync", "utimensat": "lz_utimensat", "futimens": "lz_futimens", "utimes": "lz_utimes",
    "lutimes": "lz_lutimes", "access": "lz_access", "pthread_mutex_lock": "lz_pthread_mutex_lock",
    "pthread_rwlock_rdlock": "lz_pthread_rwlock_rdlock", "pthread_rwlock_wrlock": "lz_pthread_rwlock_wrlock",
    "read": "lz_read", "write": "lz_write", "writev": "lz_writev", "fchmod": "lz_fchmod", "fchown": "lz_fchown", "opendir": "lz_opendir",
    "readlink": "lz_readlink", "symlinkat": "lz_symlinkat", "mkdirat": "lz_mkdirat", "fchmodat": "lz_fchmodat", "fchownat": "lz_fchownat",
    "fallocate": "lz_fallocate", "fallocate64": "lz_fallocate64", "posix_fallocate": "lz_posix_fallocate", "posix_fallocate64": "lz_posix_fallocate64",
    "main": "lazyfs_main"}

FLAGS = {"plain": ["-O1", "-g1"],
         "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
         "tsan": ["-O1", "-g1", "-fsanitize=thread"]}


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError(" ".join(cmd[:6]) + " ...\n" + p.stdout[-4000:])


def repo_sources():
    s = sorted(glob.glob(REPO + "/lazyfs/src/**/*.cpp", recursive=True)
               + glob.glob(REPO + "/lazyfs/include/**/*.cpp", recursive=True)
               + glob.glob(REPO + "/libs/libpcache/src/**/*.cpp", recursive=True))
    return s


def tree_hash(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:24]


def headers():
    out = []
    for base in (REPO + "/lazyfs/include", REPO + "/libs/libpcache/include"):
        for d, _, fs in os.walk(base):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def build(variant="plain", quiet=True):
    B = os.path.join(VERIF, "build")
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, B)


def _build(variant, B):
    fl = FLAGS[variant]
    hh = tree_hash(headers())
    common = ["g++", "-std=c++17", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", *fl]
    inc = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL",
           "-I" + REPO + "/lazyfs/include", "-I" + REPO + "/libs/libpcache/include"]
    syms = os.path.join(B, "redefine.%d.txt" % os.getpid())
    with open(syms, "w") as f:
        for k, v in REDIR.items():
            f.write("%s %s\n" % (k, v))
    jobs, objs = [], []
    for s in repo_sources():
        k = tree_hash([s], hh, common, REDIR, "r3")
        o = os.path.join(B, "r-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((o, common + inc + ["-c", s], True))
    hpp = glob.glob(H + "/*.hpp")
    hk = tree_hash(hpp)
    # the driver's own accesses are not the subject of the thread sanitizer
    hfl = [x for x in fl if x != "-fsanitize=thread"] + (["-DLFZ_TSAN"] if variant == "tsan" else [])
    for s in sorted(glob.glob(H + "/*.cpp")):
        k = tree_hash([s], hk, hfl)
        o = os.path.join(B, "h-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((o, ["g++", "-std=c++17", "-w", *hfl, "-c", s], False))
    key = tree_hash([], objs, variant)
    out = os.path.join(B, "lfz-%s-%s" % (variant, key))
    if os.path.exists(out):
        os.unlink(syms)
        return out

    def one(j):
        o, cmd, redir = j
        tmp = o + ".tmp%d" % os.getpid()
        sh(cmd + ["-o", tmp])
        if redir:
            sh(["objcopy", "--redefine-syms=" + syms, tmp])
        os.rename(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    tmp = out + ".tmp%d" % os.getpid()
    sh(["g++", *fl, "-o", tmp, *objs, "-lspdlog", "-lfmt", "-lfuse3", "-lpthread"])
    os.rename(tmp, out)
    os.unlink(syms)
    # keep the cache small
    fs = sorted(glob.glob(B + "/*.o") + glob.glob(B + "/lfz-*"), key=os.path.getmtime)
    for f in fs[:-120]:
        if f not in objs and f != out:
            os.unlink(f)
    return out


if __name__ == "__main__":
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
