#include <grp.h>
// The mounted side: runs LazyFS in this (forked) process on top of a stand-in for libfuse and plays
// the role of kernel + libfuse: path lookups, handle tables, hidden renames of open files, append offsets.
// Calls that LazyFS makes to libc are redirected here (objcopy --redefine-syms), which gives fault
// injection, kill points and schedule control at every underlying call.
#define FUSE_USE_VERSION 35
#include "lfz.hpp"
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fuse3/fuse.h>
#include <algorithm>
#include <mutex>
#include <shared_mutex>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <thread>
#include <time.h>
#include <unistd.h>

static ChildEnv env;
static fuse_operations ops;
static fuse_context ctx;
static int fifo_w = -1, done_r = -1;
static std::mutex shm_mtx;
static std::mutex tids_mtx;
static set<int> own_tids;
static off_t log_off = 0;

[[noreturn]] static void die(const char* why) {
    fprintf(stderr, "HARNESS: %s (errno %d)\n", why, errno);
    fflush(stderr);
    _exit(77);
}
static i64 now_ns() {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return (i64)t.tv_sec * 1000000000 + t.tv_nsec;
}
static i64 mono_ms() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (i64)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

// ---- trace output ----------------------------------------------------------------------------
static void put(const void* p, size_t n) {
    u64 u = env.shm->used;
    if (u + n + sizeof(Shm) + 64 > SHM_SIZE) die("trace full");
    memcpy(env.shm->data + u, p, n);
    env.shm->used = u + n;
}
static void put64(i64 v) { put(&v, 8); }
static void puts_(const string& s) { put64(s.size()); put(s.data(), s.size()); }
static void emit(const Rec& r) {
    std::lock_guard<std::mutex> g(shm_mtx);
    u64 start = env.shm->used;
    put64(R_RET);
    put64(r.op); put64(r.ret); puts_(r.data);
    put64(r.has_st);
    if (r.has_st) put(&r.st, sizeof r.st);
    put64(r.t0); put64(r.t1);
    puts_(r.note);
    put64(r.fired);
    put64(r.has_snap);
    if (r.has_snap) {
        put64(r.snap.size());
        for (auto& e : r.snap) {
            puts_(e.first);
            put64(e.second.type); put64(e.second.ino); put64(e.second.mode); put64(e.second.nlink);
            put64(e.second.uid); put64(e.second.gid); put64(e.second.mtime); put64(e.second.atime); put64(e.second.size);
            puts_(e.second.data);
        }
    }
    (void)start;
    env.shm->progress = env.shm->progress + 1;
}
void trace_parse(Shm* s, Trace& t) {
    size_t i = 0, n = s->used;
    auto g64 = [&]() { i64 v; memcpy(&v, s->data + i, 8); i += 8; return v; };
    auto gs = [&]() { size_t l = g64(); string r(s->data + i, l); i += l; return r; };
    while (i < n) {
        i64 tag = g64();
        if (tag == R_INIT) { t.init = gs(); continue; }
        Rec r;
        r.op = g64(); r.ret = g64(); r.data = gs();
        r.has_st = g64();
        if (r.has_st) { memcpy(&r.st, s->data + i, sizeof r.st); i += sizeof r.st; }
        r.t0 = g64(); r.t1 = g64();
        r.note = gs();
        r.fired = g64();
        r.has_snap = g64();
        if (r.has_snap) {
            size_t m = g64();
            while (m--) {
                string p = gs();
                Ent e;
                e.type = (char)g64(); e.ino = g64(); e.mode = g64(); e.nlink = g64();
                e.uid = g64(); e.gid = g64(); e.mtime = g64(); e.atime = g64(); e.size = g64();
                e.data = gs();
                r.snap[p] = e;
            }
        }
        r.order = t.recs.size();
        t.recs.push_back(r);
    }
}

// ---- FIFO worker synchronisation -------------------------------------------------------------
static vector<int> foreign_tids() {
    vector<int> r;
    DIR* d = opendir("/proc/self/task");
    if (!d) die("/proc/self/task");
    std::lock_guard<std::mutex> g(tids_mtx);
    while (dirent* e = readdir(d)) {
        int t = atoi(e->d_name);
        if (t > 0 && !own_tids.count(t)) r.push_back(t);
    }
    closedir(d);
    return r;
}
// 'i' idle (waiting for input), 'b' blocked on a lock, 'r' running / other, 'g' gone
static char thread_state(int tid) {
    char p[64], b[256];
    snprintf(p, sizeof p, "/proc/self/task/%d/syscall", tid);
    int fd = open(p, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return errno == ENOENT || errno == ESRCH ? 'g' : 'r';
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n <= 0) return 'r';
    b[n] = 0;
    if (!isdigit((unsigned char)b[0])) return 'r';
    long nr = atol(b);
    switch (nr) {
    case SYS_read: case SYS_readv: case SYS_poll: case SYS_select: case SYS_pselect6: case SYS_ppoll: case SYS_epoll_wait: case SYS_epoll_pwait:
        return 'i';
#ifdef LFZ_TSAN
    case SYS_nanosleep: case SYS_clock_nanosleep: return 'i'; // the sanitizer's own thread
#endif
    case SYS_futex: return 'b';
    default: return 'r';
    }
}
static bool fifo_empty() {
    int n = 0;
    if (fifo_w < 0) return true;
    if (ioctl(fifo_w, FIONREAD, &n)) return true;
    return n == 0;
}
// Waits until every LazyFS-owned thread waits for input and the FIFO is drained. With
// allow_blocked, also returns once they are stably blocked on a lock. Returns false if they never get there.
static bool barrier(bool allow_blocked, int max_ms) {
    i64 t0 = mono_ms();
    int okc = 0, blc = 0;
    i64 blk_since = 0;
    for (long it = 0;; it++) {
        bool idle = true, blocked = false;
        for (int t : foreign_tids()) {
            char s = thread_state(t);
            if (s == 'g' || s == 'i') continue;
            idle = false;
            if (s == 'b') blocked = true;
            else { blocked = false; break; }
        }
        if (idle && fifo_empty()) {
            if (++okc >= 2) return true;
        } else okc = 0;
        if (allow_blocked && blocked) {
            if (++blc >= 12) return true;
        } else blc = 0;
        if (!allow_blocked && blocked) { // nobody else runs: a lock that is never released
            if (!blk_since) blk_since = mono_ms();
            else if (mono_ms() - blk_since > 3000) return false;
        } else blk_since = 0;
        if (mono_ms() - t0 > max_ms) return false;
        if (it < 20) sched_yield();
        else usleep(it < 200 ? 20 : 200);
    }
}
static bool fifo_send(const string& s) {
    size_t i = 0;
    i64 t0 = mono_ms();
    while (i < s.size()) {
        ssize_t n = write(fifo_w, s.data() + i, s.size() - i);
        if (n > 0) i += n;
        else if (errno == EAGAIN) {
            if (mono_ms() - t0 > 20000) return false;
            usleep(50);
        } else if (errno != EINTR) return false;
    }
    return true;
}

// ---- injection ---------------------------------------------------------------------------------
enum { C_WR = 1, C_TR = 2, C_OP = 4, C_RD = 8, C_ST = 16, C_NS = 32, C_SY = 64, C_UT = 128, C_LK = 256 };
static thread_local int tl_client = 0;
static struct {
    std::atomic<bool> on{false};
    bool cmd = false;
    int mask = 0;
    Inj inj;
    std::atomic<int> count{0};
    std::atomic<bool> fired{false};
    size_t next = 0; // index of the operation to run for act 'T'
} armed;
static void run_paired_op();
static std::atomic<unsigned> perturb{0};
static thread_local u64 tl_rng = 0;

static int mask_of(const string& c) {
    if (c == "wr") return C_WR;
    if (c == "tr") return C_TR;
    if (c == "op") return C_OP;
    if (c == "rd") return C_RD;
    if (c == "ns") return C_NS;
    if (c == "st") return C_ST;
    if (c == "ut") return C_UT;
    if (c == "wrtr") return C_WR | C_TR;
    if (c == "mut") return C_WR | C_TR | C_NS | C_UT;
    if (c == "lock") return C_LK;
    if (c == "all") return C_WR | C_TR | C_OP | C_RD | C_ST | C_NS | C_SY | C_UT | C_LK;
    return C_WR | C_TR | C_OP | C_RD | C_ST | C_NS | C_SY | C_UT;
}
static bool is_own_thread() {
    static thread_local int own = -1;
    if (own < 0) {
        std::lock_guard<std::mutex> g(tids_mtx);
        own = own_tids.count((int)syscall(SYS_gettid)) ? 1 : 0;
    }
    return own == 1;
}
[[noreturn]] static void killme() {
    kill(getpid(), SIGKILL);
    for (;;) pause();
}
// returns 0: go ahead, 1: fail with errno, 2: short, 3: kill after the call
static int hook(int cls) {
    if (perturb.load(std::memory_order_relaxed) && tl_client) {
        tl_rng = tl_rng * 6364136223846793005ull + 1442695040888963407ull;
        unsigned r = (tl_rng >> 33) % 100;
        if (r < 25) sched_yield();
        else if (r < 32) usleep((tl_rng >> 45) % 120);
    }
    if (!armed.on.load()) return 0;
    if (!(armed.mask & cls)) return 0;
    if (!tl_client && !(armed.cmd && !is_own_thread())) return 0;
    env.shm->inj_hits = env.shm->inj_hits + 1;
    int n = ++armed.count;
    if (n != armed.inj.k) return 0;
    switch (armed.inj.act) {
    case 'E':
        if ((cls & C_LK) || ((cls & C_ST) && armed.mask != C_ST)) return 0;
        armed.fired = true;
        errno = armed.inj.err;
        return 1;
    case 'S':
        armed.fired = true;
        return (cls & (C_WR | C_RD)) ? 2 : 0;
    case 'K': env.shm->inj_fired = env.shm->inj_fired + 1; killme();
    case 'k': env.shm->inj_fired = env.shm->inj_fired + 1; return 3;
    case 'C': {
        armed.on = false;
        int saved = tl_client;
        tl_client = 0;
        armed.fired = true;
        fifo_send(armed.inj.cmd);
        barrier(true, 5000);
        tl_client = saved;
        return 0;
    }
    case 'T': {
        armed.on = false;
        armed.fired = true;
        run_paired_op();
        return 0;
    }
    }
    return 0;
}
#define HOOK(cls, RT, call)                                                                         \
    do {                                                                                            \
        int e_ = errno;                                                                             \
        int a_ = hook(cls);                                                                         \
        if (a_ == 1) return (RT)-1;                                                                 \
        errno = e_;                                                                                 \
        RT r_ = call;                                                                               \
        if (a_ == 3) killme();                                                                      \
        return r_;                                                                                  \
    } while (0)

// Containment: whatever the code under test does with its paths, it only changes files of this run's scratch directory.
static string keep_in;
static bool stray(const char* p) {
    if (!p || p[0] != '/' || keep_in.empty()) return false;
    if (!strncmp(p, keep_in.c_str(), keep_in.size()) && !strstr(p, "/../")) return false;
    errno = EPERM;
    return true;
}
static bool stray_open(const char* p, int f) { return (f & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && strncmp(p ? p : "", "/dev/", 5) && stray(p); }
#define KEEP(c) do { if (c) return -1; } while (0)

extern "C" {
int lz_open(const char* p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    KEEP(stray_open(p, f));
    HOOK(C_OP, int, open(p, f, m));
}
int lz_openat(int d, const char* p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    KEEP(stray_open(p, f));
    HOOK(C_OP, int, openat(d, p, f, m));
}
int lz_creat(const char* p, mode_t m) { KEEP(stray(p)); HOOK(C_OP, int, creat(p, m)); }
ssize_t lz_pread(int fd, void* b, size_t n, off_t o) {
    int e = errno, a = hook(C_RD);
    if (a == 1) return -1;
    errno = e;
    return pread(fd, b, a == 2 && n > 1 ? n / 2 : n, o);
}
ssize_t lz_pwrite(int fd, const void* b, size_t n, off_t o) {
    int e = errno, a = hook(C_WR);
    if (a == 1) return -1;
    errno = e;
    if (a == 2) n = n / 2;
    if (a == 2 && n == 0) return 0;
    ssize_t r = pwrite(fd, b, n, o);
    if (a == 3) killme();
    return r;
}
static ssize_t vec_short(int fd, const iovec* v, int c, off_t o) {
    size_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    string all;
    for (int i = 0; i < c; i++) all.append((char*)v[i].iov_base, v[i].iov_len);
    tot /= 2;
    return tot ? pwrite(fd, all.data(), tot, o) : 0;
}
ssize_t lz_pwritev(int fd, const iovec* v, int c, off_t o) {
    int e = errno, a = hook(C_WR);
    if (a == 1) return -1;
    errno = e;
    if (a == 2) return vec_short(fd, v, c, o);
    ssize_t r = pwritev(fd, v, c, o);
    if (a == 3) killme();
    return r;
}
ssize_t lz_preadv(int fd, const iovec* v, int c, off_t o) { HOOK(C_RD, ssize_t, preadv(fd, v, c, o)); }
int lz_ftruncate(int fd, off_t n) { HOOK(C_TR, int, ftruncate(fd, n)); }
int lz_truncate(const char* p, off_t n) { KEEP(stray(p)); HOOK(C_TR, int, truncate(p, n)); }
int lz_stat(const char* p, struct stat* s) { HOOK(C_ST, int, stat(p, s)); }
int lz_lstat(const char* p, struct stat* s) { HOOK(C_ST, int, lstat(p, s)); }
int lz_fstat(int f, struct stat* s) { HOOK(C_ST, int, fstat(f, s)); }
int lz_fstatat(int d, const char* p, struct stat* s, int fl) { HOOK(C_ST, int, fstatat(d, p, s, fl)); }
int lz_rename(const char* a, const char* b) { KEEP(stray(a) || stray(b)); HOOK(C_NS, int, rename(a, b)); }
int lz_renameat(int x, const char* a, int y, const char* b) { KEEP(stray(a) || stray(b)); HOOK(C_NS, int, renameat(x, a, y, b)); }
int lz_renameat2(int x, const char* a, int y, const char* b, unsigned f) { KEEP(stray(a) || stray(b)); HOOK(C_NS, int, renameat2(x, a, y, b, f)); }
int lz_unlink(const char* p) { KEEP(stray(p)); HOOK(C_NS, int, unlink(p)); }
int lz_unlinkat(int d, const char* p, int f) { KEEP(stray(p)); HOOK(C_NS, int, unlinkat(d, p, f)); }
int lz_remove(const char* p) { KEEP(stray(p)); HOOK(C_NS, int, remove(p)); }
int lz_link(const char* a, const char* b) { KEEP(stray(a) || stray(b)); HOOK(C_NS, int, link(a, b)); }
int lz_linkat(int x, const char* a, int y, const char* b, int f) { KEEP(stray(a) || stray(b)); HOOK(C_NS, int, linkat(x, a, y, b, f)); }
int lz_symlink(const char* a, const char* b) { KEEP(stray(b)); HOOK(C_NS, int, symlink(a, b)); }
int lz_mkdir(const char* p, mode_t m) { KEEP(stray(p)); HOOK(C_NS, int, mkdir(p, m)); }
int lz_rmdir(const char* p) { KEEP(stray(p)); HOOK(C_NS, int, rmdir(p)); }
int lz_chmod(const char* p, mode_t m) { KEEP(stray(p)); HOOK(C_NS, int, chmod(p, m)); }
int lz_chown(const char* p, uid_t u, gid_t g) { KEEP(stray(p)); HOOK(C_NS, int, chown(p, u, g)); }
int lz_lchown(const char* p, uid_t u, gid_t g) { KEEP(stray(p)); HOOK(C_NS, int, lchown(p, u, g)); }
int lz_fsync(int f) { HOOK(C_SY, int, fsync(f)); }
int lz_fdatasync(int f) { HOOK(C_SY, int, fdatasync(f)); }
int lz_utimensat(int d, const char* p, const timespec t[2], int f) { KEEP(stray(p)); HOOK(C_UT, int, utimensat(d, p, t, f)); }
int lz_futimens(int d, const timespec t[2]) { HOOK(C_UT, int, futimens(d, t)); }
int lz_utimes(const char* p, const timeval t[2]) { KEEP(stray(p)); HOOK(C_UT, int, utimes(p, t)); }
int lz_lutimes(const char* p, const timeval t[2]) { KEEP(stray(p)); HOOK(C_UT, int, lutimes(p, t)); }
// descriptors of files only: not the command FIFOs and the log
static bool on_file(int fd) {
    struct stat st;
    int e = errno;
    bool y = tl_client && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
    errno = e;
    return y;
}
ssize_t lz_read(int fd, void* b, size_t n) {
    if (!on_file(fd)) return read(fd, b, n);
    HOOK(C_RD, ssize_t, read(fd, b, n));
}
ssize_t lz_write(int fd, const void* b, size_t n) {
    if (!on_file(fd)) return write(fd, b, n);
    HOOK(C_WR, ssize_t, write(fd, b, n));
}
ssize_t lz_writev(int fd, const iovec* v, int c) {
    if (!on_file(fd)) return writev(fd, v, c);
    HOOK(C_WR, ssize_t, writev(fd, v, c));
}
int lz_fchmod(int f, mode_t m) { HOOK(C_NS, int, fchmod(f, m)); }
int lz_fchown(int f, uid_t u, gid_t g) { HOOK(C_NS, int, fchown(f, u, g)); }
int lz_symlinkat(const char* a, int d, const char* b) { KEEP(stray(b)); HOOK(C_NS, int, symlinkat(a, d, b)); }
int lz_mkdirat(int d, const char* p, mode_t m) { KEEP(stray(p)); HOOK(C_NS, int, mkdirat(d, p, m)); }
int lz_fchmodat(int d, const char* p, mode_t m, int f) { KEEP(stray(p)); HOOK(C_NS, int, fchmodat(d, p, m, f)); }
int lz_fchownat(int d, const char* p, uid_t u, gid_t g, int f) { KEEP(stray(p)); HOOK(C_NS, int, fchownat(d, p, u, g, f)); }
int lz_fallocate(int f, int m, off_t o, off_t n) { HOOK(C_TR, int, fallocate(f, m, o, n)); }
int lz_posix_fallocate(int f, off_t o, off_t n) { if (hook(C_TR) == 1) return errno; return posix_fallocate(f, o, n); }
DIR* lz_opendir(const char* p) { if (hook(C_ST) == 1) return nullptr; return opendir(p); }
ssize_t lz_readlink(const char* p, char* b, size_t n) { HOOK(C_ST, ssize_t, readlink(p, b, n)); }
int lz_access(const char* p, int m) { HOOK(C_ST, int, access(p, m)); }
int lz_pthread_mutex_lock(pthread_mutex_t* m) { hook(C_LK); return pthread_mutex_lock(m); }
int lz_pthread_rwlock_rdlock(pthread_rwlock_t* m) { hook(C_LK); return pthread_rwlock_rdlock(m); }
int lz_pthread_rwlock_wrlock(pthread_rwlock_t* m) { hook(C_LK); return pthread_rwlock_wrlock(m); }

// the 64-bit offset spellings of the same calls
int lz_fallocate64(int f, int m, off_t o, off_t n) __attribute__((alias("lz_fallocate")));
int lz_posix_fallocate64(int f, off_t o, off_t n) __attribute__((alias("lz_posix_fallocate")));
int lz_open64(const char* p, int f, ...) __attribute__((alias("lz_open")));
int lz_openat64(int d, const char* p, int f, ...) __attribute__((alias("lz_openat")));
int lz_creat64(const char* p, mode_t m) __attribute__((alias("lz_creat")));
ssize_t lz_pread64(int fd, void* b, size_t n, off_t o) __attribute__((alias("lz_pread")));
ssize_t lz_pwrite64(int fd, const void* b, size_t n, off_t o) __attribute__((alias("lz_pwrite")));
ssize_t lz_pwritev64(int fd, const iovec* v, int c, off_t o) __attribute__((alias("lz_pwritev")));
ssize_t lz_preadv64(int fd, const iovec* v, int c, off_t o) __attribute__((alias("lz_preadv")));
int lz_ftruncate64(int fd, off_t n) __attribute__((alias("lz_ftruncate")));
int lz_truncate64(const char* p, off_t n) __attribute__((alias("lz_truncate")));
int lz_stat64(const char* p, struct stat* s) __attribute__((alias("lz_stat")));
int lz_lstat64(const char* p, struct stat* s) __attribute__((alias("lz_lstat")));
int lz_fstat64(int f, struct stat* s) __attribute__((alias("lz_fstat")));
int lz_fstatat64(int d, const char* p, struct stat* s, int fl) __attribute__((alias("lz_fstatat")));

// ---- stand-in for libfuse ------------------------------------------------------------------------
struct fuse_context* fuse_get_context(void) { return &ctx; }
static void run_session();
static vector<string> want_args; // what has to reach libfuse
static bool use_ino = false;     // the filesystem supplies inode numbers
int fuse_main_real(int argc, char** argv, const struct fuse_operations* op, size_t sz, void* priv) {
    vector<string> got(argv, argv + argc);
    memset(&ops, 0, sizeof ops);
    memcpy(&ops, op, sz < sizeof ops ? sz : sizeof ops);
    ctx.private_data = priv;
    ctx.pid = getpid();
    fuse_conn_info conn;
    fuse_config cfg;
    memset(&conn, 0, sizeof conn);
    memset(&cfg, 0, sizeof cfg);
    cfg.entry_timeout = cfg.attr_timeout = 1; // libfuse's defaults
    conn.proto_major = 7; conn.proto_minor = 31;
    conn.max_write = 1 << 17; conn.max_readahead = 1 << 17;
    conn.capable = ~0u;
    conn.want = FUSE_CAP_ASYNC_READ | FUSE_CAP_ATOMIC_O_TRUNC;
    if (ops.init) ctx.private_data = ops.init(&conn, &cfg);
    use_ino = cfg.use_ino;
    char b[256];
    snprintf(b, sizeof b, "entry=%g attr=%g neg=%g kernel_cache=%d auto_cache=%d direct_io=%d hard_remove=%d wb=%d use_ino=%d",
             cfg.entry_timeout, cfg.attr_timeout, cfg.negative_timeout, cfg.kernel_cache, cfg.auto_cache,
             cfg.direct_io, cfg.hard_remove, (conn.want & FUSE_CAP_WRITEBACK_CACHE) ? 1 : 0, cfg.use_ino);
    {
        std::lock_guard<std::mutex> g(shm_mtx);
        put64(R_INIT);
        puts_(string(b) + (got == want_args ? " args=ok" : " args=bad"));
    }
    run_session();
    return 0;
}
int lazyfs_main(int, char**);
}

// ---- kernel + libfuse behaviour --------------------------------------------------------------------
struct Hn {
    bool open = false;
    string path;
    fuse_file_info fi;
    int flags = 0;
};
struct Client {
    Hn h[16];
};
static Client main_client;

static string full(const string& p) { return p.empty() ? env.root + "/." : env.root + "/" + p; }

struct InOp {
    InOp() { tl_client++; env.shm->fuse_ops = env.shm->fuse_ops + 1; }
    ~InOp() { tl_client--; }
};
static int f_getattr(const string& p, struct stat* st, fuse_file_info* fi) {
    InOp i;
    memset(st, 0, sizeof *st);
    return ops.getattr(full(p).c_str(), st, fi);
}
static string parent_of(const string& p) {
    size_t s = p.rfind('/');
    return s == string::npos ? "" : p.substr(0, s);
}
// what the kernel does before any path operation: one LOOKUP per component
static int lookup_dir(const string& p) {
    if (p.empty()) return 0;
    int r = lookup_dir(parent_of(p));
    if (r) return r;
    struct stat st;
    r = f_getattr(p, &st, nullptr);
    if (r) return r;
    if (!S_ISDIR(st.st_mode)) return -ENOTDIR;
    return 0;
}
static int lookup(const string& p, struct stat* st) {
    int r = lookup_dir(parent_of(p));
    if (r) return r;
    return f_getattr(p, st, nullptr);
}
static bool under(const string& p, const string& dir) {
    return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/';
}
// Threads that share names ("storm"): libfuse's locks on paths (unlink, rename and what hides files exclude
// every other use of the path) and the kernel's inode lock (writes, truncations).
static std::shared_mutex storm_paths;
static std::mutex storm_inodes[8];
static vector<Client*> storm_clients;
static bool is_open(Client& c, const string& p) {
    for (auto& h : c.h) if (h.open && h.path == p) return true;
    for (auto* x : storm_clients) for (auto& h : x->h) if (h.open && h.path == p) return true;
    return false;
}
static void moved1(Client& c, const string& from, const string& to) {
    for (auto& h : c.h) {
        if (!h.open) continue;
        if (h.path == from) h.path = to;
        else if (under(h.path, from)) h.path = to + h.path.substr(from.size());
    }
}
static void moved(Client& c, const string& from, const string& to) {
    moved1(c, from, to);
    for (auto* x : storm_clients) if (x != &c) moved1(*x, from, to);
}
static string hidden_name(const string& p, size_t idx) {
    string d = parent_of(p);
    string n = ".fuse_hidden" + std::to_string(100000 + idx);
    return d.empty() ? n : d + "/" + n;
}
static int hide(Client& c, const string& p, size_t idx) {
    string n = hidden_name(p, idx);
    struct stat st;
    f_getattr(n, &st, nullptr);
    int r;
    {
        InOp i;
        r = ops.rename(full(p).c_str(), full(n).c_str(), 0);
    }
    if (r == 0) moved(c, p, n);
    return r;
}
static thread_local vector<std::pair<string, mode_t>> dir_types;
static thread_local vector<std::pair<string, u64>> dir_inos;
static thread_local vector<std::pair<string, struct stat>> dir_plus; // entries given with "all attributes are valid"
static int fill_dir(void* buf, const char* name, const struct stat* st, off_t, enum fuse_fill_dir_flags flags) {
    string* s = (string*)buf;
    if (st) dir_types.push_back({name, st->st_mode & S_IFMT});
    if (st && use_ino && strcmp(name, ".") && strcmp(name, "..")) dir_inos.push_back({name, st->st_ino});
    if (st && (flags & FUSE_FILL_DIR_PLUS) && strcmp(name, ".") && strcmp(name, "..")) dir_plus.push_back({name, *st});
    *s += name;
    *s += '\0';
    return 0;
}

// the kernel's inode lock: writes, truncations and syncs of one file do not overlap, reads do
static std::mutex shared_inode;

static i64 exec_op0(Client& c, const Op& o, size_t idx, Rec& r);
// the same operation on a plain directory (opt perm), by the same user
static string twin(const string& p) { return env.base + "/s" + (p.empty() ? "" : "/" + p); }
static bool through_link(const string& p) {
    struct stat st;
    for (string d = parent_of(p); !d.empty(); d = parent_of(d)) if (lstat(twin(d).c_str(), &st) == 0 && S_ISLNK(st.st_mode)) return true;
    return false;
}
static int twin_fd = -1;                              // one handle at a time
static std::set<u64> twin_dirty;                      // files with modifications not synced yet
static string twin_name, twin_data;                   // of the open handle, and what was read
static void twin_touch(int fd) { struct stat s; if (fstat(fd, &s) == 0) twin_dirty.insert(s.st_ino); }
static string own_read(const string& f, bool* ok) {   // the content of a file of this user's, whatever its permissions
    struct stat s;
    string d;
    *ok = false;
    if (lstat(f.c_str(), &s) || !S_ISREG(s.st_mode)) return d;
    bool ch = access(f.c_str(), R_OK) != 0;
    if (ch && chmod(f.c_str(), s.st_mode | 0400)) return d;
    int fd = open(f.c_str(), O_RDONLY);
    if (fd >= 0) {
        char t[65536];
        ssize_t n;
        while ((n = read(fd, t, sizeof t)) > 0) d.append(t, n);
        close(fd);
        *ok = true;
    }
    if (ch) chmod(f.c_str(), s.st_mode & 07777);
    return d;
}
static i64 twin_op(const Op& o, struct stat* st) {
    string a = twin(o.p), b = twin(o.q);
    auto ret = [](i64 r) { return r < 0 ? (i64)-errno : 0; };
    switch (o.k) {
    case OPEN: {
        int fd = open(a.c_str(), o.flags, (mode_t)(o.len ? o.len : 0644));
        if (fd < 0) return -errno;
        if (o.flags & O_TRUNC) twin_touch(fd);
        if (twin_fd >= 0) close(twin_fd);
        twin_fd = fd;
        twin_name = o.p;
        return 0;
    }
    case CLOSE: if (twin_fd >= 0) close(twin_fd); twin_fd = -1; return RET_SKIP;
    case WRITE: {
        string d = fill(o.seed, o.len);
        if (pwrite(twin_fd, d.data(), d.size(), o.off) < 0) return -errno;
        twin_touch(twin_fd);
        return 0;
    }
    case READ: {
        twin_data.assign(o.len, 0);
        ssize_t n = pread(twin_fd, &twin_data[0], o.len, o.off);
        twin_data.resize(n < 0 ? 0 : n);
        return n < 0 ? -errno : 0;
    }
    case FTRUNC: if (ftruncate(twin_fd, o.len)) return -errno; twin_touch(twin_fd); return 0;
    case FSYNC: return ret(fsync(twin_fd));
    case FDATASYNC: return ret(fdatasync(twin_fd));
    case TRUNC: {
        if (truncate(a.c_str(), o.len)) return -errno;
        if (stat(a.c_str(), st) == 0) twin_dirty.insert(st->st_ino);
        return 0;
    }
    case STAT: return ret(lstat(a.c_str(), st));
    case UNLINK: return ret(unlink(a.c_str()));
    case RENAME: return ret(rename(a.c_str(), b.c_str()));
    case LINK: return ret(linkat(AT_FDCWD, a.c_str(), AT_FDCWD, b.c_str(), 0));
    case SYMLINK: return ret(symlink(o.p.c_str(), b.c_str()));
    case READLINK: { char t[4097]; return ret(readlink(a.c_str(), t, sizeof t)); }
    case MKDIR: return ret(mkdir(a.c_str(), (mode_t)(o.flags ? o.flags : 0755)));
    case RMDIR: return ret(rmdir(a.c_str()));
    case CHMOD: return ret(chmod(a.c_str(), (mode_t)o.flags));
    case CHOWN: return ret(lchown(a.c_str(), (uid_t)o.t1, (gid_t)o.t2));
    case UTIMENS: {
        timespec t[2];
        t[0].tv_sec = o.t1 / 1000000000; t[0].tv_nsec = o.t1 % 1000000000;
        t[1].tv_sec = o.t2 / 1000000000; t[1].tv_nsec = o.t2 % 1000000000;
        if (o.flags & 1) t[0].tv_nsec = UTIME_OMIT;
        if (o.flags & 2) t[1].tv_nsec = UTIME_OMIT;
        if (o.flags & 4) t[0].tv_nsec = UTIME_NOW;
        if (o.flags & 8) t[1].tv_nsec = UTIME_NOW;
        return ret(utimensat(AT_FDCWD, a.c_str(), t, AT_SYMLINK_NOFOLLOW));
    }
    case ACCESS: return ret(access(a.c_str(), o.flags));
    case READDIR: { DIR* d = opendir(a.c_str()); if (!d) return -errno; closedir(d); return 0; }
    default: return RET_SKIP;
    }
}
static i64 perm_op(Client& c, const Op& o, size_t idx, Rec& r) {
    struct stat st, v;
    bool one = o.k == OPEN || o.k == TRUNC || o.k == CHMOD || o.k == ACCESS || o.k == READDIR || o.k == LINK;
    if (o.k != CLOSE && o.k != CMD && (through_link(o.k == SYMLINK ? o.q : o.p) || through_link(o.q) || (one && lstat(twin(o.p).c_str(), &st) == 0 && (S_ISLNK(st.st_mode) || (o.k == OPEN && S_ISDIR(st.st_mode)))))) return RET_SKIP;
    bool data = o.k == WRITE || o.k == READ || o.k == FTRUNC || o.k == FSYNC || o.k == FDATASYNC;
    if (data) { // what the cache cannot do without opening the file again is left out: see DESIGN.md
        if (twin_fd < 0) return RET_SKIP;
        string a = twin(twin_name);
        struct stat u;
        if (fstat(twin_fd, &u)) return RET_SKIP;
        int acc = fcntl(twin_fd, F_GETFL) & O_ACCMODE;
        if ((o.k == WRITE || o.k == FTRUNC) && acc == O_WRONLY && access(a.c_str(), R_OK)) return RET_SKIP;
        if ((o.k == FSYNC || o.k == FDATASYNC) && acc == O_RDONLY && twin_dirty.count(u.st_ino) && access(a.c_str(), W_OK)) return RET_SKIP;
    }
    if (o.k == TRUNC && o.len > 0 && access(twin(o.p).c_str(), R_OK)) return RET_SKIP;
    i64 e = exec_op0(c, o, idx, r);
    if (e == RET_SKIP) return e;
    i64 t = twin_op(o, &st);
    if (t == RET_SKIP) return e;
    if (o.k == WRITE && e >= 0 && e != o.len) r.note += " perm: wrote " + std::to_string(e) + " bytes";
    i64 ret = e;
    if (data && e > 0) e = 0;
    static const std::set<i64> ERR = {-EACCES, -EPERM, -ENOENT, -ENOTDIR, -EISDIR, -EEXIST, -ENOTEMPTY, -EINVAL, -EBUSY, -EBADF};
    if ((e == 0) != (t == 0)) r.note += " perm: returned " + std::to_string(e) + ", on a plain directory " + std::to_string(t);
    else if (e < 0 && !ERR.count(e)) r.note += " perm: failed with " + std::to_string(e) + ", on a plain directory with " + std::to_string(t);
    else if (o.k == STAT && e == 0 && ((v = r.st).st_mode != st.st_mode || v.st_uid != st.st_uid || v.st_gid != st.st_gid || (!S_ISDIR(st.st_mode) && v.st_nlink != st.st_nlink)))
        r.note += " perm: other attributes than on a plain directory";
    else if (o.k == READ && e == 0 && r.data != twin_data) r.note += " perm: reads other data than on a plain directory";
    else if ((o.k == FSYNC || o.k == FDATASYNC) && e == 0) {
        bool x, y;
        string u = own_read(full(twin_name), &x), w = own_read(twin(twin_name), &y);
        if (x && y && u != w) r.note += " perm: after the sync the storage holds other data than a plain directory (" + std::to_string(u.size()) + " and " + std::to_string(w.size()) + " bytes)";
        if (fstat(twin_fd, &st) == 0) twin_dirty.erase(st.st_ino);
    }
    return ret;
}
static i64 exec_op(Client& c, const Op& o, size_t idx, Rec& r) {
    if (env.c->opt.count("perm")) return perm_op(c, o, idx, r);
    if (!snap_hi) return exec_op0(c, o, idx, r);
    Op x = o; // the model counts from the end of the hole
    if (x.k == READ || x.k == WRITE || x.k == LSEEK) x.off += snap_hi;
    if (x.k == FTRUNC || x.k == TRUNC) x.len += snap_hi;
    i64 e = exec_op0(c, x, idx, r);
    if (x.k == LSEEK && e >= 0) e -= snap_hi;
    if (r.has_st && S_ISREG(r.st.st_mode)) r.st.st_size -= snap_hi;
    return e;
}
static i64 exec_op0(Client& c, const Op& o, size_t idx, Rec& r) {
    std::unique_lock<std::mutex> inode_lock(shared_inode, std::defer_lock);
    if (o.th > 0 && o.h == 6 && (o.k == WRITE || o.k == APPEND || o.k == FTRUNC || o.k == FSYNC || o.k == FDATASYNC)) inode_lock.lock();
    Hn* hn = o.h >= 0 && o.h < 16 ? &c.h[o.h] : nullptr;
    struct stat st, st2;
    int e;
    auto needh = [&]() { return hn && hn->open; };
    auto post_attr = [&](const string& p, fuse_file_info* fi) {
        int x = f_getattr(p, &r.st, fi);
        if (x == 0) r.has_st = true;
    };
    switch (o.k) {
    case OPEN: {
        if (!hn || hn->open) return RET_SKIP;
        e = lookup_dir(parent_of(o.p));
        if (e) return e;
        e = f_getattr(o.p, &st, nullptr);
        memset(&hn->fi, 0, sizeof hn->fi);
        if (e == 0) {
            if ((o.flags & O_CREAT) && (o.flags & O_EXCL)) return -EEXIST;
            if (S_ISDIR(st.st_mode)) return -EISDIR;
            if (S_ISLNK(st.st_mode)) return RET_SKIP;
            hn->fi.flags = o.flags & ~(O_CREAT | O_EXCL | O_NOCTTY);
            InOp i;
            e = ops.open(full(o.p).c_str(), &hn->fi);
        } else if (e == -ENOENT && (o.flags & O_CREAT)) {
            hn->fi.flags = o.flags;
            InOp i;
            e = ops.create(full(o.p).c_str(), (mode_t)(o.len ? o.len : 0644) | S_IFREG, &hn->fi);
        } else return e;
        if (e) return e;
        if (hn->fi.keep_cache) r.note += " keep_cache";
        hn->open = true;
        hn->path = o.p;
        hn->flags = o.flags;
        post_attr(o.p, &hn->fi);
        return 0;
    }
    case CLOSE: {
        if (!needh()) return RET_SKIP;
        string p = hn->path;
        {
            InOp i;
            if (ops.flush) ops.flush(full(p).c_str(), &hn->fi);
            e = ops.release ? ops.release(full(p).c_str(), &hn->fi) : 0;
        }
        hn->open = false;
        size_t b = p.rfind('/');
        string name = b == string::npos ? p : p.substr(b + 1);
        if (name.compare(0, 12, ".fuse_hidden") == 0 && !is_open(c, p)) {
            InOp i;
            ops.unlink(full(p).c_str());
        }
        return e;
    }
    case READ: {
        if (!needh()) return RET_SKIP;
        if ((hn->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
        char* b = (char*)malloc(o.len);
        memset(b, 0xA5, o.len);
        {
            InOp i;
            e = ops.read(full(hn->path).c_str(), b, o.len, o.off, &hn->fi);
        }
        if (e > 0 && e <= o.len) r.data.assign(b, e);
        free(b);
        return e;
    }
    case WRITE: case APPEND: {
        if (!needh()) return RET_SKIP;
        if ((hn->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
        i64 off = o.off;
        if (o.k == APPEND || (hn->flags & O_APPEND)) {
            e = f_getattr(hn->path, &st, &hn->fi);
            if (e) return e;
            off = st.st_size;
        }
        string d = fill(o.seed, o.len);
        char* b = (char*)malloc(o.len);
        memcpy(b, d.data(), o.len);
        {
            InOp i;
            e = ops.write(full(hn->path).c_str(), b, o.len, off, &hn->fi);
        }
        free(b);
        return e;
    }
    case FTRUNC: {
        if (!needh()) return RET_SKIP;
        if ((hn->flags & O_ACCMODE) == O_RDONLY) return -EINVAL;
        {
            InOp i;
            e = ops.truncate(full(hn->path).c_str(), o.len, &hn->fi);
        }
        if (!e) post_attr(hn->path, &hn->fi);
        return e;
    }
    case TRUNC: {
        e = lookup(o.p, &st);
        if (e) return e;
        if (S_ISDIR(st.st_mode)) return -EISDIR;
        if (S_ISLNK(st.st_mode)) return RET_SKIP;
        {
            InOp i;
            e = ops.truncate(full(o.p).c_str(), o.len, nullptr);
        }
        if (!e) post_attr(o.p, nullptr);
        return e;
    }
    case FSYNC: case FDATASYNC: {
        if (!needh()) return RET_SKIP;
        InOp i;
        return ops.fsync(full(hn->path).c_str(), o.k == FDATASYNC, &hn->fi);
    }
    case STAT: {
        e = o.p.empty() ? f_getattr("", &r.st, nullptr) : lookup(o.p, &r.st);
        if (!e) r.has_st = true;
        if (!e && !S_ISREG(r.st.st_mode) && o.th == 0 && o.inj.act == 0) { // passed through: as the storage has it
            struct stat u;
            const struct stat& v = r.st;
            if (lstat(full(o.p).c_str(), &u) == 0 &&
                (u.st_mode != v.st_mode || u.st_nlink != v.st_nlink || u.st_size != v.st_size || u.st_ino != v.st_ino || u.st_uid != v.st_uid || u.st_gid != v.st_gid ||
                 u.st_rdev != v.st_rdev || u.st_mtim.tv_sec != v.st_mtim.tv_sec || u.st_mtim.tv_nsec != v.st_mtim.tv_nsec || u.st_ctim.tv_nsec != v.st_ctim.tv_nsec))
                r.note += " statdiff";
        }
        return e;
    }
    case FSTAT: {
        if (!needh()) return RET_SKIP;
        e = f_getattr(hn->path, &r.st, &hn->fi);
        if (!e) r.has_st = true;
        return e;
    }
    case UNLINK: {
        e = lookup(o.p, &st);
        if (e) return e;
        if (S_ISDIR(st.st_mode)) return -EISDIR;
        if (is_open(c, o.p)) return hide(c, o.p, idx);
        InOp i;
        return ops.unlink(full(o.p).c_str());
    }
    case RENAME: {
        e = lookup(o.p, &st);
        if (e) return e;
        e = lookup_dir(parent_of(o.q));
        if (e) return e;
        if (o.p == o.q) return 0;
        if (under(o.q, o.p)) return -EINVAL;
        int e2 = f_getattr(o.q, &st2, nullptr);
        if (e2 && e2 != -ENOENT) return e2;
        if ((o.flags & 1) && !e2) return -EEXIST; // RENAME_NOREPLACE
        if ((o.flags & 2) && e2) return -ENOENT;  // RENAME_EXCHANGE
        if (under(o.p, o.q)) return -ENOTEMPTY;
        if (!e2) {
            if (S_ISDIR(st.st_mode) && !S_ISDIR(st2.st_mode)) return -ENOTDIR;
            if (!S_ISDIR(st.st_mode) && S_ISDIR(st2.st_mode)) return -EISDIR;
            if (is_open(c, o.q) && !o.flags) {
                e = hide(c, o.q, idx);
                if (e) return e;
            }
        }
        {
            InOp i;
            e = ops.rename(full(o.p).c_str(), full(o.q).c_str(), o.flags);
        }
        if (e == 0) moved(c, o.p, o.q);
        return e;
    }
    case LINK: {
        e = lookup(o.p, &st);
        if (e) return e;
        e = lookup_dir(parent_of(o.q));
        if (e) return e;
        e = f_getattr(o.q, &st2, nullptr);
        if (e == 0) return -EEXIST;
        if (e != -ENOENT) return e;
        if (S_ISDIR(st.st_mode)) return -EPERM;
        if (S_ISLNK(st.st_mode)) return RET_SKIP;
        {
            InOp i;
            e = ops.link(full(o.p).c_str(), full(o.q).c_str());
        }
        if (!e) post_attr(o.q, nullptr);
        return e;
    }
    case SYMLINK: {
        e = lookup_dir(parent_of(o.q));
        if (e) return e;
        e = f_getattr(o.q, &st2, nullptr);
        if (e == 0) return -EEXIST;
        if (e != -ENOENT) return e;
        {
            InOp i;
            e = ops.symlink(o.p.c_str(), full(o.q).c_str());
        }
        if (!e) post_attr(o.q, nullptr);
        return e;
    }
    case READLINK: {
        e = lookup(o.p, &st);
        if (e) return e;
        if (!S_ISLNK(st.st_mode)) return -EINVAL;
        char* b = (char*)malloc(4097);
        memset(b, 0x7e, 4097);
        {
            InOp i;
            e = ops.readlink(full(o.p).c_str(), b, 4097);
        }
        if (!e) r.data = string(b, strnlen(b, 4097));
        free(b);
        return e;
    }
    case MKDIR: {
        e = lookup_dir(parent_of(o.p));
        if (e) return e;
        e = f_getattr(o.p, &st, nullptr);
        if (e == 0) return -EEXIST;
        if (e != -ENOENT) return e;
        {
            InOp i;
            e = ops.mkdir(full(o.p).c_str(), (mode_t)(o.flags ? o.flags : 0755));
        }
        if (!e) post_attr(o.p, nullptr);
        return e;
    }
    case RMDIR: {
        e = lookup(o.p, &st);
        if (e) return e;
        if (!S_ISDIR(st.st_mode)) return -ENOTDIR;
        InOp i;
        return ops.rmdir(full(o.p).c_str());
    }
    case CHMOD: case CHOWN: case UTIMENS: {
        e = lookup(o.p, &st);
        if (e) return e;
        if (S_ISLNK(st.st_mode) && o.k == CHMOD) return RET_SKIP;
        {
            InOp i;
            if (o.k == CHMOD) e = ops.chmod(full(o.p).c_str(), (mode_t)o.flags | (st.st_mode & S_IFMT), nullptr);
            else if (o.k == CHOWN) e = ops.chown(full(o.p).c_str(), (uid_t)o.t1, (gid_t)o.t2, nullptr);
            else {
                timespec t[2];
                t[0].tv_sec = o.t1 / 1000000000; t[0].tv_nsec = o.t1 % 1000000000;
                t[1].tv_sec = o.t2 / 1000000000; t[1].tv_nsec = o.t2 % 1000000000;
                if (o.flags & 1) t[0].tv_nsec = UTIME_OMIT;
                if (o.flags & 2) t[1].tv_nsec = UTIME_OMIT;
                if (o.flags & 4) t[0].tv_nsec = UTIME_NOW;
                if (o.flags & 8) t[1].tv_nsec = UTIME_NOW;
                e = ops.utimens(full(o.p).c_str(), t, nullptr);
            }
        }
        if (!e) post_attr(o.p, nullptr);
        return e;
    }
    case FUTIMENS: {
        if (!needh()) return RET_SKIP;
        {
            InOp i;
            timespec t[2];
            t[0].tv_sec = o.t1 / 1000000000; t[0].tv_nsec = o.t1 % 1000000000;
            t[1].tv_sec = o.t2 / 1000000000; t[1].tv_nsec = o.t2 % 1000000000;
            if (o.flags & 1) t[0].tv_nsec = UTIME_OMIT;
            if (o.flags & 2) t[1].tv_nsec = UTIME_OMIT;
            e = ops.utimens(full(hn->path).c_str(), t, &hn->fi);
        }
        if (!e) post_attr(hn->path, &hn->fi);
        return e;
    }
    case ACCESS: {
        e = lookup(o.p, &st);
        if (e) return e;
        InOp i;
        return ops.access ? ops.access(full(o.p).c_str(), o.flags) : 0;
    }
    case READDIR: {
        if (!o.p.empty()) {
            e = lookup(o.p, &st);
            if (e) return e;
            if (!S_ISDIR(st.st_mode)) return -ENOTDIR;
        }
        fuse_file_info fi;
        memset(&fi, 0, sizeof fi);
        InOp i;
        if (ops.opendir) { e = ops.opendir(full(o.p).c_str(), &fi); if (e) return e; }
        dir_types.clear();
        dir_plus.clear();
        dir_inos.clear();
        e = ops.readdir(full(o.p).c_str(), &r.data, fill_dir, 0, &fi, (fuse_readdir_flags)(idx % 2 ? FUSE_READDIR_PLUS : 0));
        if (ops.releasedir) ops.releasedir(full(o.p).c_str(), &fi);
        if (!e && o.th == 0 && o.inj.act == 0)
            for (auto& x : dir_types) { // the type of an entry is that of the storage, or not given
                struct stat u;
                if (x.second && lstat((full(o.p) + "/" + x.first).c_str(), &u) == 0 && (u.st_mode & S_IFMT) != x.second) r.note += " dirtype";
            }
        if (!e && o.th == 0 && o.inj.act == 0)
            for (auto& x : dir_inos) {
                struct stat u;
                if (lstat((full(o.p) + "/" + x.first).c_str(), &u) == 0 && u.st_ino != x.second) r.note += " dirino";
            }
        if (!e && o.th == 0 && o.inj.act == 0)
            for (auto& x : dir_plus) { // the kernel takes these as they are: the same as a stat shows
                struct stat u;
                if (lstat((full(o.p) + "/" + x.first).c_str(), &u)) continue;
                auto& v = x.second;
                if (v.st_mode != u.st_mode || v.st_nlink != u.st_nlink || v.st_uid != u.st_uid || v.st_gid != u.st_gid) r.note += " dirplus";
                if (S_ISREG(u.st_mode)) r.note += "\1" + x.first + "\2" + std::to_string(v.st_size) + "\3";
            }
        return e;
    }
    case LSEEK: {
        if (!needh()) return RET_SKIP;
        if (!ops.lseek) { // what the kernel does: everything before the end of the file is data
            {
                InOp i;
                e = ops.getattr(full(hn->path).c_str(), &st, &hn->fi);
            }
            if (e) return e;
            if (o.off < 0 || o.off >= st.st_size) return -ENXIO;
            return o.flags == SEEK_HOLE ? st.st_size : o.off;
        }
        InOp i;
        return ops.lseek(full(hn->path).c_str(), o.off, o.flags, &hn->fi);
    }
    case CMD: {
        // "flags" > 0: split the bytes into that many writes
        string t = expand(o.text, env.root);
        int parts = o.flags > 0 ? o.flags : 1;
        size_t n = t.size(), i = 0;
        for (int k = 0; k < parts; k++) {
            size_t m = k == parts - 1 ? n - i : n / parts;
            if (m && !fifo_send(t.substr(i, m))) { r.note += " fifo-stuck"; return -EIO; }
            i += m;
            if (k < parts - 1 && m) barrier(false, o.len ? 2 : 1); // give the reader a chance to see a partial line
        }
        if (!barrier(false, 30000)) { r.note += " worker-stuck"; return -ETIMEDOUT; }
        if (done_r >= 0) {
            char b[4096];
            ssize_t n;
            while ((n = read(done_r, b, sizeof b)) > 0) r.note.append(b, n);
        }
        return 0;
    }
    default: return RET_SKIP;
    }
}

static void drain_log(Rec& r) {
    if (!env.c->cfg.logfile) return;
    string lf = env.base + "/lfs.log";
    int fd = open(lf.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return;
    char b[65536];
    ssize_t n;
    while ((n = pread(fd, b, sizeof b, log_off)) > 0) {
        r.data.append(b, n);
        log_off += n;
    }
    close(fd);
}

static std::thread* pair_thread = nullptr;
static Rec pair_rec;
static std::atomic<int> pair_tid{0};
static std::atomic<bool> pair_done{false};

static void run_paired_op() {
    size_t idx = armed.next;
    if (idx >= env.c->ops.size()) return;
    const Op* o = &env.c->ops[idx];
    pair_done = false;
    pair_tid = 0;
    pair_thread = new std::thread([o, idx]() {
        {
            std::lock_guard<std::mutex> g(tids_mtx);
            own_tids.insert((int)syscall(SYS_gettid));
        }
        pair_tid = (int)syscall(SYS_gettid);
        Client cl = main_client;
        pair_rec = Rec();
        pair_rec.op = idx;
        pair_rec.ret = exec_op(cl, *o, idx, pair_rec);
        pair_done = true;
    });
    i64 t0 = mono_ms();
    int bl = 0;
    while (!pair_done && mono_ms() - t0 < 5000) {
        int t = pair_tid;
        if (t && thread_state(t) == 'b') {
            if (++bl > 12) break;
        } else bl = 0;
        sched_yield();
    }
}

static void one(size_t i, bool snap) {
    const Op& o = env.c->ops[i];
    Rec r;
    r.op = i;
    env.shm->cur_op = i;
    env.shm->progress = env.shm->progress + 1;
    if (o.inj.act) {
        armed.inj = o.inj;
        armed.inj.cmd = expand(o.inj.cmd, env.root);
        armed.mask = mask_of(o.inj.cls);
        armed.count = 0;
        armed.fired = false;
        armed.cmd = o.k == CMD;
        armed.next = i + 1;
        armed.on = true;
    }
    r.t0 = now_ns();
    r.ret = exec_op(main_client, o, i, r);
    r.t1 = now_ns();
    if (o.inj.act) {
        armed.on = false;
        r.fired = armed.fired;
        if (o.inj.act == 'C') {
            // the injected command always arrives: at its point, or right after the operation
            if (!armed.fired) fifo_send(armed.inj.cmd);
            if (!barrier(false, 30000)) { r.note += " worker-stuck"; r.ret = -ETIMEDOUT; }
        }
        if (o.inj.act == 'T' && pair_thread) {
            pair_thread->join();
            delete pair_thread;
            pair_thread = nullptr;
            emit(pair_rec);
        }
        if (armed.fired) env.shm->inj_fired = env.shm->inj_fired + 1;
    }
    if (o.k == CMD) drain_log(r);
    if (env.c->opt.count("fdcheck")) {
        int n = 0;
        DIR* d = opendir("/proc/self/fd");
        while (readdir(d)) n++;
        closedir(d);
        r.note += " nfd=" + std::to_string(n) + ";";
    }
    if (snap) {
        r.has_snap = true;
        r.snap = snapshot(env.root);
    }
    emit(r);
}

static i64 storm_op(Client& cl, const Op& o, size_t idx, Rec& r) {
    if (o.k == UNLINK || o.k == RENAME || o.k == RMDIR || o.k == CLOSE) {
        std::lock_guard<std::shared_mutex> g(storm_paths);
        return exec_op(cl, o, idx, r);
    }
    std::shared_lock<std::shared_mutex> g(storm_paths);
    if (o.k == WRITE || o.k == APPEND || o.k == FTRUNC || o.k == TRUNC || (o.k == OPEN && (o.flags & O_TRUNC))) {
        string p = o.p;
        if (o.k != TRUNC && o.k != OPEN && o.h >= 0 && o.h < 16 && cl.h[o.h].open) p = cl.h[o.h].path;
        struct stat st;
        size_t ino = ::stat(full(p).c_str(), &st) == 0 ? st.st_ino : 0;
        std::lock_guard<std::mutex> g2(storm_inodes[ino % 8]);
        return exec_op(cl, o, idx, r);
    }
    return exec_op(cl, o, idx, r);
}

static void run_session() {
    const Case& c = *env.c;
    {
        std::lock_guard<std::mutex> g(tids_mtx);
        own_tids.insert((int)syscall(SYS_gettid));
    }
    string fp = env.base + "/fifo";
    fifo_w = open(fp.c_str(), O_RDWR | O_NONBLOCK | O_CLOEXEC);
    if (fifo_w < 0) die("fifo missing");
    if (c.cfg.completed) {
        done_r = open((env.base + "/fifo_done").c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
        if (done_r < 0) die("completion fifo missing");
    }
    if (!barrier(false, 30000)) die("worker not ready");
    if (c.cfg.logfile) {
        Rec r; // startup log
        r.op = -1;
        drain_log(r);
        emit(r);
    }
    size_t n = c.ops.size();
    u64 pseed = c.opt.count("perturb") ? (u64)c.opt.at("perturb") : 0;
    for (size_t i = env.start; i < n; i++) {
        const Op& o = c.ops[i];
        if (o.k == REMOUNT) {
            env.shm->cur_op = i;
            if (ops.destroy) ops.destroy(ctx.private_data);
            break;
        }
        if (o.k == KILL) {
            env.shm->cur_op = i;
            kill(getpid(), SIGKILL);
            for (;;) pause();
        }
        if (o.th > 0) {
            size_t j = i;
            map<int, vector<size_t>> by;
            while (j < n && c.ops[j].th > 0) { by[c.ops[j].th].push_back(j); j++; }
            env.shm->cur_op = i;
            vector<std::thread> ts;
            std::atomic<int> ready{0};
            int want = by.size();
            for (auto& b : by) {
                ts.emplace_back([&, v = b.second, th = b.first]() {
                    {
                        std::lock_guard<std::mutex> g(tids_mtx);
                        own_tids.insert((int)syscall(SYS_gettid));
                    }
                    tl_rng = pseed * 1000003 + th * 7919;
                    Client cl;
                    bool storm = c.opt.count("storm") != 0;
                    if (storm) {
                        std::lock_guard<std::shared_mutex> g(storm_paths);
                        storm_clients.push_back(&cl);
                    }
                    ready++;
                    while (ready < want) sched_yield();
                    for (size_t k : v) {
                        Rec r;
                        r.op = k;
                        if (c.ops[k].k == CMD) {
                            r.t0 = now_ns();
                            r.ret = fifo_send(expand(c.ops[k].text, env.root)) ? 0 : -EIO;
                            usleep(100);
                        } else {
                            r.t0 = now_ns();
                            r.ret = storm ? storm_op(cl, c.ops[k], k, r) : exec_op(cl, c.ops[k], k, r);
                        }
                        r.t1 = now_ns();
                        emit(r);
                    }
                    if (storm) {
                        std::lock_guard<std::shared_mutex> g(storm_paths);
                        for (int s = 0; s < 16; s++) {
                            Op cl_op;
                            cl_op.k = CLOSE;
                            cl_op.h = s;
                            Rec rr;
                            if (cl.h[s].open) exec_op(cl, cl_op, v.back(), rr);
                        }
                        storm_clients.erase(std::find(storm_clients.begin(), storm_clients.end(), &cl));
                        return;
                    }
                    for (int s = 0; s < 16; s++) {
                        Op cl_op;
                        cl_op.k = CLOSE;
                        cl_op.h = s;
                        Rec rr;
                        if (cl.h[s].open) exec_op(cl, cl_op, v.back(), rr);
                    }
                });
            }
            perturb = pseed ? 1 : 0;
            for (auto& t : ts) t.join();
            perturb = 0;
            if (!barrier(false, 30000)) die("worker stuck after threads");
            Rec r;
            r.op = j - 1;
            r.ret = RET_SKIP;
            r.note = "joined";
            r.has_snap = env.snaps;
            if (env.snaps) r.snap = snapshot(env.root);
            emit(r);
            i = j - 1;
            continue;
        }
        one(i, env.snaps);
        if (o.inj.act == 'T') {
            // the paired operation ran inside (or, if the point was not reached, runs now)
            if (!armed.fired) one(i + 1, env.snaps);
            i++;
        }
    }
    env.shm->progress = env.shm->progress + 1;
    fflush(stderr);
    _exit(0);
}

void child_main(const ChildEnv& e) {
    env = e;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    umask(0);
    keep_in = env.base + "/";
    if (chdir(env.base.c_str())) die("chdir");
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    if (env.c->opt.count("stdout")) {
        int so = open((env.base + "/stdout").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (so >= 0) { dup2(so, 1); close(so); }
    }
    int er = open((env.base + "/stderr").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (er >= 0) { dup2(er, 2); close(er); }
    close(nul);
    // the command line: opt argv picks the name of the configuration file, where it is given, and how many
    // options there are besides
    i64 av = env.c->opt.count("argv") ? env.c->opt.at("argv") : 0;
    static const char* CN[] = {"cfg.toml", "my-own.toml", "c-O/c.toml", "-o.toml", "a b.toml", "cfg", "x--config-path", "-O"};
    string cfg = env.base + "/" + CN[av % 8];
    if (av % 8 == 2) mkdir((env.base + "/c-O").c_str(), 0755);
    string t = toml_of(*env.c, env.root, env.base);
    int fd = open(cfg.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) die("config");
    close(fd);
    if (env.c->opt.count("perm")) {
        if (setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) die("setuid");
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        prctl(PR_SET_DUMPABLE, 1);
    }
    vector<string> args = {"lazyfs", "/mnt", "-f"};
    for (int k = 0; k < (int)(av / 8 % 16); k++) { args.push_back("-o"); args.push_back("k" + std::to_string(k) + "=v"); }
    want_args = args;
    if (av == 0) args.insert(args.begin() + 2, {"--config-path", cfg});
    else {
        size_t at = av / 128 % 3 == 0 ? 1 : av / 128 % 3 == 1 ? args.size() : 3;
        args.insert(args.begin() + at, {"--config-path", cfg});
    }
    vector<char*> argv;
    for (auto& a : args) argv.push_back((char*)a.c_str());
    argv.push_back(nullptr);
    lazyfs_main((int)args.size(), argv.data());
    _exit(78); // returned without mounting
}
