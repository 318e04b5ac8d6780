// A small stand-in for a mount: links LazyFS, captures its operation table and calls it as libfuse would.
#pragma once
#define FUSE_USE_VERSION 31
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <fuse3/fuse.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
using std::string;
int lazyfs_main (int argc, char** argv);
static fuse_operations ops;
static fuse_context ctx;
static string base, root;
static std::function<void ()> body;
static int fifo = -1;
extern "C" struct fuse_context* fuse_get_context (void) { return &ctx; }
extern "C" int fuse_main_real (int, char**, const struct fuse_operations* op, size_t sz, void* priv) {
    memset (&ops, 0, sizeof ops);
    memcpy (&ops, op, std::min (sz, sizeof ops));
    ctx.private_data = priv;
    fuse_conn_info conn;
    fuse_config cfg;
    memset (&conn, 0, sizeof conn);
    memset (&cfg, 0, sizeof cfg);
    ctx.private_data = ops.init (&conn, &cfg);
    usleep (200000);
    fifo = open ((base + "/fifo").c_str (), O_RDWR);
    body ();
    fflush (nullptr);
    _exit (0);
}
#define CHECK(c, ...)                                                                                  \
    do {                                                                                               \
        if (!(c)) {                                                                                    \
            fprintf (stderr, "line %d: ", __LINE__);                                                   \
            fprintf (stderr, __VA_ARGS__);                                                             \
            fprintf (stderr, "\n");                                                                    \
            fflush (nullptr);                                                                          \
            _exit (1);                                                                                 \
        }                                                                                              \
    } while (0)
static string P (const string& r) { return root + "/" + r; }
// one mount session; returns the wait status of its process
static int session (const string& toml, std::function<void ()> b, int limit = 60) {
    pid_t pid = fork ();
    if (pid == 0) {
        body = b;
        alarm (limit);
        std::ofstream (base + "/c.toml") << toml;
        int n = open ((base + "/out").c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2 (n, 1);
        string c = base + "/c.toml";
        char a0[] = "lazyfs", a1[] = "/mnt", a2[] = "--config-path", a4[] = "-f";
        char* argv[] = {a0, a1, a2, (char*)c.c_str (), a4, nullptr};
        lazyfs_main (5, argv);
        _exit (3);
    }
    int st = 0;
    waitpid (pid, &st, 0);
    return st;
}
static string toml (int bs, int bpp, int pages, bool evict, const string& more = "", const string& fs = "") {
    std::ostringstream s;
    s << "[faults]\nfifo_path=\"" << base << "/fifo\"\n[cache]\napply_eviction=" << (evict ? "true" : "false")
      << "\n[cache.manual]\nio_block_size=" << bs << "\npage_size=" << bs * bpp << "\nno_pages=" << pages
      << "\n[filesystem]\nlog_all_operations=" << (fs.find ("log") != string::npos ? "true" : "false") << "\nlogfile=\"" << base << "/lfs.log\"\n"
      << more;
    return s.str ();
}
static int look (const string& r, struct stat* st) { return ops.getattr (P (r).c_str (), st, nullptr); }
static long size_ (const string& r) {
    struct stat st;
    int e = look (r, &st);
    return e ? e : (long)st.st_size;
}
struct F {
    fuse_file_info fi;
    string path;
    int err = 0;
    F (const string& r, int flags = O_RDWR, mode_t mode = 0644) : path (P (r)) {
        memset (&fi, 0, sizeof fi);
        fi.flags = flags;
        struct stat st;
        if (look (r, &st) == 0) {
            fi.flags &= ~(O_CREAT | O_EXCL);
            err = ops.open (path.c_str (), &fi);
        } else if (flags & O_CREAT)
            err = ops.create (path.c_str (), mode, &fi);
        else
            err = -ENOENT;
    }
    int w (off_t off, const string& d) { return ops.write (path.c_str (), d.data (), d.size (), off, &fi); }
    string r (off_t off, size_t n) {
        string b (n, '\0');
        int k = ops.read (path.c_str (), &b[0], n, off, &fi);
        b.resize (k < 0 ? 0 : k);
        return b;
    }
    int sync (int data = 0) { return ops.fsync (path.c_str (), data, &fi); }
    int trunc (off_t n) { return ops.truncate (path.c_str (), n, &fi); }
    void close () {
        if (!err) ops.release (path.c_str (), &fi);
        err = -EBADF;
    }
    ~F () { close (); }
};
static int put (const string& r, off_t off, const string& d) { F f (r, O_RDWR | O_CREAT); return f.w (off, d); }
static string get (const string& r, off_t off = 0, size_t n = 1 << 20) { F f (r, O_RDONLY); return f.r (off, n); }
static int sync_ (const string& r) { F f (r); return f.sync (); }
static int trunc_ (const string& r, off_t n) { struct stat st; look (r, &st); return ops.truncate (P (r).c_str (), n, nullptr); }
static int ren (const string& a, const string& b) { struct stat st; look (a, &st); look (b, &st); return ops.rename (P (a).c_str (), P (b).c_str (), 0); }
static int ln (const string& a, const string& b) { struct stat st; look (a, &st); look (b, &st); return ops.link (P (a).c_str (), P (b).c_str ()); }
static int rm (const string& a) { struct stat st; look (a, &st); return ops.unlink (P (a).c_str ()); }
static void raw (const string& s, int ms = 300) {
    if (write (fifo, s.data (), s.size ()) != (ssize_t)s.size ()) _exit (4);
    usleep (ms * 1000);
}
static void cmd (const string& s, int ms = 300) { raw ("lazyfs::" + s + "\n", ms); }
static void clear_ () { cmd ("clear-cache"); }
static string slurp (const string& p) {
    std::ifstream f (p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf ();
    return s.str ();
}
static string disk (const string& r) { return slurp (P (r)); }
static void spit (const string& r, const string& d) { std::ofstream (P (r), std::ios::binary) << d; }
static string logtext () { usleep (100000); return slurp (base + "/lfs.log"); }
static bool killed (int st) { return WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL; }
static bool fine (int st) { return WIFEXITED (st) && WEXITSTATUS (st) == 0; }
int demo ();
int main (int, char** argv) {
    base = argv[1];
    root = base + "/root";
    mkdir (root.c_str (), 0755);
    int r = demo ();
    printf (r ? "demo: FAILED\n" : "demo: ok\n");
    return r;
}
