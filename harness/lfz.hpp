// Core types of the LazyFS property harness: cases, operations, trace format.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <sys/stat.h>
#include <vector>

using std::map;
using std::set;
using std::string;
using std::vector;
typedef int64_t i64;
typedef uint64_t u64;

enum K {
    OPEN, CLOSE, READ, WRITE, APPEND, FTRUNC, TRUNC, FSYNC, FDATASYNC, STAT, FSTAT, UNLINK, RENAME,
    LINK, SYMLINK, READLINK, MKDIR, RMDIR, CHMOD, CHOWN, UTIMENS, ACCESS, READDIR, LSEEK, CMD,
    REMOUNT, KILL, FUTIMENS, NKINDS
};
extern const char* KNAME[NKINDS];

const i64 RET_SKIP = -999999; // operation not applicable (closed slot, ...): skipped by both sides

// Something injected at the k-th matching underlying call made inside the operation.
struct Inj {
    char act = 0;     // 0 none, 'E' fail with err, 'S' short count, 'K' kill before the call, 'k' kill after,
                      // 'C' send command text and let it run, 'T' run the next operation from another thread
    string cls;       // call class: "any", "wr" (pwrite/pwritev), "tr", "op", "rd", "ns", "lock"
    int k = 1;
    int err = 0;
    string cmd;
};

struct Op {
    K k = STAT;
    int h = -1;       // handle slot
    string p, q;      // paths (relative to the mount), or symlink target in p
    i64 off = 0, len = 0, seed = 0;
    int flags = 0;    // open flags / access mask / whence / mode / thread id for concurrency
    i64 t1 = 0, t2 = 0; // utimens: ns since epoch (atime, mtime); chown: uid, gid
    string text;      // CMD: raw bytes for the FIFO ("\n" included)
    int th = 0;       // client thread (concurrent profiles)
    Inj inj;
};

typedef map<string, string> KV;

struct Cfg {
    int bs = 16, bpp = 1, pages = 64;
    bool evict = false, logops = false, logfile = false, completed = false;
    string simple;    // custom_size text; empty: manual geometry
    bool nobpp = false, noevict = false, nofs = false; // leave optional keys out
    bool nocache = false; // neither simple nor manual section: documented defaults
};

struct InitEnt {
    char type = 'f';  // f file, d dir, l symlink, h hard link
    string p, q;      // q: target
    i64 len = 0, seed = 0;
};

struct Case {
    string prof;      // profile name
    Cfg cfg;
    vector<InitEnt> init;
    vector<KV> faults; // [[injection]] tables, raw values; @ROOT@ expands
    vector<Op> ops;
    map<string, i64> opt; // profile options
};

string case_to_text(const Case&);
bool case_from_text(const string&, Case&);
string op_to_text(const Op&);
string fill(i64 seed, i64 len); // deterministic content
string expand(const string& s, const string& root);
string toml_of(const Case&, const string& root, const string& base);

// ---- trace shared between child and parent --------------------------------------------------
struct Shm {
    volatile u64 used;
    volatile i64 cur_op;     // operation being executed, -1 before the first
    volatile i64 progress;   // bumped on every step
    volatile u64 inj_hits;   // injection points reached in this session
    volatile u64 inj_fired;  // injections that actually acted
    volatile u64 fuse_ops;   // FUSE operations issued
    char data[];
};
const size_t SHM_SIZE = 96u << 20;

struct Ent { // one entry of a snapshot of the underlying tree
    char type;
    u64 ino, mode, nlink, uid, gid;
    i64 mtime, atime, size;
    string data; // content or link target
};
typedef map<string, Ent> Snap;
Snap snapshot(const string& root, bool content = true);
extern i64 snap_hi;

enum RecTag { R_RET = 1, R_SNAP = 2, R_NOTE = 3, R_INIT = 4 };
struct Rec {
    i64 op = -1;
    i64 ret = 0;
    string data;             // READ/READLINK bytes, log output, listing (\0 separated)
    struct stat st;
    bool has_st = false;
    i64 t0 = 0, t1 = 0;      // realtime ns before / after
    bool has_snap = false;
    Snap snap;
    string note;
    int order = 0;
    bool fired = false;
};

struct Trace {
    vector<Rec> recs;
    string init;             // fuse config values
};

void trace_parse(Shm*, Trace&);

// ---- child ---------------------------------------------------------------------------------
struct ChildEnv {
    string base, root;       // scratch base, underlying root
    const Case* c;
    size_t start;            // first operation of this session
    Shm* shm;
    bool snaps = true;
};
[[noreturn]] void child_main(const ChildEnv&);

// ---- PRNG ------------------------------------------------------------------------------------
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    i64 range(i64 lo, i64 hi) { return lo + (i64)(next() % (u64)(hi - lo + 1)); } // inclusive
    bool chance(int pct) { return (int)(next() % 100) < pct; }
    template <class T> const T& pick(const vector<T>& v) { return v[next() % v.size()]; }
};

bool gen_case(const string& prof, u64 seed, Case& c, const string& tier);
