// Reference model: a POSIX file tree with an explicit durable state per file, the fault rules and the FIFO
// command language, written from the documentation, independent of the implementation's data structures.
#pragma once
#include "lfz.hpp"
#include <memory>
#include <regex>

enum Mask : unsigned {
    M_READ = 1,    // bytes returned by reads, sizes, seeks
    M_DUR = 2,     // underlying content after every operation
    M_CLEAR = 4,   // state after clears and crashes
    M_NS = 8,      // names, types and link targets in the underlying tree
    M_ATTR = 16,   // attributes through the mount (and in the tree)
    M_CRASH = 32,  // the process dies exactly when a fault says so
    M_RET = 64,    // results of operations
    M_REPORT = 128,
    M_USAGE = 256,
    M_LOG = 512,
    M_CMD = 1024,  // command acknowledgement: counts, completion, validity
    M_FD = 2048,
    M_SYNC = 4096, // content of a file right after its successful sync / checkpoint
    M_LEAK = 8192, // unsynced content appearing in the underlying tree
};

struct Node {
    char type = 'f';
    string cur, dur, target;
    u64 mode = 0644, uid = 0, gid = 0;
    int nlink = 1;
    u64 ino = 0;
    i64 mt_lo = 0, mt_hi = INT64_MAX, mt_alt = -1;
    i64 at = -1;                    // -1 unknown
    i64 dmt = -1;                   // expected modification time of the underlying file, -1 unknown
    bool modified = false;          // differs in history from the last sync
    vector<string> vers;            // every content since the last durable point (weak oracle)
    set<i64> ublk, mblk, cblk;      // unsynced written blocks; maybe-unsynced (zero fill); maybe cached
    map<i64, i64> uw;               // unsynced written byte ranges [from,to)
    set<string> seen;               // names looked up since the last clear
    bool unc = false;               // content uncertain after a failed modification:
    string alt;                     //   each byte is cur's or alt's
};

struct Hd {
    bool open = false;
    int node = -1;
    string path;
    int flags = 0;
};

struct CrashF { bool before; string op; bool has_from, has_to; std::shared_ptr<std::regex> from, to; };
struct TornOp { string path; int occ = 1, parts = -1; vector<int> bytes, persist; int count = 0; };
struct TornSeq { string path; int occ = 1; vector<int> persist; int count = 0, groups = 0; bool has1 = false; string d1; i64 o1 = 0; };
struct ClearFt { string from, to, op; bool before; int occ; bool crash; int count = 0; };

struct ReportExp {
    struct File { set<i64> ublk, all; vector<std::pair<i64, i64>> uw; };
    set<string> must, may;
    std::map<string, File> files; // by path
    i64 lo = 0, hi = 0;
};
struct UsageExp { double lo, hi; };
struct LogEv {
    string fn, a, b;
    i64 size = -1, off = -1;
    string mode;
    bool sure = true;
    LogEv(const string& f, const string& x, const string& y) : fn(f), a(x), b(y) {}
};

struct Exp { // expectation of one operation
    i64 ret = 0;
    bool crash = false;
    string data;
    int node = -1;                 // node whose attributes the record carries
    set<int> synced;               // nodes synced by this operation
    set<int> no_mtime;             // synced nodes whose times need not be carried (known finding C07-1)
    bool cleared = false;
    bool datasync = false;         // fdatasync: times need not be carried
    bool write_through = false;
    int n_clear = 0, n_ckpt = 0, n_unknown = 0, n_valid = 0, n_invalid = 0, n_help = 0;
    vector<ReportExp> reports;
    vector<ReportExp> at_crash;    // the report printed when a fault ends the process
    vector<UsageExp> usages;
    bool fault_fired = false;
    int wnode = -1;                // node modified by this operation (failed or not)
    string before;                 // its content before
};

struct Fail {
    string cat, msg;
    i64 op = -1;
};

struct Model {
    const Case* c = nullptr;
    string root;
    unsigned mask = ~0u;
    bool weak = false;
    bool invalid = false;          // history left the supported domain: no verdict
    vector<Node> nodes;
    map<string, int> names;        // "" is the root directory
    map<std::pair<int, int>, Hd> h; // (thread, slot)
    vector<CrashF> crashes;
    vector<TornOp> tornops;
    vector<TornSeq> tornseqs;
    vector<ClearFt> clears;
    int cfg_invalid = 0, cfg_valid = 0;
    string pending;                // unterminated command bytes
    vector<LogEv> log;
    set<int> wb;                   // nodes whose content may have been written back since the last check
    map<i64, set<char>> shared_ok; // bytes a concurrently written file may show
    map<string, i64> stat;         // counters for coverage

    void init(const Case& c, const string& root, const Snap& snap);
    void session_start();          // configured faults armed anew
    void session_end();            // process gone: everything unsynced dropped, handles closed
    Exp apply(const Op& o, size_t idx);
    void clear_state();
    // comparisons; return false and fill f on mismatch
    bool check(const Op& o, const Exp& e, const Rec& r, Fail& f);
    bool check_report(const string& t, const ReportExp& rep, const string& what, Fail& f);
    bool check_snap(const Snap& s, const Exp& e, Fail& f, bool after_clear);
    void adopt(const Snap& s);
    string full(const string& p) const { return p.empty() ? root + "/." : root + "/" + p; }
    i64 bs() const;
    void run_line(const string& line, Exp& e);

    // internals
    bool dead = false;
    Exp* ex = nullptr;
    i64 lookup_dir(const string& p);
    i64 lookup(const string& p, int* node);
    int node_at(const string& p) const { auto i = names.find(p); return i == names.end() ? -1 : i->second; }
    bool dir_empty(const string& p) const;
    bool before(const string& op, const string& p, const string& q);
    bool after(const string& op, const string& p, const string& q);
    bool is_open(int th, const string& p) const;
    void moved(int th, const string& a, const string& b);
    void do_rename(const string& a, const string& b);
    void drop_name(const string& p);
    i64 hide(int th, const string& p, size_t idx);
    i64 apply_(const Op& o, size_t idx);
    void content_changed(int n);
    void written(int n, i64 off, i64 len);
    void cut(int n, i64 size);
    void synced(int n);
    bool do_write(const string& p, int n, const string& d, i64 off, i64& ret);
    void do_truncate(int n, i64 size);
    void add_fault(const KV& f);
    ReportExp report_exp() const;
    UsageExp usage_exp() const;
};
bool kill_ok(Model& before, Model& after, bool after_possible, const set<int>& wb, const Snap& s, Fail& f, Model& out);
string show(const string& s, size_t at);
