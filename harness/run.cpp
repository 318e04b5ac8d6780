// Runs one case: forks mount sessions, follows the trace with the reference model(s), judges deaths and
// hangs; shrinks failures; worker and replay entry points.
#include "run.hpp"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static i64 mono_ms() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (i64)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static string slurp(const string& p, size_t max = 1 << 26) {
    string r;
    int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return r;
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0 && r.size() < max) r.append(b, n);
    close(fd);
    return r;
}
static void rm_rf(const string& p) {
    DIR* d = opendir(p.c_str());
    if (d) {
        vector<string> v;
        while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
        closedir(d);
        for (auto& n : v) {
            string f = p + "/" + n;
            struct stat st;
            if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(f);
            else unlink(f.c_str());
        }
    }
    rmdir(p.c_str());
}
static void setup_tree(const Case& c, const string& root) {
    for (auto& e : c.init) {
        string f = root + "/" + e.p;
        if (e.type == 'd') { mkdir(f.c_str(), 0755); chmod(f.c_str(), 0755); }
        else if (e.type == 'l') { if (symlink(e.q.c_str(), f.c_str())) {} }
        else if (e.type == 'h') { if (link((root + "/" + e.q).c_str(), f.c_str())) {} }
        else {
            int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd < 0) continue;
            string d = fill(e.seed, e.len);
            if (snap_hi && ftruncate(fd, snap_hi)) {}
            if (pwrite(fd, d.data(), d.size(), snap_hi) < 0) {}
            fchmod(fd, 0644);
            close(fd);
        }
    }
}

// ---- waiting for a child, with deadlock and livelock detection ---------------------------------------------
struct Death { int status = 0; bool hang = false; string why; };
static bool all_blocked(pid_t pid) {
    // every thread sleeps in a futex, or waits for FIFO input; at least one of them in a futex
    string tp = "/proc/" + std::to_string(pid) + "/task";
    DIR* d = opendir(tp.c_str());
    if (!d) return false;
    bool ok = true, fut = false;
    while (dirent* e = readdir(d)) {
        if (e->d_name[0] == '.') continue;
        string s = slurp(tp + "/" + e->d_name + "/syscall", 300);
        if (s.empty() || !isdigit((unsigned char)s[0])) { ok = false; break; }
        long nr = atol(s.c_str());
        if (nr == SYS_futex) {
            // a futex wait with a timeout is a sleep, not a lock
            fut = true;
        } else if (nr == SYS_read || nr == SYS_poll || nr == SYS_ppoll || nr == SYS_select || nr == SYS_pselect6 || nr == SYS_epoll_wait) {
        } else { ok = false; break; }
    }
    closedir(d);
    return ok && fut;
}
static i64 cpu_ms(pid_t pid) {
    string s = slurp("/proc/" + std::to_string(pid) + "/stat", 2000);
    size_t p = s.rfind(')');
    if (p == string::npos) return 0;
    std::istringstream in(s.substr(p + 2));
    string x;
    long ut = 0, st = 0;
    for (int i = 3; i <= 15 && in >> x; i++) {
        if (i == 14) ut = atol(x.c_str());
        if (i == 15) st = atol(x.c_str());
    }
    return (ut + st) * 1000 / sysconf(_SC_CLK_TCK);
}
static Death wait_child(pid_t pid, Shm* shm) {
    Death d;
    int pfd = syscall(SYS_pidfd_open, pid, 0);
    i64 last = shm->progress, lastp = -1, since = mono_ms(), cpu0 = 0, blocked_since = 0;
    cpu0 = cpu_ms(pid);
    (void)lastp;
    for (;;) {
        if (pfd >= 0) {
            pollfd p{pfd, POLLIN, 0};
            int r = poll(&p, 1, 250);
            if (r > 0) break;
        } else {
            int st;
            if (waitpid(pid, &st, WNOHANG) == pid) { d.status = st; return d; }
            usleep(200);
        }
        i64 now = mono_ms();
        if (shm->progress != last) {
            last = shm->progress;
            since = now;
            cpu0 = cpu_ms(pid);
            blocked_since = 0;
            continue;
        }
        if (now - since < 1000) continue;
        if (all_blocked(pid)) {
            if (!blocked_since) blocked_since = now;
            if (now - blocked_since > 2500) { d.hang = true; d.why = "deadlock: all threads wait for locks"; break; }
        } else blocked_since = 0;
        if (cpu_ms(pid) - cpu0 > 30000) { d.hang = true; d.why = "endless loop"; break; }
        if (now - since > 240000) { d.hang = true; d.why = "timeout"; break; }
    }
    if (d.hang) kill(pid, SIGKILL);
    waitpid(pid, &d.status, 0);
    if (pfd >= 0) close(pfd);
    return d;
}

// ---- one case --------------------------------------------------------------------------------------------------
struct Worlds {
    vector<Model> v;
};
static bool fail(Result& R, const Fail& f, i64 op) {
    R.fail = true;
    R.f = f;
    R.f.op = op;
    return false;
}
static Fail mk(const string& cat, const string& msg) {
    Fail f;
    f.cat = cat;
    f.msg = msg;
    return f;
}
static void merge(Exp& a, const Exp& b) {
    a.synced.insert(b.synced.begin(), b.synced.end());
    a.cleared = a.cleared || b.cleared;
}

// probing of a file whose content is uncertain after a failed operation
static bool check_uncertain(Model& m, const Op& o, Rec& r, Fail& f, bool& handled) {
    handled = false;
    int n = -1;
    auto it = m.h.find({o.th, o.h});
    if (o.k == FSTAT || o.k == READ || o.k == WRITE || o.k == APPEND || o.k == FTRUNC || o.k == FSYNC || o.k == FDATASYNC || o.k == LSEEK || o.k == FUTIMENS) {
        if (it == m.h.end() || !it->second.open) return true;
        n = it->second.node;
    } else if (o.k == STAT || o.k == TRUNC || o.k == OPEN || o.k == CHMOD || o.k == CHOWN || o.k == UTIMENS || o.k == RENAME || o.k == LINK || o.k == UNLINK)
        n = m.node_at(o.p);
    if (o.k == CMD) for (auto& x : m.nodes) if (x.unc) { m.invalid = true; return true; }
    if (n < 0 || !m.nodes[n].unc) return true;
    Node& x = m.nodes[n];
    if (o.k == OPEN && !(o.flags & O_TRUNC)) { r.has_st = false; return true; }
    if (o.k == FSTAT && r.ret == 0 && r.has_st) {
        handled = true;
        i64 lo = std::min(x.cur.size(), x.alt.size()), hi = std::max(x.cur.size(), x.alt.size());
        if (r.st.st_size < lo || r.st.st_size > hi) {
            f = mk("SIZE", op_to_text(o) + ": size " + std::to_string(r.st.st_size) + " after a failed operation, expected " + std::to_string(lo) + ".." + std::to_string(hi));
            return false;
        }
        string& lg = x.cur.size() > x.alt.size() ? x.cur : x.alt;
        string longer = lg;
        for (string* s : {&x.cur, &x.alt}) {
            if ((i64)s->size() < r.st.st_size) *s += longer.substr(s->size());
            s->resize(r.st.st_size);
        }
        return true;
    }
    if (o.k == READ && r.ret >= 0 && o.off == 0 && x.cur.size() == x.alt.size() && o.len > (i64)x.cur.size()) {
        handled = true;
        if (r.data.size() != x.cur.size()) {
            f = mk("READ", op_to_text(o) + ": returned " + std::to_string(r.data.size()) + " bytes, expected " + std::to_string(x.cur.size()));
            return false;
        }
        for (size_t i = 0; i < r.data.size(); i++) {
            if (r.data[i] == x.cur[i] || r.data[i] == x.alt[i]) continue;
            if (r.data[i] == 0 && i >= (size_t)m.stat["unc_old"]) continue; // grown region not written
            f = mk("READ", op_to_text(o) + ": byte " + std::to_string(i) + " after a failed operation is neither old nor new: " + show(r.data, i) + " old " + show(x.cur, i) + " new " + show(x.alt, i));
            return false;
        }
        x.cur = r.data;
        x.unc = false;
        m.content_changed(n);
        m.stat["unc_resolved"]++;
        return true;
    }
    m.invalid = true;
    return true;
}

static bool mixes(const string& got, const string& dur, const string& cur) {
    size_t lo = std::min(dur.size(), cur.size()), hi = std::max(dur.size(), cur.size());
    if (got.size() < lo || got.size() > hi) return false;
    for (size_t i = 0; i < got.size(); i++) {
        if (i < cur.size() && got[i] == cur[i]) continue;
        if (i < dur.size() ? got[i] == dur[i] : got[i] == 0) continue;
        return false;
    }
    return true;
}
static bool same(const Snap& s, const Model& m) { // names only
    for (auto& x : s) if (!m.names.count(x.first)) return false;
    for (auto& x : m.names) if (!x.first.empty() && !s.count(x.first)) return false;
    return true;
}

// result of an operation during which an underlying call failed or was cut short
// after a sync that failed: what is not on disk yet is still unsynced, the rest may be
static void half_synced(Node& x, const string* disk, i64 B) {
    x.mblk.insert(x.ublk.begin(), x.ublk.end());
    vector<std::pair<i64, i64>> keep;
    if (disk)
        for (auto& w : x.uw)
            for (i64 i = w.first, e = std::min<i64>(w.second, x.cur.size()); i < e; i++) {
                bool differs = i >= (i64)disk->size() || (*disk)[i] != x.cur[i];
                if (!differs) continue;
                if (!keep.empty() && keep.back().second == i) keep.back().second++;
                else keep.push_back({i, i + 1});
            }
    x.uw.clear();
    x.ublk.clear();
    for (auto& k : keep) {
        x.uw[k.first] = k.second;
        for (i64 b = k.first / B; b <= (k.second - 1) / B; b++) x.ublk.insert(b);
    }
}
static bool check_injected(Model& m, const Op& o, size_t idx, const Rec& r, Fail& f) {
    Model a = m; // not done
    Exp e = m.apply(o, idx);
    string what = op_to_text(o);
    if (e.ret == RET_SKIP || m.invalid) { m.invalid = true; return true; }
    bool is_write = o.k == WRITE || o.k == APPEND;
    bool is_sync = o.k == FSYNC || o.k == FDATASYNC;
    Rec rr = r;
    if (r.ret == e.ret && o.k != CMD) {
        // reported as done: then it must be done
        if (o.inj.act == 'S' && o.k == READ && r.data != e.data) {
            f = mk("READ", what + ": success with wrong bytes after a short read");
            return false;
        }
        if (!m.check(o, e, rr, f)) return false;
        if (r.has_snap && !m.check_snap(r.snap, e, f, false)) {
            f.msg = "operation reported success although an underlying call failed: " + f.msg;
            return false;
        }
        m.stat["inj_survived"]++;
        return true;
    }
    m.stat["inj_reported"]++;
    if (o.k == CMD) {
        // commands do not report; a checkpoint that could not write keeps everything cached
        Model t = a;
        std::set<int> left; // files that were not written back: only the one whose call failed may be
        for (auto& x : t.names) {
            Node& n = t.nodes[x.second];
            if (n.type != 'f' || !r.has_snap) continue;
            auto i = r.snap.find(x.first);
            if (i == r.snap.end()) { f = mk("NS", "name vanished: " + x.first); return false; }
            if (i->second.data != n.cur && !(n.modified && n.seen.empty())) left.insert(x.second);
            if (left.size() > 1 && (m.mask & M_SYNC)) {
                f = mk("SYNC", x.first + ": after a checkpoint in which one call failed, several files were not written back");
                return false;
            }
            if (!a.weak && !mixes(i->second.data, n.dur, n.cur)) {
                f = mk("SYNC", x.first + ": after a failed checkpoint a byte on disk is neither old nor new: " + show(i->second.data, 0));
                return false;
            }
        }
        if (r.has_snap && a.weak) {
            Exp none;
            if (!t.check_snap(r.snap, none, f, false)) return false;
            // parts of it may be on disk now, a changed size for one: what is there becomes the base
            for (auto& x : t.nodes) x.vers.push_back(x.dur);
        }
        if (r.has_snap) t.adopt(r.snap);
        set<int> named;
        for (auto& nm : t.names) if (named.insert(nm.second).second) {
            auto i = r.has_snap ? r.snap.find(nm.first) : r.snap.end();
            half_synced(t.nodes[nm.second], !a.weak && i != r.snap.end() ? &i->second.data : nullptr, t.bs());
        }
        for (size_t i = 0; i < t.nodes.size(); i++) if (!named.count(i)) half_synced(t.nodes[i], nullptr, t.bs());
        m = t;
        return true;
    }
    if (r.ret >= 0 && !(o.k == READ || is_write)) { f = mk("RET", what + ": returned " + std::to_string(r.ret)); return false; }
    if (r.ret > e.ret && !(r.ret < 0 && e.ret < 0)) { f = mk("RET", what + ": returned " + std::to_string(r.ret) + " of " + std::to_string(e.ret)); return false; }
    if (is_write && r.ret == 0 && o.len > 0) { f = mk("RET", what + ": failed without an error"); return false; }
    Model t = a;
    Exp none;
    if (o.k == READ) {
        if (r.ret > 0 && r.data != e.data.substr(0, r.ret)) { f = mk("READ", what + ": short read with wrong bytes"); return false; }
        int n = e.node;
        if (n >= 0) t.nodes[n].at = -1;
    } else if (is_write || o.k == TRUNC || o.k == FTRUNC || (o.k == OPEN && e.wnode >= 0)) {
        int n = e.wnode;
        Node& x = t.nodes[n];
        x.unc = true;
        x.alt = m.nodes[n].cur;
        t.stat["unc_old"] = x.cur.size();
        if (a.weak) x.vers.push_back(x.alt);
        x.mt_lo = 0; x.mt_hi = INT64_MAX;
        if (is_write && r.ret > 0) { // the reported prefix is certain
            i64 off = o.off;
            auto hd = a.h.find({o.th, o.h});
            if (o.k == APPEND || (hd != a.h.end() && (hd->second.flags & O_APPEND))) off = x.cur.size();
            string d = fill(o.seed, o.len).substr(0, r.ret);
            if ((i64)x.cur.size() < off + r.ret) x.cur.resize(off + r.ret, 0);
            x.cur.replace(off, r.ret, d);
        }
        t.content_changed(n);
        x.mblk.insert(x.ublk.begin(), x.ublk.end());
        x.mblk.insert(m.nodes[n].ublk.begin(), m.nodes[n].ublk.end());
        x.mblk.insert(m.nodes[n].mblk.begin(), m.nodes[n].mblk.end());
        x.cblk.insert(m.nodes[n].cblk.begin(), m.nodes[n].cblk.end());
        x.ublk.clear();
        x.uw.clear();
        if (r.has_snap) {
            for (auto& nm : t.names) if (nm.second == n && r.snap.count(nm.first)) {
                const string& g = r.snap.at(nm.first).data;
                if (a.weak) break;
                if (!mixes(g, x.dur, x.alt) && !mixes(g, x.dur, x.cur)) { f = mk("LEAK", nm.first + ": failed write corrupted the file on disk"); return false; }
                x.dur = g;
            }
        }
    } else if (is_sync) {
        int n = e.node;
        if (r.has_snap && n >= 0)
            for (auto& nm : t.names) if (nm.second == n && r.snap.count(nm.first)) {
                const string& g = r.snap.at(nm.first).data;
                if (a.weak) break;
                if (!mixes(g, t.nodes[n].dur, t.nodes[n].cur)) { f = mk("SYNC", nm.first + ": failed sync left bytes that are neither old nor new: " + show(g, 0)); return false; }
                t.nodes[n].dur = g;
            }
        const string* disk = nullptr;
        if (r.has_snap && !a.weak)
            for (auto& nm : t.names) if (nm.second == n && r.snap.count(nm.first)) disk = &r.snap.at(nm.first).data;
        if (n >= 0) half_synced(t.nodes[n], disk, t.bs());
    }
    // lookups made on the way count as looks
    if (r.has_snap) {
        if (!same(r.snap, t)) {
            // several steps (hidden rename + rename): the first may have happened
            if (m.stat["hide"] != a.stat["hide"]) { m.invalid = true; return true; }
            f = mk("NS", what + ": failed, yet names changed");
            return false;
        }
        if (!t.check_snap(r.snap, none, f, false)) { f.msg = what + " failed; " + f.msg; return false; }
        if (a.weak) {
            for (auto& x : t.nodes) x.vers.push_back(x.dur);
            t.adopt(r.snap);
        }
    }
    if (o.k == CLOSE) t.h.erase({o.th, o.h});
    m = t;
    return true;
}

static bool check_log(const Case& c, const vector<LogEv>& ev, const string& log, Fail& f) {
    static const set<string> cover = {"open", "create", "read", "write", "fsync", "truncate", "rename", "link", "symlink", "unlink", "mkdir", "rmdir", "chmod", "chown", "utimens"};
    struct Ln { string fn; map<string, string> kv; string raw; };
    vector<Ln> got;
    std::istringstream in(log);
    string line;
    while (std::getline(in, line)) {
        size_t p = line.find("[lazyfs.ops]: lfs_");
        if (p == string::npos) continue;
        p += 18;
        size_t q = line.find('(', p), z = line.rfind(')');
        if (q == string::npos || z == string::npos || z < q) { f = mk("LOG", "unparsable log line: " + line); return false; }
        Ln l;
        l.raw = line;
        l.fn = line.substr(p, q - p);
        if (!cover.count(l.fn)) continue;
        std::istringstream a(line.substr(q + 1, z - q - 1));
        string kv;
        while (std::getline(a, kv, ',')) {
            size_t s = 0;
            while (s < kv.size() && kv[s] == ' ') s++;
            size_t e = kv.find('=', s);
            if (e != string::npos) l.kv[kv.substr(s, e - s)] = kv.substr(e + 1);
        }
        got.push_back(l);
    }
    if (!c.cfg.logops) {
        if (!got.empty()) { f = mk("LOG", "operation logged although logging is off: " + got[0].raw); return false; }
        return true;
    }
    auto match = [&](const LogEv& e, const Ln& l) {
        if (e.fn != l.fn) return false;
        auto val = [&](const char* k) { auto i = l.kv.find(k); return i == l.kv.end() ? string("?") : i->second; };
        if (e.b.empty()) { if (val("path") != e.a) return false; }
        else if (val("from") != e.a || val("to") != e.b) return false;
        if (e.size >= 0 && val("size") != std::to_string(e.size + (e.fn == "truncate" ? snap_hi : 0))) return false;
        if (e.off >= 0 && val("off") != std::to_string(e.off + snap_hi)) return false;
        if (!e.mode.empty() && val(e.fn == "fsync" ? "isdatasync" : "mode") != e.mode) return false;
        return true;
    };
    // unsure entries make the matching nondeterministic: dynamic programming over (expected, got)
    size_t n = ev.size(), m = got.size();
    set<size_t> at = {0};
    size_t stuck = 0;
    for (size_t i = 0; i < n; i++) {
        set<size_t> nx;
        for (size_t j : at) {
            if (j < m && match(ev[i], got[j])) nx.insert(j + 1);
            if (!ev[i].sure) nx.insert(j);
        }
        if (nx.empty()) {
            stuck = *at.rbegin();
            f = mk("LOG", "expected " + ev[i].fn + " " + ev[i].a + " " + ev[i].b + " size=" + std::to_string(ev[i].size) + " off=" + std::to_string(ev[i].off) +
                              " " + ev[i].mode + ", log has: " + (stuck < m ? got[stuck].raw : "(end)"));
            return false;
        }
        at = nx;
    }
    if (!at.count(m)) { f = mk("LOG", "operation logged that was not issued: " + got[*at.rbegin()].raw); return false; }
    return true;
}

static bool check_init(const string& init, Fail& f) {
    // values handed to the kernel that would let it serve stale attributes, names or pages
    double en, at, ne;
    int kc, ac, di, hr, wb, ui;
    if (sscanf(init.c_str(), "entry=%lf attr=%lf neg=%lf kernel_cache=%d auto_cache=%d direct_io=%d hard_remove=%d wb=%d use_ino=%d", &en, &at, &ne, &kc, &ac, &di, &hr, &wb, &ui) != 9)
        return true;
    if (en != 0 || at != 0 || ne != 0) { f = mk("INIT", "the kernel may serve stale attributes or names: " + init); return false; }
    if (kc || wb) { f = mk("INIT", "the kernel may keep dropped data in its page cache: " + init); return false; }
    if (hr) { f = mk("INIT", "open deleted files lose their data: " + init); return false; }
    if (init.find("args=bad") != string::npos) { f = mk("INIT", "the options of the command line did not all reach FUSE"); return false; }
    if (!ui) { f = mk("INIT", "inode numbers of hard links are not shared: " + init); return false; }
    return true;
}

// a mount by an unprivileged user, against the same operations on a plain directory
static void tree_lines(const string& d, const string& rel, vector<string>& out) {
    DIR* dp = opendir(d.c_str());
    if (!dp) return;
    vector<string> v;
    while (dirent* e = readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
    closedir(dp);
    std::sort(v.begin(), v.end());
    for (auto& n : v) {
        struct stat st;
        string p = d + "/" + n, r = rel.empty() ? n : rel + "/" + n;
        if (lstat(p.c_str(), &st)) continue;
        char b[200];
        snprintf(b, sizeof b, " mode %o owner %d:%d", st.st_mode, (int)st.st_uid, (int)st.st_gid);
        string l = r + b;
        if (!S_ISDIR(st.st_mode)) l += " links " + std::to_string(st.st_nlink);
        if (S_ISLNK(st.st_mode)) { char t[4097]; ssize_t k = readlink(p.c_str(), t, sizeof t); l += " -> " + string(t, k > 0 ? k : 0); }
        out.push_back(l);
        if (S_ISDIR(st.st_mode)) tree_lines(p, r, out);
    }
}
static Result run_perm(const Case& c, const string& base, Shm* shm) {
    Result R;
    rm_rf(base);
    mkdir(base.c_str(), 0755);
    umask(0);
    static const int M[] = {0755, 0666, 0644, 0700, 0600, 0555, 0500, 0444, 0300, 0200, 0100, 0};
    u64 seed = c.opt.at("perm");
    for (string root : {base + "/r", base + "/s"}) {
        mkdir(root.c_str(), 0755);
        setup_tree(c, root);
        for (size_t i = c.init.size(); i-- > 0;) {
            auto& e = c.init[i];
            if (e.type == 'h') continue;
            u64 h = seed;
            for (char ch : e.p) h = h * 1099511628211ull + (unsigned char)ch;
            h ^= h >> 29;
            string f = root + "/" + e.p;
            if (h % 4 != 0 && lchown(f.c_str(), 65534, 65534)) {}
            if (e.type != 'l') chmod(f.c_str(), e.type == 'd' && h / 4 % 3 == 0 ? 0777 : M[h / 16 % 12]);
        }
        if (chown(root.c_str(), 65534, 65534)) {}
        chmod(root.c_str(), seed % 10 == 0 ? 0555 : 0755);
    }
    if (chown(base.c_str(), 65534, 65534)) {}
    R.sessions++;
    shm->used = 0; shm->cur_op = -1; shm->progress = 0; shm->inj_hits = 0; shm->inj_fired = 0; shm->fuse_ops = 0;
    pid_t pid = fork();
    if (pid < 0) { R.inconclusive = true; return R; }
    if (pid == 0) {
        ChildEnv ce;
        ce.base = base; ce.root = base + "/r"; ce.c = &c; ce.start = 0; ce.shm = shm;
        ce.snaps = false;
        child_main(ce);
    }
    Death d = wait_child(pid, shm);
    Trace T;
    trace_parse(shm, T);
    R.fuse_ops += shm->fuse_ops;
    for (auto& r : T.recs) {
        size_t i = r.note.find(" perm:");
        if (r.op >= 0 && i != string::npos) { fail(R, mk("PERM", op_to_text(c.ops[r.op]) + r.note.substr(i + 6)), r.op); return R; }
    }
    if (d.hang || !WIFEXITED(d.status) || WEXITSTATUS(d.status)) {
        if (d.hang || WIFSIGNALED(d.status)) fail(R, mk("DEATH", "the process died or hung: " + d.why), shm->cur_op);
        else R.inconclusive = true;
        return R;
    }
    vector<string> a, b;
    tree_lines(base + "/r", "", a);
    tree_lines(base + "/s", "", b);
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
        if (x != y) { fail(R, mk("PERM", "the storage holds " + x + ", a plain directory " + y), c.ops.size() - 1); return R; }
    }
    R.stat["perm"]++;
    return R;
}
Result run_case(const Case& c, const PropSpec& P, const string& base, Shm* shm) {
    if (c.opt.count("perm")) return run_perm(c, base, shm);
    Result R;
    string root = base + "/r";
    rm_rf(base);
    mkdir(base.c_str(), 0755);
    mkdir(root.c_str(), 0755);
    umask(0);
    chmod(root.c_str(), 0755);
    snap_hi = c.opt.count("hi") ? c.opt.at("hi") : 0;
    setup_tree(c, root);
    for (auto& e : c.init) { // the storage has to support such files at all
        struct stat st;
        if (snap_hi && e.type == 'f' && (stat((root + "/" + e.p).c_str(), &st) || st.st_size != snap_hi + e.len)) R.inconclusive = true;
    }
    vector<Model> W(1);
    W[0].mask = P.mask;
    if (c.opt.count("mask")) W[0].mask = P.mask & (unsigned)c.opt.at("mask");
    W[0].init(c, root, snapshot(root));
    const unsigned mask = W[0].mask;
    size_t start = 0;
    bool first = true;
    while ((first || start < c.ops.size()) && !R.fail && !R.inconclusive) {
        first = false;
        R.sessions++;
        for (auto& m : W) m.session_start();
        shm->used = 0; shm->cur_op = -1; shm->progress = 0; shm->inj_hits = 0; shm->inj_fired = 0; shm->fuse_ops = 0;
        unlink((base + "/stderr").c_str());
        pid_t pid = fork();
        if (pid < 0) { R.inconclusive = true; break; }
        if (pid == 0) {
            ChildEnv ce;
            ce.base = base; ce.root = root; ce.c = &c; ce.start = start; ce.shm = shm;
            ce.snaps = !c.opt.count("nosnap");
            child_main(ce);
        }
        Death d = wait_child(pid, shm);
        Trace T;
        trace_parse(shm, T);
        R.fuse_ops += shm->fuse_ops; R.inj_hits += shm->inj_hits; R.inj_fired += shm->inj_fired;
        i64 cur = shm->cur_op;
        Fail f;
        if (!T.init.empty() && (mask & (M_READ | M_CLEAR | M_ATTR)) && !check_init(T.init, f)) { fail(R, f, -1); break; }
        i64 last_done = (i64)start - 1;
        i64 fdbase = -1;
        // ---- completed operations
        for (size_t ri = 0; ri < T.recs.size() && !R.fail; ri++) {
            Rec& r = T.recs[ri];
            if (r.op < 0) continue;
            const Op& o = c.ops[r.op];
            if (c.opt.count("storm") && r.op < c.opt.at("storm")) { // results depend on the order: only the state afterwards counts
                if (r.has_snap && r.op == c.opt.at("storm") - 1) {
                    auto st = W[0].stat;
                    W.assign(1, Model());
                    W[0].mask = mask;
                    W[0].init(c, root, r.snap);
                    W[0].session_start();
                    W[0].stat = st;
                    R.stat["storm"]++;
                }
                last_done = r.op;
                continue;
            }
            vector<Model> N;
            Fail ff;
            bool anyf = false, vac = false;
            auto reject = [&](const Fail& x) { if (!anyf) ff = x; anyf = true; };
            if (r.note == "joined") {
                for (auto& m : W) {
                    Exp e;
                    for (auto it = m.h.begin(); it != m.h.end();) { if (it->first.first > 0) it = m.h.erase(it); else ++it; }
                    if (r.has_snap && !m.check_snap(r.snap, e, ff, false)) { anyf = true; continue; }
                    N.push_back(m);
                }
                if (N.empty()) { fail(R, ff, r.op); break; }
                W = N;
                last_done = r.op;
                continue;
            }
            if (o.inj.act == 'T' || (r.op > 0 && c.ops[r.op - 1].inj.act == 'T' && ri + 1 < T.recs.size() && T.recs[ri + 1].op == r.op - 1)) {
                // a pair of operations that overlapped: some order must explain both results
                if (o.inj.act != 'T') { // record of the inner one comes first
                    Rec &r2 = r, &r1 = T.recs[ri + 1];
                    const Op &o1 = c.ops[r1.op], &o2 = o;
                    r1.has_st = r2.has_st = false;
                    for (auto& m : W) {
                        for (int ord = 0; ord < 2; ord++) {
                            Model t = m;
                            Exp e1, e2;
                            if (ord == 0) { e1 = t.apply(o1, r1.op); e2 = t.apply(o2, r2.op); }
                            else { e2 = t.apply(o2, r2.op); e1 = t.apply(o1, r1.op); }
                            if (t.invalid) { vac = true; break; }
                            Fail x;
                            if (!t.check(o1, e1, r1, x) || !t.check(o2, e2, r2, x)) { reject(x); continue; }
                            merge(e1, e2);
                            if (r1.has_snap && !t.check_snap(r1.snap, e1, x, e1.cleared)) { reject(x); continue; }
                            N.push_back(t);
                        }
                        if (vac) break;
                    }
                    ri++;
                    if (vac) { R.vacuous = true; goto done; }
                    if (N.empty()) { ff.msg = "no order of the two overlapping operations explains the result: " + ff.msg; fail(R, ff, r.op); break; }
                    if (N.size() > 8) N.resize(8);
                    W = N;
                    last_done = r2.op;
                    R.stat["pairs"]++;
                    continue;
                }
            }
            for (auto& m : W) {
                if (o.inj.act == 'C') {
                    r.has_st = false;
                    bool app = o.k == APPEND;
                    auto hd = m.h.find({o.th, o.h});
                    if (o.k == WRITE && hd != m.h.end() && (hd->second.flags & O_APPEND)) app = true;
                    if (app) { vac = true; break; }
                    Op cmd;
                    cmd.k = CMD;
                    cmd.text = o.inj.cmd;
                    for (int ord = 0; ord < 2; ord++) {
                        Model t = m;
                        Exp e, ec;
                        if (ord == 0) { ec = t.apply(cmd, r.op); e = t.apply(o, r.op); }
                        else { e = t.apply(o, r.op); ec = t.apply(cmd, r.op); }
                        if (t.invalid) { vac = true; break; }
                        if (e.crash) { vac = true; break; }
                        Fail x;
                        bool wcl = ec.cleared;
                        Exp e2 = e;
                        merge(e2, ec);
                        if (!t.check(o, e2, r, x)) { reject(x); continue; }
                        if (r.has_snap && !t.check_snap(r.snap, e2, x, wcl)) { reject(x); continue; }
                        N.push_back(t);
                    }
                    if (vac) break;
                    continue;
                }
                if ((o.inj.act == 'E' || o.inj.act == 'S') && r.fired) {
                    Model t = m;
                    bool handled;
                    Fail x;
                    if (!check_uncertain(t, o, r, x, handled) || (!t.invalid && !check_injected(t, o, r.op, r, x))) { reject(x); continue; }
                    if (t.invalid) { vac = true; break; }
                    N.push_back(t);
                    continue;
                }
                Model& t = m;
                Fail x;
                bool handled;
                if (!check_uncertain(t, o, r, x, handled)) { reject(x); continue; }
                if (t.invalid) { vac = true; break; }
                if (handled) {
                    Exp none;
                    if (r.has_snap && !t.check_snap(r.snap, none, x, false)) { reject(x); continue; }
                    N.push_back(std::move(t));
                    continue;
                }
                Exp e = t.apply(o, r.op);
                if (t.invalid) { vac = true; break; }
                if (e.crash) {
                    if (mask & M_CRASH) { reject(mk("CRASH", op_to_text(o) + ": a fault asks for a crash here, yet the operation completed with " + std::to_string(r.ret))); continue; }
                    vac = true;
                    break;
                }
                if (!t.check(o, e, r, x)) { reject(x); continue; }
                if (r.has_snap && !t.check_snap(r.snap, e, x, e.cleared)) { reject(x); continue; }
                if (t.invalid) { vac = true; break; }
                if ((mask & M_LEAK) && c.opt.count("full_at") && c.opt.at("full_at") == r.op && r.has_snap) {
                    bool any = false;
                    for (auto& s : r.snap) if (s.second.type == 'f' && !s.second.data.empty()) any = true;
                    if (!any) { reject(mk("LEAK", op_to_text(o) + ": one block more than the configured cache size, yet nothing was written through")); continue; }
                    auto hd = t.h.find({o.th, o.h});
                    if (o.k == WRITE && hd != t.h.end()) {
                        string d = fill(o.seed, o.len), bad_;
                        for (auto& nm : t.names) {
                            auto s = r.snap.find(nm.first);
                            if (s == r.snap.end() || s->second.type != 'f') continue;
                            const string& g = s->second.data;
                            bool own = nm.second == hd->second.node;
                            if (c.cfg.evict && own && (i64)g.size() > o.off) bad_ = "eviction is on, yet the new block went straight to disk";
                            if (!c.cfg.evict && own && ((i64)g.size() != o.off + o.len || g.compare(o.off, o.len, d) != 0)) bad_ = "eviction is off, yet the new block was not written through";
                            if (!c.cfg.evict && !own && !g.empty()) bad_ = "eviction is off, yet cached blocks of " + nm.first + " were written";
                        }
                        if (!bad_.empty()) { reject(mk("LEAK", op_to_text(o) + ": one block more than the configured cache size: " + bad_)); continue; }
                    }
                }
                if ((mask & M_FD) && r.note.find("nfd=") != string::npos) {
                    i64 n = atoll(r.note.c_str() + r.note.find("nfd=") + 4);
                    for (auto& hh : t.h) if (hh.second.open) n--;
                    if (fdbase < 0) fdbase = n;
                    if (n != fdbase) { reject(mk("FD", op_to_text(o) + ": " + std::to_string(n - fdbase) + " file descriptor(s) leaked")); continue; }
                }
                N.push_back(std::move(t));
            }
            if (vac) { R.vacuous = true; goto done; }
            if (N.empty()) { fail(R, ff, r.op); break; }
            if (N.size() > 8) N.resize(8);
            W = N;
            if (r.op > last_done) last_done = r.op;
        }
        if (R.fail) break;
        // ---- how the session ended
        string err = slurp(base + "/stderr", 4000);
        for (auto& ch : err) if (ch == '\n') ch = ' ';
        if (err.size() > 600) err.resize(600);
        if (d.hang) {
            if (d.why == "timeout") { R.inconclusive = true; break; }
            fail(R, mk("HANG", (cur >= 0 ? op_to_text(c.ops[cur]) + ": " : string()) + d.why), cur);
            break;
        }
        if (WIFEXITED(d.status)) {
            int code = WEXITSTATUS(d.status);
            if (code == 77) {
                if (err.find("fifo missing") != string::npos || err.find("worker") != string::npos) fail(R, mk("INIT", err), cur);
                else R.inconclusive = true;
                break;
            }
            if (code == 78) { fail(R, mk("DEATH", "LazyFS did not start: " + err), cur); break; }
            if (code != 0) { fail(R, mk("DEATH", "process exited with " + std::to_string(code) + " during " + (cur >= 0 ? op_to_text(c.ops[cur]) : "start") + ": " + err), cur); break; }
            start = (cur >= 0 && c.ops[cur].k == REMOUNT) ? cur + 1 : c.ops.size();
            for (auto& m : W) { m.session_end(); }
            Snap s = snapshot(root);
            vector<Model> N;
            Fail ff;
            for (auto& m : W) {
                Exp none;
                Fail x;
                if (m.check_snap(s, none, x, true)) N.push_back(m);
                else ff = x;
            }
            if (N.empty()) { fail(R, ff, cur); break; }
            W = N;
        } else {
            int sig = WTERMSIG(d.status);
            if (sig != SIGKILL || cur < 0) {
                fail(R, mk("DEATH", "process died with signal " + std::to_string(sig) + " during " + (cur >= 0 ? op_to_text(c.ops[cur]) : "start") + ": " + err), cur);
                break;
            }
            const Op& o = c.ops[cur];
            start = cur + 1;
            Snap s = snapshot(root);
            vector<Model> N;
            Fail ff;
            bool vac = false;
            bool completed = last_done >= cur; // died after the record was written
            for (auto& m : W) {
                Fail x;
                if (o.k == KILL) {
                    Model t = m;
                    t.session_end();
                    Exp none;
                    if (t.check_snap(s, none, x, true)) N.push_back(t);
                    else ff = x;
                    continue;
                }
                if ((o.inj.act == 'K' || o.inj.act == 'k') && shm->inj_fired > 0) {
                    Model a = m, b = m, out;
                    Exp e = b.apply(o, cur);
                    if (b.invalid || b.stat["hide"] != a.stat["hide"] || e.crash) { vac = true; break; }
                    set<int> wb;
                    if (o.k == FSYNC || o.k == FDATASYNC) { if (e.node >= 0) wb.insert(e.node); }
                    if (o.k == CMD) for (auto& n : b.names) if (b.nodes[n.second].type == 'f') wb.insert(n.second);
                    if (kill_ok(a, b, true, wb, s, x, out)) {
                        Exp none;
                        unsigned keep = out.mask;
                        out.mask &= ~(unsigned)(M_CLEAR | M_DUR);
                        if (out.check_snap(s, none, x, true)) { out.mask = keep; N.push_back(out); }
                        else ff = x;
                    } else ff = x;
                    R.stat["killed"]++;
                    continue;
                }
                Model t = m;
                Exp e;
                if (!completed) e = t.apply(o, cur);
                if (t.invalid) { vac = true; break; }
                if (completed || !e.crash) {
                    ff = mk("CRASH", op_to_text(o) + ": the process was killed although no fault asked for it");
                    continue;
                }
                R.stat["crashes"]++;
                if ((mask & M_REPORT) && c.cfg.logfile && !e.at_crash.empty()) {
                    string l = slurp(base + "/lfs.log");
                    size_t p = l.rfind("Triggered fault condition"), q = p == string::npos ? p : l.find("report generated", p);
                    if (q != string::npos) {
                        R.stat["crashreport"]++;
                        if (!t.check_report(l.substr(q), e.at_crash[0], op_to_text(o) + ": report at the crash", x)) { ff = x; continue; }
                    }
                }
                t.session_end();
                Exp none;
                if (t.check_snap(s, none, x, true)) N.push_back(t);
                else ff = x;
            }
            if (vac) { R.vacuous = true; goto done; }
            if (N.empty()) { fail(R, ff, cur); break; }
            W = N;
        }
        if ((mask & M_LOG) && c.cfg.logfile && W.size() == 1) {
            Fail x;
            if (!check_log(c, W[0].log, slurp(base + "/lfs.log"), x)) { fail(R, x, cur); break; }
        }
        if ((mask & M_CMD) && c.opt.count("stdout") && !c.faults.empty()) {
            string so = slurp(base + "/stdout");
            bool rep = so.find("[error]") != string::npos;
            if (W[0].cfg_invalid > 0 && !rep) { fail(R, mk("CMD", "invalid configured fault not reported"), cur); break; }
            if (W[0].cfg_invalid == 0 && rep) { fail(R, mk("CMD", "valid configured faults reported as erroneous: " + so.substr(so.find("[error]"), 200)), cur); break; }
        }
    }
done:
    for (auto& x : W[0].stat) R.stat[x.first] += x.second;
    return R;
}
