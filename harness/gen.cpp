// Case generators. Every case is a pure function of (profile, seed, tier). A dry-run of the reference
// model keeps the generated operations applicable and tells how large the cache has to be.
#include "run.hpp"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>

namespace {
typedef vector<std::pair<K, int>> W;

struct G {
    Rng r;
    Case& c;
    Model m;
    bool deep;
    int maxblk = 8;
    i64 bs = 16;
    i64 peak = 1;                 // most blocks that can be cached at once
    map<int, i64> blks;           // most blocks a node ever had
    vector<string> fn = {"fA", "fB", "fC.txt", "dA/fA", "dA/fB", "dB/dC/fD"};
    vector<string> dn = {"dA", "dB", "dB/dC", "dD", "dA/dE"};
    bool hi = false;              // files begin with a large hole
    bool no_hide = false;         // never unlink / replace names that are open
    bool no_symlink_ops = true;
    int th = 0;

    G(Case& cc, u64 seed, bool d) : r(seed), c(cc), deep(d) {}

    void geometry(bool small = false) {
        static const vector<int> B = {1, 2, 3, 4, 8, 10, 16, 16, 32, 64, 512, 4096};
        static const vector<int> Bs = {3, 4, 8, 10, 16};
        static const vector<int> P = {1, 1, 1, 2, 4};
        c.cfg.bs = r.pick(small ? Bs : B);
        c.cfg.bpp = r.chance(6) ? r.pick(vector<int>{3, 8, 17, 32}) : r.pick(P);
        c.cfg.evict = r.chance(30);
        bs = c.cfg.bs;
        maxblk = r.range(3, bs >= 512 ? 6 : 12);
        if (bs <= 16 && r.chance(8)) maxblk = r.range(20, 70);
    }
    // far offsets: the files begin with a hole that ends near 2 GiB, 4 GiB or further out
    void far(int pct) {
        if (bs < 16 || !r.chance(pct)) return;
        static const vector<i64> at = {1LL << 31, 1LL << 32, 3LL << 30, 5LL << 30, 1LL << 33};
        i64 h = r.pick(at) / bs * bs - bs * r.range(0, maxblk + 2);
        c.opt["hi"] = h;
        hi = true;
    }
    void start() {
        // the initial tree as a snapshot, for the dry run
        Snap s;
        u64 ino = 1;
        for (auto& e : c.init) {
            Ent x;
            x.type = e.type == 'h' ? 'f' : e.type;
            x.ino = ino++;
            x.mode = e.type == 'd' ? 0755 : 0644;
            x.nlink = 1; x.uid = x.gid = 0; x.mtime = x.atime = 0; x.size = e.len;
            if (e.type == 'f') x.data = fill(e.seed, e.len);
            if (e.type == 'l') x.data = e.q;
            if (e.type == 'h') {
                x = s[e.q];
                x.nlink = 2;
                s[e.q].nlink = 2;
            }
            s[e.p] = x;
        }
        m.mask = 0;
        m.init(c, "/r", s);
        m.session_start();
    }
    // typical starting tree
    void tree(int nfiles = 2) {
        if (hi) nfiles = std::max(nfiles, 2);
        for (auto d : {"dA", "dB", "dB/dC"}) { InitEnt e; e.type = 'd'; e.p = d; c.init.push_back(e); }
        if (r.chance(35)) { // names that begin with, end with or contain each other, hidden ones, format characters
            static const vector<string> X = {".fH", "dA/.fX", "fAB", "fA.tmp", "dAB/fA", "f{}%s", "dA/fAB", "xfA", ".fuseX", "fA~", "dB/fA"};
            int n = r.range(1, 4);
            bool dab = false;
            for (int i = 0; i < n; i++) {
                string x = r.pick(X);
                if (std::count(fn.begin(), fn.end(), x)) continue;
                if (x == "dAB/fA") dab = true;
                fn.push_back(x);
            }
            if (dab) { InitEnt e; e.type = 'd'; e.p = "dAB"; c.init.push_back(e); dn.push_back("dAB"); }
        }
        if (r.chance(12)) { // many, deep or long names
            int k = r.range(0, 2);
            if (k == 0) for (int i = r.range(6, 30); i > 0; i--) fn.push_back((r.chance(50) ? "wN" : "dB/wN") + std::to_string(i));
            if (k == 1) {
                string d = "dA";
                for (auto x : {"dE", "dF", "dG", "dH", "dI"}) { d += string("/") + x; InitEnt e; e.type = 'd'; e.p = d; c.init.push_back(e); fn.push_back(d + "/fQ"); }
                dn.push_back("dA/dE/dF");
                fn.push_back(d + "/fR");
            }
            if (k == 2) {
                fn.push_back(string(r.range(60, 250), 'n'));
                fn.push_back("dA/" + string(r.range(60, 250), 'o'));
                fn.push_back("dA/" + string(r.range(60, 200), 'o') + "p");
            }
            if (nfiles && k == 0) nfiles += r.range(0, 12);
        }
        for (int i = 0; i < nfiles; i++) {
            InitEnt e;
            e.p = fn[r.range(0, fn.size() - 1)];
            bool dup = false;
            for (auto& x : c.init) if (x.p == e.p) dup = true;
            if (dup) continue;
            e.len = size_pick();
            e.seed = r.range(1, 1 << 30);
            c.init.push_back(e);
            if (r.chance(12)) { // a file that already has two names
                InitEnt h;
                h.type = 'h';
                h.p = fn[r.range(0, fn.size() - 1)];
                h.q = e.p;
                for (auto& x : c.init) if (x.p == h.p) h.type = 0;
                if (h.type) c.init.push_back(h);
            }
        }
    }
    i64 cap() const { return maxblk * bs; }
    i64 size_pick() {
        switch (r.range(0, 4)) {
        case 0: return 0;
        case 1: return r.range(1, cap());
        case 2: return bs * r.range(1, maxblk);
        case 3: return std::max<i64>(0, bs * r.range(1, maxblk) + r.range(-1, 1));
        default: return r.range(1, 2 * bs);
        }
    }
    i64 pos(i64 size) {
        i64 p;
        switch (r.range(0, 7)) {
        case 0: p = 0; break;
        case 1: p = size; break;
        case 2: p = bs * r.range(0, maxblk) + r.range(-1, 1); break;
        case 3: p = size + r.range(-3, 3); break;
        case 4: p = r.range(0, size); break;
        case 5: p = size + r.range(1, 2 * bs + 1); break;
        case 6: p = bs * r.range(0, size / bs); break;
        default: p = r.range(0, cap());
        }
        return std::max<i64>(0, std::min(p, cap()));
    }
    i64 len() {
        switch (r.range(0, 7)) {
        case 0: return 1;
        case 1: return std::max<i64>(1, bs - 1);
        case 2: return bs;
        case 3: return bs + 1;
        case 4: return 2 * bs;
        case 5: return r.range(1, bs);
        case 6: return r.range(1, 4 * bs);
        default: return bs * r.range(1, 3);
        }
    }
    vector<int> handles(bool rd, bool wr) {
        vector<int> v;
        for (auto& x : m.h) {
            if (x.first.first != th || !x.second.open || x.first.second >= 12) continue;
            int am = x.second.flags & O_ACCMODE;
            if (rd && am == O_WRONLY) continue;
            if (wr && am == O_RDONLY) continue;
            v.push_back(x.first.second);
        }
        return v;
    }
    int free_slot() {
        vector<int> v;
        for (int i = 0; i < 6; i++) if (!m.h.count({th, i})) v.push_back(i);
        return v.empty() ? -1 : v[r.range(0, v.size() - 1)];
    }
    i64 hsize(int h) {
        auto i = m.h.find({th, h});
        if (i == m.h.end() || i->second.node < 0 || i->second.node >= (int)m.nodes.size()) return 0;
        return m.nodes[i->second.node].cur.size();
    }
    bool hidden(const string& p) { return p.find(".fuse_hidden") != string::npos; }
    vector<string> files() {
        vector<string> v;
        for (auto& x : m.names) if (m.nodes[x.second].type == 'f' && !hidden(x.first)) v.push_back(x.first);
        return v;
    }
    vector<string> dirs() {
        vector<string> v;
        for (auto& x : m.names) if (!x.first.empty() && m.nodes[x.second].type == 'd') v.push_back(x.first);
        return v;
    }
    vector<string> all() {
        vector<string> v;
        for (auto& x : m.names) if (!x.first.empty() && !hidden(x.first)) v.push_back(x.first);
        return v;
    }
    string fname() { // an existing file, or any candidate name
        auto v = files();
        if (!v.empty() && r.chance(65)) return r.pick(v);
        return r.pick(fn);
    }
    string aname() {
        auto v = all();
        if (!v.empty() && r.chance(60)) return r.pick(v);
        return r.chance(60) ? r.pick(fn) : r.pick(dn);
    }
    bool open_any(const string& p) {
        for (auto& x : m.h) if (x.second.open && (x.second.path == p || x.second.path.compare(0, p.size() + 1, p + "/") == 0)) return true;
        return false;
    }

    // add an operation if it applies; keeps the dry run in step
    bool push(const Op& o) {
        Op x = o;
        x.th = th;
        if (x.k == REMOUNT || x.k == KILL) {
            c.ops.push_back(x);
            m.session_end();
            m.session_start();
            return true;
        }
        Model save = m;
        Exp e = m.apply(x, c.ops.size());
        if (e.ret == RET_SKIP || m.invalid) { m = save; return false; }
        if (x.inj.act == 'C') {
            Op cm;
            cm.k = CMD;
            cm.text = x.inj.cmd;
            m.apply(cm, 0);
        }
        c.ops.push_back(x);
        for (auto& n : m.nodes) // recovered contents are what the disk holds
            if (e.cleared && n.type == 'f') {}
        if (e.crash || e.fault_fired || x.inj.act) loose = true; // the peak below is not the real one
        if (e.crash) { m.session_end(); m.session_start(); }
        i64 tot = 0;
        set<int> done;
        i64 B = m.bs();
        for (auto& n : m.names) {
            Node& y = m.nodes[n.second];
            if (y.type != 'f' || !done.insert(n.second).second) continue;
            i64 b = ((i64)std::max(y.cur.size(), y.dur.size()) + B - 1) / B + 1;
            blks[n.second] = std::max(blks[n.second], b);
            set<i64> s = y.cblk;
            s.insert(y.ublk.begin(), y.ublk.end());
            s.insert(y.mblk.begin(), y.mblk.end());
            tot += s.size() + 1;
        }
        peak = std::max(peak, tot);
        return true;
    }
    bool loose = false;
    void roomy(bool tight = true) { // the cache never fills up
        i64 sum = 8;
        for (auto& b : blks) sum += b.second + 1;
        c.opt["roomy"] = 1;
        if (tight && !loose && r.chance(30)) c.cfg.pages = peak + 2;
        else c.cfg.pages = sum * 2 + r.range(0, 20);
    }
    Op mk(K k) { Op o; o.k = k; return o; }
    bool cmd(const string& s) { Op o = mk(CMD); o.text = s + "\n"; return push(o); }
    bool open(const string& p, int flags, int slot = -1) {
        Op o = mk(OPEN);
        o.h = slot >= 0 ? slot : free_slot();
        if (o.h < 0) return false;
        o.p = p;
        o.flags = flags;
        return push(o);
    }

    bool gen(K k, Op& o) {
        o = mk(k);
        switch (k) {
        case OPEN: {
            o.h = free_slot();
            if (o.h < 0) return false;
            o.p = fname();
            int am = r.chance(78) ? O_RDWR : r.chance(50) ? O_RDONLY : O_WRONLY;
            o.flags = am;
            if (hi) { o.flags = am | (am != O_RDONLY && r.chance(8) ? O_APPEND : 0); return true; }
            if (r.chance(75)) o.flags |= O_CREAT;
            if (am != O_RDONLY && r.chance(10)) o.flags |= O_TRUNC;
            if (am != O_RDONLY && r.chance(8)) o.flags |= O_APPEND;
            if ((o.flags & O_CREAT) && r.chance(4)) o.flags |= O_EXCL;
            if (r.chance(5)) o.flags |= r.pick(vector<int>{O_DIRECT, O_DIRECT, O_SYNC, O_DSYNC, O_NOATIME, O_CLOEXEC, O_NONBLOCK});
            if (r.chance(15)) { static const vector<int> M = {0600, 0666, 0640, 0755, 0777}; o.len = r.pick(M); }
            return true;
        }
        case CLOSE: {
            auto v = handles(false, false);
            if (v.empty()) return false;
            o.h = r.pick(v);
            return true;
        }
        case READ: {
            auto v = handles(true, false);
            if (v.empty()) return false;
            o.h = r.pick(v);
            o.off = pos(hsize(o.h));
            o.len = r.chance(25) ? hsize(o.h) + r.range(1, bs + 2) : len();
            if (r.chance(20)) o.off = 0;
            return true;
        }
        case WRITE: {
            auto v = handles(false, true);
            if (v.empty()) return false;
            o.h = r.pick(v);
            o.off = pos(hsize(o.h));
            o.len = std::min(len(), cap() + 2 * bs - o.off);
            if (o.len < 1) o.len = 1;
            o.seed = r.range(1, 1 << 30);
            if ((m.h[{th, o.h}].flags & O_APPEND) && hsize(o.h) > cap()) return false;
            return true;
        }
        case APPEND: {
            auto v = handles(false, true);
            if (v.empty()) return false;
            o.h = r.pick(v);
            if (hsize(o.h) > cap()) return false;
            o.len = len();
            o.seed = r.range(1, 1 << 30);
            return true;
        }
        case FTRUNC: {
            auto v = handles(false, true);
            if (v.empty()) return false;
            o.h = r.pick(v);
            o.len = r.chance(15) ? 0 : pos(hsize(o.h));
            return true;
        }
        case TRUNC: {
            o.p = fname();
            int n = m.node_at(o.p);
            o.len = r.chance(15) ? 0 : pos(n >= 0 ? m.nodes[n].cur.size() : 0);
            return true;
        }
        case FSYNC: case FDATASYNC: case FSTAT: {
            auto v = handles(false, false);
            if (v.empty()) return false;
            o.h = r.pick(v);
            return true;
        }
        case STAT: o.p = aname(); return true;
        case UNLINK:
            o.p = fname();
            if (no_hide && open_any(o.p)) return false;
            return true;
        case RENAME:
            if (r.chance(70)) { o.p = fname(); o.q = r.chance(50) ? fname() : r.pick(fn); }
            else { o.p = aname(); o.q = aname(); }
            if (r.chance(12)) {
                vector<string> ls;
                for (auto& x : m.names) if (m.nodes[x.second].type == 'l') ls.push_back(x.first);
                if (!ls.empty()) o.p = r.pick(ls);
            } else if (r.chance(16)) { // a directory with files in it
                vector<string> ds;
                for (auto& d : dirs()) for (auto& x : m.names) if (x.first.compare(0, d.size() + 1, d + "/") == 0 && m.nodes[x.second].type == 'f') { ds.push_back(d); break; }
                if (!ds.empty()) { o.p = r.pick(ds); if (r.chance(70)) o.q = r.pick(dn); }
            }
            if (no_hide && open_any(o.q)) return false;
            if (r.chance(3)) o.flags = 1;
            if (r.chance(5)) { int a = m.node_at(o.p), b = m.node_at(o.q); if (a >= 0 && o.p != o.q && m.nodes[a].type != 'd' && (b < 0 || m.nodes[b].type != 'd')) o.flags = r.chance(70) ? 1 : 2; }
            return true;
        case LINK: o.p = fname(); o.q = r.chance(80) ? r.pick(fn) : aname(); return true;
        case SYMLINK: {
            o.q = aname();
            if (r.chance(25)) {
                static const vector<string> T = {"xY/zQ", ".", "dA/", "..", "dA//fA", "x", "a b", "{}", "%s"};
                o.p = r.chance(8) ? string(r.pick(vector<int>{255, 256, 1000, 4094}), 'k') : r.pick(T);
                return true;
            }
            o.p = r.chance(80) ? fname() : aname();
            for (char ch : o.q) if (ch == '/') o.p = "../" + o.p;
            return true;
        }
        case READLINK: o.p = aname(); return true;
        case MKDIR: { static const vector<int> M = {0700, 0777, 01777, 0711, 01755, 0750}; o.p = r.pick(dn); if (r.chance(50)) o.flags = r.pick(M); return true; }
        case RMDIR: o.p = r.chance(80) ? r.pick(dn) : aname(); return true;
        case CHMOD: {
            static const vector<int> M = {0600, 0644, 0666, 0755, 0777, 0640, 01777, 0711, 01644};
            o.p = aname();
            o.flags = r.pick(M);
            return true;
        }
        case CHOWN:
            o.p = aname();
            o.t1 = r.chance(30) ? -1 : r.range(0, 3) * 500;
            o.t2 = r.chance(30) ? -1 : r.range(0, 3) * 500;
            return true;
        case UTIMENS: case FUTIMENS: {
            if (k == FUTIMENS) {
                auto v = handles(false, false);
                if (v.empty()) return false;
                o.h = r.pick(v);
            } else o.p = aname();
            o.t1 = r.range(1, 1900000000) * 1000000000 + r.range(0, 999999) * 1000;
            o.t2 = r.range(1, 1900000000) * 1000000000 + r.range(0, 999999) * 1000;
            if (r.chance(20)) o.flags = r.chance(50) ? 1 : 2;
            else if (k == UTIMENS && r.chance(10)) o.flags = r.chance(50) ? 4 : 8;
            return true;
        }
        case ACCESS: o.p = aname(); o.flags = r.range(0, 7); return true;
        case READDIR: {
            auto v = dirs();
            v.push_back("");
            o.p = r.chance(90) ? r.pick(v) : aname();
            return true;
        }
        case LSEEK: {
            auto v = handles(false, false);
            if (v.empty()) return false;
            o.h = r.pick(v);
            o.off = pos(hsize(o.h));
            o.flags = r.chance(50) ? SEEK_DATA : SEEK_HOLE;
            return true;
        }
        default: return false;
        }
    }
    K pickk(const W& w) {
        int s = 0;
        for (auto& x : w) s += x.second;
        int v = r.range(0, s - 1);
        for (auto& x : w) { v -= x.second; if (v < 0) return x.first; }
        return STAT;
    }
    bool step(const W& w) {
        for (int t = 0; t < 12; t++) {
            K k = pickk(w);
            if (k == CMD) return cmd(r.chance(60) ? "lazyfs::clear-cache" : "lazyfs::cache-checkpoint");
            if (k == REMOUNT || k == KILL) return push(mk(k));
            Op o;
            if (!gen(k, o)) { if (gen(OPEN, o)) o.flags |= hi ? 0 : O_CREAT; else continue; }
            if (push(o)) return true;
        }
        return false;
    }
    void steps(const W& w, int n) { for (int i = 0; i < n; i++) step(w); }
    // look at everything once more
    void final_look() {
        for (int h : handles(true, false)) {
            if (!m.h.count({th, h})) continue; // the read before fired a crash
            Op o = mk(READ);
            o.h = h;
            o.len = hsize(h) + bs + 1;
            push(o);
        }
        for (auto& f : files()) {
            open(f, O_RDONLY, 15);
            Op s = mk(FSTAT);
            s.h = 15;
            push(s);
            Op o = mk(READ);
            o.h = 15;
            o.len = m.nodes[m.node_at(f)].cur.size() + bs + 1;
            push(o);
            Op cl = mk(CLOSE);
            cl.h = 15;
            push(cl);
        }
    }
    int nops(int lo, int hi) { return deep ? r.range(lo, hi * 3) : r.range(lo, hi); }
};
const W DATA = {{OPEN, 14}, {CLOSE, 5}, {READ, 20}, {WRITE, 26}, {APPEND, 6}, {FTRUNC, 5}, {TRUNC, 4}, {FSYNC, 5}, {FDATASYNC, 2}, {FSTAT, 4}, {STAT, 3}};
W plus(W a, const W& b) {
    for (auto& x : b) {
        bool f = false;
        for (auto& y : a) if (y.first == x.first) { y.second = x.second; f = true; }
        if (!f) a.push_back(x);
    }
    return a;
}

// ---- strict data profiles -----------------------------------------------------------------------------
// a hard-linked file of which only one name is used since the last clear, and then deleted
void G_orphan(G& g) {
    string p, q;
    for (int t = 0; t < 30; t++) {
        p = g.fname(); q = g.r.pick(g.fn);
        int n = g.m.node_at(p);
        if (n >= 0 && g.m.nodes[n].type == 'f' && g.m.node_at(q) < 0 && (q.find('/') == string::npos || g.m.node_at(q.substr(0, q.rfind('/'))) >= 0)) break;
        p = "";
    }
    if (p.empty()) return;
    for (int h : g.handles(false, false)) { Op o = g.mk(CLOSE); o.h = h; g.push(o); }
    Op l = g.mk(LINK);
    l.p = p; l.q = q;
    if (!g.push(l)) return;
    if (g.r.chance(80)) g.cmd("lazyfs::clear-cache");
    else g.push(g.mk(REMOUNT));
    if (g.r.chance(50)) std::swap(p, q);
    if (!g.open(p, O_RDWR, 3)) return;
    for (int i = g.r.range(1, 3); i > 0; i--) {
        Op o;
        if (g.gen(g.r.chance(70) ? WRITE : g.r.chance(50) ? FTRUNC : FSYNC, o)) g.push(o);
    }
    Op c = g.mk(CLOSE);
    c.h = 3;
    g.push(c);
    Op u = g.mk(UNLINK);
    u.p = p;
    g.push(u);
    if (g.r.chance(30)) { Op o; if (g.gen(g.r.chance(50) ? RENAME : STAT, o)) g.push(o); }
    if (g.r.chance(70)) g.cmd("lazyfs::clear-cache");
    if (!g.open(q, O_RDWR, 3)) return;
    if (g.r.chance(70)) { Op o = g.mk(g.r.chance(70) ? FSYNC : FDATASYNC); o.h = 3; g.push(o); }
    else if (g.r.chance(50)) g.cmd("lazyfs::clear-cache");
    Op r = g.mk(READ);
    r.h = 3; r.len = g.hsize(3) + 5;
    g.push(r);
    if (g.r.chance(60)) g.push(c);
}
void p_rw(G& g) {
    g.geometry();
    if (g.r.chance(8)) g.c.cfg.completed = true;
    g.far(12);
    g.tree(g.r.range(0, 3));
    g.start();
    W w = plus(DATA, {{LSEEK, 4}, {LINK, 2}, {RENAME, 2}, {UNLINK, 1}, {CMD, 3}, {REMOUNT, 1}});
    if (g.r.chance(40)) w = plus(w, {{FTRUNC, 14}, {TRUNC, 6}, {READ, 25}});
    g.steps(w, g.nops(8, 45));
    g.final_look();
    g.roomy();
}
// unsynced data dropped by clears, kills, remounts
void p_clear(G& g) {
    g.geometry();
    g.far(12);
    g.tree(g.r.range(0, 3));
    g.start();
    W w = plus(DATA, {{SYMLINK, 1}, {FSYNC, 10}, {FDATASYNC, 5}, {LINK, 4}, {RENAME, 3}, {UNLINK, 4}});
    int rounds = g.r.range(1, 4);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.nops(3, 14));
        int x = g.r.range(0, 99);
        if (x < 60) g.cmd("lazyfs::clear-cache");
        else if (x < 80) g.push(g.mk(KILL));
        else g.push(g.mk(REMOUNT));
        if (g.r.chance(50)) g.final_look();
        if (g.r.chance(6)) G_orphan(g);
        if (g.r.chance(30)) {
            if (g.r.chance(60)) for (int i = 0; i < 3; i++) g.open(g.fname(), O_RDWR);
            for (int h : g.handles(false, false)) { Op o = g.mk(g.r.chance(80) ? FSYNC : FDATASYNC); o.h = h; g.push(o); }
        }
    }
    g.steps(w, g.r.range(0, 6));
    g.final_look();
    if (g.r.chance(50)) g.c.cfg.completed = true;
    g.roomy();
}
void p_sync(G& g) {
    g.geometry();
    g.far(12);
    g.tree(g.r.range(0, 3));
    g.start();
    W w = plus(DATA, {{SYMLINK, 1}, {FSYNC, 14}, {FDATASYNC, 8}, {WRITE, 30}, {FTRUNC, 9}, {TRUNC, 6}, {LINK, 4}, {RENAME, 4}, {UNLINK, 2}, {CMD, 3}});
    g.steps(w, g.nops(8, 45));
    for (int h : g.handles(false, false)) { Op o = g.mk(FSYNC); o.h = h; g.push(o); }
    if (g.r.chance(60)) g.cmd("lazyfs::clear-cache");
    g.final_look();
    g.roomy();
}
void p_leak(G& g) {
    g.geometry();
    g.far(6);
    g.tree(g.r.range(1, 4));
    g.start();
    W w = plus(DATA, {{SYMLINK, 2}, {FSYNC, 3}, {WRITE, 30}, {FTRUNC, 8}, {TRUNC, 6}, {LINK, 4}, {RENAME, 6}, {UNLINK, 4}, {CLOSE, 8}, {CMD, 1}});
    g.steps(w, g.nops(8, 45));
    g.roomy();
}
void p_ckpt(G& g) {
    g.geometry();
    g.far(6);
    g.tree(g.r.range(0, 3));
    g.start();
    W w = plus(DATA, {{SYMLINK, 3}, {LINK, 6}, {RENAME, 8}, {UNLINK, 5}, {FTRUNC, 8}, {TRUNC, 6}});
    int rounds = g.r.range(1, 3);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.nops(4, 20));
        if (g.r.chance(6)) G_orphan(g);
        g.cmd("lazyfs::cache-checkpoint");
        if (g.r.chance(50)) g.final_look();
        if (g.r.chance(50)) { if (g.r.chance(70)) g.cmd("lazyfs::clear-cache"); else g.push(g.mk(KILL)); }
    }
    g.final_look();
    g.roomy();
}
void p_ns(G& g) {
    g.geometry(g.r.chance(60));
    g.far(6);
    g.tree(g.r.range(1, 4));
    g.start();
    W w = plus(DATA, {{SYMLINK, 3}, {RENAME, 18}, {LINK, 10}, {UNLINK, 12}, {MKDIR, 3}, {RMDIR, 3}, {FSYNC, 5}, {CMD, 4}, {CLOSE, 8}, {STAT, 4}, {REMOUNT, 1}});
    g.steps(w, g.nops(10, 45));
    if (g.r.chance(8)) G_orphan(g);
    g.final_look();
    if (g.r.chance(70)) {
        for (int h : g.handles(false, false)) { Op o = g.mk(FSYNC); o.h = h; g.push(o); }
        g.cmd("lazyfs::clear-cache");
        g.final_look();
    }
    g.roomy();
}
// names that fail: injected failures of the underlying rename / link / unlink
void p_nsfail(G& g) {
    g.no_hide = true;
    g.geometry(true);
    g.tree(g.r.range(1, 4));
    g.start();
    W w = plus(DATA, {{CMD, 3}});
    int rounds = g.r.range(1, 4);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.nops(3, 10));
        for (int t = 0; t < 10; t++) {
            Op o;
            K k = g.pickk({{RENAME, 5}, {LINK, 3}, {UNLINK, 4}});
            if (!g.gen(k, o)) continue;
            Model t2 = g.m;
            Exp e = t2.apply(o, g.c.ops.size());
            if (e.ret != 0) continue;
            o.inj.act = 'E';
            o.inj.cls = "ns";
            o.inj.err = g.r.chance(50) ? EIO : ENOSPC;
            // the operation fails: it is not applied to the dry run
            g.c.ops.push_back(o);
            break;
        }
        g.steps(w, g.r.range(1, 5));
    }
    g.final_look();
    g.cmd("lazyfs::cache-checkpoint");
    g.cmd("lazyfs::clear-cache");
    g.final_look();
    g.roomy();
}
void p_attr(G& g) {
    g.geometry(g.r.chance(60));
    g.c.opt["mtime"] = 1;
    g.tree(g.r.range(1, 4));
    g.start();
    W w = plus(DATA, {{STAT, 16}, {FSTAT, 12}, {CHMOD, 6}, {CHOWN, 4}, {UTIMENS, 10}, {FUTIMENS, 5}, {LINK, 5}, {RENAME, 5}, {UNLINK, 4}, {MKDIR, 2}, {CMD, 4}, {REMOUNT, 1}, {FSYNC, 8}, {READDIR, 4}});
    g.steps(w, g.nops(10, 50));
    for (auto& f : g.all()) { Op o = g.mk(STAT); o.p = f; g.push(o); }
    g.final_look();
    g.roomy();
}
void p_dirs(G& g) {
    g.geometry(true);
    g.tree(g.r.range(0, 3));
    if (g.r.chance(30)) { InitEnt e; e.type = 'l'; e.p = "lA"; e.q = "fA"; g.c.init.push_back(e); }
    g.start();
    g.fn.push_back("dD/fE");
    g.fn.push_back("lA");
    if (g.r.chance(30)) { string n(255, 'q'); g.fn.push_back(n); n += "q"; g.fn.push_back(n); }
    W w = {{OPEN, 10}, {CLOSE, 6}, {WRITE, 4}, {READ, 2}, {STAT, 6}, {UNLINK, 10}, {RENAME, 14}, {LINK, 8}, {SYMLINK, 6}, {READLINK, 5}, {MKDIR, 10}, {RMDIR, 8}, {CHMOD, 6}, {CHOWN, 4}, {ACCESS, 6}, {READDIR, 10}, {TRUNC, 2}, {UTIMENS, 2}, {CMD, 3}, {REMOUNT, 1}, {KILL, 1}};
    g.steps(w, g.nops(12, 60));
    auto d = g.dirs();
    d.push_back("");
    for (auto& x : d) { Op o = g.mk(READDIR); o.p = x; g.push(o); }
    g.roomy();
}
// an unprivileged user's mount: operations and the same operations on a plain directory, differential
void p_perm(G& g) {
    g.geometry(true);
    g.c.opt["perm"] = g.r.range(1, 1000000);
    g.c.opt["nosnap"] = 1;
    static const vector<string> D = {"dA", "dA/dB", "dC"}, F = {"fA", "dA/fB", "dA/dB/fC", "dC/fD", "fE"};
    auto ini = [&](char t, const string& p, const string& q) { InitEnt e; e.type = t; e.p = p; e.q = q; e.len = 5; g.c.init.push_back(e); };
    for (auto& d : D) ini('d', d, "");
    for (auto& f : F) if (g.r.chance(75)) ini('f', f, "");
    if (g.r.chance(40)) ini('h', "dC/hX", g.r.pick(F));
    if (g.r.chance(40)) ini('l', "lY", "fA");
    vector<string> A = D;
    A.insert(A.end(), F.begin(), F.end());
    for (auto x : {"dC/hX", "lY", "dC/nW", "dA/dB/nZ", "nV"}) A.push_back(x);
    static const vector<int> M = {0, 0100, 0200, 0300, 0400, 0444, 0500, 0555, 0600, 0644, 0700, 0755, 0777};
    int n = g.nops(8, 40);
    bool data = g.r.chance(60); // then nothing is dropped, as a plain directory never does
    for (int i = 0; i < n; i++) {
        K k = g.pickk({{OPEN, data ? 40 : 20}, {STAT, 4}, {UNLINK, 8}, {RENAME, 12}, {LINK, 8}, {SYMLINK, 5}, {READLINK, 3}, {MKDIR, 6}, {RMDIR, 5}, {CHMOD, 12}, {CHOWN, 5}, {UTIMENS, 6}, {ACCESS, 10}, {READDIR, 8}, {TRUNC, 8}, {CMD, 2}});
        Op o = g.mk(k);
        o.p = g.r.pick(A);
        switch (k) {
        case OPEN:
            o.h = 0;
            o.flags = g.r.range(0, 2);
            if (g.r.chance(40)) o.flags |= O_CREAT;
            if ((o.flags & O_CREAT) && g.r.chance(20)) o.flags |= O_EXCL;
            if ((o.flags & O_ACCMODE) && g.r.chance(25)) o.flags |= O_TRUNC;
            if (g.r.chance(50)) o.len = g.r.pick(vector<int>{0600, 0444, 0200, 0644, 0777});
            break;
        case RENAME: case LINK: case SYMLINK: o.q = g.r.pick(A); break;
        case MKDIR: o.flags = g.r.pick(vector<int>{0700, 0500, 0755, 0300, 0777}); break;
        case CHMOD: o.flags = g.r.pick(M); break;
        case CHOWN: o.t1 = g.r.pick(vector<int>{-1, 65534, 0, 1000}); o.t2 = g.r.pick(vector<int>{-1, 65534, 0}); break;
        case UTIMENS: o.t1 = o.t2 = 1000000000000000000ll; o.flags = g.r.pick(vector<int>{0, 1, 2, 12}); break;
        case ACCESS: o.flags = g.r.range(0, 7); break;
        case READDIR: if (g.r.chance(80)) o.p = g.r.chance(20) ? "" : g.r.pick(D); break;
        case TRUNC: if (data) o.len = g.r.chance(40) ? 0 : g.r.range(1, 40); break;
        case CMD: o.p = ""; o.text = !data && g.r.chance(50) ? "lazyfs::clear-cache\n" : "lazyfs::cache-checkpoint\n"; break;
        default: break;
        }
        g.c.ops.push_back(o);
        if (k == OPEN) {
            if (data)
                for (int j = g.r.range(0, 6); j > 0; j--) {
                    Op d = g.mk(g.pickk({{WRITE, 10}, {READ, 6}, {FTRUNC, 4}, {FSYNC, 6}, {FDATASYNC, 2}, {CHMOD, 3}}));
                    d.h = 0;
                    d.off = g.r.range(0, 40);
                    d.len = d.k == FTRUNC ? g.r.range(0, 60) : g.r.range(1, 30);
                    d.seed = g.r.range(1, 1 << 30);
                    if (d.k == CHMOD) { d.p = o.p; d.flags = g.r.pick(M); d.len = d.off = 0; }
                    g.c.ops.push_back(d);
                }
            Op c2 = g.mk(CLOSE);
            c2.h = 0;
            g.c.ops.push_back(c2);
        }
    }
}
// ---- full cache -------------------------------------------------------------------------------------------
void p_full(G& g) {
    g.geometry();
    g.c.opt["weak"] = 1;
    g.c.cfg.evict = g.r.chance(60);
    g.c.cfg.logfile = true;
    g.c.cfg.pages = g.r.range(1, 6);
    g.far(12);
    g.tree(g.r.range(0, 3));
    g.start();
    W w = plus(DATA, {{WRITE, 34}, {READ, 26}, {FSYNC, 7}, {FDATASYNC, 3}, {FTRUNC, 5}, {TRUNC, 4}, {LINK, 2}, {RENAME, 3}, {UNLINK, 2}, {CMD, 3}, {LSEEK, 2}, {REMOUNT, 1}, {KILL, 1}});
    int n = g.nops(10, 50);
    for (int i = 0; i < n; i++) {
        g.step(w);
        if (g.r.chance(6)) g.cmd("lazyfs::display-cache-usage");
        if (g.r.chance(2)) g.cmd("lazyfs::unsynced-data-report");
    }
    g.cmd("lazyfs::display-cache-usage");
    g.final_look();
    for (int h : g.handles(false, false)) { Op o = g.mk(FSYNC); o.h = h; g.push(o); }
    g.cmd("lazyfs::cache-checkpoint");
    g.cmd("lazyfs::clear-cache");
    g.final_look();
}
// ---- faults -----------------------------------------------------------------------------------------------
const vector<string> FOPS = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
bool multi(const string& o) { return o == "rename" || o == "link" || o == "symlink"; }
string plain_name(G& g) { // a name that is its own regex
    for (;;) { string n = g.r.pick(g.fn); if (n.find('{') == string::npos) return n; }
}
string rgx(G& g) {
    switch (g.r.range(0, 12)) {
    case 0: return "@ROOT@/" + plain_name(g);
    case 9: { string n = plain_name(g), m = plain_name(g); return n + "|" + m; }
    case 10: return "^@ROOT@/" + plain_name(g) + "$";
    case 11: return "f[AC]$|^@ROOT@/d";
    case 1: { string n = plain_name(g); size_t s = n.rfind('/'); return s == string::npos ? n : n.substr(s + 1); }
    case 2: return "f[AB]";
    case 3: return "d./f[A-D]";
    case 4: return "fC\\.txt";
    case 5: return "fZ";
    case 6: return "dA/.*";
    case 7: return "(fA|fB)";
    case 8: return "@ROOT@/dB.*";
    default: return "f[^A]";
    }
}
string crash_cmd(G& g) {
    string op = g.r.chance(25) ? "write" : g.r.chance(25) ? "rename" : g.r.pick(FOPS);
    vector<string> f = {"op=" + op, string("timing=") + (g.r.chance(50) ? "before" : "after")};
    if (multi(op)) {
        int x = g.r.range(0, 2);
        string a = rgx(g);
        if (op == "symlink" && g.r.chance(50)) a = g.r.chance(50) ? "fA" : "xY";
        if (x != 1) f.push_back("from_rgx=" + a);
        if (x != 0) f.push_back("to_rgx=" + rgx(g));
    } else f.push_back("from_rgx=" + rgx(g));
    for (size_t i = f.size() - 1; i > 0; i--) std::swap(f[i], f[g.r.range(0, i)]);
    string s = "lazyfs::crash";
    for (auto& x : f) s += "::" + x;
    return s;
}
void p_crash(G& g) {
    g.geometry(g.r.chance(70));
    g.no_hide = g.r.chance(50);
    g.tree(g.r.range(1, 4));
    if (g.r.chance(50)) g.c.cfg.logfile = true;
    g.start();
    W w = plus(DATA, {{RENAME, 12}, {LINK, 8}, {SYMLINK, 6}, {UNLINK, 8}, {ACCESS, 4}, {FTRUNC, 5}, {TRUNC, 5}, {FSYNC, 6}, {READ, 8}, {WRITE, 18}, {CMD, 1}});
    int rounds = g.r.range(1, 4);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.r.range(1, 6));
        int k = g.r.chance(8) ? g.r.range(3, 9) : g.r.range(1, 2);
        for (int j = 0; j < k; j++) g.cmd(crash_cmd(g));
        g.steps(w, g.nops(3, 16));
    }
    g.final_look();
    g.roomy();
}
vector<int> subset(G& g, int n, bool order) {
    vector<int> v;
    while (v.empty()) for (int i = 1; i <= n; i++) if (g.r.chance(50)) v.push_back(i);
    if (order) for (size_t i = v.size() - 1; i > 0; i--) std::swap(v[i], v[g.r.range(0, i)]);
    return v;
}
string csv(const vector<int>& v) {
    string s;
    for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
    return s;
}
// a torn-op fault whose byte split fits writes of wl bytes
KV torn_op(G& g, const string& file, i64 wl, bool match) {
    KV f;
    f["type"] = "torn-op";
    f["file"] = "@ROOT@/" + file;
    f["occurrence"] = std::to_string(g.r.chance(8) ? g.r.range(5, 12) : g.r.range(1, 4));
    int n;
    if (g.r.chance(50)) {
        n = g.r.chance(12) ? g.r.range(7, 15) : g.r.range(1, 6);
        f["parts"] = std::to_string(n);
    } else {
        n = g.r.range(1, std::min<i64>(g.r.chance(12) ? 14 : 4, wl));
        vector<int> cuts = {0, (int)wl};
        while ((int)cuts.size() < n + 1) { int x = g.r.range(1, wl - 1); if (!std::count(cuts.begin(), cuts.end(), x)) cuts.push_back(x); }
        std::sort(cuts.begin(), cuts.end());
        vector<int> b;
        for (size_t i = 1; i < cuts.size(); i++) b.push_back(cuts[i] - cuts[i - 1]);
        if (!match) b.back() += g.r.range(1, 3);
        f["parts_bytes"] = "[" + csv(b) + "]";
    }
    f["persist"] = "[" + csv(subset(g, n, true)) + "]";
    return f;
}
KV torn_seq(G& g, const string& file) {
    KV f;
    f["type"] = "torn-seq";
    f["op"] = "write";
    f["file"] = "@ROOT@/" + file;
    f["occurrence"] = std::to_string(g.r.chance(8) ? g.r.range(4, 11) : g.r.range(1, 3));
    f["persist"] = "[" + csv(subset(g, g.r.chance(10) ? g.r.range(5, 12) : g.r.range(2, 4), true)) + "]";
    return f;
}
string as_cmd(G& g, const KV& f) { // the same fault as a FIFO command
    vector<string> v;
    for (auto& kv : f) {
        if (kv.first == "type") continue;
        string x = kv.second;
        x.erase(std::remove_if(x.begin(), x.end(), [](char ch) { return ch == '[' || ch == ']' || ch == ' '; }), x.end());
        v.push_back(kv.first + "=" + x);
    }
    for (size_t i = v.size() - 1; i > 0; i--) std::swap(v[i], v[g.r.range(0, i)]);
    string s = "lazyfs::" + f.at("type");
    for (auto& x : v) s += "::" + x;
    return s;
}
string near(G& g, const string& n) { // a name easily taken for n
    string b = n.substr(n.rfind('/') == string::npos ? 0 : n.rfind('/') + 1);
    switch (g.r.range(0, 3)) {
    case 0: return n + "B";
    case 1: return b.size() > 2 ? n.substr(0, n.size() - 1) : n + ".x";
    case 2: return b == n ? "dA/" + b : b;
    default: return n.substr(0, n.size() - b.size()) + "x" + b;
    }
}
void p_torn(G& g, bool seq) {
    g.geometry(g.r.chance(70));
    g.no_hide = true;
    g.far(8);
    g.tree(g.r.range(1, 4));
    vector<string> names;
    for (auto& e : g.c.init) if (e.type == 'f') names.push_back(e.p);
    if (!g.hi || names.empty()) names = g.fn;
    i64 wl = g.len() + 1;
    bool config = g.r.chance(50);
    vector<string> targets = {g.r.pick(names)};
    if (g.r.chance(40)) { string x = g.r.pick(names); if (x != targets[0]) targets.push_back(x); }
    vector<KV> fs;
    for (auto& t : targets) fs.push_back(seq ? torn_seq(g, t) : torn_op(g, t, wl, g.r.chance(85)));
    if (config) g.c.faults = fs;
    g.start();
    auto arm = [&]() {
        if (config) return;
        for (auto f : fs) {
            if (g.r.chance(50)) f.erase("occurrence");
            g.cmd(as_cmd(g, f));
        }
    };
    W other = {{OPEN, 6}, {CLOSE, 3}, {READ, 8}, {WRITE, 10}, {FSYNC, 3}, {FTRUNC, 3}, {STAT, 2}};
    int rounds = g.r.range(1, 2);
    for (int i = 0; i < rounds; i++) {
        if (g.r.chance(50)) g.steps(other, g.r.range(0, 4));
        arm();
        int n = g.nops(6, 22);
        for (auto& f : fs) if (f["occurrence"].size() > 1 || f["persist"].size() > 9) n = std::max<i64>(n, g.r.range(20, 45));
        for (int j = 0; j < n; j++) {
            if (g.r.chance(35)) { g.step(other); continue; }
            string t = g.r.pick(targets);
            if (g.r.chance(8)) t = near(g, t);
            int slot = -1;
            for (auto& x : g.m.h) if (x.second.path == t && (x.second.flags & O_ACCMODE) != O_RDONLY && x.first.second < 12) slot = x.first.second;
            if (slot < 0) { g.open(t, O_RDWR | (g.hi ? 0 : O_CREAT)); continue; }
            if (g.r.chance(seq ? 15 : 8)) { Op o = g.mk(g.r.chance(70) ? FSYNC : FDATASYNC); o.h = slot; g.push(o); continue; }
            Op o = g.mk(g.r.chance(20) ? APPEND : WRITE);
            o.h = slot;
            o.len = g.r.chance(70) ? wl : g.len();
            o.seed = g.r.range(1, 1 << 30);
            if (o.k == WRITE) o.off = g.pos(g.hsize(slot));
            if (g.hsize(slot) <= g.cap()) g.push(o);
        }
    }
    g.final_look();
    g.roomy();
}
void p_clearfault(G& g) {
    g.geometry(g.r.chance(70));
    g.no_hide = true;
    g.tree(g.r.range(2, 4));
    int n = g.r.chance(8) ? g.r.range(4, 8) : g.r.range(1, 3);
    static const vector<string> ops = {"unlink", "truncate", "fsync", "write", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
    vector<KV> fs;
    for (int i = 0; i < n; i++) {
        KV f;
        f["type"] = g.r.chance(50) ? "clear" : "clear-cache";
        f["op"] = g.r.pick(ops);
        f["timing"] = g.r.chance(50) ? "before" : "after";
        f["occurrence"] = std::to_string(g.r.chance(8) ? g.r.range(4, 12) : g.r.range(1, 3));
        f["crash"] = g.r.chance(35) ? "true" : "false";
        string a = f["op"] == "symlink" ? (g.r.chance(50) ? "fA" : "xY/zQ") : "@ROOT@/" + g.r.pick(g.fn);
        f["from"] = a;
        if (multi(f["op"])) f["to"] = "@ROOT@/" + g.r.pick(g.fn);
        bool dup = false;
        for (auto& x : fs) if (x["from"] == a) dup = true;
        if (!dup) fs.push_back(f);
    }
    g.c.faults = fs;
    g.start();
    W w = plus(DATA, {{RENAME, 5}, {LINK, 4}, {SYMLINK, 4}, {UNLINK, 6}, {ACCESS, 5}, {FTRUNC, 5}, {TRUNC, 5}, {FSYNC, 7}});
    int k = g.nops(8, 40);
    for (int i = 0; i < k; i++) {
        if (g.r.chance(45)) { g.step(w); continue; }
        // aim at a fault
        auto& f = fs[g.r.range(0, fs.size() - 1)];
        string op = f["op"], a = f["from"], b = f.count("to") ? f["to"] : "";
        auto strip = [](string s) { return s.compare(0, 7, "@ROOT@/") == 0 ? s.substr(7) : s; };
        a = strip(a);
        b = strip(b);
        if (g.r.chance(8)) op = g.r.pick(ops);
        if (multi(op) && b.empty()) b = g.r.pick(g.fn);
        if (!b.empty() && g.r.chance(15)) b = near(g, b);
        if (g.r.chance(10)) a = near(g, a);
        auto handle = [&]() {
            int s = -1;
            for (auto& x : g.m.h) if (x.second.path == a && (x.second.flags & O_ACCMODE) == O_RDWR && x.first.second < 12) s = x.first.second;
            if (s < 0) { g.open(a, O_RDWR | O_CREAT); for (auto& x : g.m.h) if (x.second.path == a && x.first.second < 12) s = x.first.second; }
            return s;
        };
        Op o;
        if (op == "write" || op == "read" || op == "fsync" || (op == "truncate" && g.r.chance(50))) {
            int s = handle();
            if (s < 0) continue;
            o = g.mk(op == "write" ? WRITE : op == "read" ? READ : op == "fsync" ? FSYNC : FTRUNC);
            o.h = s;
            o.len = o.k == FSYNC ? 0 : g.len();
            if (o.k == WRITE) o.seed = g.r.range(1, 1 << 30);
            if (o.k == WRITE || o.k == READ) o.off = g.pos(g.hsize(s));
        } else if (op == "truncate") { o = g.mk(TRUNC); o.p = a; o.len = g.pos(g.bs); }
        else if (op == "open" || op == "create") {
            if (op == "create" && g.m.node_at(a) >= 0) { o = g.mk(UNLINK); o.p = a; if (g.open_any(a)) { o = g.mk(CLOSE); for (auto& x : g.m.h) if (x.second.path == a) o.h = x.first.second; } }
            else { o = g.mk(OPEN); o.p = a; o.flags = O_RDWR | (op == "create" ? O_CREAT : 0); o.h = g.free_slot(); if (o.h < 0) { o = g.mk(CLOSE); o.h = g.r.range(0, 5); } }
        } else if (op == "access") { o = g.mk(ACCESS); o.p = a; o.flags = 0; }
        else if (op == "unlink") {
            o = g.mk(UNLINK);
            o.p = a;
            if (g.open_any(a)) { o = g.mk(CLOSE); for (auto& x : g.m.h) if (x.second.path == a) o.h = x.first.second; }
            else if (g.m.node_at(a) < 0) { o = g.mk(OPEN); o.p = a; o.flags = O_RDWR | O_CREAT; o.h = g.free_slot(); }
        } else {
            o = g.mk(op == "rename" ? RENAME : op == "link" ? LINK : SYMLINK);
            o.p = a;
            o.q = b;
            if (op != "symlink" && g.m.node_at(a) < 0) { o = g.mk(OPEN); o.p = a; o.flags = O_RDWR | O_CREAT; o.h = g.free_slot(); }
            else if (op != "rename" && g.m.node_at(b) >= 0) { o = g.mk(UNLINK); o.p = b; if (g.open_any(b)) continue; }
            else if (op == "rename" && g.open_any(b)) continue;
        }
        if ((o.k == OPEN || o.k == CLOSE) && o.h < 0) continue;
        g.push(o);
    }
    g.final_look();
    g.roomy();
}
// invalid and valid faults side by side
static bool clearish(const string& t) { return t == "clear" || t == "clear-cache"; }
vector<string> split_list(const string& s) {
    vector<string> v;
    size_t b = 0;
    for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == ',') { v.push_back(s.substr(b, i - b)); b = i + 1; }
    return v;
}
string mutate(G& g, KV& f) { // returns what was broken ("" if the fault stays valid)
    string t = f["type"];
    vector<string> req = clearish(t) ? vector<string>{"occurrence", "timing", "op", "crash", "from"}
                         : t == "torn-seq" ? vector<string>{"occurrence", "op", "file", "persist"}
                                           : vector<string>{"occurrence", "file", "persist", "parts"};
    // a list with a bad entry somewhere among good ones
    auto spoil = [&](string l, vector<int> bad) {
        vector<string> v = split_list(l.substr(1, l.size() - 2));
        if (v.size() == 1 && v[0].empty()) v.clear();
        v.insert(v.begin() + g.r.range(0, v.size()), std::to_string(g.r.pick(bad)));
        string o;
        for (auto& x : v) o += (o.empty() ? "" : ",") + x;
        return "[" + o + "]";
    };
    auto nearly = [&](string v) { // almost a good word
        switch (g.r.range(0, 5)) {
        case 0: return v + "s";
        case 1: v[0] = toupper(v[0]); return v;
        case 2: return v.substr(0, v.size() - 1);
        case 3: return "un" + v;
        case 4: return v + v;
        default: return v + "wards";
        }
    };
    switch (g.r.range(0, 11)) {
    case 0: case 1: {
        string k = g.r.pick(req);
        if (k == "parts") { f.erase("parts"); f.erase("parts_bytes"); }
        else f.erase(k);
        return "missing " + k;
    }
    case 2: f["occurrence"] = g.r.chance(50) ? "0" : "-2"; return "occurrence";
    case 3:
        if (clearish(t)) { f["timing"] = g.r.chance(30) ? "during" : nearly(f["timing"]); return "timing"; }
        f["persist"] = spoil(f["persist"], {0, -1, -3});
        return "persist";
    case 4: case 7:
        if (t == "torn-op") {
            int n = f.count("parts") ? atoi(f["parts"].c_str()) : std::count(f["parts_bytes"].begin(), f["parts_bytes"].end(), ',') + 1;
            f["persist"] = spoil(f["persist"], {n + 1, n + 1, n + 2, n + 20});
            return "persist range";
        }
        f["op"] = g.r.chance(50) ? nearly(f["op"]) : clearish(t) ? (g.r.chance(50) ? "mkdir" : "fly") : "read";
        return "op";
    case 5:
        if (t == "torn-op") { if (f.count("parts")) f["parts_bytes"] = "[1,2]"; else f["parts"] = "2"; return "both"; }
        f["op"] = "bogus";
        return "op";
    case 6:
        if (t == "torn-op") {
            if (f.count("parts")) f["parts"] = g.r.chance(50) ? "0" : "-3";
            else f["parts_bytes"] = spoil(f["parts_bytes"], {0, -1, -5});
            return "parts";
        }
        if (clearish(t)) {
            if (multi(f["op"])) f.erase("to"); else f["to"] = "@ROOT@/fB";
            return "to";
        }
        f["persist"] = spoil(f["persist"], {0, -2});
        return "persist";
    default: return "";
    }
}
void p_badfault(G& g) {
    g.geometry(true);
    g.no_hide = true;
    g.tree(g.r.range(2, 4));
    g.c.cfg.logfile = true;
    g.c.opt["stdout"] = 1;
    i64 wl = g.len() + 1;
    int nf = g.r.range(1, 3);
    vector<KV> fs;
    vector<string> targets;
    for (int i = 0; i < nf; i++) {
        string t = g.r.pick(g.fn);
        KV f;
        int x = g.r.range(0, 2);
        if (x == 0) f = torn_op(g, t, wl, true);
        else if (x == 1) f = torn_seq(g, t);
        else {
            f["type"] = g.r.chance(50) ? "clear" : "clear-cache";
            f["op"] = g.r.pick(FOPS);
            f["timing"] = g.r.chance(50) ? "before" : "after";
            f["occurrence"] = std::to_string(g.r.range(1, 2));
            f["crash"] = g.r.chance(50) ? "true" : "false";
            f["from"] = "@ROOT@/" + t;
            if (multi(f["op"])) f["to"] = "@ROOT@/" + g.r.pick(g.fn);
        }
        mutate(g, f);
        fs.push_back(f);
        targets.push_back(t);
        if (g.r.chance(20)) { // a second fault of the same kind for the same file
            KV d = f;
            if (d.count("occurrence")) d["occurrence"] = "1";
            fs.push_back(d);
        }
    }
    int where = g.r.range(0, 2); // configuration, commands, both
    vector<KV> later;
    for (auto& f : fs) {
        bool cfg = where == 0 || (where == 2 && g.r.chance(50)) || clearish(f["type"]);
        if (cfg) g.c.faults.push_back(f);
        else later.push_back(f);
    }
    g.start();
    for (auto& f : later) {
        if (f.count("occurrence") && f["occurrence"] == "1" && g.r.chance(30)) f.erase("occurrence");
        g.cmd(as_cmd(g, f));
    }
    if (g.r.chance(60)) {
        int k = g.r.range(1, 3);
        for (int i = 0; i < k; i++) {
            string s = crash_cmd(g);
            switch (g.r.range(0, 9)) {
            case 0: { size_t p = s.find("op="); if (p != string::npos) s.replace(p, 3, "xp="); break; }
            case 1: {
                size_t p = s.find("timing=") + 7;
                switch (g.r.range(0, 3)) {
                case 0: s.insert(p, "un"); break;
                case 1: s[p] = toupper(s[p]); break;
                case 2: { size_t e = s.find("::", p); s.insert(e == string::npos ? s.size() : e, "wards"); break; }
                default: s.erase(p, 1);
                }
                break;
            }
            case 8: { // a good operation with something after it
                size_t p = s.find("op=") + 3, e = s.find("::", p);
                s.insert(e == string::npos ? s.size() : e, g.r.chance(50) ? "s" : " ");
                break;
            }
            case 2: { size_t p = s.find("op="); s.insert(p + 3, "q"); break; }
            case 4: { size_t p = s.find("::timing="); size_t e = s.find("::", p + 2); s.erase(p, e == string::npos ? string::npos : e - p); break; }
            case 5: { size_t p = s.find("::op="); size_t e = s.find("::", p + 2); s.erase(p, e == string::npos ? string::npos : e - p); break; }
            case 6: s = "lazyfs::crash::op=write::timing=before::from_rgx=" + string(g.r.chance(50) ? "f(A" : "[fA"); break;
            case 7: s = "lazyfs::crash"; break;
            default: break;
            }
            g.cmd(s);
        }
    }
    W other = plus(DATA, {{RENAME, 4}, {LINK, 3}, {SYMLINK, 2}, {UNLINK, 4}, {ACCESS, 3}, {TRUNC, 4}});
    int n = g.nops(8, 26);
    for (int j = 0; j < n; j++) {
        if (g.r.chance(45)) { g.step(other); continue; }
        const string& t = g.r.pick(targets);
        int slot = -1;
        for (auto& x : g.m.h) if (x.second.path == t && (x.second.flags & O_ACCMODE) != O_RDONLY && x.first.second < 12) slot = x.first.second;
        if (slot < 0) { g.open(t, O_RDWR | O_CREAT); continue; }
        Op o = g.mk(WRITE);
        o.h = slot;
        o.len = g.r.chance(80) ? wl : g.len();
        o.seed = g.r.range(1, 1 << 30);
        o.off = g.pos(g.hsize(slot));
        g.push(o);
    }
    g.final_look();
    g.roomy();
}
// ---- FIFO -------------------------------------------------------------------------------------------------
string junk(G& g) {
    switch (g.r.range(0, 9)) {
    case 0: return "";
    case 1: return string(g.r.range(1, 400), 'a' + g.r.range(0, 25));
    case 2: return "lazyfs::clear-cach";
    case 3: return "lazyfs::clear-cache ";
    case 4: return "clear-cache";
    case 5: return "lazyfs::" + string(g.r.range(80, 300), 'z');
    case 6: return "lazyfs::clear-cacheX";
    case 7: return "lazyfs::crash::";
    case 8: return " lazyfs::cache-checkpoint";
    default: return "lazyfs::torn-op";
    }
}
void p_fifo(G& g) {
    g.geometry(true);
    g.tree(g.r.range(0, 3));
    g.c.cfg.logfile = true;
    g.c.cfg.completed = g.r.chance(70);
    g.start();
    W w = plus(DATA, {{FSYNC, 3}, {WRITE, 30}});
    int rounds = g.r.range(1, 4);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.r.range(1, 8));
        string t;
        int n = g.r.chance(30) ? g.r.range(5, 14) : g.r.range(1, 5);
        for (int j = 0; j < n; j++) {
            int x = g.r.range(0, 99);
            if (x < 25) t += "lazyfs::clear-cache";
            else if (x < 42) t += "lazyfs::cache-checkpoint";
            else if (x < 52) t += "lazyfs::display-cache-usage";
            else if (x < 60) t += "lazyfs::unsynced-data-report";
            else if (x < 64) t += "lazyfs::help";
            else if (x < 72) t += "lazyfs::crash::timing=before::op=" + g.r.pick(FOPS) + "::from_rgx=fZ" + string(g.r.range(0, 150), 'Z');
            else t += junk(g);
            t += "\n";
        }
        Op o = g.mk(CMD);
        o.text = t;
        if (g.r.chance(50)) o.flags = g.r.range(2, 6);
        g.push(o);
        if (g.r.chance(20)) { // a line delivered in two operations
            Op a = g.mk(CMD), b = g.mk(CMD);
            a.text = "lazyfs::clear-";
            b.text = "cache\n";
            g.push(a);
            g.steps({{READ, 3}, {WRITE, 3}, {STAT, 2}}, 1);
            g.push(b);
        }
        g.final_look();
    }
    g.roomy();
}
void p_report(G& g) {
    g.geometry();
    g.far(8);
    g.tree(g.r.range(0, 3));
    g.c.cfg.logfile = true;
    g.start();
    W w = plus(DATA, {{SYMLINK, 2}, {FSYNC, 6}, {FDATASYNC, 3}, {LINK, 5}, {RENAME, 5}, {UNLINK, 5}, {FTRUNC, 6}, {TRUNC, 4}, {CMD, 2}, {CLOSE, 7}});
    int n = g.nops(8, 40), at = g.r.chance(25) ? g.r.range(1, n) : -1;
    for (int i = 0; i < n; i++) {
        g.step(w);
        if (i == at) g.cmd(crash_cmd(g));
        if (g.r.chance(30)) g.cmd("lazyfs::unsynced-data-report");
        if (g.r.chance(30)) g.cmd("lazyfs::display-cache-usage");
    }
    g.cmd("lazyfs::unsynced-data-report");
    g.cmd("lazyfs::display-cache-usage");
    g.roomy();
}
// ---- configuration -------------------------------------------------------------------------------------------
void p_config(G& g) {
    g.c.cfg.logfile = true;
    g.c.opt["geom"] = 1;
    int mode = g.r.range(0, 9);
    i64 N;
    if (mode < 5) {
        static const vector<int> B = {1, 2, 3, 8, 16, 64, 512, 1000, 4096};
        g.c.cfg.bs = g.r.pick(B);
        g.c.cfg.bpp = g.r.range(1, 6);
        N = g.r.range(1, 24);
    } else if (mode < 9) {
        g.c.cfg.bpp = g.r.chance(40) ? 1 : g.r.range(1, 6);
        if (g.c.cfg.bpp == 1 && g.r.chance(40)) g.c.cfg.nobpp = true;
        i64 page = 4096 * g.c.cfg.bpp;
        // a size somewhere between 2 and 40 pages, in some notation
        string unit;
        double mul;
        int u = g.r.range(0, 2);
        i64 want = page * g.r.range(2, 40) + g.r.range(0, page - 1);
        if (u == 0) { unit = "K"; mul = 1000; } else if (u == 1) { unit = "M"; mul = 1000000; } else { unit = "G"; mul = 1000000000; }
        (void)mul;
        char b[64];
        // decimal digits chosen so that the text is exact
        if (u == 0) snprintf(b, sizeof b, "%lld", (long long)(want / 1024 + 1));
        else if (u == 1) snprintf(b, sizeof b, "0.%0*d", 3, (int)(want / 1048 + 1));
        else snprintf(b, sizeof b, "0.%0*d", 6, (int)(want / 1073 + 1));
        string s = b;
        if (u == 0 && g.r.chance(40)) { s += "." + std::to_string(g.r.range(1, 9)); }
        if (g.r.chance(30) && u == 1) s = std::to_string(0) + s.substr(1);
        s += unit;
        if (g.r.chance(50)) s += "B";
        for (auto& ch : s) if (g.r.chance(40)) ch = tolower(ch);
        g.c.cfg.simple = s;
        g.c.cfg.bs = 4096;
        // bytes
        i64 tenths = 0;
        (void)tenths;
        double v = atof(s.c_str());
        double bytes = v * (u == 0 ? 1024.0 : u == 1 ? 1048576.0 : 1073741824.0);
        N = (i64)(bytes / page);
        double frac = bytes / page - N;
        if (frac < 0.0005 || frac > 0.9995) { g.c.opt["skip"] = 1; }
        if (N < 2) { g.c.opt["skip"] = 1; N = 2; }
    } else {
        g.c.cfg.nocache = true;
        g.c.cfg.bs = 4096;
        g.c.cfg.bpp = 1;
        N = 5;
    }
    g.c.cfg.pages = N;
    g.bs = g.c.cfg.bs;
    g.c.cfg.evict = g.r.chance(50);
    if (g.r.chance(25)) { g.c.cfg.noevict = true; g.c.cfg.evict = false; }
    g.c.cfg.logops = g.r.chance(50);
    g.c.cfg.completed = g.r.chance(50);
    if (g.r.chance(60)) g.c.opt["argv"] = g.r.range(1, 383);
    g.maxblk = 1 << 20;
    g.start();
    i64 tot = N * g.c.cfg.bpp;
    // fill the cache completely, with one file or with several page-aligned ones
    int nf = g.r.range(1, 3);
    i64 done = 0, fi = 0;
    vector<string> fn = {"fA", "fB", "fC.txt"};
    for (int i = 0; i < nf; i++) {
        i64 take = i == nf - 1 ? tot - done : g.r.range(0, N / nf) * g.c.cfg.bpp;
        if (!take) continue;
        g.open(fn[i], O_RDWR | O_CREAT, i);
        fi = i;
        i64 at = 0;
        while (at < take) {
            i64 k = std::min(take - at, g.r.chance(50) ? (i64)1 : g.r.range(1, std::max<i64>(1, take / 3)));
            Op o = g.mk(WRITE);
            o.h = i;
            o.off = at * g.bs;
            o.len = k * g.bs;
            o.seed = g.r.range(1, 1 << 30);
            g.push(o);
            at += k;
            if (g.r.chance(25)) g.cmd("lazyfs::display-cache-usage");
        }
        done += take;
    }
    g.cmd("lazyfs::display-cache-usage");
    g.c.opt["full_at"] = g.c.ops.size(); // from here on the cache is exactly full
    // one block too many
    Op o = g.mk(WRITE);
    o.h = fi;
    o.off = g.hsize(fi);
    o.len = g.bs;
    o.seed = g.r.range(1, 1 << 30);
    g.push(o);
    g.cmd("lazyfs::display-cache-usage");
    g.final_look();
    if (g.c.cfg.completed) g.cmd("lazyfs::clear-cache");
}
// ---- schedule and failure points ---------------------------------------------------------------------------------
// kinds worth interrupting
const W MUT = {{WRITE, 24}, {FTRUNC, 12}, {TRUNC, 6}, {FSYNC, 16}, {RENAME, 15}, {UNLINK, 8}, {READ, 10}, {OPEN, 6}, {LINK, 4}, {FSTAT, 3}, {STAT, 3}};
void p_atomic(G& g) {
    g.no_hide = true;
    g.geometry(true);
    g.maxblk = g.r.range(3, 6);
    g.tree(g.r.range(1, 3));
    g.start();
    W w = plus(DATA, {{FSYNC, 6}, {FTRUNC, 5}});
    int rounds = g.r.range(1, 4);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.r.range(2, 7));
        for (int t = 0; t < 12; t++) {
            Op o;
            K k = g.pickk(MUT);
            if (!g.gen(k, o)) continue;
            if (k == WRITE && (g.m.h[{0, o.h}].flags & O_APPEND)) continue;
            o.inj.act = 'C';
            o.inj.cls = g.r.chance(35) ? "lock" : "all";
            o.inj.k = g.r.range(1, g.r.chance(50) ? 4 : 14);
            int x = g.r.range(0, 99);
            o.inj.cmd = x < 55 ? "lazyfs::clear-cache\n" : x < 80 ? "lazyfs::cache-checkpoint\n" : x < 90 ? "lazyfs::unsynced-data-report\n" : "lazyfs::display-cache-usage\n";
            if (g.push(o)) break;
        }
        if (g.r.chance(60)) g.final_look();
    }
    g.final_look();
    g.cmd("lazyfs::clear-cache");
    g.final_look();
    g.roomy(false);
}
// two operations overlapping at a chosen point
void p_pair(G& g) {
    g.no_hide = true;
    g.geometry(true);
    g.maxblk = g.r.range(3, 6);
    g.tree(g.r.range(1, 3));
    g.start();
    W w = plus(DATA, {{FSYNC, 6}, {FTRUNC, 5}});
    int rounds = g.r.range(1, 3);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.r.range(2, 7));
        const W A = {{WRITE, 24}, {FTRUNC, 8}, {FSYNC, 16}, {READ, 12}};
        for (int t = 0; t < 12; t++) {
            Op a, b;
            if (!g.gen(g.pickk(A), a) || !g.gen(g.pickk(A), b)) continue;
            auto app = [&](Op& o) { return o.k == WRITE && (g.m.h[{0, o.h}].flags & O_APPEND); };
            if (app(a) || app(b)) continue;
            // different files: the serialisable case
            if (g.m.h[{0, a.h}].node == g.m.h[{0, b.h}].node) continue;
            a.inj.act = 'T';
            a.inj.cls = g.r.chance(35) ? "lock" : "all";
            a.inj.k = g.r.range(1, 10);
            if (g.push(a)) { if (!g.push(b)) g.c.ops.back().inj = Inj(); break; }
        }
    }
    g.final_look();
    g.cmd("lazyfs::clear-cache");
    g.final_look();
    g.roomy(false);
}
void p_ioerr_(G& g, bool full, bool rep = false) {
    if (rep) g.c.cfg.logfile = true;
    g.no_hide = true;
    g.geometry(!full);
    if (full) {
        g.c.opt["weak"] = 1;
        g.c.cfg.evict = g.r.chance(70);
        g.c.cfg.pages = g.r.range(1, 6);
    }
    g.tree(g.r.range(1, 4));
    g.start();
    W w = plus(DATA, {{FSYNC, 3}, {LINK, 2}, {RENAME, 2}, {CMD, 2}});
    static const vector<int> ERR = {EIO, ENOSPC, EDQUOT, EACCES, EMFILE};
    int rounds = g.r.range(1, 3);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.nops(2, 10));
        for (int t = 0; t < 14; t++) {
            Op o;
            K k = full && g.r.chance(40) ? WRITE : g.pickk({{FSYNC, 30}, {READ, 16}, {WRITE, 16}, {OPEN, 8}, {FTRUNC, 6}, {RENAME, rep ? 16 : 5}, {LINK, 3}, {UNLINK, 4}, {MKDIR, 2}, {CHMOD, 1}, {CMD, 8}});
            if (k == CMD) { o = g.mk(CMD); o.text = "lazyfs::cache-checkpoint\n"; }
            else if (!g.gen(k, o)) continue;
            if (k == RENAME && g.r.chance(50)) { // between two names of one file with unsynced data
                for (auto& x : g.m.names)
                    for (auto& y : g.m.names)
                        if (x.second == y.second && x.first < y.first && g.m.nodes[x.second].type == 'f' && g.m.nodes[x.second].modified) {
                            bool sw = g.r.chance(50);
                            o.p = sw ? y.first : x.first;
                            o.q = sw ? x.first : y.first;
                        }
            }
            if (k == WRITE && (g.m.h[{0, o.h}].flags & O_APPEND)) continue;
            bool otr = k == OPEN && (o.flags & O_TRUNC) && g.m.node_at(o.p) >= 0;
            Model t2 = g.m;
            Exp e = t2.apply(o, g.c.ops.size());
            if (e.ret < 0 || t2.invalid) continue;
            static const vector<string> cl = {"any", "wr", "tr", "op", "rd", "wrtr"};
            o.inj.act = (k == FSYNC || k == READ || k == CMD || k == WRITE) && g.r.chance(30) ? 'S' : 'E';
            o.inj.cls = o.inj.act == 'S' ? (k == READ || (k == WRITE && g.r.chance(60)) ? "rd" : "wr") : k == FSYNC ? g.r.pick(cl) : k == OPEN && g.r.chance(60) ? "op" : g.r.chance(50) ? "any" : k == READ ? "rd" : "any";
            o.inj.k = g.r.chance(60) ? 1 : g.r.range(1, 5);
            o.inj.err = g.r.pick(ERR);
            if (k != OPEN && g.r.chance(k == RENAME || k == LINK || k == UNLINK ? 35 : 10)) { o.inj.act = 'E'; o.inj.cls = "st"; o.inj.k = g.r.range(1, k == RENAME ? 8 : 4); }
            // whether it takes effect is not known here: the dry run stays as if it failed, and what
            // follows probes the affected file
            int probe = -1;
            string pp;
            if (o.h >= 0 && k != OPEN) probe = o.h;
            if (k == WRITE || k == FTRUNC || otr) {
                string path = otr ? o.p : g.m.h[{0, o.h}].path;
                int node = otr ? g.m.node_at(o.p) : g.m.h[{0, o.h}].node;
                g.c.ops.push_back(o);
                Op s = g.mk(OPEN);
                s.h = 14; s.p = path; s.flags = O_RDONLY;
                Op f = g.mk(FSTAT);
                f.h = 14;
                Op rd = g.mk(READ);
                rd.h = 14; rd.len = g.cap() + 40 * g.bs;
                Op cl2 = g.mk(CLOSE);
                cl2.h = 14;
                g.c.ops.push_back(s);
                g.c.ops.push_back(f);
                g.c.ops.push_back(rd);
                g.c.ops.push_back(cl2);
                if (!otr) g.m.apply(o, g.c.ops.size());
                g.blks[node] = g.maxblk + 40;
            } else {
                g.c.ops.push_back(o);
                if (k == FSYNC || k == CMD || k == READ) g.m.apply(o, g.c.ops.size());
                if (k == OPEN) { // the handle works if the open succeeded; otherwise both sides skip these
                    Op f = g.mk(FSTAT), rd = g.mk(READ), sy = g.mk(FSYNC), cl2 = g.mk(CLOSE);
                    f.h = rd.h = sy.h = cl2.h = o.h;
                    rd.len = g.bs;
                    int acc = o.flags & O_ACCMODE;
                    g.c.ops.push_back(f);
                    if (acc != O_WRONLY) g.c.ops.push_back(rd);
                    if (acc != O_RDONLY) g.c.ops.push_back(sy);
                    g.c.ops.push_back(cl2);
                }
            }
            (void)probe; (void)pp;
            if (rep && g.r.chance(80)) g.cmd("lazyfs::unsynced-data-report");
            if (k == FSYNC && g.r.chance(70)) { Op f = g.mk(FSYNC); f.h = o.h; g.push(f); if (rep) g.cmd("lazyfs::unsynced-data-report"); }
            break;
        }
    }
    if (rep) g.cmd("lazyfs::unsynced-data-report");
    g.final_look();
    if (g.r.chance(60)) g.cmd("lazyfs::cache-checkpoint");
    g.cmd("lazyfs::clear-cache");
    g.final_look();
    if (!full) g.roomy(false);
}
void p_ioerr(G& g) { p_ioerr_(g, false); }
void p_ioreport(G& g) { p_ioerr_(g, false, true); }
void p_ioerrfull(G& g) { p_ioerr_(g, true); }
void p_kill(G& g) {
    g.no_hide = true;
    g.geometry(true);
    g.far(5);
    g.tree(g.r.range(1, 4));
    g.start();
    W w = plus(DATA, {{FSYNC, 4}, {LINK, 2}, {RENAME, 2}});
    int rounds = g.r.range(1, 3);
    for (int i = 0; i < rounds; i++) {
        g.steps(w, g.nops(3, 12));
        for (int t = 0; t < 14; t++) {
            Op o;
            K k = g.pickk({{FSYNC, 34}, {FDATASYNC, 6}, {WRITE, 10}, {FTRUNC, 5}, {TRUNC, 3}, {RENAME, 12}, {UNLINK, 8}, {LINK, 6}, {OPEN, 8}, {CMD, 14}, {MKDIR, 2}, {READ, 3}});
            if (k == CMD) { o = g.mk(CMD); o.text = g.r.chance(75) ? "lazyfs::cache-checkpoint\n" : "lazyfs::clear-cache\n"; }
            else if (!g.gen(k, o)) continue;
            o.inj.act = g.r.chance(50) ? 'K' : 'k';
            o.inj.cls = g.r.chance(50) ? "mut" : "all";
            o.inj.k = g.r.chance(50) ? 1 : g.r.range(1, 12);
            Model t2 = g.m;
            Exp e = t2.apply(o, g.c.ops.size());
            if (e.ret == RET_SKIP || t2.invalid) continue;
            g.c.ops.push_back(o);
            // most likely killed; names may or may not have changed
            g.m.session_end();
            g.m.session_start();
            break;
        }
        if (g.r.chance(40)) g.final_look();
    }
    g.steps(w, g.r.range(2, 8));
    g.final_look();
    for (auto& b : g.blks) b.second = std::max<i64>(b.second, g.maxblk + 6);
    g.roomy(false);
    g.c.cfg.pages = std::max(g.c.cfg.pages, 200);
}
// ---- threads -----------------------------------------------------------------------------------------------------
void p_threads(G& g) {
    g.geometry(true);
    g.maxblk = g.r.range(3, 8);
    g.no_hide = true;
    int nt = g.r.range(2, 4);
    for (int t = 1; t <= nt; t++) { InitEnt e; e.type = 'd'; e.p = "t" + std::to_string(t); g.c.init.push_back(e); }
    int mode = g.r.range(0, 2); // 0 own files, 1 own files + commands, 2 shared file
    if (mode >= 1) g.c.opt["weak"] = 1;
    i64 R = g.bs * g.r.range(1, 3) + g.r.range(0, 3); // bytes of the shared file per thread
    if (mode == 2) {
        InitEnt e;
        e.p = "fS";
        e.len = R * (nt + 1);
        e.seed = g.r.range(1, 1 << 30);
        g.c.init.push_back(e);
        g.c.opt["shared"] = 1;
    }
    g.c.opt["perturb"] = g.r.range(1, 1 << 30);
    g.start();
    vector<vector<Op>> per(nt + 1);
    W w = plus(DATA, {{FSYNC, 8}, {RENAME, 4}, {UNLINK, 4}, {LINK, 3}, {CLOSE, 6}});
    vector<Op> keep = g.c.ops;
    for (int t = 1; t <= nt; t++) {
        g.th = t;
        string d = "t" + std::to_string(t) + "/";
        g.fn = {d + "fA", d + "fB", d + "fC"};
        size_t from = g.c.ops.size();
        int n = g.nops(10, 40);
        int guard = 0;
        if (mode == 2) {
            Op o = g.mk(OPEN);
            o.h = 6; o.p = "fS"; o.flags = O_RDWR;
            g.push(o);
        }
        while ((int)(g.c.ops.size() - from) < n && guard++ < 400) {
            if (mode == 2 && g.r.chance(60)) {
                Op o = g.mk(g.r.chance(55) ? WRITE : g.r.chance(80) ? READ : FSYNC);
                o.h = 6;
                if (o.k != FSYNC) {
                    i64 a = R * t, b = R * (t + 1);
                    o.off = g.r.range(a, b - 1);
                    o.len = g.r.range(1, b - o.off);
                    if (o.k == WRITE) o.seed = g.r.range(1, 1 << 30);
                    else if (g.r.chance(40)) { o.off = 0; o.len = R * (nt + 1) + 3; o.flags = 1; }
                }
                g.push(o);
                continue;
            }
            Op o;
            K k = g.pickk(w);
            auto own = [&](const string& p) { return p.compare(0, d.size(), d) == 0; };
            if (!g.gen(k, o)) { if (g.gen(OPEN, o)) o.flags |= O_CREAT; else continue; }
            if (!o.p.empty() && !own(o.p)) continue;
            if (!o.q.empty() && !own(o.q)) continue;
            if (o.h == 6 && mode == 2) continue;
            g.push(o);
        }
        for (size_t i = from; i < g.c.ops.size(); i++) per[t].push_back(g.c.ops[i]);
    }
    // handles are closed by the runner at the end of each thread
    g.c.ops = keep;
    vector<size_t> at(nt + 1, 0);
    // interleave in the file only for readability: each thread runs its own list
    bool more = true;
    while (more) {
        more = false;
        for (int t = 1; t <= nt; t++)
            if (at[t] < per[t].size()) { g.c.ops.push_back(per[t][at[t]++]); more = true; }
    }
    if (mode >= 1) {
        int n = g.r.range(2, 12);
        vector<Op> withc;
        for (int i = 0; i < n; i++) {
            Op o = g.mk(CMD);
            o.th = nt + 1;
            int x = g.r.range(0, 2);
            o.text = x == 0 ? "lazyfs::unsynced-data-report\n" : x == 1 ? "lazyfs::display-cache-usage\n" : "lazyfs::cache-checkpoint\n";
            g.c.ops.push_back(o);
        }
    }
    for (auto it = g.m.h.begin(); it != g.m.h.end();) { if (it->first.first > 0) it = g.m.h.erase(it); else ++it; }
    g.th = 0;
    g.c.opt["joins"] = g.c.ops.size();
    g.final_look();
    for (auto& f : g.files()) {
        g.open(f, O_RDWR, 14);
        Op s = g.mk(FSYNC);
        s.h = 14;
        g.push(s);
        Op cl = g.mk(CLOSE);
        cl.h = 14;
        g.push(cl);
    }
    g.cmd("lazyfs::clear-cache");
    g.final_look();
    i64 sum = 64;
    for (auto& b : g.blks) sum += b.second + 4;
    g.c.cfg.pages = sum * 2;
    g.c.cfg.evict = g.r.chance(50);
    if (g.r.chance(30)) { // the threads compete for room
        g.c.opt["weak"] = 1;
        g.c.cfg.pages = g.r.range(2, 12);
    }
}
// threads that share every name, with all commands: nothing may crash, hang or race, and afterwards the
// file system works on whatever state is left
void p_storm(G& g) {
    g.geometry(true);
    g.maxblk = g.r.range(2, 8);
    int nt = g.r.range(2, 4);
    g.fn = {"fA", "fB", "dA/fA"};
    if (g.r.chance(40)) g.fn.pop_back();
    InitEnt d;
    d.type = 'd'; d.p = "dA";
    g.c.init.push_back(d);
    for (auto& f : g.fn) if (g.r.chance(50)) { InitEnt e; e.p = f; e.len = g.size_pick(); e.seed = g.r.range(1, 1 << 30); g.c.init.push_back(e); }
    g.c.opt["perturb"] = g.r.range(1, 1 << 30);
    g.c.opt["weak"] = 1;
    g.c.cfg.logops = g.r.chance(30);
    g.c.cfg.logfile = g.c.cfg.logops || g.r.chance(20);
    vector<vector<Op>> per(nt + 1);
    W w = plus(DATA, {{FSYNC, 8}, {RENAME, 8}, {UNLINK, 6}, {LINK, 6}, {CLOSE, 7}, {STAT, 6}, {CHMOD, 1}, {UTIMENS, 2}, {READDIR, 2}, {TRUNC, 6}});
    if (g.r.chance(30)) w = plus(w, {{RENAME, 20}, {UNLINK, 14}});
    for (int t = 1; t <= nt; t++) {
        g.start();
        g.th = t;
        g.c.ops.clear();
        int n = g.nops(8, 40);
        for (int k = 0, guard = 0; k < n && guard < 300; guard++) if (g.step(w)) k++;
        per[t] = g.c.ops;
    }
    g.c.ops.clear();
    vector<size_t> at(nt + 1, 0);
    for (bool more = true; more;) {
        more = false;
        for (int t = 1; t <= nt; t++) if (at[t] < per[t].size()) { g.c.ops.push_back(per[t][at[t]++]); more = true; }
    }
    int n = g.r.range(0, 14);
    for (int i = 0; i < n; i++) {
        Op o = g.mk(CMD);
        o.th = nt + 1;
        static const vector<string> cm = {"lazyfs::unsynced-data-report", "lazyfs::display-cache-usage", "lazyfs::cache-checkpoint", "lazyfs::clear-cache", "lazyfs::clear-cache",
            "lazyfs::crash::op=write::timing=before::from_rgx=fZ", "lazyfs::torn-op::file=@ROOT@/fZ::persist=1::parts=2", "lazyfs::torn-seq::op=write::file=@ROOT@/fA::persist=1,2::occurrence=999999"};
        o.text = g.r.pick(cm) + "\n";
        g.c.ops.push_back(o);
    }
    g.th = 0;
    for (auto s : {"lazyfs::cache-checkpoint\n", "lazyfs::clear-cache\n"}) { Op o = g.mk(CMD); o.text = s; g.c.ops.push_back(o); }
    g.c.opt["storm"] = g.c.ops.size();
    // from here on the state is known again
    int slot = 0;
    for (auto& f : g.fn) {
        Op o = g.mk(OPEN);
        o.h = slot; o.p = f; o.flags = O_RDWR | O_CREAT;
        g.c.ops.push_back(o);
        Op rd = g.mk(READ);
        rd.h = slot; rd.len = g.cap() + 40 * g.bs;
        g.c.ops.push_back(rd);
        Op wr = g.mk(WRITE);
        wr.h = slot; wr.off = g.pos(g.cap()); wr.len = g.len(); wr.seed = g.r.range(1, 1 << 30);
        g.c.ops.push_back(wr);
        g.c.ops.push_back(rd);
        if (g.r.chance(70)) { Op fs = g.mk(FSYNC); fs.h = slot; g.c.ops.push_back(fs); }
        slot++;
    }
    Op cl = g.mk(CMD);
    cl.text = "lazyfs::clear-cache\n";
    g.c.ops.push_back(cl);
    for (int i = 0; i < slot; i++) { Op rd = g.mk(READ); rd.h = i; rd.len = g.cap() + 40 * g.bs; g.c.ops.push_back(rd); }
    g.c.cfg.evict = g.r.chance(60);
    g.c.cfg.pages = g.r.chance(50) ? 400 : g.r.range(2, 12);
    if (g.c.cfg.pages == 400) g.c.opt.erase("weak");
}
void p_log(G& g) {
    g.geometry(g.r.chance(70));
    g.far(8);
    g.tree(g.r.range(1, 4));
    g.c.cfg.logfile = true;
    g.c.cfg.logops = g.r.chance(85);
    g.start();
    W w = plus(DATA, {{OPEN, 12}, {RENAME, 8}, {LINK, 6}, {SYMLINK, 5}, {UNLINK, 8}, {MKDIR, 6}, {RMDIR, 5}, {CHMOD, 5}, {CHOWN, 4}, {UTIMENS, 5}, {FUTIMENS, 2}, {READ, 14}, {WRITE, 20}, {FSYNC, 6}, {FDATASYNC, 5}, {READDIR, 2}, {ACCESS, 2}, {CMD, 2}});
    g.steps(w, g.nops(10, 50));
    g.final_look();
    g.roomy();
}
// ---- robustness ----------------------------------------------------------------------------------------------------
string raw(G& g) {
    static const vector<string> frag = {"lazyfs::", "clear-cache", "crash", "::", "=", "op", "write", "rename", "timing", "before", "after", "from_rgx", "to_rgx",
        "torn-op", "torn-seq", "persist", "parts", "parts_bytes", "file", "occurrence", ",", "1", "0", "-1", "99999999999999999999", "2147483648", "a", "[", "(", "*", "\\", "\n", "\n", " ", "@ROOT@/fZ", "fZ", "cache-checkpoint", "unsynced-data-report", "display-cache-usage", "help", ";", "\t", "4294967296"};
    string s;
    int n = g.r.range(1, 24);
    for (int i = 0; i < n; i++) {
        if (g.r.chance(12)) s += (char)g.r.range(1, 255);
        else if (g.r.chance(4)) s += string(g.r.range(50, 700), (char)g.r.range(33, 126));
        else s += g.r.pick(frag);
    }
    // nothing here may be a well-formed fault or clear on existing files: paths only name fZ
    return s + "\n";
}
void p_rawfifo(G& g) {
    g.geometry(true);
    g.tree(g.r.range(1, 3));
    g.c.cfg.logfile = g.r.chance(50);
    g.c.cfg.completed = g.r.chance(50);
    g.start();
    W w = plus(DATA, {});
    int n = g.r.range(3, 10);
    for (int i = 0; i < n; i++) {
        g.steps(w, g.r.range(0, 3));
        Op o = g.mk(CMD);
        if (g.r.chance(50)) o.text = raw(g);
        else { // a structured command with hostile values
            static const vector<string> v = {"", "0", "-1", "1", "2", "1,2", "1,,2", ",", "a", "99999999999999999999", "2147483648", "-99999999999", "1.5", "0x10", " 1", "1 ", "[", "(", "*", "+", "a{2,1}", "[z-a]", "\\", "\\1", "(?<x>)", "write", "rename", "before", "after", "none", "@ROOT@/fZ", "fZ"};
            static const vector<string> k = {"op", "timing", "from_rgx", "to_rgx", "file", "persist", "parts", "parts_bytes", "occurrence", "", "x"};
            static const vector<string> t = {"crash", "torn-op", "torn-seq", "clear-cache", ""};
            o.text = "lazyfs::" + g.r.pick(t);
            int m = g.r.range(0, 6);
            if (g.r.chance(50)) { // nearly valid
                static const vector<string> base = {"lazyfs::crash::op=write::timing=before::from_rgx=fZ", "lazyfs::torn-op::file=@ROOT@/fZ::persist=1::parts=2", "lazyfs::torn-seq::op=write::file=@ROOT@/fZ::persist=1,2"};
                o.text = g.r.pick(base);
                m = g.r.range(1, 2);
            }
            for (int j = 0; j < m; j++) {
                string key = g.r.pick(k), val = g.r.pick(v);
                if (key.size() > 4 && key.compare(key.size() - 4, 4, "_rgx") == 0) val = "fZZ" + val; // matches no file
                o.text += "::" + key + (g.r.chance(90) ? "=" : "") + val;
            }
            o.text += "\n";
        }
        if (g.r.chance(30)) o.flags = g.r.range(2, 5);
        g.push(o);
    }
    g.c.opt["raw"] = 1;
    g.final_look();
    g.roomy();
}
// large files and offsets
void p_big(G& g) {
    static const vector<int> B = {16, 64, 512, 4096, 65536, 1000};
    g.c.cfg.bs = g.r.pick(B);
    g.c.cfg.bpp = g.r.chance(70) ? 1 : g.r.range(2, 5);
    g.bs = g.c.cfg.bs;
    g.maxblk = g.bs <= 64 ? g.r.range(900, 2600) : g.r.range(100, 300);
    if (g.c.cfg.bs == 65536) g.maxblk = g.r.range(20, 50);
    g.c.opt["nosnap"] = 1;
    if (g.bs <= 64) g.c.opt.erase("nosnap");
    g.tree(1);
    g.start();
    W w = plus(DATA, {{LSEEK, 3}});
    int n = g.nops(8, 25);
    for (int i = 0; i < n; i++) {
        if (g.r.chance(25)) {
            Op o = g.mk(g.r.chance(60) ? WRITE : READ);
            auto v = g.handles(true, true);
            if (!v.empty()) {
                o.h = g.r.pick(v);
                o.off = g.r.chance(40) ? 0 : g.r.range(0, g.cap());
                o.len = g.r.chance(40) ? std::min<i64>(131072, g.cap()) : g.r.range(1, 131072);
                if (g.bs <= 64) o.len = std::min(o.len, g.cap());
                if (o.k == WRITE) o.seed = g.r.range(1, 1 << 30);
                g.push(o);
                continue;
            }
        }
        if (g.r.chance(6)) { g.cmd(g.r.chance(50) ? "lazyfs::clear-cache" : "lazyfs::cache-checkpoint"); continue; }
        g.step(w);
    }
    g.final_look();
    for (int h : g.handles(false, false)) { Op o = g.mk(FSYNC); o.h = h; g.push(o); }
    g.cmd("lazyfs::clear-cache");
    g.final_look();
    i64 sum = 8;
    for (auto& b : g.blks) sum += b.second + 1;
    g.c.cfg.pages = sum;
}
struct Prof { const char* name; void (*f)(G&); };
void p_tornop(G& g) { p_torn(g, false); }
void p_tornseq(G& g) { p_torn(g, true); }
const Prof PROFS[] = {{"rw", p_rw}, {"clear", p_clear}, {"sync", p_sync}, {"leak", p_leak}, {"ckpt", p_ckpt}, {"ns", p_ns}, {"nsfail", p_nsfail},
    {"attr", p_attr}, {"dirs", p_dirs}, {"perm", p_perm}, {"full", p_full}, {"crash", p_crash}, {"tornop", p_tornop}, {"tornseq", p_tornseq}, {"clearfault", p_clearfault},
    {"badfault", p_badfault}, {"fifo", p_fifo}, {"report", p_report}, {"config", p_config}, {"atomic", p_atomic}, {"pair", p_pair}, {"ioerr", p_ioerr}, {"ioreport", p_ioreport}, {"ioerrfull", p_ioerrfull},
    {"kill", p_kill}, {"threads", p_threads}, {"storm", p_storm}, {"log", p_log}, {"rawfifo", p_rawfifo}, {"big", p_big}};
} // namespace

bool gen_case(const string& prof, u64 seed, Case& c, const string& tier) {
    for (auto& p : PROFS) {
        if (prof != p.name) continue;
        c = Case();
        c.prof = prof;
        G g(c, seed, tier == "thorough" && seed % 3 == 0);
        p.f(g);
        return !c.opt.count("skip");
    }
    return false;
}

static const vector<PropSpec> SPECS = {
    {"C01", M_READ, {{"rw", 6}, {"ns", 1}, {"ckpt", 1}, {"big", 1}}, "a read or size query of a file that had unsynced modifications, spanning cached and on-disk state"},
    {"C02", M_READ | M_CLEAR | M_NS, {{"clear", 12}, {"ns", 2}, {"big", 1}}, "a clear, kill or remount with unsynced modifications pending"},
    {"C03", M_SYNC | M_CLEAR, {{"sync", 12}, {"ns", 2}, {"full", 2}, {"big", 1}}, "a sync of a file with unsynced modifications"},
    {"C04", M_DUR | M_LEAK, {{"leak", 5}, {"sync", 2}, {"ns", 1}}, "at least one unsynced modification while other operations run"},
    {"C05", M_SYNC | M_DUR | M_READ | M_CLEAR, {{"ckpt", 16}, {"big", 1}}, "a checkpoint with unsynced modifications pending"},
    {"C06", M_READ | M_CLEAR | M_NS | M_SYNC | M_RET, {{"ns", 5}, {"nsfail", 2}}, "a rename, link or unlink in a history with unsynced modifications"},
    {"C07", M_ATTR | M_READ, {{"attr", 1}}, "attribute queries after a modification, times change or clear"},
    {"C08", M_READ | M_SYNC | M_CLEAR | M_DUR | M_USAGE, {{"full", 1}}, "more distinct blocks used than the cache holds"},
    {"C09", M_CRASH | M_CLEAR | M_NS | M_DUR, {{"crash", 1}}, "a crash command accepted and matching operations issued (crash) or near misses (no crash)"},
    {"C10", M_CRASH | M_CLEAR | M_DUR | M_READ, {{"tornop", 1}}, "a torn-op fault fired or its byte counts mismatched"},
    {"C11", M_CRASH | M_CLEAR | M_DUR | M_READ, {{"tornseq", 1}}, "a torn-seq fault fired"},
    {"C12", M_CRASH | M_CLEAR | M_DUR | M_READ | M_RET, {{"clearfault", 1}}, "a configured clear fault fired"},
    {"C13", M_CRASH | M_CLEAR | M_DUR | M_CMD, {{"badfault", 1}}, "at least one fault accepted or rejected, followed by operations on its target"},
    {"C14", M_CMD | M_READ | M_CLEAR | M_SYNC | M_CRASH, {{"fifo", 1}}, "two or more command lines, batched or split"},
    {"C15", M_REPORT | M_USAGE, {{"report", 4}, {"ioreport", 1}}, "a report or usage query with unsynced or cached blocks"},
    {"C16", M_USAGE | M_LEAK | M_DUR | M_READ | M_LOG | M_CMD, {{"config", 1}}, "cache filled to the configured size and one block beyond"},
    {"C17", M_READ | M_DUR | M_CLEAR | M_SYNC | M_NS, {{"atomic", 3}, {"pair", 1}}, "a command or second operation arrived inside an operation"},
    {"C18", M_READ | M_DUR | M_CLEAR | M_SYNC | M_NS | M_RET, {{"ioerr", 3}, {"ioerrfull", 2}, {"nsfail", 1}}, "an underlying call was made to fail or cut short"},
    {"C19", M_READ | M_SYNC | M_CLEAR | M_DUR | M_RET, {{"threads", 2}, {"storm", 1}}, "two or more threads with modifications"},
    {"C20", M_LOG, {{"log", 1}}, "five or more covered operations"},
    {"C21", M_FD, {{"rawfifo", 3}, {"rw", 2}, {"ns", 1}, {"full", 2}, {"big", 1}, {"report", 1}, {"fifo", 1}, {"tornop", 1}, {"tornseq", 1}, {"clearfault", 1}, {"attr", 1}, {"dirs", 1}}, "five or more operations or command lines"},
    {"C22", M_READ | M_CLEAR | M_DUR | M_SYNC, {{"kill", 1}}, "the process was killed inside an operation"},
    {"C23", M_NS | M_RET, {{"dirs", 3}, {"perm", 1}}, "five or more directory operations"},
};
const PropSpec* prop_spec(const string& id) {
    for (auto& s : SPECS) if (s.id == id) return &s;
    return nullptr;
}
bool nontrivial(const string& prop, const Case& c, const Result& r) {
    auto st = [&](const char* k) { auto i = r.stat.find(k); return i == r.stat.end() ? (i64)0 : i->second; };
    auto nk = [&](std::initializer_list<K> ks) { int n = 0; for (auto& o : c.ops) for (K k : ks) if (o.k == k) n++; return n; };
    int mods = nk({WRITE, APPEND, FTRUNC, TRUNC});
    if (prop == "C01") return mods > 0 && nk({READ, LSEEK, STAT, FSTAT}) > 0;
    if (prop == "C02") return mods > 0 && (st("clear") > 0 || nk({KILL, REMOUNT}) > 0);
    if (prop == "C03") return mods > 0 && nk({FSYNC, FDATASYNC}) > 0;
    if (prop == "C04") return mods > 0;
    if (prop == "C05") return mods > 0 && st("ckpt") > 0;
    if (prop == "C06") return mods > 0 && (nk({RENAME, LINK, UNLINK}) > 0);
    if (prop == "C07") return nk({STAT, FSTAT}) > 0 && (mods > 0 || st("utimens") > 0);
    if (prop == "C08") return mods > c.cfg.pages;
    if (prop == "C09") return st("crashcmd") > 0;
    if (prop == "C10") return st("tornop") > 0 || st("torn_mismatch") > 0;
    if (prop == "C11") return st("tornseq") > 0;
    if (prop == "C12") return st("clearfault") > 0;
    if (prop == "C13") return mods > 0 || c.ops.size() > 4;
    if (prop == "C14") return nk({CMD}) > 0;
    if (prop == "C15") return mods > 0 && nk({CMD}) > 0;
    if (prop == "C16") return mods > 1;
    if (prop == "C17" || prop == "C18") return r.inj_fired > 0;
    if (prop == "C19") return mods > 1;
    if (prop == "C20") return c.ops.size() >= 5;
    if (prop == "C21") return c.ops.size() >= 5;
    if (prop == "C22") return st("killed") > 0;
    if (prop == "C23") return nk({RENAME, LINK, UNLINK, SYMLINK, MKDIR, RMDIR, CHMOD, CHOWN, READDIR, ACCESS, READLINK}) >= 5;
    return true;
}
