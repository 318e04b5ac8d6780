#include "model.hpp"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <sstream>

static const i64 TOL = 60000000; // kernel timestamps come from the coarse clock

static string parent_of(const string& p) {
    size_t s = p.rfind('/');
    return s == string::npos ? "" : p.substr(0, s);
}
static string base_of(const string& p) {
    size_t s = p.rfind('/');
    return s == string::npos ? p : p.substr(s + 1);
}
static bool under(const string& p, const string& dir) {
    return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/';
}
static string hexs(const string& s, size_t from, size_t n) {
    string r;
    char b[4];
    for (size_t i = from; i < s.size() && i < from + n; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); r += b; }
    return r;
}
string show(const string& s, size_t at) {
    size_t from = at > 4 ? at - 4 : 0;
    return "size " + std::to_string(s.size()) + " bytes@" + std::to_string(from) + "=" + hexs(s, from, 24);
}
static size_t first_diff(const string& a, const string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return i;
}

// ---- unsynced written ranges --------------------------------------------------------------------
static void range_add(map<i64, i64>& m, i64 a, i64 b) {
    if (a >= b) return;
    auto it = m.lower_bound(a);
    if (it != m.begin()) {
        auto p = std::prev(it);
        if (p->second >= a) { a = p->first; b = std::max(b, p->second); it = m.erase(p); }
    }
    while (it != m.end() && it->first <= b) { b = std::max(b, it->second); it = m.erase(it); }
    m[a] = b;
}
static void range_cut(map<i64, i64>& m, i64 n) {
    for (auto it = m.begin(); it != m.end();) {
        if (it->first >= n) { it = m.erase(it); continue; }
        if (it->second > n) it->second = n;
        ++it;
    }
}

i64 Model::bs() const {
    if (c->cfg.nocache || !c->cfg.simple.empty()) return 4096;
    return c->cfg.bs;
}

void Model::init(const Case& cc, const string& r, const Snap& snap) {
    c = &cc;
    root = r;
    weak = c->opt.count("weak") != 0;
    nodes.clear();
    names.clear();
    Node rn;
    rn.type = 'd';
    nodes.push_back(rn);
    names[""] = 0;
    map<u64, int> byino;
    for (auto& e : snap) {
        int id;
        if (e.second.type == 'f' && byino.count(e.second.ino)) id = byino[e.second.ino];
        else {
            Node n;
            n.type = e.second.type;
            n.mode = e.second.mode; n.uid = e.second.uid; n.gid = e.second.gid;
            if (n.type == 'f') { n.cur = n.dur = e.second.data; n.nlink = e.second.nlink; n.vers = {n.cur}; }
            if (n.type == 'l') n.target = e.second.data;
            n.mt_lo = n.mt_hi = e.second.mtime;
            id = nodes.size();
            nodes.push_back(n);
            if (e.second.type == 'f') byino[e.second.ino] = id;
        }
        names[e.first] = id;
    }
    if (c->opt.count("shared") && names.count("fS")) {
        const string& d = nodes[names["fS"]].cur;
        for (size_t i = 0; i < d.size(); i++) shared_ok[i] = {d[i]};
        for (auto& o : c->ops)
            if (o.k == WRITE && o.th > 0 && o.h == 6) {
                string w = fill(o.seed, o.len);
                for (size_t i = 0; i < w.size(); i++) shared_ok[o.off + i].insert(w[i]);
            }
    }
}

static bool parse_ints(const string& s, vector<int>& v) { // "1,2" or "[1,2]"
    v.clear();
    string t;
    for (char ch : s) if (ch != '[' && ch != ']' && ch != ' ') t += ch;
    if (t.empty()) return true;
    std::istringstream in(t);
    string x;
    while (std::getline(in, x, ',')) {
        if (x.empty()) return false;
        size_t i = x[0] == '-' ? 1 : 0;
        if (i == x.size()) return false;
        for (size_t j = i; j < x.size(); j++) if (!isdigit((unsigned char)x[j])) return false;
        if (x.size() > 9) return false;
        v.push_back(atoi(x.c_str()));
    }
    return true;
}
static const set<string> OPS = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
static const set<string> MULTI = {"rename", "link", "symlink"};

// validity rules of faults, from the documentation; returns false if invalid
static bool make_tornop(const KV& f, TornOp& t) {
    if (!f.count("file") || f.at("file").empty() || !f.count("persist") || !f.count("occurrence")) return false;
    if (f.count("parts") == f.count("parts_bytes")) return false;
    vector<int> one;
    if (!parse_ints(f.at("occurrence"), one) || one.size() != 1 || one[0] <= 0) return false;
    t.path = f.at("file");
    t.occ = one[0];
    int n;
    if (f.count("parts")) {
        if (!parse_ints(f.at("parts"), one) || one.size() != 1 || one[0] <= 0) return false;
        t.parts = n = one[0];
    } else {
        if (!parse_ints(f.at("parts_bytes"), t.bytes) || t.bytes.empty()) return false;
        for (int b : t.bytes) if (b <= 0) return false;
        n = t.bytes.size();
    }
    if (!parse_ints(f.at("persist"), t.persist)) return false;
    for (int p : t.persist) if (p <= 0 || p > n) return false;
    return true;
}
static bool make_tornseq(const KV& f, TornSeq& t) {
    if (!f.count("file") || f.at("file").empty() || !f.count("persist") || !f.count("occurrence") || !f.count("op")) return false;
    vector<int> one;
    if (!parse_ints(f.at("occurrence"), one) || one.size() != 1 || one[0] <= 0) return false;
    if (f.at("op") != "write") return false;
    t.path = f.at("file");
    t.occ = one[0];
    if (!parse_ints(f.at("persist"), t.persist)) return false;
    for (int p : t.persist) if (p <= 0) return false;
    std::sort(t.persist.begin(), t.persist.end());
    return true;
}
static bool make_clear(const KV& f, ClearFt& t) {
    for (auto k : {"occurrence", "timing", "op", "crash"}) if (!f.count(k)) return false;
    vector<int> one;
    if (!parse_ints(f.at("occurrence"), one) || one.size() != 1 || one[0] <= 0) return false;
    t.occ = one[0];
    t.op = f.at("op");
    if (!OPS.count(t.op)) return false;
    if (f.at("timing") != "before" && f.at("timing") != "after") return false;
    t.before = f.at("timing") == "before";
    t.crash = f.at("crash") == "true";
    if (!f.count("from")) return false;
    if (MULTI.count(t.op) != f.count("to")) return false;
    t.from = f.at("from");
    if (f.count("to")) t.to = f.at("to");
    return true;
}
void Model::add_fault(const KV& raw) {
    KV f;
    for (auto& kv : raw) f[kv.first] = expand(kv.second, root);
    string type = f.count("type") ? f.at("type") : "";
    bool ok = false;
    if (type == "torn-op") {
        TornOp t;
        ok = make_tornop(f, t);
        for (auto& x : tornops) if (x.path == t.path) ok = false;
        if (ok) tornops.push_back(t);
    } else if (type == "torn-seq") {
        TornSeq t;
        ok = make_tornseq(f, t);
        for (auto& x : tornseqs) if (x.path == t.path) ok = false;
        if (ok) tornseqs.push_back(t);
    } else if (type == "clear" || type == "clear-cache") {
        ClearFt t;
        ok = make_clear(f, t);
        for (auto& x : clears) if (x.from == t.from) ok = false;
        if (ok) clears.push_back(t);
    }
    (ok ? cfg_valid : cfg_invalid)++;
}
void Model::session_start() {
    crashes.clear(); tornops.clear(); tornseqs.clear(); clears.clear();
    cfg_valid = cfg_invalid = 0;
    for (auto& f : c->faults) add_fault(f);
    pending.clear();
    log.clear();
    dead = false;
}
void Model::clear_state() {
    for (auto& n : nodes) {
        if (n.type != 'f') continue;
        n.cur = n.dur;
        if (!weak) n.vers = {n.dur}; // weak: what survived is only known from the next look at the disk
        n.modified = false;
        n.ublk.clear(); n.mblk.clear(); n.cblk.clear(); n.uw.clear(); n.seen.clear();
        n.mt_lo = 0; n.mt_hi = INT64_MAX; n.mt_alt = -1; // taken from the underlying file at the next look
        n.at = -1;
        n.unc = false;
    }
}
void Model::session_end() {
    clear_state();
    h.clear();
    pending.clear();
    dead = false;
}

// ---- fault events --------------------------------------------------------------------------------
bool Model::before(const string& op, const string& p, const string& q) {
    stat["ev"]++;
    for (auto& f : crashes) {
        if (!f.before || f.op != op) continue;
        if (f.has_from && !std::regex_search(p, *f.from)) continue;
        if (f.has_to && !std::regex_search(q, *f.to)) continue;
        dead = true;
        ex->at_crash = {report_exp()};
        return true;
    }
    for (auto& f : clears) {
        if (f.op != op || f.from != p || (MULTI.count(op) && f.to != q)) continue;
        f.count++;
        if (f.before && f.count == f.occ) {
            ex->fault_fired = true;
            stat["clearfault"]++;
            if (f.crash) { dead = true; ex->at_crash = {report_exp()}; return true; }
            clear_state();
            ex->cleared = true;
        }
    }
    return false;
}
bool Model::after(const string& op, const string& p, const string& q) {
    for (auto& f : crashes) {
        if (f.before || f.op != op) continue;
        if (f.has_from && !std::regex_search(p, *f.from)) continue;
        if (f.has_to && !std::regex_search(q, *f.to)) continue;
        dead = true;
        ex->at_crash = {report_exp()};
        return true;
    }
    for (auto& f : clears) {
        if (f.op != op || f.from != p || (MULTI.count(op) && f.to != q)) continue;
        if (!f.before && f.count == f.occ) {
            ex->fault_fired = true;
            stat["clearfault"]++;
            if (f.crash) { dead = true; ex->at_crash = {report_exp()}; return true; }
            clear_state();
            ex->cleared = true;
        }
    }
    return false;
}

// ---- tree helpers ----------------------------------------------------------------------------------
i64 Model::lookup_dir(const string& p) {
    if (p.empty()) return 0;
    i64 r = lookup_dir(parent_of(p));
    if (r) return r;
    if (base_of(p).size() > 255) return -ENAMETOOLONG;
    int n = node_at(p);
    if (n < 0) return -ENOENT;
    if (nodes[n].type != 'd') return -ENOTDIR;
    return 0;
}
i64 Model::lookup(const string& p, int* node) {
    i64 r = lookup_dir(parent_of(p));
    if (r) return r;
    if (base_of(p).size() > 255) return -ENAMETOOLONG;
    int n = node_at(p);
    if (n < 0) return -ENOENT;
    nodes[n].seen.insert(p);
    *node = n;
    return 0;
}
bool Model::dir_empty(const string& p) const {
    for (auto i = names.upper_bound(p); i != names.end(); ++i) {
        if (under(i->first, p)) return false;
        if (i->first > p + "0") break; // '0' follows '/'
    }
    return true;
}
bool Model::is_open(int th, const string& p) const {
    for (auto& x : h) if (x.first.first == th && x.second.open && x.second.path == p) return true;
    return false;
}
void Model::moved(int th, const string& a, const string& b) {
    for (auto& x : h) {
        if (x.first.first != th || !x.second.open) continue;
        if (x.second.path == a) x.second.path = b;
        else if (under(x.second.path, a)) x.second.path = b + x.second.path.substr(a.size());
    }
}
void Model::drop_name(const string& p) {
    auto i = names.find(p);
    if (i == names.end()) return;
    Node& n = nodes[i->second];
    n.nlink--;
    n.seen.erase(p);
    names.erase(i);
}
void Model::do_rename(const string& a, const string& b) {
    int na = node_at(a), nb = node_at(b);
    if (na == nb) return; // hard links of one file: nothing happens
    if (nb >= 0) drop_name(b);
    map<string, int> add;
    for (auto it = names.begin(); it != names.end();) {
        if (it->first == a || under(it->first, a)) {
            string to = b + it->first.substr(a.size());
            add[to] = it->second;
            Node& n = nodes[it->second];
            if (n.seen.erase(it->first)) n.seen.insert(to);
            it = names.erase(it);
        } else ++it;
    }
    for (auto& x : add) names[x.first] = x.second;
}
i64 Model::hide(int th, const string& p, size_t idx) {
    string d = parent_of(p), n = ".fuse_hidden" + std::to_string(100000 + idx);
    if (!d.empty()) n = d + "/" + n;
    log.push_back({"rename", full(p), full(n)});
    if (before("rename", full(p), full(n))) return 0;
    do_rename(p, n);
    moved(th, p, n);
    after("rename", full(p), full(n));
    stat["hide"]++;
    return 0;
}

// ---- content ------------------------------------------------------------------------------------------
void Model::content_changed(int n) {
    Node& x = nodes[n];
    x.modified = true;
    if (weak || c->opt.count("full_at")) x.vers.push_back(x.cur);
}
void Model::written(int n, i64 off, i64 len) {
    Node& x = nodes[n];
    i64 B = bs();
    range_add(x.uw, off, off + len);
    for (i64 b = off / B; b <= (off + len - 1) / B; b++) { x.ublk.insert(b); x.cblk.insert(b); }
}
void Model::cut(int n, i64 size) {
    Node& x = nodes[n];
    i64 B = bs(), first = (size + B - 1) / B; // blocks from here on are gone
    range_cut(x.uw, size);
    for (auto* s : {&x.mblk, &x.cblk}) s->erase(s->lower_bound(first), s->end());
    x.ublk.erase(x.ublk.lower_bound(first), x.ublk.end());
    // a partially kept block stays possibly dirty; one without written bytes left is only maybe dirty
    for (auto it = x.ublk.begin(); it != x.ublk.end();) {
        bool any = false;
        for (auto& r : x.uw) if (r.first < (*it + 1) * B && r.second > *it * B) any = true;
        if (!any) { x.mblk.insert(*it); it = x.ublk.erase(it); }
        else ++it;
    }
}
void Model::synced(int n) {
    Node& x = nodes[n];
    x.dur = x.cur;
    x.vers = {x.cur};
    x.modified = false;
    x.ublk.clear(); x.mblk.clear(); x.uw.clear();
    if (ex) ex->synced.insert(n);
}
static void put_bytes(string& s, i64 off, const string& d) {
    if ((i64)s.size() < off + (i64)d.size()) s.resize(off + d.size(), 0);
    s.replace(off, d.size(), d);
}
// returns true if the process dies
bool Model::do_write(const string& p, int n, const string& d, i64 off, i64& ret) {
    LogEv le{"write", full(p), ""};
    le.size = d.size(); le.off = off;
    log.push_back(le);
    if (before("write", full(p), "")) return true;
    {
        Node& x = nodes[n];
        ex->wnode = n;
        ex->before = x.cur;
        i64 B = bs();
        if (off > (i64)x.cur.size())
            for (i64 b = (i64)x.cur.size() / B; b <= (off - 1) / B; b++) { x.mblk.insert(b); x.cblk.insert(b); }
        put_bytes(x.cur, off, d);
        written(n, off, d.size());
        content_changed(n);
    }
    ret = d.size();
    bool die = false;
    for (auto& t : tornseqs) {
        if (t.path != full(p)) continue;
        t.count++;
        if (t.count == 1) { t.has1 = true; t.d1 = d; t.o1 = off; }
        if (t.count == 2) t.groups++;
        if (t.count < 2 || t.groups != t.occ) continue;
        bool want1 = std::count(t.persist.begin(), t.persist.end(), 1);
        if (t.count == 2 && want1) { put_bytes(nodes[n].dur, t.o1, t.d1); stat["tornseq"]++; }
        if (t.count == 2 && want1 && t.persist.back() == 1) die = true;
        if (std::count(t.persist.begin(), t.persist.end(), t.count)) {
            put_bytes(nodes[n].dur, off, d);
            if (t.persist.back() == t.count) die = true;
            stat["tornseq"]++;
        }
    }
    if (!die)
        for (auto& t : tornops) {
            if (t.path != full(p)) continue;
            t.count++;
            if (t.count != t.occ) continue;
            vector<std::pair<i64, i64>> part; // offset in buffer, length
            if (t.parts > 0) {
                i64 each = d.size() / t.parts, at = 0;
                for (int i = 1; i <= t.parts; i++) {
                    i64 len = i == t.parts ? (i64)d.size() - at : each;
                    part.push_back({at, len});
                    at += len;
                }
            } else {
                i64 at = 0;
                for (int b : t.bytes) { part.push_back({at, b}); at += b; }
                if (at != (i64)d.size()) { stat["torn_mismatch"]++; continue; }
            }
            for (int i : t.persist) {
                auto& q = part[i - 1];
                if (q.second) put_bytes(nodes[n].dur, off + q.first, d.substr(q.first, q.second));
            }
            stat["tornop"]++;
            die = true;
        }
    if (die) { dead = true; return true; }
    return after("write", full(p), "");
}
void Model::do_truncate(int n, i64 size) {
    Node& x = nodes[n];
    ex->wnode = n;
    ex->before = x.cur;
    i64 B = bs(), old = x.cur.size();
    if (size > old) for (i64 b = old / B; b <= (size - 1) / B; b++) { x.mblk.insert(b); x.cblk.insert(b); }
    x.cur.resize(size, 0);
    if (size < old) cut(n, size);
    if (size != old) content_changed(n);
}

// ---- operations -------------------------------------------------------------------------------------------
Exp Model::apply(const Op& o, size_t idx) {
    Exp e;
    ex = &e;
    dead = false;
    if (c->opt.count("full_at") && (i64)idx >= c->opt.at("full_at")) weak = true;
    size_t l0 = log.size();
    e.ret = apply_(o, idx);
    e.crash = dead;
    if (e.ret < 0 || dead) for (size_t i = l0; i < log.size(); i++) log[i].sure = false;
    ex = nullptr;
    return e;
}
i64 Model::apply_(const Op& o, size_t idx) {
    auto key = std::make_pair(o.th, o.h);
    auto it = h.find(key);
    Hd* hd = it == h.end() ? nullptr : &it->second;
    bool isopen = hd && hd->open;
    int n = -1, n2 = -1;
    i64 e;
    switch (o.k) {
    case OPEN: {
        if (o.h < 0 || o.h >= 16 || isopen) return RET_SKIP;
        e = lookup_dir(parent_of(o.p));
        if (e) return e;
        if (base_of(o.p).size() > 255) return -ENAMETOOLONG;
        n = node_at(o.p);
        if (n >= 0) {
            nodes[n].seen.insert(o.p);
            if ((o.flags & O_CREAT) && (o.flags & O_EXCL)) return -EEXIST;
            if (nodes[n].type == 'd') return -EISDIR;
            if (nodes[n].type == 'l') return RET_SKIP;
            bool tr = o.flags & O_TRUNC;
            int am = o.flags & O_ACCMODE;
            LogEv le{"open", full(o.p), ""};
            le.mode = tr ? "O_TRUNC" : am == O_WRONLY ? "O_WRONLY" : am == O_RDWR ? "O_RDWR" : "O_RDONLY";
            log.push_back(le);
            if (before("open", full(o.p), "")) return 0;
            if (tr) {
                for (auto& f : crashes) if (f.op == "truncate") invalid = true;
                for (auto& f : clears) if (f.op == "truncate") invalid = true;
                if ((o.flags & O_ACCMODE) == O_RDONLY) invalid = true;
                LogEv tl{"truncate", full(o.p), ""};
                tl.size = 0; tl.sure = false;
                log.push_back(tl);
                do_truncate(n, 0);
                stat["otrunc"]++;
            }
            if (after("open", full(o.p), "")) return 0;
        } else if (o.flags & O_CREAT) {
            int am = o.flags & O_ACCMODE;
            LogEv le{"create", full(o.p), ""};
            le.mode = (o.flags & O_TRUNC) ? "O_TRUNC" : am == O_WRONLY ? "O_WRONLY" : am == O_RDWR ? "O_RDWR" : "O_RDONLY";
            log.push_back(le);
            if (before("create", full(o.p), "")) return 0;
            Node x;
            x.mode = o.len ? o.len : 0644;
            x.vers = {""};
            x.mt_lo = 0;
            n = nodes.size();
            nodes.push_back(x);
            names[o.p] = n;
            nodes[n].seen.insert(o.p);
            stat["create"]++;
            if (after("create", full(o.p), "")) return 0;
        } else return -ENOENT;
        Hd x;
        x.open = true; x.node = n; x.path = o.p; x.flags = o.flags;
        h[key] = x;
        ex->node = n;
        return 0;
    }
    case CLOSE: {
        if (!isopen) return RET_SKIP;
        string p = hd->path;
        h.erase(key);
        if (base_of(p).compare(0, 12, ".fuse_hidden") == 0 && !is_open(o.th, p)) {
            log.push_back({"unlink", full(p), ""});
            if (before("unlink", full(p), "")) return 0;
            drop_name(p);
            after("unlink", full(p), "");
        }
        return 0;
    }
    case READ: {
        if (!isopen) return RET_SKIP;
        if ((hd->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
        n = hd->node;
        nodes[n].seen.insert(hd->path);
        LogEv le{"read", full(hd->path), ""};
        le.size = o.len; le.off = o.off;
        log.push_back(le);
        if (before("read", full(hd->path), "")) return 0;
        ex->node = n;
        const string& s = nodes[n].cur;
        if (o.off < (i64)s.size()) {
            ex->data = s.substr(o.off, o.len);
            i64 B = bs();
            for (i64 b = o.off / B; b <= (o.off + (i64)ex->data.size() - 1) / B; b++) nodes[n].cblk.insert(b);
        }
        nodes[n].at = -1;
        i64 r = ex->data.size();
        after("read", full(hd->path), "");
        return r;
    }
    case WRITE: case APPEND: {
        if (!isopen) return RET_SKIP;
        if ((hd->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
        n = hd->node;
        nodes[n].seen.insert(hd->path);
        i64 off = o.off, ret = 0;
        if (o.k == APPEND || (hd->flags & O_APPEND)) off = nodes[n].cur.size();
        do_write(hd->path, n, fill(o.seed, o.len), off, ret);
        return ret;
    }
    case FTRUNC: case TRUNC: {
        string p;
        if (o.k == FTRUNC) {
            if (!isopen) return RET_SKIP;
            if ((hd->flags & O_ACCMODE) == O_RDONLY) return -EINVAL;
            n = hd->node;
            p = hd->path;
            nodes[n].seen.insert(p);
        } else {
            e = lookup(o.p, &n);
            if (e) return e;
            if (nodes[n].type == 'd') return -EISDIR;
            if (nodes[n].type == 'l') return RET_SKIP;
            p = o.p;
        }
        LogEv le{"truncate", full(p), ""};
        le.size = o.len;
        log.push_back(le);
        if (before("truncate", full(p), "")) return 0;
        do_truncate(n, o.len);
        ex->node = n;
        after("truncate", full(p), "");
        return 0;
    }
    case FSYNC: case FDATASYNC: {
        if (!isopen) return RET_SKIP;
        n = hd->node;
        LogEv le{"fsync", full(hd->path), ""};
        le.mode = o.k == FDATASYNC ? "1" : "0";
        log.push_back(le);
        if (before("fsync", full(hd->path), "")) return 0;
        for (auto& t : tornseqs) if (t.path == full(hd->path)) { t.count = 0; t.has1 = false; }
        if (!(o.th > 0 && c->opt.count("shared") && o.h == 6)) synced(n); // shared file: others write meanwhile
        ex->node = n;
        ex->datasync = o.k == FDATASYNC;
        after("fsync", full(hd->path), "");
        return 0;
    }
    case STAT: {
        if (o.p.empty()) { ex->node = 0; return 0; }
        e = lookup(o.p, &n);
        if (e) return e;
        ex->node = n;
        return 0;
    }
    case FSTAT:
        if (!isopen) return RET_SKIP;
        ex->node = hd->node;
        return 0;
    case UNLINK: {
        e = lookup(o.p, &n);
        if (e) return e;
        if (nodes[n].type == 'd') return -EISDIR;
        if (is_open(o.th, o.p)) return hide(o.th, o.p, idx);
        log.push_back({"unlink", full(o.p), ""});
        if (before("unlink", full(o.p), "")) return 0;
        drop_name(o.p);
        stat["unlink"]++;
        after("unlink", full(o.p), "");
        return 0;
    }
    case RENAME: {
        e = lookup(o.p, &n);
        if (e) return e;
        e = lookup_dir(parent_of(o.q));
        if (e) return e;
        if (o.p == o.q) return 0;
        if (under(o.q, o.p)) return -EINVAL;
        if (base_of(o.q).size() > 255) return -ENAMETOOLONG;
        n2 = node_at(o.q);
        if ((o.flags & 1) && n2 >= 0) { nodes[n2].seen.insert(o.q); return -EEXIST; }
        if ((o.flags & 2) && n2 < 0) return -ENOENT;
        if (under(o.p, o.q)) return -ENOTEMPTY;
        if (n2 >= 0) {
            nodes[n2].seen.insert(o.q);
            if (nodes[n].type == 'd' && nodes[n2].type != 'd') return -ENOTDIR;
            if (nodes[n].type != 'd' && nodes[n2].type == 'd') return -EISDIR;
            if (is_open(o.th, o.q) && !o.flags) {
                hide(o.th, o.q, idx);
                if (dead) return 0;
                n2 = -1;
            }
        }
        log.push_back({"rename", full(o.p), full(o.q)});
        if (before("rename", full(o.p), full(o.q))) return 0;
        if (o.flags) return -EINVAL;
        if (n2 >= 0 && nodes[n2].type == 'd' && !dir_empty(o.q)) return -ENOTEMPTY;
        do_rename(o.p, o.q);
        moved(o.th, o.p, o.q);
        stat[nodes[n].type == 'd' ? "rename_dir" : n2 >= 0 ? "rename_over" : "rename"]++;
        after("rename", full(o.p), full(o.q));
        return 0;
    }
    case LINK: {
        e = lookup(o.p, &n);
        if (e) return e;
        e = lookup_dir(parent_of(o.q));
        if (e) return e;
        if (base_of(o.q).size() > 255) return -ENAMETOOLONG;
        if (node_at(o.q) >= 0) { nodes[node_at(o.q)].seen.insert(o.q); return -EEXIST; }
        if (nodes[n].type == 'd') return -EPERM;
        if (nodes[n].type == 'l') return RET_SKIP;
        log.push_back({"link", full(o.p), full(o.q)});
        if (before("link", full(o.p), full(o.q))) return 0;
        names[o.q] = n;
        nodes[n].nlink++;
        nodes[n].seen.insert(o.q);
        ex->node = n;
        stat["link"]++;
        after("link", full(o.p), full(o.q));
        return 0;
    }
    case SYMLINK: {
        e = lookup_dir(parent_of(o.q));
        if (e) return e;
        if (base_of(o.q).size() > 255) return -ENAMETOOLONG;
        if (node_at(o.q) >= 0) { nodes[node_at(o.q)].seen.insert(o.q); return -EEXIST; }
        log.push_back({"symlink", o.p, full(o.q)});
        if (before("symlink", o.p, full(o.q))) return 0;
        Node x;
        x.type = 'l';
        x.target = o.p;
        x.mode = 0777;
        names[o.q] = nodes.size();
        nodes.push_back(x);
        ex->node = nodes.size() - 1;
        after("symlink", o.p, full(o.q));
        return 0;
    }
    case READLINK: {
        e = lookup(o.p, &n);
        if (e) return e;
        if (nodes[n].type != 'l') return -EINVAL;
        ex->data = nodes[n].target;
        return 0;
    }
    case MKDIR: {
        e = lookup_dir(parent_of(o.p));
        if (e) return e;
        if (base_of(o.p).size() > 255) return -ENAMETOOLONG;
        if (node_at(o.p) >= 0) { nodes[node_at(o.p)].seen.insert(o.p); return -EEXIST; }
        log.push_back({"mkdir", full(o.p), ""});
        Node x;
        x.type = 'd';
        x.mode = o.flags ? o.flags : 0755;
        names[o.p] = nodes.size();
        nodes.push_back(x);
        ex->node = nodes.size() - 1;
        return 0;
    }
    case RMDIR: {
        e = lookup(o.p, &n);
        if (e) return e;
        if (nodes[n].type != 'd') return -ENOTDIR;
        log.push_back({"rmdir", full(o.p), ""});
        if (!dir_empty(o.p)) return -ENOTEMPTY;
        names.erase(o.p);
        return 0;
    }
    case CHMOD: case CHOWN: case UTIMENS: case FUTIMENS: {
        string p = o.p;
        if (o.k == FUTIMENS) {
            if (!isopen) return RET_SKIP;
            n = hd->node;
            p = hd->path;
        } else {
            e = lookup(o.p, &n);
            if (e) return e;
            if (nodes[n].type == 'l' && o.k == CHMOD) return RET_SKIP;
        }
        log.push_back({o.k == CHMOD ? "chmod" : o.k == CHOWN ? "chown" : "utimens", full(p), ""});
        Node& x = nodes[n];
        if (o.k == CHMOD) x.mode = o.flags;
        else if (o.k == CHOWN) {
            if (o.t1 != -1) x.uid = o.t1;
            if (o.t2 != -1) x.gid = o.t2;
        } else {
            if (!(o.flags & 1)) x.at = (o.flags & 4) ? -1 : o.t1;
            if (o.flags & 8) { x.mt_lo = -2; x.mt_alt = -1; } // now: filled in by check()
            else if (!(o.flags & 2)) { x.mt_lo = x.mt_hi = o.t2; x.mt_alt = -1; }
            stat["utimens"]++;
        }
        ex->node = n;
        return 0;
    }
    case ACCESS: {
        e = lookup(o.p, &n);
        if (e) return e;
        if (nodes[n].type == 'l') return RET_SKIP;
        if (before("access", full(o.p), "")) return 0;
        if ((o.flags & 1) && nodes[n].type == 'f' && !(nodes[n].mode & 0111)) return -EACCES;
        after("access", full(o.p), "");
        return 0;
    }
    case READDIR: {
        if (!o.p.empty()) {
            e = lookup(o.p, &n);
            if (e) return e;
            if (nodes[n].type != 'd') return -ENOTDIR;
        }
        return 0;
    }
    case LSEEK:
        if (!isopen) return RET_SKIP;
        ex->node = hd->node;
        return 0;
    case CMD: {
        if (o.th > 0) return 0; // runs at some later moment: the weak oracle covers its effect
        string t = pending + expand(o.text, root);
        pending.clear();
        size_t i = 0;
        while (i < t.size()) {
            size_t nl = t.find('\n', i);
            if (nl == string::npos) { pending = t.substr(i); break; }
            run_line(t.substr(i, nl - i), *ex);
            i = nl + 1;
        }
        return 0;
    }
    case REMOUNT: case KILL: return 0;
    default: return RET_SKIP;
    }
}

// ---- command language ----------------------------------------------------------------------------------------
static vector<string> split(const string& s, const string& sep) {
    vector<string> r;
    size_t i = 0;
    for (;;) {
        size_t j = s.find(sep, i);
        if (j == string::npos) { r.push_back(s.substr(i)); return r; }
        r.push_back(s.substr(i, j - i));
        i = j + sep.size();
    }
}

void Model::run_line(const string& line, Exp& e) {
    if (line == "lazyfs::clear-cache") { clear_state(); e.cleared = true; e.n_clear++; stat["clear"]++; return; }
    if (line == "lazyfs::cache-checkpoint") {
        Exp* save = ex;
        ex = &e;
        for (auto& x : names) {
            Node& n = nodes[x.second];
            if (n.type != 'f') continue;
            if (n.modified && n.seen.empty()) { // known finding C05-1: see known_findings.txt
                stat["known_noname"]++;
                if (!c->opt.count("known")) invalid = true;
            }
            if (n.seen.empty() && !c->opt.count("known")) e.no_mtime.insert(x.second); // known finding C07-1
            synced(x.second);
        }
        ex = save;
        e.n_ckpt++;
        stat["ckpt"]++;
        return;
    }
    if (line == "lazyfs::display-cache-usage") { e.usages.push_back(usage_exp()); return; }
    if (line == "lazyfs::unsynced-data-report") { e.reports.push_back(report_exp()); return; }
    if (line == "lazyfs::help") { e.n_help++; return; }
    vector<string> f = split(line, "::");
    if (f.size() >= 2 && f[0] == "lazyfs" && (f[1] == "crash" || f[1] == "torn-op" || f[1] == "torn-seq")) {
        KV kv;
        bool ok = true;
        set<string> known;
        if (f[1] == "crash") known = {"op", "timing", "from_rgx", "to_rgx"};
        else if (f[1] == "torn-op") known = {"file", "persist", "parts", "parts_bytes", "occurrence"};
        else known = {"file", "op", "persist", "occurrence"};
        for (size_t i = 2; i < f.size(); i++) {
            size_t q = f[i].find('=');
            if (q == string::npos || !known.count(f[i].substr(0, q))) { if (f[1] != "crash") ok = false; continue; }
            kv[f[i].substr(0, q)] = f[i].substr(q + 1);
        }
        auto csv = [](const string& s) {
            if (s.empty() || s[0] == ',' || s.back() == ',') return false;
            for (char ch : s) if (!isdigit((unsigned char)ch) && ch != ',') return false;
            return s.find(",,") == string::npos;
        };
        if (f[1] == "crash") {
            CrashF cf;
            if (!kv.count("op") || !OPS.count(kv["op"])) ok = false;
            if (!kv.count("timing") || (kv["timing"] != "before" && kv["timing"] != "after")) ok = false;
            cf.has_from = kv.count("from_rgx") && !kv["from_rgx"].empty();
            cf.has_to = kv.count("to_rgx") && !kv["to_rgx"].empty();
            if (ok) {
                if (MULTI.count(kv["op"])) { if (!cf.has_from && !cf.has_to) ok = false; }
                else if (!cf.has_from || cf.has_to) ok = false;
            }
            if (ok) {
                try {
                    if (cf.has_from) cf.from = std::make_shared<std::regex>(kv["from_rgx"]);
                    if (cf.has_to) cf.to = std::make_shared<std::regex>(kv["to_rgx"]);
                } catch (std::regex_error&) { ok = false; }
            }
            cf.before = kv["timing"] == "before";
            cf.op = kv["op"];
            if (ok) { crashes.push_back(cf); stat["crashcmd"]++; }
        } else {
            if (!kv.count("occurrence")) kv["occurrence"] = "1"; // documented as a parameter, optional in commands
            for (auto k : {"persist", "parts_bytes", "parts", "occurrence"}) if (kv.count(k) && !csv(kv[k])) ok = false;
            if (f[1] == "torn-op") {
                TornOp t;
                ok = ok && make_tornop(kv, t);
                for (auto& x : tornops) if (x.path == t.path) ok = false;
                if (ok) tornops.push_back(t);
            } else {
                TornSeq t;
                ok = ok && make_tornseq(kv, t);
                for (auto& x : tornseqs) if (x.path == t.path) ok = false;
                if (ok) tornseqs.push_back(t);
            }
        }
        (ok ? e.n_valid : e.n_invalid)++;
        return;
    }
    e.n_unknown++;
}
ReportExp Model::report_exp() const {
    ReportExp r;
    i64 B = bs();
    set<int> done;
    for (auto& x : names) {
        const Node& n = nodes[x.second];
        if (n.type != 'f') continue;
        set<i64> all = n.ublk;
        all.insert(n.mblk.begin(), n.mblk.end());
        if (!n.ublk.empty() && n.seen.count(x.first)) r.must.insert(full(x.first));
        if (!all.empty()) {
            r.may.insert(full(x.first));
            auto& fx = r.files[full(x.first)];
            fx.ublk = n.ublk;
            fx.all = all;
            for (auto& w : n.uw) fx.uw.push_back({w.first, std::min<i64>(w.second, n.cur.size())});
        }
        if (done.insert(x.second).second) {
            // known finding C15-1: a file without any name looked up since the last clear is left out
            if (!n.seen.empty() || c->opt.count("known"))
                for (auto& w : n.uw) r.lo += std::min<i64>(w.second, n.cur.size()) - w.first;
            r.hi += (i64)all.size() * B;
        }
    }
    return r;
}
UsageExp Model::usage_exp() const {
    i64 lo = 0, hi = 0, bpp = c->cfg.bpp, pages = c->cfg.pages;
    set<int> done;
    for (auto& x : names) {
        const Node& n = nodes[x.second];
        if (n.type != 'f' || !done.insert(x.second).second) continue;
        lo += ((i64)n.ublk.size() + bpp - 1) / bpp;
        set<i64> all = n.cblk;
        all.insert(n.ublk.begin(), n.ublk.end());
        all.insert(n.mblk.begin(), n.mblk.end());
        hi += c->opt.count("geom") ? ((i64)all.size() + bpp - 1) / bpp : (i64)all.size();
    }
    UsageExp u;
    u.lo = std::min(100.0, 100.0 * lo / pages);
    u.hi = std::min(100.0, 100.0 * hi / pages);
    return u;
}

// ---- comparison ---------------------------------------------------------------------------------------------
static bool bad(Fail& f, const string& cat, const string& msg) {
    f.cat = cat;
    f.msg = msg;
    return false;
}
static string S(i64 v) { return std::to_string(v); }
static string lower(string s) {
    for (auto& ch : s) ch = tolower((unsigned char)ch);
    return s;
}
static size_t count_of(const string& s, const string& p) {
    size_t n = 0;
    for (size_t i = s.find(p); i != string::npos; i = s.find(p, i + p.size())) n++;
    return n;
}

static bool check_seek(const Op& o, const string& s, i64 r, string& why) {
    i64 sz = s.size();
    if (o.off < 0 || o.off >= sz) {
        if (r == -ENXIO) return true;
        if (o.flags == SEEK_HOLE && o.off == sz && r == sz) return true;
        why = "expected ENXIO";
        return false;
    }
    if (o.flags == SEEK_DATA) {
        i64 nz = o.off;
        while (nz < sz && !s[nz]) nz++;
        if (r == -ENXIO) {
            if (nz == sz) return true;
            why = "data exists at " + S(nz);
            return false;
        }
        if (r < o.off || r >= sz) { why = "position outside the file"; return false; }
        if (r > nz) { why = "skipped data at " + S(nz); return false; }
        return true;
    }
    if (r < o.off || r > sz) { why = "position outside the file"; return false; }
    if (r < sz && s[r]) { why = "not a hole"; return false; }
    return true;
}

// the block and byte ranges a report prints for each inode, against the blocks of the files it names for it
static bool check_ranges(const string& t, const ReportExp& rep, i64 B, const string& what, Fail& f) {
    struct Rng { i64 b0, b1, y0, y1; };
    std::map<string, vector<Rng>> got;
    std::map<string, set<string>> paths;
    std::istringstream in(t);
    string l;
    while (std::getline(in, l)) {
        size_t p = l.find("report: [inode ");
        if (p == string::npos) continue;
        size_t q = l.find(']', p);
        string ino = l.substr(p + 15, q - p - 15);
        long long a, b, c, d;
        size_t x = l.find("(block ", q), y = l.find("file: '", q);
        if (x != string::npos && sscanf(l.c_str() + x, "(block %lld) to (block %lld) [byte index %lld to index %lld]", &a, &b, &c, &d) == 4)
            got[ino].push_back({a - snap_hi / B, b - snap_hi / B, c, d});
        else if (y != string::npos) paths[ino].insert(l.substr(y + 7, l.find('\'', y + 7) - y - 7));
    }
    for (auto& g : paths) {
        auto fi = rep.files.find(*g.second.begin());
        if (fi == rep.files.end()) continue; // judged by name
        const auto& F = fi->second;
        string w = what + ": " + *g.second.begin() + ": ";
        if (!F.all.empty() && *F.all.rbegin() > INT32_MAX / 2) continue;
        set<i64> blk;
        for (auto& r : got[g.first]) {
            string rs = "blocks " + S(r.b0) + " to " + S(r.b1) + " bytes " + S(r.y0) + " to " + S(r.y1);
            if (r.b0 < 0 || r.b1 < r.b0 || r.b1 - r.b0 > 1000000) return bad(f, "REPORT", w + "impossible range: " + rs);
            for (i64 b = r.b0; b <= r.b1; b++) {
                if (!blk.insert(b).second) return bad(f, "REPORT", w + "block " + S(b) + " listed twice");
                if (!F.all.count(b)) return bad(f, "REPORT", w + "block " + S(b) + " reported as unsynced, but it is not");
            }
            if (r.y0 < 0 || r.y1 < r.y0 || r.y1 >= (r.b1 - r.b0 + 1) * B) return bad(f, "REPORT", w + "impossible byte range: " + rs);
            for (auto& u : F.uw) { // written bytes inside these blocks lie inside the printed byte range
                i64 lo = std::max(u.first, r.b0 * B), hi = std::min(u.second, (r.b1 + 1) * B);
                if (lo < hi && (lo - r.b0 * B < r.y0 || hi - 1 - r.b0 * B > r.y1)) return bad(f, "REPORT", w + "unsynced bytes " + S(lo) + ".." + S(hi) + " outside the reported range: " + rs);
            }
        }
        for (i64 b : F.ublk) if (!blk.count(b)) return bad(f, "REPORT", w + "unsynced block " + S(b) + " not reported");
    }
    return true;
}
bool Model::check_report(const string& t, const ReportExp& rep, const string& what, Fail& f) {
    set<string> files;
    for (size_t i = t.find("file: '"); i != string::npos; i = t.find("file: '", i)) {
        i += 7;
        size_t j = t.find('\'', i);
        if (!files.insert(t.substr(i, j - i)).second) return bad(f, "REPORT", what + ": file listed twice: " + t.substr(i, j - i));
    }
    for (auto& m : rep.must) if (!files.count(m)) return bad(f, "REPORT", what + ": unsynced file not reported: " + m);
    for (auto& m : files) if (!rep.may.count(m)) return bad(f, "REPORT", what + ": synced or unknown file reported: " + m);
    if (!check_ranges(t, rep, bs(), what, f)) return false;
    size_t q = t.find("bytes un-fsynced: ");
    i64 tot = q == string::npos ? 0 : atoll(t.c_str() + q + 18);
    if (tot < rep.lo || tot > rep.hi)
        return bad(f, "REPORT", what + ": " + S(tot) + " unsynced bytes reported, expected " + S(rep.lo) + ".." + S(rep.hi));
    return true;
}

bool Model::check(const Op& o, const Exp& e, const Rec& r, Fail& f) {
    string what = op_to_text(o);
    if (e.ret == RET_SKIP || r.ret == RET_SKIP) {
        if (e.ret == r.ret) return true;
        if (mask & M_RET) return bad(f, "RET", what + ": applicable on one side only");
        invalid = true;
        return true;
    }
    // timestamps of what this operation changed
    if (e.wnode >= 0) {
        Node& n = nodes[e.wnode];
        bool chg = n.cur != e.before || o.k == WRITE || o.k == APPEND;
        i64 olo = n.mt_lo, ohi = n.mt_hi;
        if (r.ret >= 0 && !e.cleared) {
            n.mt_lo = r.t0 - TOL; n.mt_hi = r.t1 + TOL; n.mt_alt = -1;
            if (!chg) { if (olo == ohi) n.mt_alt = olo; else { n.mt_lo = 0; n.mt_hi = INT64_MAX; } }
        }
    }
    if ((o.k == UTIMENS || o.k == FUTIMENS) && e.node >= 0 && nodes[e.node].mt_lo == -2) {
        nodes[e.node].mt_lo = r.t0 - TOL;
        nodes[e.node].mt_hi = r.t1 + TOL;
    }
    if (o.k == OPEN && e.ret == 0 && e.wnode < 0 && e.node >= 0 && nodes[e.node].mt_lo == 0 && nodes[e.node].cur.empty()
        && !e.cleared) {
        ; // fresh or cleared file: times taken from the first look
    }
    if (o.k == LSEEK) {
        string why;
        if ((mask & M_READ) && !check_seek(o, nodes[e.node].cur, r.ret, why))
            return bad(f, "READ", what + ": returned " + S(r.ret) + ", " + why + "; content " + show(nodes[e.node].cur, o.off));
        return true;
    }
    if (o.k == READ && e.ret >= 0 && r.ret >= 0) {
        if ((mask & M_READ) && o.th > 0 && o.flags == 1 && c->opt.count("shared")) { // ranges others write to
            if (r.ret != e.ret) return bad(f, "READ", what + ": returned " + S(r.ret) + " bytes, expected " + S(e.ret));
            for (size_t i = 0; i < r.data.size(); i++)
                if (!shared_ok[o.off + i].count(r.data[i]))
                    return bad(f, "READ", what + ": byte " + S(o.off + i) + " has a value nobody wrote there: " + show(r.data, i));
        } else if (mask & M_READ) {
            if (r.ret != e.ret) return bad(f, "READ", what + ": returned " + S(r.ret) + " bytes, expected " + S(e.ret));
            if (r.data != e.data) {
                size_t i = first_diff(r.data, e.data);
                return bad(f, "READ", what + ": byte " + S(o.off + i) + " differs: got " + show(r.data, i) + " expected " + show(e.data, i));
            }
        }
    } else if (r.ret != e.ret) {
        if ((mask & M_RET) || ((mask & M_READ) && (o.k == READ || o.k == WRITE || o.k == APPEND)) ||
            ((mask & M_SYNC) && (o.k == FSYNC || o.k == FDATASYNC)))
            return bad(f, "RET", what + ": returned " + S(r.ret) + ", expected " + S(e.ret) + r.note);
        invalid = true;
        return true;
    }
    if (o.k == READLINK && e.ret == 0 && (mask & M_NS) && r.data != e.data)
        return bad(f, "NS", what + ": target '" + r.data + "', expected '" + e.data + "'");
    if (o.k == READDIR && e.ret == 0 && (mask & M_NS)) {
        map<string, int> got;
        size_t i = 0;
        while (i < r.data.size()) {
            size_t j = r.data.find('\0', i);
            got[r.data.substr(i, j - i)]++;
            i = j + 1;
        }
        got.erase(".");
        got.erase("..");
        map<string, int> want;
        for (auto& x : names) if (!x.first.empty() && parent_of(x.first) == o.p) want[base_of(x.first)]++;
        if (got != want) {
            string a, b;
            for (auto& x : got) a += x.first + "*" + S(x.second) + " ";
            for (auto& x : want) b += x.first + " ";
            return bad(f, "NS", what + ": listed " + a + "expected " + b);
        }
    }
    if (o.k == READDIR && (mask & M_ATTR)) {
        if (r.note.find("dirino") != string::npos)
            return bad(f, "ATTR", what + ": an entry is listed with another inode number than a stat of it shows");
        if (r.note.find("dirplus") != string::npos)
            return bad(f, "ATTR", what + ": an entry is listed with attributes other than those of the file");
        for (size_t i = 0; (i = r.note.find('\1', i)) != string::npos; i++) {
            size_t j = r.note.find('\2', i);
            auto x = names.find((o.p.empty() ? "" : o.p + "/") + r.note.substr(i + 1, j - i - 1));
            if (x == names.end() || nodes[x->second].type != 'f') continue;
            i64 size = atoll(r.note.c_str() + j + 1);
            if (size != (i64)nodes[x->second].cur.size())
                return bad(f, "ATTR", what + ": " + x->first + " is listed with size " + S(size) + ", expected " + S(nodes[x->second].cur.size()));
        }
    }
    if (r.has_st && e.node >= 0) {
        Node& n = nodes[e.node];
        const struct stat& s = r.st;
        if (n.type == 'f' && (mask & (M_READ | M_ATTR)) && s.st_size != (i64)n.cur.size())
            return bad(f, "SIZE", what + ": size " + S(s.st_size) + ", expected " + S(n.cur.size()));
        if (mask & M_ATTR) {
            char t = S_ISDIR(s.st_mode) ? 'd' : S_ISLNK(s.st_mode) ? 'l' : 'f';
            if (t != n.type) return bad(f, "ATTR", what + ": type " + string(1, t) + ", expected " + string(1, n.type));
            if (e.node != 0 && n.type != 'l' && (s.st_mode & 07777) != n.mode)
                return bad(f, "ATTR", what + ": mode " + S(s.st_mode & 07777) + ", expected " + S(n.mode));
            if (e.node != 0 && (s.st_uid != n.uid || s.st_gid != n.gid)) return bad(f, "ATTR", what + ": owner " + S(s.st_uid) + ":" + S(s.st_gid));
            if (n.type == 'f' && (int)s.st_nlink != n.nlink)
                return bad(f, "ATTR", what + ": link count " + S(s.st_nlink) + ", expected " + S(n.nlink));
            if (n.type == 'f') {
                if (n.ino == 0) {
                    for (auto& x : names) {
                        int id = x.second;
                        if (id != e.node && nodes[id].type == 'f' && nodes[id].ino == s.st_ino)
                            return bad(f, "ATTR", what + ": inode number shared with unrelated file " + x.first);
                    }
                    n.ino = s.st_ino;
                } else if (n.ino != s.st_ino)
                    return bad(f, "ATTR", what + ": inode number changed from " + S(n.ino) + " to " + S(s.st_ino));
                i64 mt = (i64)s.st_mtim.tv_sec * 1000000000 + s.st_mtim.tv_nsec;
                i64 at = (i64)s.st_atim.tv_sec * 1000000000 + s.st_atim.tv_nsec;
                if (!((mt >= n.mt_lo && mt <= n.mt_hi) || (n.mt_alt >= 0 && mt == n.mt_alt)))
                    return bad(f, "ATTR", what + ": modification time " + S(mt) + ", expected in [" + S(n.mt_lo) + "," + S(n.mt_hi) + "]");
                n.mt_lo = n.mt_hi = mt;
                n.mt_alt = -1;
                if (n.at >= 0 && at != n.at) return bad(f, "ATTR", what + ": access time " + S(at) + ", expected " + S(n.at));
            }
        }
    }
    if (r.note.find("dirtype") != string::npos && (mask & M_NS)) return bad(f, "NS", what + ": an entry is listed with the type of something else");
    if (r.note.find("statdiff") != string::npos && (mask & (M_ATTR | M_NS)))
        return bad(f, "ATTR", what + ": the attributes of a directory or link differ from those in the underlying storage");
    if (r.note.find("keep_cache") != string::npos && (mask & M_READ))
        return bad(f, "READ", what + ": the kernel is allowed to keep stale pages (keep_cache)");
    if (o.k == CMD) {
        if (mask & M_CMD) {
            if (c->cfg.completed) {
                string want;
                for (int i = 0; i < e.n_clear; i++) want += "finished::clear-cache\n";
                string got = r.note;
                size_t q = got.find(" nfd=");
                if (q != string::npos) got.resize(q);
                if (got != want) return bad(f, "CMD", what + ": completion messages '" + got + "', expected " + S(e.n_clear));
            }
            if (c->cfg.logfile) {
                string l = lower(r.data);
                size_t inv = count_of(l, "invalid ");
                if (e.n_invalid && !inv) return bad(f, "CMD", what + ": invalid fault not reported as invalid");
                if (!e.n_invalid && inv) return bad(f, "CMD", what + ": valid fault reported as invalid");
                if (count_of(r.data, "cache usage (%pages) is ") != e.usages.size())
                    return bad(f, "CMD", what + ": usage displayed " + S(count_of(r.data, "cache usage (%pages) is ")) + " times, expected " + S(e.usages.size()));
                if (count_of(r.data, "checkpoint is done") != (size_t)e.n_ckpt)
                    return bad(f, "CMD", what + ": checkpoint executed " + S(count_of(r.data, "checkpoint is done")) + " times, expected " + S(e.n_ckpt));
                if (count_of(r.data, "cache is cleared") != (size_t)e.n_clear)
                    return bad(f, "CMD", what + ": clear executed " + S(count_of(r.data, "cache is cleared")) + " times, expected " + S(e.n_clear));
                if (count_of(r.data, "report generated") != e.reports.size())
                    return bad(f, "CMD", what + ": report produced " + S(count_of(r.data, "report generated")) + " times, expected " + S(e.reports.size()));
            }
        }
        if (c->cfg.logfile && (mask & M_REPORT) && !e.reports.empty()) {
            size_t at = 0;
            for (auto& rep : e.reports) {
                size_t b = r.data.find("report generated", at);
                if (b == string::npos) return bad(f, "REPORT", what + ": no report");
                size_t n = r.data.find("report request submitted", b);
                string t = r.data.substr(b, n == string::npos ? string::npos : n - b);
                at = b + 10;
                if (!check_report(t, rep, what, f)) return false;
            }
        }
        if (c->cfg.logfile && (mask & M_USAGE) && !e.usages.empty()) {
            size_t at = 0;
            for (auto& u : e.usages) {
                size_t b = r.data.find("cache usage (%pages) is ", at);
                if (b == string::npos) return bad(f, "USAGE", what + ": no usage line");
                b = r.data.find(" is ", b);
                double v = atof(r.data.c_str() + b + 4);
                at = b;
                if (weak) {
                    if (v < 0 || v > 100.0001) return bad(f, "USAGE", what + ": usage " + std::to_string(v) + "%");
                } else if (v < u.lo - 0.001 || v > u.hi + 0.001)
                    return bad(f, "USAGE", what + ": usage " + std::to_string(v) + "%, expected " + std::to_string(u.lo) + ".." + std::to_string(u.hi));
            }
        }
    }
    return true;
}

// bg: checkpoints ran at unknown moments, so any version may have been durable for a while
static bool weak_ok(const Node& n, const string& got, bool bg, string& why) {
    size_t lo = n.cur.size(), hi = n.cur.size();
    lo = std::min(lo, n.dur.size()); hi = std::max(hi, n.dur.size());
    for (auto& v : n.vers) { lo = std::min(lo, v.size()); hi = std::max(hi, v.size()); }
    if (got.size() < lo || got.size() > hi) { why = "size " + S(got.size()) + " outside " + S(lo) + ".." + S(hi); return false; }
    for (size_t i = 0; i < got.size(); i++) {
        char b = got[i];
        if (i < n.cur.size() && n.cur[i] == b) continue;
        if (i < n.dur.size() ? n.dur[i] == b : b == 0) continue;
        bool ok = false;
        for (auto& v : n.vers) if (i < v.size() ? v[i] == b : bg && b == 0) { ok = true; break; }
        if (!ok) { why = "byte " + S(i) + " has a value never written there: " + show(got, i); return false; }
    }
    return true;
}

void Model::adopt(const Snap& s) {
    for (auto& x : names) {
        Node& n = nodes[x.second];
        if (n.type != 'f') continue;
        auto i = s.find(x.first);
        if (i == s.end()) continue;
        n.dur = i->second.data;
    }
}

// after_clear: unsynced state has just been dropped (cur already equals the model's dur)
bool Model::check_snap(const Snap& s, const Exp& e, Fail& f, bool after_clear) {
    if (mask & M_NS) {
        for (auto& x : s) if (!names.count(x.first)) return bad(f, "NS", "underlying tree has unexpected entry " + x.first);
        for (auto& x : names) {
            if (x.first.empty()) continue;
            auto i = s.find(x.first);
            if (i == s.end()) return bad(f, "NS", "underlying tree lacks " + x.first);
            const Node& n = nodes[x.second];
            if (i->second.type != n.type) return bad(f, "NS", x.first + ": wrong type " + string(1, i->second.type));
            if (n.type == 'l' && i->second.data != n.target) return bad(f, "NS", x.first + ": wrong link target " + i->second.data);
            if (n.type == 'f' && (int)i->second.nlink != n.nlink) return bad(f, "NS", x.first + ": link count on disk " + S(i->second.nlink) + ", expected " + S(n.nlink));
            if ((n.type != 'l' && i->second.mode != n.mode) || (i->second.uid != n.uid || i->second.gid != n.gid))
                return bad(f, "NS", x.first + ": mode/owner on disk " + S(i->second.mode) + " " + S(i->second.uid) + ":" + S(i->second.gid));
        }
    } else {
        for (auto& x : s) if (!names.count(x.first)) { invalid = true; return true; }
        for (auto& x : names) if (!x.first.empty() && !s.count(x.first)) { invalid = true; return true; }
    }
    for (auto& x : names) {
        Node& n = nodes[x.second];
        if (n.type != 'f') continue;
        const Ent& g = s.at(x.first);
        bool sy = e.synced.count(x.second) != 0;
        string why;
        if (weak) {
            bool want = after_clear ? (mask & M_CLEAR) : (mask & M_DUR);
            if (want && !sy && !weak_ok(n, g.data, c->opt.count("joins") > 0, why)) return bad(f, after_clear ? "CLEAR" : "LEAK", x.first + ": underlying file: " + why);
        }
        unsigned need = sy ? (M_DUR | M_SYNC) : after_clear ? M_CLEAR : (M_DUR | M_LEAK);
        if ((!weak || sy) && (mask & need) && g.data != n.dur) {
            size_t i = first_diff(g.data, n.dur);
            return bad(f, sy ? "SYNC" : after_clear ? "CLEAR" : "LEAK",
                       x.first + (sy ? ": sync did not make the file durable: on disk "
                                     : after_clear ? ": wrong recovered content on disk "
                                                   : ": content on disk changed without a sync: on disk ") +
                           show(g.data, i) + " expected " + show(n.dur, i));
        }
        if ((mask & M_ATTR) && sy && !e.datasync && !e.no_mtime.count(x.second) && !e.cleared && n.mt_lo == n.mt_hi && c->opt.count("mtime")) {
            i64 d = g.mtime - n.mt_lo;
            if (d) return bad(f, "ATTR", x.first + ": fsync did not carry the modification time: on disk " + S(g.mtime) + ", shown " + S(n.mt_lo));
        }
    }
    // from here on the observed state is the durable state (identical unless unchecked or weak)
    for (auto& x : names) {
        Node& n = nodes[x.second];
        if (n.type != 'f') continue;
        const Ent& g = s.at(x.first);
        if (after_clear && n.modified && !weak) n.dur = g.data; // modified again after the clear
        else if (after_clear) {
            n.cur = n.dur = g.data;
            n.vers = {n.cur};
            n.mt_lo = n.mt_hi = g.mtime;
            n.mt_alt = -1;
        } else if (!weak) n.dur = g.data;
    }
    return true;
}

// State after the process was killed inside an operation.
bool kill_ok(Model& a, Model& b, bool after_possible, const set<int>& wb, const Snap& s, Fail& f, Model& out) {
    auto same_names = [&](Model& m) {
        for (auto& x : s) {
            if (!m.names.count(x.first)) return false;
            Node& n = m.nodes[m.names[x.first]];
            if (n.type != x.second.type) return false;
            if (n.type == 'l' && n.target != x.second.data) return false;
        }
        for (auto& x : m.names) if (!x.first.empty() && !s.count(x.first)) return false;
        return true;
    };
    // names may agree with both: then contents decide
    Model* cand[2] = {&a, after_possible ? &b : nullptr};
    bool names_ok = false;
    for (Model* m : cand) {
        if (!m || !same_names(*m)) continue;
        names_ok = true;
        Model t = *m;
        bool ok = true;
        for (auto& x : t.names) {
            Node& n = t.nodes[x.second];
            if (n.type != 'f') continue;
            const Ent& g = s.at(x.first);
            // durable state before the operation
            string dur = x.second < (int)a.nodes.size() ? a.nodes[x.second].dur : string();
            string cur = x.second < (int)a.nodes.size() ? a.nodes[x.second].cur : string();
            if (!wb.count(x.second)) {
                if (g.data != dur) {
                    ok = false;
                    size_t i = first_diff(g.data, dur);
                    bad(f, "KILL", x.first + ": not being written back, yet changed: on disk " + show(g.data, i) + " expected " + show(dur, i));
                    break;
                }
            } else {
                size_t lo = std::min(dur.size(), cur.size()), hi = std::max(dur.size(), cur.size());
                if (g.data.size() < lo || g.data.size() > hi) { ok = false; bad(f, "KILL", x.first + ": size " + S(g.data.size()) + " outside " + S(lo) + ".." + S(hi)); break; }
                for (size_t i = 0; i < g.data.size() && ok; i++) {
                    char ch = g.data[i];
                    if (i < cur.size() && cur[i] == ch) continue;
                    if (i < dur.size() ? dur[i] == ch : ch == 0) continue;
                    ok = false;
                    bad(f, "KILL", x.first + ": byte " + S(i) + " is neither old, new nor zero: " + show(g.data, i));
                }
                if (!ok) break;
            }
            n.dur = g.data;
        }
        if (ok) { t.session_end(); out = t; return true; }
    }
    if (!names_ok) bad(f, "KILL", "names on disk are neither those before nor those after the operation");
    return false;
}
