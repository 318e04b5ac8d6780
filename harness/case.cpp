// Text form of cases (replay files), deterministic content, TOML rendering, tree snapshots.
#include "lfz.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <sstream>
#include <unistd.h>

const char* KNAME[NKINDS] = {"OPEN", "CLOSE", "READ", "WRITE", "APPEND", "FTRUNC", "TRUNC", "FSYNC",
    "FDATASYNC", "STAT", "FSTAT", "UNLINK", "RENAME", "LINK", "SYMLINK", "READLINK", "MKDIR", "RMDIR",
    "CHMOD", "CHOWN", "UTIMENS", "ACCESS", "READDIR", "LSEEK", "CMD", "REMOUNT", "KILL", "FUTIMENS"};

static string enc(const string& s) {
    string r;
    char b[8];
    for (unsigned char c : s) {
        if (isalnum(c) || strchr("._-/:,=[]@+*?()^$|\\{}\"<>", c)) r += c;
        else { snprintf(b, 8, "%%%02x", c); r += b; }
    }
    return r.empty() ? "%" : r;
}
static string dec(const string& s) {
    if (s == "%") return "";
    string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit((unsigned char)s[i + 1])) {
            r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16);
            i += 2;
        } else r += s[i];
    }
    return r;
}

string op_to_text(const Op& o) {
    std::ostringstream s;
    s << KNAME[o.k];
    if (o.h >= 0) s << " h=" << o.h;
    if (!o.p.empty()) s << " p=" << enc(o.p);
    if (!o.q.empty()) s << " q=" << enc(o.q);
    if (o.off) s << " off=" << o.off;
    if (o.len) s << " len=" << o.len;
    if (o.seed) s << " seed=" << o.seed;
    if (o.flags) s << " flags=" << o.flags;
    if (o.t1) s << " t1=" << o.t1;
    if (o.t2) s << " t2=" << o.t2;
    if (!o.text.empty()) s << " text=" << enc(o.text);
    if (o.th) s << " th=" << o.th;
    if (o.inj.act) {
        s << " inj=" << o.inj.act << " icls=" << o.inj.cls << " ik=" << o.inj.k << " ierr=" << o.inj.err;
        if (!o.inj.cmd.empty()) s << " icmd=" << enc(o.inj.cmd);
    }
    return s.str();
}

static bool op_from(std::istringstream& in, const string& kind, Op& o) {
    int k = -1;
    for (int i = 0; i < NKINDS; i++) if (kind == KNAME[i]) k = i;
    if (k < 0) return false;
    o.k = (K)k;
    string t;
    while (in >> t) {
        size_t e = t.find('=');
        if (e == string::npos) return false;
        string n = t.substr(0, e), v = t.substr(e + 1);
        if (n == "h") o.h = atoi(v.c_str());
        else if (n == "p") o.p = dec(v);
        else if (n == "q") o.q = dec(v);
        else if (n == "off") o.off = atoll(v.c_str());
        else if (n == "len") o.len = atoll(v.c_str());
        else if (n == "seed") o.seed = atoll(v.c_str());
        else if (n == "flags") o.flags = atoi(v.c_str());
        else if (n == "t1") o.t1 = atoll(v.c_str());
        else if (n == "t2") o.t2 = atoll(v.c_str());
        else if (n == "text") o.text = dec(v);
        else if (n == "th") o.th = atoi(v.c_str());
        else if (n == "inj") o.inj.act = v[0];
        else if (n == "icls") o.inj.cls = v;
        else if (n == "ik") o.inj.k = atoi(v.c_str());
        else if (n == "ierr") o.inj.err = atoi(v.c_str());
        else if (n == "icmd") o.inj.cmd = dec(v);
        else return false;
    }
    return true;
}

string case_to_text(const Case& c) {
    std::ostringstream s;
    s << "PROFILE " << c.prof << "\n";
    const Cfg& g = c.cfg;
    s << "CFG bs=" << g.bs << " bpp=" << g.bpp << " pages=" << g.pages << " evict=" << g.evict << " logops=" << g.logops
      << " logfile=" << g.logfile << " completed=" << g.completed << " nobpp=" << g.nobpp << " noevict=" << g.noevict
      << " nofs=" << g.nofs << " nocache=" << g.nocache;
    if (!g.simple.empty()) s << " simple=" << enc(g.simple);
    s << "\n";
    for (auto& o : c.opt) s << "OPT " << o.first << " " << o.second << "\n";
    for (auto& e : c.init)
        s << "INIT " << e.type << " " << enc(e.p) << " " << enc(e.q) << " " << e.len << " " << e.seed << "\n";
    for (auto& f : c.faults) {
        s << "INJECTION";
        for (auto& kv : f) s << " " << kv.first << " " << enc(kv.second);
        s << "\n";
    }
    for (auto& o : c.ops) s << op_to_text(o) << "\n";
    return s.str();
}

bool case_from_text(const string& t, Case& c) {
    c = Case();
    std::istringstream all(t);
    string line;
    while (std::getline(all, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream in(line);
        string kind;
        in >> kind;
        if (kind == "PROFILE") in >> c.prof;
        else if (kind == "CFG") {
            string t;
            while (in >> t) {
                size_t e = t.find('=');
                string n = t.substr(0, e), v = t.substr(e + 1);
                int x = atoi(v.c_str());
                Cfg& g = c.cfg;
                if (n == "bs") g.bs = x; else if (n == "bpp") g.bpp = x; else if (n == "pages") g.pages = x;
                else if (n == "evict") g.evict = x; else if (n == "logops") g.logops = x;
                else if (n == "logfile") g.logfile = x; else if (n == "completed") g.completed = x;
                else if (n == "nobpp") g.nobpp = x; else if (n == "noevict") g.noevict = x;
                else if (n == "nofs") g.nofs = x; else if (n == "nocache") g.nocache = x;
                else if (n == "simple") g.simple = dec(v);
            }
        } else if (kind == "OPT") {
            string n; i64 v;
            in >> n >> v;
            c.opt[n] = v;
        } else if (kind == "INIT") {
            InitEnt e;
            string p, q;
            in >> e.type >> p >> q >> e.len >> e.seed;
            e.p = dec(p); e.q = dec(q);
            c.init.push_back(e);
        } else if (kind == "INJECTION") {
            KV f;
            string k, v;
            while (in >> k >> v) f[k] = dec(v);
            c.faults.push_back(f);
        } else {
            Op o;
            if (!op_from(in, kind, o)) return false;
            c.ops.push_back(o);
        }
    }
    return true;
}

string fill(i64 seed, i64 len) {
    string r(len, 0);
    if (seed == 0) return r;
    u64 x = (u64)seed * 0x9E3779B97F4A7C15ull;
    for (i64 i = 0; i < len; i++) {
        u64 z = x + (u64)i * 0xD1B54A32D192ED03ull;
        z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
        r[i] = (char)(1 + ((z >> 32) % 255));
    }
    return r;
}

string expand(const string& s, const string& root) {
    string r;
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, 6, "@ROOT@") == 0) { r += root; i += 6; }
        else r += s[i++];
    }
    return r;
}

string toml_of(const Case& c, const string& root, const string& base) {
    const Cfg& g = c.cfg;
    std::ostringstream s;
    s << "[faults]\nfifo_path=\"" << base << "/fifo\"\n";
    if (g.completed) s << "fifo_path_completed=\"" << base << "/fifo_done\"\n";
    s << "[cache]\n";
    if (!g.noevict) s << "apply_eviction=" << (g.evict ? "true" : "false") << "\n";
    if (!g.nocache) {
        if (!g.simple.empty()) {
            s << "[cache.simple]\ncustom_size=\"" << g.simple << "\"\n";
            if (!g.nobpp) s << "blocks_per_page=" << g.bpp << "\n";
        } else
            s << "[cache.manual]\nio_block_size=" << g.bs << "\npage_size=" << (i64)g.bs * g.bpp << "\nno_pages=" << g.pages << "\n";
    }
    if (!g.nofs) {
        s << "[filesystem]\nlog_all_operations=" << (g.logops ? "true" : "false") << "\n";
        s << "logfile=\"" << (g.logfile ? base + "/lfs.log" : string("")) << "\"\n";
    }
    for (auto& f : c.faults) {
        s << "[[injection]]\n";
        for (auto& kv : f) {
            const string& k = kv.first;
            bool str = k == "type" || k == "file" || k == "op" || k == "timing" || k == "from" || k == "to";
            string v = expand(kv.second, root);
            if (str) s << k << "=\"" << v << "\"\n";
            else s << k << "=" << v << "\n";
        }
    }
    return s.str();
}

i64 snap_hi = 0; // files begin with a hole of this many bytes, which snapshots leave out
static void snap_rec(const string& root, const string& rel, Snap& out, bool content) {
    string full = rel.empty() ? root : root + "/" + rel;
    DIR* d = opendir(full.c_str());
    if (!d) return;
    vector<string> names;
    while (dirent* e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        names.push_back(e->d_name);
    }
    closedir(d);
    for (auto& n : names) {
        string r = rel.empty() ? n : rel + "/" + n, f = root + "/" + r;
        struct stat st;
        if (lstat(f.c_str(), &st)) continue;
        Ent e;
        e.ino = st.st_ino; e.mode = st.st_mode & 07777; e.nlink = st.st_nlink; e.uid = st.st_uid; e.gid = st.st_gid;
        e.size = st.st_size;
        e.mtime = (i64)st.st_mtim.tv_sec * 1000000000 + st.st_mtim.tv_nsec;
        e.atime = (i64)st.st_atim.tv_sec * 1000000000 + st.st_atim.tv_nsec;
        if (S_ISDIR(st.st_mode)) e.type = 'd';
        else if (S_ISLNK(st.st_mode)) {
            e.type = 'l';
            char b[4096];
            ssize_t n = readlink(f.c_str(), b, sizeof b);
            if (n > 0) e.data.assign(b, n);
        } else {
            e.type = 'f';
            e.size -= snap_hi;
            if (e.size < 0 || e.size > (64 << 20)) {
                e.data = "(a file of " + std::to_string(st.st_size) + " bytes)";
            } else if (content && st.st_size > 0) {
                int fd = open(f.c_str(), O_RDONLY | O_NOATIME);
                if (fd < 0) fd = open(f.c_str(), O_RDONLY);
                if (fd >= 0) {
                    e.data.resize(e.size);
                    ssize_t n = pread(fd, &e.data[0], e.data.size(), snap_hi);
                    e.data.resize(n < 0 ? 0 : n);
                    off_t p = snap_hi ? lseek(fd, 0, SEEK_DATA) : -1;
                    if (p >= 0 && p < snap_hi) {
                        char b[65536];
                        ssize_t m = pread(fd, b, std::min<i64>(sizeof b, snap_hi - p), p);
                        for (ssize_t i = 0; i < m; i++) if (b[i]) { e.data = "(data at offset " + std::to_string(p + i) + ")"; break; }
                    }
                    close(fd);
                }
            }
        }
        out[r] = e;
        if (e.type == 'd') snap_rec(root, r, out, content);
    }
}
Snap snapshot(const string& root, bool content) {
    Snap s;
    snap_rec(root, "", s, content);
    return s;
}
