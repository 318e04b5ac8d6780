// Worker: generates and runs cases of one property, confirms and shrinks failures. Also replay and dump.
#include "run.hpp"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

static double now_s() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static u64 hash64(const string& s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
    h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
}
static string jstr(const string& s) {
    string r = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}
static Shm* mkshm() {
    void* p = mmap(nullptr, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shm*)p;
}

struct Args {
    string prop, tier = "quick", base, out, file, repdir, prof, keeplog;
    u64 seed = 1;
    i64 shard = 0, nshards = 1, cases = 100, reps = 3, min = 0;
    double secs = 100, shrink = 40;
};
static string pick_prof(const PropSpec& P, u64 s) {
    int tot = 0;
    for (auto& p : P.profs) tot += p.second;
    int v = (int)((s >> 17) % tot);
    for (auto& p : P.profs) { v -= p.second; if (v < 0) return p.first; }
    return P.profs[0].first;
}
static bool make_case(const Args& a, const PropSpec& P, i64 j, Case& c) {
    u64 s = hash64(std::to_string(a.seed) + "/" + P.id + "/" + std::to_string(j));
    string prof = a.prof.empty() ? pick_prof(P, s) : a.prof;
    if (!gen_case(prof, s, c, a.tier)) return false;
    if (P.id == "C21") c.opt["fdcheck"] = 1;
    return true;
}

// ---- shrinking ------------------------------------------------------------------------------------------
struct Shrinker {
    const PropSpec& P;
    string base, cat;
    Shm* shm;
    double until;
    int tries = 1, runs = 0;
    Fail last;
    bool fails(const Case& c) {
        for (int i = 0; i < tries; i++) {
            runs++;
            Result r = run_case(c, P, base, shm);
            if (r.fail && r.f.cat == cat) { last = r.f; return true; }
        }
        return false;
    }
    bool time() const { return now_s() < until; }
    template <class V> void ddmin(Case& c, V Case::*mem) {
        size_t chunk = std::max<size_t>(1, (c.*mem).size() / 2);
        while (time()) {
            bool any = false;
            for (size_t i = 0; i < (c.*mem).size() && time();) {
                Case t = c;
                auto& v = t.*mem;
                size_t n = std::min(chunk, v.size() - i);
                v.erase(v.begin() + i, v.begin() + i + n);
                if (fails(t)) { c = t; any = true; }
                else i += n;
            }
            if (chunk == 1 && !any) break;
            if (!any || chunk > (c.*mem).size()) chunk = std::max<size_t>(1, chunk / 2);
        }
    }
    void numbers(Case& c) {
        for (size_t i = 0; i < c.ops.size() && time(); i++) {
            auto attempt = [&](auto change) {
                if (!time()) return;
                Case t = c;
                change(t.ops[i]);
                if (case_to_text(t) != case_to_text(c) && fails(t)) c = t;
            };
            if (c.ops[i].k == WRITE || c.ops[i].k == READ) attempt([](Op& o) { o.off = 0; });
            attempt([](Op& o) { if (o.k != OPEN && o.len > 1) o.len /= 2; });
            attempt([](Op& o) { if (o.k != OPEN && o.len > 1) o.len = 1; });
            if (c.ops[i].seed > 9) attempt([&](Op& o) { o.seed = (i64)i + 1; });
        }
    }
    void shrink(Case& c) {
        if (c.opt.count("full_at") || c.opt.count("joins") || c.opt.count("storm")) { // positions matter
            ddmin(c, &Case::init);
            return;
        }
        // drop everything after the failing operation first
        if (last.op >= 0 && (size_t)last.op + 1 < c.ops.size()) {
            Case t = c;
            t.ops.resize(last.op + 1);
            if (fails(t)) c = t;
        }
        if (c.opt.count("roomy")) { // a smaller history may need more room: shrink only with plenty of it
            Case t = c;
            t.cfg.pages = t.cfg.pages * 8 + 64;
            if (fails(t)) c = t;
            else {
                ddmin(c, &Case::faults);
                return;
            }
        }
        ddmin(c, &Case::ops);
        ddmin(c, &Case::faults);
        ddmin(c, &Case::init);
        numbers(c);
        ddmin(c, &Case::ops);
    }
};

static int do_run(const Args& a) {
    const PropSpec* P = prop_spec(a.prop);
    if (!P) { fprintf(stderr, "unknown property %s\n", a.prop.c_str()); return 2; }
    Shm* shm = mkshm();
    double t0 = now_s();
    i64 ev = 0, nt = 0, vac = 0, inc = 0, skip = 0, fops = 0, inj = 0, hits = 0, sess = 0, flaky = 0, kept = 0;
    map<string, i64> profs, st;
    set<u64> distinct;
    vector<string> samples, flk;
    string failtext, replay;
    Fail ff;
    bool failed = false;
    i64 failj = -1;
    for (i64 j = a.shard; j < a.cases && (now_s() - t0 < a.secs || ev < a.min); j += a.nshards) {
        Case c;
        if (!make_case(a, *P, j, c)) { skip++; continue; }
        Result r = run_case(c, *P, a.base, shm);
        ev++;
        profs[c.prof]++;
        fops += r.fuse_ops; inj += r.inj_fired; hits += r.inj_hits; sess += r.sessions;
        for (auto& x : r.stat) st[x.first] += x.second;
        if (r.inconclusive) { inc++; continue; }
        if (!a.keeplog.empty() && !r.fail && c.cfg.logfile && c.cfg.logops && kept < 60) {
            string to = a.keeplog + std::to_string(kept++);
            rename((a.base + "/lfs.log").c_str(), to.c_str());
        }
        if (r.vacuous) { vac++; continue; }
        if (r.fail) {
            // confirm before reporting
            int again = 0;
            Shrinker S{*P, a.base, r.f.cat, shm, now_s() + a.shrink, 1, 0, r.f};
            bool sched = c.opt.count("joins") || c.opt.count("perturb");
            int reps = sched ? 25 : 3;
            for (int k = 0; k < reps; k++) {
                Result q = run_case(c, *P, a.base, shm);
                if (q.fail) { again++; if (sched) break; }
            }
            if (sched ? again < 1 : again < 2) {
                flaky++;
                flk.push_back(r.f.cat + ": " + r.f.msg + " (case " + std::to_string(j) + ", reproduced " + std::to_string(again) + "/" + std::to_string(reps) + ")");
                continue;
            }
            Case m = c;
            if (!sched) S.shrink(m);
            failed = true;
            ff = S.last;
            failj = j;
            failtext = case_to_text(m);
            char nm[64];
            snprintf(nm, sizeof nm, "%016llx", (unsigned long long)hash64(failtext));
            replay = a.repdir + "/" + a.prop + "-" + nm + ".case";
            std::ofstream o(replay);
            o << "# property " << a.prop << "\n# " << ff.cat << ": " << ff.msg << "\n# seed " << a.seed << " case " << j << " profile " << c.prof << "\n" << failtext;
            break;
        }
        if (nontrivial(a.prop, c, r)) {
            nt++;
            string t = case_to_text(c);
            distinct.insert(hash64(t));
            if (samples.size() < 2) { if (t.size() > 1500) t.resize(1500); samples.push_back(t); }
        }
    }
    std::ofstream o(a.out);
    o << "{\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << distinct.size() << ",\"vacuous\":" << vac << ",\"inconclusive\":" << inc << ",\"skipped\":" << skip
      << ",\"fuse_ops\":" << fops << ",\"injections\":" << inj << ",\"injection_points\":" << hits << ",\"sessions\":" << sess << ",\"flaky\":" << flaky << ",\"secs\":" << now_s() - t0 << ",\"rule\":" << jstr(P->rule);
    o << ",\"profiles\":{";
    bool first = true;
    for (auto& x : profs) { o << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; }
    o << "},\"stat\":{";
    first = true;
    for (auto& x : st) { o << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << jstr(samples[i]);
    o << "],\"flaky_notes\":[";
    for (size_t i = 0; i < flk.size() && i < 5; i++) o << (i ? "," : "") << jstr(flk[i]);
    o << "]";
    if (failed) o << ",\"failure\":{\"cat\":" << jstr(ff.cat) << ",\"msg\":" << jstr(ff.msg) << ",\"case\":" << failj << ",\"replay\":" << jstr(replay) << ",\"text\":" << jstr(failtext) << "}";
    o << "}\n";
    o.close();
    return failed ? 1 : 0;
}

static int do_replay(const Args& a) {
    std::ifstream in(a.file);
    std::stringstream ss;
    ss << in.rdbuf();
    Case c;
    if (!case_from_text(ss.str(), c)) { fprintf(stderr, "cannot parse %s\n", a.file.c_str()); return 2; }
    string prop = a.prop;
    if (prop.empty()) {
        size_t i = ss.str().find("# property ");
        if (i != string::npos) prop = ss.str().substr(i + 11, 3);
    }
    PropSpec all{"ALL", ~0u, {}, ""};
    const PropSpec* P = prop == "ALL" ? &all : prop_spec(prop);
    if (!P) { fprintf(stderr, "which property?\n"); return 2; }
    Shm* shm = mkshm();
    int bad = 0;
    for (i64 k = 0; k < a.reps; k++) {
        Result r = run_case(c, *P, a.base, shm);
        if (r.fail) { bad++; printf("FAIL %s op %lld: %s\n", r.f.cat.c_str(), (long long)r.f.op, r.f.msg.c_str()); }
        else printf("%s sessions=%d fuse_ops=%lld\n", r.vacuous ? "VACUOUS" : r.inconclusive ? "INCONCLUSIVE" : "OK", r.sessions, (long long)r.fuse_ops);
    }
    return bad ? 1 : 0;
}

int main(int argc, char** argv) {
    Args a;
    string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) {
        string k = argv[i], v = argv[i + 1];
        if (k == "--prop") a.prop = v;
        else if (k == "--tier") a.tier = v;
        else if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--shard") a.shard = atoll(v.c_str());
        else if (k == "--nshards") a.nshards = atoll(v.c_str());
        else if (k == "--cases") a.cases = atoll(v.c_str());
        else if (k == "--secs") a.secs = atof(v.c_str());
        else if (k == "--shrink") a.shrink = atof(v.c_str());
        else if (k == "--base") a.base = v;
        else if (k == "--out") a.out = v;
        else if (k == "--file") a.file = v;
        else if (k == "--repdir") a.repdir = v;
        else if (k == "--prof") a.prof = v;
        else if (k == "--min") a.min = atoll(v.c_str());
        else if (k == "--keeplog") a.keeplog = v;
        else if (k == "--reps") a.reps = atoll(v.c_str());
    }
    if (mode != "run") {} else prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (mode == "run") return do_run(a);
    if (mode == "replay") return do_replay(a);
    if (mode == "gen") {
        const PropSpec* P = prop_spec(a.prop);
        Case c;
        if (!P || !make_case(a, *P, a.shard, c)) return 2;
        std::cout << case_to_text(c);
        return 0;
    }
    fprintf(stderr, "usage: lfz run|replay|gen --prop P ...\n");
    return 2;
}
