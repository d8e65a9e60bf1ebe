// Search driver: seeded runs in forked children, gating, minimisation, replay files, statistics.
#include "rt_internal.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
using namespace sim;

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void reset_result(Result* r) {
    r->status = 0; r->cls[0] = r->detail[0] = 0; r->hash = 1469598103934665603ull; r->sched_hash = 1469598103934665603ull;
    r->steps = r->switches = r->preempts = r->simtime = r->ops = 0;
    memset(r->faults, 0, sizeof r->faults);
    r->threads = 0; r->nontrivial = 0;
    r->n_sw = r->n_flt = r->n_probes = r->n_sites = r->n_knobs = 0; r->sw_overflow = 0; r->sample[0] = 0; r->bt[0] = 0;
}
static Result* new_result() {
    void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Result*)p;
}
// One execution of a plan in a fresh forked process.
static void exec_plan(const Plan& pl, Result* r, int attempt = 0) {
    reset_result(r);
    pid_t p;
    for (int i = 0; (p = fork()) < 0; i++) { if (i > 600) { fprintf(stderr, "simulator error: cannot fork\n"); r->status = 3; return; } poll(nullptr, 0, 100); }
    if (p == 0) {
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0); dup2(n, 1); if (!pl.verbose) dup2(n, 2);
        g_plan = pl; g_res = r;
        run_child();
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == 0) {
        // killed from outside (out of memory), or starved of real CPU time for minutes: not the doing of the simulated program
        if (WIFSIGNALED(st) && ((WTERMSIG(st) == SIGKILL && attempt < 4) || (WTERMSIG(st) == SIGALRM && attempt < 1))) { poll(nullptr, 0, 500); exec_plan(pl, r, attempt + 1); return; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            fprintf(stderr, "simulator error: run seed=%lu stuck in a real blocking call\n", (unsigned long)pl.seed);
            snprintf(r->cls, sizeof r->cls, "simulator-stuck"); r->status = 3;
        } else if (WIFSIGNALED(st)) {
            snprintf(r->cls, sizeof r->cls, "crash"); snprintf(r->detail, sizeof r->detail, "process died with signal %d", WTERMSIG(st)); r->status = 2;
        } else {
            snprintf(r->cls, sizeof r->cls, "exit"); snprintf(r->detail, sizeof r->detail, "the process exited (status %d)", WEXITSTATUS(st)); r->status = 2;
        }
    }
}
static std::vector<Scenario> prop_scenarios(const std::string& prop, const std::string& only) {
    std::vector<Scenario> v;
    for (auto& s : scenarios()) if (prop == s.prop && (only.empty() || only == s.name)) v.push_back(s);
    std::sort(v.begin(), v.end(), [](const Scenario& a, const Scenario& b) { return strcmp(a.name, b.name) < 0; });
    return v;
}
static Plan plan_for(const std::vector<Scenario>& sc, const std::string& prop, uint64_t base, uint64_t idx) {
    Plan p;
    p.seed = mix(mix(base, hash_str(prop.c_str())), idx);
    unsigned tot = 0; for (auto& s : sc) tot += s.weight;
    unsigned k = (unsigned)(idx % tot);
    for (auto& s : sc) { if (k < s.weight) { p.sc = &s; break; } k -= s.weight; }
    return p;
}

// ------------------------------------------------------------------- replay files
static int kind_by_name(const std::string& n) { for (int i = 0; i < F_COUNT; i++) if (n == fault_names[i]) return i; return -1; }
static bool write_replay(const std::string& path, const Plan& p, const std::string& cls, const std::string& detail, uint64_t hash, const char* extra) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return false;
    const char* bld = getenv("SIM_BUILD");
    fprintf(f, "hawktracer-sim-replay 1\n%s%s%sproperty %s\nscenario %s\nseed %lu\nmode %s\n", bld ? "build " : "", bld ? bld : "", bld ? "\n" : "", p.sc->prop, p.sc->name, (unsigned long)p.seed, p.explicit_mode ? "explicit" : "seed");
    for (auto& k : p.knobs) fprintf(f, "knob %s %lu\n", k.first.c_str(), (unsigned long)k.second);
    for (auto d : p.dropped_ops) fprintf(f, "drop %u\n", d);
    for (auto& s : p.sw) fprintf(f, "switch %u %u %lu\n", s.tid, s.target, (unsigned long)s.step);
    for (auto& s : p.flt) fprintf(f, "fault %s %lu %lu\n", fault_names[s.kind], (unsigned long)s.idx, (unsigned long)s.val);
    fprintf(f, "expect %s\nhash %016lx\n# %s\n%s", cls.c_str(), (unsigned long)hash, detail.c_str(), extra);
    fclose(f);
    return true;
}
static bool read_replay(const char* path, Plan& p, std::string& cls, uint64_t& hash) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[8192]; std::string prop, scn;
    while (fgets(line, sizeof line, f)) {
        char a[256] = "", b[256] = ""; unsigned long x, y, z;
        if (line[0] == '#') continue;
        if (sscanf(line, "property %255s", a) == 1) prop = a;
        else if (sscanf(line, "scenario %255s", a) == 1) scn = a;
        else if (sscanf(line, "seed %lu", &x) == 1) p.seed = x;
        else if (sscanf(line, "mode %255s", a) == 1) p.explicit_mode = !strcmp(a, "explicit");
        else if (sscanf(line, "knob %255s %lu", a, &x) == 2) p.knobs[a] = x;
        else if (sscanf(line, "drop %lu", &x) == 1) p.dropped_ops.push_back(x);
        else if (sscanf(line, "switch %lu %lu %lu", &x, &y, &z) == 3) p.sw.push_back({(uint32_t)x, (uint32_t)y, z});
        else if (sscanf(line, "fault %255s %lu %lu", b, &x, &y) == 3) { int k = kind_by_name(b); if (k >= 0) p.flt.push_back({(uint32_t)k, 0, x, y}); }
        else if (sscanf(line, "expect %255s", a) == 1) cls = a;
        else if (sscanf(line, "hash %lx", &x) == 1) hash = x;
    }
    fclose(f);
    for (auto& s : scenarios()) if (prop == s.prop && scn == s.name) { p.sc = &s; return true; }
    fprintf(stderr, "unknown scenario %s/%s\n", prop.c_str(), scn.c_str());
    return false;
}

// ------------------------------------------------------------------- minimisation
struct Min {
    Result* r; std::string cls; unsigned runs = 0; double deadline;
    bool bad(const Plan& p) {
        if (wall() > deadline) return false;
        runs++;
        exec_plan(p, r);
        return r->status == 2 && cls == r->cls;
    }
    template <class T> void ddmin(Plan& p, std::vector<T> Plan::*field) {
        std::vector<T> cur = p.*field;
        { Plan q = p; (q.*field).clear(); if (!cur.empty() && bad(q)) { p = q; return; } }
        size_t n = 2;
        while (cur.size() >= 1 && wall() < deadline) {
            size_t chunk = std::max<size_t>(1, cur.size() / n); bool red = false;
            for (size_t i = 0; i < cur.size(); i += chunk) {
                std::vector<T> t(cur.begin(), cur.begin() + i);
                t.insert(t.end(), cur.begin() + std::min(cur.size(), i + chunk), cur.end());
                Plan q = p; q.*field = t;
                if (bad(q)) { cur = t; p = q; red = true; n = std::max<size_t>(n - 1, 2); break; }
            }
            if (!red) { if (chunk == 1) break; n = std::min(cur.size(), n * 2); }
        }
        p.*field = cur;
    }
    void ops(Plan& p, uint32_t nops) {
        for (uint32_t chunk = std::max(1u, nops / 2);; chunk /= 2) {
            for (uint32_t i = 0; i < nops; i += chunk) {
                Plan q = p; bool any = false;
                for (uint32_t k = i; k < std::min(nops, i + chunk); k++)
                    if (std::find(q.dropped_ops.begin(), q.dropped_ops.end(), k) == q.dropped_ops.end()) { q.dropped_ops.push_back(k); any = true; }
                if (any && bad(q)) p = q;
                if (wall() > deadline) return;
            }
            if (chunk <= 1) break;
        }
        std::sort(p.dropped_ops.begin(), p.dropped_ops.end());
    }
    void knobs(Plan& p, const std::map<std::string, uint64_t>& lo) {
        for (auto& k : lo) {
            if (p.knobs[k.first] == k.second) continue;
            Plan q = p; q.knobs[k.first] = k.second;
            if (bad(q)) { p = q; continue; }
            uint64_t v = p.knobs[k.first];
            q = p; q.knobs[k.first] = k.second + (v - k.second) / 2;
            if (v > k.second + 1 && bad(q)) p = q;
        }
    }
};

// ------------------------------------------------------------------- statistics
struct Stats {
    uint64_t runs = 0, nontrivial = 0, steps = 0, switches = 0, preempts = 0, simtime = 0, ops = 0, faulty = 0, maxthreads = 0;
    uint64_t faults[F_COUNT] = {0};
    std::unordered_set<uint64_t> scheds, execs, ntexecs, sites;
    std::map<std::string, uint64_t> probes, scen;
    std::vector<std::string> samples;
    void add(const Plan& p, const Result* r) {
        runs++; steps += r->steps; switches += r->switches; preempts += r->preempts; simtime += r->simtime; ops += r->ops;
        maxthreads = std::max<uint64_t>(maxthreads, r->threads);
        bool any = false;
        for (int i = 0; i < F_COUNT; i++) { faults[i] += r->faults[i]; any |= r->faults[i] != 0; }
        faulty += any;
        scheds.insert(r->sched_hash); execs.insert(r->hash);
        if (r->nontrivial) { nontrivial++; ntexecs.insert(r->hash); }
        for (uint32_t i = 0; i < r->n_sites; i++) sites.insert(r->sites[i]);
        for (uint32_t i = 0; i < r->n_probes; i++) probes[r->probes[i].name]++;
        scen[p.sc->name]++;
        if (r->nontrivial && samples.size() < 2 && r->sample[0]) {
            char b[512];
            snprintf(b, sizeof b, "scenario=%s seed=%lu threads=%u steps=%lu switches=%lu simulated_ns=%lu hash=%016lx :: ", p.sc->name, (unsigned long)p.seed, r->threads, (unsigned long)r->steps, (unsigned long)r->switches, (unsigned long)r->simtime, (unsigned long)r->hash);
            samples.push_back(std::string(b) + r->sample);
        }
    }
    static void wu(FILE* f, const std::unordered_set<uint64_t>& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); for (uint64_t v : s) fwrite(&v, 8, 1, f); }
    static void ru(FILE* f, std::unordered_set<uint64_t>& s) { uint64_t n = 0, v; if (fread(&n, 8, 1, f) != 1) return; while (n--) { if (fread(&v, 8, 1, f) != 1) return; s.insert(v); } }
    static void ws(FILE* f, const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
    static std::string rs(FILE* f) { uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) return ""; std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) return ""; return s; }
    void save(FILE* f) {
        uint64_t h[9] = {runs, nontrivial, steps, switches, preempts, simtime, ops, faulty, maxthreads};
        fwrite(h, 8, 9, f); fwrite(faults, 8, F_COUNT, f);
        wu(f, scheds); wu(f, execs); wu(f, ntexecs); wu(f, sites);
        for (auto* m : {&probes, &scen}) { uint64_t n = m->size(); fwrite(&n, 8, 1, f); for (auto& k : *m) { ws(f, k.first); fwrite(&k.second, 8, 1, f); } }
        uint64_t n = samples.size(); fwrite(&n, 8, 1, f); for (auto& s : samples) ws(f, s);
    }
    bool load(FILE* f) {
        uint64_t h[9], fl[F_COUNT];
        if (fread(h, 8, 9, f) != 9 || fread(fl, 8, F_COUNT, f) != F_COUNT) return false;
        runs += h[0]; nontrivial += h[1]; steps += h[2]; switches += h[3]; preempts += h[4]; simtime += h[5]; ops += h[6]; faulty += h[7]; maxthreads = std::max(maxthreads, h[8]);
        for (int i = 0; i < F_COUNT; i++) faults[i] += fl[i];
        ru(f, scheds); ru(f, execs); ru(f, ntexecs); ru(f, sites);
        for (auto* m : {&probes, &scen}) { uint64_t n = 0, v; if (fread(&n, 8, 1, f) != 1) return false; while (n--) { std::string k = rs(f); if (fread(&v, 8, 1, f) != 1) return false; (*m)[k] += v; } }
        uint64_t n = 0; if (fread(&n, 8, 1, f) != 1) return false;
        while (n--) { std::string s = rs(f); if (samples.size() < 3) samples.push_back(s); }
        return true;
    }
};
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}

struct Shared {
    std::atomic<uint64_t> lowest; std::atomic<int> errors, flaky; std::atomic<uint64_t> next;
    struct KF { std::atomic<uint64_t> n; } kf[64];
};
struct Known { std::string scenario, cls, frag; };   // a listed finding: scenario + class + fragment of the detail

static bool match_known(const std::vector<Known>& ks, const Plan& p, const Result* r, size_t* which) {
    for (size_t i = 0; i < ks.size(); i++)
        if (ks[i].scenario == p.sc->name && ks[i].cls == r->cls && strstr(r->detail, ks[i].frag.c_str())) { *which = i; return true; }
    return false;
}

void (*sim_prefork)();                             // initialises an embedded interpreter once, before the runs are forked
int main(int argc, char** argv) {
    // fixed addresses: no ASLR
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        personality(pers | ADDR_NO_RANDOMIZE); setenv("SIM_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (sim_prefork) sim_prefork();
    std::string mode = argc > 1 ? argv[1] : "", prop, only, out, rep; uint64_t base = 1, count = 1000; unsigned jobs = 8; double tmax = 600, minsec = 40;
    uint64_t first = 0;
    std::vector<Known> known; bool verbose = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx(); else if (a == "--scenario") only = nx(); else if (a == "--seed") base = strtoull(nx().c_str(), 0, 0);
        else if (a == "--count") count = strtoull(nx().c_str(), 0, 0); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--first") first = strtoull(nx().c_str(), 0, 0);
        else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay-out") rep = nx();
        else if (a == "--min-time") minsec = atof(nx().c_str());
        else if (a == "--verbose") verbose = true;
        else if (a == "--known") { std::string s = nx(); size_t x = s.find('|'), y = s.find('|', x + 1); known.push_back({s.substr(0, x), s.substr(x + 1, y - x - 1), s.substr(y + 1)}); }
    }
    setenv("LC_ALL", "C", 1);
    if (mode == "list") { for (auto& s : scenarios()) printf("%s %s %u\n", s.prop, s.name, s.weight); return 0; }
    if (mode == "replay") {
        Plan p; std::string cls; uint64_t hash = 0;
        if (argc < 3 || !read_replay(argv[2], p, cls, hash)) return 3;
        p.verbose = verbose;
        if (verbose) dup2(2, 9);
        Result* r = new_result();
        exec_plan(p, r);
        if (r->status == 2) printf("%s: %s\nhash %016lx (recorded %016lx)\n", r->cls, r->detail, (unsigned long)r->hash, (unsigned long)hash);
        else printf("no violation (status %d)\n", r->status);
        if (r->sample[0]) printf("%s\n", r->sample);
        if (r->bt[0]) printf("backtrace:%s\n", r->bt);
        return r->status == 2 && cls == r->cls && hash == r->hash ? 1 : r->status == 2 ? 4 : 0;
    }
    if (mode != "run" && mode != "determinism") { fprintf(stderr, "usage: simdrv list | run --prop C01 ... | replay FILE\n"); return 3; }
    auto sc = prop_scenarios(prop, only);
    if (sc.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
    if (mode == "determinism") {
        // every seed twice, in different processes on different CPUs: full event-log hash must agree
        uint64_t badn = 0; Result *a = new_result(), *b = new_result();
        for (uint64_t i = first; i < first + count; i++) {
            Plan p = plan_for(sc, prop, base, i); exec_plan(p, a); 
            cpu_set_t cs; CPU_ZERO(&cs); CPU_SET((i * 7 + 3) % sysconf(_SC_NPROCESSORS_ONLN), &cs); sched_setaffinity(0, sizeof cs, &cs);
            exec_plan(p, b);
            if (a->hash != b->hash || a->steps != b->steps || a->status != b->status) { badn++; printf("NONDETERMINISTIC idx=%lu scenario=%s %016lx/%016lx steps %lu/%lu %s %s\n", (unsigned long)i, p.sc->name, (unsigned long)a->hash, (unsigned long)b->hash, (unsigned long)a->steps, (unsigned long)b->steps, a->cls, b->cls); }
            // explicit replay of the recorded schedule must be the same execution
            if (!a->sw_overflow) {
                Plan q = p; q.explicit_mode = true; q.sw.assign(b->sw, b->sw + b->n_sw); q.flt.assign(b->flt, b->flt + b->n_flt);
                exec_plan(q, a);
                if (a->hash != b->hash) { badn++; printf("EXPLICIT-MISMATCH idx=%lu scenario=%s steps %lu/%lu %s|%s\n", (unsigned long)i, p.sc->name, (unsigned long)a->steps, (unsigned long)b->steps, a->cls, b->cls); }
            }
        }
        printf("determinism: %lu seeds, %lu mismatches\n", (unsigned long)count, (unsigned long)badn);
        return badn ? 3 : 0;
    }

    double t0 = wall();
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->lowest = ~0ull;
    std::vector<FILE*> files; std::vector<pid_t> pids;
    long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    for (unsigned w = 0; w < jobs; w++) {
        FILE* f = tmpfile(); files.push_back(f);
        pid_t p = fork();
        if (p == 0) {
            cpu_set_t cs, have; sched_getaffinity(0, sizeof have, &have);
            CPU_ZERO(&cs); if (CPU_ISSET(w % ncpu, &have)) { CPU_SET(w % ncpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
            Stats st; Result *r = new_result(), *r2 = new_result();
            for (;;) {
                uint64_t i = sh->next.fetch_add(1);
                if (i >= count || wall() - t0 > tmax || i > sh->lowest) break;
                Plan pl = plan_for(sc, prop, base, first + i);
                exec_plan(pl, r);
                if (r->status == 3) { sh->errors++; break; }
                size_t k;
                if (r->status == 2 && match_known(known, pl, r, &k)) { sh->kf[k].n++; st.add(pl, r); continue; }
                if (r->status == 2) {
                    exec_plan(pl, r2);          // only what happens again counts
                    if (r2->status != 2 || r2->hash != r->hash || strcmp(r2->cls, r->cls)) { sh->flaky++; fprintf(stderr, "run of seed %lu was not reproducible: %s (%s) then %s\n", (unsigned long)pl.seed, r->cls, r->detail, r2->status == 2 ? r2->cls : "nothing"); continue; }
                }
                if (r->status == 2) { uint64_t c = sh->lowest; while (i < c && !sh->lowest.compare_exchange_weak(c, i)) {} continue; }
                st.add(pl, r);
            }
            st.save(f); fflush(f); _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) sh->errors++; }
    Stats st;
    for (FILE* f : files) { rewind(f); if (!st.load(f)) sh->errors++; }
    double search = wall() - t0;
    int code = 0; std::string vio;
    if (sh->errors) { fprintf(stderr, "simulator error in a worker\n"); code = 3; }
    else if (sh->lowest == ~0ull && sh->flaky > 3) { fprintf(stderr, "simulator error: %d runs were not reproducible\n", sh->flaky.load()); code = 3; }
    else if (sh->lowest != ~0ull) {
        // ---- gate: the same seed must fail the same way twice, with the same event log
        Result *a = new_result(), *b = new_result();
        Plan p = plan_for(sc, prop, base, first + sh->lowest);
        exec_plan(p, a); exec_plan(p, b);
        if (a->status != 2 || b->status != 2 || a->hash != b->hash || strcmp(a->cls, b->cls)) {
            fprintf(stderr, "simulator error: seed %lu not reproducible (%s/%s)\n", (unsigned long)p.seed, a->cls, b->cls); code = 3;
        } else {
            std::string cls = a->cls;
            Plan best = p; uint64_t osw = a->n_sw, oflt = a->n_flt, oops = a->ops;
            Min m; m.r = b; m.cls = cls; m.deadline = wall() + minsec;
            Plan ex = p; ex.explicit_mode = true; ex.sw.assign(a->sw, a->sw + a->n_sw); ex.flt.assign(a->flt, a->flt + a->n_flt);
            std::map<std::string, uint64_t> lo;
            for (uint32_t i = 0; i < a->n_knobs; i++) { ex.knobs[a->knobs[i].name] = a->knobs[i].val; lo[a->knobs[i].name] = a->knobs[i].lo; }
            if (!a->sw_overflow && m.bad(ex)) {
                Plan pre = ex; pre.sw.clear();
                if (m.bad(pre)) ex = pre;
                m.ops(ex, (uint32_t)oops);
                if (ex.sw.size() > 4000) { double d = m.deadline; m.ddmin(ex, &Plan::sw); m.deadline = d; } else m.ddmin(ex, &Plan::sw);
                m.ddmin(ex, &Plan::flt);
                m.knobs(ex, lo);
                m.ops(ex, (uint32_t)oops);
                m.ddmin(ex, &Plan::sw);
                m.ddmin(ex, &Plan::flt);
                best = ex;
            }
            if (getenv("SIM_DEBUG")) { dup2(2, 9); best.verbose = true; exec_plan(best, a); best.verbose = false; }
            exec_plan(best, a); exec_plan(best, b);
            if (a->status != 2 || a->hash != b->hash || cls != a->cls) { best = p; exec_plan(best, a); }
            char extra[2048];
            snprintf(extra, sizeof extra, "# original seed run: %lu switches, %lu faults, %lu operations; minimised to %zu switches, %zu faults, %zu operations dropped (%u trial runs)\n",
                     (unsigned long)osw, (unsigned long)oflt, (unsigned long)oops, best.sw.size(), best.flt.size(), best.dropped_ops.size(), m.runs);
            std::string det = a->detail; for (auto& c : det) if (c == '\n') c = ' ';
            if (!write_replay(rep, best, cls, det, a->hash, extra)) { fprintf(stderr, "cannot write %s\n", rep.c_str()); code = 3; }
            else {
                // fresh-process replay must reproduce exactly
                pid_t c = fork();
                if (c == 0) { unsetenv("SIM_NOASLR"); int n = open("/dev/null", O_WRONLY); dup2(n, 1); execl("/proc/self/exe", argv[0], "replay", rep.c_str(), (char*)nullptr); _exit(9); }
                int s; waitpid(c, &s, 0);
                if (!WIFEXITED(s) || WEXITSTATUS(s) != 1) { fprintf(stderr, "simulator error: replay file does not reproduce (status %d)\n", s); code = 3; }
                else { code = 1; vio = cls + ": " + det; printf("violation in scenario %s, seed %lu: %s\n%s", p.sc->name, (unsigned long)p.seed, vio.c_str(), extra); if (a->bt[0]) printf("backtrace:%s\n", a->bt); }
            }
        }
    }
    double total = wall() - t0;
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"runs\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%zu,\"distinct_executions\":%zu,\"distinct_interleavings\":%zu,\"preempted_sites\":%zu,\"steps\":%lu,\"switches\":%lu,\"preemptions\":%lu,\"operations\":%lu,\"runs_with_faults\":%lu,\"max_threads\":%lu,\"simulated_seconds\":%.6f,\"search_s\":%.3f,\"total_s\":%.3f,\"code\":%d,\n",
                st.runs, st.nontrivial, st.ntexecs.size(), st.execs.size(), st.scheds.size(), st.sites.size(), st.steps, st.switches, st.preempts, st.ops, st.faulty, st.maxthreads, st.simtime / 1e9, search, total, code);
        fprintf(f, "\"faults\":{"); bool c = false;
        for (int i = 0; i < F_COUNT; i++) if (st.faults[i]) { fprintf(f, "%s\"%s\":%lu", c ? "," : "", fault_names[i], st.faults[i]); c = true; }
        fprintf(f, "},\n\"probes\":{"); c = false;
        for (auto& k : st.probes) { fprintf(f, "%s%s:%lu", c ? "," : "", jstr(k.first).c_str(), k.second); c = true; }
        fprintf(f, "},\n\"scenarios\":{"); c = false;
        for (auto& k : st.scen) { fprintf(f, "%s%s:%lu", c ? "," : "", jstr(k.first).c_str(), k.second); c = true; }
        fprintf(f, "},\n\"known\":["); c = false;
        for (size_t i = 0; i < known.size(); i++) { fprintf(f, "%s%lu", c ? "," : "", (unsigned long)sh->kf[i].n.load()); c = true; }
        fprintf(f, "],\n\"irreproducible\":%d,\n\"samples\":[", sh->flaky.load()); c = false;
        for (auto& k : st.samples) { fprintf(f, "%s%s", c ? "," : "", jstr(k).c_str()); c = true; }
        fprintf(f, "],\n\"violation\":%s}\n", jstr(vio).c_str());
        fclose(f);
    }
    return code;
}
