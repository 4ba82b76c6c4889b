// Driver: seeded search over runs, gate, minimiser, replay, evidence.
#include "rt_int.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace rt;
typedef uint64_t u64;
extern const char *sim_real_components;
extern const char *sim_stub_components;
extern const char *sim_rule;

static std::string exe, scratch_root;
static double t_start;
static double wall() {
    struct timespec ts;
    syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
static u64 mixd(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
struct Spec { // a run, exactly
    int sc = 0;
    u64 seed = 0;
    bool explicit_sched = false;
    std::vector<std::pair<std::pair<std::string, int>, int64_t>> ov;
    std::vector<Dec> sw, blk, ch;
};
static u64 max_steps = 150000000, max_seq = 1500000000;
static Result *child_res;
static int cpu_limit = 60;
static bool cpu_key(const std::string &k) { return k == "no-progress (processor time)"; }
static void clear_res(Result *r) {
    size_t big = (char *)r->picks - (char *)r;
    memset(r, 0, big);
    r->npicks = r->nsw = r->nblk = r->nch = 0;
}
// Run one simulation in a forked child; the result is left in *child_res
static void run_once(const Spec &s, bool verbose = false) {
    clear_res(child_res);
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        _exit(3);
    }
    if (p == 0) {
        res = child_res;
        __libc_single_threaded = 0; // the simulated program has threads: shared_ptr counts are atomic
        // the search gives a run a minute; a run that needs more is given four before it counts
        int lim = verbose ? 600 : cpu_limit;
        struct rlimit rl = {(rlim_t)lim, (rlim_t)lim + 20};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc = {0, 0};
        setrlimit(RLIMIT_CORE, &rc);
        if (!verbose) {
            // the library may print; keep that out of the check's output
            if (!freopen("/dev/null", "w", stdout))
                _exit(3);
        }
        std::vector<Override> ov;
        for (auto &o : s.ov)
            ov.push_back(Override{sim::hash_str(o.first.first.c_str()), o.first.second, o.second});
        prm.verbose = verbose;
        prm.explicit_sched = s.explicit_sched;
        prm.noverride = (int)ov.size();
        prm.overrides = ov.data();
        prm.nsw = (int)s.sw.size();
        prm.sw = (Dec *)s.sw.data();
        prm.nblk = (int)s.blk.size();
        prm.blk = (Dec *)s.blk.data();
        prm.nch = (int)s.ch.size();
        prm.ch = (Dec *)s.ch.data();
        prm.max_steps = max_steps;
        prm.max_seq = max_seq;
        // a path of fixed length, so that nothing in the run depends on it
        snprintf(prm.scratch, sizeof prm.scratch, "%s/w%07d", scratch_root.c_str(),
                 (int)(getpid() % 10000000));
        mkdir(prm.scratch, 0700);
        if (chdir(prm.scratch) != 0)
            _exit(3);
        start_run(s.seed, sim_scenarios[s.sc].fn);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    char d[300];
    snprintf(d, sizeof d, "%s/w%07d", scratch_root.c_str(), (int)(p % 10000000));
    // scratch files are few and flat
    std::string cmd;
    for (const char *n : {"m", "m2", "a", "b", "c", "csv", "model", "f0", "f1", "f2", "f3"})
        unlink((std::string(d) + "/" + n).c_str());
    if (rmdir(d) != 0 && errno == ENOTEMPTY) {
        cmd = std::string("find ") + d + " -xdev -type f -delete; rmdir " + d;
        (void)!system(cmd.c_str());
    }
    if (child_res->outcome == 0) {
        child_res->outcome = 1;
        if (WIFSIGNALED(st))
            snprintf(child_res->key, sizeof child_res->key, "killed by signal %d", WTERMSIG(st));
        else
            snprintf(child_res->key, sizeof child_res->key, "process exited during the run (status %d)",
                     WEXITSTATUS(st));
    }
}
// ---- symbolisation -----------------------------------------------------------
struct Sym {
    u64 a;
    std::string n;
};
static std::vector<Sym> syms;
static std::string simplify(std::string s) {
    std::string o;
    int ang = 0, par = 0;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        bool op = i >= 8 && s.compare(i - 8, 8, "operator") == 0;
        if (c == '<' && !op)
            ang++;
        else if (c == '>' && ang > 0)
            ang--;
        else if (c == '(' && ang == 0)
            par++;
        else if (c == ')' && ang == 0)
            par--;
        else if (ang == 0 && par == 0)
            o += c;
    }
    size_t k;
    while ((k = o.find("da_dynamic_dispatch_generic::")) != std::string::npos)
        o.erase(k, 29);
    if ((k = o.find(" [clone")) != std::string::npos)
        o.erase(k);
    if ((k = o.find("._omp")) != std::string::npos)
        o.erase(k);
    if ((k = o.find(" [abi")) != std::string::npos)
        o.erase(k);
    if ((k = o.find(" const")) != std::string::npos)
        o.erase(k);
    if ((k = o.rfind(' ')) != std::string::npos)
        o = o.substr(k + 1);
    return o;
}
static void load_syms() {
    if (!syms.empty())
        return;
    FILE *f = popen(("nm -C -n --defined-only " + exe).c_str(), "r");
    char *line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while (f && (n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n')
            line[n - 1] = 0;
        u64 a = strtoull(line, nullptr, 16);
        if (strlen(line) > 19)
            syms.push_back(Sym{a, line + 19});
    }
    free(line);
    if (f)
        pclose(f);
}
static std::string symbolise(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size();) {
        size_t k = s.find("@pc:", i);
        if (k == std::string::npos) {
            o += s.substr(i);
            break;
        }
        o += s.substr(i, k - i);
        char *e;
        u64 a = strtoull(s.c_str() + k + 4, &e, 16);
        if (e == s.c_str() + k + 4) { // "(nil)"
            o += "?";
            i = k + 4;
            if (s.compare(i, 5, "(nil)") == 0)
                i += 5;
            continue;
        }
        load_syms();
        auto it = std::upper_bound(syms.begin(), syms.end(), a,
                                   [](u64 v, const Sym &y) { return v < y.a; });
        o += it == syms.begin() ? std::string("?") : simplify((it - 1)->n);
        i = (size_t)(e - s.c_str());
    }
    return o;
}
// ---- known findings ------------------------------------------------------------
struct Known {
    std::string key, what, replay;
};
static std::vector<Known> known;
static void load_known(const std::string &f) {
    std::ifstream in(f);
    std::string l;
    // lines: finding: property=<id> key=[[...]] replay=<file or -> <what fails>
    while (std::getline(in, l)) {
        std::string tag = std::string("finding: property=") + sim_property + " ";
        if (l.compare(0, tag.size(), tag) != 0)
            continue;
        size_t a = l.find("key=[["), b = l.find("]]", a);
        if (a == std::string::npos || b == std::string::npos)
            continue;
        Known k;
        k.key = l.substr(a + 6, b - a - 6);
        size_t r = l.find("replay=", b);
        std::string rest = l.substr(b + 2);
        if (r != std::string::npos) {
            size_t e = l.find(' ', r);
            k.replay = l.substr(r + 7, e - r - 7);
            rest = e == std::string::npos ? "" : l.substr(e + 1);
        }
        k.what = rest;
        known.push_back(k);
    }
}
static const Known *is_known(const std::string &symkey) {
    for (auto &k : known)
        if (symkey.compare(0, k.key.size(), k.key) == 0)
            return &k;
    return nullptr;
}
// ---- replay files ---------------------------------------------------------------
static void write_replay(const std::string &path, const Spec &s, const Result &r) {
    std::ofstream o(path);
    o << "aocl-da-sim-replay 1\nproperty " << sim_property << "\nscenario "
      << sim_scenarios[s.sc].name << "\nseed " << s.seed << "\nsched "
      << (s.explicit_sched ? "explicit" : "seeded") << "\n";
    for (auto &v : s.ov)
        o << "param " << v.first.first << " " << v.first.second << " " << v.second << "\n";
    for (auto &d : s.sw)
        o << "switch " << d.at << " " << d.to << "\n";
    for (auto &d : s.blk)
        o << "block " << d.at << " " << d.to << "\n";
    for (auto &d : s.ch)
        o << "choice " << d.at << " " << d.to << "\n";
    o << "hash " << r.hash << "\nkey " << symbolise(r.key) << "\n#";
    std::istringstream d(symbolise(std::string(r.detail) + "\ncall stack: " + r.stack +
                                   "\nlast events:\n" + r.logtail));
    std::string l;
    while (std::getline(d, l))
        o << " " << l << "\n#";
    o << "\n";
}
static bool read_replay(const std::string &path, Spec &s, u64 &hash, std::string &key) {
    std::ifstream in(path);
    std::string l;
    if (!std::getline(in, l) || l != "aocl-da-sim-replay 1")
        return false;
    s = Spec();
    while (std::getline(in, l)) {
        std::istringstream t(l);
        std::string w;
        t >> w;
        if (w == "scenario") {
            t >> w;
            bool ok = false;
            for (int i = 0; sim_scenarios[i].name; i++)
                if (w == sim_scenarios[i].name) {
                    s.sc = i;
                    ok = true;
                }
            if (!ok)
                return false;
        } else if (w == "seed")
            t >> s.seed;
        else if (w == "sched") {
            t >> w;
            s.explicit_sched = w == "explicit";
        } else if (w == "param") {
            std::string n;
            int o;
            int64_t v;
            t >> n >> o >> v;
            s.ov.push_back({{n, o}, v});
        } else if (w == "switch" || w == "block" || w == "choice") {
            Dec d;
            t >> d.at >> d.to;
            (w == "switch" ? s.sw : w == "block" ? s.blk : s.ch).push_back(d);
        } else if (w == "hash")
            t >> hash;
        else if (w == "key") {
            key = l.substr(4);
        }
    }
    return true;
}
// ---- minimiser ----------------------------------------------------------------
static int min_runs = 0;
static bool still(const Spec &s, const std::string &key) {
    min_runs++;
    run_once(s);
    return child_res->outcome == 1 && symbolise(child_res->key) == key;
}
static void ddmin(Spec &s, std::vector<Dec> Spec::*v, const std::string &key, double until) {
    size_t chunk = (s.*v).size();
    while (chunk > 0 && wall() < until) {
        bool any = false;
        for (size_t i = 0; i < (s.*v).size() && wall() < until;) {
            Spec t = s;
            auto &w = t.*v;
            w.erase(w.begin() + (long)i, w.begin() + (long)std::min(i + chunk, w.size()));
            if (still(t, key)) {
                s = t;
                any = true;
            } else
                i += chunk;
        }
        if (!any || chunk == 1)
            chunk /= 2;
        else
            chunk = std::min(chunk, (s.*v).size());
    }
}
static void shrink_params(Spec &s, const std::string &key, double until) {
    for (int round = 0; round < 3 && wall() < until; round++) {
        bool any = false;
        if (!still(s, key))
            return;
        std::vector<Pick> picks(child_res->picks, child_res->picks + child_res->npicks);
        for (auto &p : picks) {
            if (wall() > until)
                return;
            if (p.v == p.lo)
                continue;
            auto set = [&](int64_t v) {
                Spec t = s;
                bool f = false;
                for (auto &o : t.ov)
                    if (o.first.first == p.name && o.first.second == p.occ) {
                        o.second = v;
                        f = true;
                    }
                if (!f)
                    t.ov.push_back({{p.name, p.occ}, v});
                if (still(t, key)) {
                    s = t;
                    any = true;
                    return true;
                }
                return false;
            };
            if (set(p.lo))
                continue;
            int64_t good = p.v, bad = p.lo;
            for (int k = 0; k < 12 && good - bad > 1 && wall() < until; k++) {
                int64_t mid = bad + (good - bad) / 2;
                if (set(mid))
                    good = mid;
                else
                    bad = mid;
            }
        }
        if (!any)
            break;
    }
}
static void copy_decisions(Spec &s) {
    s.explicit_sched = true;
    s.sw.assign(child_res->sw, child_res->sw + child_res->nsw);
    s.blk.assign(child_res->blk, child_res->blk + child_res->nblk);
    s.ch.assign(child_res->ch, child_res->ch + child_res->nch);
}
static Spec minimise(Spec s, const std::string &key, double seconds) {
    double until = wall() + seconds;
    Spec t = s;
    t.explicit_sched = true;
    t.sw.clear();
    t.blk.clear();
    t.ch.clear();
    if (still(t, key)) { // does not depend on the schedule
        shrink_params(t, key, until);
        return t;
    }
    shrink_params(s, key, wall() + seconds * 0.5);
    if (!still(s, key))
        return s;
    if (child_res->trace_full)
        return s;
    t = s;
    copy_decisions(t);
    if (!still(t, key))
        return s; // keep the seeded schedule
    ddmin(t, &Spec::sw, key, until);
    ddmin(t, &Spec::ch, key, until);
    ddmin(t, &Spec::blk, key, until);
    return t;
}
// ---- statistics ------------------------------------------------------------------
enum { MAXSC = 64, MAXHASH = 400000, MAXVIO = 256, MAXSAMPLE = 6 };
struct WStats {
    u64 runs, completed, gaveup, violations, unrepro, steps, switches, preemptions, teams, tasks, io;
    double sim_s, long_s;
    u64 max_seq, max_seq_seed, long_seed;
    int max_seq_sc, long_sc;
    int max_team;
    u64 per_sc[MAXSC];
    Named probes[MAXNAMED * 3], faults[MAXNAMED * 3];
    char gave[8][120];
    int nilv, nst;
    u64 ilv[MAXHASH], st[MAXHASH];
    int nvio;
    struct {
        u64 id, seed;
        int sc;
        char key[400];
    } vio[MAXVIO];
    int nsample;
    char sample[MAXSAMPLE][500];
    volatile int stop;
};
static void addn(Named *t, int cap, const char *n, u64 v) {
    for (int i = 0; i < cap; i++) {
        if (!t[i].name[0]) {
            snprintf(t[i].name, sizeof t[i].name, "%s", n);
            t[i].n = v;
            return;
        }
        if (!strcmp(t[i].name, n)) {
            t[i].n += v;
            return;
        }
    }
}
static int nsc = 0, sumw = 0;
static Spec spec_of(u64 base, u64 id, int only) {
    Spec s;
    s.seed = mixd(base * 0x100000001b3ULL + id);
    if (only >= 0) {
        s.sc = only;
        return s;
    }
    // the first runs visit every scenario once, then by weight
    if (id < (u64)nsc) {
        s.sc = (int)id;
        return s;
    }
    int r = (int)(mixd(s.seed ^ 0x5ce0) % (u64)sumw);
    for (int i = 0; i < nsc; i++) {
        r -= sim_scenarios[i].weight;
        if (r < 0) {
            s.sc = i;
            break;
        }
    }
    return s;
}
static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
            o += ' ';
        else
            o += (char)c;
    }
    return o;
}
int main(int argc, char **argv) {
    if (!getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        setenv("OPENBLAS_CORETYPE", "Haswell", 1);
        setenv("LC_ALL", "C", 1);
        setenv("MALLOC_PERTURB_", "0", 1);
        unsetenv("AOCL_DA_ARCH");
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
        return 3;
    }
    t_start = wall();
    char eb[512];
    ssize_t en = readlink("/proc/self/exe", eb, sizeof eb - 1);
    exe.assign(eb, en > 0 ? (size_t)en : 0);
    std::string tier = "quick", evid, replay_dir = ".", knownf, replay, only_name;
    u64 seed = 1;
    int jobs = 8; setvbuf(stdout, nullptr, _IOLBF, 0);
    double seconds = 30, min_seconds = 40;
    u64 maxruns = ~0ULL;
    long one = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--seconds") seconds = atof(nx().c_str());
        else if (a == "--minimise") min_seconds = atof(nx().c_str());
        else if (a == "--runs") maxruns = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--evidence") evid = nx();
        else if (a == "--replay-dir") replay_dir = nx();
        else if (a == "--known") knownf = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--scenario") only_name = nx();
        else if (a == "--one") one = atol(nx().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    for (; sim_scenarios[nsc].name; nsc++)
        sumw += sim_scenarios[nsc].weight;
    int only = -1;
    for (int i = 0; i < nsc; i++)
        if (only_name == sim_scenarios[i].name)
            only = i;
    if (!only_name.empty() && only < 0) {
        fprintf(stderr, "no scenario %s\n", only_name.c_str());
        return 3;
    }
    const char *td = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    char tmpl[64];
    snprintf(tmpl, sizeof tmpl, "%s/aoclsimXXXXXX", td);
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 3;
    }
    scratch_root = tmpl;
    pid_t self_pid = getpid();
    static std::string *root_keep = new std::string(scratch_root);
    (void)self_pid;
    struct Clean {
        ~Clean() { (void)!system(("find " + *root_keep + " -xdev -depth -delete").c_str()); }
    } *clean = new Clean;
    init_process();
    sim_warmup();
    auto shared = [](size_t n) {
        return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    };
    if (!knownf.empty())
        load_known(knownf);
    child_res = (Result *)shared(sizeof(Result));
    res = child_res;

    if (!replay.empty()) {
        Spec s;
        u64 h = 0;
        std::string key;
        if (!read_replay(replay, s, h, key)) {
            printf("cannot read replay file %s\n", replay.c_str());
            delete clean;
            return 3;
        }
        if (cpu_key(key))
            cpu_limit = 200;
        run_once(s, getenv("SIM_QUIET") == nullptr);
        bool same = child_res->outcome == 1 && symbolise(child_res->key) == key;
        bool exact = same && (child_res->hash == h || cpu_key(key)); // where time ran out is not exact
        printf("REPLAY outcome=%d reproduced=%d exact=%d hash=%llu key=%s\n", child_res->outcome, same, exact,
               (unsigned long long)child_res->hash, symbolise(child_res->key).c_str());
        if (same)
            printf("%s\n", symbolise(child_res->detail).c_str());
        if (exact)
            printf("VIOLATION property=%s replay=%s\n", sim_property, replay.c_str());
        delete clean;
        return same ? 1 : 0;
    }
    if (one >= 0) {
        Spec s = spec_of(seed, (u64)one, only);
        if (getenv("SIM_EXACT"))
            s.seed = seed; // the seed of a run as reported, with --scenario
        double t0 = wall();
        run_once(s, true);
        printf("run %ld scenario=%s outcome=%d key=%s\n%s\nstack: %s\n", one, sim_scenarios[s.sc].name,
               child_res->outcome, symbolise(child_res->key).c_str(),
               symbolise(child_res->detail).c_str(), symbolise(child_res->stack).c_str());
        printf("steps=%llu switches=%llu preempt=%llu teams=%llu tasks=%llu hash=%llx picks=%d %.3fs\n",
               (unsigned long long)child_res->steps, (unsigned long long)child_res->switches,
               (unsigned long long)child_res->preemptions, (unsigned long long)child_res->teams,
               (unsigned long long)child_res->tasks, (unsigned long long)child_res->hash,
               child_res->npicks, wall() - t0);
        for (int i = 0; i < child_res->npicks && i < 60; i++)
            printf("%s#%d=%lld ", child_res->picks[i].name, child_res->picks[i].occ,
                   (long long)child_res->picks[i].v);
        printf("\n");
        delete clean;
        return child_res->outcome == 1;
    }
    mkdir(replay_dir.c_str(), 0755);
    // ---- search -----------------------------------------------------------------
    WStats *ws = (WStats *)shared(sizeof(WStats) * (size_t)jobs);
    volatile int *stop_all = (volatile int *)shared(4096);
    double deadline = t_start + seconds;
    // determinism self-test: one run per scenario twice must give the same event hash
    for (int i = 0; i < nsc; i++) {
        if (only >= 0 && i != only)
            continue;
        Spec s = spec_of(seed, (u64)i, only);
        s.sc = i;
        run_once(s);
        u64 h1 = child_res->hash;
        int o1 = child_res->outcome;
        run_once(s);
        if (h1 != child_res->hash || o1 != child_res->outcome)
            printf("NOTE: scenario %s seed %llu is not deterministic (%llx vs %llx)\n",
                   sim_scenarios[i].name, (unsigned long long)s.seed, (unsigned long long)h1,
                   (unsigned long long)child_res->hash);
    }
    std::vector<pid_t> kids;
    fflush(stdout);
    for (int w = 0; w < jobs; w++) {
        pid_t p = fork();
        if (p == 0) {
            child_res = (Result *)shared(sizeof(Result));
            WStats &S = ws[w];
            std::set<u64> si, ss;
            for (u64 id = (u64)w; id < maxruns && wall() < deadline && !*stop_all; id += (u64)jobs) {
                Spec s = spec_of(seed, id, only);
                double rt0 = wall();
                run_once(s);
                Result &r = *child_res;
                if (wall() - rt0 > S.long_s) {
                    S.long_s = wall() - rt0;
                    S.long_seed = s.seed;
                    S.long_sc = s.sc;
                }
                if (r.seq > S.max_seq) {
                    S.max_seq = r.seq;
                    S.max_seq_seed = s.seed;
                    S.max_seq_sc = s.sc;
                }
                S.runs++;
                S.per_sc[s.sc]++;
                S.steps += r.steps;
                S.switches += r.switches;
                S.preemptions += r.preemptions;
                S.teams += r.teams;
                S.tasks += r.tasks;
                S.io += r.reads + r.writes;
                S.sim_s += (double)r.sim_ns * 1e-9;
                S.max_team = std::max(S.max_team, r.max_team);
                if (r.outcome == 3)
                    S.completed++;
                if (r.outcome == 2) {
                    S.gaveup++;
                    snprintf(S.gave[S.gaveup % 8], 120, "%.30s: %.80s", sim_scenarios[s.sc].name, r.key);
                }
                for (auto &n : r.probes)
                    if (n.name[0])
                        addn(S.probes, MAXNAMED * 3, n.name, n.n);
                for (auto &n : r.faults)
                    if (n.name[0])
                        addn(S.faults, MAXNAMED * 3, n.name, n.n);
                if (r.preemptions && si.insert(mixd(r.ilv ^ s.seed * (r.ilv ? 0 : 1))).second &&
                    S.nilv < MAXHASH)
                    S.ilv[S.nilv++] = mixd(r.ilv);
                u64 dst = r.state ? r.state : r.hash;
                if (r.outcome == 3 && ss.insert(dst).second && S.nst < MAXHASH)
                    S.st[S.nst++] = dst;
                if (S.nsample < MAXSAMPLE && r.outcome == 3 && id % 7 == (u64)w % 7) {
                    std::string t = std::string(sim_scenarios[s.sc].name) + " seed " +
                                    std::to_string(s.seed) + ":";
                    for (int i = 0; i < r.npicks && t.size() < 380; i++)
                        t += " " + std::string(r.picks[i].name) + "=" + std::to_string(r.picks[i].v);
                    t += " steps=" + std::to_string(r.steps) +
                         " preemptions=" + std::to_string(r.preemptions);
                    snprintf(S.sample[S.nsample++], 500, "%s", t.c_str());
                }
                if (r.outcome == 1) {
                    std::string k = symbolise(r.key);
                    u64 h1 = r.hash;
                    if (!is_known(k)) { // only a failure its seed repeats ends the search
                        run_once(s);
                        if (child_res->outcome != 1 || child_res->hash != h1 ||
                            symbolise(child_res->key) != k) {
                            S.unrepro++;
                            continue;
                        }
                    }
                    S.violations++;
                    bool dup = false;
                    for (int i = 0; i < S.nvio; i++)
                        if (k.compare(0, 399, S.vio[i].key) == 0)
                            dup = true;
                    if (!dup && S.nvio < MAXVIO) {
                        S.vio[S.nvio].id = id;
                        S.vio[S.nvio].seed = s.seed;
                        S.vio[S.nvio].sc = s.sc;
                        snprintf(S.vio[S.nvio].key, 400, "%s", k.c_str());
                        S.nvio++;
                    }
                    if (!is_known(k) && !getenv("SIM_KEEP_GOING"))
                        *stop_all = 1;
                }
            }
            _exit(0);
        }
        kids.push_back(p);
    }
    for (pid_t p : kids)
        waitpid(p, nullptr, 0);
    double search_wall = wall() - t_start;
    // ---- merge ---------------------------------------------------------------------
    WStats *M = (WStats *)shared(sizeof(WStats));
    std::set<u64> ilv, sts;
    std::map<std::string, Spec> vio;
    std::vector<std::string> samples;
    for (int w = 0; w < jobs; w++) {
        WStats &S = ws[w];
        M->runs += S.runs;
        M->completed += S.completed;
        M->gaveup += S.gaveup;
        M->violations += S.violations;
        M->unrepro += S.unrepro;
        M->steps += S.steps;
        M->switches += S.switches;
        M->preemptions += S.preemptions;
        M->teams += S.teams;
        M->tasks += S.tasks;
        M->io += S.io;
        M->sim_s += S.sim_s;
        M->max_team = std::max(M->max_team, S.max_team);
        if (S.long_s > M->long_s)
            M->long_s = S.long_s, M->long_seed = S.long_seed, M->long_sc = S.long_sc;
        if (S.max_seq > M->max_seq)
            M->max_seq = S.max_seq, M->max_seq_seed = S.max_seq_seed, M->max_seq_sc = S.max_seq_sc;
        for (int i = 0; i < MAXSC; i++)
            M->per_sc[i] += S.per_sc[i];
        for (auto &n : S.probes)
            if (n.name[0])
                addn(M->probes, MAXNAMED * 3, n.name, n.n);
        for (auto &n : S.faults)
            if (n.name[0])
                addn(M->faults, MAXNAMED * 3, n.name, n.n);
        for (int i = 0; i < S.nilv; i++)
            ilv.insert(S.ilv[i]);
        for (int i = 0; i < S.nst; i++)
            sts.insert(S.st[i]);
        for (int i = 0; i < S.nvio; i++) {
            Spec s;
            s.sc = S.vio[i].sc;
            s.seed = S.vio[i].seed;
            vio.emplace(S.vio[i].key, s);
        }
        for (int i = 0; i < S.nsample && samples.size() < 12; i++)
            samples.push_back(S.sample[i]);
        for (auto &g : S.gave)
            if (g[0] && w < 2)
                printf("NOTE: gave up: %s\n", g);
    }
    // ---- gate and report ----------------------------------------------------------
    int nreported = 0;
    u64 unrepro = M->unrepro;
    std::set<std::string> known_seen;
    for (auto &v : vio) {
        if (const Known *k = is_known(v.first)) {
            known_seen.insert(k->key);
            continue;
        }
        static int ncpu = 0;
        if (nreported >= 3) // enough to act on
            break;
        bool cpu = cpu_key(v.first);
        if (cpu) {
            if (ncpu++)
                continue;
            cpu_limit = 240;
        }
        run_once(v.second);
        cpu_limit = 60;
        u64 h1 = child_res->hash;
        bool a = child_res->outcome == 1 && symbolise(child_res->key) == v.first;
        if (!cpu)
            run_once(v.second);
        bool b = child_res->outcome == 1 && symbolise(child_res->key) == v.first &&
                 child_res->hash == h1;
        if (!a || !b) {
            unrepro++;
            printf("NOTE: a failure did not reproduce from its seed and is not reported: %s\n",
                   v.first.c_str());
            continue;
        }
        if (child_res->null_call) {
            printf("NOTE: call through a symbol that is not linked in: %s\n%s\n", v.first.c_str(),
                   symbolise(child_res->stack).c_str());
            printf("UNLINKED\n");
        }
        Spec m = cpu ? v.second : minimise(v.second, v.first, nreported ? min_seconds / 3 : min_seconds);
        if (!cpu)
            run_once(m);
        if (!cpu && !(child_res->outcome == 1 && symbolise(child_res->key) == v.first)) {
            m = v.second;
            run_once(m);
        }
        char fn[400];
        snprintf(fn, sizeof fn, "%s/%s-%s-%016llx.replay", replay_dir.c_str(), sim_property,
                 sim_scenarios[m.sc].name, (unsigned long long)sim::hash_str(v.first.c_str()));
        write_replay(fn, m, *child_res);
        // fresh process
        std::string cmd = "SIM_QUIET=1 SIM_REEXEC= ; unset SIM_REEXEC; export SIM_QUIET=1; " + exe +
                          " --replay " + fn;
        FILE *f = popen(cmd.c_str(), "r");
        std::string out;
        char lb[1024];
        while (f && fgets(lb, sizeof lb, f))
            out += lb;
        if (f)
            pclose(f);
        if (out.find("exact=1") == std::string::npos) {
            unrepro++;
            printf("NOTE: replay file did not reproduce in a fresh process, not reported: %s (%s)\n", fn,
                   v.first.c_str());
            continue;
        }
        nreported++;
        printf("violation: %s\n  scenario %s, seed %llu, %zu preemptions, %zu choices; %d minimisation runs\n"
               "  %s\n",
               v.first.c_str(), sim_scenarios[m.sc].name, (unsigned long long)m.seed, m.sw.size(),
               m.ch.size() + m.blk.size(), min_runs, symbolise(child_res->detail).c_str());
        printf("VIOLATION property=%s replay=%s\n", sim_property, fn);
    }
    for (auto &k : known) {
        if (!known_seen.count(k.key) && k.replay.size() > 1) {
            Spec s;
            u64 h;
            std::string key;
            std::string path = k.replay[0] == '/' ? k.replay
                                                  : knownf.substr(0, knownf.rfind('/') + 1) + k.replay;
            if (read_replay(path, s, h, key)) {
                run_once(s);
                if (child_res->outcome == 1 && is_known(symbolise(child_res->key)) == &k)
                    known_seen.insert(k.key);
            }
        }
        if (known_seen.count(k.key))
            printf("KNOWN-FINDING: property=%s %s\n", sim_property, k.what.c_str());
        else
            printf("NOTE: known finding not reproduced in this run: %s\n", k.what.c_str());
    }
    double total = wall() - t_start;
    if (!evid.empty()) {
        std::ofstream o(evid + ".tmp");
        o.precision(6);
        o << "{\n \"property\": \"" << sim_property << "\",\n \"tier\": \"" << tier
          << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << M->runs << ",\n  \"distinct_nontrivial\": " << sts.size()
          << ",\n  \"rule\": \"" << jesc(sim_rule) << "\",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++)
            o << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\"";
        o << "],\n  \"runs_completed\": " << M->completed << ",\n  \"runs_without_verdict\": " << M->gaveup
          << ",\n  \"unreproducible_failures\": " << unrepro
          << ",\n  \"runs_per_hour\": " << (u64)(M->runs / std::max(search_wall, 0.1) * 3600)
          << ",\n  \"seeds_per_hour\": " << (u64)(M->runs / std::max(search_wall, 0.1) * 3600)
          << ",\n  \"simulated_seconds\": " << M->sim_s << ",\n  \"scheduling_steps\": " << M->steps
          << ",\n  \"context_switches\": " << M->switches << ",\n  \"preemptions\": " << M->preemptions
          << ",\n  \"teams\": " << M->teams << ",\n  \"tasks\": " << M->tasks
          << ",\n  \"largest_team\": " << M->max_team << ",\n  \"simulated_io_calls\": " << M->io
          << ",\n  \"distinct_interleavings\": " << ilv.size()
          << ",\n  \"interleaving_measure\": \"hash of the (step, thread) switch sequence of a run\""
          << ",\n  \"runs_per_scenario\": {";
        for (int i = 0; i < nsc; i++)
            o << (i ? ", " : "") << "\"" << sim_scenarios[i].name << "\": " << M->per_sc[i];
        o << "},\n  \"faults_injected\": {";
        bool first = true;
        for (auto &n : M->faults)
            if (n.name[0]) {
                o << (first ? "" : ", ") << "\"" << jesc(n.name) << "\": " << n.n;
                first = false;
            }
        o << "},\n  \"reached\": {";
        first = true;
        for (auto &n : M->probes)
            if (n.name[0]) {
                o << (first ? "" : ", ") << "\"" << jesc(n.name) << "\": " << n.n;
                first = false;
            }
        o << "},\n  \"real_code\": \"" << jesc(sim_real_components) << "\",\n  \"stubs\": \""
          << jesc(sim_stub_components) << "\"\n },\n \"assumptions\": ["
          << "\"OpenBLAS/LAPACK calls run as atomic steps; their operand ranges are declared to the race and bounds checker for the CBLAS calls only\","
          << "\"memory is sequentially consistent; weak-memory effects appear only through the happens-before race check\","
          << "\"generic (AVX2) code path, LP64 integers, gcc -O1\"],\n \"wall_s\": "
          << total << ",\n \"violations\": " << nreported << "\n}\n";
        o.close();
        rename((evid + ".tmp").c_str(), evid.c_str());
    }
    printf("longest run %.1f s (%s seed %llu); most accesses %.1f%% of the limit (%s seed %llu)\n", M->long_s,
           sim_scenarios[M->long_sc].name, (unsigned long long)M->long_seed, 100.0 * (double)M->max_seq / (double)max_seq,
           sim_scenarios[M->max_seq_sc].name, (unsigned long long)M->max_seq_seed);
    printf("%s %s: %llu runs (%llu complete, %llu without verdict) in %.1f s, %llu preemptions, %zu "
           "distinct interleavings, %zu distinct states, %d violations reported\n",
           sim_property, tier.c_str(), (unsigned long long)M->runs, (unsigned long long)M->completed,
           (unsigned long long)M->gaveup, search_wall, (unsigned long long)M->preemptions, ilv.size(),
           sts.size(), nreported);
    delete clean;
    return nreported ? 1 : 0;
}
