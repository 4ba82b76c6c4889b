// Deterministic simulator for AOCL-DA: interface used by the scenario code.
// One process = one simulated run (the driver forks a fresh child per run).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {
typedef uint64_t u64;
typedef int64_t i64;

// ---- run control -------------------------------------------------------
// Record a violation of the property and end the run. `key` identifies the
// kind and site of the violation (stable across schedules), `detail` is free.
[[noreturn]] void fail(const std::string &key, const std::string &detail);
[[noreturn]] void failf(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
// End the run without a verdict (budget exhausted, simulator limitation)
[[noreturn]] void give_up(const char *why);
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_mix(u64 v);            // fold a value into the run's event hash
void hash_bytes(const void *p, size_t n);
void state(u64 v);               // fold into the state-diversity measure
void probe(const char *name);    // coverage probe (reached count)
void fault(const char *kind);    // count an injected fault

// ---- seeded choices (keyed by name + occurrence, overridable by replay) --
i64 pick(const char *name, i64 lo, i64 hi);        // uniform in [lo,hi], shrinks to lo
bool chance(const char *name, double p);           // shrinks to false
template <typename T> T one_of(const char *name, std::initializer_list<T> l) {
    return *(l.begin() + pick(name, 0, (i64)l.size() - 1));
}
struct Rng { // private stream derived from the run seed and a name
    u64 s;
    explicit Rng(const char *name, u64 salt = 0);
    u64 next();
    i64 below(i64 n) { return n <= 0 ? 0 : (i64)(next() % (u64)n); }
    i64 range(i64 lo, i64 hi) { return lo + below(hi - lo + 1); }
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double normal();
};
u64 seed();
u64 hash_str(const char *s, u64 h = 1469598103934665603ULL);

// ---- simulated OpenMP environment -----------------------------------------
void set_threads(int n);         // nthreads-var of the calling simulated thread
void set_thread_limit(int n);    // OMP_THREAD_LIMIT: teams may be smaller than asked
void random_schedule(bool on);   // off: every region runs its threads in order
size_t peak_bytes();             // most bytes allocated inside api scopes since peak_reset()
void peak_reset();
int live_blocks();               // blocks allocated inside api scopes, still live
std::string live_sites(int max); // their allocation sites, latest first (slow: for reports)
// Application threads (fibers with their own OpenMP ICVs and TLS)
void spawn(const std::function<void()> &f);
void join_all();
void yield();
int self();

// ---- API scope: code under test --------------------------------------------
struct Api {
    explicit Api(const char *what);
    ~Api();
};
struct NotApi { // inside user callbacks
    int saved;
    NotApi();
    ~NotApi();
};
// ---- allocation faults -------------------------------------------------------
void fail_alloc(i64 nth, i64 count = 1); // within api scopes: nth (1-based) and following
void fail_malloc_only(bool on);           // faults spare operator new (C++ exceptions)
void fail_alloc_larger(size_t bytes);    // every request of at least this size fails
void clear_alloc_faults();
u64 allocs_in_api();
u64 alloc_faults_fired();
std::string alloc_fault_site();

// ---- memory ---------------------------------------------------------------
void *ublock(size_t bytes, size_t align = 16); // user buffer with red zones, junk filled
void ufree(void *p);
void protect(const void *p, size_t n);   // read-only to the code under test
void unprotect(const void *p, size_t n);
void forbid(const void *p, size_t n);    // neither read nor written by the code under test
void touch(const void *p, size_t n, bool write, const char *who); // annotate an access

// ---- clock -------------------------------------------------------------------
void set_clock(i64 ns);
void pass_time(i64 ns); // on every clock
i64 now();
void clock_step(i64 ns_per_read);                // time passing per clock read
void clock_jump_at(i64 nth_read, i64 delta_ns);  // realtime jump (may be negative)
u64 clock_reads();
double sim_seconds();

// ---- random_device ---------------------------------------------------------
void random_device_fault(bool throw_on_open);
u64 random_device_draws();
void random_device_value(long long v); // every draw gives v; -1: draws are random again

// ---- files (scratch directory of this run) --------------------------------
std::string scratch(const char *name);
struct IoFaults {
    i64 write_fail_after = -1;   // bytes that reach the disk before writes fail
    int write_errno = 0;         // ENOSPC, EIO, EDQUOT
    bool fail_close = false;     // close/flush fails (delayed write error)
    i64 short_io = 0;            // >0: each read/write moves at most this many bytes
    i64 read_fail_after = -1;    // bytes delivered before reads fail
    int read_errno = 0;
    i64 open_fail = -1;          // nth open fails
    int open_errno = 0;
    i64 eintr_every = 0;         // every nth read/write first fails with EINTR
    i64 crash_after = -1;        // bytes written, then everything later is lost silently
};
void io_faults(const IoFaults &f);
void io_clear();
struct IoStats { u64 opens, reads, writes, rbytes, wbytes, fired; };
IoStats io_stats();

// ---- scenarios ------------------------------------------------------------
struct Scenario {
    const char *name;
    void (*fn)();
    int weight;
};
} // namespace sim
extern const char *sim_property;
extern sim::Scenario sim_scenarios[]; // terminated by a null name
void sim_warmup();                    // run once in the parent, before the first fork
