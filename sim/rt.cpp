// Deterministic simulator runtime: memory, scheduler, OpenMP, clock, faults.
// Built WITHOUT instrumentation. Everything the code under test can observe of
// its environment comes from here.
#include "rt.hpp"
#include "rt_int.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <stdexcept>
#include <sys/time.h>
#include <typeinfo>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
using namespace rt;

extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" char __data_start, _end;

// ===========================================================================
// Layout
// ===========================================================================
static const u64 ARENA = 0x200000000000ULL, HEAP_SZ = 6ULL << 30, ARENA_SZ = 10ULL << 30;
static const u64 SHADOW = 0x210000000000ULL;
static const u64 RACE = 0x220000000000ULL;
static u64 g_lo, g_hi, g_race; // globals of the executable
enum { SH_RED = 1, SH_FREED = 2, SH_RO = 4, SH_FORBID = 8 };
namespace rt {
Result *res;
Params prm;
bool active = false;    // inside a simulated run
const char *cur_api = "";
} // namespace rt
static void die() { _exit(0); }

// ===========================================================================
// PRNG, event hash, reporting
// ===========================================================================
static u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
u64 sim::hash_str(const char *s, u64 h) {
    for (; *s; s++)
        h = (h ^ (unsigned char)*s) * 1099511628211ULL;
    return h;
}
static u64 run_seed;
u64 sim::seed() { return run_seed; }
Rng::Rng(const char *name, u64 salt) {
    s = mix64(run_seed ^ mix64(hash_str(name)) ^ (salt * 0x9e3779b97f4a7c15ULL));
}
u64 Rng::next() {
    s += 0x9e3779b97f4a7c15ULL;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
double Rng::normal() {
    double u = 0;
    for (int i = 0; i < 12; i++)
        u += uniform();
    return u - 6.0;
}
static u64 sched_s, choice_s;
static u64 nexts(u64 &s) {
    s += 0x9e3779b97f4a7c15ULL;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void sim::hash_mix(u64 v) { res->hash = mix64(res->hash ^ v) * 3 + 1; }
void sim::hash_bytes(const void *p, size_t n) {
    u64 h = 1469598103934665603ULL;
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ULL;
    hash_mix(h);
}
void sim::state(u64 v) { res->state = mix64(res->state ^ mix64(v)); }
static void bump(Named *t, int cap, const char *name) {
    for (int i = 0; i < cap; i++) {
        if (!t[i].name[0]) {
            snprintf(t[i].name, sizeof(t[i].name), "%s", name);
            t[i].n = 1;
            return;
        }
        if (!strcmp(t[i].name, name)) {
            t[i].n++;
            return;
        }
    }
}
void sim::probe(const char *name) { bump(res->probes, MAXNAMED, name); }
void sim::fault(const char *kind) { bump(res->faults, MAXNAMED, kind); }
static void appendf(char *buf, size_t cap, const char *fmt, ...) {
    size_t n = strlen(buf);
    if (n + 2 >= cap)
        return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf + n, cap - n, fmt, ap);
    va_end(ap);
}
void sim::log(const char *fmt, ...) {
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    hash_mix(hash_str(b));
    if (prm.verbose) {
        char o[560];
        int n = snprintf(o, sizeof o, "  [%llu] %s\n", (unsigned long long)res->steps, b);
        (void)!::write(2, o, n);
    }
    size_t l = strlen(res->logtail);
    if (l + strlen(b) + 3 > sizeof(res->logtail)) {
        size_t h = sizeof(res->logtail) / 2;
        memmove(res->logtail, res->logtail + h, l - h + 1);
    }
    appendf(res->logtail, sizeof(res->logtail), "%s\n", b);
}
static void stack_of(char *buf, size_t cap);
void sim::fail(const std::string &key, const std::string &detail) {
    if (res->outcome == 0) {
        res->outcome = 1;
        snprintf(res->key, sizeof res->key, "%s", key.c_str());
        snprintf(res->detail, sizeof res->detail, "%s", detail.c_str());
        stack_of(res->stack, sizeof res->stack);
        hash_mix(hash_str(res->key));
    }
    die();
    __builtin_unreachable();
}
void sim::failf(const char *key, const char *fmt, ...) {
    if (res->outcome == 0) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(res->detail, sizeof res->detail, fmt, ap);
        va_end(ap);
        res->outcome = 1;
        snprintf(res->key, sizeof res->key, "%s", key);
        stack_of(res->stack, sizeof res->stack);
        hash_mix(hash_str(res->key));
    }
    die();
    __builtin_unreachable();
}
void sim::give_up(const char *why) {
    if (res->outcome == 0) {
        res->outcome = 2;
        snprintf(res->key, sizeof res->key, "%s", why);
    }
    die();
    __builtin_unreachable();
}

// ---- picks -----------------------------------------------------------------
struct Occ {
    u64 h;
    int n;
};
static Occ occ[4096];
static int occurrence(u64 h) {
    for (u64 i = h & 4095;; i = (i + 1) & 4095) {
        if (!occ[i].n) {
            occ[i].h = h;
            occ[i].n = 1;
            return 0;
        }
        if (occ[i].h == h)
            return occ[i].n++;
    }
}
i64 sim::pick(const char *name, i64 lo, i64 hi) {
    if (hi < lo)
        hi = lo;
    u64 h = hash_str(name);
    int k = occurrence(h);
    u64 r = mix64(mix64(run_seed ^ mix64(h)) + 0x1234567ULL * (u64)k);
    i64 v = lo + (i64)(r % (u64)(hi - lo + 1));
    for (int i = 0; i < prm.noverride; i++)
        if (prm.overrides[i].h == h && prm.overrides[i].occ == k) {
            v = prm.overrides[i].v;
            if (v < lo)
                v = lo;
            if (v > hi)
                v = hi;
        }
    if (res->npicks < MAXPICK) {
        Pick &p = res->picks[res->npicks++];
        snprintf(p.name, sizeof p.name, "%s", name);
        p.occ = k;
        p.v = v;
        p.lo = lo;
        p.hi = hi;
    }
    hash_mix((u64)v);
    return v;
}
bool sim::chance(const char *name, double p) {
    // 0 is the default to shrink to; the top p-fraction of the range is "true"
    i64 v = pick(name, 0, 999999);
    return v >= (i64)(1000000 * (1 - p));
}

// ===========================================================================
// Fibers and vector clocks
// ===========================================================================
enum { MAXF = 48 };
enum State { ST_FREE, ST_READY, ST_BLOCKED, ST_DONE };
struct VC {
    uint32_t c[MAXF];
};
static void vjoin(VC &a, const VC &b) {
    for (int i = 0; i < MAXF; i++)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
struct Team;
struct Task;
struct Icv {
    int nthreads, max_active, level, active;
};
struct Fiber {
    void *sp;
    char *stk;
    size_t stksz;
    int id;
    State st;
    VC vc;
    VC fence_rel, acq_pending;
    bool has_fence_rel;
    void (*fn)(void *);
    void *arg;
    std::function<void()> *app;
    Team *team;
    int tid;
    int ws_idx, single_idx;
    Icv icv;
    Task *task; // current explicit task, or null
    unsigned char *tls;
    void *eh[2];
    const char *waiting;
    int prio;
    void *pcs[512];
    int depth;
    int api;
    const char *api_name;
    void *dtors; // thread_local destructors
};
static Fiber F[MAXF];
static Fiber *cur;
static int nlive = 1;      // fibers READY or BLOCKED
static bool par = false;   // more than one live fiber
static i64 budget = 1LL << 60, budget0 = 1LL << 60;
static u64 steps_base = 0;
static u64 seq_left = 0;   // accesses left before the run counts as not terminating

static unsigned char *tls_addr;
static size_t tls_size;
static unsigned char *tls_init;
static size_t tls_filesz;

static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            tls_addr = (unsigned char *)i->dlpi_tls_data;
            tls_size = i->dlpi_phdr[k].p_memsz;
            tls_filesz = i->dlpi_phdr[k].p_filesz;
            tls_init = (unsigned char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
        }
    return 1; // main executable only
}

asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void **save, void *to);

static void fiber_main();
static void fiber_init_stack(Fiber *f) {
    u64 *s = (u64 *)(f->stk + f->stksz - 64);
    *--s = 0; // alignment / fake return
    *--s = (u64)&fiber_main;
    for (int i = 0; i < 6; i++)
        *--s = 0;
    s--;
    uint32_t mx;
    uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t *)s)[0] = mx;
    ((uint32_t *)s)[1] = cw;
    f->sp = s;
}
static void switch_to(Fiber *f) {
    if (f == cur)
        return;
    Fiber *o = cur;
    if (tls_size) {
        memcpy(o->tls, tls_addr, tls_size);
        memcpy(tls_addr, f->tls, tls_size);
    }
    void **eh = (void **)abi::__cxa_get_globals();
    o->eh[0] = eh[0];
    o->eh[1] = eh[1];
    eh[0] = f->eh[0];
    eh[1] = f->eh[1];
    o->api_name = cur_api;
    cur_api = f->api_name;
    cur = f;
    res->switches++;
    sim_switch(&o->sp, f->sp);
}
static Fiber *fiber_new() {
    for (int i = 1; i < MAXF; i++)
        if (F[i].st == ST_FREE) {
            Fiber *f = &F[i];
            if (!f->stk) {
                f->stksz = 1 << 20;
                f->stk = (char *)(ARENA + HEAP_SZ + (64ULL << 20) + (u64)i * (4ULL << 20));
                if (tls_size) {
                    f->tls = (unsigned char *)__libc_memalign(64, tls_size);
                    memset(f->tls, 0, tls_size);
                    memcpy(f->tls, tls_init, tls_filesz);
                }
            }
            f->st = ST_READY;
            f->id = i;
            f->team = nullptr;
            f->task = nullptr;
            f->eh[0] = f->eh[1] = nullptr;
            f->depth = 0;
            f->app = nullptr;
            f->waiting = nullptr;
            f->api = 0;
            f->api_name = "";
            f->ws_idx = f->single_idx = 0;
            f->prio = (int)(nexts(sched_s) % 1000);
            uint32_t own = f->vc.c[i];
            f->vc = cur->vc;
            f->vc.c[i] = own + 1;
            f->has_fence_rel = false;
            memset(&f->acq_pending, 0, sizeof(VC));
            cur->vc.c[cur->id]++;
            fiber_init_stack(f);
            return f;
        }
    give_up("too many simulated threads");
}

// ===========================================================================
// Scheduler
// ===========================================================================
enum Strat { S_WALK, S_PCT, S_STARVE, S_RR, S_SEQ };
static int strat;
static i64 mean_q;
static int starved = -1;
static bool sched_on = true;
static u64 dec_block = 0, dec_choice = 0;
static int rp_sw = 0; // replay cursor

static i64 draw_budget() {
    if (prm.explicit_sched) {
        u64 s = steps_base;
        while (rp_sw < prm.nsw && prm.sw[rp_sw].at < s)
            rp_sw++;
        if (rp_sw >= prm.nsw)
            return 1LL << 40;
        return prm.sw[rp_sw].at > s ? (i64)(prm.sw[rp_sw].at - s) : 1;
    }
    if (!sched_on || strat == S_SEQ)
        return 1LL << 40;
    if (strat == S_RR)
        return mean_q;
    // geometric-ish
    u64 r = nexts(sched_s);
    i64 b = 1 + (i64)(r % (u64)(2 * mean_q));
    if ((r >> 40) % 8 == 0)
        b = 1 + (i64)((r >> 20) % 8);
    return b;
}
static void settle_steps() {
    steps_base += (u64)(budget0 - budget);
    res->steps = steps_base;
    res->seq = prm.max_seq - seq_left;
}
static void arm_budget() {
    if (!par) {
        budget0 = budget = 1LL << 60;
        return;
    }
    budget0 = budget = draw_budget();
}
static int ready_list(Fiber **l) {
    int n = 0;
    for (int i = 0; i < MAXF; i++)
        if (F[i].st == ST_READY)
            l[n++] = &F[i];
    return n;
}
static void record_sw(u64 at, int to) {
    if (res->nsw < MAXSW) {
        res->sw[res->nsw].at = at;
        res->sw[res->nsw].to = to;
        res->nsw++;
    } else
        res->trace_full = 1;
    res->ilv = mix64(res->ilv ^ (at * 131 + (u64)to));
}
// pick one of the ready fibers for strategy reasons
static Fiber *choose(Fiber **l, int n) {
    if (strat == S_SEQ || !sched_on)
        return l[0];
    if (strat == S_PCT) {
        Fiber *b = l[0];
        for (int i = 1; i < n; i++)
            if (l[i]->prio > b->prio)
                b = l[i];
        return b;
    }
    if (strat == S_RR) {
        for (int i = 0; i < n; i++)
            if (l[i]->id > cur->id)
                return l[i];
        return l[0];
    }
    int k = (int)(nexts(sched_s) % (u64)n);
    if (strat == S_STARVE && n > 1 && l[k]->id == starved)
        k = (k + 1) % n;
    return l[k];
}
static void deadlock() {
    std::string w;
    for (int i = 0; i < MAXF; i++)
        if (F[i].st == ST_BLOCKED) {
            char b[96];
            snprintf(b, sizeof b, "thread %d waits for %s; ", i, F[i].waiting ? F[i].waiting : "?");
            w += b;
        }
    fail("deadlock", "every simulated thread is blocked: " + w);
}
static bool trylock_failed_recently = false;
static void preempt() {
    settle_steps();
    if (steps_base > prm.max_steps)
        failf("no-progress", "the run did not finish within %llu scheduling steps",
              (unsigned long long)prm.max_steps);
    Fiber *l[MAXF];
    int n = ready_list(l);
    Fiber *to = cur;
    if (prm.explicit_sched) {
        if (rp_sw < prm.nsw && prm.sw[rp_sw].at == steps_base) {
            Fiber *t = &F[prm.sw[rp_sw].to];
            if (t->st == ST_READY)
                to = t;
            rp_sw++;
        } else if (trylock_failed_recently) {
            for (int i = 0; i < n; i++) // rotate: spinning must not starve the others
                if (l[i]->id > cur->id) {
                    to = l[i];
                    break;
                }
            if (to == cur)
                to = l[0];
        }
    } else {
        if (strat == S_PCT)
            cur->prio = (int)(nexts(sched_s) % 1000) - 500;
        to = choose(l, n);
    }
    trylock_failed_recently = false;
    if (to != cur) {
        res->preemptions++;
        record_sw(steps_base, to->id);
        hash_mix(steps_base * 64 + (u64)to->id);
        switch_to(to);
    }
    // budget is re-armed by whoever runs now
    arm_budget();
}
// current fiber cannot continue (blocked or finished)
static void block_switch() {
    settle_steps();
    Fiber *l[MAXF];
    int n = ready_list(l);
    if (!n)
        deadlock();
    Fiber *to;
    u64 k = dec_block++;
    if (prm.explicit_sched) {
        to = l[0];
        for (int i = 0; i < prm.nblk; i++)
            if (prm.blk[i].at == k) {
                Fiber *t = &F[prm.blk[i].to];
                if (t->st == ST_READY)
                    to = t;
            }
    } else
        to = choose(l, n);
    if (to != l[0]) {
        if (res->nblk < MAXSW) {
            res->blk[res->nblk].at = k;
            res->blk[res->nblk].to = to->id;
            res->nblk++;
        } else
            res->trace_full = 1;
    }
    res->ilv = mix64(res->ilv ^ (k * 977 + (u64)to->id + 77));
    hash_mix(k * 64 + (u64)to->id);
    Fiber *me = cur;
    switch_to(to);
    (void)me;
    arm_budget();
}
static u64 choice(u64 n) {
    if (n <= 1)
        return 0;
    u64 k = dec_choice++, v = 0;
    if (prm.explicit_sched) {
        for (int i = 0; i < prm.nch; i++)
            if (prm.ch[i].at == k)
                v = (u64)prm.ch[i].to % n;
    } else if (sched_on && strat != S_SEQ)
        v = nexts(choice_s) % n;
    if (v) {
        if (res->nch < MAXSW) {
            res->ch[res->nch].at = k;
            res->ch[res->nch].to = (int)v;
            res->nch++;
        } else
            res->trace_full = 1;
    }
    hash_mix(v);
    return v;
}
static inline void sched_point() {
    if (par && --budget <= 0)
        preempt();
}
static void sync_point() { // synchronisation operations are likelier switch points
    if (!par)
        return;
    if (budget > 4 && !prm.explicit_sched && sched_on && strat != S_SEQ && strat != S_RR &&
        nexts(sched_s) % 3 == 0) {
        settle_steps();
        budget0 = budget = 1;
    }
    if (--budget <= 0)
        preempt();
}
static void block_on(const char *what) {
    cur->st = ST_BLOCKED;
    cur->waiting = what;
    block_switch();
    cur->waiting = nullptr;
}
void sim::yield() {
    trylock_failed_recently = true;
    if (par) {
        settle_steps();
        budget0 = budget = 0;
        preempt();
    }
}
static void upd_par() {
    bool np = nlive > 1;
    if (np != par) {
        settle_steps();
        par = np;
        arm_budget();
    }
}
static void fiber_main() {
    arm_budget();
    if (cur->app)
        (*cur->app)();
    else
        cur->fn(cur->arg);
    // finished: the joiner looks at our clock
    cur->vc.c[cur->id]++;
    cur->st = ST_DONE;
    nlive--;
    for (int i = 0; i < MAXF; i++)
        if (F[i].st == ST_BLOCKED && F[i].waiting && !strcmp(F[i].waiting, "join"))
            F[i].st = ST_READY;
    upd_par();
    block_switch();
    abort();
}
void sim::spawn(const std::function<void()> &f) {
    Fiber *n = fiber_new();
    n->app = new std::function<void()>(f);
    n->icv = F[0].icv;
    n->icv.level = n->icv.active = 0;
    n->tid = 0;
    nlive++;
    upd_par();
}
void sim::join_all() {
    for (;;) {
        bool any = false;
        for (int i = 1; i < MAXF; i++)
            if (F[i].app && (F[i].st == ST_READY || F[i].st == ST_BLOCKED))
                any = true;
        if (!any)
            break;
        block_on("join");
    }
    for (int i = 1; i < MAXF; i++)
        if (F[i].app && F[i].st == ST_DONE) {
            vjoin(cur->vc, F[i].vc);
            delete F[i].app;
            F[i].app = nullptr;
            F[i].st = ST_FREE;
        }
}
int sim::self() { return cur->id; }

// ===========================================================================
// Shadow memory, race detector
// ===========================================================================
// race cell: bits 0-7 byte mask, 8 write, 9 atomic, 16-23 thread+1, 32-63 epoch
static inline u64 *race_cells(u64 a) {
    if (a - ARENA < ARENA_SZ)
        return (u64 *)(RACE + ((a - ARENA) & ~7ULL) * 4);
    if (a >= g_lo && a < g_hi)
        return (u64 *)(g_race + ((a - g_lo) & ~7ULL) * 4);
    return nullptr;
}
static u64 race_pc_dummy;
static void *pcs_of_race = nullptr;
static void stack_of(char *buf, size_t cap) {
    buf[0] = 0;
    if (!cur)
        return;
    int lo = cur->depth > 14 ? cur->depth - 14 : 0;
    int top = cur->depth < 512 ? cur->depth : 511;
    for (int i = top - 1; i >= lo; i--)
        appendf(buf, cap, "@pc:%p ", cur->pcs[i]);
}
static const char *addr_what(u64 a, char *b, size_t n);
// last-writer pcs are not kept per cell; the conflicting side is named by thread
static void race_report(u64 a, int size, bool write, bool atomic, u64 old, void *pc) {
    char key[200], w[160];
    snprintf(key, sizeof key, "data-race in @pc:%p", pc);
    failf(key,
          "%s%s of %d bytes at %s by thread %d in @pc:%p is not ordered with an earlier %s%s by "
          "thread %d (last pc there @pc:%p)",
          atomic ? "atomic " : "", write ? "write" : "read", size,
          addr_what(a, w, sizeof w), cur->id, pc, (old >> 9) & 1 ? "atomic " : "",
          (old >> 8) & 1 ? "write" : "read", (int)((old >> 16) & 255) - 1,
          F[((old >> 16) & 255) - 1].depth > 0
              ? F[((old >> 16) & 255) - 1].pcs[F[((old >> 16) & 255) - 1].depth - 1]
              : nullptr);
}
static inline void race_granule(u64 a, unsigned mask, bool write, bool atomic, void *pc) {
    u64 *c = race_cells(a);
    if (!c)
        return;
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        u64 o = c[i];
        if (!o) {
            if (slot < 0)
                slot = i;
            continue;
        }
        int t = (int)((o >> 16) & 255) - 1;
        if (t == cur->id) {
            if ((o & 0xff) == mask && (write || !((o >> 8) & 1)) &&
                (!atomic || ((o >> 9) & 1)))
                slot = i;
            continue;
        }
        if (!(o & 0xff & mask))
            continue;
        if (!write && !((o >> 8) & 1))
            continue;
        if (atomic && ((o >> 9) & 1))
            continue;
        if ((uint32_t)(o >> 32) > cur->vc.c[t])
            race_report(a, __builtin_popcount(mask), write, atomic, o, pc);
        else if (slot < 0 && write && (o & 0xff & ~mask) == 0)
            slot = i; // ordered before us and covered: replace
    }
    if (slot < 0)
        slot = (int)((res->evict++) & 3);
    c[slot] = (u64)mask | (write ? 256 : 0) | (atomic ? 512 : 0) | ((u64)(cur->id + 1) << 16) |
              ((u64)cur->vc.c[cur->id] << 32);
}
static unsigned char *race_dirty; // per 4 KiB heap page: cells may be non-zero
static void race_range(u64 a, size_t n, bool write, bool atomic, void *pc) {
    u64 e = a + n;
    if (n && a - ARENA < HEAP_SZ)
        for (u64 g = (a - ARENA) >> 12; g <= (e - 1 - ARENA) >> 12; g++)
            race_dirty[g] = 1;
    while (a < e) {
        unsigned off = a & 7;
        unsigned k = 8 - off;
        if (k > e - a)
            k = (unsigned)(e - a);
        race_granule(a, ((1u << k) - 1) << off, write, atomic, pc);
        a += k;
    }
}
// forget the accesses recorded for a block (only pages that have any)
static void race_clear(u64 a, size_t n) {
    u64 lo = a & ~7ULL, e = (a + n + 7) & ~7ULL;
    while (lo < e) {
        u64 g = (lo - ARENA) >> 12, pe = ARENA + ((g + 1) << 12);
        if (pe > e)
            pe = e;
        if (race_dirty[g])
            memset((void *)(RACE + (lo - ARENA) * 4), 0, (pe - lo) * 4);
        lo = pe;
    }
}
// a block is freed: every earlier access must be ordered before
static void race_freed(u64 a, size_t n, void *pc) {
    u64 e = a + n;
    while (a < e) {
        u64 g = (a - ARENA) >> 12, pe = ARENA + ((g + 1) << 12);
        if (pe > e)
            pe = e;
        if (race_dirty[g])
            race_range(a, pe - a, true, false, pc);
        a = pe;
    }
}
struct Blk { // header in front of every heap block
    u64 magic;
    u64 size;      // requested
    u64 cls;       // capacity including red zones
    u32t alloc_n;
    int api;
    void *pc;
    Blk *next;
    u64 kind;
    u64 pad;
};
enum { BMAGIC = 0x51b10c, BFREED = 0x51bdead };
static const size_t HDR = 64, RZ = 32;
static Blk *block_of(u64 a) { // scan back through the shadow for the header
    if (a - ARENA >= HEAP_SZ)
        return nullptr;
    for (u64 p = a & ~15ULL; p >= ARENA && a - p < (64ULL << 20); p -= 16) {
        Blk *b = (Blk *)p;
        if ((b->magic == BMAGIC || b->magic == BFREED) && b->pad == (p ^ 0x5a5a5a5aULL))
            return b;
    }
    return nullptr;
}
static const char *addr_what(u64 a, char *b, size_t n) {
    Blk *k = block_of(a);
    if (k)
        snprintf(b, n, "byte %lld of a %llu-byte %sblock (allocation #%u)",
                 (long long)(a - (u64)k - HDR), (unsigned long long)k->size,
                 k->magic == BFREED ? "freed " : "", k->alloc_n);
    else if (a - ARENA < ARENA_SZ && a - ARENA >= HEAP_SZ)
        snprintf(b, n, "a stack variable");
    else if (a >= g_lo && a < g_hi)
        snprintf(b, n, "a global (@pc:0x%llx)", (unsigned long long)a);
    else
        snprintf(b, n, "0x%llx", (unsigned long long)a);
    return b;
}
static void bad_access(u64 a, size_t n, bool write, void *pc) {
    unsigned char *s = (unsigned char *)(SHADOW + (a - ARENA));
    size_t i = 0;
    for (; i < n; i++)
        if (s[i] && !(s[i] == SH_RO && !write))
            break;
    if (i == n)
        return;
    char w[160], key[160];
    const char *k = s[i] & SH_FREED ? "use-after-free"
                    : s[i] & SH_RED ? "out-of-bounds"
                    : s[i] & SH_RO  ? "input-modified"
                                    : "outside-logical-extent";
    if (s[i] == SH_FORBID && !write)
        return; // reading padding is harmless
    snprintf(key, sizeof key, "%s-%s in @pc:%p", k, write ? "write" : "read", pc);
    failf(key, "%s of %zu bytes, first bad byte at %s, in @pc:%p during %s",
          write ? "write" : "read", n, addr_what(a + i, w, sizeof w), pc, cur_api);
}
static inline void access(u64 a, size_t n, bool write, void *pc) {
    if (a - ARENA < HEAP_SZ) {
        unsigned char *s = (unsigned char *)(SHADOW + (a - ARENA));
        bool bad;
        switch (n) {
        case 1: bad = *s; break;
        case 2: bad = *(uint16_t *)s; break;
        case 4: bad = *(uint32_t *)s; break;
        case 8: bad = *(u64 *)s; break;
        default: {
            bad = false;
            for (size_t i = 0; i < n; i++)
                if (s[i]) {
                    bad = true;
                    break;
                }
        }
        }
        if (__builtin_expect(bad, 0) && active)
            bad_access(a, n, write, pc);
    }
    if (!par) {
        if (__builtin_expect(--seq_left == 0, 0) && active)
            failf("no-progress", "the run did not finish within %llu memory accesses (in %s)",
                  (unsigned long long)prm.max_seq, cur_api);
        return;
    }
    if (__builtin_expect((a & 7) + n <= 8, 1)) {
        if (a - ARENA < HEAP_SZ)
            race_dirty[(a - ARENA) >> 12] = 1;
        race_granule(a, ((1u << n) - 1) << (a & 7), write, false, pc);
    } else
        race_range(a, n, write, false, pc);
    if (--budget <= 0)
        preempt();
}
void sim::touch(const void *p, size_t n, bool write, const char *who) {
    (void)who;
    if (!active || !n)
        return;
    u64 a = (u64)p;
    if (a - ARENA < HEAP_SZ) {
        unsigned char *s = (unsigned char *)(SHADOW + (a - ARENA));
        for (size_t i = 0; i < n; i++)
            if (s[i]) {
                bad_access(a, n, write,
                           cur->depth > 0 ? cur->pcs[(cur->depth < 512 ? cur->depth : 511) - 1]
                                          : __builtin_return_address(0));
                break;
            }
    }
    if (par)
        race_range(a, n, write, false,
                   cur->depth > 0 ? cur->pcs[(cur->depth < 512 ? cur->depth : 511) - 1]
                                  : __builtin_return_address(0));
}
#define PC __builtin_return_address(0)
#define RW(n)                                                                            \
    extern "C" void __tsan_read##n(void *a) { access((u64)a, n, false, PC); }            \
    extern "C" void __tsan_write##n(void *a) { access((u64)a, n, true, PC); }            \
    extern "C" void __tsan_unaligned_read##n(void *a) { access((u64)a, n, false, PC); }  \
    extern "C" void __tsan_unaligned_write##n(void *a) { access((u64)a, n, true, PC); }  \
    extern "C" void __tsan_volatile_read##n(void *a) { access((u64)a, n, false, PC); }   \
    extern "C" void __tsan_volatile_write##n(void *a) { access((u64)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_read_range(void *a, size_t n) { access((u64)a, n, false, PC); }
extern "C" void __tsan_write_range(void *a, size_t n) { access((u64)a, n, true, PC); }
extern "C" void __tsan_init() {}
extern "C" void __tsan_vptr_update(void **a, void *) { access((u64)a, 8, true, PC); }
extern "C" void __tsan_vptr_read(void **a) { access((u64)a, 8, false, PC); }
extern "C" void __tsan_func_entry(void *) {
    if (cur) {
        if (cur->depth < 512)
            cur->pcs[cur->depth] = PC; // names the function being entered
        cur->depth++;
    }
}
extern "C" void __tsan_func_exit() {
    if (cur && cur->depth > 0)
        cur->depth--;
}
// ---- atomics ---------------------------------------------------------------
struct SyncVar {
    u64 addr;
    VC vc;
};
static SyncVar *syncs;
static const int NSYNC = 4096;
static SyncVar *sync_of(u64 a, bool create) {
    u64 h = mix64(a) & (NSYNC - 1);
    for (int i = 0; i < NSYNC; i++, h = (h + 1) & (NSYNC - 1)) {
        if (syncs[h].addr == a)
            return &syncs[h];
        if (!syncs[h].addr) {
            if (!create)
                return nullptr;
            syncs[h].addr = a;
            memset(&syncs[h].vc, 0, sizeof(VC));
            return &syncs[h];
        }
    }
    give_up("sync table full");
}
static void acquire_vc(const VC &v) { vjoin(cur->vc, v); }
static void release_to(VC &v) {
    vjoin(v, cur->vc);
    cur->vc.c[cur->id]++;
}
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static void atomic_pre(u64 a, size_t n, bool load, bool store, int mo, void *pc) {
    if (a - ARENA < HEAP_SZ) {
        unsigned char *s = (unsigned char *)(SHADOW + (a - ARENA));
        for (size_t i = 0; i < n; i++)
            if (s[i] && active) {
                bad_access(a, n, store, pc);
                break;
            }
    }
    if (!par) {
        if (--seq_left == 0 && active)
            failf("no-progress", "the run did not finish within %llu memory accesses (in %s)",
                  (unsigned long long)prm.max_seq, cur_api);
        return;
    }
    sync_point();
    race_range(a, n, store, true, pc);
    if (load) {
        SyncVar *s = sync_of(a, false);
        if (s) {
            if (mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ_CST || mo == MO_CONSUME)
                acquire_vc(s->vc);
            else
                vjoin(cur->acq_pending, s->vc);
        }
    }
    if (store) {
        if (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST) {
            SyncVar *s = sync_of(a, true);
            if (!load)
                memset(&s->vc, 0, sizeof(VC));
            release_to(s->vc);
        } else if (cur->has_fence_rel) {
            SyncVar *s = sync_of(a, true);
            if (!load)
                memset(&s->vc, 0, sizeof(VC));
            vjoin(s->vc, cur->fence_rel);
        } else if (!load) {
            SyncVar *s = sync_of(a, false);
            if (s)
                memset(&s->vc, 0, sizeof(VC)); // a relaxed store ends the release sequence
        }
    }
}
typedef unsigned __int128 u128;
#define ATOM(bits, T)                                                                    \
    extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int mo) {               \
        atomic_pre((u64)a, sizeof(T), true, false, mo, PC);                              \
        return *a;                                                                       \
    }                                                                                    \
    extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {            \
        atomic_pre((u64)a, sizeof(T), false, true, mo, PC);                              \
        *a = v;                                                                          \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {            \
        atomic_pre((u64)a, sizeof(T), true, true, mo, PC);                               \
        T o = *a;                                                                        \
        *a = v;                                                                          \
        return o;                                                                        \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {           \
        atomic_pre((u64)a, sizeof(T), true, true, mo, PC);                               \
        T o = *a;                                                                        \
        *a = (T)(o + v);                                                                 \
        return o;                                                                        \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {           \
        atomic_pre((u64)a, sizeof(T), true, true, mo, PC);                               \
        T o = *a;                                                                        \
        *a = (T)(o - v);                                                                 \
        return o;                                                                        \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {           \
        atomic_pre((u64)a, sizeof(T), true, true, mo, PC);                               \
        T o = *a;                                                                        \
        *a = (T)(o & v);                                                                 \
        return o;                                                                        \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {            \
        atomic_pre((u64)a, sizeof(T), true, true, mo, PC);                               \
        T o = *a;                                                                        \
        *a = (T)(o | v);                                                                 \
        return o;                                                                        \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {           \
        atomic_pre((u64)a, sizeof(T), true, true, mo, PC);                               \
        T o = *a;                                                                        \
        *a = (T)(o ^ v);                                                                 \
        return o;                                                                        \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {          \
        atomic_pre((u64)a, sizeof(T), true, true, mo, PC);                               \
        T o = *a;                                                                        \
        *a = (T) ~(o & v);                                                               \
        return o;                                                                        \
    }                                                                                    \
    static bool cas##bits(volatile T *a, T *e, T v, int mo, void *pc) {                  \
        atomic_pre((u64)a, sizeof(T), true, true, mo, pc);                               \
        if (*a == *e) {                                                                  \
            *a = v;                                                                      \
            return true;                                                                 \
        }                                                                                \
        *e = *a;                                                                         \
        return false;                                                                    \
    }                                                                                    \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_strong(                       \
        volatile T *a, T *e, T v, int mo, int) {                                         \
        return cas##bits(a, e, v, mo, PC);                                               \
    }                                                                                    \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e,     \
                                                                T v, int mo, int) {      \
        return cas##bits(a, e, v, mo, PC);                                               \
    }                                                                                    \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v,     \
                                                            int mo, int) {               \
        cas##bits(a, &e, v, mo, PC);                                                     \
        return e;                                                                        \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, u64) ATOM(128, u128)
extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (!par)
        return;
    if (mo != MO_RELEASE && mo != MO_RELAXED)
        acquire_vc(cur->acq_pending);
    if (mo != MO_ACQUIRE && mo != MO_CONSUME && mo != MO_RELAXED) {
        cur->fence_rel = cur->vc;
        cur->has_fence_rel = true;
        cur->vc.c[cur->id]++;
    }
    sync_point();
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ===========================================================================
// Heap
// ===========================================================================
static u64 bump_p = ARENA + 4096, poisoned_to = ARENA;
static Blk *freelist[64];
static Blk *quar[4096];
static unsigned quar_h = 0, quar_t = 0;
static size_t quar_bytes = 0;
static u32t alloc_n = 0;
static u64 junk;
static int n_live_api = 0;
static size_t api_bytes = 0, api_peak = 0;
size_t sim::peak_bytes() { return api_peak; }
void sim::peak_reset() { api_bytes = api_peak = 0; }
static u64 n_api_allocs = 0, n_fired = 0;
static i64 fail_at = -1, fail_cnt = 0;
static size_t fail_larger = 0;
static void *fired_pc[8];
static u64 cap_of(size_t n, int &cls) {
    u64 need = HDR + n + RZ;
    cls = 0;
    u64 c = 128;
    while (c < need) {
        c = cls & 1 ? c / 3 * 4 : c / 2 * 3;
        cls++;
    }
    return c;
}
static bool only_malloc; // allocation faults hit malloc and friends, not operator new
static bool alloc_should_fail(size_t n, bool m = false) {
    if (!cur || !cur->api || (only_malloc && !m))
        return false;
    n_api_allocs++;
    bool f = false;
    if (fail_at > 0 && n_api_allocs >= (u64)fail_at && n_api_allocs < (u64)(fail_at + fail_cnt))
        f = true;
    if (fail_larger && n >= fail_larger)
        f = true;
    if (f) {
        n_fired++;
        if (n_fired == 1) {
            int d = cur->depth < 512 ? cur->depth : 511;
            for (int i = 0; i < 8; i++)
                fired_pc[i] = d - 1 - i >= 0 ? cur->pcs[d - 1 - i] : nullptr;
        }
        fault("alloc-failure");
        hash_mix(0xa110c);
    }
    return f;
}
// A large block is poisoned at both ends only when it is freed: the library
// allocates and frees megabytes of packing buffers per call
static const size_t BIG_BLK = 40 << 10, BIG_END = 8 << 10;
static bool part(const Blk *b) { return b->size > BIG_BLK && b->kind != 2; }
static void *arena_alloc(size_t n, size_t align, void *pc, u64 kind) {
    if (n > (2ULL << 30))
        return nullptr;
    size_t extra = align > 16 ? align : 0;
    int cls;
    u64 c = cap_of(n + extra, cls);
    Blk *b = freelist[cls];
    u64 prev = 0, prev_n = 0; // same block freed before with only its ends poisoned
    if (b) {
        freelist[cls] = b->next;
        if (b->alloc_n) {
            prev = (u64)b->pc;
            prev_n = b->size;
        }
    } else {
        if (bump_p + c + 4096 > ARENA + HEAP_SZ)
            give_up("simulated heap exhausted");
        b = (Blk *)bump_p;
        bump_p += c;
        while (poisoned_to < bump_p + (64 << 10)) {
            memset((void *)(SHADOW + (poisoned_to - ARENA)), SH_RED, 64 << 10);
            poisoned_to += 64 << 10;
        }
    }
    u64 base = (u64)b, user = base + HDR;
    if (extra) { // header directly in front of the aligned user block
        user = (user + align - 1) / align * align;
        Blk *h = (Blk *)(user - HDR);
        if (h != b) {
            b->magic = 0;
            h->pad = 0;
            h->cls = (u64)cls | ((u64)(user - HDR - base) << 8);
            b = h;
        } else
            b->cls = (u64)cls;
    } else
        b->cls = (u64)cls;
    b->magic = BMAGIC;
    b->size = n;
    b->alloc_n = ++alloc_n;
    b->api = cur && cur->api ? 1 : 0;
    b->pc = pc;
    b->kind = kind;
    b->pad = (u64)b ^ 0x5a5a5a5aULL;
    if (b->api) {
        n_live_api++;
        api_bytes += n;
        if (api_bytes > api_peak)
            api_peak = api_bytes;
    }
    if (prev == user && prev_n == n) {
        memset((void *)(SHADOW + (user - ARENA)), 0, BIG_END);
        memset((void *)(SHADOW + (user + n - BIG_END - ARENA)), 0, BIG_END);
    } else {
        if (prev)
            memset((void *)(SHADOW + (base - ARENA)), SH_RED, user - base);
        memset((void *)(SHADOW + (user - ARENA)), 0, n);
        memset((void *)(SHADOW + (user + n - ARENA)), SH_RED, base + c - user - n);
    }
    race_clear(user, n);
    unsigned char *q = (unsigned char *)user;
    // junk fill: reading uninitialised memory gives seed dependent values
    u64 j = junk;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        if (i == (8 << 10) && n > (40 << 10))
            i = (n - 4096) & ~7ULL; // huge blocks: both ends
        memcpy(q + i, &j, 8);
    }
    for (; i < n; i++)
        q[i] = (unsigned char)j;
    return q;
}
static void really_free(Blk *b) {
    int cls = (int)(b->cls & 255);
    u64 off = b->cls >> 8;
    Blk *base = (Blk *)((u64)b - off);
    size_t size = b->size;
    b->magic = 0;
    b->pad = 0;
    base->alloc_n = part(b);
    base->size = size;
    base->pc = (void *)((u64)b + HDR);
    base->next = freelist[cls];
    freelist[cls] = base;
}
static void arena_free(void *p, void *pc) {
    u64 a = (u64)p;
    Blk *b = (Blk *)(a - HDR);
    if (b->magic != BMAGIC || b->pad != ((u64)b ^ 0x5a5a5a5aULL)) {
        if (!active)
            return;
        char key[100];
        snprintf(key, sizeof key, b->magic == BFREED ? "double-free in @pc:%p" : "bad-free in @pc:%p",
                 cur->depth > 0 && cur->depth < 512 ? cur->pcs[cur->depth - 1] : pc);
        failf(key, "free of a pointer that is not a live block (during %s)", cur_api);
    }
    if (par && active)
        race_freed(a, b->size, pc);
    if (b->api) {
        n_live_api--;
        api_bytes -= b->size < api_bytes ? b->size : api_bytes;
    }
    b->magic = BFREED;
    if (part(b)) {
        memset((void *)(SHADOW + (a - ARENA)), SH_FREED, BIG_END);
        memset((void *)(SHADOW + (a + b->size - BIG_END - ARENA)), SH_FREED, BIG_END);
    } else
        memset((void *)(SHADOW + (a - ARENA)), SH_FREED, b->size);
    if (b->size <= (64 << 10))
        memset(p, 0xDD, b->size);
    // quarantine
    quar[quar_h++ & 4095] = b;
    quar_bytes += b->size;
    while (quar_h - quar_t > 4000 || quar_bytes > (8u << 20)) {
        Blk *o = quar[quar_t++ & 4095];
        quar_bytes -= o->size;
        really_free(o);
    }
}
static inline bool in_arena(const void *p) { return (u64)p - ARENA < HEAP_SZ; }
static void *alloc_any(size_t n, size_t align, void *pc, u64 kind) {
    if (!active)
        return align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
    return arena_alloc(n, align, pc, kind);
}
static void free_any(void *p, void *pc) {
    if (!p)
        return;
    if (in_arena(p))
        arena_free(p, pc);
    else
        __libc_free(p);
}
static void *op_new(size_t n, size_t align, void *pc) {
    if (active && alloc_should_fail(n))
        throw std::bad_alloc();
    void *p = alloc_any(n, align, pc, 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return op_new(n, 16, PC); }
void *operator new[](size_t n) { return op_new(n, 16, PC); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC); }
static void *op_new_nt(size_t n, size_t a, void *pc) noexcept {
    if (active && alloc_should_fail(n))
        return nullptr;
    return alloc_any(n, a, pc, 1);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new_nt(n, 16, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new_nt(n, 16, PC); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept {
    return op_new_nt(n, (size_t)a, PC);
}
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept {
    return op_new_nt(n, (size_t)a, PC);
}
void operator delete(void *p) noexcept { free_any(p, PC); }
void operator delete[](void *p) noexcept { free_any(p, PC); }
void operator delete(void *p, size_t) noexcept { free_any(p, PC); }
void operator delete[](void *p, size_t) noexcept { free_any(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { free_any(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { free_any(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free_any(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free_any(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free_any(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free_any(p, PC); }
// malloc family as called by the code under test (linked with --wrap)
void sim::fail_malloc_only(bool on) { only_malloc = on; }
extern "C" void *__wrap_malloc(size_t n) {
    if (active && alloc_should_fail(n, true)) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = alloc_any(n, 16, PC, 0);
    return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
    size_t n = a * b;
    if (b && n / b != a)
        return nullptr;
    void *p = __wrap_malloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}
extern "C" void __wrap_free(void *p) { free_any(p, PC); }
extern "C" void *__wrap_realloc(void *p, size_t n) {
    if (p && !in_arena(p) && !active)
        return __libc_realloc(p, n);
    if (!p)
        return __wrap_malloc(n);
    if (n == 0) {
        free_any(p, PC);
        return nullptr;
    }
    void *q = __wrap_malloc(n);
    if (!q)
        return nullptr;
    if (in_arena(p)) {
        size_t o = ((Blk *)((u64)p - HDR))->size;
        memcpy(q, p, o < n ? o : n);
    } else
        memcpy(q, p, n); // block from before the run; libc block sizes are rounded up
    free_any(p, PC);
    return q;
}
extern "C" int __wrap_posix_memalign(void **o, size_t a, size_t n) {
    if (active && alloc_should_fail(n, true))
        return ENOMEM;
    void *p = alloc_any(n, a < 16 ? 16 : a, PC, 0);
    if (!p)
        return ENOMEM;
    *o = p;
    return 0;
}
extern "C" void *__wrap_aligned_alloc(size_t a, size_t n) {
    void *p = nullptr;
    return __wrap_posix_memalign(&p, a, n) ? nullptr : p;
}
void sim::fail_alloc(i64 nth, i64 count) {
    fail_at = (i64)n_api_allocs + nth;
    fail_cnt = count;
}
void sim::fail_alloc_larger(size_t b) { fail_larger = b; }
void sim::clear_alloc_faults() {
    fail_at = -1;
    fail_larger = 0;
}
u64 sim::allocs_in_api() { return n_api_allocs; }
u64 sim::alloc_faults_fired() { return n_fired; }
std::string sim::alloc_fault_site() {
    std::string s;
    char b[40];
    for (int i = 0; i < 8 && fired_pc[i]; i++) {
        snprintf(b, sizeof b, "@pc:%p ", fired_pc[i]);
        s += b;
    }
    return s;
}
int sim::live_blocks() { return n_live_api; }
std::string sim::live_sites(int max) { // where the blocks still allocated come from, latest first
    std::vector<std::pair<u64, const Blk *>> v;
    for (u64 a = ARENA; a + HDR <= bump_p; a += 16) {
        const Blk *b = (const Blk *)a;
        if (b->magic == BMAGIC && b->api && b->pad == (a ^ 0x5a5a5a5aULL))
            v.push_back({b->alloc_n, b});
    }
    std::sort(v.rbegin(), v.rend());
    std::string s;
    char t[64];
    for (int i = 0; i < (int)v.size() && i < max; i++) {
        snprintf(t, sizeof t, "%llu bytes @pc:%p ", (unsigned long long)v[i].second->size, v[i].second->pc);
        s += t;
    }
    return s;
}
void *sim::ublock(size_t n, size_t align) { return arena_alloc(n, align, nullptr, 2); }
void sim::ufree(void *p) {
    if (!p)
        return;
    unprotect(p, ((Blk *)((u64)p - HDR))->size);
    arena_free(p, nullptr);
}
void sim::protect(const void *p, size_t n) { memset((void *)(SHADOW + ((u64)p - ARENA)), SH_RO, n); }
void sim::unprotect(const void *p, size_t n) { memset((void *)(SHADOW + ((u64)p - ARENA)), 0, n); }
void sim::forbid(const void *p, size_t n) {
    memset((void *)(SHADOW + ((u64)p - ARENA)), SH_FORBID, n);
}
// checked bulk operations (the compiler does not instrument these calls)
extern "C" void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (active && n) {
        access((u64)s, n, false, PC);
        access((u64)d, n, true, PC);
    }
    return memcpy(d, s, n);
}
extern "C" void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (active && n) {
        access((u64)s, n, false, PC);
        access((u64)d, n, true, PC);
    }
    return memmove(d, s, n);
}
extern "C" void *__wrap_memset(void *d, int c, size_t n) {
    if (active && n)
        access((u64)d, n, true, PC);
    return memset(d, c, n);
}
extern "C" int __wrap_memcmp(const void *a, const void *b, size_t n) {
    if (active && n) {
        access((u64)a, n, false, PC);
        access((u64)b, n, false, PC);
    }
    return memcmp(a, b, n);
}
extern "C" size_t __wrap_strlen(const char *s) {
    size_t n = strlen(s);
    if (active)
        access((u64)s, n + 1, false, PC);
    return n;
}

// ===========================================================================
// API scopes
// ===========================================================================
Api::Api(const char *what) {
    cur->api++;
    cur_api = what;
    hash_mix(hash_str(what));
}
Api::~Api() {
    cur->api--;
    cur_api = "";
}
// Telemetry (settings each thread keeps for da_debug_get until it ends): its memory is nobody's result
#define TELEMETRY(x) x##_Z27context_set_hidden_settingsRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES6_
extern "C" void TELEMETRY(__real_)(const std::string &, const std::string &);
extern "C" void TELEMETRY(__wrap_)(const std::string &k, const std::string &v) {
    sim::NotApi quiet;
    TELEMETRY(__real_)(k, v);
}
NotApi::NotApi() {
    saved = cur->api;
    cur->api = 0;
}
NotApi::~NotApi() { cur->api = saved; }

// ===========================================================================
// OpenMP
// ===========================================================================
struct Task {
    void (*fn)(void *);
    char *arg;
    size_t argsz;
    VC vc;       // at creation
    Task *parent;
    VC done_vc;  // joined clocks of finished children
    int children = 0;
    Task *next;
    bool queued;
    Task *group;     // taskgroup owner
    int gcount = 0;  // for taskgroup objects
    VC gvc;
};
struct WS { // worksharing construct
    bool init = false;
    long next, end, incr, chunk;
    int kind; // 0 dynamic, 1 guided, 2 static
    int left;
    bool up;
    unsigned long unext, uend, uincr;
    long scount[MAXF]; // static: chunks handed out per thread
    void *copy;
    int done;
    long total, given;
};
struct Team {
    int n;
    Fiber *f[MAXF];
    int arrived;
    u64 gen;
    VC bvc;   // barrier clock being collected
    VC relvc; // released
    WS ws[2048];
    int ws_hi; // slots in use
    bool single_taken[1];
    int nsingle;
    Task root;
    Task *q[4096];
    int qn;
    int running; // tasks running
    Task implicit[MAXF];
};
static int thread_limit = 0;
static Team *team_pool[8];
static int team_depth_used = 0;
static void init_task(Task &t, Task *parent) {
    memset((void *)&t, 0, sizeof t);
    t.parent = parent;
}
static Task *cur_task() {
    if (cur->task)
        return cur->task;
    if (cur->team)
        return &cur->team->implicit[cur->tid];
    return nullptr;
}
static void run_task(Team *t, Task *k) {
    Task *save = cur->task;
    cur->task = k;
    t->running++;
    acquire_vc(k->vc);
    k->fn(k->arg);
    t->running--;
    cur->task = save;
    // completion
    Task *p = k->parent;
    if (p) {
        p->children--;
        release_to(p->done_vc);
    }
    for (Task *g = k->group; g;) {
        g->gcount--;
        release_to(g->gvc);
        break;
    }
    // everything a task did happens before the next barrier release
    release_to(t->bvc);
    __libc_free(k->arg);
    if (k->children == 0)
        __libc_free(k);
    // wake waiters
    for (int i = 0; i < t->n; i++)
        if (t->f[i]->st == ST_BLOCKED && t->f[i]->waiting &&
            (!strcmp(t->f[i]->waiting, "taskwait") || !strcmp(t->f[i]->waiting, "barrier")))
            t->f[i]->st = ST_READY;
}
static Task *take_task(Team *t, Task *only_children_of) {
    int idx[4096], n = 0;
    for (int i = 0; i < t->qn; i++)
        if (!only_children_of || t->q[i]->parent == only_children_of)
            idx[n++] = i;
    if (!n)
        return nullptr;
    int k = idx[choice((u64)n)];
    Task *r = t->q[k];
    for (int i = k; i + 1 < t->qn; i++)
        t->q[i] = t->q[i + 1];
    t->qn--;
    return r;
}
static void team_barrier(const char *what) {
    Team *t = cur->team;
    if (!t || t->n == 0)
        return;
    (void)what;
    sync_point();
    // tasks bind to the team: all complete before the barrier is passed
    u64 gen = t->gen;
    release_to(t->bvc);
    t->arrived++;
    for (;;) {
        if (t->gen != gen)
            break;
        if (t->arrived == t->n && t->qn == 0 && t->running == 0) {
            t->relvc = t->bvc;
            memset(&t->bvc, 0, sizeof(VC));
            t->arrived = 0;
            t->gen++;
            for (int i = 0; i < t->n; i++)
                if (t->f[i]->st == ST_BLOCKED && t->f[i]->waiting &&
                    !strcmp(t->f[i]->waiting, "barrier"))
                    t->f[i]->st = ST_READY;
            break;
        }
        if (t->qn) {
            Task *k = take_task(t, nullptr);
            run_task(t, k);
            // the completed task may have produced work others wait for
            for (int i = 0; i < t->n; i++)
                if (t->f[i]->st == ST_BLOCKED && t->f[i]->waiting &&
                    !strcmp(t->f[i]->waiting, "barrier"))
                    t->f[i]->st = ST_READY;
            sync_point();
            continue;
        }
        block_on("barrier");
    }
    acquire_vc(t->relvc);
    sync_point();
}
struct Start {
    Team *t;
    int tid;
    void (*fn)(void *);
    void *data;
};
static void worker(void *a) {
    Start *s = (Start *)a;
    s->fn(s->data);
    team_barrier("end");
}
static void run_team(void (*fn)(void *), void *data, unsigned want,
                     const std::function<void(Team *)> *prep) {
    int n = want ? (int)want : cur->icv.nthreads;
    if (cur->icv.active >= cur->icv.max_active)
        n = 1;
    if (thread_limit && n > thread_limit) {
        n = thread_limit;
        if (active)
            fault("fewer-threads-than-requested");
    }
    int avail = 0;
    for (int i = 1; i < MAXF; i++)
        avail += F[i].st == ST_FREE;
    if (n > avail + 1)
        n = avail + 1;
    if (n < 1)
        n = 1;
    Team *t;
    if (team_depth_used < 8 && team_pool[team_depth_used])
        t = team_pool[team_depth_used], team_pool[team_depth_used] = nullptr;
    else
        t = (Team *)__libc_malloc(sizeof(Team)), t->ws_hi = 2048;
    team_depth_used++;
    t->n = n;
    t->arrived = 0;
    t->gen = 0;
    memset(&t->bvc, 0, sizeof(VC));
    memset(&t->relvc, 0, sizeof(VC));
    for (int i = 0; i < t->ws_hi; i++)
        t->ws[i].init = false;
    t->ws_hi = 0;
    t->nsingle = 0;
    t->qn = 0;
    t->running = 0;
    for (int i = 0; i < n; i++)
        init_task(t->implicit[i], nullptr);
    res->teams++;
    if (n > res->max_team)
        res->max_team = n;
    Start st[MAXF];
    // save the caller's state
    Team *oteam = cur->team;
    int otid = cur->tid, ows = cur->ws_idx, osi = cur->single_idx;
    Task *otask = cur->task;
    Icv oicv = cur->icv;
    Icv in = cur->icv;
    in.level++;
    if (n > 1)
        in.active++;
    t->f[0] = cur;
    if (prep)
        (*prep)(t);
    for (int i = 1; i < n; i++) {
        Fiber *f = fiber_new();
        t->f[i] = f;
        f->team = t;
        f->tid = i;
        f->icv = in;
        f->fn = worker;
        st[i] = Start{t, i, fn, data};
        f->arg = &st[i];
        f->api = cur->api;
        f->api_name = cur_api;
        int d = cur->depth < 64 ? cur->depth : 64; // inherit call stack for reports
        for (int k = 0; k < d; k++)
            f->pcs[k] = cur->pcs[cur->depth - d + k < 512 ? cur->depth - d + k : 511];
        f->depth = d;
    }
    cur->team = t;
    cur->tid = 0;
    cur->ws_idx = cur->single_idx = 0;
    cur->task = nullptr;
    cur->icv = in;
    nlive += n - 1;
    upd_par();
    sync_point();
    fn(data);
    team_barrier("end");
    for (;;) {
        bool all = true;
        for (int i = 1; i < n; i++)
            if (t->f[i]->st != ST_DONE)
                all = false;
        if (all)
            break;
        block_on("join");
    }
    for (int i = 1; i < n; i++) {
        vjoin(cur->vc, t->f[i]->vc);
        t->f[i]->st = ST_FREE;
    }
    upd_par();
    cur->team = oteam;
    cur->tid = otid;
    cur->ws_idx = ows;
    cur->single_idx = osi;
    cur->task = otask;
    cur->icv = oicv;
    team_depth_used--;
    if (team_depth_used < 8 && !team_pool[team_depth_used])
        team_pool[team_depth_used] = t;
    else
        __libc_free(t);
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
    run_team(fn, data, n, nullptr);
}
int omp_get_thread_num() { return cur->team ? cur->tid : 0; }
int omp_get_num_threads() { return cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return cur->icv.nthreads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return cur->icv.active > 0; }
int omp_get_level() { return cur->icv.level; }
int omp_get_active_level() { return cur->icv.active; }
int omp_get_max_active_levels() { return cur->icv.max_active; }
void omp_set_max_active_levels(int n) { cur->icv.max_active = n; }
void omp_set_num_threads(int n) { cur->icv.nthreads = n > 0 ? n : 1; }
void omp_set_nested(int n) { cur->icv.max_active = n ? 64 : 1; }
int omp_get_nested() { return cur->icv.max_active > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
int omp_get_thread_limit() { return thread_limit ? thread_limit : 1 << 30; }
int omp_get_cancellation() { return 0; }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_team_size(int) { return cur->team ? cur->team->n : 1; }
int omp_get_team_num() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_in_final() { return 0; }

void GOMP_barrier() { team_barrier("barrier"); }
bool GOMP_barrier_cancel() {
    team_barrier("barrier");
    return false;
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

// ---- worksharing ----
static WS *ws_enter(bool &first) {
    static WS lone[4];
    if (!cur->team) {
        first = true;
        WS *w = &lone[0];
        w->init = true;
        return w;
    }
    Team *t = cur->team;
    WS *w = &t->ws[cur->ws_idx % 2048];
    if (cur->ws_idx % 2048 >= t->ws_hi)
        t->ws_hi = cur->ws_idx % 2048 + 1;
    // a slot is recycled only when the whole team has moved past it
    if (w->init && w->done == cur->ws_idx + 1) {
        first = false;
    } else {
        first = true;
        memset((void *)w, 0, sizeof *w);
        w->init = true;
        w->done = cur->ws_idx + 1;
    }
    cur->ws_idx++;
    return w;
}
static WS *ws_cur() {
    static WS lone[4];
    (void)lone;
    return cur->team ? &cur->team->ws[(cur->ws_idx - 1) % 2048] : nullptr;
}
static WS lone_ws;
static bool ws_next(WS *w, long *s, long *e) {
    sync_point();
    long trips = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr
                             : (w->next - w->end - w->incr - 1) / -w->incr;
    if (trips <= 0)
        return false;
    int n = cur->team ? cur->team->n : 1;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 1) {
        long g = (trips + n - 1) / n;
        if (g > c)
            c = g;
    } else if (w->kind == 2) {
        // static handed out round robin by thread number
        long ch = w->chunk;
        long tot = w->total;
        long k;
        if (ch == 0) {
            if (w->scount[cur->tid]++)
                return false;
            long q = tot / n, r = tot % n, lo = cur->tid * q + (cur->tid < r ? cur->tid : r);
            long len = q + (cur->tid < r);
            if (len <= 0)
                return false;
            *s = w->next + lo * w->incr;
            *e = *s + len * w->incr;
            return true;
        }
        k = w->scount[cur->tid]++ * n + cur->tid;
        if (k * ch >= tot)
            return false;
        long len = k * ch + ch > tot ? tot - k * ch : ch;
        *s = w->next + k * ch * w->incr;
        *e = *s + len * w->incr;
        return true;
    }
    if (c > trips)
        c = trips;
    *s = w->next;
    *e = w->next + c * w->incr;
    w->next = *e;
    return true;
}
static bool loop_start(long a, long b, long inc, long chunk, int kind, long *s, long *e) {
    bool first;
    WS *w;
    if (!cur->team) {
        w = &lone_ws;
        first = true;
    } else
        w = ws_enter(first);
    if (first) {
        w->next = a;
        w->end = b;
        w->incr = inc;
        w->chunk = chunk;
        w->kind = kind;
        w->total = inc > 0 ? (b > a ? (b - a + inc - 1) / inc : 0)
                           : (a > b ? (a - b - inc - 1) / -inc : 0);
        memset(w->scount, 0, sizeof w->scount);
    }
    return ws_next(w, s, e);
}
static bool loop_next(long *s, long *e) { return ws_next(cur->team ? ws_cur() : &lone_ws, s, e); }
#define LOOP(name, K_)                                                                 \
    bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) {    \
        return loop_start(a, b, i, c, K_, s, e);                                         \
    }                                                                                    \
    bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); }           \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a,      \
                                   long b, long i, long c, unsigned) {                   \
        std::function<void(Team *)> prep = [=](Team *t) {                                \
            t->ws_hi = 1; WS *w = &t->ws[0];                                                           \
            memset((void *)w, 0, sizeof *w);                                             \
            w->init = true;                                                              \
            w->done = 1;                                                                 \
            w->next = a;                                                                 \
            w->end = b;                                                                  \
            w->incr = i;                                                                 \
            w->chunk = c;                                                                \
            w->kind = K_;                                                                \
            w->total = i > 0 ? (b > a ? (b - a + i - 1) / i : 0)                         \
                             : (a > b ? (a - b - i - 1) / -i : 0);                       \
        };                                                                               \
        par_loop(fn, d, n, &prep);                                                       \
    }
static void (*pl_fn[64])(void *);
struct PL {
    void (*fn)(void *);
    void *d;
};
static void pl_run(void *p) {
    PL *q = (PL *)p;
    cur->ws_idx = 1; // the combined loop is construct 0
    q->fn(q->d);
}
static void par_loop(void (*fn)(void *), void *d, unsigned n,
                     const std::function<void(Team *)> *prep) {
    PL q{fn, d};
    run_team(pl_run, &q, n, prep);
}
LOOP(static, 2)
LOOP(dynamic, 0)
LOOP(guided, 1)
LOOP(nonmonotonic_dynamic, 0)
LOOP(nonmonotonic_guided, 1)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) {
    return loop_start(a, b, i, 1, 0, s, e);
}
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) {
    return loop_start(a, b, i, 1, 0, s, e);
}
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) {
    return loop_start(a, b, i, 1, 0, s, e);
}
bool GOMP_loop_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
bool GOMP_loop_nonmonotonic_runtime_next(long *s, long *e) { return loop_next(s, e); }
// unsigned long long variants: the library's ranges fit in long
#define ULOOP(name, K_)                                                                \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a,                     \
                                      unsigned long long b, unsigned long long i,        \
                                      unsigned long long c, unsigned long long *s,       \
                                      unsigned long long *e) {                           \
        (void)up;                                                                        \
        return loop_start((long)a, (long)b, (long)i, (long)c, K_, (long *)s,             \
                          (long *)e);                                                    \
    }                                                                                    \
    bool GOMP_loop_ull_##name##_next(unsigned long long *s, unsigned long long *e) {     \
        return loop_next((long *)s, (long *)e);                                          \
    }
ULOOP(static, 2)
ULOOP(dynamic, 0)
ULOOP(guided, 1)
ULOOP(nonmonotonic_dynamic, 0)
ULOOP(nonmonotonic_guided, 1)
void GOMP_loop_end() { team_barrier("loop"); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() {
    team_barrier("loop");
    return false;
}
unsigned GOMP_sections_start(unsigned count) {
    long s, e;
    return loop_start(1, (long)count + 1, 1, 1, 0, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next() {
    long s, e;
    return loop_next(&s, &e) ? (unsigned)s : 0;
}
void GOMP_sections_end() { team_barrier("sections"); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) {
    std::function<void(Team *)> prep = [=](Team *t) {
        t->ws_hi = 1;
        WS *w = &t->ws[0];
        memset((void *)w, 0, sizeof *w);
        w->init = true;
        w->done = 1;
        w->next = 1;
        w->end = (long)count + 1;
        w->incr = 1;
        w->chunk = 1;
    };
    par_loop(fn, d, n, &prep);
}
bool GOMP_single_start() {
    if (!cur->team)
        return true;
    sync_point();
    bool first;
    ws_enter(first);
    return first;
}
void *GOMP_single_copy_start() {
    if (!cur->team)
        return nullptr;
    sync_point();
    bool first;
    WS *w = ws_enter(first);
    if (first)
        return nullptr;
    team_barrier("single copy");
    return w->copy;
}
void GOMP_single_copy_end(void *d) {
    if (!cur->team)
        return;
    ws_cur()->copy = d;
    team_barrier("single copy");
}
// ---- critical / locks ----
struct Mtx {
    const void *addr;
    int owner; // fiber id + 1
    int depth;
    VC vc;
};
static Mtx mtx[1024];
static Mtx *mtx_of(const void *a) {
    u64 h = mix64((u64)a) & 1023;
    for (int i = 0; i < 1024; i++, h = (h + 1) & 1023) {
        if (mtx[h].addr == a)
            return &mtx[h];
        if (!mtx[h].addr) {
            mtx[h].addr = a;
            return &mtx[h];
        }
    }
    give_up("too many locks");
}
static void lk_acquire(const void *a, const char *what) {
    sync_point();
    Mtx *m = mtx_of(a);
    while (m->owner) {
        if (m->owner == cur->id + 1)
            failf("deadlock", "thread %d locks a %s it already holds", cur->id, what);
        block_on(what);
    }
    m->owner = cur->id + 1;
    acquire_vc(m->vc);
}
static void lk_release(const void *a, const char *what) {
    Mtx *m = mtx_of(a);
    if (m->owner != cur->id + 1)
        failf("bad-unlock", "thread %d releases a %s it does not hold", cur->id, what);
    release_to(m->vc);
    m->owner = 0;
    for (int i = 0; i < MAXF; i++)
        if (F[i].st == ST_BLOCKED && F[i].waiting == what)
            F[i].st = ST_READY;
    sync_point();
}
static const char crit_unnamed = 0, crit_atomic = 0;
static const char *W_CRIT = "critical", *W_LOCK = "lock", *W_MUTEX = "mutex";
void GOMP_critical_start() { lk_acquire(&crit_unnamed, W_CRIT); }
void GOMP_critical_end() { lk_release(&crit_unnamed, W_CRIT); }
void GOMP_critical_name_start(void **p) { lk_acquire(p, W_CRIT); }
void GOMP_critical_name_end(void **p) { lk_release(p, W_CRIT); }
void GOMP_atomic_start() { lk_acquire(&crit_atomic, W_CRIT); }
void GOMP_atomic_end() { lk_release(&crit_atomic, W_CRIT); }
void omp_init_lock(void *p) {
    Mtx *m = mtx_of(p);
    m->owner = 0;
    memset(&m->vc, 0, sizeof(VC));
}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lk_acquire(p, W_LOCK); }
void omp_unset_lock(void *p) { lk_release(p, W_LOCK); }
int omp_test_lock(void *p) {
    sync_point();
    Mtx *m = mtx_of(p);
    if (m->owner) {
        trylock_failed_recently = true;
        return 0;
    }
    m->owner = cur->id + 1;
    acquire_vc(m->vc);
    return 1;
}
void omp_init_nest_lock(void *p) { omp_init_lock(p); }
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *p) {
    Mtx *m = mtx_of(p);
    if (m->owner == cur->id + 1) {
        m->depth++;
        return;
    }
    lk_acquire(p, W_LOCK);
    m->depth = 1;
}
void omp_unset_nest_lock(void *p) {
    Mtx *m = mtx_of(p);
    if (--m->depth == 0)
        lk_release(p, W_LOCK);
}
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
// ---- tasks ----
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align,
               bool if_clause, unsigned flags, void **depend, int, void *) {
    Team *t = cur->team;
    (void)align;
    sync_point();
    bool immediate = !t || !if_clause || (flags & 8 /* depend */) || (flags & 2 /* final */) ||
                     depend || t->qn >= 4000 || choice(8) == 7;
    char *arg = (char *)__libc_memalign(64, (size_t)(size > 64 ? (size + 63) / 64 * 64 : 64));
    if (cpy)
        cpy(arg, data);
    else
        memcpy(arg, data, (size_t)size);
    if (!t) {
        fn(arg);
        __libc_free(arg);
        return;
    }
    Task *k = (Task *)__libc_malloc(sizeof(Task));
    init_task(*k, cur_task());
    k->fn = fn;
    k->arg = arg;
    k->group = cur_task()->group;
    if (k->group)
        k->group->gcount++;
    k->parent->children++;
    k->vc = cur->vc;
    cur->vc.c[cur->id]++;
    res->tasks++;
    if (immediate) {
        run_task(t, k);
        return;
    }
    t->q[t->qn++] = k;
    for (int i = 0; i < t->n; i++)
        if (t->f[i]->st == ST_BLOCKED && t->f[i]->waiting &&
            (!strcmp(t->f[i]->waiting, "barrier") || !strcmp(t->f[i]->waiting, "taskwait")))
            t->f[i]->st = ST_READY;
    sync_point();
}
void GOMP_taskwait() {
    Team *t = cur->team;
    if (!t)
        return;
    Task *me = cur_task();
    while (me->children > 0) {
        Task *k = take_task(t, me);
        if (k) {
            run_task(t, k);
            sync_point();
        } else
            block_on("taskwait");
    }
    acquire_vc(me->done_vc);
}
void GOMP_taskyield() { sync_point(); }
void GOMP_taskgroup_start() {
    Team *t = cur->team;
    if (!t)
        return;
    Task *g = (Task *)__libc_malloc(sizeof(Task));
    init_task(*g, cur_task()->group);
    cur_task()->group = g;
}
void GOMP_taskgroup_end() {
    Team *t = cur->team;
    if (!t)
        return;
    Task *g = cur_task()->group;
    while (g->gcount > 0) {
        Task *k = nullptr;
        for (int i = 0; i < t->qn && !k; i++)
            if (t->q[i]->group == g) {
                k = t->q[i];
                for (int j = i; j + 1 < t->qn; j++)
                    t->q[j] = t->q[j + 1];
                t->qn--;
            }
        if (k)
            run_task(t, k);
        else
            block_on("taskwait");
    }
    acquire_vc(g->gvc);
    cur_task()->group = g->parent;
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align,
                   unsigned flags, unsigned long num, int prio, long start, long end, long step) {
    (void)align;
    (void)prio;
    (void)flags;
    (void)num;
    // one task over the whole range, run at once (num_tasks is a hint)
    char *arg = (char *)__libc_memalign(64, (size_t)(size + 64));
    if (cpy)
        cpy(arg, data);
    else
        memcpy(arg, data, (size_t)size);
    for (long i = start; step > 0 ? i < end : i > end; i += step) {
        ((long *)arg)[0] = i;
        ((long *)arg)[1] = i + step;
        fn(arg);
    }
    __libc_free(arg);
}
// ---- time ----
static i64 clk = 1700000000LL * 1000000000LL, clk_mono = 1000000000LL, clk_step = 1000,
           jump_at = -1, jump_by = 0;
static u64 clk_reads = 0;
static i64 clk0 = 0;
double omp_get_wtime() {
    clk_mono += clk_step;
    return (double)clk_mono * 1e-9;
}
double omp_get_wtick() { return 1e-9; }
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!active) {
        static int (*real)(clockid_t, struct timespec *);
        if (!real)
            real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
        return real(id, ts);
    }
    clk_reads++;
    clk_mono += clk_step;
    clk += clk_step;
    if ((i64)clk_reads == jump_at) {
        clk += jump_by;
        fault(jump_by < 0 ? "clock-jump-back" : "clock-jump-forward");
    }
    i64 v = id == CLOCK_REALTIME ? clk : clk_mono;
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
} // extern "C"
void sim::set_threads(int n) { cur->icv.nthreads = n; }
void sim::set_thread_limit(int n) { thread_limit = n; }
void sim::random_schedule(bool on) {
    settle_steps();
    sched_on = on;
    arm_budget();
}
void sim::set_clock(i64 ns) { clk = ns; }
void sim::pass_time(i64 ns) { clk += ns, clk_mono += ns; }
i64 sim::now() { return clk; }
void sim::clock_step(i64 s) { clk_step = s; }
void sim::clock_jump_at(i64 n, i64 d) {
    jump_at = (i64)clk_reads + n;
    jump_by = d;
}
u64 sim::clock_reads() { return clk_reads; }
double sim::sim_seconds() { return (double)(clk_mono - 1000000000LL) * 1e-9; }

// ===========================================================================
// pthread mutexes, once, static initialisation, thread_local destructors
// ===========================================================================
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *);
    if (!active || !par) {
        if (active) { // uncontended by construction, but remember the holder
            lk_acquire(m, W_MUTEX);
            return 0;
        }
        if (!real)
            real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
        return real(m);
    }
    Mtx *x = mtx_of(m);
    if (x->owner == cur->id + 1) { // recursive use
        x->depth++;
        return 0;
    }
    lk_acquire(m, W_MUTEX);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *);
    if (!active) {
        if (!real)
            real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
        return real(m);
    }
    Mtx *x = mtx_of(m);
    if (x->depth > 0) {
        x->depth--;
        return 0;
    }
    if (x->owner != cur->id + 1)
        return 0;
    lk_release(m, W_MUTEX);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *);
    if (!active) {
        if (!real)
            real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
        return real(m);
    }
    Mtx *x = mtx_of(m);
    if (x->owner) {
        trylock_failed_recently = true;
        return EBUSY;
    }
    x->owner = cur->id + 1;
    acquire_vc(x->vc);
    return 0;
}
int __cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
int __wrap___cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
}

namespace __cxxabiv1 {
extern "C" {
// guard object: byte 0 = initialised, byte 1 = in progress, byte 2 = fiber
int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
    volatile unsigned char *b = (volatile unsigned char *)g;
    for (;;) {
        if (b[0]) {
            if (active && par) {
                SyncVar *s = sync_of((u64)g, false);
                if (s)
                    acquire_vc(s->vc);
            }
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            if (active)
                sync_point();
            return 1;
        }
        if (!active)
            abort();
        block_on("static initialisation");
    }
}
static void guard_wake() {
    if (active)
        for (int i = 0; i < MAXF; i++)
            if (F[i].st == ST_BLOCKED && F[i].waiting &&
                !strcmp(F[i].waiting, "static initialisation"))
                F[i].st = ST_READY;
}
void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept {
    volatile unsigned char *b = (volatile unsigned char *)g;
    if (active && par)
        release_to(sync_of((u64)g, true)->vc);
    b[0] = 1;
    b[1] = 0;
    guard_wake();
}
void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept {
    ((unsigned char *)g)[1] = 0;
    guard_wake();
}
}
}

// ===========================================================================
// random_device
// ===========================================================================
static u64 rd_s, rd_draws = 0;
static bool rd_throw = false;
static long long rd_fixed = -1;
void sim::random_device_value(long long v) { rd_fixed = v; }
void sim::random_device_fault(bool t) { rd_throw = t; }
u64 sim::random_device_draws() { return rd_draws; }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void *) {
    rd_draws++;
    unsigned v = (unsigned)nexts(rd_s);
    if (rd_fixed >= 0) {
        fault("random-device-value");
        return (unsigned)rd_fixed;
    }
    return v;
}
extern "C" void
_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *,
                                                                                    void *) {
    if (active)
        fault("random-device-seeded");
    if (rd_throw && active) {
        fault("random-device-unavailable");
        throw std::runtime_error("random_device could not be opened (injected)");
    }
}
extern "C" void _ZNSt13random_device7_M_finiEv(void *) {}

// ===========================================================================
// Files
// ===========================================================================
static IoFaults io;
static IoStats ios;
static bool tracked[1024];
static i64 io_w = 0, io_r = 0, io_opens = 0, io_calls = 0;
void sim::io_faults(const IoFaults &f) {
    io = f;
    io_w = io_r = io_opens = io_calls = 0;
}
void sim::io_clear() { io_faults(IoFaults()); }
IoStats sim::io_stats() { return ios; }
std::string sim::scratch(const char *name) { return name; } // the run starts in its scratch directory
static void io_fired(const char *k) {
    ios.fired++;
    fault(k);
    hash_mix(hash_str(k));
}
template <typename Fn> static Fn next_sym(const char *n) { return (Fn)dlsym(RTLD_NEXT, n); }
extern "C" {
static ssize_t real_write(int fd, const void *b, size_t n) {
    static ssize_t (*r)(int, const void *, size_t);
    if (!r)
        r = next_sym<ssize_t (*)(int, const void *, size_t)>("write");
    return r(fd, b, n);
}
static ssize_t real_read(int fd, void *b, size_t n) {
    static ssize_t (*r)(int, void *, size_t);
    if (!r)
        r = next_sym<ssize_t (*)(int, void *, size_t)>("read");
    return r(fd, b, n);
}
static ssize_t sim_write(int fd, const void *b, size_t n) {
    ios.writes++;
    io_calls++;
    if (io.eintr_every && io_calls % io.eintr_every == 0) {
        io_fired("io-eintr");
        errno = EINTR;
        return -1;
    }
    if (io.crash_after >= 0 && io_w + (i64)n > io.crash_after) {
        i64 k = io.crash_after - io_w;
        if (k > 0)
            real_write(fd, b, (size_t)k);
        if (k >= 0)
            io_fired("crash-torn-write");
        io_w += (i64)n;
        return (ssize_t)n; // the process never learns; it is about to crash
    }
    if (io.write_fail_after >= 0) {
        i64 room = io.write_fail_after - io_w;
        if (room <= 0) {
            io_fired(io.write_errno == ENOSPC ? "io-disk-full" : "io-write-error");
            errno = io.write_errno;
            return -1;
        }
        if ((i64)n > room)
            n = (size_t)room;
    }
    if (io.short_io > 0 && (i64)n > io.short_io) {
        n = (size_t)io.short_io;
        io_fired("io-short-write");
    }
    ssize_t r = real_write(fd, b, n);
    if (r > 0) {
        io_w += r;
        ios.wbytes += (u64)r;
    }
    return r;
}
static ssize_t sim_read(int fd, void *b, size_t n) {
    ios.reads++;
    io_calls++;
    if (io.eintr_every && io_calls % io.eintr_every == 0) {
        io_fired("io-eintr");
        errno = EINTR;
        return -1;
    }
    if (io.read_fail_after >= 0) {
        i64 room = io.read_fail_after - io_r;
        if (room <= 0) {
            io_fired("io-read-error");
            errno = io.read_errno;
            return -1;
        }
        if ((i64)n > room)
            n = (size_t)room;
    }
    if (io.short_io > 0 && (i64)n > io.short_io) {
        n = (size_t)io.short_io;
        io_fired("io-short-read");
    }
    ssize_t r = real_read(fd, b, n);
    if (r > 0) {
        io_r += r;
        ios.rbytes += (u64)r;
    }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    return active && fd >= 0 && fd < 1024 && tracked[fd] ? sim_write(fd, b, n)
                                                         : real_write(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    return active && fd >= 0 && fd < 1024 && tracked[fd] ? sim_read(fd, b, n)
                                                         : real_read(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (active && fd >= 0 && fd < 1024 && tracked[fd]) {
        ssize_t tot = 0;
        for (int i = 0; i < c; i++) {
            if (!v[i].iov_len)
                continue;
            ssize_t k = sim_write(fd, v[i].iov_base, v[i].iov_len);
            if (k < 0)
                return tot ? tot : -1;
            tot += k;
            if ((size_t)k < v[i].iov_len)
                break;
        }
        return tot;
    }
    static ssize_t (*r)(int, const struct iovec *, int);
    if (!r)
        r = next_sym<ssize_t (*)(int, const struct iovec *, int)>("writev");
    return r(fd, v, c);
}
static bool open_fault() {
    ios.opens++;
    io_opens++;
    if (io.open_fail > 0 && io_opens == io.open_fail) {
        io_fired("io-open-error");
        errno = io.open_errno ? io.open_errno : EMFILE;
        return true;
    }
    return false;
}
static FILE *open_tracked(const char *p, const char *m) {
    static FILE *(*r)(const char *, const char *);
    if (!r)
        r = next_sym<FILE *(*)(const char *, const char *)>("fopen");
    if (!active)
        return r(p, m);
    if (open_fault())
        return nullptr;
    FILE *f = r(p, m);
    if (f && fileno(f) < 1024)
        tracked[fileno(f)] = true;
    return f;
}
FILE *fopen(const char *p, const char *m) { return open_tracked(p, m); }
FILE *fopen64(const char *p, const char *m) { return open_tracked(p, m); }
int fclose(FILE *f0) {
    FILE *volatile fv = f0;
    FILE *f = fv;
    static int (*r)(FILE *);
    if (!r)
        r = next_sym<int (*)(FILE *)>("fclose");
    int fd = f ? fileno(f) : -1;
    bool t = active && fd >= 0 && fd < 1024 && tracked[fd];
    if (fd >= 0 && fd < 1024)
        tracked[fd] = false;
    int k = r(f);
    if (t && io.fail_close) {
        io_fired("io-close-error");
        errno = io.write_errno ? io.write_errno : EIO;
        return EOF;
    }
    return k;
}
// stdio streams opened by the code under test itself (CSV reader): the real
// glibc stream code on top of the simulated descriptor
struct Cook {
    int fd;
};
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((Cook *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    ssize_t k = sim_write(((Cook *)c)->fd, b, n);
    return k < 0 ? 0 : k;
}
static int ck_seek(void *c, off64_t *o, int w) {
    off_t r = lseek(((Cook *)c)->fd, *o, w);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
static int open_streams = 0;
static int ck_close(void *c) {
    close(((Cook *)c)->fd);
    __libc_free(c);
    open_streams--;
    return io.fail_close ? -1 : 0;
}
FILE *__wrap_fopen(const char *p, const char *m) {
    if (!active)
        return open_tracked(p, m);
    if (open_fault())
        return nullptr;
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC
                                                  : O_WRONLY | O_CREAT | O_APPEND;
    int fd = open(p, fl, 0600);
    if (fd < 0)
        return nullptr;
    Cook *c = (Cook *)__libc_malloc(sizeof(Cook));
    c->fd = fd;
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    FILE *s = fopencookie(c, m, f);
    open_streams++;
    return s;
}
int __wrap_fclose(FILE *f) { return fclose(f); }
}
int rt::open_stream_count() { return open_streams; }

// ===========================================================================
// Signals, terminate
// ===========================================================================
static void on_sig(int s, siginfo_t *si, void *uc) {
    void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    if (!pc && cur && cur->depth > 0 && cur->depth < 512) {
        res->null_call = 1;
        pc = cur->pcs[cur->depth - 1];
    }
    const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS"
                    : s == SIGILL ? "SIGILL" : s == SIGXCPU ? "SIGXCPU" : "SIGABRT";
    if (s == SIGXCPU)
        failf("no-progress (processor time)", "the run used more than its processor time limit (in %s)", cur_api);
    char key[120];
    u64 at = (u64)pc;
    // name the innermost instrumented function when the fault is in a library
    void *top = cur && cur->depth > 0 ? cur->pcs[(cur->depth < 512 ? cur->depth : 511) - 1] : pc;
    snprintf(key, sizeof key, "crash-%s in @pc:%p", n, at < 0x10000000ULL ? pc : top);
    failf(key, "%s (address 0x%llx) at @pc:%p during %s", n,
          (unsigned long long)(u64)si->si_addr, pc, cur_api);
}
static void on_terminate() {
    const char *what = "no active exception";
    char tn[200] = "";
    std::type_info *ti = abi::__cxa_current_exception_type();
    std::string w;
    if (ti) {
        int st;
        char *d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        snprintf(tn, sizeof tn, "%s", d ? d : ti->name());
        try {
            throw;
        } catch (std::exception const &e) {
            w = e.what();
            what = w.c_str();
        } catch (...) {
        }
    }
    char key[300];
    void *top = cur && cur->depth > 0 ? cur->pcs[(cur->depth < 512 ? cur->depth : 511) - 1] : nullptr;
    snprintf(key, sizeof key, "terminate-%s in @pc:%p", tn, top);
    failf(key, "std::terminate: uncaught %s (%s) during %s; first failed allocation at %s", tn, what,
          cur_api, alloc_fault_site().c_str());
}

// ===========================================================================
// Start-up of the parent and of one run
// ===========================================================================
static void *map_at(u64 a, u64 n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) {
        fprintf(stderr, "sim: cannot map the simulated address space\n");
        _exit(3);
    }
    return p;
}
void rt::init_process() {
    map_at(ARENA, ARENA_SZ);
    map_at(SHADOW, ARENA_SZ);
    map_at(RACE, ARENA_SZ * 4);
    g_lo = (u64)&__data_start & ~7ULL;
    g_hi = (u64)&_end;
    g_race = (u64)mmap(nullptr, (g_hi - g_lo) * 4 + 64, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    race_dirty = (unsigned char *)mmap(nullptr, HEAP_SZ >> 12, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dl_iterate_phdr(phdr_cb, nullptr);
    syncs = (SyncVar *)mmap(nullptr, sizeof(SyncVar) * NSYNC, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    cur = &F[0];
    F[0].st = ST_READY;
    F[0].vc.c[0] = 1;
    F[0].tls = (unsigned char *)__libc_memalign(64, tls_size ? tls_size : 64);
    F[0].api_name = "";
    F[0].icv = Icv{1, 1, 0, 0};
    (void)race_pc_dummy;
    (void)pcs_of_race;
    (void)pl_fn;
}
static void (*run_fn)();
static void *main_sp;
// Block sizes and parallelization thresholds of the library (the AOCLDA_SIM hook in
// core/utilities/sim_knobs.hpp): swarm-style, some runs make some of them small so that small
// problems reach the blocked and task-parallel paths.
enum { NKNOB = 64 };
extern "C" int aoclda_sim_knobs[NKNOB];
int aoclda_sim_knobs[NKNOB];
static void pick_knobs() {
    if (!sim::chance("small_blocks", 0.5))
        return;
    static const int block[] = {0, 16, 32, 64}, thresh[] = {0, 8, 32, 100}, sums[] = {0, 16, 64, 256};
    static const struct { const char *n; const int *v; } K[] = {
        {"kernel_functions", block}, {"kd_tree_task", thresh}, {"kd_tree_block", block},
        {"ball_tree_task", thresh}, {"ball_tree_block", block}, {"knn_block", block},
        {"rnn_block", block}, {"xtrain_rnn_block", block}, {"xtest_rnn_block", block},
        {"radius_neighbors_block", block}, {"binary_tree_block", block}, {"recursive_sum", sums},
        {"full_sum_parallel", sums}, {"svm_outer_block", block}, {"svm_inner_block", block},
        {"tsne_task", thresh}, {"kmeans_lloyd_d", block}, {"kmeans_lloyd_s", block},
        {"kmeans_elkan_d", block}, {"kmeans_elkan_s", block}, {"kmeans_macqueen_d", block},
        {"kmeans_macqueen_s", block}};
    char nm[48];
    bool any = false;
    for (int i = 0; i < (int)(sizeof K / sizeof *K); i++) {
        snprintf(nm, sizeof nm, "block_%s", K[i].n);
        int v = K[i].v[sim::pick(nm, 0, 3)];
        if (v) {
            aoclda_sim_knobs[i] = v;
            any = true;
        }
    }
    if (any)
        sim::probe("runs with reduced block sizes");
}
static void run_on_arena_stack(void *) {
    pick_knobs();
    run_fn();
    if (res->outcome == 0)
        res->seq = prm.max_seq - seq_left;
    res->outcome = 3; // completed
    settle_steps();
    res->sim_ns = clk_mono - 1000000000LL;
    res->reads = ios.reads;
    res->writes = ios.writes;
    die();
}
static void first_main() { run_on_arena_stack(nullptr); }
void rt::start_run(u64 seed, void (*fn)()) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    static char alt[64 << 10];
    stack_t ss;
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    int sigs[] = {SIGSEGV, SIGFPE, SIGBUS, SIGABRT, SIGILL, SIGXCPU};
    for (int s : sigs)
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    run_seed = seed;
    sched_s = mix64(seed ^ 0x5c4ed);
    choice_s = mix64(seed ^ 0xc401ce);
    rd_s = mix64(seed ^ 0x7a4d); rd_draws = 0, rd_throw = false, rd_fixed = -1;
    junk = mix64(seed ^ 0x14c4);
    if (junk % 4 == 0)
        junk = 0x7ff8000000000000ULL | (junk >> 20); // NaN patterns expose uninitialised reads
    u64 r = nexts(sched_s);
    static const int qs[] = {3, 10, 30, 100, 300, 1000, 5000};
    mean_q = qs[(r >> 8) % 7];
    switch (r % 10) {
    case 0: case 1: case 2: case 3: strat = S_WALK; break;
    case 4: case 5: strat = S_PCT; break;
    case 6: case 7: strat = S_STARVE; break;
    case 8: strat = S_RR; break;
    default: strat = S_SEQ; break;
    }
    starved = (int)((r >> 16) % 6);
    if (prm.explicit_sched)
        strat = S_WALK;
    seq_left = prm.max_seq;
    F[0].icv = Icv{1 + (int)((r >> 24) % 8), 1, 0, 0};
    clk0 = clk;
    // continue on a stack inside the arena so that main's locals are shadowed too
    F[0].stk = (char *)(ARENA + HEAP_SZ);
    F[0].stksz = 32 << 20;
    run_fn = fn;
    u64 *s = (u64 *)(F[0].stk + F[0].stksz - 64);
    asm volatile("" : "+r"(s));
    *--s = 0;
    *--s = (u64)&first_main;
    for (int i = 0; i < 6; i++)
        *--s = 0;
    s--;
    uint32_t mx;
    uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t *)s)[0] = mx;
    ((uint32_t *)s)[1] = cw;
    active = true;
    sim_switch(&main_sp, s);
    abort();
}
