// Shared between the runtime and the driver.
#pragma once
#include "rt.hpp"
namespace rt {
typedef uint32_t u32t;
enum { MAXNAMED = 96, MAXPICK = 3000, MAXSW = 60000 };
struct Named {
    char name[48];
    uint64_t n;
};
struct Pick {
    char name[40];
    int occ;
    int64_t v, lo, hi;
};
struct Dec {
    uint64_t at;
    int to;
};
struct Result {
    int outcome; // 0 died, 1 violation, 2 gave up, 3 completed
    char key[400];
    char detail[2000];
    char stack[1000];
    char logtail[6000];
    uint64_t hash, ilv, state, steps, switches, preemptions, teams, tasks, evict, seq;
    int max_team, trace_full, null_call;
    int64_t sim_ns;
    uint64_t reads, writes;
    Named probes[MAXNAMED], faults[MAXNAMED];
    int npicks, nsw, nblk, nch;
    Pick picks[MAXPICK];
    Dec sw[MAXSW], blk[MAXSW], ch[MAXSW];
};
struct Override {
    uint64_t h;
    int occ;
    int64_t v;
};
struct Params {
    bool verbose;
    bool explicit_sched;
    int noverride, nsw, nblk, nch;
    Override *overrides;
    Dec *sw, *blk, *ch;
    uint64_t max_steps, max_seq;
    char scratch[256];
};
extern Result *res;
extern Params prm;
extern bool active;
void init_process();
[[noreturn]] void start_run(uint64_t seed, void (*fn)());
int open_stream_count();
} // namespace rt
