// C11: a save that reports success is complete on disk.
// modules: all
#include "zoo.hpp"
#include <cerrno>
#include <fstream>
#include <sstream>
const char *sim_property = "C11";
const char *sim_rule = "a run counts when a fitted handle was saved under injected write, flush, close, open or allocation faults, "
                       "the status was compared with the bytes on disk, and the handle was used and saved again; distinct = "
                       "distinct event hashes";
const char *sim_real_components = "da_handle_save_model / da_handle_load_model, serialization_buffer, save code of every savable "
                                  "handle, C++ file streams: all real code";
const char *sim_stub_components = "OpenMP runtime, threads, allocator, open/write/writev/read/close (simulated faults on a scratch "
                                  "directory); BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}
using namespace zoo;

static std::string slurp(const char *p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static void ask(const ModelBase &m, da_handle h, std::vector<Out> &o) {
    sim::random_schedule(false);
    o.clear();
    for (auto &q : m.queries) {
        o.emplace_back();
        q.f(h, o.back());
    }
    sim::random_schedule(true);
}
static void go(int kind) {
    Env env;
    ModelBase m = draw(kind);
    sim::log("%s", describe(m).c_str());
    Handle h;
    if (init(h, m) != da_status_success)
        fail("init", "da_handle_init failed");
    std::string at;
    if (train(h.h, m, &at) != da_status_success) {
        probe("fit_refused");
        return;
    }
    std::vector<Out> base, got;
    bool first_ask = chance("asked_before", 0.7);
    if (first_ask)
        ask(m, h.h, base);
    std::vector<char> ref;
    if (api("da_handle_save_model", [&] { return da_handle_save_model(h.h, ref); }) != da_status_success)
        failf("save:status", "%s: a fitted model was not saved: %s", m.kind.c_str(), errmsg(h.h).c_str());
    i64 size = (i64)ref.size();
    std::string name = sim::scratch("model");
    auto same_as_base = [&](da_handle H, const char *key, const char *what) {
        if (base.empty()) {
            ask(m, h.h, base);
        }
        ask(m, H, got);
        for (size_t k = 0; k < base.size(); k++) {
            std::string e = diff(base[k], got[k]);
            if (!e.empty())
                failf(key, "%s: %s: %s: %s", m.kind.c_str(), what, m.queries[k].name.c_str(), e.c_str());
        }
    };
    auto load_same = [&](const char *key, const char *what) {
        Handle l;
        da_status st = api("da_handle_load_model", [&] { return da_handle_load_model(&l.h, name.c_str()); });
        if (st != da_status_success)
            failf((std::string(key) + ":load").c_str(), "%s: %s: the file does not load: status %d; %zu bytes on disk, a model of %lld", m.kind.c_str(), what, (int)st,
                  slurp(name.c_str()).size(), (long long)size);
        same_as_base(l.h, (std::string(key) + ":query").c_str(), what);
    };
    int rounds = (int)pick("rounds", 1, 5);
    for (int r = 0; r < rounds; r++) {
        { // queries may add or drop work space that is saved with the model
            std::vector<char> now;
            if (api("da_handle_save_model", [&] { return da_handle_save_model(h.h, now); }) != da_status_success)
                failf("save:status", "%s: a fitted model was not saved: %s", m.kind.c_str(), errmsg(h.h).c_str());
            size = (i64)now.size();
        }
        if (chance("stale", 0.3)) {
            std::ofstream f(name, std::ios::binary);
            f << std::string((size_t)pick("stale_n", 0, 2) * (size_t)size, 'y');
        }
        sim::IoFaults f;
        bool hard = false;
        int kindf = (int)pick("fault", 0, 6);
        bool by_buffer = false;
        std::string target = name;
        i64 where = chance("late", 0.4) ? std::max<i64>(0, size - pick("from_end", 0, 40)) : pick("where", 0, size + 20);
        switch (kindf) {
        case 0: // benign
            if (chance("short_io", 0.6))
                f.short_io = pick("short_n", 1, 400);
            f.eintr_every = chance("eintr", 0.4) ? pick("eintr_n", 2, 5) : 0;
            break;
        case 1:
            f.write_fail_after = where;
            f.write_errno = sim::one_of<int>("errno", {ENOSPC, EIO, EDQUOT, EFBIG});
            if (chance("short_io2", 0.3))
                f.short_io = pick("short_n2", 1, 400);
            hard = where < size;
            break;
        case 2:
            f.fail_close = true;
            f.write_errno = sim::one_of<int>("errno_close", {ENOSPC, EIO, EDQUOT});
            hard = true;
            break;
        case 3:
            f.open_fail = 1;
            f.open_errno = sim::one_of<int>("errno_open", {ENOSPC, EACCES, EROFS, EMFILE});
            hard = true;
            break;
        case 4:
            target = sim::scratch("no_such_dir") + "/model";
            hard = true;
            break;
        case 5:
            sim::fail_alloc(pick("nth", 1, 12), sim::one_of<i64>("cnt", {1, 2, 1000}));
            break;
        case 6:
            sim::fail_alloc(pick("nth", 1, 12), sim::one_of<i64>("cnt", {1, 2, 1000}));
            by_buffer = true;
            break;
        }
        sim::io_faults(f);
        std::vector<char> b;
        if (by_buffer && chance("buffer_used", 0.4))
            b.assign(37, 'z');
        da_status st = api("da_handle_save_model", [&] {
            return by_buffer ? da_handle_save_model(h.h, b) : da_handle_save_model(h.h, target.c_str());
        });
        bool fired = sim::alloc_faults_fired() > 0;
        sim::io_clear();
        sim::clear_alloc_faults();
        sim::log("round %d fault %d where %lld of %lld: status %d", r, kindf, (long long)where, (long long)size, (int)st);
        if (hard && st == da_status_success)
            failf(kindf == 2 ? "success:close-failed" : "success:write-failed",
                  "%s: fault %d (byte %lld of %lld) but the save reported success; %zu bytes on disk", m.kind.c_str(), kindf,
                  (long long)where, (long long)size, slurp(name.c_str()).size());
        if (!hard && !fired && st != da_status_success)
            failf("refused", "%s: the save returned %d although nothing failed: %s", m.kind.c_str(), (int)st, errmsg(h.h).c_str());
        if (st == da_status_success) {
            if (by_buffer) {
                Handle l;
                Buf<char> ub(b);
                da_status s2 = api("da_handle_load_model", [&] { return da_handle_load_model(&l.h, ub.p, b.size()); });
                if (s2 != da_status_success)
                    failf("success:buffer", "%s: a buffer saved with success does not load: %d", m.kind.c_str(), (int)s2);
                same_as_base(l.h, "success:buffer-query", "saved to a buffer with success");
            } else
                load_same("success", "saved with success");
            probe(hard || kindf ? "fault_survived" : "saved");
        } else {
            errmsg(h.h);
            probe("save_failed");
            if (chance("use_after", 0.6))
                same_as_base(h.h, "after:query", "asked after a failed save");
            if (chance("save_after", 0.7)) {
                st = api("da_handle_save_model", [&] { return da_handle_save_model(h.h, name.c_str()); });
                if (st != da_status_success)
                    failf("after:save", "%s: saving again after a failure returned %d: %s", m.kind.c_str(), (int)st,
                          errmsg(h.h).c_str());
                load_same("after", "saved again after a failure");
                probe("saved_again");
            }
        }
    }
    probe("compared");
}
#define S(n, k) static void n() { go(k); }
S(linmod, K_LINMOD) S(pca, K_PCA) S(kpca, K_KPCA) S(kmeans, K_KMEANS) S(tree, K_TREE) S(forest, K_FOREST) S(nn, K_NN)
S(ann, K_ANN) S(svm, K_SVM)
sim::Scenario sim_scenarios[] = {{"linmod", linmod, 3}, {"pca", pca, 3},   {"kernel_pca", kpca, 2}, {"kmeans", kmeans, 3},
                                 {"tree", tree, 3},     {"forest", forest, 3}, {"nn", nn, 3},          {"approx_nn", ann, 3},
                                 {"svm", svm, 3},       {nullptr, nullptr, 0}};
