// C09: saved models load back to equivalent models.
// modules: all
#include "zoo.hpp"
#include <fstream>
#include <sstream>
const char *sim_property = "C09";
const char *sim_rule = "a run counts when a fitted handle was saved and loaded (file or buffer) and the loaded handle's "
                       "predictions, transforms and results were compared with the original's; distinct = distinct event hashes";
const char *sim_real_components = "da_handle_save_model / da_handle_load_model, serialization_buffer, every savable handle "
                                  "(linmod, pca, kernel_pca, kmeans, tree, forest, nn, approx_nn, svm): all real code from /repo";
const char *sim_stub_components = "OpenMP runtime, threads, allocator, std::random_device, file descriptors "
                                  "(simulated I/O on a scratch directory); BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}
using namespace zoo;

static std::string slurp(const char *p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static void query_all(const ModelBase &m, da_handle h, std::vector<Out> &o, bool random) {
    sim::random_schedule(random);
    for (auto &q : m.queries) {
        o.emplace_back();
        q.f(h, o.back());
    }
    sim::random_schedule(true);
}
// every option the model sets, read back
static std::string options_of(const ModelBase &m, da_handle h) {
    std::string o;
    for (auto &x : m.desc) {
        std::string n = x.substr(0, x.find('='));
        da_int i;
        char c[200];
        da_int len = sizeof c;
        o += n + "=";
        if (da_options_get_int(h, n.c_str(), &i) == da_status_success)
            o += std::to_string(i);
        else if (da_options_get_string(h, n.c_str(), c, &len) == da_status_success)
            o += c;
        else {
            double d = 0;
            float f = 0;
            if (m.dbl ? da_options_get_real_d(h, n.c_str(), &d) == da_status_success
                      : da_options_get_real_s(h, n.c_str(), &f) == da_status_success) {
                snprintf(c, sizeof c, "%.17g", m.dbl ? d : (double)f);
                o += c;
            } else
                o += "?";
        }
        o += "; ";
    }
    return o;
}
static void go(int kind) {
    Env env;
    ModelBase m = draw(kind), m0; // arrays handed to the handle stay valid until the handle is gone
    sim::log("%s", describe(m).c_str());
    Handle h;
    if (init(h, m) != da_status_success)
        fail("init", "da_handle_init failed");
    if (chance("save_early", 0.15)) { // not fitted yet: refused, nothing changed
        std::vector<char> b;
        da_status st = api("da_handle_save_model", [&] { return da_handle_save_model(h.h, b); });
        if (st == da_status_success)
            failf("unfitted:accepted", "%s: an unfitted handle was saved", m.kind.c_str());
        probe("unfitted");
    }
    if (chance("used_before", 0.25)) { // another history first
        m0 = draw(kind);
        if (m0.dbl == m.dbl && (m0.type != da_handle_linmod || m0.kind == m.kind) && (m0.type != da_handle_svm || m0.kind == m.kind)) {
            train(h.h, m0);
            std::vector<Out> o;
            query_all(m0, h.h, o, true);
            if (m0.savable && chance("saved_before", 0.5)) {
                std::vector<char> b;
                api("da_handle_save_model", [&] { return da_handle_save_model(h.h, b); });
            }
            probe("used_before");
        }
    }
    std::string at;
    da_status st = train(h.h, m, &at);
    if (st != da_status_success) {
        probe("fit_refused");
        sim::log("%s at %s: %d %s", m.kind.c_str(), at.c_str(), (int)st, errmsg(h.h).c_str());
        return;
    }
    bool asked = chance("asked_before_save", 0.5);
    std::vector<Out> base, got;
    if (asked) {
        query_all(m, h.h, base, true); // random schedule, only as a history
        base.clear();
    }
    bool file = chance("file", 0.5);
    std::vector<char> buf;
    std::string name = sim::scratch("model.bin");
    if (file && chance("stale_file", 0.3)) {
        std::ofstream f(name, std::ios::binary);
        f << std::string(5000, 'x');
    }
    if (chance("short_io", 0.3)) {
        sim::IoFaults f;
        f.short_io = pick("short_n", 1, 300);
        f.eintr_every = chance("eintr", 0.3) ? 3 : 0;
        sim::io_faults(f);
    }
    auto save = [&](da_handle H, std::vector<char> &b) {
        da_status s = file ? api("da_handle_save_model", [&] { return da_handle_save_model(H, name.c_str()); })
                           : api("da_handle_save_model", [&] { return da_handle_save_model(H, b); });
        if (s != da_status_success)
            failf("save:status", "%s: save of a fitted model returned %d: %s", m.kind.c_str(), (int)s, errmsg(H).c_str());
        if (file) {
            std::string c = slurp(name.c_str());
            b.assign(c.begin(), c.end());
        }
    };
    if (!m.savable) {
        st = file ? api("da_handle_save_model", [&] { return da_handle_save_model(h.h, name.c_str()); })
                  : api("da_handle_save_model", [&] { return da_handle_save_model(h.h, buf); });
        if (st == da_status_success)
            failf("unsavable:accepted", "%s: a model that cannot be saved was saved", m.kind.c_str());
        probe("unsavable");
        return;
    }
    save(h.h, buf);
    Handle l;
    auto load = [&](Handle &L, std::vector<char> &b) {
        Buf<char> ub(b);
        da_status s = file ? api("da_handle_load_model", [&] { return da_handle_load_model(&L.h, name.c_str()); })
                           : api("da_handle_load_model", [&] { return da_handle_load_model(&L.h, ub.p, b.size()); });
        if (s != da_status_success)
            failf("load:status", "%s: load of an intact model returned %d: %s", m.kind.c_str(), (int)s, errmsg(L.h).c_str());
        if (file && slurp(name.c_str()) != std::string(b.begin(), b.end()))
            fail("load:file", "loading changed the file");
    };
    load(l, buf);
    sim::io_clear();
    bool drop = chance("original_gone", 0.3);
    {
        std::string oa = options_of(m, h.h), ob = options_of(m, l.h);
        if (oa != ob)
            failf("options", "%s: the options of the loaded model differ: %s against %s", m.kind.c_str(), ob.c_str(), oa.c_str());
        if (oa.find('?') != std::string::npos)
            failf("harness:options", "%s: unknown option in %s", m.kind.c_str(), oa.c_str());
    }
    query_all(m, h.h, base, false);
    Out r0 = results(h.h, m, false), r1;
    if (drop)
        h.destroy();
    // the loaded one is asked in the same order
    query_all(m, l.h, got, false);
    for (size_t i = 0; i < base.size(); i++) {
        std::string e = diff(base[i], got[i]);
        if (!e.empty())
            failf(("query:" + m.queries[i].name).c_str(), "%s: the loaded model answers differently: %s (status %d / %d) %s",
                  m.queries[i].name.c_str(), e.c_str(), (int)base[i][0], (int)got[i][0], describe(m).c_str());
        hash_vec(got[i]);
    }
    // results kept: those the loaded handle offers are those of the original
    r1 = results(l.h, m, false);
    {
        std::map<std::pair<int, int>, Out> a;
        auto split = [](const Out &o) {
            std::map<std::pair<int, int>, Out> r;
            std::map<int, int> seen;
            for (size_t i = 0; i + 1 < o.size();) {
                int id = (int)o[i], n = (int)o[i + 1];
                r[{id, seen[id]++}] = Out(o.begin() + i + 2, o.begin() + i + 2 + n);
                i += 2 + n;
            }
            return r;
        };
        a = split(r0);
        auto b = split(r1);
        for (auto &k : b) {
            if (!a.count(k.first))
                failf("result:extra", "%s: the loaded model offers result %d, the original does not", m.kind.c_str(), k.first.first);
            std::string e = diff(a[k.first], k.second);
            if (!e.empty())
                failf("result:value", "%s: result %d of the loaded model: %s", m.kind.c_str(), k.first.first, e.c_str());
            probe("result_kept");
        }
        if (b.size() < a.size())
            probe("result_dropped");
    }
    // saving the loaded model gives the same bytes again
    if (chance("resave", 0.5)) {
        std::vector<char> b2;
        save(l.h, b2);
        if (b2 != buf) {
            Handle l2;
            load(l2, b2);
            got.clear();
            query_all(m, l2.h, got, false);
            for (size_t k = 0; k < base.size(); k++) {
                std::string e = diff(base[k], got[k]);
                if (!e.empty())
                    failf(("requery:" + m.queries[k].name).c_str(), "%s: saved, loaded, saved and loaded: %s %s",
                          m.queries[k].name.c_str(), e.c_str(), describe(m).c_str());
            }
            probe("resave_other_bytes");
        }
        probe("resaved");
    }
    // schedules: the loaded model asked under a random schedule and other team size
    // (which of two equally distant neighbours is taken may depend on the schedule, and the sign of
    // a decision value that rounds to zero on the number of blocks: such answers are not compared)
    if (chance("other_team", 0.5)) {
        bool ties = m.type == da_handle_nn || m.type == da_handle_approx_nn;
        sim::set_threads((int)pick("threads2", 1, 6));
        got.clear();
        query_all(m, l.h, got, true);
        for (size_t k = 0; k < base.size(); k++) {
            if (ties || m.queries[k].name == "da_svm_predict" || m.queries[k].name == "da_svm_score") {
                if (base[k][0] != got[k][0])
                    failf(("schedule:" + m.queries[k].name).c_str(), "%s: the loaded model under another schedule: status %d against %d",
                          m.queries[k].name.c_str(), (int)got[k][0], (int)base[k][0]);
                continue;
            }
            std::string e = diff(base[k], got[k], m.dbl ? 1e-8 : 1e-3, magnitude(r0));
            if (!e.empty())
                failf(("schedule:" + m.queries[k].name).c_str(), "%s: the loaded model under another schedule: %s %s",
                      m.queries[k].name.c_str(), e.c_str(), describe(m).c_str());
        }
    }
    // the loaded handle can be trained again
    if (chance("retrain", 0.3)) {
        sim::random_schedule(false);
        Handle f2;
        if (init(f2, m) != da_status_success)
            fail("init", "da_handle_init failed");
        da_status a = train(f2.h, m), b = train(l.h, m, &at);
        sim::random_schedule(true);
        if (a != b)
            failf("retrain:status", "%s: training the loaded handle gives %d at %s, a new handle %d: %s", m.kind.c_str(), (int)b,
                  at.c_str(), (int)a, errmsg(l.h).c_str());
        if (a == da_status_success) {
            std::vector<Out> x, y;
            query_all(m, f2.h, x, false);
            query_all(m, l.h, y, false);
            for (size_t k = 0; k < x.size(); k++) {
                std::string e = diff(x[k], y[k]);
                if (!e.empty())
                    failf(("retrain:" + m.queries[k].name).c_str(), "%s: the loaded handle trained again: %s %s",
                          m.queries[k].name.c_str(), e.c_str(), describe(m).c_str());
            }
            probe("retrained");
        }
    }
    probe("compared");
}
#define S(n, k) static void n() { go(k); }
S(linmod, K_LINMOD) S(pca, K_PCA) S(kpca, K_KPCA) S(kmeans, K_KMEANS) S(tree, K_TREE) S(forest, K_FOREST) S(nn, K_NN)
S(ann, K_ANN) S(svm, K_SVM)
static void unsavable() { go(sim::one_of<int>("ukind", {K_DBSCAN, K_SPLINE, K_TSNE, K_NLLS})); }
sim::Scenario sim_scenarios[] = {{"linmod", linmod, 3}, {"pca", pca, 3},   {"kernel_pca", kpca, 2}, {"kmeans", kmeans, 3},
                                 {"tree", tree, 3},     {"forest", forest, 3}, {"nn", nn, 3},          {"approx_nn", ann, 3},
                                 {"svm", svm, 3},       {"unsavable", unsavable, 1}, {nullptr, nullptr, 0}};
