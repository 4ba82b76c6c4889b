// C16: results depend on data and options, not on what a handle did before.
// modules: all
#include "zoo.hpp"
const char *sim_property = "C16";
const char *sim_rule = "a run counts when a handle with a drawn history (fits, queries, rejected calls, option changes, "
                       "refreshes) and a new handle were given the same options and data and every query and result of the "
                       "two was compared; distinct = distinct event hashes";
const char *sim_real_components = "every algorithm handle (linmod, pca, kernel_pca, kmeans, dbscan, tree, forest, nn, approx_nn, "
                                  "svm, interpolation, tsne, nlls), option registry, handle dispatch: all real code from /repo";
const char *sim_stub_components = "OpenMP runtime, threads, allocator, std::random_device (simulated); BLAS is the real "
                                  "OpenBLAS, single threaded";
void sim_warmup() {}
using namespace zoo;

static void ask(const ModelBase &m, da_handle h, std::vector<Out> &o) {
    for (auto &q : m.queries) {
        o.emplace_back();
        q.f(h, o.back());
    }
}
struct Quiet { // sequential schedule: what is compared must be bitwise comparable
    Quiet() { sim::random_schedule(false); }
    ~Quiet() { sim::random_schedule(true); }
};
// ---- calls that must be refused ------------------------------------------------
template <typename T> static da_status bad_data(da_handle h, int kind, const ModelBase &m) {
    da_int n = std::max<da_int>(m.n, 2), d = std::max<da_int>(m.d, 1);
    int how = (int)pick("bad_how", 0, 3);
    static std::vector<std::shared_ptr<void>> keep;
    auto X = std::make_shared<Buf<T>>((size_t)n * d);
    auto y = std::make_shared<Buf<T>>(n);
    auto yi = std::make_shared<Buf<da_int>>(n);
    keep.push_back(X), keep.push_back(y), keep.push_back(yi);
    for (da_int i = 0; i < n * d; i++)
        (*X)[i] = (T)(i % 7);
    for (da_int i = 0; i < n; i++)
        (*y)[i] = (T)(i % 2), (*yi)[i] = i % 2;
    da_int ld = std::max(n, d), nn = n;
    if (ld * std::min(n, d) > n * d)
        ld = n * d;
    T *x = X->p;
    switch (how) {
    case 0:
        nn = 0;
        break;
    case 1:
        x = nullptr;
        break;
    case 2:
        ld = 0;
        break;
    case 3: // not a number, with the check switched on
        api("da_options_set_string", [&] { return da_options_set_string(h, "check data", "yes"); });
        (*X)[0] = std::numeric_limits<T>::quiet_NaN();
        {
            // column-major or row-major, ld as the order in force asks for
            char c[100];
            da_int len = sizeof c;
            if (da_options_get_string(h, "storage order", c, &len) == da_status_success)
                ld = std::string(c) == "row-major" ? d : n;
        }
        break;
    }
    return api("rejected_data", [&] {
        switch (kind) {
        case K_LINMOD:
            return da_linmod_define_features(h, nn, d, x, ld, y->p);
        case K_PCA:
            return da_pca_set_data(h, nn, d, x, ld);
        case K_KPCA:
            return da_kernel_pca_set_data(h, nn, d, x, ld);
        case K_KMEANS:
            return da_kmeans_set_data(h, nn, d, x, ld);
        case K_DBSCAN:
            return da_dbscan_set_data(h, nn, d, x, ld);
        case K_TREE:
            return da_tree_set_training_data(h, nn, d, (da_int)2, x, ld, yi->p, nullptr);
        case K_FOREST:
            return da_forest_set_training_data(h, nn, d, (da_int)2, x, ld, yi->p, nullptr);
        case K_NN:
            return da_nn_set_data(h, nn, d, x, ld);
        case K_ANN:
            return da_approx_nn_set_training_data(h, nn, d, x, ld);
        case K_SVM:
            return da_svm_set_data(h, nn, d, x, ld, y->p);
        case K_SPLINE:
            return how == 0   ? da_interpolation_set_sites(h, (da_int)0, y->p)
                   : how == 1 ? da_interpolation_set_sites<T>(h, n, nullptr)
                   : how == 2 ? da_interpolation_set_values(h, (da_int)3, (da_int)1, y->p, (da_int)0, 0)
                              : da_interpolation_set_values(h, (da_int)3, (da_int)1, y->p, (da_int)3, 7);
        case K_TSNE:
            return da_tsne_set_data(h, nn, d, x, ld);
        default:
            return how == 0   ? da_nlls_define_residuals<T>(h, 0, 3, nl_res<T>, nullptr, nullptr, nullptr)
                   : how == 1 ? da_nlls_define_residuals<T>(h, 1, 3, nullptr, nullptr, nullptr, nullptr)
                   : how == 2 ? da_nlls_define_bounds<T>(h, (da_int)77, y->p, y->p)
                              : da_nlls_define_weights<T>(h, (da_int)77, y->p);
        }
    });
}
static da_status bad_option(da_handle h) {
    switch (pick("bad_opt", 0, 3)) {
    case 0:
        return api("da_options_set_string", [&] { return da_options_set_string(h, "storage order", "sideways"); });
    case 1:
        return api("da_options_set_int", [&] { return da_options_set_int(h, "no such option", 3); });
    case 2:
        return api("da_options_set_int", [&] { return da_options_set_int(h, "storage order", 3); });
    default:
        return api("da_options_set_string", [&] { return da_options_set_string(h, "check data", ""); });
    }
}
// the options in force in one handle (a computation may have replaced "auto" by
// what it chose, data may have narrowed a value) put into another
static void copy_options(const std::vector<ModelBase> &ms, da_handle h, da_handle f, bool dbl) {
    std::set<std::string> seen;
    for (auto &m : ms)
        for (auto &x : m.desc) {
            std::string n = x.substr(0, x.find('='));
            if (!seen.insert(n).second)
                continue;
            da_int i;
            char c[200];
            da_int len = sizeof c;
            double d = 0;
            float s = 0;
            da_status st = da_status_success;
            if (da_options_get_int(h, n.c_str(), &i) == da_status_success)
                st = da_options_set_int(f, n.c_str(), i);
            else if (da_options_get_string(h, n.c_str(), c, &len) == da_status_success)
                st = da_options_set_string(f, n.c_str(), c);
            else if (dbl ? da_options_get_real_d(h, n.c_str(), &d) == da_status_success
                         : da_options_get_real_s(h, n.c_str(), &s) == da_status_success)
                st = dbl ? da_options_set_real_d(f, n.c_str(), d) : da_options_set_real_s(f, n.c_str(), s);
            else
                failf("option:read", "option %s cannot be read", n.c_str());
            if (st != da_status_success)
                failf("option:history", "the value of option %s in a used handle is refused by a new one (%d)", n.c_str(), (int)st);
        }
}
static void compare(const ModelBase &m, const std::vector<Out> &ref, const std::vector<Out> &got, const char *what) {
    for (size_t i = 0; i < ref.size(); i++) {
        std::string e = diff(ref[i], got[i]);
        if (!e.empty())
            failf((std::string(what) + ":" + m.queries[i].name).c_str(), "%s (%s): %s; status new handle %d, used handle %d; %s",
                  m.queries[i].name.c_str(), what, e.c_str(), (int)ref[i][0], (int)got[i][0], describe(m).c_str());
    }
}
static void compare_results(const ModelBase &m, const Out &a, const Out &b, const char *what) {
    std::string e = diff(a, b);
    if (e.empty())
        return;
    size_t i = 0, id = 0;
    for (size_t k = 0; k < std::min(a.size(), b.size());) { // the result in which they part
        id = (size_t)a[k];
        if (!same(a[k], b[k]) || !same(a[k + 1], b[k + 1]))
            break;
        bool part = false;
        for (i = 0; i < (size_t)a[k + 1]; i++)
            part |= !same(a[k + 2 + i], b[k + 2 + i]);
        if (part)
            break;
        k += 2 + (size_t)a[k + 1];
    }
    failf((std::string(what) + ":result").c_str(), "%s: result %zu (%s): %s; %s", m.kind.c_str(), id, what, e.c_str(),
          describe(m).c_str());
}
static bool uses(const ModelBase &m, const char *step) {
    for (auto &s : m.steps)
        if (s.name == step)
            return true;
    return false;
}
static void go(int kind) {
    Env env;
    force_n = force_d = 0;
    std::vector<ModelBase> old; // arrays stay valid until the handles are gone
    old.push_back(draw(kind));
    ModelBase m;
    Handle h, f;
    const ModelBase &first = old[0];
    bool dbl = first.dbl;
    if (chance("same_shape", 0.5)) {
        force_n = first.n;
        force_d = first.d;
    }
    if (kind == K_NN) // the number of samples of this handle cannot change: documented refusal
        force_n = first.n, force_d = first.d;
    m = draw_like(kind, dbl);
    if (init(h, m) != da_status_success || init(f, m) != da_status_success)
        fail("init", "da_handle_init failed");
    sim::log("then %s", describe(m).c_str());
    // ---- history ---------------------------------------------------------------
    int rounds = (int)pick("rounds", 1, 3);
    old.reserve(8);
    bool trained = false, ever = false;
    for (int r = 0; r < rounds; r++) {
        if (r)
            old.push_back(draw_like(kind, dbl));
        ModelBase &a = old.back();
        sim::log("history %s", describe(a).c_str());
        da_int stop = (da_int)a.steps.size();
        if (chance("partial", 0.25))
            stop = pick("stop", 0, (i64)a.steps.size());
        trained = true;
        bool fitted = false;
        for (da_int i = 0; i < (da_int)a.steps.size(); i++) {
            if (i >= stop && a.steps[i].stage > 0) {
                trained = false;
                continue;
            }
            da_status st = a.steps[i].f(h.h);
            if (a.steps[i].stage == 2)
                fitted = true;
            if (a.steps[i].stage > 0 && st != da_status_success) {
                trained = false;
                probe("history_step_refused");
                break;
            }
        }
        // (a partly given problem is not asked on top of an older model: the arrays
        // of the one need not fit the other)
        bool may_ask = trained || fitted || !ever;
        ever |= trained || fitted;
        if (chance("ask", 0.6) && may_ask) {
            std::vector<Out> o;
            ask(a, h.h, o);
            probe("history_asked");
        }
        if (chance("ask_results", 0.4)) {
            Out o = results(h.h, a);
        }
        if (trained && chance("refused_call", 0.4)) {
            // a refused call changes no answer
            Quiet q;
            std::vector<Out> before, after;
            ask(a, h.h, before);
            bool data = chance("refused_data", 0.6);
            da_status st = data ? (dbl ? bad_data<double>(h.h, kind, a) : bad_data<float>(h.h, kind, a)) : bad_option(h.h);
            if (st == da_status_success) {
                if (!data)
                    fail("bad_option:accepted", "an invalid option was accepted");
                probe("bad_data_accepted"); // e.g. no storage order to check against
                trained = false;
            } else {
                probe("refused_call");
                ask(a, h.h, after);
                for (size_t i = 0; i < before.size(); i++)
                    if (after[i][0] == da_status_success && before[i][0] == da_status_success) {
                        std::string e = diff(before[i], after[i]);
                        if (!e.empty())
                            failf(("refused:" + a.queries[i].name).c_str(),
                                  "%s answers differently after a refused call (status %d): %s; %s", a.queries[i].name.c_str(),
                                  (int)st, e.c_str(), describe(a).c_str());
                    }
            }
        }
        if (chance("refresh", 0.2)) {
            sim::Api x("da_handle_refresh");
            da_handle_refresh(h.h);
            probe("refresh");
        }
    }
    const ModelBase &last = old.back();
    copy_options(old, h.h, f.h, dbl);
    bool optional_left = false; // data given once and not given again for the new problem
    for (auto &a : old)
        for (auto &s : a.steps)
            if (s.stage == 1 && !uses(m, s.name.c_str()))
                optional_left = true;
    // initial centres of an earlier problem of the same size stay; of another size they must be refused
    bool keeps = kind == K_NLLS || kind == K_SPLINE || kind == K_NN;
    if (kind == K_KMEANS && optional_left)
        for (auto &a : old)
            if (a.d == m.d)
                keeps = true;
    // ---- same data, other options ------------------------------------------------
    if (trained && chance("options_only", 0.3)) {
        Quiet q;
        for (auto &s : m.steps)
            if (s.stage == 0 && s.name != "option storage order" && s.name != "option n_components" && s.name != "option n_clusters" &&
                s.name != "option check data" && chance("other_option", 0.5)) {
                da_status a = s.f(h.h), b = s.f(f.h);
                if (a != b)
                    failf("option:status", "%s: used handle %d, new handle %d", s.name.c_str(), (int)a, (int)b);
            }
        bool data_again = chance("data_again", 0.4) || kind == K_NN; // (no fit of its own: options come before the data)
        for (auto &a : old) // what the used handle was told earlier and still keeps
            if (&a != &last && (kind == K_NLLS || kind == K_SPLINE || kind == K_NN || kind == K_KMEANS))
                for (auto &s : a.steps)
                    if (s.stage == 1 && !uses(last, s.name.c_str()))
                        return probe("optional_left");
        std::string at;
        da_status sf = train(f.h, last, &at, 1, 2);
        da_status sh = train(h.h, last, &at, data_again ? 1 : 2, 2);
        if (sh == da_status_success && sf != da_status_success)
            failf("options:accepted", "%s: refit after an option change succeeded, a new handle refuses the same options and data "
                                      "(%d at %s: %s)", last.kind.c_str(), (int)sf, at.c_str(), errmsg(f.h).c_str());
        if (data_again && sh != sf)
            failf("options:status", "%s: used handle %d, new handle %d at %s: %s", last.kind.c_str(), (int)sh, (int)sf, at.c_str(),
                  errmsg(h.h).c_str());
        if (sh == da_status_success) {
            std::vector<Out> x, y;
            ask(last, f.h, x);
            ask(last, h.h, y);
            compare(last, x, y, "options");
            compare_results(last, results(f.h, last), results(h.h, last), "options");
            probe("options_only");
        } else
            probe("options_only_refused");
        return;
    }
    if (optional_left && keeps)
        return probe("optional_left"); // bounds, labels, boundary values stay as given: documented
    // ---- new data and options --------------------------------------------------
    Quiet q;
    std::string ah, af;
    // earlier data may bound an option (n_components); with the new data it is accepted
    std::vector<const Step *> again;
    for (auto &s : m.steps)
        if (s.stage == 0) {
            da_status a = s.f(h.h), b = s.f(f.h);
            if (a == da_status_option_invalid_value && b == da_status_success)
                again.push_back(&s);
            else if (a != b)
                failf("option:status", "%s: used handle %d, new handle %d", s.name.c_str(), (int)a, (int)b);
        }
    // data; some of it given to a used handle may be refused (documented), never ignored
    da_status so = train(h.h, m, &ah, 1, 1), sf = train(f.h, m, &af, 1, 1);
    if (so != sf)
        failf("data:status", "%s: data: used handle %d at %s (%s), new handle %d at %s", m.kind.c_str(), (int)so, ah.c_str(),
              errmsg(h.h).c_str(), (int)sf, af.c_str());
    if (so != da_status_success)
        return probe("data_refused");
    for (auto s : again) {
        probe("option_bounded_by_old_data");
        if (s->f(h.h) != da_status_success)
            failf("option:bound", "%s is refused after the new data was set (%s)", s->name.c_str(), errmsg(h.h).c_str());
    }
    if (chance("ask_before_fit", 0.5)) {
        // nothing computed for this data yet: whatever a new handle refuses,
        // the used one must not answer from its earlier model
        std::vector<Out> x, y;
        ask(m, f.h, x);
        ask(m, h.h, y);
        compare(m, x, y, "stale");
        compare_results(m, results(f.h, m), results(h.h, m), "stale");
        probe("asked_before_fit");
    }
    so = train(h.h, m, &ah, 2, 2);
    sf = train(f.h, m, &af, 2, 2);
    if (so != sf)
        failf("fit:status", "%s: fit: used handle %d at %s (%s), new handle %d at %s (%s)", m.kind.c_str(), (int)so, ah.c_str(),
              errmsg(h.h).c_str(), (int)sf, af.c_str(), errmsg(f.h).c_str());
    std::vector<Out> x, y;
    bool results_first = chance("results_first", 0.5);
    if (results_first)
        compare_results(m, results(f.h, m), results(h.h, m), "fit");
    ask(m, f.h, x);
    ask(m, h.h, y);
    compare(m, x, y, so == da_status_success ? "fit" : "failed_fit");
    if (!results_first)
        compare_results(m, results(f.h, m), results(h.h, m), "fit");
    probe(so == da_status_success ? "compared" : "compared_failed_fit");
    for (auto &o : x)
        hash_vec(o);
    // once more: the same fit on the same handle, and the queries in another order
    if (so == da_status_success && kind != K_ANN && chance("refit", 0.4)) {
        da_status s2 = train(h.h, m, &ah, chance("refit_data", 0.5) ? 1 : 2, 2);
        if (s2 != da_status_success)
            return probe("refit_refused");
        y.assign(m.queries.size(), Out());
        for (size_t i = m.queries.size(); i-- > 0;)
            m.queries[i].f(h.h, y[i]);
        compare(m, x, y, "refit");
        probe("refit");
    }
}
#define S(n, k) static void n() { go(k); }
S(linmod, K_LINMOD) S(pca, K_PCA) S(kpca, K_KPCA) S(kmeans, K_KMEANS) S(tree, K_TREE) S(forest, K_FOREST) S(nn, K_NN)
S(ann, K_ANN) S(svm, K_SVM) S(dbscan, K_DBSCAN) S(tsne, K_TSNE) S(nlls, K_NLLS)
sim::Scenario sim_scenarios[] = {{"linmod", linmod, 4}, {"pca", pca, 3},   {"kernel_pca", kpca, 3}, {"kmeans", kmeans, 3},
                                 {"tree", tree, 3},     {"forest", forest, 3}, {"nn", nn, 3},          {"approx_nn", ann, 3},
                                 {"svm", svm, 3},       {"dbscan", dbscan, 2},  {"tsne", tsne, 2},
                                 {"nlls", nlls, 2},     {nullptr, nullptr, 0}};
