// C08: application threads working on their own handles and stores at the same time do not affect each other.
// modules: all
#include "zoo.hpp"
#include <cstring>
const char *sim_property = "C08";
const char *sim_rule = "a run counts when two to four application threads made their calls on their own handles under one interleaving and "
                       "every status, error message, option and result was compared with that of the thread run alone; distinct = "
                       "distinct event hashes";
const char *sim_real_components = "every model, datastore, CSV reader, options and error stack of the library: all real code from /repo";
const char *sim_stub_components = "application threads (fibers with their own TLS and OpenMP settings), OpenMP runtime, pthread locks, "
                                  "allocator, files (simulated); BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}
using namespace zoo;
typedef std::vector<std::string> Log;
static std::string num(double v) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static void put(Log &l, const std::string &what, const Out &o) {
    std::string s = what + ":";
    for (double v : o)
        s += " " + num(v);
    l.push_back(s);
}
// the message of the handle; source line numbers and all
static void status(Log &l, const std::string &what, da_handle h, da_status st) {
    l.push_back(what + " status " + std::to_string((int)st) + (st == da_status_success ? std::string() : " " + errmsg(h)));
}
// ---- an application with a model -------------------------------------------------
struct App {
    std::string name;
    std::function<void(Log &)> run;
    bool judged = true; // bitwise: sums of a team may be taken in another order
};
static App model_app(int id, bool any_team) {
    auto m = std::make_shared<ModelBase>(
        draw({K_LINMOD, K_PCA, K_KPCA, K_KMEANS, K_DBSCAN, K_TREE, K_FOREST, K_NN, K_ANN, K_SVM, K_TSNE, K_NLLS, K_SPLINE}));
    bool trees = m->type == da_handle_decision_tree || m->type == da_handle_decision_forest;
    int threads = any_team ? (int)pick("app_threads", 1, 3) : 1;
    int wrong = (int)pick("wrong_calls", 0, 7), again = (int)pick("fits", 1, 2);
    App a;
    a.name = m->kind + " (" + describe(*m) + ")";
    a.judged = threads == 1 || m->type == da_handle_decision_tree;
    a.run = [=](Log &l) {
        sim::set_threads(threads);
        Handle h;
        da_status st = init(h, *m);
        l.push_back("init status " + std::to_string((int)st));
        if (st != da_status_success)
            return;
        if (wrong & 1) {
            sim::Api a("da_options_set");
            st = da_options_set_int(h.h, ("no such option " + std::to_string(id)).c_str(), id);
            status(l, "wrong option", h.h, st);
        }
        if (wrong & 2) {
            Out o;
            o.push_back(0);
            if (!m->queries.empty())
                m->queries[0].f(h.h, o);
            put(l, "query before the fit", o);
            l.push_back(errmsg(h.h));
        }
        for (int k = 0; k < again; k++) {
            std::string at;
            st = train(h.h, *m, &at, 0, 0);
            if (st == da_status_success && m->type == da_handle_svm) // the longest fits take all the steps of a run
                st = api("max_iter", [&] { return da_options_set_int(h.h, "max_iter", 15); });
            if (st == da_status_success)
                st = train(h.h, *m, &at, 1, 2);
            status(l, "train " + at, h.h, st);
            if (st != da_status_success)
                return;
            put(l, "results", results(h.h, *m, !(trees)));
            for (auto &q : m->queries) {
                Out o;
                q.f(h.h, o);
                put(l, q.name, o);
            }
        }
        if (wrong & 4) {
            sim::Api a("da_handle_get_result");
            da_int dim = 0;
            double r;
            st = da_handle_get_result(h.h, (da_result)99999, &dim, &r);
            status(l, "wrong result", h.h, st);
        }
    };
    return a;
}
// ---- an application with datastores and CSV files ---------------------------------
static App store_app(int id) {
    da_int nr = (da_int)pick("rows", 1, 12), nc = (da_int)pick("cols", 1, 4);
    bool bad = chance("bad_file", 0.25), strings = chance("strings", 0.4), missing = chance("missing_file", 0.1), semi = chance("semicolon", 0.4);
    auto r = std::make_shared<sim::Rng>("store");
    std::string text;
    for (da_int i = 0; i < nr; i++)
        for (da_int j = 0; j < nc; j++) {
            std::string c = strings && j == 0 ? "s" + std::to_string(r->below(5)) : std::to_string(r->range(-50, 50)) + (j % 2 ? ".5" : "");
            if (bad && i == nr - 1 && j == nc - 1)
                c = "1x2";
            text += c + (j + 1 < nc ? (semi ? ";" : ",") : "\n");
        }
    std::string file = sim::scratch(("app" + std::to_string(id) + ".csv").c_str());
    {
        FILE *f = fopen(file.c_str(), "w");
        fwrite(text.data(), 1, text.size(), f);
        fclose(f);
    }
    std::string path = missing ? file + ".none" : file;
    App a;
    a.name = "store";
    a.run = [=](Log &l) {
        da_datastore s = nullptr;
        auto api = [&](const char *what, auto f) {
            da_status st;
            {
                sim::Api a(what);
                st = f();
            }
            l.push_back(std::string(what) + " status " + std::to_string((int)st));
            return st;
        };
        api("da_datastore_init", [&] { return da_datastore_init(&s); });
        api("delimiter", [&] { return da_datastore_options_set_string(s, "delimiter", semi ? ";" : ","); });
        if (api("da_data_load_from_csv", [&] { return da_data_load_from_csv(s, path.c_str()); }) == da_status_success) {
            da_int n = -1, d = -1;
            api("rows", [&] { return da_data_get_n_rows(s, &n); });
            api("cols", [&] { return da_data_get_n_cols(s, &d); });
            l.push_back(std::to_string(n) + "x" + std::to_string(d));
            api("select", [&] { return da_data_select_slice(s, "half", 0, (n - 1) / 2, strings && d > 1 ? 1 : 0, d - 1); });
            Buf<double> x(std::max<da_int>(1, n * d));
            for (da_int i = 0; i < n * d; i++)
                x[i] = -7;
            api("extract", [&] { return da_data_extract_selection<double>(s, "half", column_major, x.p, n); });
            Out o(x.p, x.p + n * d);
            put(l, "selection", o);
            Buf<da_int> col(std::max<da_int>(1, n));
            for (da_int i = 0; i < n; i++)
                col[i] = -7;
            api("column", [&] { return da_data_extract_column<da_int>(s, 0, n, col.p); });
            put(l, "column", Out(col.p, col.p + n));
            api("wrong column", [&] { return da_data_extract_column<da_int>(s, d + id, n, col.p); });
        }
        sim::Api a("da_datastore_destroy");
        da_datastore_destroy(&s);
    };
    return a;
}
// ---- an application with handle-free calls ----------------------------------------
template <typename T> static App plain_app(int id) {
    da_int n = (da_int)pick("pn", 2, 20), d = (da_int)pick("pd", 1, 5);
    sim::Rng r("plain");
    auto X = std::make_shared<Mat<T>>(n, d, column_major, 0);
    auto Y = std::make_shared<Buf<da_int>>(n);
    for (da_int i = 0; i < n; i++) {
        for (da_int j = 0; j < d; j++)
            (*X)(i, j) = (T)r.normal();
        (*Y)[i] = (da_int)r.below(3);
    }
    X->input(), Y->input();
    da_int seed = (da_int)r.below(1000);
    App a;
    a.name = "plain";
    a.run = [=](Log &l) {
        Buf<T> o(n * n), q(d * 5);
        auto note = [&](const char *what, da_status st, const T *p, da_int k) {
            l.push_back(std::string(what) + " status " + std::to_string((int)st));
            put(l, what, Out(p, p + k));
        };
        auto clear = [&](Buf<T> &b, da_int k) {
            for (da_int i = 0; i < k; i++)
                b[i] = (T)-3;
        };
        clear(o, n * n), clear(q, d * 5);
        da_status st;
        {
            sim::Api a("da_pairwise_distances");
            st = da_pairwise_distances<T>(column_major, n, n, d, X->p(), X->ld, nullptr, 0, o.p, n, (T)2, da_euclidean);
        }
        note("pairwise", st, o.p, n * n);
        {
            sim::Api a("da_rbf_kernel");
            st = da_rbf_kernel<T>(column_major, n, n, d, X->p(), X->ld, nullptr, 0, o.p, n, (T)0.5);
        }
        note("rbf", st, o.p, n * n);
        {
            sim::Api a("da_five_point_summary");
            st = da_five_point_summary<T>(column_major, da_axis_col, n, d, X->p(), X->ld, q.p, q.p + d, q.p + 2 * d, q.p + 3 * d, q.p + 4 * d);
        }
        note("five points", st, q.p, 5 * d);
        {
            sim::Api a("da_mean");
            st = da_mean<T>(column_major, da_axis_col, n, d, X->p(), n - 1, q.p); // refused: leading dimension
        }
        note("refused", st, q.p, d);
        Buf<da_int> idx(n);
        for (da_int i = 0; i < n; i++)
            idx[i] = -1;
        {
            sim::Api a("da_get_shuffled_indices");
            st = da_get_shuffled_indices<da_int>(n, seed, n / 2, n - n / 2, 0, nullptr, idx.p);
        }
        l.push_back("shuffle status " + std::to_string((int)st));
        put(l, "shuffle", Out(idx.p, idx.p + n));
    };
    (void)id;
    return a;
}
static void apps() {
    Env env;
    int k = (int)pick("apps", 2, 4);
    bool any_team = chance("teams", 0.3);
    std::vector<App> as;
    for (int i = 0; i < k; i++) {
        int w = (int)pick("app_kind", 0, 9);
        as.push_back(w < 7 ? model_app(i, any_team) : w == 7 ? plain_app<double>(i) : w == 8 ? plain_app<float>(i) : store_app(i));
    }
    std::vector<Log> alone(k), with(k), after(k);
    auto run_alone = [&](int i, Log &l) {
        sim::random_schedule(false);
        sim::spawn([&] { as[i].run(l); });
        sim::join_all();
        sim::random_schedule(true);
    };
    for (int i = 0; i < k; i++)
        run_alone(i, alone[i]);
    for (int i = 0; i < k; i++)
        sim::spawn([&, i] { as[i].run(with[i]); });
    sim::join_all();
    auto compare = [&](const Log &a, const Log &b, int i, const char *key, const char *when) {
        std::string others;
        for (int j = 0; j < k; j++)
            if (j != i)
                others += " " + as[j].name.substr(0, 120);
        if (a.size() != b.size())
            failf(key, "%s: %d steps alone, %d %s (last: %.200s); others:%s", as[i].name.c_str(), (int)a.size(), (int)b.size(), when,
                  b.empty() ? "" : b.back().c_str(), others.c_str());
        for (size_t s = 0; s < a.size(); s++)
            if (a[s] != b[s]) {
                size_t p = 0;
                while (p < a[s].size() && p < b[s].size() && a[s][p] == b[s][p])
                    p++;
                p = p > 30 ? p - 30 : 0;
                failf(key, "%s: step %d is [%.40s...%.100s] alone, [%.100s] %s; others:%s", as[i].name.c_str(), (int)s, a[s].c_str(),
                      a[s].substr(p).c_str(), b[s].substr(p).c_str(), when, others.c_str());
            }
    };
    for (int i = 0; i < k; i++) {
        for (auto &s : with[i])
            sim::hash_mix(sim::hash_str(s.c_str()));
        if (as[i].judged)
            compare(alone[i], with[i], i, "apps:differ", "with the others");
        else
            for (size_t s = 0; s < alone[i].size() && s < with[i].size(); s++)
                if (alone[i][s].find(" status ") != std::string::npos && alone[i][s] != with[i][s])
                    failf("apps:status", "%s: [%.150s] alone, [%.150s] with the others", as[i].name.c_str(), alone[i][s].c_str(), with[i][s].c_str());
    }
    // nothing of what happened stays behind
    int i = (int)pick("after", 0, k - 1);
    run_alone(i, after[i]);
    compare(alone[i], after[i], i, "apps:after", "after the others");
    for (auto &a : as)
        probe(a.name.substr(0, a.name.find(' ')).c_str());
    sim::state((sim::u64)k * 1000 + sim::hash_str(as[0].name.substr(0, 4).c_str()) % 100);
}
sim::Scenario sim_scenarios[] = {{"apps", apps, 1}, {nullptr, nullptr, 0}};
