// C14: option and handle calls against a small state machine.
// modules: all
#include "zoo.hpp"
const char *sim_property = "C14";
const char *sim_rule = "a run counts when a drawn history of handle and option calls, valid and invalid, was followed call by call by the "
                       "documented option tables and call protocol (status, values read back, results untouched by refused calls); "
                       "distinct = distinct event hashes";
const char *sim_real_components = "handles of every type, option registries, handle dispatch, result queries, datastore options: real code from /repo";
const char *sim_stub_components = "OpenMP runtime, threads, allocator, std::random_device (simulated); BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}
using namespace zoo;

struct Row {
    const char *kind, *name;
    char type;
    bool known;
    const char *sdef;
    double ndef;
    std::vector<const char *> labels;
    double lo;
    int lt;
    double hi;
    int ht;
};
static const std::vector<Row> &table() {
    static const std::vector<Row> t = {
#include "options_table.inc"
    };
    return t;
}
static const char *const doc_names[] = {"linmod", "pca", "kernel_pca", "kmeans", "dbscan", "decision_tree", "decision_forest", "nn",
                                        "approx_nn", "svm", "interpolation", "tsne", "nlls"};
static std::vector<const Row *> rows_of(const char *kind) {
    std::vector<const Row *> v;
    for (auto &r : table())
        if (!strcmp(r.kind, kind))
            v.push_back(&r);
    return v;
}
// What the option calls go to: a handle or a datastore
template <typename T> struct Target {
    da_handle h = nullptr;
    da_datastore s = nullptr;
    da_status set_i(const char *n, da_int v) { sim::Api a("set_int"); return h ? da_options_set_int(h, n, v) : da_datastore_options_set_int(s, n, v); }
    da_status set_s(const char *n, const char *v) { sim::Api a("set_string"); return h ? da_options_set_string(h, n, v) : da_datastore_options_set_string(s, n, v); }
    template <typename R> da_status set_r(const char *n, R v) {
        sim::Api a("set_real");
        if constexpr (sizeof(R) == 8)
            return h ? da_options_set_real_d(h, n, v) : da_datastore_options_set_real_d(s, n, v);
        else
            return h ? da_options_set_real_s(h, n, v) : da_datastore_options_set_real_s(s, n, v);
    }
    da_status get_i(const char *n, da_int *v) { sim::Api a("get_int"); return h ? da_options_get_int(h, n, v) : da_datastore_options_get_int(s, n, v); }
    template <typename R> da_status get_r(const char *n, R *v) {
        sim::Api a("get_real");
        if constexpr (sizeof(R) == 8)
            return h ? da_options_get_real_d(h, n, v) : da_datastore_options_get_real_d(s, n, v);
        else
            return h ? da_options_get_real_s(h, n, v) : da_datastore_options_get_real_s(s, n, v);
    }
    da_status get_s(const char *n, char *v, da_int *l, da_int *key) {
        sim::Api a("get_string");
        if (h)
            return key ? da_options_get_string_key(h, n, v, l, key) : da_options_get_string(h, n, v, l);
        return da_datastore_options_get_string(s, n, v, *l);
    }
};
struct Value {
    bool known = true;
    double num = 0;
    std::string str;
};
// another way of writing a name or label: case and blanks do not count
static std::string spell(const char *what, const std::string &s) {
    if (!chance(what, 0.4))
        return s;
    sim::Rng r(what);
    std::string o(r.below(3), ' ');
    for (char c : s) {
        if (c == ' ') {
            o += r.below(3) ? " " : "\t";
            if (r.below(3) == 0)
                o += "  ";
        } else
            o += r.below(2) ? (char)toupper(c) : c;
    }
    return o + std::string(r.below(3), ' ');
}
static const da_int BIG = std::numeric_limits<da_int>::max();
// Every option reads back as the model says
template <typename T> static void all_as_expected(Target<T> &t, const std::vector<const Row *> &rows, std::vector<Value> &m, const char *after) {
    for (size_t k = 0; k < rows.size(); k++) {
        const Row &r = *rows[k];
        if (r.type == 'i') {
            da_int v = -77;
            da_status st = t.get_i(r.name, &v);
            if (st != da_status_success)
                failf("option:get", "%s: integer option '%s' cannot be read: status %d (after %s)", r.kind, r.name, (int)st, after);
            if (m[k].known && v != (da_int)m[k].num)
                failf("option:value", "%s: option '%s' is %lld, should be %lld (after %s)", r.kind, r.name, (long long)v, (long long)m[k].num, after);
            m[k].num = (double)v, m[k].known = true;
        } else if (r.type == 'r') {
            T v = -77;
            da_status st = t.template get_r<T>(r.name, &v);
            if (st != da_status_success)
                failf("option:get", "%s: real option '%s' cannot be read: status %d (after %s)", r.kind, r.name, (int)st, after);
            if (m[k].known && !((T)m[k].num == v))
                failf("option:value", "%s: option '%s' is %.17g, should be %.17g (after %s)", r.kind, r.name, (double)v, m[k].num, after);
            m[k].num = v, m[k].known = true;
        } else {
            char buf[100];
            memset(buf, '#', sizeof buf);
            da_int l = sizeof buf;
            da_int key = -5;
            da_status st = t.get_s(r.name, buf, &l, chance("with_key", 0.3) ? &key : nullptr);
            if (st != da_status_success)
                failf("option:get", "%s: string option '%s' cannot be read: status %d (after %s)", r.kind, r.name, (int)st, after);
            if (m[k].known && m[k].str != buf)
                failf("option:value", "%s: option '%s' is '%s', should be '%s' (after %s)", r.kind, r.name, buf, m[k].str.c_str(), after);
            m[k].str = buf, m[k].known = true;
        }
    }
}
template <typename T> static bool valid_int(const Row &r, i64 v) {
    return !(r.lt == 1 && v <= r.lo) && !(r.lt == 2 && v < r.lo) && !(r.ht == 1 && v >= r.hi) && !(r.ht == 2 && v > r.hi);
}
template <typename T> static bool valid_real(const Row &r, T v) {
    if (v != v)
        return !r.lt && !r.ht; // a NaN lies within no bounds
    return !(r.lt == 1 && v <= (T)r.lo) && !(r.lt == 2 && v < (T)r.lo) && !(r.ht == 1 && v >= (T)r.hi) && !(r.ht == 2 && v > (T)r.hi);
}
static void expect(const char *key, const Row *r, const char *what, da_status got, std::initializer_list<da_status> ok) {
    for (auto s : ok)
        if (s == got)
            return;
    failf(key, "%s '%s': %s gave status %d", r ? r->kind : "?", r ? r->name : "?", what, (int)got);
}
// One option call, valid or not. Returns what was done, for messages.
template <typename T> static std::string option_call(Target<T> &t, const char *kind, const std::vector<const Row *> &rows, std::vector<Value> *m, bool only_refused) {
    const Row *r = rows[pick("opt", 0, (i64)rows.size() - 1)];
    size_t k = 0;
    while (rows[k] != r)
        k++;
    bool handle = t.h != nullptr;
    char what[200];
    auto bad = {da_status_option_invalid_value, da_status_option_invalid_bounds};
    switch (pick("how", only_refused ? 1 : 0, 6)) {
    case 0: // a value that is accepted, or one next to the bounds
    case 1: {
        std::string name = spell("name_as", r->name);
        if (r->type == 'i') {
            std::vector<i64> c = {(i64)pick("v", -3, 70), BIG, 0, 1};
            if (r->lt)
                for (int e = -2; e <= 2; e++)
                    c.push_back((i64)r->lo + e);
            if (r->ht)
                for (int e = -2; e <= 2; e++)
                    c.push_back((i64)r->hi + e);
            c.push_back(-(i64)BIG - 1);
            i64 v = c[pick("which_v", 0, (i64)c.size() - 1)];
            bool ok = valid_int<T>(*r, v);
            if (only_refused && ok)
                return "";
            snprintf(what, sizeof what, "set '%s' = %lld", name.c_str(), (long long)v);
            da_status st = t.set_i(name.c_str(), (da_int)v);
            if (ok && st != da_status_success)
                failf("option:refused", "%s: documented value refused: %s gave status %d", kind, what, (int)st);
            if (!ok)
                expect("option:accepted", r, what, st, bad);
            if (ok && m)
                (*m)[k].num = (double)v, (*m)[k].known = true;
        } else if (r->type == 'r') {
            std::vector<T> c = {(T)((double)pick("v", -30, 70) / 10), (T)1e30, (T)1e-30, (T)0, std::numeric_limits<T>::quiet_NaN()};
            auto near = [&](double b) {
                c.push_back((T)b);
                c.push_back(std::nextafter((T)b, (T)-INFINITY));
                c.push_back(std::nextafter((T)b, (T)INFINITY));
                c.push_back((T)(b + 0.5));
                c.push_back((T)(b - 0.5));
            };
            if (r->lt)
                near(r->lo);
            if (r->ht)
                near(r->hi);
            T v = c[pick("which_v", 0, (i64)c.size() - 1)];
            bool ok = valid_real<T>(*r, v);
            if (v != v && ok) // nothing is documented about NaN without bounds
                return "";
            if (only_refused && ok)
                return "";
            snprintf(what, sizeof what, "set '%s' = %.17g", name.c_str(), (double)v);
            da_status st = t.template set_r<T>(name.c_str(), v);
            if (ok && st != da_status_success)
                failf("option:refused", "%s: documented value refused: %s gave status %d", kind, what, (int)st);
            if (!ok)
                expect("option:accepted", r, what, st, bad);
            if (ok && m)
                (*m)[k].num = v, (*m)[k].known = true;
        } else if (r->labels.empty()) {
            if (only_refused)
                return "";
            std::string v = sim::one_of<const char *>("free_value", {";", "x", "abc", ""});
            snprintf(what, sizeof what, "set '%s' = '%s'", name.c_str(), v.c_str());
            da_status st = t.set_s(name.c_str(), v.c_str());
            if (st != da_status_success)
                failf("option:refused", "%s: %s gave status %d", kind, what, (int)st);
            if (m)
                (*m)[k].str = v, (*m)[k].known = true;
        } else {
            size_t n = r->labels.size();
            size_t i = pick("label", 0, (i64)n + (only_refused ? 3 : 1));
            std::string lab = i < n ? r->labels[i] : "";
            std::string v = i < n ? spell("label_as", lab) : i == n ? std::string("no such label") : i == n + 1 ? std::string("") : std::string(r->labels[0]) + "x";
            if (only_refused && i < n)
                return "";
            snprintf(what, sizeof what, "set '%s' = '%s'", name.c_str(), v.c_str());
            da_status st = t.set_s(name.c_str(), v.c_str());
            if (i < n) {
                if (st != da_status_success)
                    failf("option:refused", "%s: documented value refused: %s gave status %d", kind, what, (int)st);
                if (m)
                    (*m)[k].str = lab, (*m)[k].known = true;
            } else
                expect("option:accepted", r, what, st, bad);
        }
        return what;
    }
    case 2: { // wrong type
        snprintf(what, sizeof what, "setting %c option with another type", r->type);
        da_status st = r->type == 'i' ? (chance("as_string", 0.5) ? t.set_s(r->name, "1") : t.template set_r<T>(r->name, (T)1))
                       : r->type == 'r' ? (chance("as_string", 0.5) ? t.set_s(r->name, "1") : t.set_i(r->name, 1))
                                        : (chance("as_real", 0.5) ? t.template set_r<T>(r->name, (T)1) : t.set_i(r->name, 1));
        expect("option:type", r, what, st, {da_status_option_wrong_type});
        return what;
    }
    case 3: { // other precision
        if (!handle)
            return "";
        typedef std::conditional_t<sizeof(T) == 8, float, double> O;
        O v = 1;
        da_status st = chance("get", 0.3) ? t.template get_r<O>(r->name, &v) : t.template set_r<O>(r->name, (O)1);
        expect("option:precision", r, "real option call of the other precision", st, {da_status_wrong_type});
        return "real of the other precision";
    }
    case 4: { // unknown names
        const char *n = sim::one_of<const char *>("unknown", {"no such option", "", "   ", "alphabeta", "check", "storage order x"});
        da_int iv = -9, l = 50;
        T tv = -9;
        char buf[50] = "untouched";
        da_status st;
        switch (pick("unknown_call", 0, 5)) {
        case 0: st = t.set_i(n, 1); break;
        case 1: st = t.set_s(n, "yes"); break;
        case 2: st = t.template set_r<T>(n, (T)1); break;
        case 3: st = t.get_i(n, &iv); break;
        case 4: st = t.template get_r<T>(n, &tv); break;
        default: st = t.get_s(n, buf, &l, nullptr);
        }
        expect("option:unknown", r, "a call with an unknown name", st, {da_status_option_not_found});
        if (iv != -9 || tv != -9 || strcmp(buf, "untouched"))
            failf("option:unknown_output", "%s: a refused get wrote its output", kind);
        return std::string("unknown name ") + n;
    }
    case 5: { // reading with another type
        da_int iv = -9, l = 50;
        T tv = -9;
        char buf[50] = "untouched";
        da_status st = r->type == 'i' ? (chance("as_string", 0.5) ? t.get_s(r->name, buf, &l, nullptr) : t.template get_r<T>(r->name, &tv))
                       : r->type == 'r' ? (chance("as_string", 0.5) ? t.get_s(r->name, buf, &l, nullptr) : t.get_i(r->name, &iv))
                                        : (chance("as_real", 0.5) ? t.template get_r<T>(r->name, &tv) : t.get_i(r->name, &iv));
        expect("option:type", r, "reading with another type", st, {da_status_option_wrong_type});
        if (iv != -9 || tv != -9 || strcmp(buf, "untouched"))
            failf("option:type_output", "%s: a refused get wrote its output", kind);
        return "get of another type";
    }
    default: { // the room given for a string
        if (r->type != 's' || !m)
            return "";
        da_int need = (da_int)(*m)[k].str.size() + 1;
        if (!(*m)[k].known)
            return "";
        da_int l = (da_int)(need + pick("room", -2, 2));
        if (chance("no_room", 0.2))
            l = (da_int)sim::one_of<i64>("tiny", {0, -1, -5, -1000});
        Buf<char> b(l > 0 ? l : 1);
        for (size_t i = 0; i < b.n; i++)
            b[i] = '#';
        da_int given = l, key = -5;
        da_status st = t.get_s(spell("name_as", r->name).c_str(), b.p, &l, handle && chance("with_key", 0.3) ? &key : nullptr);
        if (given >= need) {
            if (st != da_status_success || (*m)[k].str != b.p)
                failf("option:get_string", "%s: option '%s' with room for %d: status %d", kind, r->name, (int)given, (int)st);
        } else {
            expect("option:short", r, "reading a string into too little room", st, {da_status_invalid_input});
            for (size_t i = 0; i < b.n; i++)
                if (b[i] != '#')
                    failf("option:short_output", "%s: option '%s': a refused get wrote into the buffer", kind, r->name);
            if (handle && l != need)
                failf("option:short_size", "%s: option '%s': room %d refused, size reported %d, needed %d", kind, r->name, (int)given, (int)l, (int)need);
        }
        return "get with little room";
    }
    }
}
template <typename T> static void options_on(Target<T> &t, const char *kind) {
    auto rows = rows_of(kind);
    std::vector<Value> m(rows.size());
    for (size_t k = 0; k < rows.size(); k++)
        m[k] = {rows[k]->known, rows[k]->ndef, rows[k]->sdef};
    all_as_expected(t, rows, m, "creation");
    int n = (int)pick("calls", 1, sim::one_of<i64>("calls_max", {6, 20}));
    std::string what;
    for (int i = 0; i < n; i++) {
        what = option_call(t, kind, rows, &m, false);
        if (getenv("SIM_VERBOSE"))
            fprintf(stderr, "%s: %s\n", kind, what.c_str());
        if (what.size() && (i == n - 1 || chance("check_all", 0.3)))
            all_as_expected(t, rows, m, what.c_str());
        if (t.h && chance("refresh", 0.05)) {
            {
                sim::Api a("da_handle_refresh");
                da_handle_refresh(t.h);
            }
            all_as_expected(t, rows, m, "refresh");
        }
    }
}
template <typename T> static void options_t() {
    if (chance("store", 0.12)) {
        Target<T> t;
        {
            sim::Api a("da_datastore_init");
            OK("da_datastore_init", da_datastore_init(&t.s));
        }
        options_on(t, "datastore");
        sim::Api a("da_datastore_destroy");
        da_datastore_destroy(&t.s);
        return;
    }
    int kind = (int)pick("kind", 0, K_COUNT - 1);
    Handle h;
    hinit<T>(h, kind_types[kind]);
    Target<T> t;
    t.h = h.h;
    options_on(t, doc_names[kind]);
}
static void options_any() { chance("single", 0.5) ? options_t<float>() : options_t<double>(); }

// ---- calls on the wrong handle ----------------------------------------------------
struct Args { // arguments of the right shape for any function: 4 by 4 matrices in large arrays
    std::vector<std::shared_ptr<Buf<char>>> out;
    std::vector<std::shared_ptr<Buf<double>>> in;
};
static Args *args;
template <typename A> A make_arg() {
    if constexpr (std::is_same_v<A, da_int>)
        return 4;
    else if constexpr (std::is_pointer_v<A>) {
        typedef std::remove_pointer_t<A> P;
        if constexpr (std::is_function_v<P> || std::is_same_v<P, void>)
            return nullptr;
        else if constexpr (std::is_const_v<P>) {
            auto b = std::make_shared<Buf<double>>(64);
            for (size_t i = 0; i < 64; i++)
                (*b)[i] = 0;
            b->input();
            args->in.push_back(b);
            return (A)b->p;
        } else {
            auto b = std::make_shared<Buf<char>>(512);
            memset(b->p, 0x5a, 512);
            args->out.push_back(b);
            return (A)b->p;
        }
    } else
        return A(0);
}
template <typename... A> static da_status call(da_status (*f)(da_handle, A...), da_handle h) { return f(h, make_arg<A>()...); }
struct Fn {
    const char *name;
    int kind;
    bool needs; // needs data or a fitted model
    std::function<da_status(da_handle, bool dbl)> f;
};
#define F_(kind, needs, name) \
    {#name, kind, needs, [](da_handle h, bool dbl) { return dbl ? call(name##_d, h) : call(name##_s, h); }}
static const std::vector<Fn> &functions() {
    static const std::vector<Fn> v = {
        F_(K_LINMOD, false, da_linmod_select_model), F_(K_LINMOD, false, da_linmod_define_features), F_(K_LINMOD, true, da_linmod_fit),
        F_(K_LINMOD, true, da_linmod_fit_start), F_(K_LINMOD, true, da_linmod_evaluate_model), F_(K_PCA, false, da_pca_set_data),
        F_(K_PCA, true, da_pca_compute), F_(K_PCA, true, da_pca_transform), F_(K_PCA, true, da_pca_inverse_transform),
        F_(K_KPCA, false, da_kernel_pca_set_data), F_(K_KPCA, true, da_kernel_pca_compute), F_(K_KPCA, true, da_kernel_pca_transform),
        F_(K_KPCA, true, da_kernel_pca_inverse_transform), F_(K_TSNE, false, da_tsne_set_data), F_(K_TSNE, true, da_tsne_set_init_embedding),
        F_(K_TSNE, true, da_tsne_compute), F_(K_KMEANS, false, da_kmeans_set_data), F_(K_KMEANS, true, da_kmeans_set_init_centres),
        F_(K_KMEANS, true, da_kmeans_compute), F_(K_KMEANS, true, da_kmeans_transform), F_(K_KMEANS, true, da_kmeans_predict),
        F_(K_DBSCAN, false, da_dbscan_set_data), F_(K_DBSCAN, true, da_dbscan_compute), F_(K_TREE, false, da_tree_set_training_data),
        F_(K_FOREST, false, da_forest_set_training_data), F_(K_TREE, true, da_tree_fit), F_(K_FOREST, true, da_forest_fit),
        F_(K_TREE, true, da_tree_predict), F_(K_TREE, true, da_tree_predict_proba), F_(K_TREE, true, da_tree_predict_log_proba),
        F_(K_FOREST, true, da_forest_predict), F_(K_FOREST, true, da_forest_predict_proba), F_(K_FOREST, true, da_forest_predict_log_proba),
        F_(K_TREE, true, da_tree_score), F_(K_FOREST, true, da_forest_score), F_(K_NLLS, false, da_nlls_define_residuals),
        F_(K_NLLS, false, da_nlls_define_bounds), F_(K_NLLS, false, da_nlls_define_weights), F_(K_NLLS, true, da_nlls_fit),
        F_(K_NN, false, da_nn_set_data), F_(K_NN, false, da_nn_set_labels), F_(K_NN, false, da_nn_set_targets),
        F_(K_NN, true, da_nn_kneighbors), F_(K_NN, true, da_nn_radius_neighbors), F_(K_NN, true, da_nn_classes),
        F_(K_NN, true, da_nn_classifier_predict_proba), F_(K_NN, true, da_nn_classifier_predict), F_(K_NN, true, da_nn_regressor_predict),
        F_(K_SVM, false, da_svm_select_model), F_(K_SVM, false, da_svm_set_data), F_(K_SVM, true, da_svm_compute),
        F_(K_SVM, true, da_svm_predict), F_(K_SVM, true, da_svm_decision_function), F_(K_SVM, true, da_svm_score),
        F_(K_SVM, true, da_svm_predict_proba), F_(K_SVM, true, da_svm_predict_log_proba), F_(K_SPLINE, false, da_interpolation_select_model),
        F_(K_SPLINE, false, da_interpolation_set_sites), F_(K_SPLINE, false, da_interpolation_set_sites_uniform),
        F_(K_SPLINE, true, da_interpolation_set_values), F_(K_SPLINE, true, da_interpolation_search_cells),
        F_(K_SPLINE, true, da_interpolation_interpolate), F_(K_SPLINE, true, da_interpolation_set_boundary_conditions),
        F_(K_SPLINE, true, da_interpolation_evaluate), F_(K_ANN, false, da_approx_nn_set_training_data), F_(K_ANN, true, da_approx_nn_train),
        F_(K_ANN, true, da_approx_nn_add), F_(K_ANN, true, da_approx_nn_train_and_add), F_(K_ANN, true, da_approx_nn_kneighbors)};
    return v;
}
static void nothing_written(const Fn &f, const char *why) {
    for (auto &b : args->out)
        for (size_t i = 0; i < b->n; i++)
            if (b->p[i] != 0x5a)
                failf("misuse:output", "%s on %s wrote to an output although it was refused", f.name, why);
}
// A call that cannot be valid on the handle (h of kind k, precision dbl; fresh: no data given)
static void misuse(da_handle h, int k, bool dbl, bool fresh) {
    auto &fs = functions();
    std::vector<const Fn *> own;
    for (auto &g : fs)
        if (g.kind == k)
            own.push_back(&g);
    bool same_kind = own.size() && chance("own_fn", 0.4);
    const Fn &f = same_kind ? *own[pick("own_fn_which", 0, (i64)own.size() - 1)] : fs[pick("fn", 0, (i64)fs.size() - 1)];
    Args a;
    args = &a;
    int how = (int)pick("misuse", 0, 3);
    da_status st;
    const char *why;
    auto run = [&](da_handle hh, bool d) {
        sim::Api api(f.name);
        st = f.f(hh, d);
    };
    if (!fresh && how >= 2 && f.kind == k)
        return;
    if (how == 0) {
        why = "a null handle";
        run(nullptr, chance("fn_dbl", 0.5));
        if (st != da_status_handle_not_initialized)
            failf("misuse:null", "%s on a null handle: status %d", f.name, (int)st);
    } else if (how == 1) {
        why = "a handle of the other precision";
        run(h, !dbl);
        if (st != da_status_wrong_type)
            failf("misuse:precision", "%s on a handle of the other precision: status %d", f.name, (int)st);
    } else if (f.kind != k) {
        why = "a handle of another type";
        run(h, dbl);
        if (st != da_status_invalid_handle_type && st != da_status_handle_not_initialized)
            failf("misuse:type", "%s on a handle of type %s: status %d", f.name, k < 0 ? "none" : kind_names[k], (int)st);
    } else if (fresh && f.needs) {
        why = "a handle without data";
        run(h, dbl);
        if (st == da_status_success || st == da_status_internal_error || st == da_status_memory_error)
            failf("misuse:fresh", "%s on a handle that was given nothing: status %d: %s", f.name, (int)st, errmsg(h).c_str());
    } else
        return;
    if (getenv("SIM_VERBOSE"))
        fprintf(stderr, "%s on %s: %d %s\n", f.name, why, (int)st, h ? errmsg(h).c_str() : "");
    nothing_written(f, why);
    if (how && errmsg(h).empty())
        failf("misuse:message", "%s on %s: status %d without an error message", f.name, why, (int)st);
}
static Handle *fresh_handle(int k, bool dbl) {
    Handle *h = new Handle;
    if (dbl)
        hinit<double>(*h, k < 0 ? da_handle_uninitialized : kind_types[k]);
    else
        hinit<float>(*h, k < 0 ? da_handle_uninitialized : kind_types[k]);
    return h;
}
template <typename T> static void query_fresh(da_handle h, int k, bool fresh) {
    Buf<T> b(8);
    for (int i = 0; i < 8; i++)
        b[i] = 42;
    da_int dim = (da_int)sim::one_of<i64>("dim", {8, 1, 0, -1});
    auto &r = all_results[pick("query", 0, (i64)(sizeof all_results / sizeof *all_results) - 1)];
    da_status st;
    {
        sim::Api a("da_handle_get_result");
        st = da_handle_get_result(h, (da_result)r.id, &dim, b.p);
    }
    if (!fresh)
        return;
    if (st == da_status_success && r.id != da_rinfo && r.id != da_trained)
        failf("fresh:result", "result %s of a fresh %s handle: success", r.name, k < 0 ? "uninitialised" : kind_names[k]);
    if (st != da_status_success)
        for (int i = 0; i < 8; i++)
            if (b[i] != 42)
                failf("fresh:written", "result %s of a fresh %s handle: status %d but the array was written", r.name, k < 0 ? "uninitialised" : kind_names[k], (int)st);
}
// several handles, created, misused and destroyed in any order
static void handles() {
    struct H {
        Handle *h;
        int k;
        bool dbl;
        bool fresh;
    };
    std::vector<H> hs;
    std::vector<Args> kept; // data given to a handle stays with the caller
    int n = (int)pick("handle_calls", 1, 25);
    for (int i = 0; i < n; i++) {
        i64 what = hs.empty() ? 0 : pick("what", 0, 11);
        if (what == 0) {
            int k = (int)pick("new_kind", -1, K_COUNT - 1);
            bool d = chance("new_dbl", 0.5);
            hs.push_back({fresh_handle(k, d), k, d, true});
            continue;
        }
        size_t j = pick("which", 0, (i64)hs.size() - 1);
        H &x = hs[j];
        if (what == 1) {
            delete x.h;
            hs.erase(hs.begin() + j);
        } else if (what <= 6)
            misuse(x.h->h, x.k, x.dbl, x.fresh);
        else if (what == 7) {
            if (chance("query_int", 0.4))
                query_fresh<da_int>(x.h->h, x.k, x.fresh);
            else if (x.dbl)
                query_fresh<double>(x.h->h, x.k, x.fresh);
            else
                query_fresh<float>(x.h->h, x.k, x.fresh);
        } else if (what >= 10) { // calls of the right type in any order: whatever they answer, they must not crash
            std::vector<const Fn *> own;
            for (auto &g : functions())
                if (g.kind == x.k)
                    own.push_back(&g);
            if (own.empty())
                continue;
            Args a;
            args = &a;
            const Fn &f = *own[pick("any_own", 0, (i64)own.size() - 1)];
            x.fresh = false;
            sim::Api api(f.name);
            da_status st = f.f(x.h->h, x.dbl);
            if (getenv("SIM_VERBOSE"))
                fprintf(stderr, "%s: %d\n", f.name, (int)st);
            kept.push_back(std::move(a));
        } else if (what == 8) {
            sim::Api a("da_handle_refresh");
            da_handle_refresh(x.h->h);
        } else { // odds and ends on null
            da_int v = 0;
            da_handle none = nullptr;
            sim::Api a("null_handle");
            char *msg = nullptr;
            da_severity sev;
            if (da_options_set_int(nullptr, "seed", 1) == da_status_success || da_options_get_int(nullptr, "seed", &v) == da_status_success ||
                da_options_set_string(nullptr, "check data", "yes") == da_status_success || da_options_print(nullptr) == da_status_success ||
                da_handle_get_result_int(nullptr, da_rinfo, &v, &v) == da_status_success || da_handle_get_error_message(nullptr, &msg) == da_status_success ||
                da_handle_get_error_severity(nullptr, &sev) == da_status_success || da_handle_save_model(nullptr, "x") == da_status_success)
                failf("null:accepted", "a call with a null handle succeeded");
            da_handle_destroy(&none);
            da_handle_destroy(nullptr);
            da_handle_refresh(nullptr);
        }
    }
    while (hs.size()) {
        size_t j = pick("last", 0, (i64)hs.size() - 1);
        delete hs[j].h;
        hs.erase(hs.begin() + j);
    }
}
// ---- a fitted handle -----------------------------------------------------------------
template <typename T, typename R> static void query_protocol(da_handle h, const ModelBase &m, int id, const char *name, const char *ty) {
    da_int dim = 0;
    R probe[2] = {41, 41};
    da_status st;
    auto get = [&](da_int *d, R *p) {
        sim::Api a("da_handle_get_result");
        st = da_handle_get_result(h, (da_result)id, d, p);
    };
    get(&dim, probe);
    if (st != da_status_invalid_array_dimension) {
        if (st == da_status_success)
            if (!same((double)probe[0], 41)) failf("result:zero", "%s: result %s (%s) was returned into an array of size 0", m.kind.c_str(), name, ty);
        return;
    }
    da_int need = dim;
    if (need <= 0)
        failf("result:size", "%s: result %s (%s): size refused, needed size reported as %d", m.kind.c_str(), name, ty, (int)need);
    da_int tries[] = {(da_int)(need - 1), need, (da_int)(need + 3), -1, 1, (da_int)pick("try", 0, 60)};
    std::vector<double> first;
    for (da_int t : tries) {
        Buf<R> b(t > 0 ? t : 1);
        for (size_t i = 0; i < b.n; i++)
            b[i] = 41;
        da_int d = t;
        get(&d, b.p);
        if (t < need) {
            if (st != da_status_invalid_array_dimension || d != need)
                failf("result:short", "%s: result %s (%s) needs %d; with %d: status %d, size %d", m.kind.c_str(), name, ty, (int)need, (int)t, (int)st, (int)d);
            for (size_t i = 0; i < b.n; i++)
                if (b[i] != 41)
                    failf("result:short_written", "%s: result %s (%s): array too small but written", m.kind.c_str(), name, ty);
        } else {
            if (st != da_status_success)
                failf("result:get", "%s: result %s (%s) with room for %d of %d: status %d", m.kind.c_str(), name, ty, (int)t, (int)need, (int)st);
            std::vector<double> v;
            for (da_int i = 0; i < need; i++)
                v.push_back(timed(m.type, id, i) ? 0 : (double)b[i]);
            for (da_int i = need; i < t; i++)
                if (b[i] != 41)
                    failf("result:beyond", "%s: result %s (%s): written beyond its size %d", m.kind.c_str(), name, ty, (int)need);
            if (first.empty())
                first = v;
            for (da_int i = 0; i < need; i++)
                if (!same(first[i], v[i]))
                    failf("result:differs", "%s: result %s (%s) differs between two queries at %d", m.kind.c_str(), name, ty, (int)i);
        }
    }
    // null arguments
    da_int d = need;
    get(nullptr, probe);
    da_status s1 = st;
    get(&d, nullptr);
    if (s1 == da_status_success || st == da_status_success)
        failf("result:null", "%s: result %s (%s): null arguments accepted", m.kind.c_str(), name, ty);
}
template <typename T> static void fitted(const ModelBase &m, int kind) {
    Handle h;
    if (init(h, m) != da_status_success)
        failf("status:init", "handle init failed");
    if (train(h.h, m) != da_status_success)
        return sim::probe("refused_model");
    std::vector<da_status> q0;
    for (auto &q : m.queries) {
        Out o;
        q0.push_back(q.f(h.h, o));
    }
    Out r0 = results(h.h, m);
    Target<T> t;
    t.h = h.h;
    auto rows = rows_of(doc_names[kind]);
    int n = (int)pick("fit_calls", 1, 8);
    for (int i = 0; i < n; i++) {
        std::string what;
        switch (pick("fit_what", 0, 3)) {
        case 0: what = option_call<T>(t, doc_names[kind], rows, nullptr, true); break;
        case 1: misuse(h.h, kind, m.dbl, false); what = "a call for another handle"; break;
        case 2: {
            auto &r = all_results[pick("query", 0, (i64)(sizeof all_results / sizeof *all_results) - 1)];
            if (chance("query_int", 0.4))
                query_protocol<T, da_int>(h.h, m, r.id, r.name, "int");
            else
                query_protocol<T, T>(h.h, m, r.id, r.name, "real");
            what = r.name;
            break;
        }
        default: {
            typedef std::conditional_t<sizeof(T) == 8, float, double> O;
            O o[4] = {41, 41, 41, 41};
            da_int d = 4, id = (da_int)pick("other_query", 0, 1100);
            da_status st;
            {
                sim::Api a("da_handle_get_result");
                st = da_handle_get_result(h.h, (da_result)all_results[id % (sizeof all_results / sizeof *all_results)].id, &d, o);
            }
            if (st != da_status_wrong_type || o[0] != 41)
                failf("result:precision", "%s: a result query of the other precision: status %d", m.kind.c_str(), (int)st);
            T q[4] = {41, 41, 41, 41};
            d = 4;
            {
                sim::Api a("da_handle_get_result");
                st = da_handle_get_result(h.h, (da_result)(2000 + id), &d, q);
            }
            if (st == da_status_success || q[0] != 41)
                failf("result:unknown", "%s: unknown query %d: status %d", m.kind.c_str(), (int)(2000 + id), (int)st);
            what = "a query of the other precision";
        }
        }
        if (getenv("SIM_VERBOSE"))
            fprintf(stderr, "%s: %s\n", m.kind.c_str(), what.c_str());
        Out r1 = results(h.h, m);
        std::string d = diff(r0, r1);
        if (d.size())
            failf("fitted:lost", "%s: results changed by a call that was refused or only reads (%s): %s", m.kind.c_str(), what.c_str(), d.c_str());
    }
    for (size_t k = 0; k < m.queries.size(); k++) {
        Out o;
        da_status st = m.queries[k].f(h.h, o);
        if (st != q0[k])
            failf("fitted:query", "%s: %s after refused calls: status %d, before %d", m.kind.c_str(), m.queries[k].name.c_str(), (int)st, (int)q0[k]);
    }
    sim::probe("fitted");
}
static void fitted_any() {
    Env env;
    sim::random_schedule(false);
    int kind = (int)pick("kind", 0, K_COUNT - 1);
    ModelBase m = draw(kind);
    m.dbl ? fitted<double>(m, kind) : fitted<float>(m, kind);
}
sim::Scenario sim_scenarios[] = {{"options", options_any, 4}, {"handles", handles, 3}, {"fitted", fitted_any, 3}, {nullptr, nullptr, 0}};
