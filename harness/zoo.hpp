// A small model of every algorithm handle: drawn data, a complete set of
// options, the calls that train it and the calls that question it. Used by the
// properties that speak of handles in general.
#pragma once
#include "common.hpp"
#include <memory>
#include <sstream>

typedef std::vector<double> Out;
namespace zoo {
struct Step {
    std::string name;
    std::function<da_status(da_handle)> f;
    int stage; // 0 option, 1 data, 2 fit
};
struct Query {
    std::string name;
    std::function<da_status(da_handle, Out &)> f;
};
struct ModelBase {
    std::string kind;
    da_handle_type type = da_handle_uninitialized;
    bool savable = false;
    bool dbl = true;
    da_int n = 0, d = 0;
    std::vector<Step> steps;
    std::vector<Query> queries;
    std::vector<std::shared_ptr<void>> keep;
    std::vector<std::string> desc;
};

static const struct {
    int id;
    const char *name;
} all_results[] = {
#define R_(x) {(int)x, #x}
    R_(da_rinfo), R_(da_linmod_coef), R_(da_linmod_dual_coef), R_(da_pca_scores), R_(da_pca_variance),
    R_(da_pca_principal_components), R_(da_pca_total_variance), R_(da_pca_column_means), R_(da_pca_column_sdevs),
    R_(da_pca_u), R_(da_pca_sigma), R_(da_pca_vt), R_(da_kernel_pca_n_components), R_(da_kernel_pca_eigenvalues),
    R_(da_kernel_pca_eigenvectors), R_(da_kernel_pca_scores), R_(da_kernel_pca_dual_coef), R_(da_kernel_pca_gamma),
    R_(da_kernel_pca_X_fit), R_(da_kmeans_cluster_centres), R_(da_kmeans_labels), R_(da_dbscan_labels),
    R_(da_dbscan_n_clusters), R_(da_dbscan_n_core_samples), R_(da_dbscan_core_sample_indices),
    R_(da_nn_radius_neighbors_count), R_(da_nn_radius_neighbors_offsets), R_(da_nn_radius_neighbors_indices),
    R_(da_nn_radius_neighbors_distances), R_(da_svm_n_support_vectors), R_(da_svm_n_support_vectors_per_class),
    R_(da_svm_idx_support_vectors), R_(da_svm_n_iterations), R_(da_svm_support_vectors), R_(da_svm_bias),
    R_(da_svm_probaA), R_(da_svm_probaB), R_(da_svm_dual_coef), R_(da_svm_lp_n_iterations),
    R_(da_approx_nn_cluster_centroids), R_(da_approx_nn_list_sizes), R_(da_cubic_spline_coefficients),
    R_(da_tsne_embedding)
#undef R_
};
inline bool timed(da_handle_type t, int id, size_t i) {
    return id == da_rinfo && i == 3 && (t == da_handle_linmod || t == da_handle_nlls);
}
// Every result the handle offers: (id, values) for real and for integer type.
// A call with room for nothing tells the size; the second call must succeed.
// da_status_memory_error if a call was refused for memory, otherwise success.
template <typename T> da_status get_result(da_handle h, da_handle_type t, int id, Out &o, bool strict = true) {
    auto one = [&](auto dummy, const char *ty) {
        typedef decltype(dummy) R;
        da_int dim = 0;
        R small[2];
        da_status st;
        {
            sim::Api a("da_handle_get_result");
            st = da_handle_get_result(h, (da_result)id, &dim, small);
        }
        if (st != da_status_invalid_array_dimension) {
            if (st == da_status_success) {
                o.push_back(id);
                o.push_back(0);
            }
            return st;
        }
        if (dim <= 0) {
            if (strict)
                failf("result:size", "get_result(%d,%s): size refused but dim set to %d", id, ty, (int)dim);
            return st;
        }
        Buf<R> b(dim);
        da_int d2 = dim;
        {
            sim::Api a("da_handle_get_result");
            st = da_handle_get_result(h, (da_result)id, &d2, b.p);
        }
        if (st != da_status_success) {
            if (strict && st != da_status_memory_error)
                failf("result:get", "get_result(%d,%s) with the size it asked for (%d): status %d: %s", id, ty,
                      (int)dim, (int)st, errmsg(h).c_str());
            return st;
        }
        o.push_back(id);
        o.push_back((double)dim);
        for (da_int i = 0; i < dim; i++)
            o.push_back(timed(t, id, i) ? 0 : (double)b[i]);
        return st;
    };
    da_status s1 = one((T)0, "real");
    da_status s2 = one((da_int)0, "int");
    return s1 == da_status_memory_error || s2 == da_status_memory_error ? da_status_memory_error : da_status_success;
}
template <typename T> Out results(da_handle h, da_handle_type t, bool rinfo = true) {
    Out o;
    for (auto &r : all_results)
        if (rinfo || r.id != da_rinfo)
            get_result<T>(h, t, r.id, o);
    return o;
}
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b) || a == b; }
// "" when equal (bitwise, tol==0; or to tol relative to the largest entry)
inline std::string diff(const Out &a, const Out &b, double tol = 0, double scale0 = 1) {
    char s[200];
    if (a.size() != b.size()) {
        snprintf(s, sizeof s, "%zu values against %zu", a.size(), b.size());
        return s;
    }
    double scale = scale0;
    for (double x : a)
        if (std::isfinite(x))
            scale = std::max(scale, fabs(x));
    for (size_t i = 0; i < a.size(); i++)
        if (!same(a[i], b[i]) && !(tol > 0 && fabs(a[i] - b[i]) <= tol * scale)) {
            snprintf(s, sizeof s, "entry %zu of %zu: %.17g against %.17g", i, a.size(), a[i], b[i]);
            return s;
        }
    return "";
}
inline double magnitude(const Out &o) {
    double s = 1;
    for (double x : o)
        if (std::isfinite(x))
            s = std::max(s, fabs(x));
    return s;
}
template <typename F> da_status api(const char *n, F f) {
    sim::Api a(n);
    return f();
}
template <typename T> da_status set_real(da_handle h, const char *n, double v) {
    return da_options_set<T>(h, n, (T)v);
}

// same shape as the model before (stale state is then hardest to notice)
static da_int force_n = 0, force_d = 0;
template <typename T> struct Builder {
    ModelBase m;
    da_order o;
    da_int n, d, nq;
    std::shared_ptr<Mat<T>> X, Q;
    sim::Rng r;
    Builder(const char *salt) : r(salt) {
        m.dbl = sizeof(T) == 8;
    }
    void s(const char *name, const char *v) {
        std::string N = name, V = v;
        m.desc.push_back(N + "=" + V);
        m.steps.push_back({"option " + N, [N, V](da_handle h) {
                               return api("da_options_set_string", [&] { return da_options_set_string(h, N.c_str(), V.c_str()); });
                           }, 0});
    }
    void i(const char *name, da_int v) {
        std::string N = name;
        m.desc.push_back(N + "=" + std::to_string(v));
        m.steps.push_back({"option " + N, [N, v](da_handle h) {
                               return api("da_options_set_int", [&] { return da_options_set_int(h, N.c_str(), v); });
                           }, 0});
    }
    void f(const char *name, double v) {
        std::string N = name;
        m.desc.push_back(N + "=" + std::to_string(v));
        m.steps.push_back({"option " + N, [N, v](da_handle h) {
                               return api("da_options_set_real", [&] { return set_real<T>(h, N.c_str(), v); });
                           }, 0});
    }
    template <typename F> void data(const char *n, F g) {
        std::string N = n;
        m.steps.push_back({N, [N, g](da_handle h) { return api(N.c_str(), [&] { return g(h); }); }, 1});
    }
    template <typename F> void fit(const char *n, F g) {
        std::string N = n;
        m.steps.push_back({N, [N, g](da_handle h) { return api(N.c_str(), [&] { return g(h); }); }, 2});
    }
    std::shared_ptr<Mat<T>> mat(da_int rr, da_int cc, int lo, int hi) {
        auto M = std::make_shared<Mat<T>>(rr, cc, o, (da_int)pick("zpad", 0, 2));
        for (da_int a = 0; a < rr; a++)
            for (da_int b = 0; b < cc; b++)
                (*M)(a, b) = (T)r.range(lo, hi);
        M->input();
        m.keep.push_back(M);
        return M;
    }
    template <typename V> std::shared_ptr<Buf<V>> vec(da_int k, int lo, int hi) {
        auto B = std::make_shared<Buf<V>>(k);
        for (da_int a = 0; a < k; a++)
            (*B)[a] = (V)r.range(lo, hi);
        B->input();
        m.keep.push_back(B);
        return B;
    }
    // a query filling an (rr x cc) matrix
    template <typename F> void qmat(const char *n, da_int rr, da_int cc, F g) {
        std::string N = n;
        da_order oo = o;
        da_int pad = (da_int)pick("qpad", 0, 1);
        m.queries.push_back({N, [N, rr, cc, oo, pad, g](da_handle h, Out &out) {
                                 Mat<T> Y(rr, cc, oo, pad);
                                 da_status st = api(N.c_str(), [&] { return g(h, Y); });
                                 out.push_back(st);
                                 if (st == da_status_success)
                                     for (da_int a = 0; a < rr; a++)
                                         for (da_int b = 0; b < cc; b++)
                                             out.push_back((double)Y(a, b));
                                 return st;
                             }});
    }
    template <typename V, typename F> void qvec(const char *n, da_int k, F g) {
        std::string N = n;
        m.queries.push_back({N, [N, k, g](da_handle h, Out &out) {
                                 Buf<V> y(k);
                                 da_status st = api(N.c_str(), [&] { return g(h, y.p); });
                                 out.push_back(st);
                                 if (st == da_status_success)
                                     for (da_int a = 0; a < k; a++)
                                         out.push_back((double)y[a]);
                                 return st;
                             }});
    }
    void common(da_int nlo, da_int nhi, da_int dlo, da_int dhi, int lo = -6, int hi = 6) {
        o = chance("zrow_major", 0.4) ? row_major : column_major;
        n = (da_int)pick("zn", nlo, nhi);
        d = (da_int)pick("zd", dlo, dhi);
        if (force_n >= nlo && force_n <= nhi)
            n = force_n;
        if (force_d >= dlo && force_d <= dhi)
            d = force_d;
        m.n = n;
        m.d = d;
        nq = (da_int)pick("znq", 1, 9);
        s("storage order", o == row_major ? "row-major" : "column-major");
        s("check data", chance("zcheck", 0.2) ? "yes" : "no");
        X = mat(n, d, lo, hi);
        Q = mat(nq, d, lo, hi);
    }
};

enum Kind { K_LINMOD, K_PCA, K_KPCA, K_KMEANS, K_DBSCAN, K_TREE, K_FOREST, K_NN, K_ANN, K_SVM, K_SPLINE, K_TSNE, K_NLLS, K_COUNT };
static const char *const kind_names[] = {"linmod", "pca", "kernel_pca", "kmeans", "dbscan", "tree", "forest", "nn",
                                         "approx_nn", "svm", "spline", "tsne", "nlls"};
static const da_handle_type kind_types[] = {
    da_handle_linmod, da_handle_pca, da_handle_kernel_pca, da_handle_kmeans, da_handle_dbscan, da_handle_decision_tree,
    da_handle_decision_forest, da_handle_nn, da_handle_approx_nn, da_handle_svm, da_handle_interpolation, da_handle_tsne,
    da_handle_nlls};

template <typename T> struct NlData {
    std::vector<T> t, y;
    int shape;
};
template <typename T> da_int nl_res(da_int nc, da_int nr, void *ud, const T *x, T *res) {
    sim::NotApi na;
    auto *D = (NlData<T> *)ud;
    for (da_int k = 0; k < nr; k++) {
        T v = x[0];
        if (nc > 1)
            v += x[1] * D->t[k];
        if (nc > 2)
            v += x[2] * D->t[k] * D->t[k];
        if (D->shape)
            v += (T)0.1 * x[0] * x[0];
        res[k] = v - D->y[k];
    }
    return 0;
}
template <typename T, bool C> da_int nl_grd(da_int nc, da_int nr, void *ud, const T *x, T *jac) {
    sim::NotApi na;
    auto *D = (NlData<T> *)ud;
    for (da_int k = 0; k < nr; k++)
        for (da_int c = 0; c < nc; c++) {
            T v = c == 0 ? 1 + (D->shape ? (T)0.2 * x[0] : 0) : c == 1 ? D->t[k] : D->t[k] * D->t[k];
            jac[C ? k * nc + c : c * nr + k] = v;
        }
    return 0;
}

template <typename T> ModelBase make(int kind) {
    Builder<T> b((std::string("zoo-") + kind_names[kind]).c_str());
    ModelBase &m = b.m;
    m.kind = kind_names[kind];
    m.type = kind_types[kind];
    m.savable = !(kind == K_DBSCAN || kind == K_SPLINE || kind == K_TSNE || kind == K_NLLS);
    const da_int K = 3;
    switch (kind) {
    case K_LINMOD: {
        bool logi = chance("zlogistic", 0.4);
        b.common(6, 24, 1, 4);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        static const char *me[] = {"auto", "lbfgs", "qr", "coord", "svd", "sparse_cg", "cholesky"};
        static const char *sc[] = {"auto", "none", "centering", "scale only", "standardize"};
        int mi = logi ? (int)pick("zmethod", 0, 1) : (int)pick("zmethod", 0, 6);
        b.s("optim method", me[mi]);
        b.i("intercept", (da_int)pick("zintercept", 0, 1));
        b.s("scaling", sc[pick("zscaling", 0, 4)]);
        b.f("lambda", pick("zlambda", 0, 2) * 0.5);
        b.f("alpha", logi || mi != 3 ? 0.0 : (double)pick("zalpha", 0, 2) * 0.5);
        b.s("logistic constraint", chance("zssc", 0.5) ? "ssc" : "rsc");
        b.i("optim iteration limit", (da_int)pick("ziter", 5, 60));
        b.s("mixed precision", sizeof(T) == 8 && (mi == 1 || mi == 3 || mi == 5) && chance("zmixed", 0.2) ? "yes" : "no");
        int classes = (int)pick("zclasses", 2, 3);
        std::shared_ptr<Buf<T>> y;
        if (logi) {
            y = std::make_shared<Buf<T>>(n);
            for (da_int k = 0; k < n; k++)
                (*y)[k] = (T)(k < classes ? k : b.r.below(classes));
            y->input();
            m.keep.push_back(y);
        } else
            y = b.template vec<T>(n, -20, 20);
        auto yq = logi ? b.template vec<T>(nq, 0, classes - 1) : b.template vec<T>(nq, -20, 20);
        m.kind += logi ? ":logistic" : ":mse";
        b.data("da_linmod_select_model", [=](da_handle h) {
            return da_linmod_select_model<T>(h, logi ? linmod_model_logistic : linmod_model_mse);
        });
        b.data("da_linmod_define_features", [=](da_handle h) {
            return da_linmod_define_features(h, n, d, X->p(), X->ld, y->p);
        });
        b.fit("da_linmod_fit", [=](da_handle h) { return da_linmod_fit<T>(h); });
        b.template qvec<T>("da_linmod_evaluate_model", nq, [=](da_handle h, T *p) {
            return da_linmod_evaluate_model<T>(h, nq, d, Q->p(), Q->ld, p);
        });
        b.template qvec<T>("da_linmod_evaluate_model_loss", nq + 1, [=](da_handle h, T *p) {
            return da_linmod_evaluate_model<T>(h, nq, d, Q->p(), Q->ld, p, yq->p, p + nq);
        });
        break;
    }
    case K_PCA: {
        b.common(5, 24, 2, 6);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        static const char *pm[] = {"covariance", "correlation", "svd"};
        static const char *so[] = {"auto", "gesvdx", "gesvd", "gesdd", "syevd", "randomized"};
        int mi = (int)pick("zpm", 0, 2);
        da_int k = (da_int)pick("zk", 1, std::min(n - 1, d));
        b.i("n_components", k);
        b.s("pca method", pm[mi]);
        b.s("svd solver", so[pick("zsolver", 0, 5)]);
        b.s("degrees of freedom", chance("zbiased", 0.3) ? "biased" : "unbiased");
        b.i("store u", (da_int)pick("zu", 0, 1));
        b.i("whiten", (da_int)pick("zwhiten", 0, 1));
        b.i("seed", (da_int)pick("zseed", 0, 1000));
        b.s("power normalization", sim::one_of<const char *>("zpn", {"qr", "lu", "none"}));
        b.data("da_pca_set_data", [=](da_handle h) { return da_pca_set_data(h, n, d, X->p(), X->ld); });
        b.fit("da_pca_compute", [=](da_handle h) { return da_pca_compute<T>(h); });
        b.qmat("da_pca_transform", nq, k, [=](da_handle h, Mat<T> &Y) {
            return da_pca_transform(h, nq, d, Q->p(), Q->ld, Y.p(), Y.ld);
        });
        auto S = b.mat(nq, k, -4, 4);
        b.qmat("da_pca_inverse_transform", nq, d, [=](da_handle h, Mat<T> &Y) {
            return da_pca_inverse_transform(h, nq, k, S->p(), S->ld, Y.p(), Y.ld);
        });
        break;
    }
    case K_KPCA: {
        b.common(5, 18, 1, 5);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        static const char *ke[] = {"linear", "poly", "rbf", "sigmoid"};
        da_int k = (da_int)pick("zk", 1, 3);
        b.i("n_components", k);
        b.s("kernel", ke[pick("zkernel", 0, 3)]);
        b.i("degree", (da_int)pick("zdeg", 1, 3));
        b.f("gamma", pick("zgamma", 0, 1) ? 0.25 : -1.0);
        b.f("coef0", (double)pick("zcoef0", 0, 2));
        b.f("alpha", 1.0);
        b.s("fit inverse transform", chance("zfit", 0.5) ? "yes" : "no");
        b.s("remove zero eig", chance("zrem", 0.3) ? "yes" : "no");
        b.s("copy data", chance("zcopy", 0.7) ? "yes" : "no");
        b.s("eigensolver", sim::one_of<const char *>("zeig", {"auto", "syevd", "randomized"}));
        b.i("seed", (da_int)pick("zseed", 0, 1000));
        b.data("da_kernel_pca_set_data", [=](da_handle h) { return da_kernel_pca_set_data(h, n, d, X->p(), X->ld); });
        b.fit("da_kernel_pca_compute", [=](da_handle h) { return da_kernel_pca_compute<T>(h); });
        auto nc = [](da_handle h) {
            Out o;
            get_result<T>(h, da_handle_kernel_pca, da_kernel_pca_n_components, o);
            return o.size() > 2 ? (da_int)o[2] : (da_int)0;
        };
        da_order oo = b.o;
        m.queries.push_back({"da_kernel_pca_transform", [=](da_handle h, Out &out) {
                                 da_int c = nc(h);
                                 Mat<T> Y(nq, std::max<da_int>(c, 1), oo, 0);
                                 da_status st = api("da_kernel_pca_transform", [&] {
                                     return da_kernel_pca_transform(h, nq, d, Q->p(), Q->ld, Y.p(), Y.ld);
                                 });
                                 out.push_back(st);
                                 if (st == da_status_success)
                                     for (da_int a = 0; a < nq; a++)
                                         for (da_int e = 0; e < c; e++)
                                             out.push_back((double)Y(a, e));
                                 return st;
                             }});
        auto S = b.mat(nq, k, -3, 3);
        m.queries.push_back({"da_kernel_pca_inverse_transform", [=](da_handle h, Out &out) {
                                 da_int c = nc(h);
                                 Mat<T> Y(nq, d, oo, 0);
                                 Mat<T> Z(nq, std::max<da_int>(c, 1), oo, 0);
                                 for (da_int a = 0; a < nq; a++)
                                     for (da_int e = 0; e < Z.c; e++)
                                         Z(a, e) = e < k ? (*S)(a, e) : (T)1;
                                 Z.input();
                                 da_status st = api("da_kernel_pca_inverse_transform", [&] {
                                     return da_kernel_pca_inverse_transform(h, nq, Z.c, Z.p(), Z.ld, Y.p(), Y.ld);
                                 });
                                 out.push_back(st);
                                 if (st == da_status_success)
                                     for (da_int a = 0; a < nq; a++)
                                         for (da_int e = 0; e < d; e++)
                                             out.push_back((double)Y(a, e));
                                 return st;
                             }});
        break;
    }
    case K_KMEANS: {
        b.common(6, 30, 1, 4);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        da_int k = (da_int)pick("zk", 1, 4);
        int init = (int)pick("zinit", 0, 3);
        b.i("n_clusters", k);
        b.s("algorithm", sim::one_of<const char *>("zalg", {"lloyd", "elkan", "hartigan-wong", "macqueen"}));
        b.s("initialization method", std::vector<const char *>{"k-means++", "random", "random partitions", "supplied"}[init]);
        b.i("n_init", (da_int)pick("zninit", 1, 2));
        b.i("max_iter", (da_int)pick("ziter", 1, 12));
        b.i("seed", (da_int)pick("zseed", 0, 1000));
        b.s("mixed precision", sizeof(T) == 8 && chance("zmixed", 0.15) ? "yes" : "no");
        b.data("da_kmeans_set_data", [=](da_handle h) { return da_kmeans_set_data(h, n, d, X->p(), X->ld); });
        if (init == 3) {
            auto C = b.mat(k, d, -6, 6);
            b.data("da_kmeans_set_init_centres", [=](da_handle h) { return da_kmeans_set_init_centres(h, C->p(), C->ld); });
        }
        b.fit("da_kmeans_compute", [=](da_handle h) { return da_kmeans_compute<T>(h); });
        b.template qvec<da_int>("da_kmeans_predict", nq, [=](da_handle h, da_int *p) {
            return da_kmeans_predict(h, nq, d, Q->p(), Q->ld, p);
        });
        b.qmat("da_kmeans_transform", nq, k, [=](da_handle h, Mat<T> &Y) {
            return da_kmeans_transform(h, nq, d, Q->p(), Q->ld, Y.p(), Y.ld);
        });
        break;
    }
    case K_DBSCAN: {
        b.common(5, 40, 1, 3);
        da_int n = b.n, d = b.d;
        auto X = b.X;
        b.s("algorithm", sim::one_of<const char *>("zalg", {"brute", "kd tree", "ball tree", "auto"}));
        b.s("metric", sim::one_of<const char *>("zmetric", {"euclidean", "manhattan", "minkowski"}));
        b.f("power", (double)pick("zpow", 2, 3));
        b.f("eps", pick("zeps", 1, 4) + 0.5);
        b.i("min samples", (da_int)pick("zmin", 1, 5));
        b.i("leaf size", (da_int)pick("zleaf", 1, 20));
        b.data("da_dbscan_set_data", [=](da_handle h) { return da_dbscan_set_data(h, n, d, X->p(), X->ld); });
        b.fit("da_dbscan_compute", [=](da_handle h) { return da_dbscan_compute<T>(h); });
        break;
    }
    case K_TREE:
    case K_FOREST: {
        b.common(6, 40, 1, 4);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        auto y = b.template vec<da_int>(n, 0, K - 1);
        auto yq = b.template vec<da_int>(nq, 0, K - 1);
        b.s("scoring function", sim::one_of<const char *>("zscore", {"gini", "cross-entropy", "misclassification-error"}));
        b.i("maximum depth", (da_int)pick("zdepth", 0, 6));
        b.i("node minimum samples", (da_int)pick("zmins", 2, 5));
        b.i("seed", (da_int)pick("zseed", 0, 1000));
        b.i("maximum features", (da_int)pick("zmaxf", 0, d));
        b.s("histogram", chance("zhist", 0.4) ? "yes" : "no");
        b.i("maximum bins", (da_int)pick("zbins", 2, 20));
        if (kind == K_FOREST) {
            b.i("number of trees", (da_int)pick("zntree", 1, 5));
            b.s("bootstrap", chance("zboot", 0.7) ? "yes" : "no");
            b.s("features selection", sim::one_of<const char *>("zfsel", {"custom", "all", "sqrt"}));
            b.i("block size", (da_int)pick("zblock", 1, 8));
            b.data("da_forest_set_training_data", [=](da_handle h) {
                return da_forest_set_training_data(h, n, d, K, X->p(), X->ld, y->p, nullptr);
            });
            b.fit("da_forest_fit", [=](da_handle h) { return da_forest_fit<T>(h); });
            b.template qvec<da_int>("da_forest_predict", nq, [=](da_handle h, da_int *p) {
                return da_forest_predict(h, nq, d, Q->p(), Q->ld, p);
            });
            b.qmat("da_forest_predict_proba", nq, K, [=](da_handle h, Mat<T> &Y) {
                return da_forest_predict_proba(h, nq, d, Q->p(), Q->ld, Y.p(), K, Y.ld);
            });
            b.qmat("da_forest_predict_log_proba", nq, K, [=](da_handle h, Mat<T> &Y) {
                return da_forest_predict_log_proba(h, nq, d, Q->p(), Q->ld, Y.p(), K, Y.ld);
            });
            b.template qvec<T>("da_forest_score", 1, [=](da_handle h, T *p) {
                return da_forest_score(h, nq, d, Q->p(), Q->ld, yq->p, p);
            });
        } else {
            b.data("da_tree_set_training_data", [=](da_handle h) {
                return da_tree_set_training_data(h, n, d, K, X->p(), X->ld, y->p, nullptr);
            });
            b.fit("da_tree_fit", [=](da_handle h) { return da_tree_fit<T>(h); });
            b.template qvec<da_int>("da_tree_predict", nq, [=](da_handle h, da_int *p) {
                return da_tree_predict(h, nq, d, Q->p(), Q->ld, p);
            });
            b.qmat("da_tree_predict_proba", nq, K, [=](da_handle h, Mat<T> &Y) {
                return da_tree_predict_proba(h, nq, d, Q->p(), Q->ld, Y.p(), K, Y.ld);
            });
            b.qmat("da_tree_predict_log_proba", nq, K, [=](da_handle h, Mat<T> &Y) {
                return da_tree_predict_log_proba(h, nq, d, Q->p(), Q->ld, Y.p(), K, Y.ld);
            });
            b.template qvec<T>("da_tree_score", 1, [=](da_handle h, T *p) {
                return da_tree_score(h, nq, d, Q->p(), Q->ld, yq->p, p);
            });
        }
        break;
    }
    case K_NN: {
        b.common(6, 40, 1, 3);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        da_int k = (da_int)pick("zk", 1, 5);
        b.i("number of neighbors", k);
        b.s("algorithm", sim::one_of<const char *>("zalg", {"brute", "kd tree", "ball tree", "auto"}));
        b.s("metric", sim::one_of<const char *>("zmetric", {"euclidean", "manhattan", "minkowski"}));
        b.f("minkowski parameter", (double)pick("zpow", 2, 3));
        b.s("weights", chance("zw", 0.4) ? "distance" : "uniform");
        b.i("leaf size", (da_int)pick("zleaf", 1, 20));
        double rad = pick("zrad", 3, 8) + 0.5;
        b.f("radius", rad);
        bool lab = chance("zlab", 0.6), tar = chance("ztar", 0.6);
        auto y = b.template vec<da_int>(n, 0, K - 1);
        auto t = b.template vec<T>(n, -9, 9);
        b.data("da_nn_set_data", [=](da_handle h) { return da_nn_set_data(h, n, d, X->p(), X->ld); });
        if (lab)
            b.data("da_nn_set_labels", [=](da_handle h) { return da_nn_set_labels<T>(h, n, y->p); });
        if (tar)
            b.data("da_nn_set_targets", [=](da_handle h) { return da_nn_set_targets(h, n, t->p); });
        b.template qvec<da_int>("da_nn_kneighbors", nq * k, [=](da_handle h, da_int *p) {
            Buf<T> dist(nq * k);
            return da_nn_kneighbors(h, nq, d, Q->p(), Q->ld, p, dist.p, k, 1);
        });
        m.queries.push_back({"da_nn_radius_neighbors", [=](da_handle h, Out &out) {
                                 da_status st = api("da_nn_radius_neighbors", [&] {
                                     return da_nn_radius_neighbors(h, nq, d, Q->p(), Q->ld, (T)rad, 1, 1);
                                 });
                                 out.push_back(st);
                                 if (st == da_status_success)
                                     for (int q : {(int)da_nn_radius_neighbors_count, (int)da_nn_radius_neighbors_indices,
                                                   (int)da_nn_radius_neighbors_distances})
                                         if (get_result<T>(h, da_handle_nn, q, out) == da_status_memory_error)
                                             return da_status_memory_error;
                                 return st;
                             }});
        for (auto mode : {knn_search_mode, radius_search_mode}) {
            b.template qvec<da_int>("da_nn_classifier_predict", nq, [=](da_handle h, da_int *p) {
                return da_nn_classifier_predict(h, nq, d, Q->p(), Q->ld, p, mode);
            });
            b.template qvec<T>("da_nn_classifier_predict_proba", nq * K, [=](da_handle h, T *p) {
                for (da_int e = 0; e < nq * K; e++)
                    p[e] = 0;
                return da_nn_classifier_predict_proba(h, nq, d, Q->p(), Q->ld, p, mode);
            });
            b.template qvec<T>("da_nn_regressor_predict", nq, [=](da_handle h, T *p) {
                return da_nn_regressor_predict(h, nq, d, Q->p(), Q->ld, p, mode);
            });
        }
        break;
    }
    case K_ANN: {
        b.common(8, 40, 1, 3);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        da_int k = (da_int)pick("zk", 1, 4), nl = (da_int)pick("zlist", 1, 4);
        b.i("number of neighbors", k);
        b.i("n_list", nl);
        b.f("train fraction", 0.1 * (double)pick("zfrac", 5, 10));
        b.i("n_probe", (da_int)pick("zprobe", 1, nl));
        b.i("k-means_iter", (da_int)pick("ziter", 1, 6));
        b.i("seed", (da_int)pick("zseed", 0, 1000));
        b.s("metric", sim::one_of<const char *>("zmetric", {"euclidean", "sqeuclidean", "inner product", "cosine"}));
        b.data("da_approx_nn_set_training_data", [=](da_handle h) {
            return da_approx_nn_set_training_data(h, n, d, X->p(), X->ld);
        });
        b.fit("da_approx_nn_train_and_add", [=](da_handle h) { return da_approx_nn_train_and_add<T>(h); });
        if (chance("zadd", 0.4)) {
            da_int na = (da_int)pick("zna", 1, 10);
            auto A = b.mat(na, d, -6, 6);
            b.fit("da_approx_nn_add", [=](da_handle h) { return da_approx_nn_add(h, na, d, A->p(), A->ld); });
        }
        b.template qvec<da_int>("da_approx_nn_kneighbors", nq * k, [=](da_handle h, da_int *p) {
            Buf<T> dist(nq * k);
            return da_approx_nn_kneighbors(h, nq, d, Q->p(), Q->ld, p, dist.p, k, true);
        });
        b.template qvec<T>("da_approx_nn_kneighbors_dist", nq * k, [=](da_handle h, T *p) {
            Buf<da_int> ind(nq * k);
            return da_approx_nn_kneighbors(h, nq, d, Q->p(), Q->ld, ind.p, p, k, true);
        });
        break;
    }
    case K_SVM: {
        b.common(8, 22, 1, 3);
        da_int n = b.n, d = b.d, nq = b.nq;
        auto X = b.X, Q = b.Q;
        int mi = (int)pick("zmodel", 0, 3);
        da_svm_model mod = (da_svm_model[]){svc, nusvc, svr, nusvr}[mi];
        bool cls = mi < 2;
        da_int k = cls ? (da_int)pick("zclasses", 2, 3) : 1;
        b.s("kernel", sim::one_of<const char *>("zkernel", {"linear", "poly", "rbf", "sigmoid"}));
        b.i("degree", (da_int)pick("zdeg", 1, 3));
        b.f("gamma", pick("zgamma", 0, 1) ? 0.125 : -1.0);
        b.f("coef0", (double)pick("zcoef0", 0, 1));
        b.f("c", (double)pick("zc", 1, 3));
        b.f("epsilon", 0.125 * (double)pick("zepsi", 0, 3));
        b.f("nu", 0.125 * (double)pick("znu", 1, 3));
        b.i("max_iter", (da_int)pick("ziter", 50, 400));
        b.i("max_ws_size", pick("zws", 0, 1) ? 64 : -1);
        b.f("cache size", pick("zcache", 0, 2) ? -1.0 : 0.0);
        bool proba = cls && chance("zproba", 0.25);
        b.i("predict probabilities", proba ? 1 : 0);
        b.i("n_folds", (da_int)pick("zfolds", 2, 3));
        b.i("seed", (da_int)pick("zseed", 0, 1000));
        b.s("mixed precision", sizeof(T) == 8 && chance("zmixed", 0.15) ? "yes" : "no");
        auto y = std::make_shared<Buf<T>>(n);
        for (da_int e = 0; e < n; e++)
            (*y)[e] = cls ? (T)(e < 2 * k ? e % k : b.r.below(k)) : (T)b.r.range(-9, 9);
        y->input();
        m.keep.push_back(y);
        auto yq = cls ? b.template vec<T>(nq, 0, (int)k - 1) : b.template vec<T>(nq, -9, 9);
        m.kind += std::vector<const char *>{":svc", ":nusvc", ":svr", ":nusvr"}[mi];
        b.data("da_svm_select_model", [=](da_handle h) { return da_svm_select_model<T>(h, mod); });
        b.data("da_svm_set_data", [=](da_handle h) { return da_svm_set_data(h, n, d, X->p(), X->ld, y->p); });
        b.fit("da_svm_compute", [=](da_handle h) { return da_svm_compute<T>(h); });
        b.template qvec<T>("da_svm_predict", nq, [=](da_handle h, T *p) {
            return da_svm_predict(h, nq, d, Q->p(), Q->ld, p);
        });
        b.template qvec<T>("da_svm_score", 1, [=](da_handle h, T *p) {
            return da_svm_score(h, nq, d, Q->p(), Q->ld, yq->p, p);
        });
        if (cls) {
            // two classes: the values are a plain vector, whatever the order and ldd
            bool rm = b.o == row_major;
            if (k == 2) {
                b.template qvec<T>("da_svm_decision_function_ovo", nq, [=](da_handle h, T *p) {
                    return da_svm_decision_function(h, nq, d, Q->p(), Q->ld, ovo, p, rm ? 1 : nq);
                });
                b.template qvec<T>("da_svm_decision_function_ovr", nq, [=](da_handle h, T *p) {
                    return da_svm_decision_function(h, nq, d, Q->p(), Q->ld, ovr, p, rm ? 2 : nq);
                });
            } else {
                b.qmat("da_svm_decision_function_ovo", nq, k * (k - 1) / 2, [=](da_handle h, Mat<T> &Y) {
                    return da_svm_decision_function(h, nq, d, Q->p(), Q->ld, ovo, Y.p(), Y.ld);
                });
                b.qmat("da_svm_decision_function_ovr", nq, k, [=](da_handle h, Mat<T> &Y) {
                    return da_svm_decision_function(h, nq, d, Q->p(), Q->ld, ovr, Y.p(), Y.ld);
                });
            }
            if (proba) {
                b.qmat("da_svm_predict_proba", nq, k, [=](da_handle h, Mat<T> &Y) {
                    return da_svm_predict_proba(h, nq, d, Q->p(), Q->ld, Y.p(), Y.ld);
                });
                b.qmat("da_svm_predict_log_proba", nq, k, [=](da_handle h, Mat<T> &Y) {
                    return da_svm_predict_log_proba(h, nq, d, Q->p(), Q->ld, Y.p(), Y.ld);
                });
            }
        }
        break;
    }
    case K_SPLINE: {
        b.o = chance("zrow_major", 0.4) ? row_major : column_major;
        b.s("storage order", b.o == row_major ? "row-major" : "column-major");
        da_int n = (da_int)pick("zn", 4, 14), dim = (da_int)pick("zd", 1, 3), ne = (da_int)pick("znq", 1, 9);
        int ty = (int)pick("ztype", 0, 3);
        b.s("cubic spline type", std::vector<const char *>{"natural", "clamped zero", "custom", "hermite"}[ty]);
        auto x = std::make_shared<Buf<T>>(n);
        T at = -3;
        for (da_int e = 0; e < n; e++) {
            (*x)[e] = at;
            at += (T)b.r.range(1, 3) * (T)0.5;
        }
        x->input();
        m.keep.push_back(x);
        auto Y = b.mat(n, dim, -9, 9), Z = b.mat(n, dim, -4, 4);
        auto q = std::make_shared<Buf<T>>(ne);
        for (da_int e = 0; e < ne; e++)
            (*q)[e] = (T)-4 + (T)b.r.range(0, 80) * (T)0.25;
        q->input();
        m.keep.push_back(q);
        bool uni = chance("zuniform", 0.4);
        b.data("da_interpolation_select_model", [=](da_handle h) {
            return da_interpolation_select_model<T>(h, interpolation_cubic_spline);
        });
        b.data("da_interpolation_set_sites", [=](da_handle h) {
            return uni ? da_interpolation_set_sites_uniform<T>(h, n, (T)-3, (T)5) : da_interpolation_set_sites(h, n, x->p);
        });
        b.data("da_interpolation_set_values", [=](da_handle h) {
            return da_interpolation_set_values(h, n, dim, Y->p(), Y->ld, 0);
        });
        if (ty == 3)
            b.data("da_interpolation_set_values_derivative", [=](da_handle h) {
                return da_interpolation_set_values(h, n, dim, Z->p(), Z->ld, 1);
            });
        if (ty == 2) {
            auto l = b.template vec<T>(dim, -3, 3), rr = b.template vec<T>(dim, -3, 3);
            da_int lo = (da_int)pick("zlo", 1, 2), ro = (da_int)pick("zro", 1, 2);
            b.data("da_interpolation_set_boundary_conditions", [=](da_handle h) {
                return da_interpolation_set_boundary_conditions(h, dim, lo, l->p, ro, rr->p);
            });
        }
        b.fit("da_interpolation_interpolate", [=](da_handle h) { return da_interpolation_interpolate<T>(h); });
        b.template qvec<T>("da_interpolation_evaluate", ne * dim * 2, [=](da_handle h, T *p) {
            da_int ord[2] = {0, 1};
            return da_interpolation_evaluate(h, ne, q->p, p, 2, ord);
        });
        b.template qvec<da_int>("da_interpolation_search_cells", ne, [=](da_handle h, da_int *p) {
            return da_interpolation_search_cells(h, ne, q->p, p);
        });
        break;
    }
    case K_TSNE: {
        b.common(8, 16, 2, 4);
        da_int n = b.n, d = b.d;
        auto X = b.X;
        int init = (int)pick("zinit", 0, 2);
        da_int k = 2;
        b.i("n_components", k);
        b.f("perplexity", (double)pick("zperp", 1, 2));
        b.i("max_iter", (da_int)pick("ziter", 1, 12));
        b.f("theta", pick("ztheta", 0, 1) ? 0.5 : 0.0);
        b.f("learning rate", (double)pick("zlr", 0, 1) * 20 - 1);
        b.s("init", std::vector<const char *>{"pca", "random", "supplied"}[init]);
        b.i("seed", (da_int)pick("zseed", 0, 1000));
        b.data("da_tsne_set_data", [=](da_handle h) { return da_tsne_set_data(h, n, d, X->p(), X->ld); });
        if (init == 2) {
            auto Y = b.mat(n, k, -5, 5);
            b.data("da_tsne_set_init_embedding", [=](da_handle h) { return da_tsne_set_init_embedding(h, Y->p(), Y->ld); });
        }
        b.fit("da_tsne_compute", [=](da_handle h) { return da_tsne_compute<T>(h); });
        break;
    }
    case K_NLLS: {
        b.o = chance("zrow_major", 0.5) ? row_major : column_major;
        bool C = b.o == row_major;
        b.s("storage order", C ? "row-major" : "column-major");
        da_int nc = (da_int)pick("zcoef", 1, 3), nr = (da_int)pick("zres", 4, 14);
        b.i("ralfit iteration limit", (da_int)pick("ziter", 3, 40));
        b.s("ralfit model", sim::one_of<const char *>("zmodel", {"gauss-newton", "hybrid"}));
        b.s("ralfit globalization method", sim::one_of<const char *>("zglob", {"trust-region", "regularization"}));
        b.s("print options", "no");
        b.i("print level", 0);
        bool grd = chance("zgrd", 0.7);
        auto D = std::make_shared<NlData<T>>();
        for (da_int e = 0; e < nr; e++) {
            D->t.push_back((T)b.r.range(-6, 6) * (T)0.5);
            D->y.push_back((T)b.r.range(-9, 9));
        }
        D->shape = (int)pick("zshape", 0, 1);
        m.keep.push_back(D);
        bool bnd = chance("zbounds", 0.3), wts = chance("zweights", 0.3);
        auto lo = b.template vec<T>(nc, -3, -1), up = b.template vec<T>(nc, 1, 3), w = b.template vec<T>(nr, 1, 4);
        b.data("da_nlls_define_residuals", [=](da_handle h) {
            return da_nlls_define_residuals<T>(h, nc, nr, nl_res<T>, grd ? (C ? nl_grd<T, true> : nl_grd<T, false>) : nullptr,
                                               nullptr, nullptr);
        });
        if (bnd)
            b.data("da_nlls_define_bounds", [=](da_handle h) { return da_nlls_define_bounds(h, nc, lo->p, up->p); });
        if (wts)
            b.data("da_nlls_define_weights", [=](da_handle h) { return da_nlls_define_weights(h, nr, w->p); });
        // the fit is the query: its result is the coefficient vector
        b.template qvec<T>("da_nlls_fit", nc, [=](da_handle h, T *p) {
            for (da_int e = 0; e < nc; e++)
                p[e] = (T)0.5;
            return da_nlls_fit(h, nc, p, (void *)D.get());
        });
        break;
    }
    }
    return b.m;
}
inline da_status init(Handle &h, const ModelBase &m) {
    sim::Api a("da_handle_init");
    return m.dbl ? da_handle_init<double>(&h.h, m.type) : da_handle_init<float>(&h.h, m.type);
}
// apply every step; returns the first failing status; *at names the step
inline da_status train(da_handle h, const ModelBase &m, std::string *at = nullptr, int from = 0, int to = 2) {
    for (auto &s : m.steps) {
        if (s.stage < from || s.stage > to)
            continue;
        da_status st = s.f(h);
        if (st != da_status_success) {
            if (at)
                *at = s.name;
            return st;
        }
    }
    return da_status_success;
}
inline Out results(da_handle h, const ModelBase &m, bool rinfo = true) {
    return m.dbl ? results<double>(h, m.type, rinfo) : results<float>(h, m.type, rinfo);
}
inline ModelBase draw(int kind) { return chance("zsingle", 0.4) ? make<float>(kind) : make<double>(kind); }
inline ModelBase draw_like(int kind, bool dbl) { return dbl ? make<double>(kind) : make<float>(kind); }
inline ModelBase draw(std::initializer_list<int> kinds) { return draw(sim::one_of<int>("zkind", kinds)); }
inline std::string describe(const ModelBase &m) {
    std::string s = m.kind + (m.dbl ? "(d)" : "(s)");
    for (auto &d : m.desc)
        s += " " + d;
    return s.substr(0, 300);
}
} // namespace zoo
