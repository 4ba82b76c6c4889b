// C18: linear models and PCA solve their stated problems on any schedule.
// modules: linear_model factorization optimization basic_statistics kernel_functions metrics
#include "common.hpp"
#include <functional>
#include <string>
void context_set_hidden_settings(const std::string &key, const std::string &value) noexcept;
#include <memory>
const char *sim_property = "C18";
const char *sim_rule = "a run counts when a fit, decomposition, prediction or transform returned success and its output was tested "
                       "against the optimality conditions or the long-double reference; distinct = distinct event hashes";
const char *sim_real_components = "linear_model (QR, SVD, Cholesky, CG, coordinate descent, L-BFGS, logistic rsc/ssc, scaling, "
                                  "fallback), pca and kernel_pca (all methods and solvers), optimization: all real code from /repo";
const char *sim_stub_components = "OpenMP runtime, threads, allocator, std::random_device, clock; "
                                  "BLAS/LAPACK is the real OpenBLAS, single threaded";
void sim_warmup() {}
typedef long double L;
typedef std::vector<L> LV;

static sim::Rng rng(const char *n) { return sim::Rng(n); }
template <typename T> L eps() { return (L)std::numeric_limits<T>::epsilon(); }

// ---- data ---------------------------------------------------------------------
template <typename T> struct Data {
    Mat<T> X;
    Buf<T> y;
    da_int n, d;
};
template <typename T>
void fill(Mat<T> &X, sim::Rng &r, const std::vector<L> &scale, const std::vector<L> &shift) {
    for (da_int i = 0; i < X.r; i++)
        for (da_int j = 0; j < X.c; j++)
            X(i, j) = (T)((2 * r.uniform() - 1) * scale[j] + shift[j]);
}
static void col_scales(sim::Rng &r, da_int d, bool scaled, bool shifted, std::vector<L> &sc, std::vector<L> &sh) {
    sc.assign(d, 1);
    sh.assign(d, 0);
    for (da_int j = 0; j < d; j++) {
        static const L s[] = {1, 4, 0.25L, 2};
        if (scaled)
            sc[j] = s[r.below(4)];
        if (shifted)
            sh[j] = (2 * r.uniform() - 1) * 2 * sc[j];
    }
}

// ---- mean square error ----------------------------------------------------------
static const char *const methods[] = {"auto", "qr", "svd", "cholesky", "sparse_cg", "lbfgs", "coord"};
enum { M_AUTO, M_QR, M_SVD, M_CHOL, M_CG, M_LBFGS, M_COORD };
static const char *const scalings[] = {"auto", "none", "centering", "scale only", "standardize"};
enum { S_AUTO, S_NONE, S_CENT, S_SCALE, S_STD };

template <typename T> struct Cfg {
    int method, scaling;
    L lambda, alpha;
    bool icpt;
};
template <typename T> std::string show(const Cfg<T> &c, da_int n, da_int d) {
    char b[200];
    snprintf(b, sizeof b, "%s %s scaling=%s intercept=%d lambda=%g alpha=%g n=%d d=%d", pname<T>(), methods[c.method],
             scalings[c.scaling], (int)c.icpt, (double)c.lambda, (double)c.alpha, (int)n, (int)d);
    return b;
}
// residuals and optimality conditions in the user's coordinates
template <typename T>
void check_mse(const Data<T> &D, const Cfg<T> &c, const std::vector<T> &coef, bool iterative, bool fell_back) {
    da_int n = D.n, d = D.d;
    std::string what = show(c, n, d);
    L yn = 0, ym = 0;
    for (da_int i = 0; i < n; i++)
        ym += D.y[i];
    ym /= n;
    L ynorm0 = 0;
    for (da_int i = 0; i < n; i++) {
        L v = c.icpt ? D.y[i] - ym : D.y[i];
        yn += v * v;
        ynorm0 += (L)D.y[i] * D.y[i];
    }
    L sy = sqrtl(yn / n);
    LV r(n), l1(d), l2(d);
    L b0 = c.icpt ? coef[d] : 0, rsum = 0, rabs = 0;
    for (da_int i = 0; i < n; i++) {
        L v = (L)D.y[i] - b0;
        for (da_int j = 0; j < d; j++)
            v -= (L)D.X(i, j) * coef[j];
        r[i] = v;
        rsum += v;
        rabs += fabsl(D.y[i]) + fabsl(b0);
        for (da_int j = 0; j < d; j++)
            rabs += fabsl((L)D.X(i, j) * coef[j]);
    }
    if (!std::isfinite((double)rsum))
        failf("mse:nonfinite", "%s: coefficients are not finite", what.c_str());
    L tol = (sizeof(T) == 8 ? (iterative ? 1e-4L : 1e-9L) : (iterative ? (c.method == M_LBFGS || c.method == M_AUTO ? 1e-1L : 1e-2L) : 1e-3L));
    for (da_int j = 0; j < d; j++) {
        L m = 0, s = 0;
        for (da_int i = 0; i < n; i++)
            m += D.X(i, j);
        m /= n;
        for (da_int i = 0; i < n; i++)
            s += ((L)D.X(i, j) - m) * ((L)D.X(i, j) - m);
        s = sqrtl(s / n);
        if (c.scaling == S_STD) {
            l1[j] = c.lambda * c.alpha * s;
            l2[j] = c.lambda * (1 - c.alpha) * s * s / sy;
        } else if (c.alpha == 0) {
            l2[j] = c.lambda / n;
        } else {
            l1[j] = c.lambda * c.alpha;
            l2[j] = c.lambda * (1 - c.alpha) / (c.scaling == S_SCALE ? sy : 1);
        }
        L g = 0, mag = 0;
        for (da_int i = 0; i < n; i++) {
            g += (L)D.X(i, j) * r[i];
            mag += fabsl((L)D.X(i, j)) * (fabsl((L)D.y[i]) + fabsl(b0));
            for (da_int k = 0; k < d; k++)
                mag += fabsl((L)D.X(i, j) * D.X(i, k) * coef[k]);
        }
        g = -g / n + l2[j] * coef[j];
        mag = mag / n + l2[j] * fabsl(coef[j]) + l1[j];
        L bad;
        if (l1[j] == 0)
            bad = fabsl(g);
        else if (coef[j] == 0)
            bad = std::max((L)0, fabsl(g) - l1[j]);
        else
            bad = fabsl(g + (coef[j] > 0 ? l1[j] : -l1[j]));
        // coordinate descent may leave a coefficient a hair off zero: either side is fine then
        if (bad > tol * mag && l1[j] != 0 && fabsl(coef[j]) * s <= tol * (sy + 1))
            bad = std::max((L)0, fabsl(g) - l1[j]);
        if (!(bad <= tol * mag))
            failf("mse:optimality", "%s%s: coefficient %d = %.9g violates its optimality condition by %.3Lg (scale %.3Lg, "
                  "l1 %.3Lg, l2 %.3Lg)",
                  what.c_str(), fell_back ? " (fallback)" : "", (int)j, (double)coef[j], bad, mag, l1[j], l2[j]);
    }
    if (c.icpt && !(fabsl(rsum) <= tol * rabs))
        failf("mse:intercept", "%s: residuals with the intercept sum to %.3Lg (scale %.3Lg)", what.c_str(), rsum, rabs);
}
template <typename T> void mse_predict(Handle &h, const Data<T> &D, const Cfg<T> &c, const std::vector<T> &coef, sim::Rng &r) {
    da_int nq = (da_int)pick("nq", 1, 20), d = D.d;
    Mat<T> Q(nq, d, D.X.o, (da_int)pick("qpad", 0, 2));
    std::vector<L> sc(d, 1.5L), sh(d, 0);
    fill(Q, r, sc, sh);
    Q.input();
    std::vector<T> yqv(nq);
    for (auto &v : yqv)
        v = (T)(r.uniform() * 6 - 3);
    Buf<T> yq(yqv), pred(nq);
    Buf<T> loss(1);
    bool wl = chance("withloss", 0.6);
    OKH(h.h, "da_linmod_evaluate_model",
        da_linmod_evaluate_model<T>(h.h, nq, d, Q.p(), Q.ld, pred.p, wl ? yq.p : nullptr, wl ? loss.p : nullptr));
    L ss = 0;
    for (da_int i = 0; i < nq; i++) {
        L v = c.icpt ? coef[d] : 0, mag = fabsl(v);
        for (da_int j = 0; j < d; j++) {
            v += (L)Q(i, j) * coef[j];
            mag += fabsl((L)Q(i, j) * coef[j]);
        }
        if (!(fabsl(v - pred[i]) <= 8 * eps<T>() * (d + 2) * mag + std::numeric_limits<T>::min()))
            failf("mse:predict", "%s: prediction %d is %.9g, X*beta+b0 = %.9Lg", show(c, D.n, d).c_str(), (int)i,
                  (double)pred[i], v);
        ss += ((L)pred[i] - yq[i]) * ((L)pred[i] - yq[i]);
    }
    if (wl) {
        L b1 = 0, b2 = 0;
        for (da_int j = 0; j < d; j++) {
            b1 += fabsl(coef[j]);
            b2 += (L)coef[j] * coef[j];
        }
        // the penalty is documented to be reported for the rescaled problem: lambda, or lambda rescaled by N and sigma_Y
        L pen = c.alpha * b1 + (1 - c.alpha) / 2 * b2, ref = ss / (2 * nq) + c.lambda * pen, sy = 0, my = 0;
        for (da_int i = 0; i < D.n; i++)
            my += D.y[i];
        my = c.icpt ? my / D.n : 0;
        for (da_int i = 0; i < D.n; i++)
            sy += (D.y[i] - my) * (D.y[i] - my) / D.n;
        sy = sqrtl(sy);
        bool ok = false;
        for (L f : {(L)1, (L)1 / D.n, (L)1 / D.n / D.n, 1 / sy, D.n / sy})
            ok |= fabsl(ss / (2 * nq) + f * c.lambda * pen - loss[0]) <= 100 * eps<T>() * (nq + d + D.n) * (ref + f * c.lambda * pen + 1e-30L);
        if (!ok)
            failf("mse:loss", "%s: evaluate_model loss %.9g, from its own predictions %.9Lg", show(c, D.n, d).c_str(),
                  (double)loss[0], ref);
    }
    probe("mse_predict");
}
// which configurations the library documents as supported
static bool supported(int m, L lambda, L alpha) {
    if (lambda == 0)
        return true;
    if (alpha == 0)
        return m != M_QR;
    return m == M_AUTO || m == M_COORD;
}
template <typename T> void mse() {
    Env env;
    sim::Rng r = rng("data");
    Handle h;
    hinit<T>(h, da_handle_linmod);
    OKH(h.h, "da_linmod_select_model", da_linmod_select_model<T>(h.h, linmod_model_mse));
    std::unique_ptr<Data<T>> D, old;
    int rounds = (int)pick("rounds", 1, 3);
    bool forced = chance("force_fallback", 0.15);
    if (forced) {
        context_set_hidden_settings("linmod.force_fallback", "true");
        probe("forced_fallback");
    }
    struct Reset {
        bool on;
        ~Reset() {
            if (on)
                context_set_hidden_settings("linmod.force_fallback", "false");
        }
    } reset{forced};
    opti(h, "optim iteration limit", 200000);
    optr<T>(h, "optim convergence tol", sizeof(T) == 8 ? (T)1e-11 : (T)1e-6);
    optr<T>(h, "optim dual gap tol", sizeof(T) == 8 ? (T)1e-13 : (T)1e-7);
    optr<T>(h, "optim progress factor", (T)1.0);
    std::vector<T> last;
    for (int rd = 0; rd < rounds; rd++) {
        bool redefine = rd == 0 || chance("redefine", 0.4);
        if (redefine) {
            old = std::move(D);
            D.reset(new Data<T>);
            D->n = (da_int)pick("n", 4, 40);
            D->d = (da_int)pick("d", 1, 8);
            if (chance("wide", 0.25)) {
                D->n = (da_int)pick("wn", 3, 6);
                D->d = (da_int)pick("wd", (int)D->n, 10);
                probe("wide_data");
            }
            da_order o = chance("rowmajor", 0.5) ? row_major : column_major;
            opt(h, "storage order", o == row_major ? "row-major" : "column-major");
            D->X.init(D->n, D->d, o, (da_int)pick("pad", 0, 3));
            std::vector<L> sc, sh;
            col_scales(r, D->d, chance("scaled", 0.4), chance("shifted", 0.5), sc, sh);
            fill(D->X, r, sc, sh);
            LV w(D->d);
            for (auto &v : w)
                v = r.below(4) ? 2 * r.uniform() - 1 : 0;
            std::vector<T> y(D->n);
            L y0 = chance("yshift", 0.5) ? 3 : 0, ns = 0.1L + r.uniform();
            for (da_int i = 0; i < D->n; i++) {
                L v = y0;
                for (da_int j = 0; j < D->d; j++)
                    v += w[j] * D->X(i, j);
                y[i] = (T)(v + ns * (2 * r.uniform() - 1));
            }
            D->y = Buf<T>(y);
            D->X.input();
        }
        Cfg<T> c;
        c.method = (int)pick("method", 0, 6);
        c.scaling = (int)pick("scaling", 0, 4);
        c.icpt = chance("intercept", 0.5);
        static const L lam[] = {0, 0.1L, 1, 0.01L, 5};
        c.lambda = lam[pick("lambda", 0, 4)];
        c.alpha = c.lambda != 0 && chance("l1", 0.4) ? (chance("lasso", 0.4) ? 1.0L : 0.5L) : 0;
        if (!supported(c.method, c.lambda, c.alpha))
            c.method = c.alpha != 0 ? M_COORD : M_CHOL;
        da_int n = D->n, d = D->d;
        // a unique, well-conditioned solution is wanted for normal equations and iterations
        bool wide = n < d + (c.icpt ? 1 : 0) + 1;
        sim::log("%s %s%s", show(c, n, d).c_str(), D->X.o == row_major ? "row" : "col", redefine ? " new data" : "");
        opt(h, "optim method", methods[c.method]);
        opt(h, "scaling", scalings[c.scaling]);
        opti(h, "intercept", c.icpt);
        optr<T>(h, "lambda", (T)c.lambda);
        optr<T>(h, "alpha", (T)c.alpha);
        c.lambda = (L)(T)c.lambda;
        if (sizeof(T) == 8)
            opt(h, "mixed precision", "no");
        if (redefine) {
            OKH(h.h, "da_linmod_define_features",
                da_linmod_define_features<T>(h.h, n, d, D->X.p(), D->X.ld, D->y.p));
        }
        da_status st;
        bool warm = chance("warm", 0.25);
        std::vector<T> start(d + 1 + (n > d ? n : d));
        for (auto &v : start)
            v = (T)(2 * r.uniform() - 1);
        Buf<T> sb(start);
        da_int nstart = d + c.icpt;
        if (warm && c.method == M_CG && wide)
            nstart = n;
        {
            sim::Api a("da_linmod_fit");
            st = warm ? da_linmod_fit_start<T>(h.h, nstart, sb.p) : da_linmod_fit<T>(h.h);
        }
        if (warm)
            probe("warm_start");
        if (st == da_status_incompatible_options || st == da_status_not_implemented) {
            probe("rejected_configuration");
            sim::log("rejected: %s", errmsg(h.h).c_str());
            if (c.scaling == S_AUTO && !(c.lambda == 0 && wide))
                failf("mse:rejected", "%s rejected: %s", show(c, n, d).c_str(), errmsg(h.h).c_str());
            continue;
        }
        bool direct = c.method == M_QR || c.method == M_SVD || c.method == M_CHOL;
        if (st != da_status_success) {
            if (st == da_status_maxit || st == da_status_numerical_difficulties) {
                probe("not_converged");
                sim::log("status %d: %s", (int)st, errmsg(h.h).c_str());
                if (direct && c.method != M_CHOL && !wide)
                    failf("mse:status", "%s: %d %s", show(c, n, d).c_str(), (int)st, errmsg(h.h).c_str());
                continue;
            }
            if (wide && direct)
                continue;
            failf("mse:status", "%s: fit returned %d: %s", show(c, n, d).c_str(), (int)st, errmsg(h.h).c_str());
        }
        std::vector<T> coef = result_n<T>(h, da_linmod_coef, d + c.icpt, "coef");
        hash_vec(coef);
        probe(c.method == M_AUTO ? "mse_auto" : direct ? "mse_direct" : "mse_iterative");
        if (c.alpha != 0)
            probe("mse_l1");
        check_mse(*D, c, coef, !direct || forced, forced);
        if (chance("predict", 0.6))
            mse_predict(h, *D, c, coef, r);
        last = coef;
    }
}

// ---- logistic -------------------------------------------------------------------
template <typename T> void logistic() {
    Env env;
    sim::Rng r = rng("data");
    da_int K = (da_int)pick("classes", 2, 4), d = (da_int)pick("d", 1, 5), n = (da_int)pick("n", 3 * (int)K, 60);
    bool rsc = chance("rsc", 0.5), icpt = chance("intercept", 0.6);
    da_order o = chance("rowmajor", 0.5) ? row_major : column_major;
    static const L lam[] = {0.1L, 1, 0.01L, 3};
    L lambda = (L)(T)lam[pick("lambda", 0, 3)];
    Handle h;
    hinit<T>(h, da_handle_linmod);
    OKH(h.h, "da_linmod_select_model", da_linmod_select_model<T>(h.h, linmod_model_logistic));
    opt(h, "storage order", o == row_major ? "row-major" : "column-major");
    opt(h, "logistic constraint", rsc ? "rsc" : "ssc");
    opti(h, "intercept", icpt);
    optr<T>(h, "lambda", (T)lambda);
    opti(h, "optim iteration limit", 20000);
    optr<T>(h, "optim convergence tol", sizeof(T) == 8 ? (T)1e-10 : (T)1e-5);
    optr<T>(h, "optim progress factor", (T)1.0);
    Mat<T> X(n, d, o, (da_int)pick("pad", 0, 3));
    std::vector<L> sc, sh;
    col_scales(r, d, chance("scaled", 0.3), chance("shifted", 0.4), sc, sh);
    fill(X, r, sc, sh);
    std::vector<T> yv(n);
    LV dir(d);
    for (auto &v : dir)
        v = 2 * r.uniform() - 1;
    for (da_int i = 0; i < n; i++) {
        L s = 0;
        for (da_int j = 0; j < d; j++)
            s += dir[j] * (X(i, j) - sh[j]) / sc[j];
        da_int c = (da_int)floorl((s + 1) / 2 * K + (r.uniform() - 0.5L) * K * 0.8L);
        yv[i] = (T)(i < K ? i : std::min<da_int>(K - 1, std::max<da_int>(0, c)));
    }
    X.input();
    Buf<T> y(yv);
    char what[160];
    snprintf(what, sizeof what, "logistic %s %s %s K=%d n=%d d=%d intercept=%d lambda=%g", pname<T>(), rsc ? "rsc" : "ssc",
             o == row_major ? "row" : "col", (int)K, (int)n, (int)d, (int)icpt, (double)lambda);
    sim::log("%s", what);
    OKH(h.h, "da_linmod_define_features", da_linmod_define_features<T>(h.h, n, d, X.p(), X.ld, y.p));
    da_int nm = d + icpt, rows = K == 2 ? 1 : rsc ? K - 1 : K, nc = rows * nm;
    bool warm = chance("warm", 0.3);
    std::vector<T> start(nc);
    L bias = chance("negstart", 0.3) ? -3 : 0;
    for (auto &v : start)
        v = (T)(2 * r.uniform() - 1 + bias);
    Buf<T> sb(start);
    da_status st;
    {
        sim::Api a("da_linmod_fit");
        st = warm ? da_linmod_fit_start<T>(h.h, nc, sb.p) : da_linmod_fit<T>(h.h);
    }
    if (st == da_status_maxit || st == da_status_numerical_difficulties) {
        probe("logistic_not_converged");
        return;
    }
    if (st != da_status_success)
        failf("logistic:status", "%s: fit returned %d: %s", what, (int)st, errmsg(h.h).c_str());
    std::vector<T> c = result_n<T>(h, da_linmod_coef, nc, "coef");
    hash_vec(c);
    std::vector<T> info = result_n<T>(h, da_rinfo, 100, "rinfo");
    if (info[13] != (T)rows || info[14] != (T)nm || info[12] != (T)K)
        failf("logistic:shape", "%s: coefficient array reported as %g x %g for %g classes", what, (double)info[13],
              (double)info[14], (double)info[12]);
    // coefficient of class k, feature j in an array of rows x nm in the storage order of the handle
    auto handle_order = [&](da_int k, da_int j) { return o == row_major ? k * nm + j : k + j * rows; };
    auto by_class = [&](da_int k, da_int j) { return k * nm + j; };
    L tol = sizeof(T) == 8 ? 1e-5L : 1e-2L;
    std::function<da_int(da_int, da_int)> at;
    auto residual = [&](std::string *msg) -> L {
        LV g(nc, 0), mag(nc, 1e-30L);
        for (da_int i = 0; i < n; i++) {
            LV s(K, 0);
            for (da_int k = 0; k < rows; k++) {
                L v = icpt ? c[at(k, d)] : 0;
                for (da_int j = 0; j < d; j++)
                    v += (L)c[at(k, j)] * X(i, j);
                s[K == 2 ? 1 : k] = v;
            }
            L m = *std::max_element(s.begin(), s.end()), z = 0;
            for (auto v : s)
                z += expl(v - m);
            for (da_int k = 0; k < rows; k++) {
                da_int cls = K == 2 ? 1 : k;
                L p = expl(s[cls] - m) / z, e = p - ((da_int)std::round((double)yv[i]) == cls);
                for (da_int j = 0; j < nm; j++) {
                    L x = j < d ? (L)X(i, j) : 1;
                    g[at(k, j)] += x * e;
                    mag[at(k, j)] += fabsl(x);
                }
            }
        }
        L worst = 0;
        for (da_int k = 0; k < rows; k++)
            for (da_int j = 0; j < nm; j++) {
                if (j < d)
                    g[at(k, j)] += lambda * c[at(k, j)];
                L q = fabsl(g[at(k, j)]) / (mag[at(k, j)] + lambda * fabsl(c[at(k, j)]));
                if (!(q <= worst)) {
                    worst = q;
                    char b[200];
                    snprintf(b, sizeof b, "class %d feature %d (coefficient %.6g): gradient %.3Lg on scale %.3Lg", (int)k,
                             (int)j, (double)c[at(k, j)], g[at(k, j)], mag[at(k, j)]);
                    *msg = b;
                }
            }
        return worst;
    };
    std::string m1, m2;
    bool misplaced = false;
    at = handle_order;
    L w1 = residual(&m1);
    if (!(w1 <= tol)) {
        at = by_class;
        L w2 = residual(&m2);
        if (!(w2 <= tol))
            failf("logistic:optimality", "%s: %s", what, (w1 <= w2 ? m1 : m2).c_str());
        misplaced = true; // reported below, once the predictions have been checked
    }
    probe(K == 2 ? "logistic_binary" : rsc ? "logistic_rsc" : "logistic_ssc");
    // predictions
    da_int nq = (da_int)pick("nq", 1, 20);
    Mat<T> Q(nq, d, o, (da_int)pick("qpad", 0, 2));
    static const L far[] = {1.5L, 1.5L, 100, 4000};
    L f = far[pick("far", 0, 3)];
    std::vector<L> qs(d), q0(d, 0);
    for (da_int j = 0; j < d; j++)
        qs[j] = f * sc[j];
    fill(Q, r, qs, q0);
    Q.input();
    std::vector<T> yq(nq);
    for (auto &v : yq)
        v = (T)r.below(K);
    Buf<T> yb(yq), pred(nq), loss(1);
    bool wl = chance("withloss", 0.5);
    OKH(h.h, "da_linmod_evaluate_model",
        da_linmod_evaluate_model<T>(h.h, nq, d, Q.p(), Q.ld, pred.p, wl ? yb.p : nullptr, wl ? loss.p : nullptr));
    da_int right = 0;
    for (da_int i = 0; i < nq; i++) {
        LV s(K, 0);
        L mag = 0;
        for (da_int k = 0; k < rows; k++) {
            L v = icpt ? c[at(k, d)] : 0;
            mag = std::max(mag, fabsl(v));
            for (da_int j = 0; j < d; j++) {
                v += (L)c[at(k, j)] * Q(i, j);
                mag = std::max(mag, fabsl((L)c[at(k, j)] * Q(i, j)));
            }
            s[K == 2 ? 1 : k] = v;
        }
        L top = *std::max_element(s.begin(), s.end());
        da_int p = (da_int)pred[i];
        if ((T)p != pred[i] || p < 0 || p >= K)
            failf("logistic:predict", "%s: prediction %d is %g", what, (int)i, (double)pred[i]);
        if (!(s[p] >= top - 50 * eps<T>() * (mag * nm + 1)))
            failf("logistic:predict", "%s: sample %d (scale %g) is given class %d with score %.6Lg, but the best score is %.6Lg",
                  what, (int)i, (double)f, (int)p, s[p], top);
        right += pred[i] == yq[i];
    }
    if (wl && fabsl((L)loss[0] - (L)right / nq) > 4 * eps<T>())
        failf("logistic:accuracy", "%s: evaluate_model reports %.9g, %d of %d predictions match", what, (double)loss[0],
              (int)right, (int)nq);
    probe("logistic_predict");
    if (misplaced)
        failf((std::string("logistic:layout:") + (rsc ? "rsc:" : "ssc:") + (o == row_major ? "row" : "col")).c_str(),
              "%s: read as the documented %d x %d array in the handle's storage order the coefficients do not solve the "
              "problem (%s); they do as %d consecutive vectors",
              what, (int)rows, (int)nm, m1.c_str(), (int)rows);
}

// ---- reference decompositions -----------------------------------------------------
// one-sided Jacobi: singular values (descending) of a column-major m x n matrix
static LV singular(LV A, da_int m, da_int n) {
    if (m < n) {
        LV B((size_t)m * n);
        for (da_int i = 0; i < m; i++)
            for (da_int j = 0; j < n; j++)
                B[(size_t)i * n + j] = A[(size_t)j * m + i];
        A.swap(B);
        std::swap(m, n);
    }
    for (int sweep = 0; sweep < 60; sweep++) {
        L off = 0;
        for (da_int p = 0; p < n; p++)
            for (da_int q = p + 1; q < n; q++) {
                L a = 0, b = 0, g = 0;
                for (da_int i = 0; i < m; i++) {
                    L x = A[(size_t)p * m + i], y = A[(size_t)q * m + i];
                    a += x * x, b += y * y, g += x * y;
                }
                if (fabsl(g) <= 1e-19L * sqrtl(a * b) || g == 0)
                    continue;
                off = 1;
                L z = (b - a) / (2 * g), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), cs = 1 / sqrtl(1 + t * t),
                  sn = cs * t;
                for (da_int i = 0; i < m; i++) {
                    L x = A[(size_t)p * m + i], y = A[(size_t)q * m + i];
                    A[(size_t)p * m + i] = cs * x - sn * y;
                    A[(size_t)q * m + i] = sn * x + cs * y;
                }
            }
        if (off == 0)
            break;
    }
    LV s(n);
    for (da_int j = 0; j < n; j++) {
        L a = 0;
        for (da_int i = 0; i < m; i++)
            a += A[(size_t)j * m + i] * A[(size_t)j * m + i];
        s[j] = sqrtl(a);
    }
    std::sort(s.begin(), s.end(), std::greater<L>());
    return s;
}
// ascending->descending eigenvalues of a symmetric matrix (classical cyclic Jacobi)
static LV eigenvalues(LV A, da_int n) {
    for (int sweep = 0; sweep < 60; sweep++) {
        L off = 0, dg = 0;
        for (da_int p = 0; p < n; p++) {
            dg += A[p * n + p] * A[p * n + p];
            for (da_int q = p + 1; q < n; q++)
                off += A[p * n + q] * A[p * n + q];
        }
        if (off <= 1e-36L * dg)
            break;
        for (da_int p = 0; p < n; p++)
            for (da_int q = p + 1; q < n; q++) {
                L g = A[p * n + q];
                if (g == 0)
                    continue;
                L z = (A[q * n + q] - A[p * n + p]) / (2 * g), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)),
                  cs = 1 / sqrtl(1 + t * t), sn = cs * t;
                for (da_int k = 0; k < n; k++) {
                    L x = A[k * n + p], y = A[k * n + q];
                    A[k * n + p] = cs * x - sn * y;
                    A[k * n + q] = sn * x + cs * y;
                }
                for (da_int k = 0; k < n; k++) {
                    L x = A[p * n + k], y = A[q * n + k];
                    A[p * n + k] = cs * x - sn * y;
                    A[q * n + k] = sn * x + cs * y;
                }
            }
    }
    LV e(n);
    for (da_int i = 0; i < n; i++)
        e[i] = A[i * n + i];
    std::sort(e.begin(), e.end(), std::greater<L>());
    return e;
}
template <typename T> struct View { // r x c result array in the storage order of the handle
    std::vector<T> v;
    da_int r, c;
    da_order o;
    L operator()(da_int i, da_int j) const { return v[o == column_major ? (size_t)j * r + i : (size_t)i * c + j]; }
};
#define NEAR(key, a, b, tol, ...)                                                                     \
    do {                                                                                              \
        L a_ = (a), b_ = (b);                                                                         \
        if (!(fabsl(a_ - b_) <= (tol))) {                                                             \
            char w_[200];                                                                             \
            snprintf(w_, sizeof w_, __VA_ARGS__);                                                     \
            failf(key, "%s: %s: expected %.9Lg, got %.9Lg (tolerance %.2Lg)", what, w_, a_, b_, (L)(tol)); \
        }                                                                                             \
    } while (0)

template <typename T> void pca() {
    Env env;
    sim::Rng r = rng("data");
    da_int n = (da_int)pick("n", 3, 40), d = (da_int)pick("d", 1, 12);
    if (chance("tall", 0.15)) {
        n = (da_int)pick("tn", 100, 400);
        probe("tall");
    }
    da_order o = chance("rowmajor", 0.5) ? row_major : column_major;
    static const char *const pm[] = {"covariance", "correlation", "svd"};
    static const char *const so[] = {"auto", "gesdd", "gesvd", "gesvdx", "syevd", "randomized"};
    int mi = (int)pick("method", 0, 2), si = (int)pick("solver", 0, 5);
    da_int full = std::min(n, d), k = (da_int)pick("k", 0, (int)full), ke = k == 0 ? full : k;
    bool whiten = chance("whiten", 0.3), biased = chance("biased", 0.3), store = si != 4 && chance("store", 0.6);
    da_int over = si == 5 ? (da_int)pick("over", 0, 12) : 10;
    Handle h;
    hinit<T>(h, da_handle_pca);
    int rounds = (int)pick("rounds", 1, 2);
    std::unique_ptr<Mat<T>> A, prev;
    for (int rd = 0; rd < rounds; rd++) {
        if (rd) {
            probe("pca_refit");
            mi = (int)pick("method2", 0, 2);
            si = (int)pick("solver2", 0, 5);
            k = (da_int)pick("k2", 0, (int)full), ke = k == 0 ? full : k;
            if (si == 4)
                store = false;
        }
        opt(h, "storage order", o == row_major ? "row-major" : "column-major");
        opt(h, "pca method", pm[mi]);
        opt(h, "svd solver", so[si]);
        opti(h, "n_components", k);
        opti(h, "whiten", whiten);
        opti(h, "store u", store);
        opt(h, "degrees of freedom", biased ? "biased" : "unbiased");
        if (si == 5) {
            opti(h, "n_oversamples", over);
            opti(h, "power iterations", (da_int)pick("power", -1, 4));
            opt(h, "power normalization", chance("lu", 0.4) ? "lu" : "qr");
            opti(h, "seed", (da_int)pick("seed", -1, 100));
        }
        char what[220];
        snprintf(what, sizeof what, "pca %s %s %s n=%d d=%d k=%d %s whiten=%d store=%d %s over=%d", pname<T>(), pm[mi], so[si],
                 (int)n, (int)d, (int)k, o == row_major ? "row" : "col", whiten, store, biased ? "biased" : "unbiased", (int)over);
        sim::log("%s", what);
        int rank = chance("deficient", 0.2) ? (int)pick("rank", 1, (int)full) : (int)full;
        if (rd == 0 || chance("newdata", 0.6)) {
            prev = std::move(A);
            A.reset(new Mat<T>(n, d, o, (da_int)pick("pad", 0, 3)));
            std::vector<L> sc, sh;
            col_scales(r, d, chance("scaled", 0.4), chance("shifted", 0.6), sc, sh);
            fill(*A, r, sc, sh);
            if (rank < full) {
                for (da_int j = rank; j < d; j++)
                    for (da_int i = 0; i < n; i++)
                        (*A)(i, j) = (*A)(i, j % rank) * (T)(1 + j % 3);
                probe("rank_deficient");
            }
            if (chance("constcol", 0.1)) {
                da_int j = (da_int)r.below(d);
                for (da_int i = 0; i < n; i++)
                    (*A)(i, j) = (T)2;
                probe("constant_column");
            }
            A->input();
            OKH(h.h, "da_pca_set_data", da_pca_set_data(h.h, n, d, A->p(), A->ld));
        }
        L dof = biased ? n : n - 1;
        // reference standardisation
        LV mean(d, 0), sd(d, 1), S((size_t)n * d);
        L fro = 0, big = 0;
        for (da_int j = 0; j < d; j++) {
            L lo = (*A)(0, j), hi = lo;
            for (da_int i = 0; i < n; i++) {
                mean[j] += (*A)(i, j);
                lo = std::min(lo, (L)(*A)(i, j)), hi = std::max(hi, (L)(*A)(i, j));
                big = std::max(big, fabsl((L)(*A)(i, j)));
            }
            mean[j] = mi == 2 ? 0 : mean[j] / n;
            L q = 0;
            for (da_int i = 0; i < n; i++)
                q += ((*A)(i, j) - mean[j]) * ((*A)(i, j) - mean[j]);
            if (mi == 1)
                sd[j] = lo == hi ? 0 : sqrtl(q / dof);
            for (da_int i = 0; i < n; i++) {
                L v = ((*A)(i, j) - mean[j]) / (mi == 1 && sd[j] != 0 ? sd[j] : 1);
                S[(size_t)j * n + i] = v;
                fro += v * v;
            }
        }
        if (fro == 0)
            continue;
        LV ref = singular(S, n, d);
        if (si == 3 && ref[ke - 1] <= (sizeof(T) == 8 ? 1e-8L : 1e-3L) * ref[0])
            continue; // LAPACK's own gesvdx breaks there: nothing to learn about /repo
        OKH(h.h, "da_pca_compute", da_pca_compute<T>(h.h));
        // results
        std::vector<T> sig = result_n<T>(h, da_pca_sigma, ke, "sigma"), var = result_n<T>(h, da_pca_variance, ke, "variance"),
                       tv = result_n<T>(h, da_pca_total_variance, 1, "total_variance");
        View<T> V{result_n<T>(h, da_pca_principal_components, ke * d, "components"), ke, d, o};
        View<T> V2{result_n<T>(h, da_pca_vt, ke * d, "vt"), ke, d, o};
        hash_vec(sig);
        hash_vec(V.v);
        L e = eps<T>(), gap = mi == 2 ? 0 : big * sqrtl((L)n * d); // rounding in the centring itself
        bool eig = si == 4 || si == 0, exact = si != 5 || std::min<da_int>(ke + over, full) == full;
        L base = 60 * e * (n + d) * (ref[0] + gap);
        L tS = eig ? std::max(base, 4 * sqrtl(e * (n + d)) * ref[0]) : base;
        if (si == 5)
            tS = 4 * base;
        if (mi == 1)
            tS *= 8;
        for (da_int i = 0; i < ke; i++) {
            if (exact) {
                // an eigenvalue solver is accurate in sigma^2
                L t = tS;
                if (eig && ref[i] > 0)
                    t = std::min(tS, base * 2 * ref[0] / ref[i] + base);
                NEAR("pca:sigma", ref[i], sig[i], t, "singular value %d of %d", (int)i, (int)ke);
            } else if (!(sig[i] <= ref[i] + tS) || !(sig[i] >= 0))
                failf("pca:sigma", "%s: approximate singular value %d = %.9g exceeds the true %.9Lg", what, (int)i, (double)sig[i],
                      ref[i]);
            if (i && !(sig[i] <= sig[i - 1] + tS))
                failf("pca:order", "%s: singular values %d,%d = %.9g,%.9g not in order", what, (int)i - 1, (int)i,
                      (double)sig[i - 1], (double)sig[i]);
            NEAR("pca:variance", (L)sig[i] * sig[i] / dof, var[i], 16 * e * (L)sig[i] * sig[i] / dof + tS * tS / dof + 1e-30L,
                 "variance %d from sigma", (int)i);
        }
        L tvr = fro / dof;
        NEAR("pca:total_variance", tvr, tv[0], 60 * e * (n + d) * (fro + gap * gap * e + gap * sqrtl(fro)) / dof,
             "total variance");
        for (da_int a = 0; a < ke; a++)
            for (da_int b = a; b < ke; b++) {
                L s = 0;
                for (da_int j = 0; j < d; j++)
                    s += V(a, j) * V(b, j);
                NEAR("pca:orthonormal", a == b ? 1.0L : 0.0L, s, 100 * e * (n + d), "components %d,%d", (int)a, (int)b);
            }
        if (V.v != V2.v)
            fail("pca:vt", std::string(what) + ": da_pca_vt and da_pca_principal_components differ");
        // projected data: columns orthogonal with norm sigma
        LV P((size_t)n * ke);
        for (da_int i = 0; i < n; i++)
            for (da_int a = 0; a < ke; a++) {
                L s = 0;
                for (da_int j = 0; j < d; j++)
                    s += S[(size_t)j * n + i] * V(a, j);
                P[(size_t)a * n + i] = s;
            }
        L tP = std::max(base, (L)(sizeof(T) == 8 ? 1e-9L : 1e-3L) * ref[0]);
        for (da_int a = 0; a < ke; a++) {
            L nn = 0;
            for (da_int i = 0; i < n; i++)
                nn += P[(size_t)a * n + i] * P[(size_t)a * n + i];
            if (exact)
                NEAR("pca:projection", sqrtl(nn), sig[a], tS + tP, "norm of the data along component %d", (int)a);
            for (da_int b = a + 1; b < ke; b++) {
                L s = 0;
                for (da_int i = 0; i < n; i++)
                    s += P[(size_t)a * n + i] * P[(size_t)b * n + i];
                if (exact)
                    NEAR("pca:uncorrelated", 0.0L, s, 4 * tP * ref[0], "scores of components %d,%d", (int)a, (int)b);
            }
        }
        L floor_ = (sizeof(T) == 8 ? 1e-5L : 3e-2L) * ref[0];
        L sdof = sqrtl(dof);
        if (mi != 2) {
            std::vector<T> m = result_n<T>(h, da_pca_column_means, d, "means");
            for (da_int j = 0; j < d; j++)
                NEAR("pca:means", mean[j], m[j], 4 * e * n * big, "mean of column %d", (int)j);
        }
        if (mi == 1) {
            std::vector<T> s = result_n<T>(h, da_pca_column_sdevs, d, "sdevs");
            for (da_int j = 0; j < d; j++)
                NEAR("pca:sdevs", sd[j], s[j], 20 * e * n * big, "standard deviation of column %d", (int)j);
        }
        if (store) {
            View<T> U{result_n<T>(h, da_pca_u, n * ke, "u"), n, ke, o};
            View<T> Z{result_n<T>(h, da_pca_scores, n * ke, "scores"), n, ke, o};
            probe("pca_u");
            for (da_int a = 0; a < ke; a++) {
                for (da_int i = 0; i < n; i++) {
                    NEAR("pca:scores", U(i, a) * (whiten ? sdof : (L)sig[a]), Z(i, a), 8 * e * (fabsl(Z(i, a)) + 1e-20L),
                         "score (%d,%d) from U", (int)i, (int)a);
                    if (exact)
                        NEAR("pca:factor", P[(size_t)a * n + i], U(i, a) * sig[a], tS + tP, "U*Sigma (%d,%d)", (int)i, (int)a);
                }
                for (da_int b = a; b < ke; b++) {
                    L s = 0;
                    for (da_int i = 0; i < n; i++)
                        s += U(i, a) * U(i, b);
                    if (sig[a] > floor_ && sig[b] > floor_)
                        NEAR("pca:u", a == b ? 1.0L : 0.0L, s, (sizeof(T) == 8 ? 1e-8L : 1e-2L), "columns %d,%d of U", (int)a,
                             (int)b);
                }
            }
        }
        if (chance("transform", 0.7)) {
            da_int m = (da_int)pick("m", 1, 12);
            Mat<T> Q(m, d, o, (da_int)pick("qpad", 0, 2)), Y(m, ke, o, (da_int)pick("ypad", 0, 2));
            std::vector<L> qs(d, 1.5L), q0(d, 0.5L);
            fill(Q, r, qs, q0);
            Q.input();
            OKH(h.h, "da_pca_transform", da_pca_transform(h.h, m, d, Q.p(), Q.ld, Y.p(), Y.ld));
            for (da_int i = 0; i < m; i++)
                for (da_int a = 0; a < ke; a++) {
                    L s = 0, mag = 0;
                    for (da_int j = 0; j < d; j++) {
                        L f = mi == 1 && sd[j] != 0 ? sd[j] : 1, v = ((L)Q(i, j) - mean[j]) / f * V(a, j);
                        s += v;
                        mag += (fabsl((L)Q(i, j)) + fabsl(mean[j])) / f * (n + 4);
                    }
                    if (whiten) {
                        if (!(sig[a] > floor_))
                            continue;
                        s *= sdof / sig[a];
                        mag *= sdof / sig[a];
                    }
                    NEAR("pca:transform", s, Y(i, a), 40 * e * (d + 4) * mag, "transformed (%d,%d)", (int)i, (int)a);
                }
            probe("pca_transform");
        }
        if (chance("inverse", 0.7)) {
            da_int m = (da_int)pick("im", 1, 12);
            Mat<T> Y(m, ke, o, (da_int)pick("iypad", 0, 2)), Q(m, d, o, (da_int)pick("iqpad", 0, 2));
            std::vector<L> ys(ke, 1), y0(ke, 0);
            fill(Y, r, ys, y0);
            Y.input();
            OKH(h.h, "da_pca_inverse_transform", da_pca_inverse_transform(h.h, m, ke, Y.p(), Y.ld, Q.p(), Q.ld));
            for (da_int i = 0; i < m; i++)
                for (da_int j = 0; j < d; j++) {
                    L s = 0, f = mi == 1 && sd[j] != 0 ? sd[j] : 1, mag = fabsl(mean[j]) + 1e-30L;
                    for (da_int a = 0; a < ke; a++) {
                        L v = (L)Y(i, a) * V(a, j) * (whiten ? sig[a] / sdof : 1);
                        s += v;
                        mag += fabsl((L)Y(i, a)) * f * (whiten ? fabsl(sig[a]) / sdof : 1);
                    }
                    NEAR("pca:inverse", s * f + mean[j], Q(i, j), 40 * e * (n + ke + 4) * mag, "inverse transformed (%d,%d)",
                         (int)i, (int)j);
                }
            probe("pca_inverse");
        }
        probe(mi == 0 ? "pca_cov" : mi == 1 ? "pca_corr" : "pca_svd");
    }
}

// ---- kernel pca -------------------------------------------------------------------
static L kern(int kind, const LV &a, const LV &b, L gamma, L c0, int deg) {
    L s = 0, q = 0;
    for (size_t j = 0; j < a.size(); j++) {
        s += a[j] * b[j];
        q += (a[j] - b[j]) * (a[j] - b[j]);
    }
    switch (kind) {
    case 0: return s;
    case 1: return powl(gamma * s + c0, deg);
    case 2: return expl(-gamma * q);
    default: return tanhl(gamma * s + c0);
    }
}
template <typename T> void kernel_pca() {
    Env env;
    sim::Rng r = rng("data");
    da_int n = (da_int)pick("n", 3, 26), d = (da_int)pick("d", 1, 6);
    da_order o = chance("rowmajor", 0.5) ? row_major : column_major;
    static const char *const ks[] = {"linear", "poly", "rbf", "sigmoid", "precomputed"};
    int kind = (int)pick("kernel", 0, 4), base = kind == 4 ? (int)pick("base", 0, 2) : kind;
    int deg = (int)pick("degree", 1, 3);
    bool gdef = chance("gamma_default", 0.3), rand_ = chance("randomized", 0.25), zero = chance("remove_zero", 0.3),
         copy = chance("copy", 0.6), inv = kind != 4 && chance("inverse_fit", 0.4);
    L gamma = gdef ? 1.0L / d : (L)(T)0.4L, c0 = (L)(T)(kind == 3 ? 0.0 : 0.5);
    da_int k = (da_int)pick("k", rand_ ? 1 : 0, (int)n), over = (da_int)pick("over", 0, 10);
    Handle h;
    hinit<T>(h, da_handle_kernel_pca);
    opt(h, "storage order", o == row_major ? "row-major" : "column-major");
    opt(h, "kernel", ks[kind]);
    optr<T>(h, "gamma", gdef ? (T)-1 : (T)gamma);
    optr<T>(h, "coef0", (T)c0);
    opti(h, "degree", deg);
    opti(h, "n_components", k);
    opt(h, "remove zero eig", zero ? "yes" : "no");
    opt(h, "copy data", copy ? "yes" : "no");
    opt(h, "fit inverse transform", inv ? "yes" : "no");
    opt(h, "eigensolver", rand_ ? "randomized" : chance("syevd", 0.5) ? "syevd" : "auto");
    if (rand_) {
        opti(h, "n_oversamples", over);
        opti(h, "power iterations", (da_int)pick("power", -1, 4));
        opt(h, "power normalization", chance("lu", 0.4) ? "lu" : "qr");
        opti(h, "seed", (da_int)pick("seed", -1, 100));
    }
    L ridge = (L)(T)(inv ? 0.5 : 1.0);
    optr<T>(h, "alpha", (T)ridge);
    char what[220];
    snprintf(what, sizeof what, "kernel_pca %s %s%s n=%d d=%d k=%d %s gamma=%g degree=%d randomized=%d over=%d remove_zero=%d copy=%d inv=%d",
             pname<T>(), ks[kind], kind == 4 ? ks[base] : "", (int)n, (int)d, (int)k, o == row_major ? "row" : "col", (double)gamma,
             deg, rand_, (int)over, zero, copy, inv);
    sim::log("%s", what);
    Mat<T> X(n, d, o, (da_int)pick("pad", 0, 3));
    std::vector<L> sc(d, 1), sh(d, chance("shift", 0.4) ? 1 : 0);
    fill(X, r, sc, sh);
    if (chance("dup", 0.2))
        for (da_int j = 0; j < d; j++)
            X(n - 1, j) = X(0, j);
    std::vector<LV> rows(n, LV(d));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < d; j++)
            rows[i][j] = X(i, j);
    Mat<T> KM;
    LV K((size_t)n * n), rm(n, 0);
    L kbig = 0, gm = 0;
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < n; j++)
            K[i * n + j] = kern(base, rows[i], rows[j], gamma, c0, deg);
    if (kind == 4) {
        KM.init(n, n, o, (da_int)pick("kpad", 0, 2));
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < n; j++)
                K[i * n + j] = KM(i, j) = (T)K[(i < j ? i * n + j : j * n + i)];
        KM.input();
    }
    X.input();
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < n; j++) {
            kbig = std::max(kbig, fabsl(K[i * n + j]));
            rm[i] += K[i * n + j] / n;
        }
    for (da_int i = 0; i < n; i++)
        gm += rm[i] / n;
    LV C((size_t)n * n);
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < n; j++)
            C[i * n + j] = K[i * n + j] - rm[i] - rm[j] + gm;
    LV ref = eigenvalues(C, n);
    {
        Mat<T> &S = kind == 4 ? KM : X;
        OKH(h.h, "da_kernel_pca_set_data", da_kernel_pca_set_data(h.h, n, S.c, S.p(), S.ld));
    }
    da_status st;
    {
        sim::Api a("da_kernel_pca_compute");
        st = da_kernel_pca_compute<T>(h.h);
    }
    L e = eps<T>(), tK = (sizeof(T) == 8 ? 2000 : 400) * e * n * (kbig * n + 1);
    if (st == da_status_numerical_difficulties) {
        probe("kernel_indefinite");
        if (kind != 3)
            failf("kpca:status", "%s: reported as indefinite, smallest eigenvalue %.3Lg", what, ref[n - 1]);
        return;
    }
    if (st != da_status_success) {
        if (ref[0] <= tK)
            return; // nothing to decompose
        failf("kpca:status", "%s: compute returned %d: %s", what, (int)st, errmsg(h.h).c_str());
    }
    da_int q = 0, one = 1;
    {
        sim::Api a("da_handle_get_result");
        st = da_handle_get_result_int(h.h, da_kernel_pca_n_components, &one, &q);
    }
    if (st != da_status_success || q < 0 || q > n || (k && q > k))
        failf("kpca:n_components", "%s: status %d n_components %d", what, (int)st, (int)q);
    if (k && !zero && q != k)
        failf("kpca:n_components", "%s: %d components computed", what, (int)q);
    if (q == 0)
        return;
    if (k == 0 || zero) { // every eigenvalue clearly above zero is kept
        da_int sure = 0, maybe = 0;
        for (da_int i = 0; i < (k ? k : n); i++) {
            sure += ref[i] > tK + (sizeof(T) == 8 ? 1e-5L : 1e-2L) * ref[0];
            maybe += ref[i] > -1;
        }
        if (q < sure && !rand_)
            failf("kpca:n_components", "%s: %d components kept, %d eigenvalues are well above zero", what, (int)q, (int)sure);
    }
    std::vector<T> g = result_n<T>(h, da_kernel_pca_gamma, 1, "gamma");
    if (kind == 1 || kind == 2 || kind == 3)
        NEAR("kpca:gamma", gamma, g[0], 4 * e * gamma, "resolved gamma");
    std::vector<T> ev = result_n<T>(h, da_kernel_pca_eigenvalues, q, "eigenvalues");
    View<T> V{result_n<T>(h, da_kernel_pca_eigenvectors, n * q, "eigenvectors"), n, q, o};
    View<T> Z{result_n<T>(h, da_kernel_pca_scores, n * q, "scores"), n, q, o};
    hash_vec(ev);
    hash_vec(Z.v);
    // enough extra columns that the random subspace is the whole space
    bool exact = !rand_ || std::min<da_int>((k ? k : n) + over, n) == n;
    for (da_int a = 0; a < q; a++) {
        if (exact)
            NEAR("kpca:eigenvalue", std::max((L)0, ref[a]), ev[a], tK, "eigenvalue %d", (int)a);
        else if (!(ev[a] <= std::max((L)0, ref[a]) + tK && ev[a] >= 0))
            failf("kpca:eigenvalue", "%s: approximate eigenvalue %d = %.9g, true %.9Lg", what, (int)a, (double)ev[a], ref[a]);
        if (a && !(ev[a] <= ev[a - 1] + tK))
            fail("kpca:order", std::string(what) + ": eigenvalues not in decreasing order");
        for (da_int i = 0; i < n; i++) {
            L s = 0;
            for (da_int j = 0; j < n; j++)
                s += C[i * n + j] * V(j, a);
            if (exact)
                NEAR("kpca:eigenvector", ev[a] * V(i, a), s, 2 * tK + (kind == 3 && ev[a] == 0 ? (sizeof(T) == 8 ? 1.1e-5L : 5.1e-3L) * ref[0] : 0), "residual of eigenpair %d, row %d", (int)a, (int)i);
            NEAR("kpca:scores", V(i, a) * sqrtl(std::max((T)0, ev[a])), Z(i, a), 16 * e * sqrtl(fabsl(ev[a])) + 1e-30L, "score (%d,%d)", (int)i,
                 (int)a);
        }
        for (da_int b = a; b < q; b++) {
            L s = 0;
            for (da_int i = 0; i < n; i++)
                s += V(i, a) * V(i, b);
            NEAR("kpca:orthonormal", a == b ? 1.0L : 0.0L, s, 200 * e * n, "eigenvectors %d,%d", (int)a, (int)b);
        }
    }
    probe(kind == 4 ? "kpca_precomputed" : "kpca_kernel");
    L floor_ = (sizeof(T) == 8 ? 1e-6L : 2e-2L) * ref[0];
    if (chance("transform", 0.8)) {
        da_int m = (da_int)pick("m", 1, 10);
        std::vector<LV> qr(m, LV(d));
        Mat<T> Q(m, d, o, (da_int)pick("qpad", 0, 2));
        fill(Q, r, sc, sh);
        for (da_int i = 0; i < m; i++)
            for (da_int j = 0; j < d; j++)
                qr[i][j] = Q(i, j);
        LV KN((size_t)m * n);
        Mat<T> KQ(m, n, o, 0);
        for (da_int i = 0; i < m; i++)
            for (da_int j = 0; j < n; j++) {
                KN[i * n + j] = kern(base, qr[i], rows[j], gamma, c0, deg);
                if (kind == 4)
                    KN[i * n + j] = KQ(i, j) = (T)KN[i * n + j];
            }
        Q.input();
        Mat<T> &In = kind == 4 ? KQ : Q;
        Mat<T> Y(m, q, o, (da_int)pick("ypad", 0, 2));
        OKH(h.h, "da_kernel_pca_transform", da_kernel_pca_transform(h.h, m, In.c, In.p(), In.ld, Y.p(), Y.ld));
        for (da_int i = 0; i < m; i++) {
            L mi = 0, mg = 0;
            for (da_int j = 0; j < n; j++) {
                mi += KN[i * n + j] / n;
                mg = std::max(mg, fabsl(KN[i * n + j]));
            }
            for (da_int a = 0; a < q; a++) {
                if (!(ev[a] > floor_))
                    continue;
                L s = 0;
                for (da_int j = 0; j < n; j++)
                    s += (KN[i * n + j] - mi - rm[j] + gm) * V(j, a);
                NEAR("kpca:transform", s / sqrtl(ev[a]), Y(i, a), 400 * e * n * (mg + kbig + 1) / sqrtl(ev[a]),
                     "transformed (%d,%d)", (int)i, (int)a);
            }
        }
        probe("kpca_transform");
    }
    if (inv) {
        View<T> W{result_n<T>(h, da_kernel_pca_dual_coef, n * d, "dual_coef"), n, d, o};
        std::vector<LV> zr(n, LV(q));
        L wmax = 0;
        for (da_int i = 0; i < n; i++)
            for (da_int a = 0; a < q; a++)
                zr[i][a] = Z(i, a);
        L km = 0;
        LV KZ((size_t)n * n);
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < n; j++) {
                KZ[i * n + j] = kern(base, zr[i], zr[j], gamma, c0, deg);
                km = std::max(km, fabsl(KZ[i * n + j]));
            }
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < d; j++)
                wmax = std::max(wmax, fabsl(W(i, j)));
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < d; j++) {
                L s = ridge * W(i, j);
                for (da_int l = 0; l < n; l++)
                    s += KZ[i * n + l] * W(l, j);
                NEAR("kpca:dual", rows[i][j], s, 800 * e * n * (km + 1) * (wmax + 1) * (base == 1 ? 4 : 1),
                     "ridge equations of the inverse transform, row %d feature %d", (int)i, (int)j);
            }
        da_int m = (da_int)pick("im", 1, 8);
        Mat<T> Y(m, q, o, (da_int)pick("iypad", 0, 2)), R(m, d, o, (da_int)pick("irpad", 0, 2));
        std::vector<L> ys(q, 0.5L), y0(q, 0);
        fill(Y, r, ys, y0);
        Y.input();
        OKH(h.h, "da_kernel_pca_inverse_transform", da_kernel_pca_inverse_transform(h.h, m, q, Y.p(), Y.ld, R.p(), R.ld));
        for (da_int i = 0; i < m; i++) {
            LV yr(q);
            for (da_int a = 0; a < q; a++)
                yr[a] = Y(i, a);
            for (da_int j = 0; j < d; j++) {
                L s = 0, mg = 1e-30L;
                for (da_int l = 0; l < n; l++) {
                    L kv = kern(base, yr, zr[l], gamma, c0, deg);
                    s += kv * W(l, j);
                    mg += (fabsl(kv) + km) * wmax;
                }
                NEAR("kpca:inverse", s, R(i, j), 200 * e * (n + q) * (mg + 1), "inverse transformed (%d,%d)", (int)i, (int)j);
            }
        }
        probe("kpca_inverse");
    }
}
template <template <typename> class F> void both() {
    if (chance("float", 0.3))
        F<float>::go();
    else
        F<double>::go();
}
template <typename T> struct Mse { static void go() { mse<T>(); } };
template <typename T> struct Log { static void go() { logistic<T>(); } };
template <typename T> struct Pca { static void go() { pca<T>(); } };
template <typename T> struct KPca { static void go() { kernel_pca<T>(); } };
static void s_mse() { both<Mse>(); }
static void s_log() { both<Log>(); }
static void s_pca() { both<Pca>(); }
static void s_kpca() { both<KPca>(); }
sim::Scenario sim_scenarios[] = {{"mse", s_mse, 3}, {"logistic", s_log, 2}, {"pca", s_pca, 2}, {"kernel_pca", s_kpca, 2}, {nullptr, nullptr, 0}};
