// C05: a trained support vector machine satisfies the optimality conditions of its problem, its results agree with each
// other, and its predictions follow from them, whatever the schedule, team size, working set and cache.
// modules: svm kernel_functions metrics basic_statistics
#include "common.hpp"
const char *sim_property = "C05";
const char *sim_rule = "a run counts when a model was trained, its optimality conditions were evaluated in extended precision and "
                       "its answers were recomputed from its results; distinct = distinct event hashes";
const char *sim_real_components = "da_svm handle and options, SMO solver, kernel cache, one-vs-one composition, blocked decision "
                                  "function, probability calibration: all real code from /repo";
const char *sim_stub_components = "OpenMP runtime, threads, allocator (simulated); BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}

typedef long double L;
typedef std::vector<L> LV;
enum { LINEAR, POLY, RBF, SIGMOID };
struct Kern {
    int kind;
    L gamma, coef0;
    int deg;
    // value, and a bound of what rounding in precision eps may change
    L operator()(const LV &a, const LV &b, L eps, L *err) const {
        L s = 0, na = 0, nb = 0;
        for (size_t i = 0; i < a.size(); i++)
            s += a[i] * b[i], na += a[i] * a[i], nb += b[i] * b[i];
        L e = eps * (L)(a.size() + 8);
        if (kind == LINEAR) {
            *err = e * sqrtl(na * nb);
            return s;
        }
        if (kind == RBF) {
            L d = na + nb - 2 * s, v = expl(-gamma * std::max<L>(d, 0));
            *err = v * (expm1l(std::min<L>(gamma * 3 * e * (na + nb), 40)) + 4 * e) + 1e-300L;
            return v;
        }
        L z = gamma * s + coef0, ze = e * (gamma * sqrtl(na * nb) + fabsl(coef0));
        if (kind == POLY) {
            L v = powl(z, deg);
            *err = powl(fabsl(z) + ze, deg) * (1 + e * deg) - powl(fabsl(z), deg) + e * fabsl(v);
            return v;
        }
        *err = ze + 4 * e;
        return tanhl(z);
    }
};
static const char *kname[] = {"linear", "poly", "rbf", "sigmoid"};
static const char *mname[] = {"svc", "nusvc", "svr", "nusvr"};

// optimality of one problem: f without the bias and its error bound, coefficients, targets (+1/-1 or values)
struct Problem {
    int model;
    L C, nu, eps, tol, bias, updates;
    LV f, ferr, coef, y;
};
// largest violation of the optimality conditions in excess of the tolerance (in units of f)
static bool optimal(const Problem &P, L ueps, std::string *why) {
    size_t n = P.y.size();
    char b[240];
    L sum = 0, mag = 0, C = P.C, tol = P.tol, total = 0;
    for (size_t i = 0; i < n; i++)
        sum += P.coef[i], mag += fabsl(P.coef[i]);
    L slack = 200 * ueps * (mag + P.C * (P.model == 1 ? 0 : 1)) * sqrtl(((L)n + 1) * P.updates);
    if (P.model == 1) {
        L s = mag > 0 ? P.nu * n / mag : 1; // the multipliers are scaled by the margin
        C = 1 / s;
        tol = P.tol / s;
        slack = 200 * ueps * mag * sqrtl(((L)n + 1) * P.updates);
        total = P.nu * n / s;
    }
    slack += n * ueps; // multipliers below one ulp are dropped
    if (fabsl(sum) > slack) {
        snprintf(b, sizeof b, "the dual coefficients sum to %.4Lg (their magnitudes to %.4Lg)", sum, mag);
        *why = b;
        return false;
    }
    (void)total;
    L lo = -INFINITY, hi = INFINITY; // nu-SVR: the tube
    L near = 1e-6L > 1000 * ueps ? 1e-6L : 1000 * ueps;
    for (size_t i = 0; i < n; i++) {
        L a = P.coef[i], f = P.f[i] + P.bias, t = tol + 4 * P.ferr[i] + near * 1e-3L;
        if (P.model <= 1) {
            L v = a * P.y[i], m = P.y[i] * f;
            if (v < -slack || v > C * (1 + near) + slack) {
                snprintf(b, sizeof b, "dual variable %zu is %.6Lg, outside [0, %.6Lg]", i, v, C);
                *why = b;
                return false;
            }
            bool zero = v <= near * C, full = v >= C * (1 - near);
            // close to a bound the conditions of either side are accepted
            if ((!full && m < 1 - t) || (!zero && m > 1 + t)) {
                snprintf(b, sizeof b, "sample %zu: margin %.6Lg with dual variable %.6Lg of %.6Lg (allowance %.2Lg)", i, m, v, C, t);
                *why = b;
                return false;
            }
        } else {
            L r = P.y[i] - f;
            if (fabsl(a) > C * (1 + near) + slack) {
                snprintf(b, sizeof b, "coefficient %zu is %.6Lg, the bound is %.6Lg", i, a, C);
                *why = b;
                return false;
            }
            bool zero = fabsl(a) <= near * C, full = fabsl(a) >= C * (1 - near);
            L s = a < 0 ? -1 : 1, q = zero ? fabsl(r) : s * r;
            if (P.model == 2) {
                if ((!full && q > P.eps + t) || (!zero && q < P.eps - t)) {
                    snprintf(b, sizeof b, "sample %zu: residual %.6Lg with coefficient %.6Lg, epsilon %.6Lg, C %.6Lg (allowance %.2Lg)",
                             i, r, a, P.eps, C, t);
                    *why = b;
                    return false;
                }
            } else {
                if (!full)
                    lo = std::max(lo, q - t);
                if (!zero)
                    hi = std::min(hi, q + t);
            }
        }
    }
    if (P.model == 3) {
        if (lo > hi) {
            snprintf(b, sizeof b, "no tube fits: it must be at least %.6Lg and at most %.6Lg wide", lo, hi);
            *why = b;
            return false;
        }
        if (mag > P.C * P.nu * n * (1 + near) + slack) {
            snprintf(b, sizeof b, "the coefficients add up to %.6Lg, more than C nu n = %.6Lg", mag, P.C * P.nu * n);
            *why = b;
            return false;
        }
    }
    return true;
}
template <typename T> static std::vector<T> ints(Handle &h, da_result q, da_int n, const char *w) {
    return n ? result_n<T>(h, q, n, w) : std::vector<T>();
}
template <typename T> static void run() {
    Env env;
    Handle h;
    hinit<T>(h, da_handle_svm);
    int rounds = (int)pick("rounds", 1, 2);
    const L ue = std::numeric_limits<T>::epsilon();
    for (int round = 0; round < rounds; round++) {
        int model = (int)pick("model", 0, 3), kind = (int)pick("kernel", 0, 3);
        bool cls = model < 2;
        da_int K = cls ? (da_int)pick("classes", 2, 4) : 1;
        da_int n = (da_int)(chance("many", 0.1) ? pick("n_many", 60, 150) : pick("n", 2 * (int)K + 2, 40)), d = (da_int)pick("d", 1, 5);
        da_order o = chance("row_major", 0.4) ? row_major : column_major;
        sim::Rng r("data");
        Mat<T> X(n, d, o, (da_int)pick("pad", 0, 2));
        bool few = chance("few_values", 0.3);
        L spread = 0.5L * pick("spread", 0, 6);
        Buf<T> y(n);
        for (da_int i = 0; i < n; i++) {
            da_int c = cls ? (i < 2 * K ? i % K : (da_int)r.below(K)) : 0;
            L base = 0;
            for (da_int j = 0; j < d; j++) {
                L v = few ? (L)r.range(-2, 2) : r.normal();
                base += v * (j + 1);
                X(i, j) = (T)(v + (cls ? spread * ((c + j) % K) : 0));
            }
            y[i] = cls ? (T)c : (T)(base * 0.5L + r.normal() * 0.3L);
        }
        X.input();
        y.input();
        L C = sim::one_of<double>("C", {1, 0.125, 8, 16}), eps = 0.0625L * pick("epsilon", 0, 6),
          tol = sim::one_of<double>("tolerance", {1e-3, 1e-2, 1e-4});
        L nu = 0;
        if (cls) { // feasible for every pair of classes
            std::vector<da_int> cnt(K);
            for (da_int i = 0; i < n; i++)
                cnt[(da_int)y[i]]++;
            L best = 1;
            for (da_int a = 0; a < K; a++)
                for (da_int b = a + 1; b < K; b++)
                    best = std::min<L>(best, 2 * (L)std::min(cnt[a], cnt[b]) / (cnt[a] + cnt[b]));
            nu = (T)(best * 0.125L * pick("nu", 1, 7));
        } else
            nu = 0.125L * pick("nu", 1, 8);
        Kern k;
        k.kind = kind;
        k.deg = (int)pick("degree", 1, 3);
        L gopt = sim::one_of<double>("gamma", {-1, 0.125, 0.5, 1});
        k.coef0 = 0.5L * pick("coef0", 0, 2);
        if (kind == SIGMOID)
            k.coef0 = -k.coef0;
        L mean = 0, var = 0;
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < d; j++)
                mean += X(i, j);
        mean /= n * d;
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < d; j++)
                var += (X(i, j) - mean) * (X(i, j) - mean);
        var /= n * d;
        if (gopt < 0 && var < 1e-6L)
            gopt = 0.5L;
        k.gamma = gopt < 0 ? 1 / (d * var) : gopt;
        da_int maxit = chance("limit", 0.1) ? (da_int)pick("max_iter", 1, 20) : n > 50 ? 10 : 120,
               ws = chance("ws", 0.5) ? (da_int)sim::one_of<int>("ws_size", {4, 2, 8, 16, 64, 1, 3, 5}) : -1;
        L cache = chance("cache", 0.4) ? (L)sim::one_of<double>("cache_mb", {0.0, 0.0005, 0.002, 0.01}) : -1;
        bool proba = cls && chance("proba", 0.2), mixed = sizeof(T) == 8 && chance("mixed", 0.15);
        opt(h, "storage order", o == row_major ? "row-major" : "column-major");
        opt(h, "kernel", kname[kind]);
        opti(h, "degree", k.deg);
        optr<T>(h, "gamma", (T)gopt);
        optr<T>(h, "coef0", (T)k.coef0);
        optr<T>(h, "c", (T)C);
        optr<T>(h, "epsilon", (T)eps);
        optr<T>(h, "nu", (T)nu);
        optr<T>(h, "tolerance", (T)tol);
        optr<T>(h, "cache size", (T)cache);
        opti(h, "max_iter", maxit);
        opti(h, "low precision max_iter", maxit);
        opti(h, "max_ws_size", ws);
        opti(h, "predict probabilities", proba);
        opti(h, "n_folds", (da_int)pick("folds", 2, 4));
        opti(h, "seed", (da_int)pick("seed", 0, 9));
        opt(h, "mixed precision", mixed ? "yes" : "no");
        char what[300];
        snprintf(what, sizeof what, "%s %s %s n=%d d=%d K=%d %s C=%Lg nu=%Lg eps=%Lg gamma=%Lg coef0=%Lg deg=%d tol=%Lg ws=%d cache=%Lg it=%d%s%s",
                 mname[model], pname<T>(), kname[kind], (int)n, (int)d, (int)K, o == row_major ? "row" : "col", C, nu, eps, k.gamma,
                 k.coef0, k.deg, tol, (int)ws, cache, (int)maxit, proba ? " proba" : "", mixed ? " mixed" : "");
        OKH(h.h, "da_svm_select_model", da_svm_select_model<T>(h.h, (da_svm_model[]){svc, nusvc, svr, nusvr}[model]));
        OKH(h.h, "da_svm_set_data", da_svm_set_data<T>(h.h, n, d, X.p(), X.ld, y.p));
        da_status st;
        {
            sim::Api a("da_svm_compute");
            st = da_svm_compute<T>(h.h);
        }
        sim::state(sim::hash_str(what));
        std::string msg = errmsg(h.h);
        if (st == da_status_numerical_difficulties && (model == 1 || msg.find("No support") != std::string::npos)) {
            if (msg.find("No support") == std::string::npos) {
                probe("nusvc_difficulties"); // the margin is zero
                return;
            }
        } else if (st != da_status_success)
            failf("train:status", "%s: status %d: %s", what, (int)st, msg.c_str());
        // ---- results
        da_int nsv = result_n<da_int>(h, da_svm_n_support_vectors, 1, "n_sv")[0], np = K > 1 ? K * (K - 1) / 2 : 1, rows = std::max<da_int>(K - 1, 1);
        if (nsv < 0 || nsv > n || (st == da_status_success) == (nsv == 0))
            failf("result:nsv", "%s: %d support vectors with status %d", what, (int)nsv, (int)st);
        std::vector<da_int> idx = ints<da_int>(h, da_svm_idx_support_vectors, nsv, "indices"),
                            per = result_n<da_int>(h, da_svm_n_support_vectors_per_class, K, "per class"),
                            its = result_n<da_int>(h, da_svm_n_iterations, np, "iterations");
        std::vector<T> sv = ints<T>(h, da_svm_support_vectors, nsv * d, "support vectors"),
                       co = ints<T>(h, da_svm_dual_coef, nsv * rows, "coefficients"), bias = result_n<T>(h, da_svm_bias, np, "bias");
        std::vector<char> is(n);
        std::vector<da_int> cnt(K), pos(n, -1);
        for (da_int s = 0; s < nsv; s++) {
            if (idx[s] < 0 || idx[s] >= n || is[idx[s]])
                failf("result:indices", "%s: support vector %d is row %d (out of range or repeated)", what, (int)s, (int)idx[s]);
            is[idx[s]] = 1;
            pos[idx[s]] = s;
            cnt[cls ? (da_int)y[idx[s]] : 0]++;
            for (da_int j = 0; j < d; j++)
                if (sv[o == row_major ? s * d + j : j * nsv + s] != X(idx[s], j))
                    failf("result:vectors", "%s: feature %d of support vector %d is %.9g, but row %d has %.9g", what, (int)j, (int)s,
                          (double)sv[o == row_major ? s * d + j : j * nsv + s], (int)idx[s], (double)X(idx[s], j));
        }
        for (da_int c = 0; c < K; c++)
            if (per[c] != cnt[c])
                failf("result:perclass", "%s: class %d is said to have %d support vectors, %d are listed", what, (int)c, (int)per[c],
                      (int)cnt[c]);
        for (da_int p = 0; p < np; p++)
            if (its[p] < 0 || its[p] > maxit)
                failf("result:iterations", "%s: %d iterations, the limit is %d", what, (int)its[p], (int)maxit);
        auto coef = [&](da_int row, da_int s) { return (L)co[o == row_major ? row * nsv + s : s * rows + row]; };
        std::vector<LV> xs(n, LV(d));
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < d; j++)
                xs[i][j] = X(i, j);
        std::vector<LV> km(n, LV(n)), ke(n, LV(n));
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < n; j++)
                km[i][j] = k(xs[i], xs[j], ue, &ke[i][j]);
        // ---- optimality, pair by pair
        auto pairs = [&](const std::function<void(da_int, da_int, da_int)> &f) {
            if (K < 2)
                return f(0, -1, -1);
            da_int p = 0;
            for (da_int a = 0; a < K; a++)
                for (da_int b = a + 1; b < K; b++)
                    f(p++, a, b);
        };
        // coefficient of row i in problem p between the classes a (positive) and b
        auto paircoef = [&](da_int i, da_int a, da_int b) -> L {
            if (pos[i] < 0)
                return 0;
            if (K <= 2)
                return coef(0, pos[i]);
            da_int c = (da_int)y[i], other = c == a ? b : a;
            return coef(other < c ? other : other - 1, pos[i]);
        };
        pairs([&](da_int p, da_int a, da_int b) {
            Problem P;
            P.model = model;
            P.C = C, P.nu = nu, P.eps = eps, P.tol = tol, P.bias = bias[p], P.updates = its[p] + 1;
            std::vector<da_int> in;
            for (da_int i = 0; i < n; i++)
                if (!cls || y[i] == (T)a || y[i] == (T)b)
                    in.push_back(i);
            L kmax = 0;
            for (da_int i : in)
                for (da_int j : in)
                    kmax = std::max(kmax, fabsl(km[i][j]));
            for (da_int i : in) {
                L f = 0, e = 0;
                for (da_int j : in) {
                    L c = paircoef(j, a, b);
                    f += c * km[i][j];
                    e += fabsl(c) * (ke[i][j] + ue * fabsl(km[i][j]));
                }
                P.f.push_back(f);
                // the solver accumulates changes of f over its iterations
                P.ferr.push_back(e * 4 * sqrtl((L)its[p] + 1) + ue * fabsl(P.bias) + ue * (fabsl(f) + C + (L)n * kmax) * 4);
                P.coef.push_back(paircoef(i, a, b));
                P.y.push_back(!cls ? (L)y[i] : K == 2 ? (y[i] == (T)1 ? 1 : -1) : y[i] == (T)a ? 1 : -1);
            }
            if (its[p] >= maxit) {
                probe("iteration_limit");
                P.tol = INFINITY; // only the constraints
            }
            L big = 0;
            for (L c : P.coef)
                big = std::max(big, fabsl(c));
            if (cls && model == 1 && big > 0.05L / tol) {
                probe("degenerate_margin"); // the margin, which the problem is scaled by, is below the tolerance
                return;
            }
            L margin = 0;
            for (size_t i = 0; i < in.size(); i++)
                margin += P.coef[i] * P.y[i];
            if (cls && model == 1 && kind == 3 && margin < 0) {
                probe("negative_margin"); // an indefinite kernel
                return;
            }
            if (C > 2 || model == 3) {
                // slow progress can leave the largest violation of a working set unchanged for several iterations,
                // which also ends the search
                for (L v : P.f)
                    P.tol = std::max(P.tol, 0.05L * (1 + fabsl(v)));
            }
            if (its[p] >= maxit && cls && model == 1 && margin < 0)
                return;
            if (ws >= 0 && ws < 16) {
                // the solver also stops when the violation of the working set stagnates, which progress can
                // look like when the set is tiny
                P.tol = INFINITY;
            }
            std::string why;
            if (!optimal(P, mixed ? std::numeric_limits<float>::epsilon() : ue, &why))
                failf((std::string("optimality:") + mname[model]).c_str(), "%s: problem %d (%d iterations): %s", what, (int)p, (int)its[p],
                      why.c_str());
        });
        probe(mname[model]);
        probe(kname[kind]);
        if (K > 2)
            probe("multiclass");
        // ---- predictions
        for (int q = 0, nqueries = (int)pick("queries", 1, 2); q < nqueries; q++) {
            da_int m = (da_int)(chance("manyq", 0.15) ? pick("m_many", 30, 260) : pick("m", 1, 12));
            Mat<T> Q(m, d, o, (da_int)pick("qpad", 0, 2));
            Buf<T> yq(m), pred(m), score(1);
            for (da_int i = 0; i < m; i++) {
                bool own = r.below(3) == 0;
                da_int s = (da_int)r.below(n);
                for (da_int j = 0; j < d; j++)
                    Q(i, j) = own ? X(s, j) : (T)(r.normal() * 3);
                yq[i] = cls ? (T)r.below(K) : own ? y[s] : (T)r.normal();
            }
            if (chance("perfect", 0.1) && !cls)
                for (da_int i = 0; i < m; i++)
                    yq[i] = 1;
            Q.input();
            yq.input();
            std::vector<LV> f(np, LV(m)), fe(np, LV(m));
            for (da_int i = 0; i < m; i++) {
                LV x(d), kv(n), kerr(n);
                for (da_int j = 0; j < d; j++)
                    x[j] = Q(i, j);
                for (da_int j = 0; j < n; j++)
                    if (is[j])
                        kv[j] = k(xs[j], x, ue, &kerr[j]);
                pairs([&](da_int p, da_int a, da_int b) {
                    L s = bias[p], e = ue * fabsl(s);
                    for (da_int j = 0; j < n; j++)
                        if (is[j] && (!cls || y[j] == (T)a || y[j] == (T)b)) {
                            L c = paircoef(j, a, b);
                            s += c * kv[j];
                            e += fabsl(c) * (kerr[j] + ue * (L)(nsv + 4) * fabsl(kv[j]));
                        }
                    f[p][i] = s;
                    L kmax = 1;
                    for (da_int j = 0; j < n; j++)
                        kmax = std::max(kmax, fabsl(kv[j]));
                    fe[p][i] = 4 * e + 4 * ue * (C + 1) * kmax; // multipliers below one ulp are dropped
                });
            }
            OKH(h.h, "da_svm_predict", da_svm_predict<T>(h.h, m, d, Q.p(), Q.ld, pred.p));
            std::vector<std::vector<char>> fits(m);
            for (da_int i = 0; i < m; i++) {
                if (!cls) {
                    if (!(fabsl((L)pred[i] - f[0][i]) <= fe[0][i]))
                        failf("predict:value", "%s: sample %d: predicted %.9g, the model gives %.9Lg", what, (int)i, (double)pred[i], f[0][i]);
                    continue;
                }
                da_int c = (da_int)pred[i];
                if ((T)c != pred[i] || c < 0 || c >= K)
                    failf("predict:class", "%s: sample %d: predicted %.9g", what, (int)i, (double)pred[i]);
                std::vector<da_int> sure(K), may(K);
                pairs([&](da_int p, da_int a, da_int b) {
                    da_int up = K == 2 ? 1 : a, down = K == 2 ? 0 : b;
                    bool can_up = f[p][i] + fe[p][i] > 0, can_down = f[p][i] - fe[p][i] <= 0;
                    sure[up] += !can_down;
                    sure[down] += !can_up;
                    may[up] += can_up;
                    may[down] += can_down;
                });
                // the winner has the most votes, the first of those in a tie
                for (da_int e = 0; e < K; e++)
                    if (e != c && (sure[e] > may[c] || (sure[e] == may[c] && e < c)))
                        failf("predict:votes", "%s: sample %d: predicted class %d, but class %d wins %d votes against at most %d", what,
                              (int)i, (int)c, (int)e, (int)sure[e], (int)may[c]);
            }
            OKH(h.h, "da_svm_score", da_svm_score<T>(h.h, m, d, Q.p(), Q.ld, yq.p, score.p));
            if (cls) {
                da_int hit = 0, doubt = 0;
                for (da_int i = 0; i < m; i++) {
                    hit += pred[i] == yq[i];
                    pairs([&](da_int p, da_int, da_int) { doubt += fabsl(f[p][i]) <= fe[p][i]; });
                }
                if (fabsl((L)score[0] * m - hit) > doubt + 1e-4L * m)
                    failf("score", "%s: score %.9g, %d of %d predictions are right", what, (double)score[0], (int)hit, (int)m);
            } else {
                L mean2 = 0, rss = 0, tss = 0, re = 0, ymag = 0;
                for (da_int i = 0; i < m; i++)
                    mean2 += yq[i];
                mean2 /= m;
                for (da_int i = 0; i < m; i++) {
                    L e = yq[i] - f[0][i];
                    rss += e * e;
                    re += 2 * fabsl(e) * fe[0][i] + fe[0][i] * fe[0][i];
                    tss += (yq[i] - mean2) * (yq[i] - mean2);
                    ymag += (L)yq[i] * yq[i];
                }
                if (tss > 1e3L * ue * ymag) {
                    L s = 1 - rss / tss, te = re / tss + 50 * ue * m * (1 + rss / tss) * (1 + ymag / tss);
                    if (!(fabsl((L)score[0] - s) <= te))
                        failf("score", "%s: score %.9g, R2 is %.9Lg", what, (double)score[0], s);
                }
            }
            if (cls) {
                bool ovr = chance("ovr", 0.5);
                da_int nc = K == 2 ? 1 : ovr ? K : np;
                Mat<T> D(m, nc, o, K == 2 ? 0 : (da_int)pick("dpad", 0, 2));
                OKH(h.h, "da_svm_decision_function",
                    da_svm_decision_function<T>(h.h, m, d, Q.p(), Q.ld, ovr ? da_svm_decision_function_shape::ovr : ovo, D.p(), D.ld));
                for (da_int i = 0; i < m; i++) {
                    if (K == 2 || !ovr) {
                        for (da_int p = 0; p < np; p++)
                            if (!(fabsl((L)D(i, p) - f[p][i]) <= fe[p][i]))
                                failf("decision:ovo", "%s: sample %d: decision value %d is %.9g, the model gives %.9Lg", what, (int)i, (int)p,
                                      (double)D(i, p), f[p][i]);
                        continue;
                    }
                    LV votes(K), conf(K), ce(K);
                    bool doubt = false;
                    pairs([&](da_int p, da_int a, da_int b) {
                        votes[f[p][i] > 0 ? a : b] += 1;
                        conf[a] += f[p][i];
                        conf[b] -= f[p][i];
                        ce[a] += fe[p][i], ce[b] += fe[p][i];
                        doubt |= fabsl(f[p][i]) <= fe[p][i];
                    });
                    for (da_int c = 0; c < K; c++) {
                        L v = votes[c] + conf[c] / (3 * (fabsl(conf[c]) + 1));
                        if (!doubt && !(fabsl((L)D(i, c) - v) <= ce[c] + 20 * ue * K))
                            failf("decision:ovr", "%s: sample %d: decision value of class %d is %.9g, from the pairs it is %.9Lg", what,
                                  (int)i, (int)c, (double)D(i, c), v);
                    }
                }
                probe(K == 2 ? "decision_binary" : ovr ? "decision_ovr" : "decision_ovo");
            }
            if (proba) {
                Mat<T> Pm(m, K, o, (da_int)pick("ppad", 0, 2)), Lg(m, K, o, (da_int)pick("lpad", 0, 2));
                OKH(h.h, "da_svm_predict_proba", da_svm_predict_proba<T>(h.h, m, d, Q.p(), Q.ld, Pm.p(), Pm.ld));
                OKH(h.h, "da_svm_predict_log_proba", da_svm_predict_log_proba<T>(h.h, m, d, Q.p(), Q.ld, Lg.p(), Lg.ld));
                std::vector<T> pa = result_n<T>(h, da_svm_probaA, np, "probaA"), pb = result_n<T>(h, da_svm_probaB, np, "probaB");
                for (da_int i = 0; i < m; i++) {
                    L sum = 0, noise = 0; // what rounding of the decision values does to the probabilities
                    pairs([&](da_int p, da_int, da_int) { noise += fabsl(pa[p]) * fe[p][i]; });
                    for (da_int c = 0; c < K; c++) {
                        T v = Pm(i, c);
                        if (!(v >= 0 && v <= 1 + 100 * ue))
                            failf("proba:range", "%s: sample %d: the probability of class %d is %.9g", what, (int)i, (int)c, (double)v);
                        sum += v;
                        L lg = logl((L)v);
                        if (!(fabsl((L)Lg(i, c) - lg) <= 100 * ue * (1 + fabsl(lg)) + (sizeof(T) == 4 ? 1e-4L : 1e-9L) + 10 * noise / v) && v > 1e-5)
                            failf("proba:log", "%s: sample %d class %d: log probability %.9g, probability %.9g", what, (int)i, (int)c,
                                  (double)Lg(i, c), (double)v);
                    }
                    if (fabsl(sum - 1) > 1000 * ue)
                        failf("proba:sum", "%s: sample %d: the probabilities sum to %.9Lg", what, (int)i, sum);
                    // the pairwise probabilities the coupling starts from
                    LV rj(np);
                    bool doubt = false;
                    pairs([&](da_int p, da_int, da_int) {
                        L z = (K == 2 ? -f[p][i] : f[p][i]) * pa[p] + pb[p];
                        rj[p] = std::min<L>(std::max<L>(1 / (1 + expl(z)), 1e-7L), 1 - 1e-7L);
                        doubt |= fabsl(pa[p]) * fe[p][i] > 1e-3L;
                    });
                    if (doubt)
                        continue;
                    if (K == 2) {
                        if (fabsl((L)Pm(i, 0) - rj[0]) > 0.02L)
                            failf("proba:value", "%s: sample %d: class 0 has probability %.6g, the fitted sigmoid gives %.6Lg", what, (int)i,
                                  (double)Pm(i, 0), rj[0]);
                        continue;
                    }
                    // the coupling solves Q p = (p'Q p) 1 approximately
                    std::vector<LV> R(K, LV(K));
                    pairs([&](da_int p, da_int a, da_int b) { R[a][b] = rj[p], R[b][a] = 1 - rj[p]; });
                    LV qp(K);
                    L pqp = 0;
                    for (da_int t = 0; t < K; t++) {
                        for (da_int e = 0; e < K; e++)
                            if (e != t)
                                qp[t] += R[e][t] * R[e][t] * Pm(i, t) - R[e][t] * R[t][e] * Pm(i, e);
                        pqp += qp[t] * Pm(i, t);
                    }
                    for (da_int t = 0; t < K; t++)
                        if (fabsl(qp[t] - pqp) > 0.005L / K * 1.1L + 1e-3L)
                            failf("proba:value", "%s: sample %d: the class probabilities do not couple the pairwise ones (class %d off by %.4Lg)",
                                  what, (int)i, (int)t, qp[t] - pqp);
                }
                probe("probabilities");
            }
        }
        probe("predicted");
    }
}
sim::Scenario sim_scenarios[] = {{"svm_d", run<double>, 1}, {"svm_s", run<float>, 1}, {nullptr, nullptr, 0}};
