// C02: clustering results satisfy their definitions on every schedule.
// modules: clustering nearest_neighbors metrics basic_statistics kernel_functions
#include "common.hpp"
const char *sim_property = "C02";
const char *sim_rule = "a run counts when a clustering was computed by the library and its labels, "
                       "centres, counts and inertia were compared with the definition (and with a "
                       "sequential execution); distinct = distinct event hashes";
const char *sim_real_components =
    "da_kmeans (Lloyd, Elkan, Hartigan-Wong, MacQueen, all initialisations, predict, transform), "
    "da_dbscan (brute, k-d tree, ball tree, serial and parallel labelling): all real code from /repo";
const char *sim_stub_components =
    "OpenMP runtime, threads, allocator, std::random_device (simulated); BLAS is the real OpenBLAS, "
    "single threaded";
void sim_warmup() {}

// ---- DBSCAN --------------------------------------------------------------------
static int find(std::vector<int> &p, int x) {
    while (p[x] != x)
        x = p[x] = p[p[x]];
    return x;
}
template <typename T> static void dbscan() {
    Env env;
    da_int n = chance("big", 0.12) ? (chance("huge", 0.1) ? pick("n_huge", 257, 600) : pick("n_big", 70, 200)) : pick("n", 1, 70);
    da_int d = pick("d", 1, 4);
    da_order o = chance("row_major", 0.4) ? row_major : column_major;
    Mat<T> X(n, d, o, pick("pad", 0, 2));
    sim::Rng r("data");
    int shape = (int)pick("shape", 0, 2);
    i64 span = pick("span", 2, 60);
    if (shape == 2) { // chains: long, thin clusters in shuffled order
        std::vector<da_int> at(n);
        for (da_int i = 0; i < n; i++)
            at[i] = i;
        for (da_int i = n - 1; i > 0; i--)
            std::swap(at[i], at[r.below(i + 1)]);
        i64 gap = pick("gap_every", 3, 20);
        i64 x = 0;
        for (da_int i = 0; i < n; i++) {
            x += r.below(gap) == 0 ? 5 : 1 + r.below(2);
            for (da_int j = 0; j < d; j++)
                X(at[i], j) = (T)(j ? 0 : x);
        }
    } else
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < d; j++)
                X(i, j) = (T)(shape == 1 ? r.range(0, span) + (i % 3) * 4 * span : r.range(0, span));
    X.input();
    struct M { const char *name; int kind; };
    static const M ms[] = {{"euclidean", 0}, {"manhattan", 1}, {"sqeuclidean", 2}, {"minkowski", 3},
                           {"l2", 0}, {"l1", 1}, {"cityblock", 1}, {"cosine", 4}};
    int algo = (int)pick("algo", 0, 3); // brute kd ball auto
    static const char *an[] = {"brute", "kd tree", "ball tree", "auto"};
    int mi = algo == 0 || algo == 3 ? (int)pick("metric", 0, 7) : sim::one_of<int>("metric_t", {0, 1, 3, 4, 5});
    double p = (double)pick("p", 2, 4);
    double base = (double)pick("eps", 1, std::max<i64>(1, shape == 2 ? 4 : n > 256 ? span / 12 + 1 : span / 3 + 1)) + 0.5;
    double eps = ms[mi].kind == 2 ? base * base : base;
    if (ms[mi].kind == 4) // away from every realised cosine distance
        eps = base = 0.0137 * (double)pick("eps_cos", 1, 20);
    da_int mins = pick("min_samples", 1, 7), leaf = pick("leaf", 1, 30);
    Handle h;
    hinit<T>(h, da_handle_dbscan);
    auto setopts = [&] {
        opt(h, "algorithm", an[algo]);
        opt(h, "metric", ms[mi].name);
        optr<T>(h, "eps", (T)eps);
        optr<T>(h, "power", (T)p);
        opti(h, "min samples", mins);
        opti(h, "leaf size", leaf);
    };
    opt(h, "storage order", o == row_major ? "row-major" : "column-major");
    bool late = chance("late_options", 0.3);
    if (!late)
        setopts();
    if (chance("used_before", 0.2)) { // the handle has clustered something else
        Mat<T> Y(9, 2, o, 0);
        for (int i = 0; i < 9; i++)
            for (int j = 0; j < 2; j++)
                Y(i, j) = (T)((i * 7 + j) % 5);
        OKH(h.h, "da_dbscan_set_data", da_dbscan_set_data(h.h, 9, 2, Y.p(), Y.ld));
        OKH(h.h, "da_dbscan_compute", da_dbscan_compute<T>(h.h));
    }
    OKH(h.h, "da_dbscan_set_data", da_dbscan_set_data(h.h, n, d, X.p(), X.ld));
    if (late)
        setopts();
    // the definition
    std::vector<std::vector<int>> nb(n);
    bool cos_tie = false; // too close to call
    for (da_int i = 0; i < n; i++)
        for (da_int k = 0; k < n; k++) {
            if (i == k)
                continue;
            double s = 0, na = 0, nb2 = 0;
            for (da_int j = 0; j < d; j++) {
                double e = fabs((double)X(i, j) - (double)X(k, j));
                if (ms[mi].kind == 4) {
                    s += (double)X(i, j) * X(k, j);
                    na += (double)X(i, j) * X(i, j);
                    nb2 += (double)X(k, j) * X(k, j);
                    continue;
                }
                s += ms[mi].kind == 1 ? e : ms[mi].kind == 3 ? pow(e, p) : e * e;
            }
            // compare powers of the radius: exact enough, radii sit between realised values
            if (ms[mi].kind == 4) {
                s = 1 - (na > 0 && nb2 > 0 ? s / sqrt(na * nb2) : 0);
                if (fabs(s - base) < 1e-5)
                    cos_tie = true;
            }
            double lim = ms[mi].kind == 1 || ms[mi].kind == 4 ? base : ms[mi].kind == 3 ? pow(base, p) : base * base;
            if (s <= lim)
                nb[i].push_back(k);
        }
    if (cos_tie) {
        OKH(h.h, "da_dbscan_compute", da_dbscan_compute<T>(h.h));
        return;
    }
    std::vector<char> core(n);
    da_int ncore = 0;
    for (da_int i = 0; i < n; i++)
        if ((core[i] = (da_int)nb[i].size() + 1 >= mins))
            ncore++;
    std::vector<int> uf(n);
    for (da_int i = 0; i < n; i++)
        uf[i] = i;
    for (da_int i = 0; i < n; i++)
        if (core[i])
            for (int k : nb[i])
                if (core[k]) {
                    int a = find(uf, i), b = find(uf, k);
                    if (a != b)
                        uf[std::max(a, b)] = std::min(a, b);
                }
    std::set<int> comps;
    for (da_int i = 0; i < n; i++)
        if (core[i])
            comps.insert(find(uf, i));
    int rounds = (int)pick("rounds", 1, 2);
    for (int round = 0; round < rounds; round++) {
        OKH(h.h, "da_dbscan_compute", da_dbscan_compute<T>(h.h));
        auto ri = result<T>(h, da_rinfo, "rinfo");
        auto lab = result<da_int>(h, da_dbscan_labels, "labels");
        da_int nc1 = result_n<da_int>(h, da_dbscan_n_clusters, 1, "n clusters")[0];
        da_int nco = result_n<da_int>(h, da_dbscan_n_core_samples, 1, "n core")[0];
        std::vector<da_int> ci;
        if (nco > 0)
            ci = result<da_int>(h, da_dbscan_core_sample_indices, "core indices");
        const char *at = "";
        char desc[200];
        snprintf(desc, sizeof desc, "(n=%d d=%d algo=%s metric=%s eps=%g min=%d)", (int)n, (int)d,
                 an[algo], ms[mi].name, eps, (int)mins);
        if ((da_int)lab.size() != n)
            failf("dbscan:labels-size", "%d labels for %d rows", (int)lab.size(), (int)n);
        if (nco != ncore || (da_int)ri[7] != ncore)
            failf("dbscan:n-core", "%d core samples (rinfo %g), expected %d %s", (int)nco,
                  (double)ri[7], (int)ncore, desc);
        da_int q = 0;
        for (da_int i = 0; i < n; i++)
            if (core[i]) {
                if (q >= (da_int)ci.size() || ci[q] != i)
                    failf("dbscan:core-indices", "core sample %d missing from the indices %s", (int)i,
                          desc);
                q++;
            }
        if (nc1 != (da_int)comps.size() || (da_int)ri[8] != nc1)
            failf("dbscan:n-clusters", "%d clusters (rinfo %g), expected %d %s", (int)nc1,
                  (double)ri[8], (int)comps.size(), desc);
        std::map<int, da_int> fwd;
        std::map<da_int, int> back;
        for (da_int i = 0; i < n; i++) {
            if (core[i]) {
                if (lab[i] < 0 || lab[i] >= nc1)
                    failf("dbscan:core-label", "core sample %d has label %d of %d clusters %s", (int)i,
                          (int)lab[i], (int)nc1, desc);
                int c = find(uf, i);
                if (!fwd.count(c) && back.count(lab[i]))
                    failf("dbscan:merged", "core samples %d and %d share label %d but are not "
                                           "connected %s",
                          back[lab[i]], (int)i, (int)lab[i], desc);
                if (fwd.count(c) && fwd[c] != lab[i])
                    failf("dbscan:split", "core sample %d is connected to %d but has label %d, not %d %s",
                          (int)i, c, (int)lab[i], (int)fwd[c], desc);
                fwd[c] = lab[i];
                back[lab[i]] = c;
            }
        }
        for (da_int i = 0; i < n; i++)
            if (!core[i]) {
                bool border = false, ok = false;
                for (int k : nb[i])
                    if (core[k]) {
                        border = true;
                        ok |= lab[k] == lab[i];
                    }
                if (!border && lab[i] != -1)
                    failf("dbscan:noise", "row %d has no core neighbour but label %d %s", (int)i,
                          (int)lab[i], desc);
                if (border && !ok)
                    failf("dbscan:border", "border row %d has label %d, not that of a core neighbour %s",
                          (int)i, (int)lab[i], desc);
                probe(border ? "border rows" : "noise rows");
            }
        (void)at;
        hash_vec(lab);
        probe(algo == 0 ? "dbscan brute" : algo == 1 ? "dbscan kd tree" : algo == 2 ? "dbscan ball tree" : "dbscan auto");
        if (comps.size() > 1)
            probe("several clusters");
    }
}
// ---- k-means -------------------------------------------------------------------
template <typename T> struct KM {
    da_int n, d, k;
    Mat<T> X, C, Q;
    da_int q;
    bool sph, norm, integer;
    std::string alg, init, empty;
    da_int n_init, max_iter, seed, afk;
    double tol;
    bool mixed;
};
template <typename T> struct KR {
    da_status st;
    std::string msg;
    std::vector<T> ri, cen;
    std::vector<da_int> lab, pred, predx;
    std::vector<T> tr;
};
template <typename T> static void km_cfg(Handle &h, KM<T> &K) {
    opt(h, "storage order", K.X.o == row_major ? "row-major" : "column-major");
    opt(h, "algorithm", K.alg.c_str());
    opt(h, "initialization method", K.init.c_str());
    opt(h, "empty clusters", K.empty.c_str());
    opt(h, "distance", K.sph ? "cosine" : "euclidean");
    opt(h, "normalize data", K.norm ? "yes" : "no");
    opt(h, "mixed precision", K.mixed ? "yes" : "no");
    opti(h, "n_init", K.n_init);
    opti(h, "max_iter", K.max_iter);
    opti(h, "seed", K.seed);
    opti(h, "afk-mc2 samples", K.afk);
    optr<T>(h, "convergence tolerance", (T)K.tol);
}
template <typename T> static KR<T> km_run(Handle &h, KM<T> &K, bool outputs) {
    KR<T> R;
    opti(h, "n_clusters", 1); // a used handle would warn that it lowers the old value
    OKH(h.h, "da_kmeans_set_data", da_kmeans_set_data(h.h, K.n, K.d, K.X.p(), K.X.ld));
    opti(h, "n_clusters", K.k);
    if (K.init == "supplied")
        OKH(h.h, "da_kmeans_set_init_centres", da_kmeans_set_init_centres(h.h, K.C.p(), K.C.ld));
    {
        sim::Api a("da_kmeans_compute");
        R.st = da_kmeans_compute<T>(h.h);
    }
    R.msg = errmsg(h.h);
    if (R.st != da_status_success && R.st != da_status_maxit && R.st != da_status_incompatible_options)
        return R;
    R.ri = result<T>(h, da_rinfo, "rinfo");
    R.cen = result<T>(h, da_kmeans_cluster_centres, "centres");
    R.lab = result<da_int>(h, da_kmeans_labels, "labels");
    if (outputs) {
        Buf<da_int> pl(K.n);
        OKH(h.h, "da_kmeans_predict", da_kmeans_predict(h.h, K.n, K.d, K.X.p(), K.X.ld, pl.p));
        R.predx = pl.vec();
        Buf<da_int> ql(K.q);
        OKH(h.h, "da_kmeans_predict", da_kmeans_predict(h.h, K.q, K.d, K.Q.p(), K.Q.ld, ql.p));
        R.pred = ql.vec();
        Mat<T> tr(K.q, K.k, K.X.o, pick("pad_tr", 0, 2));
        OKH(h.h, "da_kmeans_transform",
            da_kmeans_transform(h.h, K.q, K.d, K.Q.p(), K.Q.ld, tr.p(), tr.ld));
        R.tr.resize((size_t)K.q * K.k);
        for (da_int i = 0; i < K.q; i++)
            for (da_int j = 0; j < K.k; j++)
                R.tr[i + (size_t)j * K.q] = tr(i, j);
    }
    return R;
}
template <typename T> static double cen(const KM<T> &K, const KR<T> &R, da_int c, da_int j) {
    return K.X.o == row_major ? R.cen[(size_t)c * K.d + j] : R.cen[c + (size_t)j * K.k];
}
// squared distance or cosine distance of row i of M to centre c; err: rounding bound
template <typename T>
static double kdist(const KM<T> &K, const KR<T> &R, const Mat<T> &M, da_int i, da_int c, double &err) {
    double s = 0, a2 = 0, c2 = 0, dot = 0;
    for (da_int j = 0; j < K.d; j++) {
        double a = M(i, j), b = cen(K, R, c, j);
        s += (a - b) * (a - b);
        a2 += a * a;
        c2 += b * b;
        dot += a * b;
    }
    double eps = std::numeric_limits<T>::epsilon();
    if (K.sph) {
        double na = K.norm ? sqrt(a2) : 1;
        err = 64 * eps * (1 + (K.norm ? 1 : sqrt(a2)));
        return 1 - (na > 0 ? dot / na : 0);
    }
    err = 32 * eps * (a2 + c2 + s);
    return s;
}
template <typename T> static void kmeans() {
    Env env;
    KM<T> K;
    K.n = chance("big", 0.2) ? pick("n_big", 100, 1100) : pick("n", 1, 60);
    K.d = pick("d", 1, K.n > 300 ? 4 : 7);
    K.k = pick("k", 1, std::min<da_int>(K.n, chance("many_clusters", 0.25) ? 40 : 6));
    K.q = pick("q", 1, 20);
    da_order o = chance("row_major", 0.4) ? row_major : column_major;
    K.X.init(K.n, K.d, o, pick("pad", 0, 2));
    K.Q.init(K.q, K.d, o, pick("pad_q", 0, 2));
    K.C.init(K.k, K.d, o, pick("pad_c", 0, 2));
    sim::Rng r("data");
    K.alg = sim::one_of<const char *>("alg", {"lloyd", "elkan", "macqueen", "hartigan-wong"});
    K.sph = K.alg != "hartigan-wong" && chance("cosine", 0.2);
    K.norm = true;
    K.integer = !K.sph && chance("integer", 0.6);
    i64 span = pick("span", 2, 40);
    int groups = (int)pick("groups", 1, 6);
    for (da_int i = 0; i < K.n; i++)
        for (da_int j = 0; j < K.d; j++) {
            double b = (double)(((i % groups) * 31 + j * 7) % 11) * span;
            K.X(i, j) = K.integer ? (T)(r.range(-span, span) + b) : (T)(r.normal() * span + b + 0.25);
        }
    for (da_int i = 0; i < K.q; i++)
        for (da_int j = 0; j < K.d; j++)
            K.Q(i, j) = (T)(r.range(-3 * span, 8 * span) + 0.5);
    if (K.alg == "hartigan-wong" && (K.k < 2 || K.k >= K.n)) {
        if (K.n < 4)
            K.alg = "lloyd";
        else {
            K.k = 2 + (K.k % (K.n - 2));
            if (K.k >= K.n) K.k = 2;
            K.C.init(K.k, K.d, o, 0);
        }
    }
    // rows of the data as supplied centres
    {
        std::vector<da_int> at(K.n);
        for (da_int i = 0; i < K.n; i++)
            at[i] = i;
        for (da_int i = 0; i < K.k; i++)
            std::swap(at[i], at[i + r.below(K.n - i)]);
        for (da_int i = 0; i < K.k; i++)
            for (da_int j = 0; j < K.d; j++)
                K.C(i, j) = K.X(at[i], j);
    }
    if (K.sph && chance("prenormalized", 0.3)) {
        K.norm = false;
        for (Mat<T> *m : {&K.X, &K.Q, &K.C})
            for (da_int i = 0; i < m->r; i++) {
                double s = 0;
                for (da_int j = 0; j < K.d; j++)
                    s += (double)(*m)(i, j) * (*m)(i, j);
                for (da_int j = 0; j < K.d; j++)
                    (*m)(i, j) = (T)((*m)(i, j) / sqrt(s > 0 ? s : 1));
            }
    }
    K.X.input();
    K.Q.input();
    K.C.input();
    K.init = sim::one_of<const char *>("init", {"k-means++", "supplied", "random", "afk-mc2", "random partitions"});
    if (K.init == "random partitions" && K.n < 12 * K.k)
        K.init = "supplied"; // an empty random part has no mean
    K.empty = sim::one_of<const char *>("empty", {"ignore", "split", "error"});
    K.n_init = K.init == "supplied" ? 1 : pick("n_init", 1, 3);
    K.max_iter = chance("few_iter", 0.2) ? pick("max_iter", 1, 4) : (K.n > 60 ? 60 : 300);
    K.seed = pick("seed", 0, 1000);
    K.afk = pick("afk", 1, 20);
    K.tol = chance("tol", 0.3) ? 1e-3 : 0;
    K.mixed = sizeof(T) == 8 && chance("mixed", 0.15);
    Handle h;
    hinit<T>(h, da_handle_kmeans);
    if (chance("used_before", 0.25)) { // state left by an earlier, different problem
        KM<T> P;
        P.n = pick("pre_n", 5, 40);
        P.d = pick("pre_d", 1, 5);
        P.k = pick("pre_k", 2, 4);
        P.q = 3;
        P.X.init(P.n, P.d, o, 0);
        P.Q.init(P.q, P.d, o, 0);
        for (da_int i = 0; i < P.n; i++)
            for (da_int j = 0; j < P.d; j++)
                P.X(i, j) = (T)((i * 7 + j * 3) % 13);
        for (da_int i = 0; i < P.q; i++)
            for (da_int j = 0; j < P.d; j++)
                P.Q(i, j) = (T)(i + j);
        P.sph = false;
        P.norm = true;
        P.alg = sim::one_of<const char *>("pre_alg", {"lloyd", "elkan", "macqueen", "hartigan-wong"});
        P.init = "k-means++";
        P.empty = "ignore";
        P.n_init = pick("pre_n_init", 1, 2);
        P.max_iter = 300;
        P.seed = 3;
        P.afk = 3;
        P.tol = 1e-4;
        P.mixed = false;
        km_cfg(h, P);
        km_run(h, P, true);
    }
    km_cfg(h, K);
    KR<T> R = km_run(h, K, true);
    char desc[240];
    snprintf(desc, sizeof desc, "(n=%d d=%d k=%d %s init=%s empty=%s n_init=%d max_iter=%d tol=%g%s%s%s)",
             (int)K.n, (int)K.d, (int)K.k, K.alg.c_str(), K.init.c_str(), K.empty.c_str(),
             (int)K.n_init, (int)K.max_iter, K.tol, K.sph ? " cosine" : "", K.mixed ? " mixed" : "",
             o == row_major ? " row-major" : "");
    hash_vec(R.lab);
    hash_vec(R.cen);
    if (K.integer && !K.mixed && chance("compare", 0.6)) {
        // integer coordinates: every sum is exact, so the schedule may change nothing
        KR<T> S = sequentially([&] {
            if (chance("team1", 0.5))
                sim::set_threads(1);
            Handle g;
            hinit<T>(g, da_handle_kmeans);
            km_cfg(g, K);
            return km_run(g, K, true);
        });
        sim::set_threads(env.threads);
        if (S.st != R.st)
            failf("kmeans:schedule-status", "status %d, sequential run %d %s", (int)R.st, (int)S.st, desc);
        if (S.lab != R.lab)
            failf("kmeans:schedule-labels", "labels differ from the sequential run %s", desc);
        for (size_t i = 0; i < S.cen.size(); i++)
            if (!(S.cen[i] == R.cen[i] || (S.cen[i] != S.cen[i] && R.cen[i] != R.cen[i])))
                failf("kmeans:schedule-centres", "centre entry %d: %.17g, sequential run %.17g %s", (int)i,
                      (double)R.cen[i], (double)S.cen[i], desc);
        probe("compared with a sequential run");
    }
    if (R.st == da_status_empty_clusters) {
        if (K.empty != "error" && K.alg != "hartigan-wong")
            failf("kmeans:empty-status", "empty-cluster error without being asked for %s", desc);
        probe("empty clusters reported");
        return;
    }
    if (R.ri.empty())
        failf("kmeans:status", "compute returned %d: %s %s", (int)R.st, R.msg.c_str(), desc);
    if ((da_int)R.lab.size() != K.n || (da_int)R.cen.size() != K.k * K.d)
        failf("kmeans:sizes", "%d labels, %d centre entries %s", (int)R.lab.size(), (int)R.cen.size(), desc);
    bool conv = R.st == da_status_success ||
                (R.st == da_status_incompatible_options && K.max_iter >= 60);
    da_int iters = (da_int)R.ri[3];
    if (iters < 0 || iters > K.max_iter)
        failf("kmeans:iterations", "%d iterations with max_iter %d %s", (int)iters, (int)K.max_iter, desc);
    // labels: nearest centre; inertia: sum of the distances
    double inertia = 0, ierr = 0;
    std::vector<da_int> cnt(K.k, 0);
    bool nan_centre = false;
    for (T v : R.cen)
        nan_centre |= !(v == v);
    if (nan_centre)
        failf("kmeans:nan-centre", "a centre is not a number %s", desc);
    bool hw = K.alg == "hartigan-wong";
    for (da_int i = 0; i < K.n; i++) {
        da_int l = R.lab[i];
        if (l < 0 || l >= K.k)
            failf("kmeans:label-range", "row %d has label %d %s", (int)i, (int)l, desc);
        cnt[l]++;
        double e, t = kdist(K, R, K.X, i, l, e);
        inertia += t;
        ierr += e + 1e-300;
        if (hw && !conv)
            continue;
        for (da_int c = 0; c < K.k; c++) {
            double f, u = kdist(K, R, K.X, i, c, f);
            // Elkan bounds spherical distances by angles, and acos loses half the digits
            // near 1 in every iteration
            bool near_tie = K.sph && K.alg == "elkan" &&
                            acos(std::max(-1.0, 1 - u)) > acos(std::max(-1.0, 1 - t)) -
                                                              (iters + 4) * 2 * sqrt(16.0 * std::numeric_limits<T>::epsilon());
            if (u < t - 2 * (e + f) && !near_tie)
                failf("kmeans:not-nearest",
                      "row %d is labelled %d at %.17g but centre %d is at %.17g %s", (int)i, (int)l, t,
                      (int)c, u, desc);
        }
        double g, u = kdist(K, R, K.X, i, R.predx[i] < 0 || R.predx[i] >= K.k ? 0 : R.predx[i], g);
        if (R.predx[i] < 0 || R.predx[i] >= K.k || (R.predx[i] != l && fabs(u - t) > 2 * (e + g) && !(K.sph && K.alg == "elkan")))
            failf("kmeans:predict-train", "predict labels training row %d %d, fit labelled it %d %s",
                  (int)i, (int)R.predx[i], (int)l, desc);
    }
    if (!(fabs(R.ri[4] - inertia) <= 4 * ierr + 16 * std::numeric_limits<T>::epsilon() * K.n * fabs(inertia)))
        failf("kmeans:inertia", "inertia %.17g, labels and centres give %.17g %s", (double)R.ri[4],
              inertia, desc);
    // new points
    for (da_int i = 0; i < K.q; i++) {
        da_int l = R.pred[i];
        if (l < 0 || l >= K.k)
            failf("kmeans:predict-range", "query %d has label %d %s", (int)i, (int)l, desc);
        double e, t = kdist(K, R, K.Q, i, l, e);
        for (da_int c = 0; c < K.k; c++) {
            double f, u = kdist(K, R, K.Q, i, c, f);
            if (u < t - 2 * (e + f))
                failf("kmeans:predict", "query %d is labelled %d at %.17g but centre %d is at %.17g %s",
                      (int)i, (int)l, t, (int)c, u, desc);
            double got = R.tr[i + (size_t)c * K.q], want = K.sph ? u : sqrt(std::max(u, 0.0));
            double tol = K.sph ? 4 * f : std::min(4 * f / std::max(want, 1e-300), 2 * sqrt(4 * f)) + 1e-300;
            if (!(fabs(got - want) <= tol))
                failf("kmeans:transform", "transform(%d,%d) = %.17g, expected %.17g %s", (int)i, (int)c,
                      got, want, desc);
        }
    }
    // fixed point: the centres are the means of their rows
    da_int nonempty = 0;
    for (da_int c = 0; c < K.k; c++)
        nonempty += cnt[c] > 0;
    if (conv && K.tol == 0 && !K.sph) {
        for (da_int c = 0; c < K.k; c++) {
            if (!cnt[c])
                continue;
            for (da_int j = 0; j < K.d; j++) {
                double s = 0, a = 0;
                for (da_int i = 0; i < K.n; i++)
                    if (R.lab[i] == c) {
                        s += K.X(i, j);
                        a = std::max(a, fabs((double)K.X(i, j)));
                    }
                double m = s / cnt[c], g = cen(K, R, c, j);
                if (!(fabs(m - g) <= std::numeric_limits<T>::epsilon() * a * (16 + (hw ? 200 : 4) * cnt[c])))
                    failf("kmeans:not-mean", "converged, but centre %d feature %d is %.17g and the mean "
                                             "of its %d rows is %.17g %s",
                          (int)c, (int)j, g, (int)cnt[c], m, desc);
            }
        }
        probe("fixed point checked");
    }
    if (conv && K.empty != "ignore" && K.tol == 0 && !hw && nonempty < K.k && !K.mixed)
        failf("kmeans:left-empty", "%d of %d clusters are empty although empty clusters are handled by %s %s",
              (int)(K.k - nonempty), (int)K.k, K.empty.c_str(), desc);
    if (K.init == "supplied" && !K.sph && !K.mixed && K.empty == "ignore") {
        double start = 0, se = 0;
        KR<T> I;
        I.cen.resize((size_t)K.k * K.d);
        for (da_int c = 0; c < K.k; c++)
            for (da_int j = 0; j < K.d; j++)
                I.cen[o == row_major ? (size_t)c * K.d + j : c + (size_t)j * K.k] = K.C(c, j);
        for (da_int i = 0; i < K.n; i++) {
            double best = 1e300, be = 0;
            for (da_int c = 0; c < K.k; c++) {
                double e, t = kdist(K, I, K.X, i, c, e);
                if (t < best)
                    best = t, be = e;
            }
            start += best;
            se += be;
        }
        if (nonempty == K.k && inertia > start + 4 * (se + ierr))
            failf("kmeans:worse-than-start", "inertia %.17g from centres that give %.17g %s", inertia,
                  start, desc);
    }
    if (K.n_init > 1 && K.empty != "error") {
        // the first of the n_init runs is the run that n_init=1 performs
        Handle g;
        hinit<T>(g, da_handle_kmeans);
        da_int keep = K.n_init;
        K.n_init = 1;
        km_cfg(g, K);
        KR<T> S = km_run(g, K, false);
        K.n_init = keep;
        if (!S.ri.empty() && R.ri[4] > S.ri[4] + 4 * ierr + 1e-5 * fabs(S.ri[4]) * (K.integer ? 0.01 : 1))
            failf("kmeans:n-init", "best of %d runs has inertia %.17g, the first alone %.17g %s",
                  (int)keep, (double)R.ri[4], (double)S.ri[4], desc);
        probe("n_init compared");
    }
    char p[40];
    snprintf(p, sizeof p, "%s%s", K.alg.c_str(), conv ? "" : " stopped early");
    probe(p);
}
static void km_d() { kmeans<double>(); }
static void km_s() { kmeans<float>(); }
static void db_d() { dbscan<double>(); }
static void db_s() { dbscan<float>(); }
sim::Scenario sim_scenarios[] = {{"kmeans_d", km_d, 3}, {"kmeans_s", km_s, 3}, {"dbscan_d", db_d, 2},
                                 {"dbscan_s", db_s, 2}, {nullptr, nullptr, 0}};
