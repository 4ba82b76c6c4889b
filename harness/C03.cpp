// C03: exact nearest-neighbour search returns the true neighbours, whatever the
// algorithm, team size, thread interleaving, block split and memory layout.
// modules: nearest_neighbors metrics basic_statistics
#include "common.hpp"
const char *sim_property = "C03";
const char *sim_rule = "a run counts when a search or prediction was executed by the library and "
                       "every returned neighbour was compared with the brute-force definition; "
                       "distinct = distinct event hashes";
const char *sim_real_components =
    "da_nn handle and options, brute-force, k-d tree and ball tree search, pairwise distance "
    "kernels (AVX2), radius neighbours, predictions: all real code from /repo";
const char *sim_stub_components =
    "OpenMP runtime, threads, allocator (simulated); BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}

template <typename T> struct Data {
    da_int n, d, q;
    Mat<T> X, Q;
    bool integer;
};
enum Metric { EUC, SQE, MAN, MINK, COS, INNER, EUCG, SQEG };
static const char *mname[] = {"euclidean", "sqeuclidean",   "manhattan",      "minkowski",
                              "cosine",    "inner product", "euclidean_gemm", "sqeuclidean_gemm"};

template <typename T> static void gen(Data<T> &D, da_int maxn, da_int maxq) {
    i64 nk = pick("n", 1, 20);
    // several blocks of the parallel tree set-up need more than 512 rows
    D.n = nk <= 5 ? pick("n_small", 1, 12) : nk == 20 ? pick("n_huge", 500, 1300) : pick("n_big", 2, maxn);
    D.d = pick("d", 1, nk == 20 ? 4 : 9);
    D.q = chance("many_queries", 0.1) && nk < 20 ? (D.n <= 60 && chance("q_huge", 0.5) ? pick("q_huge_n", 129, 400) : pick("q_big", 20, maxq))
                                                : pick("q", 1, nk == 20 ? 6 : 12);
    da_order o = chance("row_major", 0.4) ? row_major : column_major;
    D.X.init(D.n, D.d, o, pick("pad_x", 0, 2));
    D.Q.init(D.q, D.d, o, pick("pad_q", 0, 2));
    D.integer = chance("integer", 0.6);
    sim::Rng r("data");
    int span = (int)pick("span", 2, 40);
    // clustered layouts make tree pruning decisions matter
    int clusters = (int)pick("clusters", 1, 4);
    for (da_int i = 0; i < D.n; i++) {
        T base = (T)((i % clusters) * 3 * span);
        for (da_int j = 0; j < D.d; j++)
            D.X(i, j) = D.integer ? (T)(r.range(-span, span) + base)
                                  : (T)(r.uniform() * span + base);
    }
    for (da_int i = 0; i < D.q; i++) {
        bool dup = r.below(4) == 0;
        da_int k = r.below(D.n);
        T base = (T)(r.below(clusters) * 3 * span);
        for (da_int j = 0; j < D.d; j++)
            D.Q(i, j) = dup ? D.X(k, j)
                            : D.integer ? (T)(r.range(-span, span) + base)
                                        : (T)(r.uniform() * span + base);
    }
    if (chance("constant_feature", 0.2)) {
        da_int j = pick("const_j", 0, D.d - 1);
        for (da_int i = 0; i < D.n; i++)
            D.X(i, j) = 1;
    }
    // far-away rows decide the bounds that the searches prune with
    if (chance("outlier_row", 0.35)) {
        da_int i = sim::one_of<int>("outlier_at", {2, 0, 1}) == 2 ? D.n - 1
                   : chance("outlier_first", 0.3)                 ? 0
                                                                  : pick("outlier_row_i", 0, D.n - 1);
        da_int f = (da_int)pick("outlier_far", 2, 20);
        for (da_int j = 0; j < D.d; j++)
            D.X(i, j) = (T)(span * f * 4 + r.range(0, 3));
        da_int q = r.below(D.q);
        for (da_int j = 0; j < D.d; j++)
            D.Q(q, j) = D.X(i, j) + (T)r.range(-2, 2);
    }
    D.X.input();
    D.Q.input();
}
template <typename T> static double dist(Data<T> &D, da_int qi, da_int xi, Metric m, double p) {
    double s = 0, na = 0, nb = 0;
    for (da_int j = 0; j < D.d; j++) {
        double a = D.Q(qi, j), b = D.X(xi, j), e = fabs(a - b);
        switch (m) {
        case EUC: case SQE: case EUCG: case SQEG: s += e * e; break;
        case MAN: s += e; break;
        case MINK: s += pow(e, p); break;
        case INNER: s += a * b; break;
        case COS: s += a * b; na += a * a; nb += b * b; break;
        }
    }
    if (m == EUC || m == EUCG)
        return sqrt(s);
    if (m == MINK)
        return pow(s, 1 / p);
    if (m == COS) {
        if (na == 0 || nb == 0)
            return 1;
        return 1 - s / (sqrt(na) * sqrt(nb));
    }
    return s;
}
struct Cfg {
    Metric m;
    double p;
    int algo; // 0 brute 1 kd 2 ball 3 auto
    da_int leaf;
    bool exact;
    double tol;
};
template <typename T> static Cfg config(Handle &h, Data<T> &D, bool allow_inner) {
    Cfg c;
    c.algo = (int)pick("algo", 0, 3);
    bool tree = c.algo == 1 || c.algo == 2;
    if (tree)
        c.m = sim::one_of<Metric>("metric_tree", {EUC, MAN, MINK, EUCG});
    else
        c.m = sim::one_of<Metric>("metric", {EUC, SQE, MAN, MINK, COS, EUCG, SQEG, INNER});
    if (c.m == INNER && !allow_inner)
        c.m = SQE;
    c.p = sim::one_of<int>("p2", {3, 2, 4, 5}) / 1.0;
    if (c.m == MINK && chance("p1", 0.2))
        c.p = 1.5;
    c.leaf = pick("leaf", D.n > 450 ? 20 : 1, 40);
    static const char *an[] = {"brute", "kd tree", "ball tree", "auto"};
    opt(h, "algorithm", an[c.algo]);
    opt(h, "metric", mname[c.m]);
    if (c.m == MINK)
        optr<T>(h, "minkowski parameter", (T)c.p);
    opti(h, "leaf size", c.leaf);
    opt(h, "storage order", D.X.o == row_major ? "row-major" : "column-major");
    c.exact = D.integer && (c.m == SQE || c.m == MAN || c.m == INNER || c.m == EUC);
    double eps = std::numeric_limits<T>::epsilon();
    c.tol = (c.m == EUCG || c.m == SQEG || c.m == COS) ? 3000 * eps : 64 * eps;
    return c;
}
// worst case rounding of a distance (absolute): relative part plus, for the
// expanded (gemm) forms, cancellation against the squared norms
template <typename T> static double slack(Data<T> &D, const Cfg &c, da_int qi, double d) {
    double eps = std::numeric_limits<T>::epsilon();
    double s = c.tol * fabs(d);
    if (c.m == EUCG || c.m == SQEG || c.m == INNER) {
        double n = 0, mx = 0;
        for (da_int j = 0; j < D.d; j++)
            n += (double)D.Q(qi, j) * D.Q(qi, j);
        for (da_int i = 0; i < D.n; i++) {
            double k = 0;
            for (da_int j = 0; j < D.d; j++)
                k += (double)D.X(i, j) * D.X(i, j);
            mx = std::max(mx, k);
        }
        double e = 32 * eps * (n + mx);
        s += c.m == EUCG ? std::min(sqrt(e), e / std::max(d, 1e-300)) : e;
    }
    if (c.m == COS)
        s += 64 * eps;
    return s;
}
template <typename T>
static void check_knn(Data<T> &D, const Cfg &c, da_int k, const da_int *ind, const T *dst,
                      const char *what) {
    for (da_int qi = 0; qi < D.q; qi++) {
        std::vector<double> all(D.n);
        for (da_int i = 0; i < D.n; i++)
            all[i] = dist(D, qi, i, c.m, c.p);
        std::vector<double> s = all;
        bool big = c.m == INNER;
        if (big)
            std::sort(s.begin(), s.end(), std::greater<double>());
        else
            std::sort(s.begin(), s.end());
        std::set<da_int> seen;
        for (da_int j = 0; j < k; j++) {
            da_int id = ind[qi + (size_t)j * D.q];
            if (id < 0 || id >= D.n)
                failf("knn:index-range", "%s query %d neighbour %d: index %d out of [0,%d)", what,
                      (int)qi, (int)j, (int)id, (int)D.n);
            if (!seen.insert(id).second)
                failf("knn:duplicate", "%s query %d: training row %d returned twice (algo %d metric %s)",
                      what, (int)qi, (int)id, c.algo, mname[c.m]);
            double sl = slack(D, c, qi, s[j]);
            if (fabs(all[id] - s[j]) > 2 * sl + 1e-300)
                failf("knn:not-nearest",
                      "%s query %d neighbour #%d is row %d at distance %.17g, but the %d-th "
                      "nearest is at %.17g (n=%d d=%d k=%d algo=%d leaf=%d metric=%s threads=%d)",
                      what, (int)qi, (int)j, (int)id, all[id], (int)j, s[j], (int)D.n, (int)D.d,
                      (int)k, c.algo, (int)c.leaf, mname[c.m], 0);
            if (dst) {
                double got = dst[qi + (size_t)j * D.q];
                if (!(fabs(got - all[id]) <= sl + 1e-300))
                    failf("knn:distance",
                          "%s query %d neighbour #%d (row %d): distance %.17g, true %.17g (algo=%d "
                          "metric=%s)",
                          what, (int)qi, (int)j, (int)id, got, all[id], c.algo, mname[c.m]);
            }
        }
    }
}
template <typename T> static void knn() {
    Env env;
    Data<T> D;
    gen(D, 700, 60);
    Handle h;
    hinit<T>(h, da_handle_nn);
    Cfg c = config(h, D, true);
    da_int kopt = pick("kopt", 1, std::min<da_int>(D.n, 12));
    opti(h, "number of neighbors", kopt);
    OKH(h.h, "da_nn_set_data", da_nn_set_data(h.h, D.n, D.d, D.X.p(), D.X.ld));
    int rounds = (int)pick("rounds", 1, 2);
    for (int r = 0; r < rounds; r++) {
        da_int karg = chance("k_default", 0.3) ? 0 : pick("k", 1, std::min<da_int>(D.n, 20));
        da_int k = karg > 0 ? karg : kopt;
        bool wd = !chance("no_dist", 0.3);
        // output layout follows the storage order
        Buf<da_int> ind((size_t)D.q * k);
        Buf<T> dst(wd ? (size_t)D.q * k : 1);
        OKH(h.h, "da_nn_kneighbors",
            da_nn_kneighbors(h.h, D.q, D.d, D.Q.p(), D.Q.ld, ind.p, wd ? dst.p : nullptr, karg, wd));
        std::vector<da_int> I((size_t)D.q * k);
        std::vector<T> S((size_t)D.q * k);
        for (da_int q = 0; q < D.q; q++)
            for (da_int j = 0; j < k; j++) {
                size_t src = D.X.o == row_major ? (size_t)q * k + j : q + (size_t)j * D.q;
                I[q + (size_t)j * D.q] = ind[src];
                if (wd)
                    S[q + (size_t)j * D.q] = dst[src];
            }
        check_knn(D, c, k, I.data(), wd ? S.data() : nullptr, "kneighbors");
        hash_vec(S);
        probe(c.algo == 1 ? "kd tree search" : c.algo == 2 ? "ball tree search" : "brute search");
        if (D.n > 512)
            probe("several training blocks");
    }
}
template <typename T> static void radius() {
    Env env;
    Data<T> D;
    gen(D, 400, 60);
    Handle h;
    hinit<T>(h, da_handle_nn);
    Cfg c = config(h, D, false);
    bool opt_radius = chance("opt_radius", 0.3);
    // a radius between two realised distances, away from rounding
    sim::Rng r("radius");
    da_int q0 = r.below(D.q), x0 = r.below(D.n);
    double rad = fabs(dist(D, q0, x0, c.m, c.p)) * (1 + 1e-4) + (c.m == COS ? 1e-3 : 0.05);
    if (sizeof(T) == 4)
        rad = (float)rad;
    if (opt_radius)
        optr<T>(h, "radius", (T)rad);
    OKH(h.h, "da_nn_set_data", da_nn_set_data(h.h, D.n, D.d, D.X.p(), D.X.ld));
    int rounds = (int)pick("rounds", 1, 2);
    for (int round = 0; round < rounds; round++) {
        bool wd = chance("with_dist", 0.7), sorted = wd && chance("sorted", 0.5);
        OKH(h.h, "da_nn_radius_neighbors",
            da_nn_radius_neighbors(h.h, D.q, D.d, D.Q.p(), D.Q.ld, opt_radius ? (T)-1 : (T)rad, wd,
                                   sorted));
        std::vector<da_int> cnt =
            result_n<da_int>(h, da_nn_radius_neighbors_count, D.q + 1 + pick("spare", 0, 3), "radius count");
        std::vector<da_int> off =
            result_n<da_int>(h, da_nn_radius_neighbors_offsets, D.q + 1, "radius offsets");
        cnt.resize(D.q + 1);
        da_int total = 0;
        for (da_int q = 0; q < D.q; q++) {
            if (cnt[q] < 0 || cnt[q] > D.n)
                failf("radius:count", "query %d count %d", (int)q, (int)cnt[q]);
            if (off[q] != (cnt[q] ? total : -1))
                failf("radius:offset", "query %d offset %d, expected %d", (int)q, (int)off[q],
                      (int)(cnt[q] ? total : -1));
            total += cnt[q];
        }
        if (off[D.q] != total || cnt[D.q] != total)
            failf("radius:total", "total %d, offsets end %d, counts end %d", (int)total,
                  (int)off[D.q], (int)cnt[D.q]);
        std::vector<da_int> ind;
        std::vector<T> dst;
        if (total) {
            ind = result_n<da_int>(h, da_nn_radius_neighbors_indices, total, "radius indices");
            if (wd)
                dst = result_n<T>(h, da_nn_radius_neighbors_distances, total, "radius distances");
        }
        da_int at = 0;
        for (da_int q = 0; q < D.q; q++) {
            std::set<da_int> got;
            double prev = -1;
            for (da_int j = 0; j < cnt[q]; j++, at++) {
                da_int id = ind[at];
                if (id < 0 || id >= D.n || !got.insert(id).second)
                    failf("radius:index", "query %d: bad or repeated index %d", (int)q, (int)id);
                double t = dist(D, q, id, c.m, c.p), sl = slack(D, c, q, t);
                if (wd && !(fabs(dst[at] - t) <= sl + 1e-300))
                    failf("radius:distance", "query %d row %d: distance %.17g true %.17g (metric %s algo %d)",
                          (int)q, (int)id, (double)dst[at], t, mname[c.m], c.algo);
                if (sorted && dst[at] < prev)
                    failf("radius:order", "query %d: distances not ascending", (int)q);
                if (wd)
                    prev = dst[at];
            }
            for (da_int i = 0; i < D.n; i++) {
                double t = dist(D, q, i, c.m, c.p);
                // membership is decided on the (possibly squared) distance
                double sl = 4 * slack(D, c, q, t) + 8 * std::numeric_limits<T>::epsilon() * rad;
                if (t < rad - sl && !got.count(i))
                    failf("radius:missing",
                          "query %d: row %d at distance %.17g <= %.17g is missing (n=%d d=%d "
                          "metric=%s algo=%d leaf=%d)",
                          (int)q, (int)i, t, rad, (int)D.n, (int)D.d, mname[c.m], c.algo, (int)c.leaf);
                if (t > rad + sl && got.count(i))
                    failf("radius:extra", "query %d: row %d at distance %.17g > %.17g", (int)q, (int)i,
                          t, rad);
            }
        }
        hash_vec(cnt);
        probe(c.algo == 1 ? "kd tree radius" : c.algo == 2 ? "ball tree radius" : "brute radius");
    }
}
// predictions: votes and means over the true neighbours (continuous data, so
// that neighbours are unique), including queries without neighbours
template <typename T> static void predict() {
    Env env;
    Data<T> D;
    gen(D, 300, 40);
    Handle h;
    hinit<T>(h, da_handle_nn);
    Cfg c = config(h, D, false);
    bool rmode = chance("radius_mode", 0.5), wdist = chance("weights", 0.5);
    da_int k = pick("k", 1, std::min<da_int>(D.n, 9));
    opti(h, "number of neighbors", k);
    opt(h, "weights", wdist ? "distance" : "uniform");
    sim::Rng r("labels");
    int nc = (int)pick("classes", 2, 4);
    static const da_int labs[3][4] = {{0, 1, 2, 3}, {-7, 4, 9, 1000}, {5, 6, 7, 8}};
    const da_int *lab = labs[pick("label_set", 0, 2)];
    Buf<da_int> y(D.n);
    Buf<T> tg(D.n);
    for (da_int i = 0; i < D.n; i++) {
        y[i] = lab[r.below(nc)];
        tg[i] = (T)r.range(-50, 50);
    }
    y.input();
    tg.input();
    double rad = 0;
    int outl = 0;
    da_int olab = 0;
    if (rmode) {
        da_int q0 = r.below(D.q), x0 = r.below(D.n);
        rad = (float)(fabs(dist(D, q0, x0, c.m, c.p)) * (1 + 1e-3) + (c.m == COS ? 1e-3 : 0.05));
        optr<T>(h, "radius", (T)rad);
        outl = (int)pick("outlier", 0, 2);
        opt(h, "outlier handling", outl == 0 ? "none" : outl == 1 ? "manual" : "most frequent");
        olab = chance("foreign_label", 0.3) ? 12345 : lab[r.below(nc)];
        opti(h, "outlier label", olab);
        optr<T>(h, "outlier target", (T)-99);
    }
    bool labels_first = chance("labels_first", 0.3);
    if (labels_first) {
        OKH(h.h, "da_nn_set_labels", da_nn_set_labels<T>(h.h, D.n, y.p));
        OKH(h.h, "da_nn_set_targets", da_nn_set_targets(h.h, D.n, tg.p));
    }
    OKH(h.h, "da_nn_set_data", da_nn_set_data(h.h, D.n, D.d, D.X.p(), D.X.ld));
    if (!labels_first) {
        OKH(h.h, "da_nn_set_labels", da_nn_set_labels<T>(h.h, D.n, y.p));
        OKH(h.h, "da_nn_set_targets", da_nn_set_targets(h.h, D.n, tg.p));
    }
    std::set<da_int> cls(y.p, y.p + D.n);
    std::vector<da_int> classes(cls.begin(), cls.end());
    da_int ncls = 0;
    OKH(h.h, "da_nn_classes", da_nn_classes<T>(h.h, &ncls, nullptr));
    if (ncls != (da_int)classes.size())
        failf("classes:count", "%d classes, expected %d", (int)ncls, (int)classes.size());
    {
        Buf<da_int> cb(ncls);
        da_int n2 = ncls;
        OKH(h.h, "da_nn_classes", da_nn_classes<T>(h.h, &n2, cb.p));
        if (cb.vec() != classes)
            fail("classes:values", "classes are not the sorted distinct labels");
    }
    // model
    std::vector<std::vector<double>> P(D.q, std::vector<double>(ncls, 0));
    std::vector<double> R(D.q, 0);
    std::vector<char> amb(D.q, 0), empty(D.q, 0);
    bool any_empty = false;
    double eps = std::numeric_limits<T>::epsilon();
    for (da_int q = 0; q < D.q; q++) {
        std::vector<std::pair<double, da_int>> all;
        for (da_int i = 0; i < D.n; i++)
            all.push_back({dist(D, q, i, c.m, c.p), i});
        std::sort(all.begin(), all.end());
        size_t m = k;
        if (rmode) {
            m = 0;
            while (m < all.size() && all[m].first <= rad)
                m++;
        }
        auto sl = [&](double t) { return 8 * slack(D, c, q, t) + 16 * eps * rad; };
        if (m < all.size() && m > 0 && all[m].first - all[m - 1].first <= sl(all[m].first))
            amb[q] = 1; // tie at the boundary
        if (rmode)
            for (size_t z = (m ? m - 1 : 0); z < std::min(all.size(), m + 1); z++)
                if (fabs(all[z].first - rad) <= sl(rad))
                    amb[q] = 1;
        // zero-distance rounding makes inverse distance weights ill conditioned
        for (size_t z = 0; z < m; z++) {
            double t = all[z].first, e = slack(D, c, q, t);
            if (wdist && t <= 1e4 * e + 4 * eps && (t > 0 || e > 0))
                amb[q] = 1;
        }
        if (m == 0) {
            empty[q] = 1;
            if (!amb[q])
                any_empty = true;
        }
        double ws = 0;
        for (size_t z = 0; z < m; z++) {
            double t = all[z].first;
            double w = !wdist ? 1 : t <= eps ? 1 : 1 / t;
            ws += w;
            P[q][std::find(classes.begin(), classes.end(), y[all[z].second]) - classes.begin()] += w;
            R[q] += w * tg[all[z].second];
        }
        if (m) {
            for (auto &p : P[q])
                p /= ws;
            R[q] /= ws;
        } else if (outl == 1) {
            auto it = std::find(classes.begin(), classes.end(), olab);
            if (it != classes.end())
                P[q][it - classes.begin()] = 1;
            R[q] = -99;
        }
    }
    for (char a : amb)
        if (a && rmode) {
            sim::log("boundary ambiguous");
            return; // emptiness itself may be ambiguous
        }
    da_nn_search_mode mode = rmode ? radius_search_mode : knn_search_mode;
    bool missing = outl == 1 && !cls.count(olab);
    int order = (int)pick("what", 0, 2);
    for (int rep = 0; rep < 2; rep++) {
        int w = rep == 0 ? order : (order + 1) % 3;
        da_status st, want = da_status_success;
        if (any_empty && rmode)
            want = outl == 0 ? da_status_operation_failed
                   : outl == 1 && (w == 2 || missing) ? da_status_outlier_warning
                                                      : da_status_success;
        if (w == 0) {
            Buf<T> pr((size_t)D.q * ncls);
            {
                sim::Api a("da_nn_classifier_predict_proba");
                st = da_nn_classifier_predict_proba(h.h, D.q, D.d, D.Q.p(), D.Q.ld, pr.p, mode);
            }
            if (st != want)
                failf("proba:status", "predict_proba returned %d, expected %d: %s", (int)st, (int)want,
                      errmsg(h.h).c_str());
            if (st == da_status_success || st == da_status_outlier_warning)
                for (da_int q = 0; q < D.q; q++)
                    if (!amb[q] && !(empty[q] && outl == 2))
                        for (da_int j = 0; j < ncls; j++) {
                            double g = D.X.o == row_major ? pr[(size_t)q * ncls + j]
                                                          : pr[q + (size_t)j * D.q];
                            if (!(fabs(g - P[q][j]) <= (wdist ? 1e-3 : 64 * eps)))
                                failf("proba:value",
                                      "query %d class %d: probability %.9g, neighbours say %.9g "
                                      "(outlier mode %d, empty %d)",
                                      (int)q, (int)classes[j], g, P[q][j], outl, (int)empty[q]);
                        }
            probe("class probabilities");
        } else if (w == 1) {
            Buf<da_int> pl(D.q);
            {
                sim::Api a("da_nn_classifier_predict");
                st = da_nn_classifier_predict(h.h, D.q, D.d, D.Q.p(), D.Q.ld, pl.p, mode);
            }
            if (want == da_status_outlier_warning && w == 1)
                want = da_status_success;
            if (st != want && !(st == da_status_outlier_warning && outl == 1))
                failf("predict:status", "predict returned %d, expected %d: %s", (int)st, (int)want,
                      errmsg(h.h).c_str());
            if (st == da_status_success || st == da_status_outlier_warning)
                for (da_int q = 0; q < D.q; q++)
                    if (!amb[q]) {
                        if (empty[q]) {
                            if (outl == 1 && pl[q] != olab)
                                failf("predict:outlier", "query %d has no neighbours: label %d, asked %d",
                                      (int)q, (int)pl[q], (int)olab);
                            continue;
                        }
                        size_t j = std::find(classes.begin(), classes.end(), pl[q]) - classes.begin();
                        double best = *std::max_element(P[q].begin(), P[q].end());
                        if (j == classes.size() || P[q][j] < best - 1e-3)
                            failf("predict:label",
                                  "query %d predicted %d, which is not the most voted class", (int)q,
                                  (int)pl[q]);
                    }
            probe("class labels");
        } else {
            Buf<T> pt(D.q);
            {
                sim::Api a("da_nn_regressor_predict");
                st = da_nn_regressor_predict(h.h, D.q, D.d, D.Q.p(), D.Q.ld, pt.p, mode);
            }
            if (st != want)
                failf("regress:status", "regressor_predict returned %d, expected %d: %s", (int)st,
                      (int)want, errmsg(h.h).c_str());
            if (st == da_status_success || st == da_status_outlier_warning)
                for (da_int q = 0; q < D.q; q++)
                    if (!amb[q] && !(empty[q] && outl == 2))
                        if (!(fabs(pt[q] - R[q]) <= (wdist ? 0.05 : 1e-3)))
                            failf("regress:value", "query %d target %.9g, neighbours say %.9g", (int)q,
                                  (double)pt[q], R[q]);
            probe("targets");
        }
    }
    if (any_empty)
        probe("query without neighbours");
}
static void knn_d() { knn<double>(); }
static void knn_s() { knn<float>(); }
static void rad_d() { radius<double>(); }
static void rad_s() { radius<float>(); }
static void pre_d() { predict<double>(); }
static void pre_s() { predict<float>(); }
sim::Scenario sim_scenarios[] = {{"knn_d", knn_d, 3},    {"knn_s", knn_s, 3},    {"radius_d", rad_d, 2},
                                 {"radius_s", rad_s, 2}, {"predict_d", pre_d, 2}, {"predict_s", pre_s, 2},
                                 {nullptr, nullptr, 0}};
