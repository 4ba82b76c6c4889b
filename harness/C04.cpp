// C04: an inverted-file index returns the nearest of the rows it probed, whatever the history of train, add and
// search calls, the team size, the interleaving and the internal block sizes.
// modules: approximate_neighbors nearest_neighbors metrics basic_statistics clustering kernel_functions
#include "common.hpp"
const char *sim_property = "C04";
const char *sim_rule = "a run counts when an index was trained and every answer of every search in its history was compared with "
                       "the exact neighbours among the probed lists; distinct = distinct event hashes";
const char *sim_real_components = "da_approx_nn handle, IVF training (k-means included), adds, block-wise search, heaps, distance "
                                  "kernels: all real code from /repo";
const char *sim_stub_components = "OpenMP runtime, threads, allocator, random_device (simulated); BLAS is the real OpenBLAS, "
                                  "single threaded";
void context_set_hidden_settings(const std::string &, const std::string &) noexcept;
void sim_warmup() {}

typedef long double L;
template <typename T> struct Ivf {
    Handle h;
    // what the library was told
    da_order order = column_major;
    da_int n = 0, d = 0, nlist = 0;
    int metric = 0; // 0 euclidean 1 sqeuclidean 2 inner product 3 cosine
    bool integer = false, trained = false;
    L scale = 1;
    Mat<T> X;
    std::vector<std::vector<L>> rows; // indexed, in order of addition
    std::vector<std::vector<L>> cent;
    std::vector<std::vector<char>> may; // may[i][c]: row i can be in list c
    std::vector<char> sure;             // row i can be in one list only
    std::vector<da_int> lists;
    std::string log;
};
static const char *metrics[] = {"euclidean", "sqeuclidean", "inner product", "cosine"};
static L dot(const std::vector<L> &a, const std::vector<L> &b) {
    L s = 0;
    for (size_t i = 0; i < a.size(); i++)
        s += a[i] * b[i];
    return s;
}
// value the library orders by, and the rounding error to allow for it
template <typename T> static L dist(int metric, std::vector<L> a, std::vector<L> b, L *tol) {
    L na = sqrtl(dot(a, a)), nb = sqrtl(dot(b, b)), e = std::numeric_limits<T>::epsilon() * (L)(a.size() + 10);
    if (metric <= 1) {
        L s = 0;
        for (size_t i = 0; i < a.size(); i++)
            s += (a[i] - b[i]) * (a[i] - b[i]);
        *tol = 4 * e * (na + nb) * (na + nb);
        return s;
    }
    if (metric == 2) {
        *tol = 4 * e * na * nb;
        return -dot(a, b);
    }
    *tol = 8 * e;
    return na == 0 || nb == 0 ? 1 : 1 - dot(a, b) / (na * nb);
}
// distance to a centroid: the spherical ones are already of unit length
template <typename T> static L cdist(int metric, std::vector<L> a, const std::vector<L> &c, L *tol) {
    if (metric == 3) {
        L na = sqrtl(dot(a, a));
        if (na > 0)
            for (auto &v : a)
                v /= na;
        metric = 2;
        L r = dist<T>(metric, a, c, tol);
        *tol *= 4;
        return r;
    }
    return dist<T>(metric, a, c, tol);
}
template <typename T> static void fillrows(Ivf<T> &I, Mat<T> &M, sim::Rng &r) {
    for (da_int i = 0; i < M.r; i++) {
        bool dup = i && r.below(6) == 0;
        da_int k = i ? (da_int)r.below(i) : 0;
        L base = r.below(4) * 5.0L;
        for (da_int j = 0; j < M.c; j++)
            M(i, j) = dup ? M(k, j) : I.integer ? (T)(r.range(-6, 6) + (da_int)base) : (T)((r.normal() + base) * I.scale);
    }
}
template <typename T> static std::vector<L> row(const Mat<T> &M, da_int i) {
    std::vector<L> v(M.c);
    for (da_int j = 0; j < M.c; j++)
        v[j] = M(i, j);
    return v;
}
static da_status quiet(const char *what, const std::function<da_status()> &f) {
    sim::Api a(what);
    return f();
}
static void blocks() {
    auto set = [](const char *key, const char *name, da_int hi) {
        context_set_hidden_settings(key, chance(name, 0.4) ? std::to_string((int)pick((std::string(name) + "_n").c_str(), 1, hi)) : "");
    };
    set("ivf.add_blk_sz", "addblk", 9);
    set("ivf.query_blk_sz", "qblk", 7);
    set("ivf.list_blk_sz", "lblk", 9);
}
template <typename T> static void newdata(Ivf<T> &I) {
    I.order = chance("row_major", 0.4) ? row_major : column_major;
    I.d = (da_int)pick("d", 1, 7);
    I.n = (da_int)(chance("many", 0.15) ? pick("n_many", 40, 400) : pick("n", 2, 40));
    I.integer = chance("integer", 0.5);
    I.scale = sim::one_of<double>("scale", {1, 1e-3, 1e3});
    sim::Rng r("train");
    I.X.init(I.n, I.d, I.order, (da_int)pick("pad", 0, 2));
    fillrows(I, I.X, r);
    I.X.input();
    opt(I.h, "storage order", I.order == row_major ? "row-major" : "column-major");
    OKH(I.h.h, "da_approx_nn_set_training_data", da_approx_nn_set_training_data<T>(I.h.h, I.n, I.d, I.X.p(), I.X.ld));
    I.trained = false;
    I.rows.clear();
    I.may.clear();
    I.sure.clear();
}
template <typename T> static void place(Ivf<T> &I, const Mat<T> &M) {
    for (da_int i = 0; i < M.r; i++) {
        std::vector<L> x = row(M, i);
        std::vector<L> v(I.nlist), t(I.nlist);
        L best = INFINITY;
        for (da_int c = 0; c < I.nlist; c++) {
            v[c] = cdist<T>(I.metric, x, I.cent[c], &t[c]);
            best = std::min(best, v[c] + t[c]);
        }
        std::vector<char> m(I.nlist);
        int cnt = 0;
        for (da_int c = 0; c < I.nlist; c++)
            cnt += m[c] = v[c] - t[c] <= best;
        I.rows.push_back(x);
        I.may.push_back(m);
        I.sure.push_back(cnt == 1);
    }
}
template <typename T> static void checkindex(Ivf<T> &I, const char *after) {
    std::vector<T> info = result_n<T>(I.h, da_rinfo, 4, "rinfo");
    if (info[0] != (T)I.nlist || info[1] != (T)I.rows.size() || info[2] != (T)I.d)
        failf("index:info", "%s: after %s rinfo says %g lists, %g rows, %g features; expected %d, %d, %d", I.log.c_str(), after,
              (double)info[0], (double)info[1], (double)info[2], (int)I.nlist, (int)I.rows.size(), (int)I.d);
    std::vector<da_int> sz = result_n<da_int>(I.h, da_approx_nn_list_sizes, I.nlist, "list sizes");
    std::vector<da_int> lo(I.nlist), hi(I.nlist);
    da_int sum = 0;
    for (size_t i = 0; i < I.rows.size(); i++)
        for (da_int c = 0; c < I.nlist; c++)
            if (I.may[i][c])
                hi[c]++, lo[c] += I.sure[i];
    for (da_int c = 0; c < I.nlist; c++) {
        sum += sz[c];
        if (sz[c] < lo[c] || sz[c] > hi[c])
            failf("index:lists", "%s: after %s list %d has %d rows, but its centroid is the nearest of %d to %d rows", I.log.c_str(),
                  after, (int)c, (int)sz[c], (int)lo[c], (int)hi[c]);
    }
    if (sum != (da_int)I.rows.size())
        failf("index:lists", "%s: after %s the lists hold %d rows of %d", I.log.c_str(), after, (int)sum, (int)I.rows.size());
}
template <typename T> static std::vector<std::vector<L>> centroids(Handle &h, da_order o, da_int nl, da_int d) {
    std::vector<T> c = result_n<T>(h, da_approx_nn_cluster_centroids, nl * d, "centroids");
    std::vector<std::vector<L>> r(nl, std::vector<L>(d));
    for (da_int i = 0; i < nl; i++)
        for (da_int j = 0; j < d; j++)
            r[i][j] = c[o == column_major ? i + j * nl : i * d + j];
    return r;
}
template <typename T> static void dotrain(Ivf<T> &I) {
    I.metric = (int)pick("metric", 0, 3);
    da_int nl = (da_int)pick("nlist", 1, std::min<da_int>(I.n, 8)), iter = (da_int)pick("iter", 1, 6),
           seed = (da_int)pick("seed", -1, 50);
    T frac = chance("subsample", 0.3) ? (T)sim::one_of<double>("fraction", {0.5, 0.01, 0.25, 0.9}) : (T)1;
    auto opts = [&](Handle &h) {
        opt(h, "metric", metrics[I.metric]);
        opti(h, "n_probe", 1);
        opti(h, "n_list", nl);
        opti(h, "k-means_iter", iter);
        opti(h, "seed", seed);
        optr<T>(h, "train fraction", frac);
    };
    opts(I.h);
    if (chance("reorder", 0.1)) // the data was given in the order set at that time
        opt(I.h, "storage order", I.order == row_major ? "column-major" : "row-major");
    bool both = chance("train_and_add", 0.5);
    char b[200];
    snprintf(b, sizeof b, " | train%s n=%d d=%d %s %s lists=%d iter=%d seed=%d fraction=%g", both ? "+add" : "", (int)I.n, (int)I.d,
             I.order == row_major ? "row" : "col", metrics[I.metric], (int)nl, (int)iter, (int)seed, (double)frac);
    I.log += b;
    bool faulty = chance("train_fault", 0.1);
    if (faulty)
        sim::fail_alloc(pick("train_fault_at", 1, 60));
    da_status st = quiet("da_approx_nn_train", [&] {
        return both ? da_approx_nn_train_and_add<T>(I.h.h) : da_approx_nn_train<T>(I.h.h);
    });
    bool fired = faulty && sim::alloc_faults_fired() > 0;
    sim::clear_alloc_faults();
    I.rows.clear();
    I.may.clear();
    I.sure.clear();
    I.trained = false;
    if (fired && st != da_status_success) {
        if (st != da_status_memory_error)
            failf("train:fault", "%s: a failed allocation is reported as status %d: %s", I.log.c_str(), (int)st, errmsg(I.h.h).c_str());
        I.log += " (no memory)";
        probe("train_fault");
        OKH(I.h.h, "da_approx_nn_train", da_approx_nn_train<T>(I.h.h));
        both = false;
    } else if (st != da_status_success)
        failf("train:status", "%s: status %d: %s", I.log.c_str(), (int)st, errmsg(I.h.h).c_str());
    I.trained = true;
    I.nlist = nl;
    I.cent = centroids<T>(I.h, I.order, nl, I.d);
    L e = std::numeric_limits<T>::epsilon() * (L)(I.n + 20);
    for (da_int j = 0; j < I.d; j++) {
        L lo = INFINITY, hi = -INFINITY;
        for (da_int i = 0; i < I.n; i++)
            lo = std::min<L>(lo, I.X(i, j)), hi = std::max<L>(hi, I.X(i, j));
        L t = e * std::max(fabsl(lo), fabsl(hi));
        for (da_int c = 0; c < nl; c++)
            if (I.metric <= 1 && dot(I.cent[c], I.cent[c]) > 0 && // an empty cluster has centre 0
                !(I.cent[c][j] >= lo - t && I.cent[c][j] <= hi + t))
                failf("train:centroid", "%s: feature %d of centroid %d is %.9Lg, outside the data [%.9Lg, %.9Lg]", I.log.c_str(),
                      (int)j, (int)c, I.cent[c][j], lo, hi);
    }
    for (da_int c = 0; c < nl; c++) {
        L nn = sqrtl(dot(I.cent[c], I.cent[c]));
        if (!std::isfinite((double)nn) || (I.metric >= 2 && nn != 0 && fabsl(nn - 1) > 50 * e))
            failf("train:centroid", "%s: centroid %d has length %.9Lg", I.log.c_str(), (int)c, nn);
    }
    T it = result_n<T>(I.h, da_rinfo, 4, "rinfo")[3];
    if (!(it >= 0 && it <= (T)iter))
        failf("train:iterations", "%s: %g k-means iterations, the limit is %d", I.log.c_str(), (double)it, (int)iter);
    if (both)
        place(I, I.X);
    checkindex(I, both ? "train_and_add" : "train");
    // a fresh handle, one thread: sums and distances of small integers are exact, so are the first centroids
    if (seed >= 0 && I.integer && iter == 1 && I.metric <= 1 && chance("refit", 0.7)) {
        Handle f;
        hinit<T>(f, da_handle_approx_nn);
        opt(f, "storage order", I.order == row_major ? "row-major" : "column-major");
        OKH(f.h, "da_approx_nn_set_training_data", da_approx_nn_set_training_data<T>(f.h, I.n, I.d, I.X.p(), I.X.ld));
        opts(f);
        sequentially([&] {
            OKH(f.h, "da_approx_nn_train", da_approx_nn_train<T>(f.h));
            return 0;
        });
        auto c = centroids<T>(f, I.order, nl, I.d);
        for (da_int i = 0; i < nl; i++)
            for (da_int j = 0; j < I.d; j++)
                if (fabsl(c[i][j] - I.cent[i][j]) > 100 * e)
                    failf("train:reproduce", "%s: feature %d of centroid %d is %.9Lg, a new handle on one thread gives %.9Lg",
                          I.log.c_str(), (int)j, (int)i, I.cent[i][j], c[i][j]);
        probe("refit");
    }
    probe(I.metric == 0 ? "euclidean" : I.metric == 1 ? "sqeuclidean" : I.metric == 2 ? "inner_product" : "cosine");
}
template <typename T> static void doadd(Ivf<T> &I) {
    da_int na = (da_int)(chance("addmany", 0.15) ? pick("na_many", 30, 300) : pick("na", 1, 25));
    sim::Rng r("add");
    Mat<T> A(na, I.d, I.order, (da_int)pick("apad", 0, 2));
    fillrows(I, A, r);
    A.input();
    I.log += " | add " + std::to_string(na);
    blocks();
    bool faulty = chance("add_fault", 0.15);
    if (faulty)
        sim::fail_alloc(pick("add_fault_at", 1, 40), pick("add_fault_n", 1, 3));
    da_status st = quiet("da_approx_nn_add", [&] { return da_approx_nn_add<T>(I.h.h, na, I.d, A.p(), A.ld); });
    bool fired = faulty && sim::alloc_faults_fired() > 0;
    sim::clear_alloc_faults();
    if (fired && st != da_status_success) {
        if (st != da_status_memory_error)
            failf("add:fault", "%s: a failed allocation is reported as status %d: %s", I.log.c_str(), (int)st, errmsg(I.h.h).c_str());
        I.log += " (no memory)";
        probe("add_fault");
    } else if (st != da_status_success)
        failf("add:status", "%s: status %d: %s", I.log.c_str(), (int)st, errmsg(I.h.h).c_str());
    else
        place(I, A);
    checkindex(I, "add");
}
template <typename T> static void dorefused(Ivf<T> &I) {
    int what = (int)pick("refused", 0, 5);
    Mat<T> Q(2, I.d + 1, I.order, 0);
    for (da_int i = 0; i < 2; i++)
        for (da_int j = 0; j <= I.d; j++)
            Q(i, j) = 1;
    Q.input();
    da_int m = (da_int)I.rows.size();
    Buf<da_int> ind(2 * (m + 2));
    Buf<T> ds(2 * (m + 2));
    da_int ld = I.order == row_major ? I.d + 1 : 2;
    da_status st = da_status_success, want = da_status_invalid_input;
    auto knn = [&](da_int d, da_int k, da_int *pi, T *pd, da_int wd) {
        return quiet("da_approx_nn_kneighbors", [&] { return da_approx_nn_kneighbors<T>(I.h.h, 2, d, Q.p(), ld, pi, pd, k, wd); });
    };
    switch (what) {
    case 0: // more neighbours than rows
        st = knn(I.d, m + 1, ind.p, ds.p, 1);
        break;
    case 1:
        st = knn(I.d + 1, 1, ind.p, ds.p, 1);
        break;
    case 2:
        opti(I.h, "n_probe", I.nlist + 1);
        st = knn(I.d, 1, ind.p, ds.p, 1);
        opti(I.h, "n_probe", 1);
        break;
    case 3:
        opti(I.h, "n_list", I.nlist + 1);
        st = knn(I.d, 1, ind.p, ds.p, 1);
        want = da_status_option_locked;
        opti(I.h, "n_list", I.nlist);
        break;
    case 4:
        st = knn(I.d, 1, nullptr, ds.p, 1);
        want = da_status_invalid_pointer;
        break;
    case 5:
        st = quiet("da_approx_nn_add", [&] { return da_approx_nn_add<T>(I.h.h, 2, I.d + 1, Q.p(), ld); });
        break;
    }
    if (m == 0 && what != 5)
        want = da_status_no_data;
    if (st != want)
        failf("refused:status", "%s: wrong call %d gives status %d, expected %d: %s", I.log.c_str(), what, (int)st, (int)want,
              errmsg(I.h.h).c_str());
    checkindex(I, "a refused call");
    probe("refused");
}
template <typename T> static void dosearch(Ivf<T> &I) {
    da_int m = (da_int)I.rows.size(), nq = (da_int)(chance("manyq", 0.15) ? pick("nq_many", 10, 90) : pick("nq", 1, 9));
    da_int k = (da_int)pick("k", 1, std::min<da_int>(m, 12)), np = chance("allprobe", 0.4) ? I.nlist : (da_int)pick("nprobe", 1, I.nlist);
    if (chance("kall", 0.1))
        k = m;
    bool wd = chance("distances", 0.7), byopt = chance("k_by_option", 0.2);
    sim::Rng r("query");
    Mat<T> Q(nq, I.d, I.order, (da_int)pick("qpad", 0, 2));
    fillrows(I, Q, r);
    for (da_int i = 0; i < nq; i++)
        if (r.below(4) == 0) {
            da_int s = (da_int)r.below(m);
            for (da_int j = 0; j < I.d; j++)
                Q(i, j) = (T)I.rows[s][j];
        }
    Q.input();
    opti(I.h, "n_probe", np);
    opti(I.h, "number of neighbors", byopt ? k : (da_int)pick("kother", 1, 20));
    blocks();
    auto at = [&](da_int q, da_int a) { return I.order == column_major ? q + a * nq : q * k + a; };
    Buf<da_int> ind(nq * k);
    Buf<T> ds(wd ? nq * k : 1);
    char b[120];
    snprintf(b, sizeof b, " | search %d queries k=%d probe=%d%s", (int)nq, (int)k, (int)np, wd ? "" : " indices only");
    I.log += b;
    OKH(I.h.h, "da_approx_nn_kneighbors",
        da_approx_nn_kneighbors<T>(I.h.h, nq, I.d, Q.p(), Q.ld, ind.p, wd ? ds.p : nullptr, byopt ? 0 : k, wd));
    for (da_int q = 0; q < nq; q++) {
        std::vector<L> x = row(Q, q);
        // which lists were certainly, or certainly not, probed
        std::vector<L> v(I.nlist), t(I.nlist);
        for (da_int c = 0; c < I.nlist; c++)
            v[c] = cdist<T>(I.metric, x, I.cent[c], &t[c]);
        std::vector<char> in(I.nlist), out(I.nlist);
        for (da_int c = 0; c < I.nlist; c++) {
            da_int sooner = 0, maybe = 0; // lists certainly / possibly nearer than c
            for (da_int e = 0; e < I.nlist; e++)
                if (e != c) {
                    sooner += v[e] + t[e] < v[c] - t[c];
                    maybe += v[e] - t[e] <= v[c] + t[c];
                }
            in[c] = maybe < np;
            out[c] = sooner >= np;
        }
        std::vector<L> dv(m), dt(m);
        std::vector<char> certain(m), possible(m), got(m);
        da_int nc = 0, npos = 0;
        for (da_int i = 0; i < m; i++) {
            dv[i] = dist<T>(I.metric, x, I.rows[i], &dt[i]);
            certain[i] = 1;
            for (da_int c = 0; c < I.nlist; c++)
                if (I.may[i][c]) {
                    certain[i] &= in[c];
                    possible[i] |= !out[c];
                }
            nc += certain[i];
            npos += possible[i];
        }
        da_int found = 0;
        L last = -INFINITY, lastt = 0, worst = -INFINITY;
        for (da_int a = 0; a < k; a++) {
            da_int i = ind[at(q, a)];
            if (i == -1) {
                if (wd && !(std::isinf((double)ds[at(q, a)]) && (ds[at(q, a)] > 0) == (I.metric != 2)))
                    failf("search:sentinel", "%s: query %d: a missing neighbour has distance %g", I.log.c_str(), (int)q,
                          (double)ds[at(q, a)]);
                continue;
            }
            if (i < 0 || i >= m)
                failf("search:index", "%s: query %d: neighbour %d is %d of %d rows", I.log.c_str(), (int)q, (int)a, (int)i, (int)m);
            if (found != a)
                failf("search:sentinel", "%s: query %d: a neighbour follows a missing one", I.log.c_str(), (int)q);
            if (got[i])
                failf("search:twice", "%s: query %d: row %d is returned twice", I.log.c_str(), (int)q, (int)i);
            got[i] = 1;
            found++;
            if (!possible[i])
                failf("search:unprobed", "%s: query %d: row %d belongs to a list that is not probed", I.log.c_str(), (int)q, (int)i);
            if (wd) {
                L g = ds[at(q, a)], gt = dt[i];
                if (I.metric == 0) { // compare squares: the root magnifies rounding near 0
                    gt += 4 * std::numeric_limits<T>::epsilon() * g * g;
                    g = g < 0 ? g : g * g;
                } else if (I.metric == 2)
                    g = -g;
                if (!(fabsl(g - dv[i]) <= gt))
                    failf("search:distance", "%s: query %d: the distance to row %d is given as %.9g, it is %.9Lg (squared or negated: %.9Lg)",
                          I.log.c_str(), (int)q, (int)i, (double)ds[at(q, a)], I.metric == 0 ? sqrtl(dv[i]) : dv[i], g);
                if (a && !(I.metric == 2 ? ds[at(q, a)] <= ds[at(q, a - 1)] : ds[at(q, a)] >= ds[at(q, a - 1)]))
                    failf("search:order", "%s: query %d: distance %d (%.9g) is out of order", I.log.c_str(), (int)q, (int)a,
                          (double)ds[at(q, a)]);
            }
            if (dv[i] + dt[i] < last - lastt)
                failf("search:order", "%s: query %d: row %d is nearer than the one before it", I.log.c_str(), (int)q, (int)i);
            last = dv[i], lastt = dt[i];
            worst = std::max(worst, dv[i] - dt[i]);
        }
        if (found < std::min(k, nc) || found > npos)
            failf("search:count", "%s: query %d: %d neighbours of k=%d; the probed lists hold %d to %d rows", I.log.c_str(), (int)q,
                  (int)found, (int)k, (int)nc, (int)npos);
        for (da_int i = 0; i < m; i++)
            if (certain[i] && !got[i] && (found < k || dv[i] + dt[i] < worst))
                failf("search:missed", "%s: query %d: row %d (distance %.9Lg) is missing; the furthest returned is at %.9Lg", I.log.c_str(),
                      (int)q, (int)i, dv[i], worst);
        if (found < k)
            probe("fewer_than_k");
    }
    probe(np == I.nlist ? "exact" : "probed");
    if (nq > 9)
        probe("many_queries");
}
template <typename T> static void history() {
    Env e;
    Ivf<T> I;
    hinit<T>(I.h, da_handle_approx_nn);
    newdata(I);
    int steps = (int)pick("steps", 2, 9), searches = 0;
    for (int s = 0; s < steps; s++) {
        i64 op = pick("op", 0, 9);
        blocks();
        if (!I.trained || op == 0)
            dotrain(I);
        else if (op == 1 && s)
            newdata(I);
        else if (op <= 3 || (I.rows.empty() && op != 9))
            doadd(I);
        else if (op == 9)
            dorefused(I);
        else {
            dosearch(I);
            searches++;
        }
        if (chance("set_threads", 0.2))
            sim::set_threads((int)pick("threads2", 1, 8));
    }
    while (I.trained && I.rows.empty()) // an add without memory adds nothing
        doadd(I);
    if (I.trained)
        dosearch(I);
    else
        probe("untrained");
    sim::state(sim::hash_str(I.log.c_str()));
}
sim::Scenario sim_scenarios[] = {{"history_d", history<double>, 1}, {"history_s", history<float>, 1}, {nullptr, nullptr, 0}};
