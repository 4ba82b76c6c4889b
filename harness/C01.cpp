// C01: decision trees and random forests: greedy trees, votes and scores that do
// not depend on team size or thread interleaving.
// modules: decision_forest basic_statistics
#include "common.hpp"
const char *sim_property = "C01";
const char *sim_rule = "a run counts when a tree or forest was fitted and its predictions compared with the "
                       "reference; distinct = distinct event hashes";
const char *sim_real_components = "da_tree / da_forest handles, training (serial and parallel), histograms, "
                                  "inference: all real code from /repo";
const char *sim_stub_components = "OpenMP runtime, threads, allocator, std::random_device (simulated)";
void sim_warmup() {}

enum Crit { GINI, ENT, MIS };
static double impurity(const std::vector<da_int> &c, Crit k) {
    double n = 0, s = 0, m = 0;
    for (auto v : c)
        n += v;
    if (n == 0)
        return 0;
    for (auto v : c) {
        double p = v / n;
        m = std::max(m, p);
        s += k == GINI ? p * p : p > 0 ? p * std::log2(p) : 0;
    }
    return k == GINI ? 1 - s : k == ENT ? -s : 1 - m;
}
template <typename T> struct Prob {
    da_int n, d, q, nc;
    Mat<T> X, Q;
    std::vector<da_int> y, yq;
    Buf<da_int> yb, yqb;
    int form; // 0 continuous, 1 few integer values
    bool force_two = false;
};
struct Opts {
    Crit crit = GINI;
    da_int depth = 29, minn = 2, maxf = 0, seed = 7, bins = 256;
    double min_split = 0, min_imp = 0;
    bool hist = false, onevall = false, cat = false;
};
template <typename T> static void gen(Prob<T> &P, da_int maxn) {
    P.n = chance("tiny", 0.2) ? pick("n_small", 1, 12) : pick("n", 8, maxn);
    P.d = chance("wide", 0.5) ? pick("d_wide", 8, 24) : pick("d", 1, 7);
    P.q = pick("q", 1, 40);
    P.nc = pick("classes", 1, 4);
    P.form = (int)pick("form", 0, 1);
    da_order o = chance("row_major", 0.4) ? row_major : column_major;
    P.X.init(P.n, P.d, o, pick("pad_x", 0, 2));
    P.Q.init(P.q, P.d, o, pick("pad_q", 0, 2));
    sim::Rng r("data");
    int k = (int)pick("values", 2, 6);
    bool dupf = chance("duplicate_features", 0.2);
    da_int constf = chance("constant_features", 0.3) ? pick("n_const", 1, P.d) : 0;
    std::vector<da_int> cf(P.d, 0);
    for (da_int i = 0; i < constf; i++)
        cf[r.below(P.d)] = 1;
    for (da_int j = 0; j < P.d; j++) {
        std::vector<int> perm(P.n);
        for (da_int i = 0; i < P.n; i++)
            perm[i] = (int)i;
        for (da_int i = P.n - 1; i > 0; i--)
            std::swap(perm[i], perm[r.below(i + 1)]);
        for (da_int i = 0; i < P.n; i++)
            P.X(i, j) = cf[j] ? (T)1 : dupf && j ? P.X(i, 0) : P.form ? (T)r.below(k) : (T)(perm[i] * 0.5 + r.uniform() * 0.25 - 20);
    }
    int signal = (int)pick("signal", 0, 3);
    P.y.resize(P.n);
    for (da_int i = 0; i < P.n; i++) {
        if (signal == 0)
            P.y[i] = r.below(P.nc);
        else {
            double s = 0;
            for (da_int j = 0; j < std::min<da_int>(signal, P.d); j++)
                s += (double)P.X(i, j) * (j + 1);
            P.y[i] = ((i64)std::floor(s / (P.form ? 2.0 : 7.0)) % P.nc + P.nc) % P.nc;
            if (r.below(8) == 0)
                P.y[i] = r.below(P.nc);
        }
    }
    P.y[r.below(P.n)] = P.nc - 1;
    for (da_int i = 0; i < P.q; i++) {
        bool whole = r.below(2);
        da_int a = r.below(P.n);
        for (da_int j = 0; j < P.d; j++) {
            P.Q(i, j) = P.X(whole ? a : (da_int)r.below(P.n), j);
            if (!whole && P.form == 0 && r.below(3) == 0)
                P.Q(i, j) += (T)0.05;
        }
    }
    P.yq.resize(P.q);
    for (auto &v : P.yq)
        v = r.below(P.nc);
    P.X.input();
    P.Q.input();
    P.yb = Buf<da_int>(P.y);
    P.yqb = Buf<da_int>(P.yq);
}
// reference greedy tree; a node whose best split is not unique is "open"
template <typename T> struct Ref {
    struct Node {
        bool leaf = true, open = false;
        da_int f = -1, l = -1, r = -1, depth = 0, pred = 0;
        double thr = 0; // left: x < thr (or x == thr for one-vs-all)
        bool equal = false;
        std::vector<double> p;
    };
    std::vector<Node> nodes;
    bool any_open = false;
    da_int maxdepth = 0, leaves = 0;
    const Prob<T> &P;
    const Opts &O;
    Ref(const Prob<T> &P, const Opts &O) : P(P), O(O) {
        std::vector<da_int> rows(P.n);
        for (da_int i = 0; i < P.n; i++)
            rows[i] = i;
        build(rows, 0);
    }
    std::vector<da_int> count(const std::vector<da_int> &rows) {
        std::vector<da_int> c(P.nc, 0);
        for (auto i : rows)
            c[P.y[i]]++;
        return c;
    }
    da_int build(const std::vector<da_int> &rows, da_int depth) {
        da_int id = (da_int)nodes.size();
        nodes.emplace_back();
        auto c = count(rows);
        double imp = impurity(c, O.crit), n = (double)rows.size();
        {
            Node &N = nodes[id];
            N.depth = depth;
            N.pred = (da_int)(std::max_element(c.begin(), c.end()) - c.begin());
            for (auto v : c)
                N.p.push_back(v / n);
        }
        maxdepth = std::max(maxdepth, depth);
        const double eps = sizeof(T) == 8 ? 1e-9 : 2e-5;
        bool split = depth < O.depth && (depth == 0 || (imp > O.min_split && (da_int)rows.size() >= 2 * O.minn));
        if (depth > 0 && fabs(imp - O.min_split) < eps && imp > 0 && O.min_split > 0) {
            nodes[id].open = any_open = true;
            return id;
        }
        if (split) {
            struct C {
                double s;
                da_int f;
                double thr;
                bool eq;
            };
            std::vector<C> best;
            bool border = false;
            double bs = 1e300;
            for (da_int f = 0; f < P.d; f++) {
                std::vector<std::pair<double, da_int>> v;
                for (auto i : rows)
                    v.push_back({(double)P.X(i, f), P.y[i]});
                std::sort(v.begin(), v.end());
                if (v.front().first == v.back().first)
                    continue;
                bool eq = O.onevall && ((O.cat && !O.hist) || O.hist);
                std::vector<da_int> L(P.nc, 0);
                size_t i = 0;
                while (i < v.size()) {
                    size_t j = i;
                    if (eq)
                        std::fill(L.begin(), L.end(), 0);
                    while (j < v.size() && v[j].first == v[i].first)
                        L[v[j++].second]++;
                    std::vector<da_int> R = c;
                    da_int nl = 0;
                    for (da_int k = 0; k < P.nc; k++)
                        R[k] -= L[k], nl += L[k];
                    da_int nr = (da_int)rows.size() - nl;
                    if (nl >= O.minn && nr >= O.minn) {
                        double s = (impurity(L, O.crit) * nl + impurity(R, O.crit) * nr) / n;
                        double gain = n / P.n * (imp - s);
                        if (fabs(gain - O.min_imp) < eps)
                            border = true;
                        else if (gain > O.min_imp) {
                            best.push_back({s, f, eq ? v[i].first : 0.5 * (v[j - 1].first + v[j].first), eq});
                            bs = std::min(bs, s);
                        }
                    }
                    i = j;
                }
            }
            std::vector<C> top;
            for (auto &b : best)
                if (b.s < bs + eps)
                    top.push_back(b);
            if (top.size() > 1 || (top.empty() && border)) {
                nodes[id].open = any_open = true;
                return id;
            }
            if (top.size() == 1) {
                std::vector<da_int> a, b;
                C t = top[0];
                for (auto i : rows)
                    ((t.eq ? (double)P.X(i, t.f) == t.thr : (double)P.X(i, t.f) < t.thr) ? a : b).push_back(i);
                da_int l = build(a, depth + 1), r = build(b, depth + 1);
                Node &N = nodes[id];
                N.leaf = false;
                N.f = t.f;
                N.thr = t.thr;
                N.equal = t.eq;
                N.l = l;
                N.r = r;
                return id;
            }
        }
        leaves++;
        return id;
    }
    const Node *find(const Mat<T> &X, da_int i) const {
        da_int k = 0;
        for (;;) {
            const Node &N = nodes[k];
            if (N.open)
                return nullptr;
            if (N.leaf)
                return &N;
            double x = (double)X(i, N.f);
            k = (N.equal ? x == N.thr : x < N.thr) ? N.l : N.r;
        }
    }
};
template <typename T> struct Fit { // everything a fitted model tells
    std::vector<da_int> pt, pq;
    std::vector<T> prt, prq, lq, info;
    T st = 0, sq = 0;
};
template <typename T> static void options(Handle &h, const Prob<T> &P, const Opts &O) {
    static const char *cn[] = {"gini", "cross-entropy", "misclassification-error"};
    opt(h, "storage order", P.X.o == row_major ? "row-major" : "column-major");
    opt(h, "scoring function", cn[O.crit]);
    opti(h, "maximum depth", O.depth);
    opti(h, "node minimum samples", O.minn);
    opti(h, "seed", O.seed);
    optr<T>(h, "minimum split score", (T)O.min_split);
    optr<T>(h, "minimum impurity decrease", (T)O.min_imp);
    opt(h, "histogram", O.hist ? "yes" : "no");
    opti(h, "maximum bins", O.bins);
    opt(h, "category split strategy", O.onevall ? "one-vs-all" : "ordered");
}
#define QUERY(kind)                                                                                            \
    template <typename T> static Fit<T> query_##kind(Handle &h, Prob<T> &P) {                                  \
        Fit<T> F;                                                                                              \
        da_order o = P.X.o;                                                                                    \
        for (int t = 0; t < 2; t++) {                                                                          \
            Mat<T> &X = t ? P.Q : P.X;                                                                         \
            Buf<da_int> &y = t ? P.yqb : P.yb;                                                                 \
            Buf<da_int> pr(X.r);                                                                               \
            OKH(h.h, "predict", da_##kind##_predict(h.h, X.r, P.d, X.p(), X.ld, pr.p));                        \
            (t ? F.pq : F.pt) = pr.vec();                                                                      \
            Mat<T> pp(X.r, P.nc, o, pick("pad_p", 0, 1));                                                      \
            OKH(h.h, "predict_proba",                                                                          \
                da_##kind##_predict_proba(h.h, X.r, P.d, X.p(), X.ld, pp.p(), P.nc, pp.ld));                   \
            std::vector<T> &v = t ? F.prq : F.prt;                                                             \
            for (da_int i = 0; i < X.r; i++)                                                                   \
                for (da_int c = 0; c < P.nc; c++)                                                              \
                    v.push_back(pp(i, c));                                                                     \
            if (t) {                                                                                           \
                OKH(h.h, "predict_log_proba",                                                                  \
                    da_##kind##_predict_log_proba(h.h, X.r, P.d, X.p(), X.ld, pp.p(), P.nc, pp.ld));           \
                for (da_int i = 0; i < X.r; i++)                                                               \
                    for (da_int c = 0; c < P.nc; c++)                                                          \
                        F.lq.push_back(pp(i, c));                                                              \
            }                                                                                                  \
            T acc = -1;                                                                                        \
            OKH(h.h, "score", da_##kind##_score(h.h, X.r, P.d, X.p(), X.ld, y.p, &acc));                       \
            (t ? F.sq : F.st) = acc;                                                                           \
        }                                                                                                      \
        F.info = result<T>(h, da_rinfo, "rinfo");                                                              \
        return F;                                                                                              \
    }
QUERY(tree)
QUERY(forest)

template <typename T> static void common_checks(const Prob<T> &P, const Fit<T> &F, bool tree) {
    double eps = sizeof(T) == 8 ? 1e-12 : 1e-5;
    for (int t = 0; t < 2; t++) {
        const auto &p = t ? F.pq : F.pt;
        const auto &pr = t ? F.prq : F.prt;
        const auto &y = t ? P.yq : P.y;
        da_int right = 0;
        for (size_t i = 0; i < p.size(); i++) {
            if (p[i] < 0 || p[i] >= P.nc)
                failf("dt:range", "prediction %d for %d classes", (int)p[i], (int)P.nc);
            right += p[i] == y[i];
            double s = 0;
            for (da_int c = 0; c < P.nc; c++) {
                double v = pr[i * P.nc + c];
                s += v;
                if (!(v >= 0 && v <= 1 + eps))
                    failf("dt:proba", "probability %g", v);
                if (tree && v > pr[i * P.nc + p[i]])
                    failf("dt:argmax", "row %zu predicted %d with probability %g, class %d has %g", i, (int)p[i],
                          (double)pr[i * P.nc + p[i]], (int)c, v);
                if (t) {
                    double l = F.lq[i * P.nc + c], w = std::log(v);
                    if (!(l == w || fabs(l - w) <= 1e-5 * (1 + fabs(w))) && !(v == 0 && l < -30))
                        failf("dt:logproba", "log probability %g of probability %g", l, v);
                }
            }
            if (fabs(s - 1) > 10 * eps)
                failf("dt:proba", "probabilities of a row sum to %.12g", s);
        }
        double acc = (double)right / p.size();
        if (fabs(acc - (t ? F.sq : F.st)) > eps)
            failf("dt:score", "score %g, %d of %zu predictions are right", (double)(t ? F.sq : F.st), (int)right,
                  p.size());
    }
}
template <typename T> static void same(const Fit<T> &A, const Fit<T> &B, bool exact, const char *when) {
    double eps = exact ? 0 : sizeof(T) == 8 ? 1e-12 : 1e-5;
    auto near = [&](const std::vector<T> &a, const std::vector<T> &b) {
        for (size_t i = 0; i < a.size(); i++)
            if (!(a[i] == b[i] || fabs((double)a[i] - b[i]) <= eps))
                return false;
        return a.size() == b.size();
    };
    if (A.pt != B.pt || A.pq != B.pq)
        failf("dt:schedule", "%s: predictions differ", when);
    if (!near(A.prt, B.prt) || !near(A.prq, B.prq))
        failf("dt:schedule", "%s: probabilities differ", when);
    if (A.st != B.st || A.sq != B.sq)
        failf("dt:schedule", "%s: score %g/%g against %g/%g", when, (double)A.st, (double)A.sq, (double)B.st,
              (double)B.sq);
    for (size_t i = 0; i < std::min<size_t>(A.info.size() == 8 ? 7 : 5, A.info.size()); i++)
        if (A.info[i] != B.info[i])
            failf("dt:schedule", "%s: rinfo[%zu] %g against %g", when, i, (double)A.info[i], (double)B.info[i]);
}
static Opts gen_opts(bool cat_ok, da_int d) {
    Opts O;
    O.crit = (Crit)pick("criterion", 0, 2);
    O.depth = chance("shallow", 0.5) ? pick("depth", 0, 4) : 29;
    O.minn = chance("minn", 0.4) ? pick("min_samples", 1, 8) : 2;
    O.seed = pick("seed", 0, 100000);
    O.min_split = chance("min_split", 0.15) ? 0.21 : 0;
    O.min_imp = chance("min_imp", 0.15) ? 0.0213 : 0;
    O.hist = chance("hist", 0.3);
    O.maxf = chance("some_features", 0.35) ? pick("maxf", 1, d) : 0;
    O.bins = chance("bins", 0.3) ? pick("nbins", 2, 40) : 256;
    if (cat_ok && chance("categorical", 0.3)) {
        O.cat = true;
        O.onevall = chance("onevall", 0.7);
    }
    return O;
}
template <typename T> static Fit<T> fit_tree(Handle &h, Prob<T> &P, const Opts &O, bool set) {
    if (set) {
        options(h, P, O);
        opt(h, "detect categorical data", O.cat ? "yes" : "no");
        opti(h, "maximum features", O.maxf);
    }
    OKH(h.h, "da_tree_set_training_data",
        da_tree_set_training_data(h.h, P.n, P.d, chance("n_class0", 0.3) ? 0 : P.nc, P.X.p(), P.X.ld, P.yb.p,
                                  (const da_int *)nullptr));
    OKH(h.h, "da_tree_fit", da_tree_fit<T>(h.h));
    return query_tree<T>(h, P);
}
// every value of every feature gets a histogram bin of its own, numbered like the value
template <typename T> static bool own_bins(const Prob<T> &P, const Opts &O) {
    if (P.form != 1 || P.n < 24)
        return false;
    da_int mb = std::min(O.bins, P.n / 2);
    for (da_int j = 0; j < P.d; j++) {
        std::map<T, da_int> cnt;
        for (da_int i = 0; i < P.n; i++)
            cnt[P.X(i, j)]++;
        for (auto &k : cnt)
            if (k.second < 2 * P.n / mb + 2)
                return false;
        if ((da_int)cnt.size() >= mb || (O.onevall && cnt.rbegin()->first != (T)(cnt.size() - 1)))
            return false;
    }
    return true;
}
template <typename T> static void tree_t() {
    Env env;
    Prob<T> P;
    gen(P, 120);
    Opts O = gen_opts(P.form == 1, P.d);
    if (O.hist && P.n < 8)
        O.hist = false;
    bool exact_bins = own_bins(P, O);
    if (O.hist && !exact_bins)
        O.onevall = false;
    sim::log("n=%d d=%d nc=%d form=%d crit=%d depth=%d minn=%d hist=%d bins=%d maxf=%d cat=%d onevall=%d threads=%d",
             (int)P.n, (int)P.d, (int)P.nc, P.form, O.crit, (int)O.depth, (int)O.minn, O.hist, (int)O.bins,
             (int)O.maxf, O.cat, O.onevall, env.threads);
    Handle h;
    hinit<T>(h, da_handle_decision_tree);
    Fit<T> F = fit_tree<T>(h, P, O, true);
    common_checks(P, F, true);
    // rows with equal leaf distributions: their class frequencies are that distribution
    std::map<std::vector<T>, std::vector<da_int>> groups;
    for (da_int i = 0; i < P.n; i++)
        groups[std::vector<T>(F.prt.begin() + i * P.nc, F.prt.begin() + (i + 1) * P.nc)].push_back(i);
    double eps = sizeof(T) == 8 ? 1e-12 : 1e-6;
    for (auto &g : groups) {
        std::vector<da_int> c(P.nc, 0);
        for (auto i : g.second)
            c[P.y[i]]++;
        for (da_int k = 0; k < P.nc; k++)
            if (fabs((double)c[k] / g.second.size() - g.first[k]) > eps)
                failf("dt:leaf", "%zu training rows share a leaf probability %g of class %d, their frequency is %g",
                      g.second.size(), (double)g.first[k], (int)k, (double)c[k] / g.second.size());
        if ((da_int)g.second.size() < O.minn && groups.size() > 1)
            failf("dt:minsamples", "a leaf holds %zu rows, the minimum is %d", g.second.size(), (int)O.minn);
    }
    if (F.info.size() != 8 || F.info[0] != P.d || F.info[1] != P.n || F.info[2] != P.n || F.info[3] != O.seed)
        failf("dt:rinfo", "rinfo reports %g features %g samples %g obs seed %g", (double)F.info[0], (double)F.info[1],
              (double)F.info[2], (double)F.info[3]);
    if (F.info[4] > O.depth || F.info[5] != 2 * F.info[6] - 1)
        if (!(O.depth == 0))
            failf("dt:shape", "depth %g (limit %d), %g nodes, %g leaves", (double)F.info[4], (int)O.depth,
                  (double)F.info[5], (double)F.info[6]);
    if ((double)groups.size() > F.info[6] && O.depth > 0)
        failf("dt:shape", "%zu distinct leaf distributions, %g leaves", groups.size(), (double)F.info[6]);
    // reference tree when every feature is considered at every node
    bool all = O.maxf == 0 || O.maxf >= P.d;
    if (all && (!O.hist || exact_bins)) {
        Ref<T> R(P, O);
        da_int known = 0;
        for (int t = 0; t < 2; t++) {
            const Mat<T> &X = t ? P.Q : P.X;
            for (da_int i = 0; i < X.r; i++) {
                auto *N = R.find(X, i);
                if (!N)
                    continue;
                known++;
                da_int g = (t ? F.pq : F.pt)[i];
                if (g != N->pred)
                    failf("dt:reference", "%s row %d: class %d, the greedy tree says %d (depth %d)",
                          t ? "query" : "training", (int)i, (int)g, (int)N->pred, (int)N->depth);
                for (da_int c = 0; c < P.nc; c++)
                    if (fabs((double)(t ? F.prq : F.prt)[i * P.nc + c] - N->p[c]) > eps)
                        failf("dt:reference", "%s row %d: probability %g of class %d, the greedy tree says %g",
                              t ? "query" : "training", (int)i, (double)(t ? F.prq : F.prt)[i * P.nc + c], (int)c,
                              N->p[c]);
            }
        }
        if (known)
            probe(O.hist ? "histogram tree compared with reference" : "tree compared with reference");
        if (!R.any_open) {
            probe("tree fully determined");
            if (F.info[4] != R.maxdepth || F.info[5] != (T)R.nodes.size() || (O.depth && F.info[6] != R.leaves))
                failf("dt:reference", "depth %g nodes %g leaves %g, the greedy tree has %d %zu %d", (double)F.info[4],
                      (double)F.info[5], (double)F.info[6], (int)R.maxdepth, R.nodes.size(), (int)R.leaves);
        }
    }
    if (F.info[7] > 1)
        probe("tree fitted by a team");
    // the same handle, another schedule; and a fresh one
    Fit<T> G;
    if (chance("again_same", 0.5))
        G = fit_tree<T>(h, P, O, false);
    else
        G = sequentially([&] {
            Handle h2;
            hinit<T>(h2, da_handle_decision_tree);
            return fit_tree<T>(h2, P, O, true);
        });
    same(F, G, true, "same data and seed, another schedule");
    hash_vec(F.pq);
    hash_vec(F.prq);
}
static void tree() { chance("single", 0.4) ? tree_t<float>() : tree_t<double>(); }

struct FOpts {
    da_int trees = 1, block = 256, ttmax = 0;
    bool boot = true;
    double factor = 0.8, prop = 0.5;
    int sel = 0;
};
template <typename T> static Fit<T> fit_forest(Handle &h, Prob<T> &P, const Opts &O, const FOpts &G, bool set) {
    static const char *sn[] = {"all", "sqrt", "log2", "proportion", "custom"};
    if (set) {
        options(h, P, O);
        opti(h, "number of trees", G.trees);
        opti(h, "block size", G.block);
        opt(h, "bootstrap", G.boot ? "yes" : "no");
        optr<T>(h, "bootstrap samples factor", (T)G.factor);
        opt(h, "features selection", sn[G.sel]);
        opti(h, "maximum features", O.maxf);
        optr<T>(h, "proportion features", (T)G.prop);
        opti(h, "maximum tree threads", G.ttmax);
    }
    OKH(h.h, "da_forest_set_training_data",
        da_forest_set_training_data(h.h, P.n, P.d, chance("n_class0", 0.3) ? 0 : P.nc, P.X.p(), P.X.ld, P.yb.p,
                                    (const da_int *)nullptr));
    OKH(h.h, "da_forest_fit", da_forest_fit<T>(h.h));
    return query_forest<T>(h, P);
}
template <typename T> static void forest_t() {
    Env env;
    Prob<T> P;
    gen(P, 60);
    Opts O = gen_opts(P.form == 1, P.d);
    O.cat = false;
    if (O.hist && P.n < 8)
        O.hist = false;
    if (O.hist && !own_bins(P, O))
        O.onevall = false;
    FOpts G;
    G.trees = pick("trees", 1, 9);
    G.block = sim::one_of<da_int>("block", {256, 1, 3, 7, 16});
    G.boot = chance("bootstrap", 0.6);
    G.factor = G.boot ? 0.05 * pick("factor", 1, 20) : 0.8;
    G.sel = (int)pick("selection", 0, 4);
    G.prop = 0.1 * pick("prop", 1, 10);
    G.ttmax = pick("ttmax", 0, 2);
    sim::log("n=%d d=%d q=%d nc=%d form=%d crit=%d depth=%d minn=%d hist=%d bins=%d onevall=%d threads=%d trees=%d "
             "boot=%d factor=%g sel=%d ttmax=%d block=%d",
             (int)P.n, (int)P.d, (int)P.q, (int)P.nc, P.form, O.crit, (int)O.depth, (int)O.minn, O.hist, (int)O.bins,
             O.onevall, env.threads, (int)G.trees, G.boot, G.factor, G.sel, (int)G.ttmax, (int)G.block);
    Handle h;
    hinit<T>(h, da_handle_decision_forest);
    Fit<T> F = fit_forest<T>(h, P, O, G, true);
    common_checks(P, F, false);
    da_int nobs = G.boot ? std::max<da_int>((da_int)std::round(P.n * (T)G.factor), 1) : P.n;
    if (F.info.size() < 5 || F.info[0] != P.d || F.info[1] != P.n)
        failf("dt:rinfo", "rinfo reports %g features %g samples", (double)F.info[0], (double)F.info[1]);
    (void)nobs;
    Fit<T> B;
    bool refit = chance("again_same", 0.4);
    // without parallel trees the model may not depend on the thread count either
    bool serial_trees = G.ttmax == 1 || P.d < 8;
    if (refit)
        B = fit_forest<T>(h, P, O, G, false);
    else
        B = sequentially([&] {
            if (serial_trees && chance("other_threads", 0.5)) {
                probe("forest compared across thread counts");
                sim::set_threads((int)pick("threads2", 1, 6));
            }
            Handle h2;
            hinit<T>(h2, da_handle_decision_forest);
            return fit_forest<T>(h2, P, O, G, true);
        });
    same(F, B, false, "same data and seed, another schedule");
    sim::set_threads(env.threads);
    // a forest of identical trees is that tree
    bool allf = G.sel == 0 || (G.sel == 4 && (O.maxf == 0 || O.maxf >= P.d));
    if (!G.boot && allf) {
        if (!O.hist) {
            Opts O2 = O;
            O2.cat = false;
            O2.onevall = false;
            Ref<T> R(P, O2);
            for (int t = 0; t < 2; t++) {
                const Mat<T> &X = t ? P.Q : P.X;
                for (da_int i = 0; i < X.r; i++) {
                    auto *N = R.find(X, i);
                    if (!N)
                        continue;
                    probe("forest row compared with reference tree");
                    if ((t ? F.pq : F.pt)[i] != N->pred)
                        failf("dt:reference", "row %d: forest of equal trees says class %d, the tree %d", (int)i,
                              (int)(t ? F.pq : F.pt)[i], (int)N->pred);
                    for (da_int c = 0; c < P.nc; c++)
                        if (fabs((double)(t ? F.prq : F.prt)[i * P.nc + c] - N->p[c]) > 1e-5)
                            failf("dt:reference", "row %d: probability %g of class %d, the tree says %g", (int)i,
                                  (double)(t ? F.prq : F.prt)[i * P.nc + c], (int)c, N->p[c]);
                }
            }
        }
    }
    // pure leaves: the mean probability is the share of votes
    bool pure = P.form == 0 && O.depth == 29 && O.minn == 1 && O.min_split == 0 && O.min_imp == 0 && !O.hist &&
                O.crit != MIS && P.d <= 3 && G.sel == 0;
    for (size_t i = 0; pure && i < F.pq.size(); i++) {
        probe("votes compared with probabilities");
        double mx = -1;
        da_int arg = 0;
        bool tie = false;
        for (da_int c = 0; c < P.nc; c++) {
            double v = F.prq[i * P.nc + c] * G.trees;
            if (fabs(v - std::round(v)) > 1e-3)
                pure = false; // constant features can leave impure leaves
            if (fabs(v - mx) < 1e-3)
                tie = true;
            else if (v > mx)
                mx = v, arg = c, tie = false;
        }
        if (pure && !tie && F.pq[i] != arg)
            failf("dt:vote", "query %zu: predicted class %d, most votes have class %d", i, (int)F.pq[i], (int)arg);
    }
    hash_vec(F.pq);
}
static void forest() { chance("single", 0.4) ? forest_t<float>() : forest_t<double>(); }
sim::Scenario sim_scenarios[] = {{"tree", tree, 3}, {"forest", forest, 3}, {nullptr, nullptr, 0}};
