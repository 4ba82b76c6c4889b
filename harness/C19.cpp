// C19: seeded randomness is reproducible; shuffles and splits are true partitions; failures of the entropy source are errors.
// modules: all
#include "zoo.hpp"
const char *sim_property = "C19";
const char *sim_rule = "a run counts when every index array and split of it was checked element by element against its definition, "
                       "or every fit under a failing, repeating or extreme entropy source was judged; distinct = distinct event hashes";
const char *sim_real_components = "da_get_shuffled_indices, da_train_test_split, seeding of trees, forests, k-means, t-SNE, IVF, SVM "
                                  "probabilities, randomised SVD: all real code from /repo";
const char *sim_stub_components = "std::random_device (random, repeating, extreme values, unavailable), OpenMP runtime, threads, "
                                  "allocator (simulated); BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}
using namespace zoo;

template <typename C> static C label(sim::Rng &r, int kind, int c, C prec) {
    if constexpr (std::is_floating_point<C>::value)
        switch (kind) {
        case 0:
            return (C)c;
        case 1: // a grid finer than the integers, around zero
            return ((C)(c - 1) + (C)0.5) / prec;
        case 2:
            return (C)(c - 1) * (C)1.5;
        default: // labels which differ below the precision are one class
            return (C)c + (C)r.below(3) / (8 * prec);
        }
    else
        return (C)(kind == 0 ? c : kind == 1 ? c - 2 : kind == 2 ? c * 1000000 : -7 * c);
}
template <typename C> static void shuffle_case(bool strat, std::vector<da_int> &order_out, da_int &m, da_int &train, da_int &test) {
    sim::Rng r("labels");
    m = (da_int)(chance("m_big", 0.15) ? pick("m_large", 100, 2000) : pick("m", 2, 40));
    int K = (int)pick("classes", 2, 5), kind = (int)pick("label_kind", 0, 3);
    da_int prec = (da_int)sim::one_of<int>("precision", {10, 16, 1000});
    da_int seed = chance("entropy", 0.2) ? -1 : (da_int)pick("seed", 0, 1 << 30);
    train = (da_int)pick("train", 1, m - 1), test = (da_int)pick("test", 1, m - train);
    if (chance("all_rows", 0.5))
        test = m - train;
    Buf<C> y(m);
    std::map<int64_t, da_int> count;
    auto cls = [&](da_int i) -> int64_t {
        if constexpr (std::is_floating_point<C>::value)
            return (int64_t)std::floor(y[i] * (C)prec);
        else
            return (int64_t)y[i];
    };
    for (da_int i = 0; i < m; i++) {
        y[i] = label<C>(r, kind, i < 2 * K ? i / 2 : (int)r.below(K), (C)prec);
        count[cls(i)]++;
    }
    y.input();
    Buf<da_int> s(m), s2(m);
    for (da_int i = 0; i < m; i++)
        s[i] = s2[i] = -5;
    C *cp = strat ? y.p : nullptr;
    bool ok = true;
    if (strat) {
        da_int nc = (da_int)count.size();
        ok = nc >= 2 && train >= nc && test >= nc;
        for (auto &c : count)
            ok &= c.second >= 2;
    }
    auto before = sim::random_device_draws();
    auto call = [&](Buf<da_int> &o) {
        sim::Api api("da_get_shuffled_indices");
        return da_get_shuffled_indices<C>(m, seed, train, test, prec, cp, o.p);
    };
    bool dead = seed == -1 && chance("no_source", 0.4);
    if (dead)
        sim::random_device_fault(true);
    else if (seed == -1 && chance("odd_source", 0.4))
        sim::random_device_value(sim::one_of<long long>("value", {0x80000000LL, 0xffffffffLL, 0, 0x7fffffffLL}));
    da_status st = call(s);
    sim::random_device_value(-1);
    char what[200];
    snprintf(what, sizeof what, "%s m=%d train=%d test=%d classes=%d seed=%d precision=%d labels=%d", strat ? "stratified" : "plain", (int)m,
             (int)train, (int)test, (int)count.size(), (int)seed, (int)prec, kind);
    if (dead) {
        sim::random_device_fault(false);
        if (st != da_status_operation_failed && (ok || st != da_status_invalid_input))
            failf("entropy:status", "%s: status %d without an entropy source", what, (int)st);
        probe("refused_without_entropy");
        order_out.clear();
        return;
    }
    if (!ok) {
        if (st != da_status_invalid_input)
            failf("stratify:accepted", "%s: status %d for sizes or classes which cannot be stratified", what, (int)st);
        for (da_int i = 0; i < m; i++)
            if (s[i] != -5)
                failf("stratify:written", "%s: refused, but the output was written", what);
        probe("refused");
        order_out.clear();
        return;
    }
    if (st != da_status_success)
        failf("shuffle:status", "%s: status %d", what, (int)st);
    if (seed == -1 && sim::random_device_draws() == before)
        failf("seed:entropy", "%s: no entropy was drawn", what);
    if (seed != -1 && sim::random_device_draws() != before)
        failf("seed:entropy", "%s: entropy was drawn though a seed is given", what);
    da_int len = strat ? train + test : m;
    std::vector<char> seen(m);
    for (da_int i = 0; i < len; i++) {
        if (s[i] < 0 || s[i] >= m || seen[s[i]])
            failf("shuffle:partition", "%s: position %d holds %d, %s", what, (int)i, (int)s[i],
                  s[i] < 0 || s[i] >= m ? "not a row" : "which was there before");
        seen[s[i]] = 1;
    }
    if (strat) {
        for (da_int i = len; i < m; i++)
            if (s[i] != -5 && (s[i] < 0 || s[i] >= m))
                failf("shuffle:partition", "%s: position %d holds %d, not a row", what, (int)i, (int)s[i]);
        std::map<int64_t, da_int> tr, te;
        for (da_int i = 0; i < train; i++)
            tr[cls(s[i])]++;
        for (da_int i = train; i < len; i++)
            te[cls(s[i])]++;
        for (auto &c : count) {
            double want = (double)c.second * train / m, got = tr[c.first];
            if (std::fabs(got - want) >= 1 + 1e-9)
                failf("stratify:train", "%s: class %lld has %d of %d rows, %g of the %d training rows, %g is proportional", what,
                      (long long)c.first, (int)c.second, (int)m, got, (int)train, want);
            double left = (double)(c.second - tr[c.first]), want2 = left * test / (m - train);
            if (std::fabs((double)te[c.first] - want2) >= 1 + 1e-9)
                failf("stratify:test", "%s: class %lld: %d of the %d test rows, %g is proportional", what, (long long)c.first,
                      (int)te[c.first], (int)test, want2);
        }
        probe("stratified");
    } else
        probe("shuffled");
    if (seed != -1) { // again, under another team size and schedule
        sim::set_threads((int)pick("threads2", 1, 6));
        if (call(s2) != da_status_success)
            failf("seed:repeat", "%s: the second call fails", what);
        for (da_int i = 0; i < m; i++)
            if (s[i] != s2[i])
                failf("seed:repeat", "%s: position %d: %d, then %d from the same seed", what, (int)i, (int)s[i], (int)s2[i]);
        probe("repeated");
    }
    order_out.assign(s.p, s.p + len);
}
template <typename T> static void split_case(const std::vector<da_int> &idx, da_int m, da_int train, da_int test) {
    da_int n = (da_int)pick("columns", 1, 6);
    da_order o = chance("row_major", 0.5) ? row_major : column_major;
    bool use = !idx.empty() && chance("indices", 0.8);
    Mat<T> X(m, n, o, (da_int)pick("pad", 0, 3)), A(train, n, o, (da_int)pick("padA", 0, 3)), B(test, n, o, (da_int)pick("padB", 0, 3));
    for (da_int i = 0; i < m; i++)
        for (da_int j = 0; j < n; j++)
            X(i, j) = (T)(i * n + j);
    X.input();
    Buf<da_int> ix(std::max<da_int>(1, (da_int)idx.size()));
    for (size_t i = 0; i < idx.size(); i++)
        ix[i] = idx[i];
    ix.input();
    sim::set_threads((int)pick("split_threads", 1, 6));
    da_status st;
    {
        sim::Api api("da_train_test_split");
        st = da_train_test_split<T>(o, m, n, X.p(), X.ld, train, test, use ? ix.p : nullptr, A.p(), A.ld, B.p(), B.ld);
    }
    if (st != da_status_success)
        failf("split:status", "%dx%d %d/%d: status %d", (int)m, (int)n, (int)train, (int)test, (int)st);
    for (da_int i = 0; i < train + test; i++)
        for (da_int j = 0; j < n; j++) {
            T got = i < train ? A(i, j) : B(i - train, j), want = X(use ? idx[i] : i, j);
            if (got != want)
                failf("split:rows", "%dx%d %s, %d/%d rows%s: row %d column %d of the %s set is %g, row %d of the data has %g", (int)m,
                      (int)n, o == row_major ? "row" : "column", (int)train, (int)test, use ? ", shuffled" : "",
                      (int)(i < train ? i : i - train), (int)j, i < train ? "training" : "test", (double)got, (int)(use ? idx[i] : i),
                      (double)want);
        }
    probe(o == row_major ? "split_rows" : "split_columns");
}
static void split() {
    Env env;
    for (int k = 0, rounds = (int)pick("rounds", 1, 4); k < rounds; k++) {
        std::vector<da_int> idx;
        da_int m, train, test;
        bool strat = chance("stratify", 0.6);
        switch (pick("label_type", 0, 2)) {
        case 0:
            shuffle_case<da_int>(strat, idx, m, train, test);
            break;
        case 1:
            shuffle_case<float>(strat, idx, m, train, test);
            break;
        default:
            shuffle_case<double>(strat, idx, m, train, test);
        }
        switch (pick("data_type", 0, 2)) {
        case 0:
            split_case<da_int>(idx, m, train, test);
            break;
        case 1:
            split_case<float>(idx, m, train, test);
            break;
        default:
            split_case<double>(idx, m, train, test);
        }
    }
}
// ---- seeds of the algorithms under a healthy, extreme or unavailable entropy source ----
static bool has_seed(da_handle h) {
    da_int v;
    return da_options_get_int(h, "seed", &v) == da_status_success;
}
static void entropy() {
    Env env;
    ModelBase m = draw({K_PCA, K_KPCA, K_KMEANS, K_TREE, K_FOREST, K_ANN, K_SVM, K_TSNE});
    Handle h;
    if (init(h, m) != da_status_success)
        sim::give_up("init");
    if (!has_seed(h.h))
        return;
    std::string at;
    if (train(h.h, m, &at) != da_status_success)
        return; // not every drawn model can be fitted
    sim::u64 d0 = sim::random_device_draws();
    Handle f;
    if (init(f, m) != da_status_success || train(f.h, m, &at, 0, 1) != da_status_success)
        failf("entropy:setup", "%s: a second handle fails at %s; %s", m.kind.c_str(), at.c_str(), describe(m).c_str());
    {
        sim::Api api("da_options_set_int");
        if (da_options_set_int(f.h, "seed", -1) != da_status_success)
            failf("entropy:option", "seed -1 refused");
    }
    if (sim::random_device_draws() != d0)
        failf("seed:entropy", "%s: entropy was drawn though a seed is given; %s", m.kind.c_str(), describe(m).c_str());
    int how = (int)pick("source", 0, 4);
    switch (how) {
    case 0:
        break;
    case 1:
        sim::random_device_value(0x80000000LL);
        break;
    case 2:
        sim::random_device_value(0xffffffffLL);
        break;
    case 3:
        sim::random_device_value(0);
        break;
    default:
        sim::random_device_fault(true);
    }
    da_status st = train(f.h, m, &at, 2, 2);
    bool drew = sim::random_device_draws() != d0;
    if (how < 4) {
        // seeds differ, so hard cases may behave differently; only refusals of the seed itself are errors
        if (st == da_status_operation_failed || st == da_status_internal_error || st == da_status_invalid_input)
            failf("entropy:status", "%s: status %d at %s with seed -1, source %d; %s", m.kind.c_str(), (int)st, at.c_str(), how, describe(m).c_str());
        probe(drew ? "drawn" : "not_random");
        if (drew && st == da_status_success) { // an entropy source is asked again for every fit
            sim::u64 d1 = sim::random_device_draws();
            da_status again = train(f.h, m, &at, 2, 2);
            if (again == da_status_success && sim::random_device_draws() == d1) {
                probe("refit_without_entropy");
            }
        }
    } else {
        if (drew)
            failf("entropy:device", "the device was read though it could not be opened");
        if (st == da_status_success)
            probe("not_random");
        else {
            if (st == da_status_internal_error)
                failf("entropy:status", "%s: internal error when the entropy source is not available", m.kind.c_str());
            if (errmsg(f.h).empty())
                failf("entropy:message", "%s: status %d without a message", m.kind.c_str(), (int)st);
            probe("refused_without_entropy");
        }
        sim::random_device_fault(false);
        st = train(f.h, m, &at, 2, 2);
        if (st == da_status_operation_failed || st == da_status_internal_error || st == da_status_invalid_input)
            failf("entropy:recover", "%s: status %d at %s after the source came back; %s", m.kind.c_str(), (int)st, at.c_str(), describe(m).c_str());
        probe("recovered");
    }
}
// the same seed: the same results, on any run, and for trees and forests on any number of threads and schedule
static void repeat() {
    Env env;
    ModelBase m = draw({K_PCA, K_KPCA, K_KMEANS, K_TREE, K_TREE, K_FOREST, K_FOREST, K_ANN, K_SVM, K_TSNE});
    bool trees = m.type == da_handle_decision_tree || m.type == da_handle_decision_forest;
    int t1 = (int)pick("threads1", 1, 6), t2 = trees ? (int)pick("threads2", 1, 6) : t1;
    auto run = [&](int threads, std::vector<Out> &o) {
        Handle h;
        if (init(h, m) != da_status_success)
            sim::give_up("init");
        sim::set_threads(threads);
        if (!trees)
            sim::random_schedule(false); // sums may be taken in another order on another schedule
        std::string at;
        da_status st = train(h.h, m, &at);
        o.emplace_back(1, (double)st);
        if (st == da_status_success) {
            o.push_back(results(h.h, m, !trees)); // a forest reports its number of threads
            sim::random_schedule(false); // as are votes summed
            sim::set_threads(t1);
            for (auto &q : m.queries) {
                o.emplace_back();
                q.f(h.h, o.back());
            }
        }
        sim::random_schedule(true);
    };
    std::vector<Out> a, b;
    run(t1, a);
    sim::u64 d0 = sim::random_device_draws();
    run(t2, b);
    if (sim::random_device_draws() != d0)
        failf("seed:entropy", "%s: entropy was drawn though a seed is given; %s", m.kind.c_str(), describe(m).c_str());
    if (a.size() != b.size())
        failf("seed:repeat", "%s: status %g, then %g from the same seed; %s", m.kind.c_str(), a[0][0], b[0][0], describe(m).c_str());
    for (size_t i = 0; i < a.size(); i++) {
        std::string e = diff(a[i], b[i]);
        if (!e.empty())
            failf("seed:repeat", "%s: another result from the same seed (%s: %s), %d and %d threads; %s", m.kind.c_str(),
                  i < 2 ? "results" : m.queries[i - 2].name.c_str(), e.c_str(), t1, t2, describe(m).c_str());
    }
    probe(m.kind.c_str());
}
sim::Scenario sim_scenarios[] = {{"split", split, 3}, {"entropy", entropy, 1}, {"repeat", repeat, 1}, {nullptr, nullptr, 0}};
