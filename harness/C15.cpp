// C15: a failed allocation becomes an error status, never a crash or a wrong result
// modules: all
#include "zoo.hpp"
#include <fstream>
const char *sim_property = "C15";
const char *sim_rule = "a run counts when at least one allocation of a public call was made to fail and the call, its repetition with "
                       "memory available and everything asked afterwards were compared with a run without faults, and all "
                       "memory was given back at the end; distinct = distinct event hashes";
const char *sim_real_components = "every algorithm handle, option registry, datastore, CSV reader, statistics, metrics, kernels, "
                                  "splits, handle dispatch: all real code from /repo";
const char *sim_stub_components = "allocator (malloc family and operator new, fails on command), OpenMP runtime, threads, "
                                  "std::random_device (simulated); BLAS is the real OpenBLAS, single threaded";
using namespace zoo;

struct Op {
    std::string name;
    std::function<da_status(Out &)> f;
    bool query = false;
};
struct Ref {
    da_status st;
    Out out;
    i64 allocs;
};
static Ref clean(Op &op) {
    Ref r;
    i64 a = sim::allocs_in_api();
    r.st = op.f(r.out);
    r.allocs = sim::allocs_in_api() - a;
    return r;
}
static void arm(i64 allocs) {
    if (chance("larger", 0.05)) {
        sim::fail_alloc_larger((size_t)1 << pick("larger_log", 3, 10));
        return;
    }
    i64 cnt = sim::one_of<i64>("count", {1, 1, 2, 5, 1000000});
    sim::fail_alloc(pick("nth", 1, std::max<i64>(allocs, 1)), cnt);
}
// run op under a fault; when it reports success its output must be right
static da_status faulted(Op &op, const Ref &ref, const std::string &who) {
    arm(ref.allocs);
    Out o;
    uint64_t f0 = sim::alloc_faults_fired();
    da_status st = op.f(o);
    bool fired = sim::alloc_faults_fired() > f0;
    std::string site = fired ? sim::alloc_fault_site() : "-";
    sim::clear_alloc_faults();
    if (!fired)
        probe("fault_not_reached");
    else {
        probe("fault");
        sim::fault("alloc");
    }
    sim::log("%s under fault: status %d, failed at %s", op.name.c_str(), (int)st, site.c_str());
    if (st == da_status_success) {
        std::string e = ref.st == st ? diff(ref.out, o) : "success instead of an error";
        if (!e.empty())
            failf(("wrong:" + op.name).c_str(), "%s: %s succeeded with a failed allocation (%s) and a wrong result: %s", who.c_str(),
                  op.name.c_str(), site.c_str(), e.c_str());
        if (fired)
            probe("survived");
    } else if (!fired && st != ref.st)
        failf(("status:" + op.name).c_str(), "%s: %s: status %d without a fault, %d before", who.c_str(), op.name.c_str(), (int)st,
              (int)ref.st);
    return st;
}
static void again(Op &op, const Ref &ref, const std::string &who, const char *when) {
    Ref r = clean(op);
    if (r.st != ref.st)
        failf((std::string(when) + "-status:" + op.name).c_str(), "%s: %s %s: status %d, %d in a handle without faults", who.c_str(),
              op.name.c_str(), when, (int)r.st, (int)ref.st);
    std::string e = diff(ref.out, r.out);
    if (!e.empty())
        failf((std::string(when) + ":" + op.name).c_str(), "%s: %s %s: %s", who.c_str(), op.name.c_str(), when, e.c_str());
}
static void leak(int base, const std::string &who, const char *what) {
    if (sim::live_blocks() != base)
        failf((std::string("leak:") + what).c_str(), "%s: %d blocks still allocated at the end: %s", who.c_str(),
              sim::live_blocks() - base, sim::live_sites(std::min(sim::live_blocks() - base, 6)).c_str());
}
// ---- handles ---------------------------------------------------------------------
static std::vector<Op> plan(const ModelBase &m, Handle &h) {
    std::vector<Op> v;
    v.push_back({"da_handle_init", [&](Out &) {
                     h.destroy();
                     da_status st = init(h, m);
                     if (st != da_status_success && h.h) {
                         // an error must not leave a half-made handle behind that cannot be destroyed
                         h.destroy();
                     }
                     return st;
                 }});
    for (auto &s : m.steps) {
        auto f = s.f;
        v.push_back({s.name, [f, &h](Out &) { return f(h.h); }});
    }
    for (auto &q : m.queries) {
        auto f = q.f;
        v.push_back({q.name, [f, &h](Out &o) {
                         da_status st = f(h.h, o);
                         return st;
                     }, true});
    }
    for (auto &r : all_results) {
        int id = r.id;
        v.push_back({std::string("get_result:") + r.name, [id, &h, &m](Out &o) {
                         // (the size call may fail for memory as well: then no strict reading)
                         size_t n0 = o.size();
                         if (m.dbl)
                             get_result<double>(h.h, m.type, id, o, false);
                         else
                             get_result<float>(h.h, m.type, id, o, false);
                         return o.size() > n0 ? da_status_success : da_status_unknown_query;
                     }, true});
    }
    return v;
}
static std::string site_kind(const ModelBase &m) { return m.kind; }
static void handle_run(int kind) {
    Env env;
    force_n = force_d = 0;
    ModelBase m = draw(kind);
    std::string who = describe(m);
    sim::log("%s", who.c_str());
    // what is compared bitwise needs one schedule; the others look at statuses, memory and crashes only
    bool quiet = chance("quiet", 0.6);
    int base = sim::live_blocks();
    {
        Handle h, f;
        std::vector<Op> rp = plan(m, f), sp = plan(m, h);
        std::vector<Ref> ref;
        sim::random_schedule(false);
        for (auto &op : rp) {
            ref.push_back(clean(op));
            if (ref.back().st != da_status_success && !op.query && op.name.compare(0, 6, "option"))
                probe("reference_refuses");
        }
        // operations to disturb: the first, then others
        std::set<size_t> at;
        int nf = (int)pick("n_faults", 1, 3);
        for (int k = 0; k < nf; k++) {
            std::vector<size_t> c;
            int cls = (int)pick("class", 0, 3); // fit, data, query, anything
            for (size_t i = 0; i < sp.size(); i++) {
                if (!ref[i].allocs)
                    continue;
                int stage = i >= 1 && i <= m.steps.size() ? m.steps[i - 1].stage : -1;
                if (cls == 0 ? stage == 2 : cls == 1 ? stage == 1 : cls == 2 ? sp[i].query : true)
                    c.push_back(i);
            }
            if (!c.empty())
                at.insert(c[pick("op", 0, (i64)c.size() - 1)]);
        }
        bool gave_up = false;
        sim::random_schedule(!quiet);
        for (size_t i = 0; i < sp.size() && !gave_up; i++) {
            if (at.count(i)) {
                da_status st = da_status_success;
                int tries = (int)pick("tries", 1, 2);
                for (int k = 0; k < tries; k++) {
                    if (quiet)
                        st = faulted(sp[i], ref[i], who);
                    else {
                        Ref any = ref[i];
                        arm(any.allocs);
                        Out o;
                        st = sp[i].f(o);
                        sim::fault("alloc");
                        sim::clear_alloc_faults();
                    }
                    if (st == da_status_success)
                        break;
                }
                if (sp[i].name == "da_handle_init" && st != da_status_success && chance("init_only", 0.3))
                    gave_up = true;
                else if (st != da_status_success && i > 0) {
                    switch (pick("then", 0, 4)) {
                    case 0: // destroy at once
                        probe("destroyed_after_failure");
                        gave_up = true;
                        break;
                    case 1: // ask everything: refused or whatever, but sound
                        for (size_t j = 0; j < sp.size(); j++)
                            if (sp[j].query) {
                                Out o;
                                sp[j].f(o);
                            }
                        probe("asked_after_failure");
                        break;
                    case 2: {
                        std::string s = errmsg(h.h);
                        sim::hash_bytes(s.data(), s.size());
                        break;
                    }
                    default:
                        break;
                    }
                }
                if (gave_up)
                    break;
                if (st == da_status_success && !sp[i].query)
                    continue; // done: some calls may not be repeated
                if (quiet)
                    again(sp[i], ref[i], who, "repeated");
                else {
                    Ref r = clean(sp[i]);
                    if (r.st != ref[i].st)
                        failf(("repeated-status:" + sp[i].name).c_str(), "%s: %s repeated: status %d, %d in a handle without faults",
                              who.c_str(), sp[i].name.c_str(), (int)r.st, (int)ref[i].st);
                }
            } else if (quiet)
                again(sp[i], ref[i], who, "after");
            else {
                Ref r = clean(sp[i]);
                (void)r;
            }
        }
        sim::random_schedule(true);
        for (auto &r : ref)
            hash_vec(r.out);
        if (!gave_up)
            probe("compared");
    }
    leak(base, who, site_kind(m).c_str());
}
// ---- functions without a handle --------------------------------------------------
template <typename T> static std::vector<Op> free_functions(std::vector<std::shared_ptr<void>> &keep, std::string &who) {
    std::vector<Op> v;
    sim::Rng r("free");
    da_order o = chance("row_major", 0.5) ? row_major : column_major;
    da_int n = (da_int)pick("n", 2, 12), d = (da_int)pick("d", 1, 6);
    auto X = std::make_shared<Mat<T>>(n, d, o, (da_int)pick("pad", 0, 2));
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < d; j++)
            (*X)(i, j) = (T)r.range(1, 9);
    X->input();
    keep.push_back(X);
    da_int m = (da_int)pick("m", 1, 6);
    auto Y = std::make_shared<Mat<T>>(m, d, o, 0);
    for (da_int i = 0; i < m; i++)
        for (da_int j = 0; j < d; j++)
            (*Y)(i, j) = (T)r.range(1, 9);
    Y->input();
    keep.push_back(Y);
    da_axis ax = sim::one_of<da_axis>("axis", {da_axis_col, da_axis_row, da_axis_all});
    da_int k = ax == da_axis_col ? d : ax == da_axis_row ? n : 1;
    auto vec = [=](const char *name, int outs, std::function<da_status(T *, T *, T *, T *, T *)> g) {
        Op op;
        op.name = name;
        std::string N = name;
        op.f = [=](Out &out) {
            Buf<T> a(k), b(k), c(k), e(k), f(k);
            da_status st = api(N.c_str(), [&] { return g(a.p, b.p, c.p, e.p, f.p); });
            if (st == da_status_success) {
                Buf<T> *all[] = {&a, &b, &c, &e, &f};
                for (int q = 0; q < outs; q++)
                    for (da_int i = 0; i < k; i++)
                        out.push_back((double)(*all[q])[i]);
            }
            return st;
        };
        return op;
    };
    auto mat = [=](const char *name, da_int rr, da_int cc, std::function<da_status(Mat<T> &)> g) {
        Op op;
        op.name = name;
        std::string N = name;
        op.f = [=](Out &out) {
            Mat<T> M(rr, cc, o, 0);
            da_status st = api(N.c_str(), [&] { return g(M); });
            if (st == da_status_success)
                for (da_int i = 0; i < rr; i++)
                    for (da_int j = 0; j < cc; j++)
                        out.push_back((double)M(i, j));
            return st;
        };
        return op;
    };
    T *x = X->p();
    T *y = Y->p();
    da_int ldx = X->ld, ldy = Y->ld;
    v.push_back(vec("da_mean", 1, [=](T *a, T *, T *, T *, T *) { return da_mean(o, ax, n, d, x, ldx, a); }));
    v.push_back(vec("da_geometric_mean", 1, [=](T *a, T *, T *, T *, T *) { return da_geometric_mean(o, ax, n, d, x, ldx, a); }));
    v.push_back(vec("da_harmonic_mean", 1, [=](T *a, T *, T *, T *, T *) { return da_harmonic_mean(o, ax, n, d, x, ldx, a); }));
    v.push_back(vec("da_variance", 2, [=](T *a, T *b, T *, T *, T *) { return da_variance(o, ax, n, d, x, ldx, (da_int)0, a, b); }));
    v.push_back(vec("da_skewness", 3, [=](T *a, T *b, T *c, T *, T *) { return da_skewness(o, ax, n, d, x, ldx, a, b, c); }));
    v.push_back(vec("da_kurtosis", 3, [=](T *a, T *b, T *c, T *, T *) { return da_kurtosis(o, ax, n, d, x, ldx, a, b, c); }));
    v.push_back(vec("da_moment", 2, [=](T *a, T *b, T *, T *, T *) { return da_moment(o, ax, n, d, x, ldx, (da_int)3, (da_int)0, a, b); }));
    v.push_back(vec("da_quantile", 1, [=](T *a, T *, T *, T *, T *) {
        static const T q = (T)0.375;
        return da_quantile(o, ax, n, d, x, ldx, &q, (da_int)1, a, da_quantile_type_7);
    }));
    v.push_back(vec("da_five_point_summary", 5, [=](T *a, T *b, T *c, T *e, T *f) {
        return da_five_point_summary(o, ax, n, d, x, ldx, a, b, c, e, f);
    }));
    v.push_back(mat("da_covariance_matrix", d, d, [=](Mat<T> &M) { return da_covariance_matrix(o, n, d, x, ldx, (da_int)0, M.p(), M.ld, (da_int)0); }));
    v.push_back(mat("da_correlation_matrix", d, d, [=](Mat<T> &M) { return da_correlation_matrix(o, n, d, x, ldx, M.p(), M.ld); }));
    v.push_back(mat("da_standardize", n, d, [=](Mat<T> &M) {
        for (da_int i = 0; i < n; i++)
            for (da_int j = 0; j < d; j++)
                M(i, j) = (*X)(i, j);
        return da_standardize<T>(o, ax, n, d, M.p(), M.ld, (da_int)0, (da_int)0, nullptr, nullptr);
    }));
    da_metric me = sim::one_of<da_metric>("metric", {da_euclidean, da_sqeuclidean, da_manhattan, da_minkowski, da_cosine});
    bool self = chance("self", 0.4);
    v.push_back(mat("da_pairwise_distances", n, self ? n : m, [=](Mat<T> &M) {
        return da_pairwise_distances(o, n, m, d, x, ldx, self ? (T *)nullptr : y, ldy, M.p(), M.ld, (T)3, me);
    }));
    int ke = (int)pick("kernel", 0, 3);
    v.push_back(mat("da_kernel", n, self ? n : m, [=](Mat<T> &M) {
        const T *yy = self ? (T *)nullptr : y;
        switch (ke) {
        case 0:
            return da_linear_kernel(o, n, m, d, x, ldx, yy, ldy, M.p(), M.ld);
        case 1:
            return da_polynomial_kernel(o, n, m, d, x, ldx, yy, ldy, M.p(), M.ld, (T)0.5, (da_int)2, (T)1);
        case 2:
            return da_rbf_kernel(o, n, m, d, x, ldx, yy, ldy, M.p(), M.ld, (T)0.5);
        default:
            return da_sigmoid_kernel(o, n, m, d, x, ldx, yy, ldy, M.p(), M.ld, (T)0.01, (T)0.5);
        }
    }));
    auto lab = std::make_shared<Buf<da_int>>(n);
    for (da_int i = 0; i < n; i++)
        (*lab)[i] = i % 2;
    lab->input();
    keep.push_back(lab);
    da_int tr = std::max<da_int>(1, n / 2), te = n - tr;
    bool strat = chance("strat", 0.5);
    v.push_back({"da_get_shuffled_indices", [=](Out &out) {
                     Buf<da_int> idx(n);
                     da_status st = api("da_get_shuffled_indices", [&] {
                         return da_get_shuffled_indices(n, (da_int)42, tr, te, (da_int)13, strat ? lab->p : (da_int *)nullptr, idx.p);
                     });
                     if (st == da_status_success)
                         for (da_int i = 0; i < n; i++)
                             out.push_back(idx[i]);
                     return st;
                 }});
    v.push_back({"da_train_test_split", [=](Out &out) {
                     Mat<T> A(tr, d, o, 0), B(std::max<da_int>(te, 1), d, o, 0);
                     da_status st = api("da_train_test_split", [&] {
                         return da_train_test_split(o, n, d, x, ldx, tr, te, (da_int *)nullptr, A.p(), A.ld, B.p(), B.ld);
                     });
                     if (st == da_status_success) {
                         for (da_int i = 0; i < tr; i++)
                             for (da_int j = 0; j < d; j++)
                                 out.push_back((double)A(i, j));
                         for (da_int i = 0; i < te; i++)
                             for (da_int j = 0; j < d; j++)
                                 out.push_back((double)B(i, j));
                     }
                     return st;
                 }});
    v.push_back({"da_switch_order", [=](Out &out) {
                     Mat<T> M(n, d, o == row_major ? column_major : row_major, 0);
                     da_status st = api("da_switch_order_copy", [&] { return da_switch_order_copy(o, n, d, x, ldx, M.p(), M.ld); });
                     if (st == da_status_success)
                         for (da_int i = 0; i < n; i++)
                             for (da_int j = 0; j < d; j++)
                                 out.push_back((double)M(i, j));
                     return st;
                 }});
    v.push_back({"da_switch_order_in_place", [=](Out &out) {
                     Mat<T> M(n, d, o, 0);
                     for (da_int i = 0; i < n; i++)
                         for (da_int j = 0; j < d; j++)
                             M(i, j) = (*X)(i, j);
                     da_int ld2 = o == row_major ? n : d;
                     da_status st = api("da_switch_order_in_place", [&] {
                         return da_switch_order_in_place(o, n, d, M.p(), M.ld, ld2);
                     });
                     if (st == da_status_success)
                         for (size_t i = 0; i < M.b.n; i++)
                             out.push_back((double)M.b[i]);
                     return st;
                 }});
    v.push_back({"da_check_data", [=](Out &) { return api("da_check_data", [&] { return da_check_data(o, n, d, x, ldx); }); }});
    who = std::string(pname<T>()) + " n=" + std::to_string(n) + " d=" + std::to_string(d);
    return v;
}
static void free_run() {
    Env env;
    std::vector<std::shared_ptr<void>> keep;
    std::string who;
    std::vector<Op> v = chance("single", 0.5) ? free_functions<float>(keep, who) : free_functions<double>(keep, who);
    bool quiet = true;
    sim::random_schedule(!quiet);
    int base = sim::live_blocks();
    for (int k = 0; k < 4; k++) {
        Op &op = v[pick("function", 0, (i64)v.size() - 1)];
        Ref ref = clean(op);
        hash_vec(ref.out);
        if (!ref.allocs)
            continue;
        faulted(op, ref, who);
        leak(base, who, op.name.c_str());
        again(op, ref, who, "repeated");
        probe("free_function");
    }
    sim::random_schedule(true);
}
// ---- datastore -------------------------------------------------------------------
struct Store {
    da_datastore s = nullptr;
    ~Store() {
        if (s) {
            sim::Api a("da_datastore_destroy");
            da_datastore_destroy(&s);
        }
    }
};
// everything the store holds, as numbers
static da_status table(da_datastore s, Out &o) {
    da_int r = 0, c = 0;
    da_status st = api("da_data_get_n_rows", [&] { return da_data_get_n_rows(s, &r); });
    if (st == da_status_success)
        st = api("da_data_get_n_cols", [&] { return da_data_get_n_cols(s, &c); });
    if (st != da_status_success)
        return st;
    o.push_back(r);
    o.push_back(c);
    for (da_int j = 0; j < c && r > 0; j++) {
        da_status s1;
        {
            Buf<da_int> b(r);
            s1 = api("da_data_extract_column_int", [&] { return da_data_extract_column(s, j, r, b.p); });
            if (s1 == da_status_success) {
                o.push_back(1);
                for (da_int i = 0; i < r; i++)
                    o.push_back(b[i]);
                continue;
            }
        }
        {
            Buf<double> b(r);
            s1 = api("da_data_extract_column_real_d", [&] { return da_data_extract_column(s, j, r, b.p); });
            if (s1 == da_status_success) {
                o.push_back(2);
                for (da_int i = 0; i < r; i++)
                    o.push_back(b[i]);
                continue;
            }
        }
        {
            Buf<uint8_t> b(r);
            s1 = api("da_data_extract_column_uint8", [&] { return da_data_extract_column_uint8(s, j, r, b.p); });
            if (s1 == da_status_success) {
                o.push_back(4);
                for (da_int i = 0; i < r; i++)
                    o.push_back(b[i]);
                continue;
            }
        }
        {
            std::vector<char *> b(r, nullptr);
            s1 = api("da_data_extract_column_str", [&] { return da_data_extract_column_str(s, j, r, b.data()); });
            if (s1 == da_status_success) {
                o.push_back(3);
                for (da_int i = 0; i < r; i++)
                    o.push_back((double)(sim::hash_str(b[i] ? b[i] : "(null)") % 1000003));
                continue;
            }
        }
        return s1;
    }
    return da_status_success;
}
static void store_run() {
    Env env;
    sim::random_schedule(false);
    std::vector<std::shared_ptr<void>> keep;
    sim::Rng rr("store");
    int base = sim::live_blocks();
    std::string who = "datastore";
    {
        Store a, b, ref, refb;
        for (Store *s : {&a, &b, &ref, &refb})
            OK("da_datastore_init", da_datastore_init(&s->s));
        da_int rows = (da_int)pick("rows", 1, 6);
        int nops = (int)pick("ops", 2, 8);
        for (int k = 0; k < nops; k++) {
            int what = (int)pick("what", 0, 9);
            da_int r0 = 0, c0 = 0;
            da_data_get_n_rows(ref.s, &r0);
            da_data_get_n_cols(ref.s, &c0);
            if (r0 <= 0)
                what = (int)(what % 3 == 1 ? 1 : 0);
            bool copy = chance("copy", 0.5);
            da_order o = chance("row_major", 0.5) ? row_major : column_major;
            da_int use_rows = r0 > 0 ? r0 : rows, cols = (da_int)pick("cols", 1, 3);
            auto I = std::make_shared<Buf<da_int>>(use_rows * cols);
            auto D = std::make_shared<Buf<double>>(use_rows * cols);
            std::vector<std::string> strs;
            for (da_int i = 0; i < use_rows * cols; i++) {
                (*I)[i] = (da_int)rr.range(-50, 50);
                (*D)[i] = (double)rr.range(-50, 50) / 4;
            }
            auto words = std::make_shared<std::vector<std::string>>();
            auto S = std::make_shared<std::vector<const char *>>();
            for (da_int i = 0; i < use_rows * cols; i++)
                words->push_back("w" + std::to_string(rr.range(0, 999)) + std::string((size_t)rr.below(40), 'x'));
            for (auto &w : *words)
                S->push_back(w.c_str());
            keep.push_back(I), keep.push_back(D), keep.push_back(words), keep.push_back(S);
            da_int lb = (da_int)pick("lb", 0, std::max<da_int>(use_rows - 1, 0)), ub = (da_int)pick("ub", lb, use_rows - 1);
            da_int cc = (da_int)pick("col", 0, std::max<da_int>(c0 - 1, 0));
            std::string label = "c" + std::to_string(rr.below(5));
            auto apply = [&](Store &s, Store &other, Out &o_) -> da_status {
                (void)o_;
                switch (what) {
                case 0:
                    return api("da_data_load_col_int", [&] { return da_data_load_col(s.s, use_rows, cols, I->p, o, copy); });
                case 1:
                    return api("da_data_load_col_str", [&] { return da_data_load_col_str(s.s, use_rows, cols, S->data(), o); });
                case 2:
                    return api("da_data_load_col_real_d", [&] { return da_data_load_col(s.s, use_rows, cols, D->p, o, copy); });
                case 3:
                    return api("da_data_label_column", [&] { return da_data_label_column(s.s, label.c_str(), cc); });
                case 4:
                    return api("da_data_select_rows", [&] { return da_data_select_rows(s.s, label.c_str(), lb, ub); });
                case 5:
                    return api("da_data_select_columns", [&] { return da_data_select_columns(s.s, label.c_str(), cc, cc); });
                case 6: {
                    da_int j = -1;
                    da_status st = api("da_data_get_col_idx", [&] { return da_data_get_col_idx(s.s, label.c_str(), &j); });
                    o_.push_back(j);
                    return st;
                }
                case 7: { // second store with the same columns, appended below
                    return api("da_data_hconcat", [&] { return da_data_hconcat(&s.s, &other.s); });
                }
                case 8: {
                    Buf<double> x((size_t)use_rows * std::max<da_int>(c0, 1));
                    da_int ld = o == column_major ? use_rows : std::max<da_int>(c0, 1);
                    da_status st = api("da_data_extract_selection_real_d", [&] {
                        return da_data_extract_selection(s.s, "All", o, x.p, ld);
                    });
                    if (st == da_status_success)
                        for (size_t i = 0; i < x.n; i++)
                            o_.push_back(x[i]);
                    return st;
                }
                default:
                    return api("da_data_load_row_int", [&] {
                        return c0 > 0 && c0 <= cols ? da_data_load_row(s.s, use_rows, c0, I->p, o, copy)
                                                    : da_data_load_row(s.s, use_rows, cols, I->p, o, copy);
                    });
                }
            };
            if (what == 7) { // give the other stores something first
                for (Store *s : {&b, &refb}) {
                    if (!s->s)
                        OK("da_datastore_init", da_datastore_init(&s->s));
                    da_int have = 0;
                    da_data_get_n_rows(s->s, &have);
                    if (have <= 0)
                        OK("da_data_load_col", da_data_load_col(s->s, use_rows, cols, I->p, o, true));
                }
            }
            Op opr{std::string("store:") + std::to_string(what), [&](Out &x) { return apply(ref, refb, x); }};
            Op opa{opr.name, [&](Out &x) { return apply(a, b, x); }};
            static const char *const names[] = {"load_col_int", "load_col_str", "load_col_real", "label_column", "select_rows",
                                                "select_columns", "get_col_idx", "hconcat", "extract_selection", "load_row_int"};
            opa.name = opr.name = names[what];
            bool readable = false; // not while a row of blocks is incomplete
            {
                Op tb{"table_before", [&](Out &x) { return table(a.s, x); }};
                readable = r0 > 0 && clean(tb).st == da_status_success;
            }
            Ref r = clean(opr);
            bool done = false;
            if (r.allocs && chance("disturb", 0.6)) {
                da_status st = faulted(opa, r, who);
                done = st == da_status_success;
                if (!done) {
                    // the table is what it was
                    Op ta{"table_after_failure", [&](Out &x) { return table(a.s, x); }};
                    Ref ra = clean(ta);
                    if (readable && ra.st != da_status_success)
                        failf(("broken:" + opa.name).c_str(), "after %s failed for memory the store cannot be read: %d", opa.name.c_str(),
                              (int)ra.st);
                }
                if (!done && chance("stop", 0.2))
                    goto end;
            }
            if (!done)
                again(opa, r, who, "repeated");
            {
                Op ta{"table", [&](Out &x) { return table(a.s, x); }};
                Op tr{"table", [&](Out &x) { return table(ref.s, x); }};
                Ref want = clean(tr);
                if (chance("disturb_extract", 0.2)) {
                    faulted(ta, want, who);
                }
                again(ta, want, who, "after");
                hash_vec(want.out);
            }
        }
        probe("store");
    }
end:
    sim::random_schedule(true);
    leak(base, who, "datastore");
}
void sim_warmup() {
    // objects the library makes once and keeps (architecture context, option tables)
    for (da_handle_type t : kind_types) {
        da_handle h = nullptr;
        da_handle_init<double>(&h, t);
        da_options_set_string(h, "no such option", "x");
        da_handle_destroy(&h);
    }
    // telemetry the library keeps per thread, overwritten by later calls
    std::string room(200, 'x');
    for (const char *k : {"dbscan.setup", "ivf.add_blk_sz_used", "ivf.add_n_blocks", "ivf.list_blk_sz_used", "ivf.n_blocks",
                          "ivf.query_blk_sz_used", "kf.setup", "kmeans.setup", "pca.block_size", "svm.setup", "syrk.block_size"})
        da_debug_set(k, room.c_str());
}
#define S(n, k) static void n() { handle_run(k); }
S(linmod, K_LINMOD) S(pca, K_PCA) S(kpca, K_KPCA) S(kmeans, K_KMEANS) S(tree, K_TREE) S(forest, K_FOREST) S(nn, K_NN)
S(ann, K_ANN) S(svm, K_SVM) S(dbscan, K_DBSCAN) S(tsne, K_TSNE) S(nlls, K_NLLS) S(spline, K_SPLINE)
sim::Scenario sim_scenarios[] = {{"linmod", linmod, 3}, {"pca", pca, 3},   {"kernel_pca", kpca, 3}, {"kmeans", kmeans, 3},
                                 {"tree", tree, 3},     {"forest", forest, 3}, {"nn", nn, 3},          {"approx_nn", ann, 3},
                                 {"svm", svm, 3},       {"dbscan", dbscan, 2},  {"tsne", tsne, 2},
                                 {"nlls", nlls, 2},     {"spline", spline, 2},  {"functions", free_run, 3},
                                 {"datastore", store_run, 3}, {nullptr, nullptr, 0}};
