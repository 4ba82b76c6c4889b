// C20: splines reproduce their data for any history of calls on one handle.
// modules: interpolation
#include "common.hpp"
#include <deque>
#include <memory>
const char *sim_property = "C20";
const char *sim_rule = "a run counts when a drawn history of interpolation calls (sites, values, derivatives, boundary conditions, "
                       "options, refused calls, failing allocations, refreshes) was executed and every status, coefficient, cell "
                       "and evaluated value was checked against the model; distinct = distinct event hashes";
const char *sim_real_components = "interpolation handle, cubic splines, option registry, handle dispatch: all real code from /repo";
const char *sim_stub_components = "allocator (simulated faults); LAPACK gtsv is the real OpenBLAS, single threaded";
void sim_warmup() {}
typedef long double LD;

template <typename T> struct Model {
    bool selected = false;
    da_int n = 0; // fixed by the first of sites and values
    bool sites = false, uniform = false;
    std::vector<T> x;
    struct Val {
        bool set = false;
        da_int dim = 0;
        std::vector<T> v; // v[i + d*n]
    } y, yp;
    struct {
        bool set = false;
        da_int dim = 0;
        int lo = 0, ro = 0;
        std::vector<T> l, r;
    } bc;
    int type = 0; // natural, clamped, custom, hermite
    da_order order = column_major;
    bool trained = false, maybe_stale = false;
    int ttype = 0; // what the trained model was made of
    std::vector<T> coef;
    std::string text;
};
static const char *types[] = {"natural", "clamped zero", "custom", "hermite"};
template <typename T> struct Run {
    Handle h;
    Model<T> m;
    std::deque<std::shared_ptr<void>> keep;
    sim::Rng r{"data"};
    template <typename F> da_status api(const char *name, F f) {
        da_status st;
        {
            sim::Api a(name);
            st = f();
        }
        sim::log("%s -> %d", name, (int)st);
        sim::hash_mix((sim::u64)st);
        return st;
    }
    // an interpolation call, maybe with failing allocations: then an error, or success
    template <typename F> da_status call(const char *name, F f) {
        bool inj = chance("alloc_fault", 0.12);
        if (inj) {
            sim::fail_alloc(pick("nth", 1, 4), sim::one_of<i64>("cnt", {1, 1000}));
        }
        da_status st = api(name, f);
        if (inj) {
            bool fired = sim::alloc_faults_fired() > 0;
            sim::clear_alloc_faults();
            faulted = fired && st != da_status_success;
            if (fired)
                sim::fault("alloc");
        } else
            faulted = false;
        return st;
    }
    bool faulted = false;
    void expect(const char *name, da_status st, bool ok) {
        if (ok && st != da_status_success)
            failf((std::string("refused:") + name).c_str(), "%s returned %d (%s); %s", name, (int)st, errmsg(h.h).c_str(), text().c_str());
        if (!ok && st == da_status_success)
            failf((std::string("accepted:") + name).c_str(), "%s succeeded; %s", name, text().c_str());
    }
    std::string text() {
        char b[300];
        snprintf(b, sizeof b, "n=%d sites=%d uniform=%d values dim=%d/%d derivatives dim=%d/%d bc dim=%d/%d (%d,%d) type=%s trained=%d",
                 (int)m.n, m.sites, m.uniform, m.y.set, (int)m.y.dim, m.yp.set, (int)m.yp.dim, m.bc.set, (int)m.bc.dim, m.bc.lo, m.bc.ro,
                 types[m.type], m.trained);
        return b;
    }
    da_int draw_n() { return m.n && !chance("other_n", 0.1) ? m.n : (da_int)pick("n", 2, 12); }
    void select() {
        bool bad = chance("bad_model", 0.1);
        da_status st = call("da_interpolation_select_model", [&] {
            return da_interpolation_select_model<T>(h.h, bad ? (da_interpolation_model)77 : interpolation_cubic_spline);
        });
        if (faulted)
            return;
        expect("select_model", st, !m.selected && !bad);
        if (st == da_status_success)
            m.selected = true;
    }
    void sites() {
        da_int n = draw_n();
        T at = (T)(sim::one_of<i64>("x0", {-3, 0, 1000, -1}) * 1);
        int scale = (int)pick("scale", 0, 3);
        auto x = std::make_shared<Buf<T>>(n);
        std::vector<T> v;
        for (da_int i = 0; i < n; i++) {
            v.push_back(at);
            at += scale == 0 ? (T)r.range(1, 4) * (T)0.25 : scale == 1 ? (T)(0.5 + r.uniform()) : scale == 2 ? (T)r.range(1, 30) / 3 : (T)1;
        }
        bool bad = chance("unsorted", 0.15);
        if (bad) {
            da_int k = (da_int)r.below(n - 1);
            switch (r.below(3)) {
            case 0:
                v[k + 1] = v[k];
                break;
            case 1:
                std::swap(v[k], v[k + 1]);
                break;
            default:
                v[k] = std::numeric_limits<T>::quiet_NaN();
            }
        }
        bool uni = chance("uniform", 0.4);
        T xs = v[0], xe = v[n - 1];
        if (bad && uni && !(xs >= xe) && xs == xs && xe == xe)
            std::swap(xs, xe);
        for (da_int i = 0; i < n; i++)
            (*x)[i] = v[i];
        x->input();
        keep.push_back(x);
        bool small = chance("n1", 0.07), null = !uni && chance("null", 0.05);
        if (small)
            n = (da_int)pick("small_n", -1, 1);
        da_status st = uni ? call("da_interpolation_set_sites_uniform", [&] { return da_interpolation_set_sites_uniform<T>(h.h, n, xs, xe); })
                           : call("da_interpolation_set_sites", [&] { return da_interpolation_set_sites<T>(h.h, n, null ? nullptr : x->p); });
        if (faulted)
            return;
        bool ok = m.selected && !m.sites && !bad && !small && !null && (m.n == 0 || m.n == n);
        expect(uni ? "set_sites_uniform" : "set_sites", st, ok);
        if (ok) {
            m.n = n;
            m.sites = true;
            m.uniform = uni;
            if (uni) {
                T dx = (xe - xs) / (T)(n - 1);
                for (da_int i = 0; i < n; i++)
                    v[i] = xs + i * dx;
            }
            m.x = v;
            m.trained = false;
        }
    }
    void values() {
        bool deriv = chance("deriv", 0.35);
        da_int n = draw_n(), dim = (m.y.set || m.yp.set) && !chance("other_dim", 0.2) ? (m.y.set ? m.y.dim : m.yp.dim) : (da_int)pick("dim", 1, 3);
        auto Y = std::make_shared<Mat<T>>();
        Y->init(n, dim, m.order, (da_int)sim::one_of<i64>("pad", {0, 1, 3}));
        typename Model<T>::Val v;
        v.set = true;
        v.dim = dim;
        v.v.resize(n * dim);
        bool real = chance("real_values", 0.4);
        for (da_int d = 0; d < dim; d++)
            for (da_int i = 0; i < n; i++)
                v.v[i + d * n] = (*Y)(i, d) = real ? (T)(r.normal() * 3) : (T)r.range(-9, 9);
        Y->input();
        keep.push_back(Y);
        da_int ld = Y->ld, nn = n, dd = dim, ord = deriv;
        T *p = Y->p();
        bool bad = chance("bad_values", 0.15);
        if (bad)
            switch (pick("bad_how", 0, 4)) {
            case 0:
                ld = (m.order == column_major ? n : dim) - 1;
                break;
            case 1:
                p = nullptr;
                break;
            case 2:
                ord = sim::one_of<i64>("bad_order", {-1, 2});
                break;
            case 3:
                dd = 0;
                break;
            default:
                nn = (da_int)pick("bad_n", -1, 1);
            }
        da_status st = call("da_interpolation_set_values", [&] { return da_interpolation_set_values<T>(h.h, nn, dd, p, ld, ord); });
        if (faulted)
            return;
        bool ok = m.selected && !bad && (m.n == 0 || m.n == n);
        if (deriv && m.y.set && m.y.dim != dim)
            ok = false;
        expect("set_values", st, ok);
        if (!ok)
            return;
        m.n = n;
        m.trained = false;
        if (deriv)
            m.yp = v;
        else {
            if (m.yp.set && m.yp.dim != dim)
                m.yp.set = false;
            m.y = v;
        }
    }
    void boundary() {
        da_int dim = m.y.set && !chance("other_bc_dim", 0.2) ? m.y.dim : (da_int)pick("bc_dim", 1, 3);
        Buf<T> l(dim), rr(dim);
        std::vector<T> vl, vr;
        for (da_int d = 0; d < dim; d++)
            vl.push_back(l[d] = (T)r.range(-4, 4)), vr.push_back(rr[d] = (T)r.range(-4, 4));
        l.input(), rr.input();
        int lo = (int)pick("lo", 1, 2), ro = (int)pick("ro", 1, 2);
        bool bad = chance("bad_bc", 0.15);
        da_int d = dim;
        T *pl = l.p, *pr = rr.p;
        if (bad)
            switch (pick("bad_bc_how", 0, 4)) {
            case 0:
                lo = 0;
                break;
            case 1:
                ro = 3;
                break;
            case 2:
                pl = nullptr;
                break;
            case 3:
                pr = nullptr;
                break;
            default:
                d = 0;
            }
        da_status st = call("da_interpolation_set_boundary_conditions",
                            [&] { return da_interpolation_set_boundary_conditions<T>(h.h, d, lo, pl, ro, pr); });
        if (faulted) {
            read_type();
            return;
        }
        bool ok = m.selected && !bad && !(m.y.set && m.y.dim != dim) && !(!m.y.set && m.yp.set && m.yp.dim != dim && false);
        expect("set_boundary_conditions", st, ok);
        if (ok) {
            m.bc.set = true;
            m.bc.dim = dim;
            m.bc.lo = lo;
            m.bc.ro = ro;
            m.bc.l = vl;
            m.bc.r = vr;
            m.type = 2;
            m.trained = false;
            if (read_type() != 2)
                failf("bc:type", "boundary conditions were set and the spline type is not custom");
        }
    }
    int read_type() {
        char c[100];
        da_int len = sizeof c;
        da_status st = api("da_options_get_string", [&] { return da_options_get_string(h.h, "cubic spline type", c, &len); });
        if (st != da_status_success)
            failf("option:get", "spline type cannot be read: %d", (int)st);
        for (int i = 0; i < 4; i++)
            if (!strcmp(c, types[i])) {
                m.type = i;
                return i;
            }
        failf("option:value", "spline type reads %s", c);
    }
    void option() {
        if (chance("bad_option", 0.15)) {
            da_status st = api("da_options_set_string", [&] { return da_options_set_string(h.h, "cubic spline type", "quintic"); });
            expect("bad_option", st, false);
            m.maybe_stale = true;
            return;
        }
        if (chance("storage", 0.35)) {
            da_order o = chance("row", 0.5) ? row_major : column_major;
            expect("storage order", api("da_options_set_string", [&] { return da_options_set_string(h.h, "storage order", o == row_major ? "row-major" : "column-major"); }), true);
            m.order = o;
            m.maybe_stale = true;
            return;
        }
        m.type = (int)pick("type", 0, 3);
        expect("type", api("da_options_set_string", [&] { return da_options_set_string(h.h, "cubic spline type", types[m.type]); }), true);
        m.maybe_stale = true;
    }
    // ---- the spline itself ---------------------------------------------------
    LD eps() { return std::numeric_limits<T>::epsilon(); }
    LD width(da_int i) {
        if (m.uniform)
            return ((LD)m.x[m.n - 1] - m.x[0]) / (m.n - 1);
        return (LD)m.x[i + 1] - m.x[i];
    }
    void coefficients() {
        da_int n = m.n, dim = m.y.dim, want = 4 * (n - 1) * dim;
        Buf<T> c(want);
        da_int k = want;
        da_status st = call("da_handle_get_result", [&] { return da_handle_get_result(h.h, da_cubic_spline_coefficients, &k, c.p); });
        if (faulted)
            return;
        if (st != da_status_success)
            failf("coefficients:status", "coefficients: status %d; %s", (int)st, text().c_str());
        m.coef = c.vec();
        hash_vec(m.coef);
        LD xmax = 0;
        for (auto &x : m.x)
            xmax = std::max(xmax, (LD)std::fabs(x));
        for (da_int d = 0; d < dim; d++) {
            LD M0 = 0, M1 = 0, M2 = 0; // largest terms of value, slope and curvature
            auto C = [&](da_int i, int k) { return (LD)m.coef[4 * (i + (n - 1) * d) + k]; };
            for (da_int i = 0; i + 1 < n; i++) {
                LD w = width(i);
                M0 = std::max({M0, std::fabs(C(i, 0)), std::fabs(C(i, 1) * w), std::fabs(C(i, 2) * w * w), std::fabs(C(i, 3) * w * w * w)});
                M1 = std::max({M1, std::fabs(C(i, 1)), std::fabs(2 * C(i, 2) * w), std::fabs(3 * C(i, 3) * w * w), std::fabs(C(i, 0)) / w});
                M2 = std::max({M2, std::fabs(2 * C(i, 2)), std::fabs(6 * C(i, 3) * w), std::fabs(C(i, 1)) / w, std::fabs(C(i, 0)) / w / w});
            }
            LD wmin = width(0);
            for (da_int i = 0; i + 1 < n; i++)
                wmin = std::min(wmin, width(i));
            LD q = 64 * eps() * (1 + xmax / wmin);
            auto is = [&](const char *what, da_int i, LD got, LD exp, LD scale) {
                if (!(std::fabs(got - exp) <= q * scale + (scale > 0 ? (LD)std::numeric_limits<T>::min() : 0)))
                    failf((std::string("spline:") + what).c_str(), "%s spline, dimension %d, site %d: %s is %.10Lg, expected %.10Lg (tolerance %.3Lg); %s",
                          types[m.ttype], (int)d, (int)i, what, got, exp, q * scale, text().c_str());
            };
            for (da_int i = 0; i + 1 < n; i++) {
                LD w = width(i);
                LD v = C(i, 0) + w * (C(i, 1) + w * (C(i, 2) + w * C(i, 3))), s = C(i, 1) + w * (2 * C(i, 2) + w * 3 * C(i, 3)),
                   u = 2 * C(i, 2) + 6 * C(i, 3) * w;
                is("left_value", i, C(i, 0), m.y.v[i + d * n], 0);
                is("right_value", i, v, m.y.v[i + 1 + d * n], M0);
                if (m.ttype == 3) {
                    is("left_derivative", i, C(i, 1), m.yp.v[i + d * n], 0);
                    is("right_derivative", i, s, m.yp.v[i + 1 + d * n], M1);
                    continue;
                }
                if (i + 2 < n) {
                    is("slope", i + 1, s, C(i + 1, 1), M1);
                    is("curvature", i + 1, u, 2 * C(i + 1, 2), M2);
                }
                if (i == 0) {
                    int o = m.ttype == 0 ? 2 : m.ttype == 1 ? 1 : m.bc.lo;
                    LD b = m.ttype == 2 ? (LD)m.bc.l[d] : 0;
                    is("left_boundary", 0, o == 1 ? C(0, 1) : 2 * C(0, 2), b, o == 1 ? M1 : M2);
                }
                if (i + 2 == n) {
                    int o = m.ttype == 0 ? 2 : m.ttype == 1 ? 1 : m.bc.ro;
                    LD b = m.ttype == 2 ? (LD)m.bc.r[d] : 0;
                    is("right_boundary", n - 1, o == 1 ? s : u, b, o == 1 ? M1 : M2);
                }
            }
        }
        probe(types[m.ttype]);
    }
    std::vector<T> points(bool far) {
        da_int ne = (da_int)pick("n_eval", 1, 10);
        std::vector<T> q;
        for (da_int i = 0; i < ne; i++) {
            da_int k = (da_int)r.below(m.n);
            switch (r.below(far ? 8 : 6)) {
            case 0:
                q.push_back(m.x[k]);
                break;
            case 1:
                q.push_back(std::nextafter(m.x[k], m.x[m.n - 1] + 1));
                break;
            case 2:
                q.push_back(std::nextafter(m.x[k], m.x[0] - 1));
                break;
            case 3:
                q.push_back(m.x[0] - (T)r.uniform() * 3);
                break;
            case 4:
                q.push_back(m.x[m.n - 1] + (T)r.uniform() * 3);
                break;
            case 6:
                q.push_back(r.below(2) ? (T)1e30 : (T)-1e30);
                break;
            case 7:
                q.push_back(r.below(2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
                break;
            default:
                q.push_back(m.x[0] + (T)r.uniform() * (m.x[m.n - 1] - m.x[0]));
            }
        }
        return q;
    }
    LD slack() { return m.uniform ? 4 * eps() * std::max(std::fabs((LD)m.x[0]), std::fabs((LD)m.x[m.n - 1])) : 0; }
    bool contains(da_int c, LD x) {
        return (c == 0 || x >= m.x[c] - slack()) && (c == m.n - 2 || x <= m.x[c + 1] + slack());
    }
    void cells() {
        if (!m.sites) {
            T x = 0;
            da_int c;
            expect("search_cells", api("da_interpolation_search_cells", [&] { return da_interpolation_search_cells<T>(h.h, 1, &x, &c); }), false);
            return;
        }
        auto q = points(true);
        Buf<T> x(q);
        Buf<da_int> c(q.size());
        da_status st = api("da_interpolation_search_cells", [&] { return da_interpolation_search_cells<T>(h.h, (da_int)q.size(), x.p, c.p); });
        expect("search_cells", st, true);
        for (size_t i = 0; i < q.size(); i++)
            if (c[i] < 0 || c[i] > m.n - 2 || !contains(c[i], q[i]))
                failf("cells", "x=%.17g is put in cell %d; sites %.17g .. %.17g; %s", (double)q[i], (int)c[i],
                      (double)m.x[std::clamp<da_int>(c[i], 0, m.n - 1)], (double)m.x[std::clamp<da_int>(c[i] + 1, 0, m.n - 1)], text().c_str());
        probe("cells");
    }
    void evaluate() {
        if (!m.sites || !m.y.set) {
            Buf<T> x(1), y(12);
            Buf<da_int> o(1);
            x[0] = 0, o[0] = 0;
            expect("evaluate:before", api("da_interpolation_evaluate", [&] { return da_interpolation_evaluate<T>(h.h, 1, x.p, y.p, 1, o.p); }), false);
            return;
        }
        auto q = points(false);
        da_int ne = (da_int)q.size(), dim = m.y.dim;
        std::vector<da_int> ord;
        for (da_int k = 0; k < 4; k++)
            if (r.below(2))
                ord.push_back(k);
        if (ord.empty())
            ord.push_back(0);
        std::vector<da_int> sorted = ord;
        if (chance("shuffled_orders", 0.4))
            std::reverse(ord.begin(), ord.end());
        Buf<T> x(q), y((size_t)ne * dim * ord.size());
        Buf<da_int> o(ord);
        bool bad = chance("bad_eval", 0.1);
        da_int no = (da_int)ord.size(), nq = ne;
        T *px = x.p, *py = y.p;
        da_int *po = o.p;
        Buf<da_int> o4(1);
        o4[0] = 4;
        if (bad)
            switch (pick("bad_eval_how", 0, 4)) {
            case 0:
                nq = 0;
                break;
            case 1:
                px = nullptr;
                break;
            case 2:
                no = 0;
                break;
            case 3:
                po = o4.p, no = 1;
                break;
            default:
                po = nullptr;
            }
        da_status st = call("da_interpolation_evaluate", [&] { return da_interpolation_evaluate<T>(h.h, nq, px, py, no, po); });
        if (bad) {
            expect("evaluate", st, false);
            return;
        }
        if (faulted)
            return;
        if (!m.trained) {
            expect("evaluate:untrained", st, false);
            return;
        }
        if (m.maybe_stale && st == da_status_out_of_date)
            return;
        expect("evaluate", st, true);
        if (m.coef.empty())
            return;
        hash_vec(y.vec());
        for (size_t k = 0; k < sorted.size(); k++)
            for (da_int d = 0; d < dim; d++)
                for (da_int i = 0; i < ne; i++) {
                    LD got = y[(k * dim + d) * ne + i], best = 0, tol = 0;
                    bool ok = false;
                    for (da_int c = 0; c + 1 < m.n && !ok; c++) {
                        if (!contains(c, q[i]))
                            continue;
                        const T *a = &m.coef[4 * (c + (m.n - 1) * d)];
                        LD t = (LD)q[i] - m.x[c], A = std::fabs(t) + slack();
                        LD e[4] = {a[0] + t * (a[1] + t * (a[2] + t * a[3])), a[1] + t * (2 * (LD)a[2] + t * 3 * (LD)a[3]),
                                   2 * (LD)a[2] + 6 * (LD)a[3] * t, 6 * (LD)a[3]};
                        LD s[4] = {std::fabs((LD)a[0]) + A * (std::fabs((LD)a[1]) + A * (std::fabs((LD)a[2]) + A * std::fabs((LD)a[3]))),
                                   std::fabs((LD)a[1]) + A * (2 * std::fabs((LD)a[2]) + A * 3 * std::fabs((LD)a[3])),
                                   2 * std::fabs((LD)a[2]) + 6 * std::fabs((LD)a[3]) * A, 6 * std::fabs((LD)a[3])};
                        // moving x within the rounding of the sites changes the value by the next derivative
                        LD dx = slack() + eps() * std::fabs((LD)q[i]);
                        best = e[sorted[k]];
                        tol = std::numeric_limits<T>::min() + 16 * eps() * s[sorted[k]] + (sorted[k] < 3 ? dx * s[sorted[k] + 1] : 0);
                        ok = std::fabs(got - best) <= tol;
                    }
                    if (!ok)
                        failf("evaluate:value", "x=%.17g dimension %d derivative %d: %.10Lg, the polynomial gives %.10Lg (tolerance %.3Lg); %s",
                              (double)q[i], (int)d, (int)sorted[k], got, best, tol, text().c_str());
                }
        probe("evaluated");
    }
    void interpolate() {
        bool ok = m.selected && m.sites && m.y.set && (m.type != 3 || m.yp.set) && (m.type != 2 || (m.bc.set && m.bc.dim == m.y.dim));
        da_status st = call("da_interpolation_interpolate", [&] { return da_interpolation_interpolate<T>(h.h); });
        if (faulted) {
            m.trained = false;
            return;
        }
        // (a model that is still current need not be made again)
        if (m.trained && !ok && st == da_status_success && !m.maybe_stale)
            return;
        expect("interpolate", st, ok);
        m.trained = ok;
        m.maybe_stale = false;
        m.coef.clear();
        m.ttype = m.type;
        if (ok)
            coefficients();
    }
    void go() {
        hinit<T>(h, da_handle_interpolation);
        int steps = (int)pick("steps", 6, 30);
        bool orderly = chance("orderly", 0.7);
        for (int s = 0; s < steps; s++) {
            if (orderly && !m.selected) {
                select();
                continue;
            }
            switch (pick("step", 0, 15)) {
            case 0:
                select();
                break;
            case 1:
            case 2:
                sites();
                break;
            case 3:
            case 4:
            case 5:
                values();
                break;
            case 6:
                boundary();
                break;
            case 7:
            case 8:
                option();
                break;
            case 9:
            case 10:
            case 11:
                interpolate();
                if (chance("then_evaluate", 0.5))
                    evaluate();
                break;
            case 12:
            case 13:
                evaluate();
                break;
            case 14:
                cells();
                break;
            default: {
                expect("refresh", api("da_handle_refresh", [&] { da_handle_refresh(h.h); return da_status_success; }), true);
                m.maybe_stale = true;
            }
            }
        }
    }
};
static void d() { Run<double>().go(); }
static void s() { Run<float>().go(); }
sim::Scenario sim_scenarios[] = {{"history_d", d, 1}, {"history_s", s, 1}, {nullptr, nullptr, 0}};
