// C17: solvers with callbacks honour limits, user stops and clocks; the returned point is the one the objective is reported for.
// modules: all
#include "zoo.hpp"
#include <cfloat>
const char *sim_property = "C17";
const char *sim_rule = "a run counts when a fit ended and its status, coefficients, info array and callback trace were all judged against "
                       "each other; distinct = distinct event hashes (problem, options, faults, trace)";
const char *sim_real_components = "nonlinear least squares (AOCL-DA driver and RALFit), linear model solvers (L-BFGS-B, coordinate "
                                  "descent, CG): all real code from /repo";
const char *sim_stub_components = "clocks (clock_gettime, system_clock, chrono), user callbacks, OpenMP runtime, allocator (simulated); "
                                  "BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}
using namespace zoo;
typedef double D;

template <typename T> struct Prob { // the user's side of the callbacks
    int shape = 0;
    bool colmajor = false;
    da_int n = 0, m = 0;
    std::vector<T> t, y;
    std::vector<D> lo, hi;
    // faults: from call k of a kind on, for `len` calls
    int fk = -1;
    long fat = 0, flen = 0;
    int fnan = 0; // 0: return code, 1: NaN, 2: Inf
    long step_ns = 0;
    sim::i64 due = 0; // instant at which the time limit is exceeded, 0 for none
    long late = 0;    // Jacobians asked for after it
    // trace
    long calls[4] = {0, 0, 0, 0}, failed[4] = {0, 0, 0, 0}, last_failed[4] = {0, 0, 0, 0};
    std::string bad;
    D worst_out = 0;
    std::vector<D> at, before; // the last two points of the Jacobian
    void begin(int k, da_int nc, da_int nr, void *ud, const T *x) {
        calls[k]++;
        sim::hash_mix((sim::u64)k + 17);
        if (step_ns)
            sim::pass_time(step_ns);
        if (k == 1 && due && sim::now() - step_ns > due)
            late++;
        if (!bad.empty())
            return;
        if (ud != (void *)this)
            bad = "another user pointer";
        else if (nc != n || (k < 2 && nr != m) || (k >= 2 && nr != m))
            bad = "other dimensions";
        else
            for (da_int i = 0; i < n; i++) {
                if (!std::isfinite((D)x[i]))
                    bad = "a coefficient which is not finite";
                D out = std::max(lo[i] - (D)x[i], (D)x[i] - hi[i]);
                worst_out = std::max(worst_out, out);
            }
    }
    bool fails(int k) {
        last_failed[k] = 0;
        if (k != fk || calls[k] < fat || calls[k] >= fat + flen)
            return false;
        failed[k]++;
        last_failed[k] = 1;
        sim::fault(fnan ? "callback gives NaN or infinity" : "callback fails");
        return true;
    }
    // the model, in double
    D res(da_int k, const D *x) const {
        D tk = (D)t[k], v;
        if (shape < 2) {
            v = x[0] + (n > 1 ? x[1] * tk : 0) + (n > 2 ? x[2] * tk * tk : 0);
            if (shape == 1)
                v += 0.1 * x[0] * x[0];
        } else {
            D e = std::exp((n > 1 ? x[1] : 0.5) * tk);
            v = x[0] * e + (n > 2 ? x[2] : 0);
        }
        return v - (D)y[k];
    }
    D grd(da_int k, da_int c, const D *x) const {
        D tk = (D)t[k];
        if (shape < 2)
            return c == 0 ? 1 + (shape ? 0.2 * x[0] : 0) : c == 1 ? tk : tk * tk;
        D e = std::exp((n > 1 ? x[1] : 0.5) * tk);
        return c == 0 ? e : c == 1 ? x[0] * tk * e : 1;
    }
    D hes(da_int k, da_int a, da_int b, const D *x) const {
        D tk = (D)t[k];
        if (shape < 2)
            return shape == 1 && a == 0 && b == 0 ? 0.2 : 0;
        if (a > 1 || b > 1 || n == 1)
            return 0;
        D e = std::exp(x[1] * tk);
        return a + b == 0 ? 0 : a + b == 1 ? tk * e : x[0] * tk * tk * e;
    }
    T nan() const { return fnan == 2 ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN(); }
};
template <typename T> static da_int cb_res(da_int nc, da_int nr, void *ud, const T *x, T *res) {
    sim::NotApi na;
    auto &P = *(Prob<T> *)ud;
    P.begin(0, nc, nr, ud, x);
    std::vector<D> xd(x, x + nc);
    for (da_int k = 0; k < nr; k++)
        res[k] = (T)P.res(k, xd.data());
    if (P.fails(0)) {
        if (!P.fnan)
            return (da_int)3;
        res[nr - 1] = P.nan();
    }
    return 0;
}
template <typename T> static da_int cb_jac(da_int nc, da_int nr, void *ud, const T *x, T *jac) {
    sim::NotApi na;
    auto &P = *(Prob<T> *)ud;
    P.begin(1, nc, nr, ud, x);
    std::vector<D> xd(x, x + nc);
    P.before = P.at, P.at = xd;
    for (da_int k = 0; k < nr; k++)
        for (da_int c = 0; c < nc; c++)
            jac[P.colmajor ? c * nr + k : k * nc + c] = (T)P.grd(k, c, xd.data());
    if (P.fails(1)) {
        if (!P.fnan)
            return (da_int)4;
        jac[0] = P.nan();
    }
    return 0;
}
template <typename T> static da_int cb_hes(da_int nc, da_int nr, void *ud, const T *x, const T *wr, T *hes) {
    sim::NotApi na;
    auto &P = *(Prob<T> *)ud;
    P.begin(2, nc, nr, ud, x);
    std::vector<D> xd(x, x + nc);
    for (da_int a = 0; a < nc; a++)
        for (da_int b = 0; b < nc; b++) {
            D s = 0;
            for (da_int k = 0; k < nr; k++)
                s += (D)wr[k] * P.hes(k, a, b, xd.data());
            hes[a * nc + b] = (T)s;
        }
    return P.fails(2) ? (da_int)5 : 0;
}
template <typename T> static da_int cb_hp(da_int nc, da_int nr, const T *x, const T *y, T *hp, void *ud) {
    sim::NotApi na;
    auto &P = *(Prob<T> *)ud;
    P.begin(3, nc, nr, ud, x);
    std::vector<D> xd(x, x + nc);
    for (da_int k = 0; k < nr; k++)
        for (da_int a = 0; a < nc; a++) {
            D s = 0;
            for (da_int b = 0; b < nc; b++)
                s += P.hes(k, a, b, xd.data()) * (D)y[b];
            hp[P.colmajor ? k * nc + a : a * nr + k] = (T)s;
        }
    return P.fails(3) ? (da_int)6 : 0;
}

struct NlOpts {
    const char *model, *method, *glob, *power;
    D sigma, tlimit;
    da_int maxit;
    bool fd, chk, hes, hp, col, bounds, weights;
};
template <typename T> struct NlOut {
    da_status st;
    std::vector<T> x;
    std::vector<T> info;
};
template <typename T>
static NlOut<T> nl_fit(Handle &h, Prob<T> &P, const NlOpts &o, const std::vector<T> &x0, Buf<T> &lo, Buf<T> &hi, Buf<T> &w) {
    P.colmajor = o.col;
    opti(h, "print level", 0);
    opt(h, "ralfit model", o.model);
    opt(h, "ralfit nlls method", o.method);
    opt(h, "ralfit globalization method", o.glob);
    opt(h, "regularization power", o.power);
    opt(h, "storage order", o.col ? "column-major" : "row-major");
    opt(h, "check derivatives", o.chk ? "yes" : "no");
    opti(h, "ralfit iteration limit", o.maxit);
    optr<T>(h, "regularization term", (T)o.sigma);
    optr<T>(h, "time limit", (T)o.tlimit);
    OKH(h.h, "da_nlls_define_residuals", da_nlls_define_residuals<T>(h.h, P.n, P.m, cb_res<T>, o.fd ? nullptr : cb_jac<T>, o.hes ? cb_hes<T> : nullptr,
                                             o.hp ? cb_hp<T> : nullptr));
    if (o.bounds)
        OKH(h.h, "da_nlls_define_bounds", da_nlls_define_bounds<T>(h.h, P.n, lo.p, hi.p));
    if (o.weights)
        OKH(h.h, "da_nlls_define_weights", da_nlls_define_weights<T>(h.h, P.m, w.p));
    NlOut<T> r;
    Buf<T> x(P.n);
    for (da_int i = 0; i < P.n; i++)
        x[i] = x0[i];
    {
        sim::Api api("da_nlls_fit");
        r.st = da_nlls_fit<T>(h.h, P.n, x.p, &P);
    }
    r.x.assign(x.p, x.p + P.n);
    da_int dim = 100;
    r.info.assign(100, (T)0);
    sim::Api api("da_handle_get_result");
    if (da_handle_get_result(h.h, da_rinfo, &dim, r.info.data()) != da_status_success)
        r.info.clear();
    return r;
}
template <typename T> static D eps() { return (D)std::numeric_limits<T>::epsilon(); }
template <typename T> struct Judge {
    Prob<T> &P;
    const NlOpts &o;
    std::vector<D> w;
    D obj(const D *x, D *gn = nullptr, D *gs = nullptr) const {
        D s = 0, nx = 0;
        std::vector<D> g(P.n, 0), ga(P.n, 0);
        for (da_int k = 0; k < P.m; k++) {
            D r = w[k] * P.res(k, x);
            s += r * r;
            for (da_int c = 0; c < P.n; c++) {
                D v = w[k] * P.grd(k, c, x) * r;
                g[c] += v;
                ga[c] += std::fabs(w[k] * P.grd(k, c, x)) * (std::fabs(r) + w[k] * std::fabs((D)P.y[k]));
            }
        }
        for (da_int c = 0; c < P.n; c++)
            nx += x[c] * x[c];
        nx = std::sqrt(nx);
        D p = std::string(o.power) == "cubic" ? 3 : 2;
        D v = 0.5 * s + o.sigma / p * std::pow(nx, p);
        D n = 0, na = 0;
        for (da_int c = 0; c < P.n; c++) {
            D reg = nx > 0 ? o.sigma * std::pow(nx, p - 2) * x[c] : 0;
            n += (g[c] + reg) * (g[c] + reg);
            na += ga[c] + std::fabs(reg);
        }
        if (gn)
            *gn = std::sqrt(n);
        if (gs)
            *gs = na;
        return v;
    }
};
template <typename T> static void nlls_case() {
    sim::Rng r("nlls");
    Prob<T> P;
    P.n = (da_int)pick("n_coef", 1, 3), P.m = (da_int)pick("n_res", 4, 14);
    P.shape = (int)pick("shape", 0, 2);
    bool exact = chance("zero_residual", 0.3);
    std::vector<D> xt;
    for (da_int c = 0; c < P.n; c++)
        xt.push_back((D)r.range(-4, 4) * (P.shape == 2 ? 0.25 : 0.5));
    for (da_int k = 0; k < P.m; k++)
        P.t.push_back((T)(P.shape == 2 ? (D)r.range(-8, 8) * 0.25 : (D)r.range(-6, 6) * 0.5)), P.y.push_back(0);
    for (da_int k = 0; k < P.m; k++)
        P.y[k] = (T)(exact ? P.res(k, xt.data()) : (D)r.range(-9, 9) + (r.below(2) ? 0.5 : 0));
    NlOpts o;
    o.model = sim::one_of<const char *>("model", {"gauss-newton", "hybrid", "quasi-newton", "tensor-newton"});
    o.method = sim::one_of<const char *>("method", {"galahad", "more-sorensen", "aint", "powell-dogleg"});
    o.glob = sim::one_of<const char *>("glob", {"trust-region", "regularization"});
    o.sigma = chance("regularized", 0.3) ? (D)(T)(r.range(1, 40) * 0.125) : 0;
    o.power = o.sigma > 0 && chance("cubic", 0.5) ? "cubic" : "quadratic";
    o.maxit = (da_int)(chance("few_iterations", 0.3) ? pick("maxit", 1, 4) : pick("maxit_large", 20, 200));
    o.hes = chance("hessian", 0.5), o.hp = o.hes && chance("hessian_product", 0.4);
    o.fd = chance("finite_differences", 0.25);
    o.chk = !o.fd && chance("check_derivatives", 0.15);
    o.col = chance("column_major", 0.5);
    o.bounds = chance("bounds", 0.35), o.weights = chance("weights", 0.3);
    Buf<T> lo(P.n), hi(P.n), w(P.m);
    P.lo.assign(P.n, -1e300), P.hi.assign(P.n, 1e300);
    for (da_int c = 0; c < P.n; c++) {
        lo[c] = (T)((D)r.range(-6, 0) * 0.5), hi[c] = (T)((D)lo[c] + (D)r.range(1, 6) * 0.5);
        if (o.bounds)
            P.lo[c] = (D)lo[c], P.hi[c] = (D)hi[c];
    }
    Judge<T> J{P, o, std::vector<D>(P.m, 1)};
    for (da_int k = 0; k < P.m; k++) {
        w[k] = (T)(0.25 * (D)r.range(1, 8));
        if (o.weights)
            J.w[k] = (D)w[k];
    }
    lo.input(), hi.input(), w.input();
    std::vector<T> x0(P.n);
    for (auto &v : x0)
        v = chance("start_zero", 0.15) ? (T)0 : (T)((D)r.range(-8, 8) * 0.25);
    // faults and clocks
    int clk = (int)pick("clock", 0, 3); // 0 stands still, 1 advances per callback, 2 jumps, 3 advances per reading
    o.tlimit = clk ? (D)sim::one_of<int>("limit_s", {1, 5, 60}) : 1e6;
    if (clk == 1)
        P.step_ns = (long)sim::one_of<int>("step_ms", {1, 100, 900, 2000, 60000}) * 1000000;
    bool jump = clk == 2;
    if (chance("fault", 0.4)) {
        P.fk = (int)pick("fault_kind", 0, 3);
        P.fat = (long)pick("fault_at", 1, 12);
        P.flen = chance("fault_for_good", 0.5) ? 1000000 : (long)pick("fault_length", 1, 4);
        if (P.fk < 2)
            P.fnan = (int)pick("fault_value", 0, 2);
    }
    Handle h;
    hinit<T>(h, da_handle_nlls);
    opt(h, "print options", "no");
    sim::i64 t0 = sim::now();
    if (jump) {
        static const double js[] = {3600, -3600, 1e9, -1e9, 2, -2};
        double s = js[pick("jump", 0, 5)];
        sim::clock_jump_at((int)pick("jump_at", 1, 8), (sim::i64)(s * 1e9));
        sim::fault("clock jumps");
    }
    if (clk == 3) {
        sim::clock_step((sim::i64)sim::one_of<int>("read_ms", {1, 300, 700, 3000}) * 1000000);
        sim::fault("clock advances at every reading");
    }
    if (P.step_ns)
        sim::fault("clock advances in callbacks");
    if (clk == 1)
        P.due = t0 + (sim::i64)(o.tlimit * 1e9);
    NlOut<T> a = nl_fit<T>(h, P, o, x0, lo, hi, w);
    D elapsed = (D)(sim::now() - t0) * 1e-9;
    sim::clock_step(0);
    std::string what = std::string(o.model) + " " + o.method + " " + o.glob + (o.bounds ? " bounds" : "") + (o.weights ? " weights" : "") +
                       (o.fd ? " fd" : "") + (o.chk ? " check" : "") + (o.hes ? " hessian" : "") + (o.hp ? " hp" : "") +
                       (o.sigma > 0 ? std::string(" ") + o.power : std::string());
    auto ctx = [&] {
        char b[600];
        snprintf(b, sizeof b, "%s; n %d m %d shape %d; status %d; calls %ld %ld %ld %ld; failed %ld %ld %ld %ld; %s", what.c_str(),
                 (int)P.n, (int)P.m, P.shape, (int)a.st, P.calls[0], P.calls[1], P.calls[2], P.calls[3], P.failed[0], P.failed[1],
                 P.failed[2], P.failed[3], a.st == da_status_success ? "" : errmsg(h.h).c_str());
        return std::string(b);
    };
    bool faulted = P.failed[0] + P.failed[1] + P.failed[2] + P.failed[3] > 0;
    bool ok = a.st == da_status_success;
    bool warn = a.st == da_status_maxit || a.st == da_status_maxtime || a.st == da_status_optimization_usrstop ||
                a.st == da_status_numerical_difficulties;
    sim::hash_mix((sim::u64)a.st);
    sim::state((sim::u64)a.st * 1000 + (sim::u64)P.calls[0]);
    if (!P.bad.empty())
        sim::failf("callback-arguments", "a callback was given %s [%s]", P.bad.c_str(), ctx().c_str());
    if (P.worst_out > 0)
        sim::failf("callback-outside-bounds", "a callback was given a point %.3g outside the bounds [%s]", P.worst_out, ctx().c_str());
    // statuses
    if (!ok && !warn) {
        bool expl = (a.st == da_status_operation_failed && (faulted)) || a.st == da_status_invalid_option ||
                    (a.st == da_status_bad_derivatives && o.chk);
        if (!expl)
            sim::failf("status", "a status which is not documented for this [%s]", ctx().c_str());
        std::string md = o.model, me = o.method;
        if (a.st == da_status_invalid_option && !(md == "tensor-newton" && !o.hes) && !(me == "powell-dogleg" && md != "gauss-newton") &&
            !((me == "powell-dogleg" || me == "aint") && o.glob[0] == 'r'))
            sim::failf("status-option", "options refused which are documented as valid [%s]", ctx().c_str());
        for (da_int c = 0; c < P.n; c++)
            if (!(a.x[c] == x0[c]))
                sim::failf("error-coef", "coefficients changed although the fit failed [%s]", ctx().c_str());
        sim::probe("fit refused or failed");
    }
    if (a.st == da_status_optimization_usrstop && !faulted)
        sim::failf("usrstop-unasked", "reported a user stop but no callback failed [%s]", ctx().c_str());
    if (a.st == da_status_maxtime && elapsed <= o.tlimit && !jump)
        sim::failf("maxtime-early", "stopped by the time limit of %g s after %g s [%s]", o.tlimit, elapsed, ctx().c_str());
    if (P.late > 4)
        sim::failf("maxtime-late", "%ld Jacobians were evaluated after the time limit of %g s had passed [%s]", P.late, o.tlimit, ctx().c_str());
    if (ok || warn) {
        if (a.info.empty())
            sim::failf("no-info", "no information after a fit with a usable point [%s]", ctx().c_str());
        std::vector<D> x(a.x.begin(), a.x.end()), s(P.n);
        for (da_int c = 0; c < P.n; c++) {
            if (!std::isfinite(x[c]) || x[c] < P.lo[c] || x[c] > P.hi[c])
                sim::failf("coef-range", "coefficient %d = %g is not finite or not within its bounds [%s]", (int)c, x[c], ctx().c_str());
            s[c] = std::min(std::max((D)x0[c], P.lo[c]), P.hi[c]);
        }
        D gn, gs, g0, gs0, f = J.obj(x.data(), &gn, &gs), f0 = J.obj(s.data(), &g0, &gs0);
        D fi = (D)a.info[0];
        if (!(std::fabs(fi - f) <= 100 * eps<T>() * P.m * f + 1e-30 + 4 * eps<T>() * eps<T>() * P.m * 400))
            sim::failf("objective", "objective reported as %.9g is %.9g at the returned coefficients [%s]", fi, f, ctx().c_str());
        // a step is taken when the objective changes by less than 10 eps
        if (!(f <= f0 * (1 + 200 * eps<T>() * P.m) + 400 * eps<T>() * eps<T>() * P.m + 20 * eps<T>() * (D)(a.info[2] + 1)))
            sim::failf("objective-worse", "objective %.9g at the end, %.9g at the start [%s]", f, f0, ctx().c_str());
        long it = (long)a.info[2];
        if (it > o.maxit || it < 0 || (a.st == da_status_maxit && it != o.maxit))
            sim::failf("iterations", "%ld iterations, limit %d [%s]", it, (int)o.maxit, ctx().c_str());
        for (int k = 0; k < 4; k++) {
            long c = (long)a.info[4 + k];
            if (k == 1 && o.fd)
                continue;
            if (c != P.calls[k])
                sim::failf("call-count", "%ld evaluations of kind %d reported, %ld made [%s]", c, k, P.calls[k], ctx().c_str());
        }
        D F = std::sqrt(2 * f), F0 = std::sqrt(2 * f0);
        if (!o.bounds && !o.fd && !(faulted && a.info[1] == std::numeric_limits<T>::max()) && !(std::fabs((D)a.info[1] - gn) <= 1e-25 + 200 * eps<T>() * (gs + gn) * P.m))
            sim::failf("gradient", "gradient norm reported as %.9g is %.9g at the returned coefficients [%s]", (D)a.info[1], gn, ctx().c_str());
        if (ok) {
            D ta = 10 / 21.0 * std::sqrt(2 * eps<T>()), tg = 500 * std::sqrt(2 * eps<T>());
            bool c1 = F <= 1.01 * std::max(ta, ta * F0) + 100 * eps<T>() * P.m;
            D g = o.bounds ? (D)a.info[1] : gn;
            bool c2 = o.bounds || o.fd || g <= 1.01 * F * std::max(tg, ta * g0 / F0) + 200 * eps<T>() * (gs + gn) * P.m;
            D step = 0, nx = 0;
            for (da_int c = 0; c < P.n && !P.before.empty(); c++)
                step += (P.at[c] - P.before[c]) * (P.at[c] - P.before[c]), nx += x[c] * x[c];
            bool c3 = std::sqrt(step) <= 0.51 * eps<T>() + 4 * eps<T>() * std::sqrt(nx);
            if (!c1 && !c2 && !c3)
                sim::failf("not-converged", "success with residual norm %.3g (%.3g at the start) and gradient norm %.3g (%.3g) [%s]", F, F0, g,
                           g0, ctx().c_str());
            sim::probe("converged");
        }
        if (a.st == da_status_maxit)
            sim::probe("iteration limit");
        if (a.st == da_status_maxtime)
            sim::probe("time limit");
        if (a.st == da_status_optimization_usrstop)
            sim::probe("user stop");
    }
    // whatever happened, the handle fits again like a new one
    if (chance("refit", 0.35)) {
        P.fk = -1, P.step_ns = 0, P.due = 0, o.tlimit = 1e6;
        for (long &c : P.calls)
            c = 0;
        NlOut<T> b = nl_fit<T>(h, P, o, x0, lo, hi, w);
        for (long &c : P.calls)
            c = 0;
        Handle g;
        hinit<T>(g, da_handle_nlls);
        opt(g, "print options", "no");
        NlOut<T> c = nl_fit<T>(g, P, o, x0, lo, hi, w);
        if (b.st != c.st)
            sim::failf("refit-status", "a second fit ended with status %d, a new handle's with %d [%s]", (int)b.st, (int)c.st, ctx().c_str());
        for (da_int i = 0; i < P.n; i++)
            if (!(b.x[i] == c.x[i]))
                sim::failf("refit", "coefficient %d is %.17g after a second fit, %.17g from a new handle (status %d) [%s]", (int)i, (D)b.x[i],
                           (D)c.x[i], (int)b.st, ctx().c_str());
        if (b.info.size() != c.info.size())
            sim::failf("refit-info", "information sizes differ after a second fit [%s]", ctx().c_str());
        for (size_t i = 0; i < b.info.size(); i++)
            if (i != 3 && !(b.info[i] == c.info[i]) && !(b.info[i] != b.info[i] && c.info[i] != c.info[i]))
                sim::failf("refit-info", "information %d is %.17g after a second fit, %.17g from a new handle [%s]", (int)i, (D)b.info[i],
                           (D)c.info[i], ctx().c_str());
        sim::probe("fitted again");
    }
}
static void nlls() {
    if (chance("float", 0.4))
        nlls_case<float>();
    else
        nlls_case<double>();
}
// linear models by iterative optimisation: limits and clocks
template <typename T> static void linmod_case() {
    sim::Rng r("linmod");
    da_int n = (da_int)pick("n", 10, 40), d = (da_int)pick("d", 1, 6);
    bool logi = chance("logistic", 0.35), coord = !logi && chance("coord", 0.55), icpt = chance("intercept", 0.5);
    da_order ord = chance("row_major", 0.5) ? row_major : column_major;
    Mat<T> X(n, d, ord, 0);
    Buf<T> y(n);
    D mix = chance("collinear", 0.5) ? 0.9 : 0;
    for (da_int i = 0; i < n; i++) {
        D c = r.normal();
        for (da_int j = 0; j < d; j++)
            X(i, j) = (T)(mix * c + (1 - mix) * r.normal());
        y[i] = logi ? (T)(r.normal() + (D)X(i, 0) > 0) : (T)(r.normal() + 2 * (D)X(i, 0));
    }
    if (logi)
        y[0] = 0, y[1] = 1;
    X.input(), y.input();
    D lambda = chance("ridge", 0.6) ? 0.125 * (D)r.range(1, 16) : 0;
    da_int maxit = (da_int)(chance("few_iterations", 0.6) ? pick("maxit", 1, 6) : 10000);
    D tol = chance("tight", 0.5) ? (sizeof(T) == 8 ? 1e-10 : 1e-5) : 1e-3;
    int clk = (int)pick("clock", 0, 2); // 0 stands still, 1 advances per reading, 2 jumps
    D tlimit = clk ? (D)sim::one_of<int>("limit_s", {1, 5, 60}) : 1e6;
    sim::i64 step = 0;
    struct Out {
        da_status st;
        std::vector<T> coef, info;
    };
    auto fit = [&](bool faulty) {
        Handle h;
        hinit<T>(h, da_handle_linmod);
        opt(h, "print options", "no");
        opti(h, "print level", 0);
        opt(h, "storage order", ord == row_major ? "row-major" : "column-major");
        OKH(h.h, "da_linmod_select_model", da_linmod_select_model<T>(h.h, logi ? linmod_model_logistic : linmod_model_mse));
        OKH(h.h, "da_linmod_define_features", da_linmod_define_features<T>(h.h, n, d, X.p(), X.ld, y.p));
        opt(h, "optim method", coord ? "coord" : "lbfgs");
        opt(h, "scaling", "none");
        opti(h, "intercept", icpt);
        optr<T>(h, "lambda", (T)lambda);
        opti(h, "optim iteration limit", maxit);
        optr<T>(h, "optim convergence tol", (T)tol);
        optr<T>(h, "optim progress factor", (T)1);
        optr<T>(h, "optim time limit", (T)(faulty ? tlimit : 1e6));
        if (faulty && clk == 1)
            sim::clock_step(step);
        Out o;
        {
            sim::Api a("da_linmod_fit");
            o.st = da_linmod_fit<T>(h.h);
        }
        sim::clock_step(0);
        // linear models end with success when the optimiser stops with a warning
        if (o.st != da_status_success)
            sim::failf("linmod-status", "%s fit ended with status %d: %s", coord ? "coord" : logi ? "logistic" : "lbfgs", (int)o.st, errmsg(h.h).c_str());
        da_int dim = 100;
        o.info.assign(100, (T)0);
        {
            sim::Api a("da_handle_get_result");
            if (da_handle_get_result(h.h, da_rinfo, &dim, o.info.data()) != da_status_success)
                sim::failf("linmod-info", "no information after status %d", (int)o.st);
        }
        dim = 0;
        {
            sim::Api a("da_handle_get_result");
            da_handle_get_result(h.h, da_linmod_coef, &dim, o.info.data());
        }
        if (dim > 0) {
            Buf<T> c(dim);
            OKH(h.h, "da_linmod_coef", da_handle_get_result(h.h, da_linmod_coef, &dim, c.p));
            o.coef.assign(c.p, c.p + dim);
        }
        return o;
    };
    sim::i64 t0 = sim::now();
    bool jump = clk == 2;
    D back = 0;
    if (clk == 1) {
        step = (sim::i64)sim::one_of<int>("read_ms", {1, 300, 700, 3000}) * 1000000;
        sim::fault("clock advances at every reading");
    }
    if (jump) {
        static const double js[] = {3600, -3600, 1e9, -1e9, 2, -2};
        double s = js[pick("jump", 0, 5)];
        back = s;
        sim::clock_jump_at((int)pick("jump_at", 1, 8), (sim::i64)(s * 1e9));
        sim::fault("clock jumps");
    }
    Out a = fit(true);
    D elapsed = (D)(sim::now() - t0) * 1e-9;
    sim::hash_mix((sim::u64)a.st);
    sim::state((sim::u64)a.st * 100000 + (sim::u64)a.info[2] + 50000);
    char what[200];
    snprintf(what, sizeof what, "%s%s; n %d d %d lambda %g tol %g; status %d after %g iterations of %d, %g s of %g", coord ? "coord" : logi ? "logistic lbfgs" : "lbfgs",
             icpt ? " intercept" : "", (int)n, (int)d, lambda, tol, (int)a.st, (D)a.info[2], (int)maxit, elapsed, tlimit);
    if (a.coef.empty())
        sim::failf("linmod-coef", "no coefficients [%s]", what);
    for (T c : a.coef)
        if (!std::isfinite((D)c))
            sim::failf("linmod-coef", "a coefficient is %g [%s]", (D)c, what);
    long it = (long)a.info[2];
    if (it < 0 || it > maxit)
        sim::failf("linmod-iterations", "%ld iterations [%s]", it, what);
    if (clk == 1 && (D)(it - 3) * (D)step * 1e-9 > tlimit)
        sim::failf("linmod-maxtime-late", "went on after the time limit with %g s per iteration [%s]", (D)step * 1e-9, what);
    if (!logi) {
        D f = 0, f0 = 0, bb = 0;
        for (da_int i = 0; i < n; i++) {
            D v = -(D)y[i] + (icpt ? (D)a.coef[d] : 0);
            for (da_int j = 0; j < d; j++)
                v += (D)X(i, j) * (D)a.coef[j];
            f += v * v, f0 += (D)y[i] * (D)y[i];
        }
        for (da_int j = 0; j < d; j++)
            bb += (D)a.coef[j] * (D)a.coef[j];
        f += lambda * bb;
        if (!(f <= f0 * (1 + 1000 * eps<T>())))
            sim::failf("linmod-worse", "loss %.9g at the end, %.9g with no model [%s]", f, f0, what);
    }
    // the clock decides when the fit stops and nothing else
    sim::clock_jump_at(1000000000, 0);
    Out b = fit(false);
    long full = (long)b.info[2];
    if (it < full) {
        sim::probe("linear model time limit");
        if (!(elapsed > tlimit) && !(jump && back > 0))
            sim::failf("linmod-maxtime-early", "stopped after %ld iterations of %ld [%s]", it, full, what);
    } else {
        if (it > full || a.coef.size() != b.coef.size())
            sim::failf("linmod-clock", "%ld iterations without the clock faults [%s]", full, what);
        for (size_t i = 0; i < a.coef.size(); i++)
            if (!(a.coef[i] == b.coef[i]))
                sim::failf("linmod-clock", "coefficient %d is %.17g, %.17g without the clock faults [%s]", (int)i, (D)a.coef[i], (D)b.coef[i], what);
        if (it == maxit)
            sim::probe("linear model iteration limit");
    }
}
static void linmod() {
    if (chance("float", 0.4))
        linmod_case<float>();
    else
        linmod_case<double>();
}
sim::Scenario sim_scenarios[] = {{"nlls", nlls, 4}, {"linmod", linmod, 2}, {nullptr, nullptr, 0}};
