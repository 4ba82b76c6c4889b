// C07: statistics, distances and kernel matrices equal their definitions on any layout and schedule
// modules: basic_statistics metrics kernel_functions
#include "common.hpp"
const char *sim_property = "C07";
const char *sim_rule = "a run counts when a drawn call (function, shape, order, padding, axis, block sizes, team and schedule) was compared, "
                       "entry by entry, with its definition evaluated in extended precision, with inputs and padding unreadable/unwritable; "
                       "distinct = distinct event hashes";
const char *sim_real_components = "basic statistics, pairwise distances, kernel functions and their block loops: all real code from /repo";
const char *sim_stub_components = "OpenMP runtime and thread scheduling (simulated), allocator; BLAS is the real OpenBLAS, single threaded";
void sim_warmup() {}
typedef long double LD;

template <typename T> struct Data {
    da_order o;
    da_int n, p;
    Mat<T> x;
    LD big = 0; // largest absolute value
};
enum Kind { ANY, POSITIVE, NONNEG };
template <typename T> static void shape(da_int &n, da_int &p, da_int pmax) {
    n = (da_int)pick("n", 1, sim::one_of<i64>("n_max", {9, 40, 130}));
    p = (da_int)pick("p", 1, sim::one_of<i64>("p_max", {5, 17, pmax}));
    if (chance("long", 0.06)) {
        n = 1024 + (da_int)pick("extra", 0, 80);
        p = (da_int)pick("p", 1, 4);
    }
    if (chance("flip", 0.3))
        std::swap(n, p);
}
template <typename T> static void fill(Data<T> &d, Kind k, bool input = true) {
    sim::Rng r("data");
    d.o = chance("row_major", 0.5) ? row_major : column_major;
    d.x.init(d.n, d.p, d.o, (da_int)sim::one_of<i64>("pad", {0, 1, 3}));
    int flavour = (int)pick("flavour", 0, 4);
    i64 off = sim::one_of<i64>("offset", {0, 0, 0, 20, 300});
    for (da_int i = 0; i < d.n; i++)
        for (da_int j = 0; j < d.p; j++) {
            LD v;
            switch (flavour) {
            case 0:
                v = (LD)r.range(-40, 40) / 8;
                break;
            case 1:
                v = (LD)r.range(-2, 2);
                break;
            case 2:
                v = j % 3 == 1 ? 3.25 : (LD)r.range(-40, 40) / 8; // constant columns
                break;
            case 3:
                v = (T)(r.uniform() * 20 - 10);
                break;
            default:
                v = (i % 2 ? 1 : -1) * (LD)r.range(0, 9) * (r.below(20) ? 1 : 50);
            }
            if (k == ANY)
                v += off;
            else {
                v = v < 0 ? -v : v;
                if (k == POSITIVE)
                    v += 0.125L;
            }
            d.x(i, j) = (T)v;
            d.big = std::max(d.big, (LD)std::fabs((double)d.x(i, j)));
        }
    if (input)
        d.x.input();
}
// the values that contribute to statistic s
template <typename T> static std::vector<LD> line(const Data<T> &d, da_axis a, da_int s) {
    std::vector<LD> v;
    if (a == da_axis_all)
        for (da_int j = 0; j < d.p; j++)
            for (da_int i = 0; i < d.n; i++)
                v.push_back(d.x(i, j));
    else if (a == da_axis_col)
        for (da_int i = 0; i < d.n; i++)
            v.push_back(d.x(i, s));
    else
        for (da_int j = 0; j < d.p; j++)
            v.push_back(d.x(s, j));
    return v;
}
template <typename T> static da_int n_stats(const Data<T> &d, da_axis a) { return a == da_axis_all ? 1 : a == da_axis_col ? d.p : d.n; }
static LD mean_of(const std::vector<LD> &v) {
    LD s = 0;
    for (LD x : v)
        s += x;
    return s / (LD)v.size();
}
static LD moment_of(const std::vector<LD> &v, LD m, int k) {
    LD s = 0;
    for (LD x : v)
        s += powl(x - m, k);
    return s / (LD)v.size();
}
static LD abs_moment(const std::vector<LD> &v, LD m, int k) {
    LD s = 0;
    for (LD x : v)
        s += powl(fabsl(x - m), k);
    return s / (LD)v.size();
}
static const char *axn(da_axis a) { return a == da_axis_all ? "all" : a == da_axis_col ? "col" : "row"; }
template <typename T> static std::string where(const Data<T> &d) {
    return std::to_string(d.n) + "x" + std::to_string(d.p) + (d.o == row_major ? " row-major" : " column-major") + " ld " + std::to_string(d.x.ld) + " " + pname<T>();
}
static const LD C = 16;
template <typename T> static LD eps() { return std::numeric_limits<T>::epsilon(); }
template <typename T> static void near(const char *key, const std::string &w, da_int s, LD got, LD want, LD tol) {
    if (!(fabsl(got - want) <= tol) && !(std::isnan((double)want) && std::isnan((double)got)))
        failf(key, "%s of %s: entry %d is %.17Lg, the definition gives %.17Lg (tolerance %.3Lg)", key, w.c_str(), (int)s, got, want, tol);
}
template <typename T> static void fillout(Buf<T> &b) {
    for (size_t i = 0; i < b.n; i++)
        b[i] = T(-12345);
}

// ---- quantiles ---------------------------------------------------------------
static std::vector<LD> quantile_def(std::vector<LD> v, LD q, int type) {
    std::sort(v.begin(), v.end());
    LD n = (LD)v.size(), h;
    auto at = [&](LD i) { return v[(size_t)std::min(std::max((i64)i, (i64)1), (i64)v.size()) - 1]; };
    switch (type) {
    case 1:
        return {at(ceill(n * q))};
    case 2:
        h = n * q + 0.5L;
        return {(at(ceill(h - 0.5L)) + at(floorl(h + 0.5L))) / 2};
    case 3:
        h = n * q - 0.5L;
        if (h - floorl(h) == 0.5L)
            return {at(floorl(h)), at(ceill(h))};
        return {at(roundl(h))};
    case 4:
        h = n * q;
        break;
    case 5:
        h = n * q + 0.5L;
        break;
    case 6:
        h = (n + 1) * q;
        break;
    case 7:
        h = (n - 1) * q + 1;
        break;
    case 8:
        h = (n + 1.0L / 3) * q + 1.0L / 3;
        break;
    default:
        h = (n + 0.25L) * q + 0.375L;
    }
    h = std::min(std::max(h, (LD)1), n);
    return {at(floorl(h)) + (h - floorl(h)) * (at(ceill(h)) - at(floorl(h)))};
}
template <typename T> static void stats() {
    Env env;
    Data<T> d;
    int f = (int)pick("function", 0, 11);
    shape<T>(d.n, d.p, 40);
    da_axis a = sim::one_of<da_axis>("axis", {da_axis_col, da_axis_row, da_axis_all});
    // standardize overwrites its matrix
    fill(d, f == 1 ? POSITIVE : f == 2 ? (chance("zeros", 0.3) ? NONNEG : POSITIVE) : ANY, f != 9);
    da_int ns = n_stats(d, a);
    std::string w = where(d) + " axis " + axn(a);
    da_int dof = (da_int)sim::one_of<i64>("dof", {0, -1, 1, 7});
    auto divisor = [&](da_int n) { return (LD)(dof < 0 ? n : dof == 0 ? std::max<da_int>(n - 1, 1) : dof); };
    Buf<T> m(ns), v(ns), k(ns);
    fillout(m), fillout(v), fillout(k);
    LD e = eps<T>();
    switch (f) {
    case 0:
        OK("da_mean", da_mean(d.o, a, d.n, d.p, d.x.p(), d.x.ld, m.p));
        for (da_int s = 0; s < ns; s++) {
            auto l = line(d, a, s);
            near<T>("mean", w, s, m[s], mean_of(l), C * e * (d.big + 1) * 8);
        }
        break;
    case 1:
        OK("da_harmonic_mean", da_harmonic_mean(d.o, a, d.n, d.p, d.x.p(), d.x.ld, m.p));
        for (da_int s = 0; s < ns; s++) {
            auto l = line(d, a, s);
            LD t = 0;
            for (LD x : l)
                t += 1 / x;
            t = l.size() / t;
            near<T>("harmonic mean", w, s, m[s], t, C * e * t * 8);
        }
        break;
    case 2: {
        OK("da_geometric_mean", da_geometric_mean(d.o, a, d.n, d.p, d.x.p(), d.x.ld, m.p));
        for (da_int s = 0; s < ns; s++) {
            auto l = line(d, a, s);
            LD t = 0, ab = 0;
            for (LD x : l)
                t += logl(x), ab += x > 0 ? fabsl(logl(x)) : 0;
            near<T>("geometric mean", w, s, m[s], expl(t / l.size()), C * e * 8 * expl(t / l.size()) * (1 + ab / l.size()));
        }
        break;
    }
    case 3:
    case 4:
    case 5: {
        if (f == 3)
            OK("da_variance", da_variance(d.o, a, d.n, d.p, d.x.p(), d.x.ld, dof, m.p, v.p));
        else if (f == 4)
            OK("da_skewness", da_skewness(d.o, a, d.n, d.p, d.x.p(), d.x.ld, m.p, v.p, k.p));
        else
            OK("da_kurtosis", da_kurtosis(d.o, a, d.n, d.p, d.x.p(), d.x.ld, m.p, v.p, k.p));
        for (da_int s = 0; s < ns; s++) {
            auto l = line(d, a, s);
            LD mm = mean_of(l), n = (LD)l.size(), m2 = moment_of(l, mm, 2), em = C * e * (d.big + 1) * 8;
            near<T>("mean", w, s, m[s], mm, em);
            LD dv = f == 3 ? divisor((da_int)n) : n;
            // the mean used has an error of em
            LD ev = C * e * 8 * m2 * n / dv + em * em * n / dv;
            near<T>("variance", w, s, v[s], m2 * n / dv, ev);
            LD r = sqrtl(m2) > 0 ? em / sqrtl(m2) : 1; // relative error of a deviation
            if (f == 4 && r < 1e-3L)
                near<T>("skewness", w, s, k[s], moment_of(l, mm, 3) / powl(m2, 1.5L),
                        (C * e * 8 + 4 * r) * (1 + abs_moment(l, mm, 3) / powl(m2, 1.5L)));
            if (f == 5 && r < 1e-3L)
                near<T>("kurtosis", w, s, k[s], moment_of(l, mm, 4) / (m2 * m2) - 3, (C * e * 8 + 8 * r) * (3 + moment_of(l, mm, 4) / (m2 * m2)));
        }
        break;
    }
    case 6: {
        da_int q = (da_int)pick("k", 1, 6);
        bool pre = chance("precomputed", 0.5);
        if (pre) {
            for (da_int s = 0; s < ns; s++)
                m[s] = (T)(s % 5 - 1.5);
            m.input();
        }
        OK("da_moment", da_moment(d.o, a, d.n, d.p, d.x.p(), d.x.ld, q, (da_int)pre, m.p, v.p));
        for (da_int s = 0; s < ns; s++) {
            auto l = line(d, a, s);
            LD mm = pre ? (LD)m[s] : mean_of(l), em = pre ? 0 : C * e * (d.big + 1) * 8;
            near<T>("mean", w, s, m[s], mm, em);
            LD t = C * e * 8 * (q + 1) * abs_moment(l, mm, q) + em * q * (1 + abs_moment(l, mm, q - 1)) * 2 + powl(em, q);
            near<T>("moment", w + " k " + std::to_string(q), s, v[s], moment_of(l, mm, q), t);
        }
        break;
    }
    case 7: {
        da_int nq = (da_int)pick("n_q", 1, 7);
        Buf<T> q(nq);
        for (da_int i = 0; i < nq; i++)
            q[i] = (T)pick("sixteenths", 0, 16) / 16;
        q.input();
        int type = (int)pick("type", 1, 9);
        Buf<T> out((size_t)nq * ns);
        fillout(out);
        OK("da_quantile", da_quantile(d.o, a, d.n, d.p, d.x.p(), d.x.ld, q.p, nq, out.p, (da_quantile_type)(da_quantile_type_1 + type - 1)));
        for (da_int s = 0; s < ns; s++)
            for (da_int i = 0; i < nq; i++) {
                LD got = out[d.o == row_major ? i * ns + s : s * nq + i];
                auto want = quantile_def(line(d, a, s), q[i], type);
                bool ok = false;
                for (LD x : want)
                    ok = ok || fabsl(got - x) <= (type <= 3 && type != 2 ? 0 : C * e * (d.big + 1) * (type >= 8 ? 1 + (LD)d.n * d.p : 1));
                if (!ok)
                    failf("quantile", "quantile %g of type %d of %s, statistic %d is %.9Lg, the definition gives %.9Lg", (double)q[i], type, w.c_str(), (int)s, got, want[0]);
            }
        break;
    }
    case 8: {
        Buf<T> lo(ns), up(ns);
        OK("da_five_point_summary", da_five_point_summary(d.o, a, d.n, d.p, d.x.p(), d.x.ld, m.p, lo.p, v.p, up.p, k.p));
        for (da_int s = 0; s < ns; s++) {
            auto l = line(d, a, s);
            LD t = C * e * (d.big + 1);
            near<T>("minimum", w, s, m[s], *std::min_element(l.begin(), l.end()), 0);
            near<T>("lower hinge", w, s, lo[s], quantile_def(l, 0.25L, 6)[0], t);
            near<T>("median", w, s, v[s], quantile_def(l, 0.5L, 6)[0], t);
            near<T>("upper hinge", w, s, up[s], quantile_def(l, 0.75L, 6)[0], t);
            near<T>("maximum", w, s, k[s], *std::max_element(l.begin(), l.end()), 0);
        }
        break;
    }
    case 9: {
        int sh = (int)pick("shift", 0, 2), sc = (int)pick("scale", 0, 2); // null, zeros, given
        da_int mode = chance("reverse", 0.25);
        for (da_int s = 0; s < ns; s++) {
            m[s] = sh == 2 ? (T)(s % 7 - 2.5) : T(0);
            v[s] = sc == 2 ? (T)((s % 4) * 0.5) : T(0); // some zero scales
        }
        if (sc == 2 && ns == 1)
            v[0] = T(2);
        std::vector<LD> wsh(ns), wsc(ns), esh(ns), esc(ns);
        for (da_int s = 0; s < ns; s++) {
            auto l = line(d, a, s);
            LD mm = mean_of(l), em = C * e * (d.big + 1) * 8, n = (LD)l.size();
            bool sh0 = sh != 0 && sh == 1, sc0 = sc == 1;
            bool both_null = sh == 0 && sc == 0;
            wsh[s] = both_null || sh0 ? mm : sh == 0 ? 0 : (LD)m[s];
            esh[s] = both_null || sh0 ? em : 0;
            if (both_null || sc0) {
                LD c = sh == 2 ? (LD)m[s] : mm;
                LD q = moment_of(l, c, 2) * n / divisor((da_int)n);
                wsc[s] = sqrtl(q);
                LD ee = sh == 2 ? 0 : em;
                esc[s] = C * e * 8 * wsc[s] + (wsc[s] > 0 ? ee * ee * n / divisor((da_int)n) / wsc[s] : ee * n);
            } else
                wsc[s] = sc == 0 ? 1 : (LD)v[s], esc[s] = 0;
        }
        std::vector<std::vector<LD>> old(d.n, std::vector<LD>(d.p));
        for (da_int i = 0; i < d.n; i++)
            for (da_int j = 0; j < d.p; j++)
                old[i][j] = d.x(i, j);
        OK("da_standardize", da_standardize(d.o, a, d.n, d.p, d.x.p(), d.x.ld, dof, mode, sh ? m.p : nullptr, sc ? v.p : nullptr));
        w += " shift " + std::to_string(sh) + " scale " + std::to_string(sc) + " mode " + std::to_string((int)mode) + " dof " + std::to_string((int)dof);
        for (da_int s = 0; s < ns; s++) {
            if (sh)
                near<T>("standardize shift", w, s, m[s], wsh[s], esh[s]);
            if (sc)
                near<T>("standardize scale", w, s, v[s], wsc[s], esc[s]);
        }
        for (da_int i = 0; i < d.n; i++)
            for (da_int j = 0; j < d.p; j++) {
                da_int s = a == da_axis_all ? 0 : a == da_axis_col ? j : i;
                if (wsc[s] == 0 ? esc[s] > 0 && d.big > 100 : esc[s] > 1e-2L * wsc[s])
                    continue; // scale is all rounding
                LD sca = wsc[s] == 0 ? 1 : wsc[s], x = old[i][j];
                LD want = mode ? x * sca + wsh[s] : (x - wsh[s]) / sca;
                LD tol = mode ? C * e * (fabsl(x * sca) + fabsl(wsh[s]) + 1) + fabsl(x) * esc[s] + esh[s]
                              : C * e * (fabsl(x) + fabsl(wsh[s])) / sca + esh[s] / sca * 2 + fabsl(want) * esc[s] / sca * 2 + C * e;
                if (wsc[s] == 0 && esc[s] > 0) // a constant line whose computed deviation may be a tiny number
                    continue;
                near<T>("standardize", w, i * d.p + j, d.x(i, j), want, tol);
            }
        break;
    }
    default: {
        if (d.n < 2)
            return;
        bool corr = f == 11;
        if (d.n * d.p * d.p > 60000)
            return;
        da_int centred = chance("assume_centered", 0.3);
        Mat<T> c(d.p, d.p, d.o, (da_int)pick("pad_out", 0, 2));
        for (da_int i = 0; i < d.p; i++)
            for (da_int j = 0; j < d.p; j++)
                c(i, j) = T(-12345);
        if (corr)
            OK("da_correlation_matrix", da_correlation_matrix(d.o, d.n, d.p, d.x.p(), d.x.ld, c.p(), c.ld));
        else
            OK("da_covariance_matrix", da_covariance_matrix(d.o, d.n, d.p, d.x.p(), d.x.ld, dof, c.p(), c.ld, centred));
        std::vector<std::vector<LD>> l(d.p);
        std::vector<LD> mm(d.p), sd(d.p);
        for (da_int j = 0; j < d.p; j++) {
            l[j] = line(d, da_axis_col, j);
            mm[j] = mean_of(l[j]);
            sd[j] = sqrtl(moment_of(l[j], mm[j], 2));
        }
        LD em = C * e * (d.big + 1) * 8, n = (LD)d.n;
        for (da_int i = 0; i < d.p; i++)
            for (da_int j = 0; j < d.p; j++) {
                LD t = 0, ab = 0;
                LD mi = !corr && centred ? 0 : mm[i], mj = !corr && centred ? 0 : mm[j];
                for (da_int q = 0; q < d.n; q++)
                    t += (l[i][q] - mi) * (l[j][q] - mj), ab += fabsl((l[i][q] - mi) * (l[j][q] - mj));
                if (corr) {
                    if (i == j) {
                        near<T>("correlation diagonal", w, i, c(i, j), 1, 0);
                        continue;
                    }
                    if (sd[i] < 1e3L * em || sd[j] < 1e3L * em)
                        continue; // constant column
                    near<T>("correlation", w, i * d.p + j, c(i, j), t / n / sd[i] / sd[j], C * e * (8 + n) + 4 * em / sd[i] + 4 * em / sd[j]);
                } else {
                    LD dv = dof < 0 ? n : dof == 0 ? n - 1 : dof;
                    near<T>("covariance", w, i * d.p + j, c(i, j), t / dv, (C * e * (8 + n) * ab + n * em * em + em * (sqrtl(ab) + 1) * 2) / dv);
                }
            }
    }
    }
    probe("stats");
    static const char *const fn[] = {"mean", "harmonic", "geometric", "variance", "skewness", "kurtosis", "moment", "quantile", "five_point", "standardize", "covariance", "correlation"};
    probe(fn[f]);
}
static void stats_any() { chance("single", 0.5) ? stats<float>() : stats<double>(); }

// ---- distances and kernels ------------------------------------------------------
template <typename T> struct Pair {
    da_order o;
    da_int m, n, k;
    Mat<T> x, y;
    bool self;
    Mat<T> d;
    Pair(bool nonzero) {
        sim::Rng r("data");
        o = chance("row_major", 0.5) ? row_major : column_major;
        self = chance("y_null", 0.35);
        m = (da_int)pick("m", 1, sim::one_of<i64>("m_max", {6, 20, 70}));
        n = self ? m : (da_int)pick("n", 1, sim::one_of<i64>("n_max", {6, 20, 70}));
        k = (da_int)pick("k", 1, sim::one_of<i64>("k_max", {3, 9, 33}));
        if (chance("across_a_block", 0.15)) { // sizes next to the block sizes of the drivers and panels
            da_int e = (da_int)(sim::one_of<i64>("block_multiple", {64, 128, 192, 256, 512}) + pick("block_offset", -1, 2));
            switch (pick("which_dimension", 0, 2)) {
            case 0: m = e; if (self) n = m; break;
            case 1: if (self) m = e; n = e; break;
            default: k = e;
            }
        }
        int flavour = (int)pick("flavour", 0, 2);
        auto gen = [&](Mat<T> &a, da_int rows) {
            a.init(rows, k, o, (da_int)sim::one_of<i64>("pad", {0, 1, 3}));
            for (da_int i = 0; i < rows; i++) {
                for (da_int j = 0; j < k; j++)
                    a(i, j) = flavour == 0 ? (T)r.range(-9, 9) : flavour == 1 ? (T)(r.uniform() * 4 - 2) : (T)((LD)r.range(-16, 16) / 8 + 3);
                if (i && r.below(5) == 0)
                    for (da_int j = 0; j < k; j++) // duplicates
                        a(i, j) = a(i - 1, j);
                if (nonzero)
                    a(i, 0) = a(i, 0) == 0 ? T(1) : a(i, 0);
            }
            a.input();
        };
        gen(x, m);
        if (!self) {
            gen(y, n);
            // Y is documented to be the matrix, sharing rows with X
        }
        da_order od = self && false ? column_major : o;
        d.init(m, n, od, (da_int)pick("pad_out", 0, 2));
        for (da_int i = 0; i < m; i++)
            for (da_int j = 0; j < n; j++)
                d(i, j) = T(-12345);
    }
    LD X(da_int i, da_int q) const { return x(i, q); }
    LD Y(da_int i, da_int q) const { return self ? x(i, q) : y(i, q); }
    T *yp() { return self ? nullptr : y.p(); }
    LD dot(da_int i, da_int j) const {
        LD s = 0;
        for (da_int q = 0; q < k; q++)
            s += X(i, q) * Y(j, q);
        return s;
    }
    LD adot(da_int i, da_int j) const {
        LD s = 0;
        for (da_int q = 0; q < k; q++)
            s += fabsl(X(i, q) * Y(j, q));
        return s;
    }
    LD nx(da_int i) const {
        LD s = 0;
        for (da_int q = 0; q < k; q++)
            s += X(i, q) * X(i, q);
        return s;
    }
    LD ny(da_int i) const {
        LD s = 0;
        for (da_int q = 0; q < k; q++)
            s += Y(i, q) * Y(i, q);
        return s;
    }
    LD sq(da_int i, da_int j) const {
        LD s = 0;
        for (da_int q = 0; q < k; q++)
            s += (X(i, q) - Y(j, q)) * (X(i, q) - Y(j, q));
        return s;
    }
    std::string where() const {
        return std::to_string(m) + "x" + std::to_string(k) + (self ? " with itself" : " against " + std::to_string(n)) + (o == row_major ? " row-major " : " column-major ") + pname<T>();
    }
};
static const char *mname(da_metric m) {
    switch (m) {
    case da_euclidean:
        return "euclidean";
    case da_sqeuclidean:
        return "sqeuclidean";
    case da_minkowski:
        return "minkowski";
    case da_manhattan:
        return "manhattan";
    case da_cosine:
        return "cosine";
    case da_euclidean_gemm:
        return "euclidean_gemm";
    case da_sqeuclidean_gemm:
        return "sqeuclidean_gemm";
    default:
        return "inner_product";
    }
}
template <typename T> static void dist() {
    Env env;
    da_metric met = sim::one_of<da_metric>("metric", {da_euclidean, da_sqeuclidean, da_minkowski, da_manhattan, da_cosine, da_euclidean_gemm, da_sqeuclidean_gemm, da_inner_product});
    Pair<T> a(met == da_cosine);
    T p = (T)sim::one_of<double>("p", {3, 0.5, 1, 1.5, 2, 4.25});
    OK("da_pairwise_distances", da_pairwise_distances(a.o, a.m, a.n, a.k, a.x.p(), a.x.ld, a.yp(), a.self ? 0 : a.y.ld, a.d.p(), a.d.ld, p, met));
    LD e = eps<T>() * C * (a.k + 4);
    for (da_int i = 0; i < a.m; i++)
        for (da_int j = 0; j < a.n; j++) {
            LD got = a.d(i, j), want = 0, tol = 0;
            switch (met) {
            case da_euclidean:
                want = sqrtl(a.sq(i, j)), tol = e * want;
                break;
            case da_sqeuclidean:
                want = a.sq(i, j), tol = e * want;
                break;
            case da_manhattan:
                for (da_int q = 0; q < a.k; q++)
                    want += fabsl(a.X(i, q) - a.Y(j, q));
                tol = e * want;
                break;
            case da_minkowski:
                for (da_int q = 0; q < a.k; q++)
                    want += powl(fabsl(a.X(i, q) - a.Y(j, q)), p);
                want = powl(want, 1 / (LD)p), tol = 4 * e * want;
                break;
            case da_cosine:
                want = 1 - a.dot(i, j) / sqrtl(a.nx(i) * a.ny(j)), tol = 4 * e * (1 + a.adot(i, j) / sqrtl(a.nx(i) * a.ny(j)));
                break;
            case da_sqeuclidean_gemm:
                want = a.sq(i, j), tol = e * (a.nx(i) + a.ny(j));
                if (got < 0)
                    failf("negative", "%s distance (%d,%d) of %s is %Lg", mname(met), (int)i, (int)j, a.where().c_str(), got);
                break;
            case da_euclidean_gemm:
                want = sqrtl(a.sq(i, j));
                if (!(got >= 0))
                    failf("negative", "%s distance (%d,%d) of %s is %Lg", mname(met), (int)i, (int)j, a.where().c_str(), got);
                tol = sqrtl(want * want + e * (a.nx(i) + a.ny(j))) - want + e * want;
                if (got < want)
                    tol = want - sqrtl(std::max((LD)0, want * want - e * (a.nx(i) + a.ny(j)))) + e * want;
                break;
            default:
                want = a.dot(i, j), tol = e * a.adot(i, j);
            }
            near<T>(mname(met), a.where(), i * a.n + j, got, want, tol);
        }
    probe(mname(met));
}
static void dist_any() { chance("single", 0.5) ? dist<float>() : dist<double>(); }
template <typename T> static void kern() {
    Env env;
    int f = (int)pick("kernel", 0, 3);
    Pair<T> a(false);
    T gamma = (T)sim::one_of<double>("gamma", {0.125, 1, 0.01, 0}), coef = (T)sim::one_of<double>("coef0", {0, 1, -0.5});
    da_int deg = (da_int)pick("degree", 1, 4);
    auto ldy = a.self ? 0 : a.y.ld;
    switch (f) {
    case 0:
        OK("da_rbf_kernel", da_rbf_kernel(a.o, a.m, a.n, a.k, a.x.p(), a.x.ld, a.yp(), ldy, a.d.p(), a.d.ld, gamma));
        break;
    case 1:
        OK("da_linear_kernel", da_linear_kernel(a.o, a.m, a.n, a.k, a.x.p(), a.x.ld, a.yp(), ldy, a.d.p(), a.d.ld));
        break;
    case 2:
        OK("da_polynomial_kernel", da_polynomial_kernel(a.o, a.m, a.n, a.k, a.x.p(), a.x.ld, a.yp(), ldy, a.d.p(), a.d.ld, gamma, deg, coef));
        break;
    default:
        OK("da_sigmoid_kernel", da_sigmoid_kernel(a.o, a.m, a.n, a.k, a.x.p(), a.x.ld, a.yp(), ldy, a.d.p(), a.d.ld, gamma, coef));
    }
    static const char *const nm[] = {"rbf kernel", "linear kernel", "polynomial kernel", "sigmoid kernel"};
    LD e = eps<T>() * C * (a.k + 4);
    for (da_int i = 0; i < a.m; i++)
        for (da_int j = 0; j < a.n; j++) {
            LD got = a.d(i, j), want, tol;
            LD b = gamma * a.dot(i, j) + coef, eb = e * (gamma * a.adot(i, j) + fabsl(coef));
            switch (f) {
            case 0:
                want = expl(-gamma * a.sq(i, j));
                tol = want * (expl(gamma * e * (a.nx(i) + a.ny(j))) - 1) + e * want + (LD)std::numeric_limits<T>::min();
                if (a.self && i == j)
                    tol = e; // exactly one up to rounding
                break;
            case 1:
                want = a.dot(i, j), tol = e * a.adot(i, j);
                break;
            case 2:
                want = powl(b, deg), tol = powl(fabsl(b) + eb, deg) - powl(fabsl(b), deg) + e * powl(fabsl(b), deg) + (LD)std::numeric_limits<T>::min();
                break;
            default:
                want = tanhl(b), tol = eb + e * 2;
            }
            near<T>(nm[f], a.where() + " gamma " + std::to_string((double)gamma), i * a.n + j, got, want, tol);
        }
    probe("kernel");
}
static void kern_any() { chance("single", 0.5) ? kern<float>() : kern<double>(); }

// ---- calls that must be refused, without touching the output ----------------------
template <typename T> static void refused() {
    Env env;
    da_int n = (da_int)pick("n", 2, 8), p = (da_int)pick("p", 2, 8);
    da_order o = chance("row_major", 0.5) ? row_major : column_major;
    Mat<T> x(n, p, o, 0);
    for (da_int i = 0; i < n; i++)
        for (da_int j = 0; j < p; j++)
            x(i, j) = (T)((i * 3 + j) % 5 + 1);
    da_axis a = sim::one_of<da_axis>("axis", {da_axis_col, da_axis_row, da_axis_all});
    int f = (int)pick("function", 0, 15), bad = (int)pick("bad", 0, 4);
    da_int nn = bad == 0 ? (chance("neg", 0.5) ? -1 : 0) : n, pp = bad == 1 ? (chance("neg", 0.5) ? -1 : 0) : p, ld = bad == 2 ? x.ld - 1 : x.ld;
    T *xp = bad == 3 ? nullptr : x.p();
    bool outnull = bad == 4;
    x.input();
    const size_t big = 80;
    Buf<T> o1(big), o2(big), o3(big), o4(big), o5(big);
    for (auto *b : {&o1, &o2, &o3, &o4, &o5})
        fillout(*b);
    T *p1 = outnull ? nullptr : o1.p;
    T q[2] = {T(0.25), T(0.5)};
    da_status st = da_status_success;
    auto run = [&](const char *nm, auto g) {
        sim::Api api(nm);
        st = g();
    };
    switch (f) {
    case 0:
        run("da_mean", [&] { return da_mean(o, a, nn, pp, xp, ld, p1); });
        break;
    case 1:
        run("da_harmonic_mean", [&] { return da_harmonic_mean(o, a, nn, pp, xp, ld, p1); });
        break;
    case 2:
        run("da_geometric_mean", [&] { return da_geometric_mean(o, a, nn, pp, xp, ld, p1); });
        break;
    case 3:
        run("da_variance", [&] { return da_variance(o, a, nn, pp, xp, ld, 0, o2.p, p1); });
        break;
    case 4:
        run("da_skewness", [&] { return da_skewness(o, a, nn, pp, xp, ld, o2.p, o3.p, p1); });
        break;
    case 5:
        run("da_kurtosis", [&] { return da_kurtosis(o, a, nn, pp, xp, ld, o2.p, o3.p, p1); });
        break;
    case 6:
        run("da_moment", [&] { return da_moment(o, a, nn, pp, xp, ld, 3, 0, o2.p, p1); });
        break;
    case 7:
        run("da_quantile", [&] { return da_quantile(o, a, nn, pp, xp, ld, q, 2, p1, da_quantile_type_6); });
        break;
    case 8:
        run("da_five_point_summary", [&] { return da_five_point_summary(o, a, nn, pp, xp, ld, p1, o2.p, o3.p, o4.p, o5.p); });
        break;
    case 9:
        if (outnull)
            return;
        run("da_standardize", [&] { return da_standardize(o, a, nn, pp, xp, ld, 0, 0, (T *)nullptr, (T *)nullptr); });
        break;
    case 10:
        run("da_covariance_matrix", [&] { return da_covariance_matrix(o, nn, pp, xp, ld, 0, p1, pp > 0 ? pp : p, 0); });
        break;
    case 11:
        run("da_correlation_matrix", [&] { return da_correlation_matrix(o, nn, pp, xp, ld, p1, pp > 0 ? pp : p); });
        break;
    case 12: {
        da_metric met = sim::one_of<da_metric>("metric", {da_euclidean, da_sqeuclidean, da_manhattan, da_cosine, da_inner_product});
        run("da_pairwise_distances", [&] { return da_pairwise_distances(o, nn, n, pp, xp, ld, (T *)nullptr, 0, p1, n, T(2), met); });
        break;
    }
    case 13:
        run("da_rbf_kernel", [&] { return da_rbf_kernel(o, nn, n, pp, xp, ld, (T *)nullptr, 0, p1, n, T(1)); });
        break;
    case 14: // quantile out of range, moment order
        if (chance("moment", 0.5))
            run("da_moment", [&] { return da_moment(o, a, n, p, x.p(), x.ld, -1, 0, o2.p, o1.p); });
        else {
            q[1] = chance("negative", 0.5) ? T(-0.25) : T(1.5);
            run("da_quantile", [&] { return da_quantile(o, a, n, p, x.p(), x.ld, q, chance("none", 0.2) ? 0 : 2, o1.p, da_quantile_type_6); });
        }
        break;
    default: // parameters of kernels and metrics
        switch (pick("which", 0, 3)) {
        case 0:
            run("da_rbf_kernel", [&] { return da_rbf_kernel(o, n, n, p, x.p(), x.ld, (T *)nullptr, 0, o1.p, n, T(-1)); });
            break;
        case 1:
            run("da_pairwise_distances", [&] { return da_pairwise_distances(o, n, n, p, x.p(), x.ld, (T *)nullptr, 0, o1.p, n, T(-1), da_minkowski); });
            break;
        case 2:
            run("da_pairwise_distances", [&] { return da_pairwise_distances(o, n, n, p, x.p(), x.ld, (T *)nullptr, 0, o1.p, n - 1, T(2), da_euclidean); });
            break;
        default:
            run("da_linear_kernel", [&] { return da_linear_kernel(o, n, n, p, x.p(), x.ld, x.p(), x.ld - 1, o1.p, n); });
        }
    }
    if (st == da_status_success)
        failf("accepted", "function %d accepted invalid arguments (kind %d)", f, bad);
    for (auto *b : {&o1, &o2, &o3, &o4, &o5})
        for (size_t i = 0; i < b->n; i++)
            if ((*b)[i] != T(-12345))
                failf("wrote", "function %d (kind %d, status %d) wrote to its output although it refused the call", f, bad, (int)st);
    // negative data have no geometric mean
    if (chance("negative_data", 0.2)) {
        x.b.writable();
        x((da_int)pick("i", 0, n - 1), (da_int)pick("j", 0, p - 1)) = T(-1);
        sim::Api api("da_geometric_mean");
        if (da_geometric_mean(o, a, n, p, x.p(), x.ld, o2.p) != da_status_negative_data)
            fail("negative_data", "da_geometric_mean of negative data is not da_status_negative_data");
    }
    probe("refused");
}
static void refused_any() { chance("single", 0.5) ? refused<float>() : refused<double>(); }
sim::Scenario sim_scenarios[] = {{"statistics", stats_any, 4}, {"distances", dist_any, 3}, {"kernels", kern_any, 3}, {"refused", refused_any, 1}, {nullptr, nullptr, 0}};
