// Stand-in for AOCL-Sparse's reverse-communication conjugate gradient solver,
// the only part of AOCL-Sparse that AOCL-DA calls. Unpreconditioned CG.
#include "aoclsparse.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
namespace {
template <typename T> struct cg {
    std::vector<T> b, r, p, q;
    double rtol = 1e-6, atol = 0;
    int maxit = 500, it = 0, stage = 0, n = 0;
    T rr = 0, bnorm = 0;
};
} // namespace
struct _aoclsparse_itsol_handle {
    int kind;
    cg<double> d;
    cg<float> s;
};
static aoclsparse_status init(aoclsparse_itsol_handle *h, int kind) {
    *h = new (std::nothrow) _aoclsparse_itsol_handle();
    if (!*h)
        return aoclsparse_status_memory_error;
    (*h)->kind = kind;
    return aoclsparse_status_success;
}
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *h) { return init(h, 0); }
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *h) { return init(h, 1); }
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *h) {
    if (h && *h) {
        delete *h;
        *h = nullptr;
    }
}
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle h, const char *o,
                                              const char *v) {
    if (!strcmp(o, "CG abs tolerance"))
        h->d.atol = h->s.atol = atof(v);
    else if (!strcmp(o, "CG rel tolerance"))
        h->d.rtol = h->s.rtol = atof(v);
    else if (!strcmp(o, "CG iteration limit"))
        h->d.maxit = h->s.maxit = atoi(v);
    return aoclsparse_status_success;
}
template <typename T>
static aoclsparse_status input(cg<T> &c, aoclsparse_int n, const T *b) {
    try {
        c.b.assign(b, b + n);
        c.r.assign(n, 0);
        c.p.assign(n, 0);
        c.q.assign(n, 0);
    } catch (std::bad_alloc const &) {
        return aoclsparse_status_memory_error;
    }
    c.n = n;
    c.it = c.stage = 0;
    return aoclsparse_status_success;
}
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n,
                                               const double *b) {
    return input(h->d, n, b);
}
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n,
                                               const float *b) {
    return input(h->s, n, b);
}
template <typename T>
static aoclsparse_status solve(cg<T> &c, aoclsparse_itsol_rci_job *job, T **u, T **v,
                               T *x, T rinfo[100]) {
    auto dot = [&](const T *a, const T *b) {
        T s = 0;
        for (int i = 0; i < c.n; i++)
            s += a[i] * b[i];
        return s;
    };
    if (*job == aoclsparse_rci_start) {
        c.p.assign(x, x + c.n);
        *u = c.p.data();
        *v = c.q.data();
        *job = aoclsparse_rci_mv;
        c.stage = 1;
        return aoclsparse_status_success;
    }
    if (*job == aoclsparse_rci_mv) {
        if (c.stage == 1) {
            for (int i = 0; i < c.n; i++)
                c.r[i] = c.b[i] - c.q[i];
            c.p = c.r;
            c.rr = dot(c.r.data(), c.r.data());
            c.bnorm = std::sqrt(dot(c.b.data(), c.b.data()));
            c.stage = 2;
        } else {
            T pq = dot(c.p.data(), c.q.data());
            if (!(pq > 0)) {
                *job = aoclsparse_rci_stop;
                return aoclsparse_status_numerical_error;
            }
            T al = c.rr / pq;
            for (int i = 0; i < c.n; i++) {
                x[i] += al * c.p[i];
                c.r[i] -= al * c.q[i];
            }
            T rn = dot(c.r.data(), c.r.data());
            T be = rn / c.rr;
            c.rr = rn;
            for (int i = 0; i < c.n; i++)
                c.p[i] = c.r[i] + be * c.p[i];
            c.it++;
        }
        rinfo[0] = std::sqrt(c.rr);
        rinfo[1] = c.bnorm;
        rinfo[30] = c.it;
    }
    if (std::sqrt(c.rr) <= c.atol || std::sqrt(c.rr) <= c.rtol * c.bnorm) {
        *job = aoclsparse_rci_stop;
        return aoclsparse_status_success;
    }
    if (c.it >= c.maxit) {
        *job = aoclsparse_rci_stop;
        return aoclsparse_status_maxit;
    }
    *u = c.p.data();
    *v = c.q.data();
    *job = aoclsparse_rci_mv;
    return aoclsparse_status_success;
}
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *j, double **u,
                                               double **v, double *x, double *rinfo) {
    return solve(h->d, j, u, v, x, rinfo);
}
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *j, float **u,
                                               float **v, float *x, float *rinfo) {
    return solve(h->s, j, u, v, x, rinfo);
}
const char *aoclsparse_get_version(void) { return "stand-in"; }
