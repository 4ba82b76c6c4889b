// Helpers shared by the scenario files.
#pragma once
#include "aoclda.h"
#include "aoclda.hpp"
#include "rt.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
typedef sim::i64 i64;
using sim::chance;
using sim::fail;
using sim::failf;
using sim::pick;
using sim::probe;
typedef double f64;

inline const char *stname(da_status s) {
    static char b[32];
    snprintf(b, sizeof b, "%d", (int)s);
    return b;
}
template <typename T> inline uint64_t bits(T v) {
    uint64_t u = 0;
    memcpy(&u, &v, sizeof v);
    return u;
}
template <typename T> const char *pname() { return sizeof(T) == 8 ? "d" : "s"; }

// A user-owned array with red zones. input(): the library may only read it.
template <typename T> struct Buf {
    T *p = nullptr;
    size_t n = 0;
    Buf() {}
    explicit Buf(size_t n_) { alloc(n_); }
    Buf(const std::vector<T> &v) {
        alloc(v.size());
        for (size_t i = 0; i < n; i++)
            p[i] = v[i];
        input();
    }
    Buf(const Buf &) = delete;
    Buf(Buf &&o) : p(o.p), n(o.n) { o.p = nullptr; }
    Buf &operator=(Buf &&o) {
        std::swap(p, o.p);
        std::swap(n, o.n);
        return *this;
    }
    ~Buf() { drop(); }
    void drop() {
        if (p) {
            sim::unprotect(p, n * sizeof(T));
            sim::ufree(p);
        }
        p = nullptr;
    }
    void alloc(size_t k) {
        drop();
        n = k;
        p = (T *)sim::ublock(k * sizeof(T) ? k * sizeof(T) : 1, 64);
    }
    void input() {
        if (n)
            sim::protect(p, n * sizeof(T));
    }
    void writable() { sim::unprotect(p, n * sizeof(T)); }
    T &operator[](size_t i) { return p[i]; }
    const T &operator[](size_t i) const { return p[i]; }
    operator T *() { return p; }
    std::vector<T> vec() const { return std::vector<T>(p, p + n); }
};
// A matrix in user memory: storage order, leading dimension padding that the
// library has no business touching (forbidden: neither read nor written).
template <typename T> struct Mat {
    Buf<T> b;
    da_int r = 0, c = 0, ld = 0;
    da_order o = column_major;
    Mat() {}
    Mat(da_int r_, da_int c_, da_order o_, da_int pad) { init(r_, c_, o_, pad); }
    void init(da_int r_, da_int c_, da_order o_, da_int pad) {
        r = r_;
        c = c_;
        o = o_;
        da_int minor = o == column_major ? r : c, major = o == column_major ? c : r;
        ld = minor + pad;
        // the last line has no padding after it: the caller owns exactly
        // ld*(major-1)+minor elements
        size_t n = major ? (size_t)ld * (major - 1) + minor : 0;
        b.alloc(n);
        for (da_int j = 0; j + 1 < major; j++)
            for (da_int i = minor; i < ld; i++)
                b.p[(size_t)j * ld + i] = std::numeric_limits<T>::has_quiet_NaN
                                              ? std::numeric_limits<T>::quiet_NaN()
                                              : (T)-7777;
        if (pad)
            for (da_int j = 0; j + 1 < major; j++)
                sim::forbid(b.p + (size_t)j * ld + minor, pad * sizeof(T));
    }
    T &operator()(da_int i, da_int j) {
        return b.p[o == column_major ? (size_t)j * ld + i : (size_t)i * ld + j];
    }
    const T &operator()(da_int i, da_int j) const {
        return b.p[o == column_major ? (size_t)j * ld + i : (size_t)i * ld + j];
    }
    T *p() { return b.p; }
    void input() { // lines protected one by one: the padding stays forbidden
        da_int minor = o == column_major ? r : c, major = o == column_major ? c : r;
        for (da_int j = 0; j < major; j++)
            sim::protect(b.p + (size_t)j * ld, minor * sizeof(T));
    }
};
// ---- environment of one run --------------------------------------------------
struct Env { // team sizes the library may meet
    int threads;
    Env() {
        threads = (int)sim::one_of<int>("threads", {3, 1, 2, 4, 5, 8});
        sim::set_threads(threads);
        if (chance("thread_limit", 0.15)) {
            sim::fault("thread_limit");
            sim::set_thread_limit((int)pick("thread_limit_n", 1, 4));
        }
    }
};
struct Handle {
    da_handle h = nullptr;
    Handle() {}
    Handle(const Handle &) = delete;
    ~Handle() { destroy(); }
    void destroy() {
        if (h) {
            sim::Api a("da_handle_destroy");
            da_handle_destroy(&h);
        }
        h = nullptr;
    }
};
inline std::string errmsg(da_handle h) {
    char *m = nullptr;
    if (!h || da_handle_get_error_message(h, &m) != da_status_success || !m)
        return "";
    std::string s = m;
    free(m);
    for (auto &c : s)
        if (c == '\n')
            c = ' ';
    return s.substr(0, 300);
}
#define OKH(h, what, call)                                                              \
    do {                                                                                \
        da_status st__;                                                                 \
        {                                                                               \
            sim::Api api__(what);                                                       \
            st__ = (call);                                                              \
        }                                                                               \
        if (st__ != da_status_success)                                                  \
            failf("status:" what, "%s returned %d on valid input: %s", what, (int)st__, \
                  errmsg(h).c_str());                                                   \
    } while (0)
#define OK(what, call) OKH((da_handle) nullptr, what, call)
template <typename T> void hinit(Handle &h, da_handle_type t) {
    OK("da_handle_init", da_handle_init<T>(&h.h, t));
}
inline void opt(Handle &h, const char *o, const char *v) {
    OKH(h.h, "da_options_set_string", da_options_set_string(h.h, o, v));
}
inline void opti(Handle &h, const char *o, da_int v) {
    OKH(h.h, "da_options_set_int", da_options_set_int(h.h, o, v));
}
template <typename T> void optr(Handle &h, const char *o, T v) {
    OKH(h.h, "da_options_set_real", da_options_set<T>(h.h, o, v));
}
template <typename T> std::vector<T> result(Handle &h, da_result q, const char *what) {
    da_int dim = 0;
    T dummy{};
    da_status st;
    {
        sim::Api a("da_handle_get_result");
        st = da_handle_get_result(h.h, q, &dim, &dummy);
    }
    if (st == da_status_success) {
        if (dim != 0 && dim != 1)
            failf("result:dim", "get_result(%s) succeeded with dim 0, set dim=%d", what, (int)dim);
        std::vector<T> r;
        // dim is only known from the failing query; a success with dim 0 means empty
        return r;
    }
    if (st != da_status_invalid_array_dimension || dim <= 0)
        failf("result:size", "get_result(%s) size query: status %d dim %d: %s", what, (int)st,
              (int)dim, errmsg(h.h).c_str());
    Buf<T> b(dim);
    da_int d2 = dim;
    {
        sim::Api a("da_handle_get_result");
        st = da_handle_get_result(h.h, q, &d2, b.p);
    }
    if (st != da_status_success)
        failf("result:get", "get_result(%s) with the size it asked for (%d): status %d: %s", what,
              (int)dim, (int)st, errmsg(h.h).c_str());
    return b.vec();
}
template <typename T> std::vector<T> result_n(Handle &h, da_result q, da_int n, const char *what) {
    Buf<T> b(n);
    da_int d = n;
    da_status st;
    {
        sim::Api a("da_handle_get_result");
        st = da_handle_get_result(h.h, q, &d, b.p);
    }
    if (st != da_status_success)
        failf("result:get", "get_result(%s) with dim %d: status %d (dim now %d): %s", what, (int)n,
              (int)st, (int)d, errmsg(h.h).c_str());
    return b.vec();
}
// run f with every parallel region executed one thread after the other on a
// team of one: the reference for schedule independence
template <typename F> auto sequentially(F f) {
    struct G {
        G() { sim::random_schedule(false); }
        ~G() { sim::random_schedule(true); }
    } g;
    return f();
}
template <typename V> void hash_vec(const V &v) {
    if (!v.empty())
        sim::hash_bytes(v.data(), v.size() * sizeof(v[0]));
}
