// CBLAS wrappers (linked with --wrap): declare which memory a call reads and
// writes to the bounds and race checker, then run the real OpenBLAS routine.
#include "rt.hpp"
#include <algorithm>
#include <cblas.h>
#include <cstdlib>
using sim::touch;
template <typename T>
static void mat(CBLAS_ORDER o, long r, long c, const T *a, long ld, bool w) {
    if (o == CblasRowMajor)
        std::swap(r, c);
    for (long j = 0; j < c; j++)
        touch(a + j * ld, (size_t)r * sizeof(T), w, "blas");
}
template <typename T>
static void tri(CBLAS_ORDER o, CBLAS_UPLO u, long n, const T *a, long ld, bool w) {
    bool up = (u == CblasUpper) == (o == CblasColMajor);
    for (long j = 0; j < n; j++)
        if (up)
            touch(a + j * ld, (size_t)(j + 1) * sizeof(T), w, "blas");
        else
            touch(a + j * ld + j, (size_t)(n - j) * sizeof(T), w, "blas");
}
template <typename T> static void vec(long n, const T *x, long inc, bool w) {
    if (inc == 1)
        touch(x, (size_t)std::max(0L, n) * sizeof(T), w, "blas");
    else
        for (long i = 0; i < n; i++)
            touch(x + i * std::labs(inc), sizeof(T), w, "blas");
}
extern "C" {

double __real_cblas_ddot(const int, const double*, const int, const double*, const int);
double __wrap_cblas_ddot(const int n, const double*x, const int ix, const double*y, const int iy){ vec(n,x,ix,false); vec(n,y,iy,false); return __real_cblas_ddot(n,x,ix,y,iy);}
double __real_cblas_dasum(const int, const double*, const int);
double __wrap_cblas_dasum(const int n, const double*x, const int ix){ vec(n,x,ix,false); return __real_cblas_dasum(n,x,ix);}
double __real_cblas_dnrm2(const int, const double*, const int);
double __wrap_cblas_dnrm2(const int n, const double*x, const int ix){ vec(n,x,ix,false); return __real_cblas_dnrm2(n,x,ix);}
size_t __real_cblas_idamax(const int, const double*, const int);
size_t __wrap_cblas_idamax(const int n, const double*x, const int ix){ vec(n,x,ix,false); return __real_cblas_idamax(n,x,ix);}
void __real_cblas_daxpy(const int, const double, const double*, const int, double*, const int);
void __wrap_cblas_daxpy(const int n, const double a, const double*x, const int ix, double*y, const int iy){ vec(n,x,ix,false); vec(n,y,iy,true); __real_cblas_daxpy(n,a,x,ix,y,iy);}
void __real_cblas_dscal(const int, const double, double*, const int);
void __wrap_cblas_dscal(const int n, const double a, double*x, const int ix){ vec(n,x,ix,true); __real_cblas_dscal(n,a,x,ix);}
void __real_cblas_dgemv(const CBLAS_ORDER, const CBLAS_TRANSPOSE, const int, const int, const double, const double*, const int, const double*, const int, const double, double*, const int);
void __wrap_cblas_dgemv(const CBLAS_ORDER o, const CBLAS_TRANSPOSE t, const int m, const int n, const double al, const double*a, const int ld, const double*x, const int ix, const double be, double*y, const int iy){
 if(m>0&&n>0){ mat(o,m,n,a,ld,false); vec(t==CblasNoTrans?n:m,x,ix,false); vec(t==CblasNoTrans?m:n,y,iy,true);} __real_cblas_dgemv(o,t,m,n,al,a,ld,x,ix,be,y,iy);}
void __real_cblas_dsymv(const CBLAS_ORDER, const CBLAS_UPLO, const int, const double, const double*, const int, const double*, const int, const double, double*, const int);
void __wrap_cblas_dsymv(const CBLAS_ORDER o, const CBLAS_UPLO u, const int n, const double al, const double*a, const int ld, const double*x, const int ix, const double be, double*y, const int iy){
 tri(o,u,n,a,ld,false); vec(n,x,ix,false); vec(n,y,iy,true); __real_cblas_dsymv(o,u,n,al,a,ld,x,ix,be,y,iy);}
void __real_cblas_dgemm(const CBLAS_ORDER, const CBLAS_TRANSPOSE, const CBLAS_TRANSPOSE, const int, const int, const int, const double, const double*, const int, const double*, const int, const double, double*, const int);
void __wrap_cblas_dgemm(const CBLAS_ORDER o, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const int m, const int n, const int k, const double al, const double*a, const int la, const double*b, const int lb, const double be, double*c, const int lc){
 if(m>0&&n>0){ if(k>0){ if(ta==CblasNoTrans) mat(o,m,k,a,la,false); else mat(o,k,m,a,la,false); if(tb==CblasNoTrans) mat(o,k,n,b,lb,false); else mat(o,n,k,b,lb,false);} mat(o,m,n,c,lc,true);} __real_cblas_dgemm(o,ta,tb,m,n,k,al,a,la,b,lb,be,c,lc);}
void __real_cblas_dsyrk(const CBLAS_ORDER, const CBLAS_UPLO, const CBLAS_TRANSPOSE, const int, const int, const double, const double*, const int, const double, double*, const int);
void __wrap_cblas_dsyrk(const CBLAS_ORDER o, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const int n, const int k, const double al, const double*a, const int la, const double be, double*c, const int lc){
 if(n>0){ if(k>0){ if(t==CblasNoTrans) mat(o,n,k,a,la,false); else mat(o,k,n,a,la,false);} tri(o,u,n,c,lc,true);} __real_cblas_dsyrk(o,u,t,n,k,al,a,la,be,c,lc);}
void __real_cblas_dsymm(const CBLAS_ORDER, const CBLAS_SIDE, const CBLAS_UPLO, const int, const int, const double, const double*, const int, const double*, const int, const double, double*, const int);
void __wrap_cblas_dsymm(const CBLAS_ORDER o, const CBLAS_SIDE s, const CBLAS_UPLO u, const int m, const int n, const double al, const double*a, const int la, const double*b, const int lb, const double be, double*c, const int lc){
 if(m>0&&n>0){ tri(o,u,s==CblasLeft?m:n,a,la,false); mat(o,m,n,b,lb,false); mat(o,m,n,c,lc,true);} __real_cblas_dsymm(o,s,u,m,n,al,a,la,b,lb,be,c,lc);}

float __real_cblas_sdot(const int, const float*, const int, const float*, const int);
float __wrap_cblas_sdot(const int n, const float*x, const int ix, const float*y, const int iy){ vec(n,x,ix,false); vec(n,y,iy,false); return __real_cblas_sdot(n,x,ix,y,iy);}
float __real_cblas_sasum(const int, const float*, const int);
float __wrap_cblas_sasum(const int n, const float*x, const int ix){ vec(n,x,ix,false); return __real_cblas_sasum(n,x,ix);}
float __real_cblas_snrm2(const int, const float*, const int);
float __wrap_cblas_snrm2(const int n, const float*x, const int ix){ vec(n,x,ix,false); return __real_cblas_snrm2(n,x,ix);}
size_t __real_cblas_isamax(const int, const float*, const int);
size_t __wrap_cblas_isamax(const int n, const float*x, const int ix){ vec(n,x,ix,false); return __real_cblas_isamax(n,x,ix);}
void __real_cblas_saxpy(const int, const float, const float*, const int, float*, const int);
void __wrap_cblas_saxpy(const int n, const float a, const float*x, const int ix, float*y, const int iy){ vec(n,x,ix,false); vec(n,y,iy,true); __real_cblas_saxpy(n,a,x,ix,y,iy);}
void __real_cblas_sscal(const int, const float, float*, const int);
void __wrap_cblas_sscal(const int n, const float a, float*x, const int ix){ vec(n,x,ix,true); __real_cblas_sscal(n,a,x,ix);}
void __real_cblas_sgemv(const CBLAS_ORDER, const CBLAS_TRANSPOSE, const int, const int, const float, const float*, const int, const float*, const int, const float, float*, const int);
void __wrap_cblas_sgemv(const CBLAS_ORDER o, const CBLAS_TRANSPOSE t, const int m, const int n, const float al, const float*a, const int ld, const float*x, const int ix, const float be, float*y, const int iy){
 if(m>0&&n>0){ mat(o,m,n,a,ld,false); vec(t==CblasNoTrans?n:m,x,ix,false); vec(t==CblasNoTrans?m:n,y,iy,true);} __real_cblas_sgemv(o,t,m,n,al,a,ld,x,ix,be,y,iy);}
void __real_cblas_ssymv(const CBLAS_ORDER, const CBLAS_UPLO, const int, const float, const float*, const int, const float*, const int, const float, float*, const int);
void __wrap_cblas_ssymv(const CBLAS_ORDER o, const CBLAS_UPLO u, const int n, const float al, const float*a, const int ld, const float*x, const int ix, const float be, float*y, const int iy){
 tri(o,u,n,a,ld,false); vec(n,x,ix,false); vec(n,y,iy,true); __real_cblas_ssymv(o,u,n,al,a,ld,x,ix,be,y,iy);}
void __real_cblas_sgemm(const CBLAS_ORDER, const CBLAS_TRANSPOSE, const CBLAS_TRANSPOSE, const int, const int, const int, const float, const float*, const int, const float*, const int, const float, float*, const int);
void __wrap_cblas_sgemm(const CBLAS_ORDER o, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const int m, const int n, const int k, const float al, const float*a, const int la, const float*b, const int lb, const float be, float*c, const int lc){
 if(m>0&&n>0){ if(k>0){ if(ta==CblasNoTrans) mat(o,m,k,a,la,false); else mat(o,k,m,a,la,false); if(tb==CblasNoTrans) mat(o,k,n,b,lb,false); else mat(o,n,k,b,lb,false);} mat(o,m,n,c,lc,true);} __real_cblas_sgemm(o,ta,tb,m,n,k,al,a,la,b,lb,be,c,lc);}
void __real_cblas_ssyrk(const CBLAS_ORDER, const CBLAS_UPLO, const CBLAS_TRANSPOSE, const int, const int, const float, const float*, const int, const float, float*, const int);
void __wrap_cblas_ssyrk(const CBLAS_ORDER o, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const int n, const int k, const float al, const float*a, const int la, const float be, float*c, const int lc){
 if(n>0){ if(k>0){ if(t==CblasNoTrans) mat(o,n,k,a,la,false); else mat(o,k,n,a,la,false);} tri(o,u,n,c,lc,true);} __real_cblas_ssyrk(o,u,t,n,k,al,a,la,be,c,lc);}
void __real_cblas_ssymm(const CBLAS_ORDER, const CBLAS_SIDE, const CBLAS_UPLO, const int, const int, const float, const float*, const int, const float*, const int, const float, float*, const int);
void __wrap_cblas_ssymm(const CBLAS_ORDER o, const CBLAS_SIDE s, const CBLAS_UPLO u, const int m, const int n, const float al, const float*a, const int la, const float*b, const int lb, const float be, float*c, const int lc){
 if(m>0&&n>0){ tri(o,u,s==CblasLeft?m:n,a,la,false); mat(o,m,n,b,lb,false); mat(o,m,n,c,lc,true);} __real_cblas_ssymm(o,s,u,m,n,al,a,la,b,lb,be,c,lc);}
}
// BLAS extensions of AOCL-BLAS (OpenBLAS has the names with another calling
// sequence): reference implementations.
template <typename T>
static void omat(char tr, int m, int n, T al, const T *a, int la, T *b, int lb) {
    bool t = tr == 'T' || tr == 't' || tr == 'C' || tr == 'c';
    mat(CblasColMajor, m, n, a, la, false);
    mat(CblasColMajor, t ? n : m, t ? m : n, b, lb, true);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            T v = a[(size_t)j * la + i];
            if (al != (T)1)
                v *= al;
            b[t ? (size_t)i * lb + j : (size_t)j * lb + i] = v;
        }
}
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
template <typename T> static void imat(char tr, int m, int n, T al, T *a, int la, int lb) {
    bool t = tr == 'T' || tr == 't' || tr == 'C' || tr == 'c';
    mat(CblasColMajor, m, n, a, la, false);
    mat(CblasColMajor, t ? n : m, t ? m : n, a, lb, true);
    T *tmp = (T *)__libc_malloc(sizeof(T) * (size_t)m * n + 1); // memory of the BLAS, never failed
    for (int j = 0; j < n; j++)
        memcpy(tmp + (size_t)j * m, a + (size_t)j * la, sizeof(T) * m);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            T *d = &a[t ? (size_t)i * lb + j : (size_t)j * lb + i];
            memcpy(d, &tmp[(size_t)j * m + i], sizeof(T)); // bit patterns of integers pass through
            if (al != (T)1)
                *d *= al;
        }
    __libc_free(tmp);
}
extern "C" {
void somatcopy_(char *t, int *m, int *n, const float *al, const float *a, int *la, float *b, int *lb) { omat(*t, *m, *n, *al, a, *la, b, *lb); }
void domatcopy_(char *t, int *m, int *n, const double *al, const double *a, int *la, double *b, int *lb) { omat(*t, *m, *n, *al, a, *la, b, *lb); }
void simatcopy_(char *t, int *m, int *n, const float *al, float *a, int *la, int *lb) { imat(*t, *m, *n, *al, a, *la, *lb); }
void dimatcopy_(char *t, int *m, int *n, const double *al, double *a, int *la, int *lb) { imat(*t, *m, *n, *al, a, *la, *lb); }
}
