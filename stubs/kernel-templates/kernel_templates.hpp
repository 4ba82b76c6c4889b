// Stand-in for AOCL-Sparse's kernel-templates library (shipped with
// AOCL-Sparse, not installable here): the subset of primitives AOCL-DA calls,
// written from their names and use in AOCL-DA, on top of <immintrin.h>.
#ifndef SIM_KERNEL_TEMPLATES_HPP
#define SIM_KERNEL_TEMPLATES_HPP
#include <cstdint>
#include <immintrin.h>
#include <type_traits>
#define KT_FORCE_INLINE inline __attribute__((always_inline))
namespace kernel_templates {
enum class bsz : int { b128 = 128, b256 = 256, b512 = 512 };
namespace simkt {
template <bsz SZ, typename T> struct vec;
template <> struct vec<bsz::b128, float> { using type = __m128; };
template <> struct vec<bsz::b128, double> { using type = __m128d; };
template <> struct vec<bsz::b256, float> { using type = __m256; };
template <> struct vec<bsz::b256, double> { using type = __m256d; };
template <> struct vec<bsz::b512, float> { using type = __m512; };
template <> struct vec<bsz::b512, double> { using type = __m512d; };
} // namespace simkt
template <bsz SZ, typename T> using avxvector_t = typename simkt::vec<SZ, T>::type;
template <bsz SZ, typename T>
inline constexpr int tsz_v = static_cast<int>(SZ) / 8 / static_cast<int>(sizeof(T));

template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_loadu_p(const T *p) {
    avxvector_t<SZ, T> v;
    typedef avxvector_t<SZ, T> uv __attribute__((aligned(1), may_alias));
    v = *reinterpret_cast<const uv *>(p);
    return v;
}
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_load_p(const T *p) {
    return *reinterpret_cast<const avxvector_t<SZ, T> *>(p);
}
template <bsz SZ, typename T>
KT_FORCE_INLINE void kt_storeu_p(T *p, const avxvector_t<SZ, T> v) {
    typedef avxvector_t<SZ, T> uv __attribute__((aligned(1), may_alias));
    *reinterpret_cast<uv *>(p) = v;
}
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_set1_p(const T x) {
    avxvector_t<SZ, T> r; // every bit kept: -0.0 is used as a sign mask
    for (size_t i = 0; i < sizeof(r) / sizeof(T); i++)
        r[i] = x;
    return r;
}
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_setzero_p() {
    return avxvector_t<SZ, T>{};
}
template <bsz SZ, typename T>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_add_p(const avxvector_t<SZ, T> a,
                                            const avxvector_t<SZ, T> b) {
    return a + b;
}
template <bsz SZ, typename T>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_sub_p(const avxvector_t<SZ, T> a,
                                            const avxvector_t<SZ, T> b) {
    return a - b;
}
template <bsz SZ, typename T>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_mul_p(const avxvector_t<SZ, T> a,
                                            const avxvector_t<SZ, T> b) {
    return a * b;
}
template <bsz SZ, typename T>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_div_p(const avxvector_t<SZ, T> a,
                                            const avxvector_t<SZ, T> b) {
    return a / b;
}
template <bsz SZ, typename T>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_max_p(const avxvector_t<SZ, T> a,
                                            const avxvector_t<SZ, T> b) {
    avxvector_t<SZ, T> r;
    for (int i = 0; i < tsz_v<SZ, T>; i++)
        r[i] = a[i] > b[i] ? a[i] : b[i];
    return r;
}
template <bsz SZ, typename T>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_pow2_p(const avxvector_t<SZ, T> a) {
    return a * a;
}
template <bsz SZ, typename T>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_fmadd_p(const avxvector_t<SZ, T> a,
                                              const avxvector_t<SZ, T> b,
                                              const avxvector_t<SZ, T> c) {
    avxvector_t<SZ, T> r;
    for (int i = 0; i < tsz_v<SZ, T>; i++)
        r[i] = __builtin_fma(a[i], b[i], c[i]);
    return r;
}
template <bsz SZ, typename T> KT_FORCE_INLINE T kt_hsum_p(const avxvector_t<SZ, T> a) {
    T s = 0;
    for (int i = 0; i < tsz_v<SZ, T>; i++)
        s += a[i];
    return s;
}
enum kt_avxext : int { ANY = 0, AVX = 1, AVX2 = 2, AVX512F = 4, AVX512VL = 8, AVX512DQ = 16 };
// Gather: lane i is base[idx[i]]
template <bsz SZ, typename T, typename I>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_set_p(const T *base, const I *idx) {
    avxvector_t<SZ, T> r;
    for (int i = 0; i < tsz_v<SZ, T>; i++)
        r[i] = base[idx[i]];
    return r;
}
// First L lanes are base[start + i], the others are zero
template <bsz SZ, typename T, kt_avxext EXT, int L, typename I>
KT_FORCE_INLINE avxvector_t<SZ, T> kt_maskz_set_p(const T *base, I start) {
    avxvector_t<SZ, T> r{};
    for (int i = 0; i < L; i++)
        r[i] = base[start + i];
    return r;
}
} // namespace kernel_templates
#endif
