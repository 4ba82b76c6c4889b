/* Stand-in for AOCL-DLP: only the half precision GEMM is declared. It is used
 * on AVX512-FP16 builds only; the generic build never calls it. */
#ifndef SIM_AOCL_DLP_H
#define SIM_AOCL_DLP_H
#include <stdint.h>
typedef uint16_t float16;
void aocl_gemm_f16f16f16of16(const char order, const char transa, const char transb,
                             long m, long n, long k, uint16_t alpha, const uint16_t *a,
                             long lda, const char mem_a, const uint16_t *b, long ldb,
                             const char mem_b, uint16_t beta, uint16_t *c, long ldc,
                             void *metadata);
#endif
