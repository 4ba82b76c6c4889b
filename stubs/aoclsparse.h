/* Stand-in for the part of AOCL-Sparse that AOCL-DA uses: the reverse
 * communication conjugate gradient solver (see sim/aoclsparse_stub.cpp). */
#ifndef SIM_AOCLSPARSE_H
#define SIM_AOCLSPARSE_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifdef AOCLDA_ILP64
typedef int64_t aoclsparse_int;
#else
typedef int32_t aoclsparse_int;
#endif
typedef enum aoclsparse_status_ {
    aoclsparse_status_not_implemented = -1,
    aoclsparse_status_success = 0,
    aoclsparse_status_invalid_pointer,
    aoclsparse_status_invalid_size,
    aoclsparse_status_internal_error,
    aoclsparse_status_invalid_value,
    aoclsparse_status_invalid_index_value,
    aoclsparse_status_maxit,
    aoclsparse_status_user_stop,
    aoclsparse_status_wrong_type,
    aoclsparse_status_memory_error,
    aoclsparse_status_numerical_error,
    aoclsparse_status_invalid_operation
} aoclsparse_status;
typedef enum aoclsparse_itsol_rci_job_ {
    aoclsparse_rci_interrupt = -1,
    aoclsparse_rci_stop = 0,
    aoclsparse_rci_start,
    aoclsparse_rci_mv,
    aoclsparse_rci_precond,
    aoclsparse_rci_stopping_criterion
} aoclsparse_itsol_rci_job;
typedef struct _aoclsparse_itsol_handle *aoclsparse_itsol_handle;
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *handle);
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *handle);
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *handle);
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle handle,
                                              const char *option, const char *value);
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle handle,
                                               aoclsparse_int n, const double *b);
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle handle,
                                               aoclsparse_int n, const float *b);
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle handle,
                                               aoclsparse_itsol_rci_job *ircomm,
                                               double **u, double **v, double *x,
                                               double rinfo[100]);
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle handle,
                                               aoclsparse_itsol_rci_job *ircomm,
                                               float **u, float **v, float *x,
                                               float rinfo[100]);
const char *aoclsparse_get_version(void);
#ifdef __cplusplus
}
#endif
#endif
