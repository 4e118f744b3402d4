/* Stand-ins for the BLAS/LAPACK routines the native ALS solvers call (installed over the capsules of
 * scipy.linalg.cython_blas / cython_lapack before implicit is imported).  Compiled with a sanitizer, each touches
 * exactly the elements the routine is documented to read and write, so that an access beyond a buffer or a race on
 * it becomes visible, and then calls the real routine, which is not instrumented. */
#include <stddef.h>

static void *real[32];
static long calls;
void verif_blas_real(int i, void *p) { real[i] = p; }
long verif_blas_calls(void) { return __atomic_load_n(&calls, __ATOMIC_RELAXED); }

#define RD(T, p, i) (void)*(volatile T *)&(p)[i]
#define WR(T, p, i) do { volatile T *q_ = (volatile T *)&(p)[i]; *q_ = *q_; } while (0)

#define DEFINE(T, P, base)                                                                                         \
  static void rvec_##P(int n, T *x, int inc) {                                                                     \
    ptrdiff_t s = inc < 0 ? -(ptrdiff_t)inc : inc;                                                                 \
    for (int i = 0; i < n; ++i) RD(T, x, i * s);                                                                   \
  }                                                                                                                \
  static void wvec_##P(int n, T *x, int inc) {                                                                     \
    ptrdiff_t s = inc < 0 ? -(ptrdiff_t)inc : inc;                                                                 \
    for (int i = 0; i < n; ++i) WR(T, x, i * s);                                                                   \
  }                                                                                                                \
  static void mat_##P(char uplo, int n, T *a, int lda, int write) {                                                \
    for (ptrdiff_t j = 0; j < n; ++j)                                                                              \
      for (ptrdiff_t i = 0; i < n; ++i) {                                                                          \
        if ((uplo == 'U' || uplo == 'u') && i > j) continue;                                                       \
        if ((uplo == 'L' || uplo == 'l') && i < j) continue;                                                       \
        if (write) WR(T, a, i + j * lda); else RD(T, a, i + j * lda);                                              \
      }                                                                                                            \
  }                                                                                                                \
  void verif_##P##axpy(int *n, T *da, T *x, int *incx, T *y, int *incy) {                                          \
    __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED);                                                               \
    if (*n > 0 && *da != 0) { rvec_##P(*n, x, *incx); wvec_##P(*n, y, *incy); }                                    \
    ((void (*)(int *, T *, T *, int *, T *, int *))real[base + 0])(n, da, x, incx, y, incy);                       \
  }                                                                                                                \
  void verif_##P##symv(char *uplo, int *n, T *alpha, T *a, int *lda, T *x, int *incx, T *beta, T *y, int *incy) {  \
    __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED);                                                               \
    if (*n > 0 && !(*alpha == 0 && *beta == 1)) {                                                                  \
      if (*alpha != 0) { mat_##P(*uplo, *n, a, *lda, 0); rvec_##P(*n, x, *incx); }                                 \
      wvec_##P(*n, y, *incy);                                                                                      \
    }                                                                                                              \
    ((void (*)(char *, int *, T *, T *, int *, T *, int *, T *, T *, int *))real[base + 1])(uplo, n, alpha, a, lda, \
                                                                                             x, incx, beta, y, incy); \
  }                                                                                                                \
  T verif_##P##dot(int *n, T *x, int *incx, T *y, int *incy) {                                                     \
    __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED);                                                               \
    if (*n > 0) { rvec_##P(*n, x, *incx); rvec_##P(*n, y, *incy); }                                                \
    return ((T (*)(int *, T *, int *, T *, int *))real[base + 2])(n, x, incx, y, incy);                            \
  }                                                                                                                \
  void verif_##P##scal(int *n, T *a, T *x, int *incx) {                                                            \
    __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED);                                                               \
    if (*n > 0 && *incx > 0) wvec_##P(*n, x, *incx);                                                               \
    ((void (*)(int *, T *, T *, int *))real[base + 3])(n, a, x, incx);                                             \
  }                                                                                                                \
  void verif_##P##posv(char *u, int *n, int *nrhs, T *a, int *lda, T *b, int *ldb, int *info) {                    \
    __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED);                                                               \
    if (*n > 0 && *nrhs > 0) {                                                                                     \
      mat_##P(*u, *n, a, *lda, 1);                                                                                 \
      for (int k = 0; k < *nrhs; ++k) wvec_##P(*n, b + (ptrdiff_t)k * *ldb, 1);                                    \
    }                                                                                                              \
    ((void (*)(char *, int *, int *, T *, int *, T *, int *, int *))real[base + 4])(u, n, nrhs, a, lda, b, ldb, info); \
  }                                                                                                                \
  void verif_##P##gesv(int *n, int *nrhs, T *a, int *lda, int *piv, T *b, int *ldb, int *info) {                   \
    __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED);                                                               \
    if (*n > 0) {                                                                                                  \
      mat_##P('A', *n, a, *lda, 1);                                                                                \
      for (int i = 0; i < *n; ++i) *(volatile int *)&piv[i] = 0;                                                   \
      for (int k = 0; k < *nrhs; ++k) wvec_##P(*n, b + (ptrdiff_t)k * *ldb, 1);                                    \
    }                                                                                                              \
    ((void (*)(int *, int *, T *, int *, int *, T *, int *, int *))real[base + 5])(n, nrhs, a, lda, piv, b, ldb, info); \
  }

DEFINE(float, s, 0)
DEFINE(double, d, 8)
