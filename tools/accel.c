/* Stand-ins for the vector library and BLAS entry points the accelerated configurations call.
   Each checks its arguments against the documented contract of the routine, reads and writes exactly the
   elements that routine may touch, and counts itself.  A broken contract ends the process. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>

static unsigned long long calls[64];
unsigned long long rsv_accel_calls(int k) { return k >= 0 && k < 64 ? calls[k] : 0; }

#define REQ(c, f) do { if (!(c)) { fprintf(stderr, "ACCEL %s: requirement broken: %s\n", f, #c); abort(); } } while (0)
#define COUNT(k) __atomic_fetch_add(&calls[k], 1, __ATOMIC_RELAXED)
#define PTR(p, T, f) REQ((p) != NULL && ((uintptr_t)(p) % sizeof(T)) == 0, f)

/* overlap of the output with an input is allowed only when they coincide element for element */
static void apart(const char *f, const void *a, ptrdiff_t ia, const void *c, ptrdiff_t ic, size_t n, size_t w) {
    uintptr_t a0 = (uintptr_t)a, c0 = (uintptr_t)c;
    if (a0 == c0 && (ia == ic || ia == 0 && n <= 1 || n <= 1)) return;
    uintptr_t a1 = a0 + ((n - 1) * ia + 1) * w, c1 = c0 + ((n - 1) * ic + 1) * w;
    if (a1 <= c0 || c1 <= a0) return;
    /* interleaved progressions may still be disjoint */
    if (ia == ic && ia > 0 && (c0 > a0 ? c0 - a0 : a0 - c0) % (ia * w) != 0) return;
    fprintf(stderr, "ACCEL %s: output overlaps an input\n", f); abort();
}

#define BIN(NAME, K, T, EXPR) void NAME(const T *A, ptrdiff_t IA, const T *B, ptrdiff_t IB, T *C, ptrdiff_t IC, size_t N) { \
    COUNT(K); REQ(N > 0, #NAME); PTR(A, T, #NAME); PTR(B, T, #NAME); PTR(C, T, #NAME); REQ(IC >= 1, #NAME); \
    apart(#NAME, A, IA, C, IC, N, sizeof(T)); apart(#NAME, B, IB, C, IC, N, sizeof(T)); \
    for (size_t i = 0; i < N; i++) { T a = A[(ptrdiff_t)i * IA], b = B[(ptrdiff_t)i * IB]; C[(ptrdiff_t)i * IC] = EXPR; } }
#define SCA(NAME, K, T, EXPR) void NAME(const T *A, ptrdiff_t IA, const T *B, T *C, ptrdiff_t IC, size_t N) { \
    COUNT(K); REQ(N > 0, #NAME); PTR(A, T, #NAME); PTR(B, T, #NAME); PTR(C, T, #NAME); REQ(IC >= 1, #NAME); \
    apart(#NAME, A, IA, C, IC, N, sizeof(T)); apart(#NAME, B, 0, C, IC, N, sizeof(T)); \
    T b = *B; for (size_t i = 0; i < N; i++) { T a = A[(ptrdiff_t)i * IA]; C[(ptrdiff_t)i * IC] = EXPR; } }
/* scalar first */
#define SCB(NAME, K, T, EXPR) void NAME(const T *A, const T *B, ptrdiff_t IB, T *C, ptrdiff_t IC, size_t N) { \
    COUNT(K); REQ(N > 0, #NAME); PTR(A, T, #NAME); PTR(B, T, #NAME); PTR(C, T, #NAME); REQ(IC >= 1, #NAME); \
    apart(#NAME, B, IB, C, IC, N, sizeof(T)); apart(#NAME, A, 0, C, IC, N, sizeof(T)); \
    T a = *A; for (size_t i = 0; i < N; i++) { T b = B[(ptrdiff_t)i * IB]; C[(ptrdiff_t)i * IC] = EXPR; } }
#define WADD(a, b) ((int)((unsigned)(a) + (unsigned)(b)))
#define IDIV(a, b) ((b) == -1 ? (int)(0u - (unsigned)(a)) : (a) / (b))

BIN(vDSP_vadd, 0, float, a + b)   BIN(vDSP_vaddD, 0, double, a + b)  BIN(vDSP_vaddi, 0, int, WADD(a, b))
/* these take the second operand first: C = B' - A' where A' is the third argument pair */
BIN(vDSP_vsub, 1, float, b - a)   BIN(vDSP_vsubD, 1, double, b - a)
BIN(vDSP_vmul, 2, float, a * b)   BIN(vDSP_vmulD, 2, double, a * b)
BIN(vDSP_vdiv, 3, float, b / a)   BIN(vDSP_vdivD, 3, double, b / a)  BIN(vDSP_vdivi, 3, int, IDIV(b, a))
SCA(vDSP_vsadd, 4, float, a + b)  SCA(vDSP_vsaddD, 4, double, a + b) SCA(vDSP_vsaddi, 4, int, WADD(a, b))
SCA(vDSP_vsmul, 5, float, a * b)  SCA(vDSP_vsmulD, 5, double, a * b)
SCA(vDSP_vsdiv, 6, float, a / b)  SCA(vDSP_vsdivD, 6, double, a / b) SCA(vDSP_vsdivi, 6, int, IDIV(a, b))
SCB(vDSP_svdiv, 7, float, a / b)  SCB(vDSP_svdivD, 7, double, a / b)

#define FILL(NAME, T) void NAME(const T *A, T *C, ptrdiff_t IC, size_t N) { \
    COUNT(8); REQ(N > 0, #NAME); PTR(A, T, #NAME); PTR(C, T, #NAME); REQ(IC >= 1 || N == 1, #NAME); \
    T a = *A; for (size_t i = 0; i < N; i++) C[(ptrdiff_t)i * IC] = a; }
FILL(vDSP_vfill, float) FILL(vDSP_vfillD, double) FILL(vDSP_vfilli, int)

#define RED(NAME, K, T, INIT, STEP) void NAME(const T *A, ptrdiff_t IA, T *C, size_t N) { \
    COUNT(K); REQ(N > 0, #NAME); PTR(A, T, #NAME); PTR(C, T, #NAME); \
    T r = INIT; for (size_t i = 0; i < N; i++) { T a = A[(ptrdiff_t)i * IA]; STEP; } *C = r; }
RED(vDSP_sve, 9, float, 0, r += a)                          RED(vDSP_sveD, 9, double, 0, r += a)
RED(vDSP_maxv, 10, float, -INFINITY, if (a > r) r = a)      RED(vDSP_maxvD, 10, double, -INFINITY, if (a > r) r = a)
RED(vDSP_minv, 11, float, INFINITY, if (a < r) r = a)       RED(vDSP_minvD, 11, double, INFINITY, if (a < r) r = a)
RED(vDSP_maxmgv, 12, float, 0, if (fabsf(a) > r) r = fabsf(a))        RED(vDSP_maxmgvD, 12, double, 0, if (fabs(a) > r) r = fabs(a))
RED(vDSP_minmgv, 13, float, INFINITY, if (fabsf(a) < r) r = fabsf(a)) RED(vDSP_minmgvD, 13, double, INFINITY, if (fabs(a) < r) r = fabs(a))

#define DOTP(NAME, T) void NAME(const T *A, ptrdiff_t IA, const T *B, ptrdiff_t IB, T *C, size_t N) { \
    COUNT(14); REQ(N > 0, #NAME); PTR(A, T, #NAME); PTR(B, T, #NAME); PTR(C, T, #NAME); \
    T r = 0; for (size_t i = 0; i < N; i++) r += A[(ptrdiff_t)i * IA] * B[(ptrdiff_t)i * IB]; *C = r; }
DOTP(vDSP_dotpr, float) DOTP(vDSP_dotprD, double)

#define CSET(NAME, T) void NAME(int N, T a, T *X, int IX) { \
    COUNT(15); REQ(N > 0, #NAME); PTR(X, T, #NAME); REQ(IX >= 1, #NAME); for (int i = 0; i < N; i++) X[(ptrdiff_t)i * IX] = a; }
CSET(catlas_sset, float) CSET(catlas_dset, double)

#define CDOT(NAME, T) T NAME(int N, const T *X, int IX, const T *Y, int IY) { \
    COUNT(16); REQ(N > 0, #NAME); PTR(X, T, #NAME); PTR(Y, T, #NAME); REQ(IX >= 0 && IY >= 0, #NAME); \
    T r = 0; for (int i = 0; i < N; i++) r += X[(ptrdiff_t)i * IX] * Y[(ptrdiff_t)i * IY]; return r; }
CDOT(cblas_sdot, float) CDOT(cblas_ddot, double)

enum { ROW = 101, COL = 102, NOTR = 111, TR = 112, CTR = 113 };
static int max1(int x) { return x > 1 ? x : 1; }

#define GEMV(NAME, T) void NAME(int O, int TA, int M, int N, T al, const T *A, int LDA, const T *X, int IX, T be, T *Y, int IY) { \
    COUNT(17); REQ(O == ROW || O == COL, #NAME); REQ(TA == NOTR || TA == TR || TA == CTR, #NAME); \
    REQ(M >= 0 && N >= 0, #NAME); PTR(A, T, #NAME); PTR(X, T, #NAME); PTR(Y, T, #NAME); \
    REQ(LDA >= max1(O == ROW ? N : M), #NAME); REQ(IX != 0, #NAME); REQ(IY != 0, #NAME); REQ(IX > 0 && IY > 0, #NAME); \
    int rows = TA == NOTR ? M : N, cols = TA == NOTR ? N : M; \
    for (int i = 0; i < rows; i++) { T r = 0; for (int j = 0; j < cols; j++) { \
        int p = TA == NOTR ? i : j, q = TA == NOTR ? j : i; \
        r += A[O == ROW ? (ptrdiff_t)p * LDA + q : (ptrdiff_t)q * LDA + p] * X[(ptrdiff_t)j * IX]; } \
        T *y = Y + (ptrdiff_t)i * IY; *y = al * r + (be == 0 ? 0 : be * *y); } }
GEMV(cblas_sgemv, float) GEMV(cblas_dgemv, double)

#define GEMM(NAME, T) void NAME(int O, int TA, int TB, int M, int N, int K, T al, const T *A, int LDA, const T *B, int LDB, T be, T *C, int LDC) { \
    COUNT(18); REQ(O == ROW || O == COL, #NAME); REQ(TA == NOTR || TA == TR || TA == CTR, #NAME); REQ(TB == NOTR || TB == TR || TB == CTR, #NAME); \
    REQ(M >= 0 && N >= 0 && K >= 0, #NAME); PTR(A, T, #NAME); PTR(B, T, #NAME); PTR(C, T, #NAME); \
    REQ(LDA >= max1((TA == NOTR) == (O == ROW) ? K : M), #NAME); REQ(LDB >= max1((TB == NOTR) == (O == ROW) ? N : K), #NAME); REQ(LDC >= max1(O == ROW ? N : M), #NAME); \
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { T r = 0; \
        for (int k = 0; k < K; k++) { \
            int p = TA == NOTR ? i : k, q = TA == NOTR ? k : i, s = TB == NOTR ? k : j, t = TB == NOTR ? j : k; \
            r += A[O == ROW ? (ptrdiff_t)p * LDA + q : (ptrdiff_t)q * LDA + p] * B[O == ROW ? (ptrdiff_t)s * LDB + t : (ptrdiff_t)t * LDB + s]; } \
        T *c = C + (O == ROW ? (ptrdiff_t)i * LDC + j : (ptrdiff_t)j * LDC + i); *c = al * r + (be == 0 ? 0 : be * *c); } }
GEMM(cblas_sgemm, float) GEMM(cblas_dgemm, double)
