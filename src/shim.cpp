// C11: operands handed to BLAS/LAPACK (which is not instrumented) are checked against ASan's shadow
// memory, for shape and for forbidden overlap. Linked with -Wl,--wrap.
#include <cblas.h>
#include <lapacke.h>
#include <sanitizer/asan_interface.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include "common.hpp"
using namespace vh;
typedef const void* P;
struct Opnd { const char* nm; const char* p; long r, c, ld; bool out; };
static long span(const Opnd& o) { return o.r > 0 && o.c > 0 ? ((o.c - 1) * o.ld + o.r) * 16 : 0; }
static void check(const char* f, std::initializer_list<Opnd> ops) {
  rep().stat("blas_calls_checked");
  for (auto& o : ops) {
    if (o.r < 0 || o.c < 0 || o.ld < std::max(1L, o.r)) { rep().viol("C11", "blas-shape", "%s: operand %s has shape %ldx%ld with leading dimension %ld", f, o.nm, o.r, o.c, o.ld); continue; }
    for (long j = 0; o.r > 0 && j < o.c; ++j) {
      char* b = const_cast<char*>(o.p) + j * o.ld * 16;
      if (void* bad = __asan_region_is_poisoned(b, (size_t)o.r * 16)) {
        rep().viol("C11", "blas-bounds", "%s: operand %s (%ldx%ld, ld %ld) reaches invalid memory in column %ld at byte offset %ld", f, o.nm, o.r, o.c, o.ld, j, (long)((char*)bad - o.p));
        fflush(stdout);
        abort();
      }
    }
  }
  for (auto& o : ops) if (o.out) for (auto& q : ops) if (&q != &o && span(o) && span(q) && o.p < q.p + span(q) && q.p < o.p + span(o)) rep().viol("C11", "blas-overlap", "%s: result %s overlaps operand %s", f, o.nm, q.nm);
}
extern "C" {
void __real_cblas_zgemm(CBLAS_ORDER, CBLAS_TRANSPOSE, CBLAS_TRANSPOSE, blasint, blasint, blasint, P, P, blasint, P, blasint, P, void*, blasint);
void __wrap_cblas_zgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, P al, P a, blasint lda, P b, blasint ldb, P be, void* c, blasint ldc) {
  bool nt = ta == CblasNoTrans, nb = tb == CblasNoTrans;
  check("zgemm", {{"A", (const char*)a, nt ? m : k, nt ? k : m, lda, false}, {"B", (const char*)b, nb ? k : n, nb ? n : k, ldb, false}, {"C", (const char*)c, m, n, ldc, true}});
  __real_cblas_zgemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);
}
lapack_int __real_LAPACKE_zheevd(int, char, char, lapack_int, lapack_complex_double*, lapack_int, double*);
lapack_int __wrap_LAPACKE_zheevd(int l, char j, char u, lapack_int n, lapack_complex_double* a, lapack_int lda, double* w) {
  check("zheevd", {{"A", (const char*)a, n, n, lda, true}});
  if (n > 0 && __asan_region_is_poisoned(w, (size_t)n * 8)) { rep().viol("C11", "blas-bounds", "zheevd: eigenvalue array shorter than %d", (int)n); fflush(stdout); abort(); }
  return __real_LAPACKE_zheevd(l, j, u, n, a, lda, w);
}
lapack_int __real_LAPACKE_zpotrf(int, char, lapack_int, lapack_complex_double*, lapack_int);
lapack_int __wrap_LAPACKE_zpotrf(int l, char u, lapack_int n, lapack_complex_double* a, lapack_int lda) {
  check("zpotrf", {{"A", (const char*)a, n, n, lda, true}});
  return __real_LAPACKE_zpotrf(l, u, n, a, lda);
}
lapack_int __real_LAPACKE_zpotrs(int, char, lapack_int, lapack_int, const lapack_complex_double*, lapack_int, lapack_complex_double*, lapack_int);
lapack_int __wrap_LAPACKE_zpotrs(int l, char u, lapack_int n, lapack_int r, const lapack_complex_double* a, lapack_int lda, lapack_complex_double* b, lapack_int ldb) {
  check("zpotrs", {{"A", (const char*)a, n, n, lda, false}, {"B", (const char*)b, n, r, ldb, true}});
  return __real_LAPACKE_zpotrs(l, u, n, r, a, lda, b, ldb);
}
}
