// C17: the library's dense kernels on strided, padded and owning matrices against naive long double
// arithmetic; padding and inputs are guarded bit by bit.
#include "hmain.hpp"
#include "la/lapack.hpp"
using namespace vh;
using namespace nlcglib;
typedef Kokkos::complex<double> kc;
typedef std::complex<ld> cl;
typedef KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> V;  // caller's memory
typedef KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> O;                             // owning

static const double POISON = std::numeric_limits<double>::quiet_NaN();

// a matrix inside a larger guarded buffer
struct Buf {
  int r, c, ld_;
  std::vector<cd> mem, snap;
  Buf(int r_, int c_, Rng& g) : r(r_), c(c_), ld_(r_ + (g.p(0.4) ? 0 : g.i(1, 7))), mem((size_t)ld_ * c_ + 8) {
    for (auto& z : mem) z = cd(g.u(-1e30, 1e30), -7.25e200);
  }
  cd* p() { return mem.data() + 4; }
  cd& operator()(int i, int j) { return p()[(size_t)j * ld_ + i]; }
  V view() { return V(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, r, c}})), buffer_protocol<std::complex<double>, 2>(std::array<int, 2>{1, ld_}, std::array<int, 2>{r, c}, p(), memory_type::host, MPI_COMM_SELF)); }
  void set(const Mat& A) { for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) (*this)(i, j) = A(i, j); }
  Mat get() { Mat A(r, c); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) A(i, j) = (*this)(i, j); return A; }
  void take() { snap = mem; }
  bool same() const { return memcmp(snap.data(), mem.data(), mem.size() * sizeof(cd)) == 0; }
  bool padding_same() const {
    auto t = mem;
    for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) t[4 + (size_t)j * ld_ + i] = snap[4 + (size_t)j * ld_ + i];
    return memcmp(snap.data(), t.data(), t.size() * sizeof(cd)) == 0;
  }
};
static O owning(const Mat& A) {
  O X(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, A.r, A.c}})));
  for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) X.array()(i, j) = kc(A(i, j).real(), A(i, j).imag());
  return X;
}
template <class X> static Mat get(const X& x) {
  Mat A((int)x.array().extent(0), (int)x.array().extent(1));
  for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) { kc z = x.array()(i, j); A(i, j) = cd(z.real(), z.imag()); }
  return A;
}
static Mat rnd(int r, int c, Rng& g, double s = 1) { Mat A(r, c); for (auto& z : A.a) z = s * g.cg(); return A; }
static Mat nans(int r, int c) { Mat A(r, c); for (auto& z : A.a) z = cd(POISON, POISON); return A; }
static cl L(cd z) { return cl(z.real(), z.imag()); }
static kc K(cd z) { return kc(z.real(), z.imag()); }

// alpha op(A) op(B) + beta C0 with a rounding bound per element
static void cmp_gemm(const char* what, const Mat& got, const Mat& Am, bool ah, const Mat& Bm, bool bh, cd al, cd be, const Mat& C0) {
  int m = ah ? Am.c : Am.r, k = ah ? Am.r : Am.c, n = bh ? Bm.r : Bm.c;
  rep().stat("kernel_results_compared");
  if (got.r != m || got.c != n) { rep().viol("C17", what, "%s: result has shape %dx%d, expected %dx%d", what, got.r, got.c, m, n); return; }
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < m; ++i) {
      cl s = 0; ld mag = 0;
      for (int l = 0; l < k; ++l) {
        cl a = ah ? std::conj(L(Am(l, i))) : L(Am(i, l)), b = bh ? std::conj(L(Bm(j, l))) : L(Bm(l, j));
        s += a * b; mag += std::abs(a) * std::abs(b);
      }
      s *= L(al); mag *= std::abs(L(al));
      if (be != cd(0)) { s += L(be) * L(C0(i, j)); mag += std::abs(L(be)) * std::abs(L(C0(i, j))); }
      ld e = std::abs(L(got(i, j)) - s);
      if (!(e <= 8e-16L * (k + 8) * mag + 1e-300L)) {
        rep().viol("C17", what, "%s %dx%dx%d alpha=(%g,%g) beta=(%g,%g): element (%d,%d) is (%.15g,%.15g), expected (%.15Lg,%.15Lg)", what, m, n, k, al.real(), al.imag(), be.real(), be.imag(), i, j, got(i, j).real(), got(i, j).imag(), s.real(), s.imag());
        return;
      }
    }
}
static void guard(const char* what, std::initializer_list<Buf*> in, Buf* out) {
  for (auto b : in) if (!b->same()) rep().viol("C17", "input", "%s modified an input", what);
  if (out && !out->padding_same()) rep().viol("C17", "padding", "%s wrote outside its result", what);
  rep().stat("guard_checks", (long)in.size() + 1);
}
static cd scalar(Rng& g, bool real = false) {
  switch (g.i(0, 5)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return real ? cd(g.u(-3, 3)) : cd(0, g.u(-2, 2)); default: return real ? cd(g.logu(1e-6, 1e6)) : cd(g.u(-3, 3), g.u(-3, 3)); }
}
static int dim_(Rng& g) { return g.p(0.15) ? 1 : g.p(0.85) ? g.i(1, 13) : g.i(14, 70); }
static Mat spd(int n, Rng& g, double lo, double hi, std::vector<double>* ev = nullptr) {  // random spectrum
  Mat U = rnd(n, n, g);
  for (int j = 0; j < n; ++j) {  // Gram-Schmidt, twice
    for (int t = 0; t < 2; ++t)
      for (int l = 0; l < j; ++l) { cd s = 0; for (int i = 0; i < n; ++i) s += std::conj(U(i, l)) * U(i, j); for (int i = 0; i < n; ++i) U(i, j) -= s * U(i, l); }
    double nn = 0; for (int i = 0; i < n; ++i) nn += std::norm(U(i, j)); nn = std::sqrt(nn); for (int i = 0; i < n; ++i) U(i, j) /= nn;
  }
  std::vector<double> w(n);
  for (auto& x : w) x = g.logu(lo, hi);
  Mat M(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { cd s = 0; for (int l = 0; l < n; ++l) s += U(i, l) * w[l] * std::conj(U(j, l)); if (i == j) s = s.real(); M(i, j) = s; M(j, i) = std::conj(s); }
  if (ev) *ev = w;
  return M;
}
static Mat sub(const Mat& A, const Mat& B) { Mat C = A; for (size_t i = 0; i < C.a.size(); ++i) C.a[i] -= B.a[i]; return C; }
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }

static void products(Rng& g) {
  int m = dim_(g), n = dim_(g), k = dim_(g);
  bool sq = g.p(0.2); if (sq) m = n = k;
  cd al = scalar(g), be = scalar(g);
  double sa = g.logu(1e-3, 1e3);
  auto c0 = [&](int r, int c) { return be == cd(0) && g.p(0.7) ? nans(r, c) : rnd(r, c, g); };
  rep().token("shapes", fmt("%s%s%s", m < n ? "m<n" : m == n ? "m=n" : "m>n", k < n ? ",k<n" : k == n ? ",k=n" : ",k>n", m == 1 ? ",m=1" : ""));
  rep().token("scalars", fmt("%d%d", be == cd(0) ? 0 : be == cd(1) ? 1 : 2, al == cd(0) ? 0 : al == cd(1) ? 1 : 2));
  {  // inner: C(m,n) = A(k,m)^H B(k,n)
    Mat a = rnd(k, m, g, sa), b = rnd(k, n, g), c = c0(m, n);
    Buf A(k, m, g), B(k, n, g), C(m, n, g); A.set(a); B.set(b); C.set(c); A.take(); B.take(); C.take();
    auto vc = C.view(); inner(vc, A.view(), B.view(), K(al), K(be));
    cmp_gemm("inner", C.get(), a, true, b, false, al, be, c); guard("inner", {&A, &B}, &C);
    cmp_gemm("inner_", get(inner_()(A.view(), B.view())), a, true, b, false, 1, 0, c);
    auto oc = owning(c); inner(oc, owning(a), owning(b), K(al), K(be));
    cmp_gemm("inner(owning)", get(oc), a, true, b, false, al, be, c);
  }
  {  // outer: C(m,n) = A(m,k) B(n,k)^H
    Mat a = rnd(m, k, g, sa), b = rnd(n, k, g), c = c0(m, n);
    Buf A(m, k, g), B(n, k, g), C(m, n, g); A.set(a); B.set(b); C.set(c); A.take(); B.take(); C.take();
    auto vc = C.view(); outer(vc, A.view(), B.view(), K(al), K(be));
    cmp_gemm("outer", C.get(), a, false, b, true, al, be, c); guard("outer", {&A, &B}, &C);
  }
  {  // transform: C(m,n) = beta C + alpha A(m,k) B(k,n)
    Mat a = rnd(m, k, g, sa), b = rnd(k, n, g), c = c0(m, n);
    Buf A(m, k, g), B(k, n, g), C(m, n, g); A.set(a); B.set(b); C.set(c); A.take(); B.take(); C.take();
    auto vc = C.view(); transform(vc, K(be), K(al), A.view(), B.view());
    cmp_gemm("transform", C.get(), a, false, b, false, al, be, c); guard("transform", {&A, &B}, &C);
    cmp_gemm("transform_alloc", get(transform_alloc(A.view(), B.view())), a, false, b, false, 1, 0, c);
    cmp_gemm("transform_alloc", get(transform_alloc(owning(a), owning(b), K(al), kc(0))), a, false, b, false, al, 0, c);
    guard("transform_alloc", {&A, &B}, nullptr);
  }
}

// element-wise: want(i,j) given by a functor returning value and magnitude
template <class F> static void cmp_elem(const char* what, const Mat& got, int r, int c, F want) {
  rep().stat("kernel_results_compared");
  if (got.r != r || got.c != c) { rep().viol("C17", what, "%s: shape %dx%d, expected %dx%d", what, got.r, got.c, r, c); return; }
  for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) {
    ld mag = 0; cl w = want(i, j, mag);
    if (!(std::abs(L(got(i, j)) - w) <= 4e-15L * mag + 1e-300L)) { rep().viol("C17", what, "%s %dx%d: element (%d,%d) is (%.15g,%.15g), expected (%.15Lg,%.15Lg)", what, r, c, i, j, got(i, j).real(), got(i, j).imag(), w.real(), w.imag()); return; }
  }
}
static void elementwise(Rng& g) {
  int m = dim_(g), n = dim_(g);
  cd al = scalar(g), be = scalar(g);
  double ar = scalar(g, true).real(), br = scalar(g, true).real();
  Mat a = rnd(m, n, g, g.logu(1e-3, 1e3)), c = be == cd(0) && g.p(0.7) ? nans(m, n) : rnd(m, n, g), cr = br == 0 && g.p(0.7) ? nans(m, n) : rnd(m, n, g);
  auto lin = [&](cd x, cd y, const Mat& c) { return [&a, c, x, y](int i, int j, ld& mag) { cl p = L(x) * L(a(i, j)), q = y == cd(0) ? cl(0) : L(y) * L(c(i, j)); mag = std::abs(p) + std::abs(q); return p + q; }; };
  {
    Buf A(m, n, g), C(m, n, g); A.set(a); C.set(c); A.take(); C.take();
    auto vc = C.view(); add(vc, A.view(), K(al), K(be));
    cmp_elem("add", C.get(), m, n, lin(al, be, c)); guard("add", {&A}, &C);
    auto oc = owning(c); auto oa = owning(a); add(oc, oa, K(al), K(be)); cmp_elem("add(owning)", get(oc), m, n, lin(al, be, c));
  }
  {
    Buf A(m, n, g), C(m, n, g); A.set(a); C.set(c); A.take(); C.take();
    auto vc = C.view(); auto va = A.view(); _add(vc, va, K(al), K(be));
    cmp_elem("_add", C.get(), m, n, lin(al, be, c)); guard("_add", {&A}, &C);
  }
  {
    Buf A(m, n, g), C(m, n, g); A.set(a); C.set(cr); A.take(); C.take();
    auto vc = C.view(); auto va = A.view(); scale(vc, va, ar, br);
    cmp_elem("scale(matrix,alpha,beta)", C.get(), m, n, lin(ar, br, cr)); guard("scale", {&A}, &C);
    C.set(nans(m, n)); C.take(); scale(vc, va, ar); cmp_elem("scale(matrix,alpha)", C.get(), m, n, lin(ar, 0, cr)); guard("scale", {&A}, &C);
    std::vector<double> x(n); for (auto& t : x) t = g.p(0.1) ? 0 : g.u(-5, 5);
    Kokkos::View<double*, Kokkos::HostSpace> xv("x", n); for (int j = 0; j < n; ++j) xv(j) = x[j];
    C.set(cr); C.take(); scale(vc, va, xv, ar, br);
    cmp_elem("scale(columns)", C.get(), m, n, [&](int i, int j, ld& mag) { cl p = L(ar * cd(1)) * (ld)x[j] * L(a(i, j)), q = br == 0 ? cl(0) : L(br * cr(i, j)); mag = std::abs(p) + std::abs(q); return p + q; });
    guard("scale(columns)", {&A}, &C);
    for (int j = 0; j < n; ++j) if (xv(j) != x[j]) rep().viol("C17", "input", "scale modified the scaling vector");
    // in place
    Buf D(m, n, g); D.set(a); D.take(); auto vd = D.view(); scale(vd, vd, xv, ar);
    cmp_elem("scale(in place)", D.get(), m, n, [&](int i, int j, ld& mag) { cl p = (ld)ar * (ld)x[j] * L(a(i, j)); mag = std::abs(p); return p; });
    guard("scale(in place)", {}, &D);
  }
  {  // diagonals, trace products
    Buf A(m, n, g); A.set(a); A.take();
    auto d = diag(A.view());
    rep().stat("kernel_results_compared");
    if ((int)d.extent(0) != std::min(m, n)) rep().viol("C17", "diag", "diag of %dx%d has %d entries", m, n, (int)d.extent(0));
    else for (int i = 0; i < std::min(m, n); ++i) if (cd(d(i).real(), d(i).imag()) != a(i, i)) { rep().viol("C17", "diag", "diag entry %d wrong", i); break; }
    auto M = make_diag()(d);
    cmp_elem("make_diag", get(M), (int)d.extent(0), (int)d.extent(0), [&](int i, int j, ld& mag) { mag = 0; return i == j ? L(a(i, i)) : cl(0); });
    Mat b = rnd(m, n, g);
    Buf B(m, n, g); B.set(b); B.take();
    cl s = 0; ld mag = 0;
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { s += L(a(i, j)) * std::conj(L(b(i, j))); mag += std::abs(a(i, j)) * std::abs(b(i, j)); }
    kc t = innerh_tr()(A.view(), B.view());
    rep().stat("kernel_results_compared");
    if (!(std::abs(cl(t.real(), t.imag()) - s) <= 4e-16L * (m + n + 8) * mag)) rep().viol("C17", "innerh_tr", "trace product of %dx%d matrices is (%.15g,%.15g), expected (%.15Lg,%.15Lg)", m, n, t.real(), t.imag(), s.real(), s.imag());
    guard("diag/innerh_tr", {&A, &B}, nullptr);
    // copies, zeros
    auto cp = copy(A.view());
    cmp_elem("copy", get(cp), m, n, [&](int i, int j, ld& mag) { mag = 0; return L(a(i, j)); });
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) cp.array()(i, j) = kc(0);
    guard("copy (aliasing)", {&A}, nullptr);
    auto z = zeros_like()(A.view());
    cmp_elem("zeros_like", get(z), m, n, [&](int, int, ld& mag) { mag = 0; return cl(0); });
  }
}

static void factorisations(Rng& g) {
  int n = dim_(g);
  {  // eigh
    std::vector<double> ev;
    Mat S = spd(n, g, 1e-3, 10, &ev);
    if (g.p(0.5)) { for (int i = 0; i < n; ++i) S(i, i) -= 2.5; for (auto& e : ev) e -= 2.5; }
    if (g.p(0.1)) { S = Mat(n, n); for (int i = 0; i < n; ++i) S(i, i) = 1.5; }  // degenerate
    auto s = owning(S); O U(s.map());
    for (size_t i = 0; i < U.array().size(); ++i) U.array().data()[i] = kc(POISON, POISON);
    Kokkos::View<double*, Kokkos::HostSpace> w("w", n);
    eigh(U, w, s);
    rep().stat("kernel_results_compared");
    Mat u = get(U), d = hmul(u, u);
    for (int i = 0; i < n; ++i) d(i, i) -= 1;
    if (!(maxabs(d) <= 1e-13 * (n + 5))) rep().viol("C17", "eigh", "eigenvectors of a %dx%d Hermitian matrix not orthonormal (%.3g)", n, n, maxabs(d));
    Mat r = mul(S, u); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) r(i, j) -= w(j) * u(i, j);
    if (!(maxabs(r) <= 1e-13 * (n + 5) * (1 + maxabs(S)))) rep().viol("C17", "eigh", "S u != w u, n=%d (%.3g)", n, maxabs(r));
    for (int i = 1; i < n; ++i) if (w(i) < w(i - 1)) { rep().viol("C17", "eigh", "eigenvalues not in ascending order"); break; }
    if (maxabs(sub(get(s), S)) != 0) rep().viol("C17", "input", "eigh modified its input");
  }
  {  // solve_sym on strided and owning operands
    int nr = dim_(g);
    Mat M = spd(n, g, 1e-2, 1e2), b = rnd(n, nr, g);
    Buf A(n, n, g), B(n, nr, g); A.set(M); B.set(b); A.take(); B.take();
    auto va = A.view(), vb = B.view(); solve_sym(va, vb);
    rep().stat("kernel_results_compared");
    Mat x = B.get(); Mat r = sub(mul(M, x), b);
    if (!(maxabs(r) <= 1e-13 * (n + 5) * (maxabs(M) * maxabs(x) * n + 1))) rep().viol("C17", "solve_sym", "residual of positive definite solve n=%d, %d right hand sides: %.3g", n, nr, maxabs(r));
    guard("solve_sym", {}, &B); if (!A.padding_same()) rep().viol("C17", "padding", "solve_sym wrote outside its matrix");
    // indefinite: must be reported
    int bad = g.i(0, n - 1);
    Mat N = M; for (int i = 0; i < n; ++i) N(bad, i) = N(i, bad) = 0; N(bad, bad) = g.p(0.3) ? 0.0 : -g.logu(1e-3, 10);
    Buf A2(n, n, g), B2(n, nr, g); A2.set(N); B2.set(b);
    rep().stat("failures_provoked");
    if (!throws([&] { auto x = A2.view(), y = B2.view(); solve_sym(x, y); })) rep().viol("C17", "solve_sym", "solve with a matrix that is not positive definite (n=%d, pivot %d) returned normally", n, bad);
  }
  {  // Loewdin: Y^H S Y = 1, Y in span(X), Y = X (X^H S X)^(-1/2)
    int m = n + g.i(0, 12);
    Mat X = rnd(m, n, g), S = spd(m, g, 0.2, 5);
    Mat SX = mul(S, X);
    Mat G0 = hmul(X, X), G = hmul(X, SX);
    Buf bx(m, n, g), bs(m, n, g); bx.set(X); bs.set(SX); bx.take(); bs.take();
    for (int gen = 0; gen < 2; ++gen) {
      Mat Y = gen ? get(loewdin(bx.view(), bs.view())) : get(loewdin(bx.view()));
      rep().stat("kernel_results_compared");
      if (Y.r != m || Y.c != n) { rep().viol("C17", "loewdin", "shape"); continue; }
      Mat D = hmul(Y, gen ? mul(S, Y) : Y); for (int i = 0; i < n; ++i) D(i, i) -= 1;
      // condition number estimate through the inverse square root Z = X^+ Y : use Y^H (S) X = (X^H S X)^(1/2) Hermitian positive
      Mat R = hmul(Y, gen ? SX : X);  // = G^{1/2}
      Mat q = sub(mul(R, R), gen ? G : G0);
      Mat h = sub(R, herm(R));
      // worst amplification: 1/smallest eigenvalue of R
      double lmin = 1e300; { O rr = owning(R), uu(rr.map()); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) rr.array()(i, j) = 0.5 * (rr.array()(i, j) + Kokkos::conj(K(R(j, i)))); Kokkos::View<double*, Kokkos::HostSpace> w("w", n); eigh(uu, w, rr); lmin = w(0); }
      double nrm = std::sqrt(maxabs(gen ? G : G0) * n);
      if (!(lmin > 1e-4 * nrm)) { rep().stat("loewdin_illconditioned_skipped"); continue; }
      double amp = (nrm / lmin) * (nrm / lmin), tol = 1e-13 * (m + 5) * amp;
      if (!(maxabs(D) <= tol)) rep().viol("C17", "loewdin", "%s Loewdin of %dx%d: Y^H S Y - 1 = %.3g (limit %.3g)", gen ? "generalised" : "plain", m, n, maxabs(D), tol);
      if (!(maxabs(h) <= tol * nrm)) rep().viol("C17", "loewdin", "%s Loewdin of %dx%d: Y^H S X not Hermitian (%.3g): not the symmetric orthogonalisation", gen ? "generalised" : "plain", m, n, maxabs(h));
      if (!(maxabs(q) <= tol * nrm * nrm)) rep().viol("C17", "loewdin", "%s Loewdin of %dx%d: (Y^H S X)^2 != X^H S X (%.3g)", gen ? "generalised" : "plain", m, n, maxabs(q));
      Mat span = sub(mul(Y, R), X);
      if (!(maxabs(span) <= tol * nrm)) rep().viol("C17", "loewdin", "%s Loewdin of %dx%d leaves the span (%.3g)", gen ? "generalised" : "plain", m, n, maxabs(span));
      guard("loewdin", {&bx, &bs}, nullptr);
    }
  }
}

// row-major operands cannot be served by the column-major kernels: refused
static void refusals(Rng& g) {
  int m = g.i(2, 9), n = g.i(2, 9);
  std::vector<cd> mem((size_t)m * n * 4 + 8, cd(1, 1));
  auto rowmajor = [&](int r, int c, cd* p) { return V(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, r, c}})), buffer_protocol<std::complex<double>, 2>(std::array<int, 2>{c, 1}, std::array<int, 2>{r, c}, p, memory_type::host, MPI_COMM_SELF)); };
  Mat a = rnd(m, n, g);
  Buf A(m, n, g), C(n, n, g), Q(n, n, g), D(m, n, g); A.set(a); C.set(rnd(n, n, g)); Q.set(rnd(n, n, g)); D.set(a);
  C.take(); D.take();
  auto rm = rowmajor(m, n, mem.data()); auto vc = C.view(), vd = D.view();
  struct { const char* nm; std::function<void()> f; } q[] = {
      {"inner", [&] { inner(vc, rm, A.view(), kc(1), kc(0)); }},
      {"inner", [&] { inner(vc, A.view(), rm, kc(1), kc(0)); }},
      {"outer", [&] { Buf E(m, m, g); auto e = E.view(); outer(e, rm, A.view(), kc(1), kc(0)); }},
      {"transform", [&] { transform(vd, kc(0), kc(1), rm, Q.view()); }},
      {"add", [&] { add(vd, rm, kc(1), kc(1)); }},
      {"solve_sym", [&] { auto r = rowmajor(n, n, mem.data()); auto b = Q.view(); solve_sym(r, b); }},
      {"scale", [&] { scale(vd, rm, 2.0); }}, {"scale", [&] { scale(vd, rm, 2.0, 1.0); }}};
  for (auto& t : q) {
    rep().stat("refusals_provoked");
    if (!throws(t.f)) rep().viol("C17", "refuse", "%s accepted a row-major operand", t.nm);
  }
  if (!C.same() || !D.same()) rep().viol("C17", "refuse", "a refused operation modified its result");
}

// reductions over keyed collections on one or several ranks
static void reductions(Rng& g) {
  MPI_Comm w = MPI_COMM_WORLD;
  int nk = g.i(1, 6), P = world_size(), me = world_rank();
  mvector<O> x((Communicator(w))), y((Communicator(w)));
  cl s = 0; ld xx = 0, mag = 0;
  for (int k = 0; k < nk; ++k) {
    int m = dim_(g), n = dim_(g), own = g.i(0, P - 1);
    Mat a = rnd(m, n, g), b = rnd(m, n, g);
    for (size_t i = 0; i < a.a.size(); ++i) { s += L(a.a[i]) * std::conj(L(b.a[i])); xx += std::norm(L(a.a[i])); mag += std::abs(a.a[i]) * std::abs(b.a[i]); }
    if (own == me) { x[{k, k % 2}] = owning(a); y[{k, k % 2}] = owning(b); }
  }
  kc r = innerh_reduce(x, y); double l = l2norm(x);
  rep().stat("kernel_results_compared", 2);
  if (!(std::abs((ld)r.real() - s.real()) <= 1e-14L * mag * 10)) rep().viol("C17", "innerh_reduce", "sum over %d keys on %d ranks is %.15g, expected %.15Lg", nk, P, r.real(), s.real());
  if (!(std::abs((ld)l - std::sqrt(xx)) <= 1e-13L * std::sqrt(xx))) rep().viol("C17", "l2norm", "l2norm over %d keys on %d ranks is %.15g, expected %.15Lg", nk, P, l, std::sqrt(xx));
}

// operands spread over several ranks cannot be served: refused on every rank
static void distributed(Rng& g) {
  if (world_size() < 2) return;
  int m = g.i(2, 9), n = g.i(2, 9);
  Buf A(m, n, g), C(n, n, g); A.set(rnd(m, n, g)); C.set(rnd(n, n, g));
  auto dist = [&](Buf& b) { return V(Map<>(Communicator(MPI_COMM_WORLD), SlabLayoutV({{0, 0, b.r, b.c}})), buffer_protocol<std::complex<double>, 2>(std::array<int, 2>{1, b.ld_}, std::array<int, 2>{b.r, b.c}, b.p(), memory_type::host, MPI_COMM_WORLD)); };
  Buf Q(n, n, g), D(m, n, g); Q.set(rnd(n, n, g)); D.set(rnd(m, n, g));
  struct { const char* nm; std::function<void()> f; } q[] = {
      {"inner", [&] { auto c = C.view(); inner(c, dist(A), A.view(), kc(1), kc(0)); }},
      {"transform", [&] { auto d = D.view(); transform(d, kc(0), kc(1), dist(A), Q.view()); }},
      {"add", [&] { auto d = D.view(); add(d, dist(A), kc(1), kc(1)); }},
      {"solve_sym", [&] { auto c = dist(C); auto q = Q.view(); solve_sym(c, q); }}};
  for (auto& t : q) {
    rep().stat("refusals_provoked");
    if (!throws(t.f)) rep().viol("C17", "refuse", "%s accepted an operand distributed over %d ranks", t.nm, world_size());
  }
}

static int mode_la() {
  for (long i = A.a; i < A.b; ++i) {
    if (!next_case(i)) break;
    Rng g(case_seed(i, 17));
    products(g); elementwise(g); factorisations(g); refusals(g); reductions(g); distributed(g);
  }
  return 0;
}
static int dispatch() { return A.mode == "la" ? mode_la() : 2; }
VH_MAIN(dispatch)
