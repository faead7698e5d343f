// Utilities shared by the harnesses: deterministic RNG, small dense linear algebra (naive, on
// purpose independent of the library), reference smearing functions, violation reporting.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace vh {

typedef std::complex<double> cd;
typedef long double ld;

// ---------------------------------------------------------------- rng
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool p(double pr) { return u() < pr; }
  double g() {
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  cd cg() { double a = g(), b = g(); return cd(a, b); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull));
  return r.next();
}

// ---------------------------------------------------------------- reporting
// Lines understood by run.py:
//   CASE <n>                       a case starts (crash attribution)
//   VIOL <prop> <key> <text>       monitor fired
//   STAT <name> <int>              counters, summed
//   SET <name> <token>             distinct tokens, united
//   SAMPLE <json>                  example case
struct Report {
  long case_no = -1;
  std::map<std::string, int> nviol;
  std::map<std::string, long> stats;
  std::map<std::string, std::set<std::string>> sets;
  int nsample = 0;
  int muted = 0;  ///< >0: do not report (auxiliary runs)
  bool quiet_rank = false;
  double budget = 1e9;  ///< seconds; no new case is started after that
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  bool over() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; }
  bool begin_case(long n) {
    if (over()) { stat("cases_dropped_time"); return false; }
    case_no = n;
    stat("cases");
    if (!quiet_rank) { printf("CASE %ld\n", n); fflush(stdout); }
    return true;
  }
  void viol(const char* prop, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
    if (muted) return;
    std::string k = std::string(prop) + key;
    if (nviol[k]++ > 3) return;
    char buf[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char* c = buf; *c; ++c) if (*c == '\n') *c = ' ';
    printf("VIOL %s %s case=%ld %s\n", prop, key, case_no, buf);
    fflush(stdout);
  }
  void stat(const std::string& n, long v = 1) { stats[n] += v; }
  void token(const std::string& set, const std::string& t) { sets[set].insert(t); }
  void sample(const std::string& js) {
    if (!quiet_rank && nsample++ < 3) printf("SAMPLE %s\n", js.c_str());
  }
  void finish() {
    if (!quiet_rank) for (auto& s : stats) printf("STAT %s %ld\n", s.first.c_str(), s.second);
    if (!quiet_rank) for (auto& s : sets) for (auto& t : s.second) printf("SET %s %s\n", s.first.c_str(), t.c_str());
    printf("DONE\n");
    fflush(stdout);
  }
};
inline Report& rep() { static Report r; return r; }
// Under mpirun every rank reports into a file of its own: the launcher may cut and mix lines.
inline void own_output() {
  const char *d = getenv("VH_RANK_OUT"), *r = getenv("OMPI_COMM_WORLD_RANK");
  if (d && r && !freopen((std::string(d) + "/.rank." + r).c_str(), "w", stdout)) exit(3);
}

// ---------------------------------------------------------------- dense matrices (column major)
struct Mat {
  int r = 0, c = 0;
  std::vector<cd> a;
  Mat() {}
  Mat(int r_, int c_) : r(r_), c(c_), a((size_t)r_ * c_, cd(0)) {}
  cd& operator()(int i, int j) { return a[(size_t)j * r + i]; }
  const cd& operator()(int i, int j) const { return a[(size_t)j * r + i]; }
};
inline Mat mul(const Mat& A, const Mat& B) {
  Mat C(A.r, B.c);
  for (int j = 0; j < B.c; ++j)
    for (int k = 0; k < A.c; ++k) {
      cd b = B(k, j);
      const cd* ap = &A.a[(size_t)k * A.r];
      cd* cp = &C.a[(size_t)j * C.r];
      for (int i = 0; i < A.r; ++i) {
        cp[i] = cd(cp[i].real() + ap[i].real() * b.real() - ap[i].imag() * b.imag(),
                   cp[i].imag() + ap[i].real() * b.imag() + ap[i].imag() * b.real());
      }
    }
  return C;
}
inline Mat herm(const Mat& A) {
  Mat B(A.c, A.r);
  for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) B(j, i) = std::conj(A(i, j));
  return B;
}
inline Mat hmul(const Mat& A, const Mat& B) {  // A^H B
  Mat C(A.c, B.c);
  for (int j = 0; j < B.c; ++j)
    for (int i = 0; i < A.c; ++i) {
      double re = 0, im = 0;
      const cd* x = &A.a[(size_t)i * A.r];
      const cd* y = &B.a[(size_t)j * B.r];
      for (int k = 0; k < A.r; ++k) {
        re += x[k].real() * y[k].real() + x[k].imag() * y[k].imag();
        im += x[k].real() * y[k].imag() - x[k].imag() * y[k].real();
      }
      C(i, j) = cd(re, im);
    }
  return C;
}
inline Mat add(const Mat& A, const Mat& B, cd alpha = 1.0) {
  Mat C = A;
  for (size_t i = 0; i < C.a.size(); ++i) C.a[i] += alpha * B.a[i];
  return C;
}
inline Mat eye(int n) { Mat m(n, n); for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
inline double maxabs(const Mat& A) {
  double m = 0;
  for (auto& x : A.a) { double v = std::abs(x); if (std::isnan(v)) return v; m = std::max(m, v); }
  return m;
}
inline double fro(const Mat& A) { double s = 0; for (auto& x : A.a) s += std::norm(x); return std::sqrt(s); }
inline double dist(const Mat& A, const Mat& B) { return maxabs(add(A, B, -1.0)); }
inline Mat rnd(Rng& g, int r, int c, double sc = 1) { Mat m(r, c); for (auto& x : m.a) x = sc * g.cg(); return m; }
inline bool finite(const Mat& A) { for (auto& x : A.a) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }

// solve A x = B by Gaussian elimination with partial pivoting (A square)
inline Mat solve(Mat A, Mat B) {
  int n = A.r;
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k + 1; i < n; ++i) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
    if (p != k) {
      for (int j = 0; j < n; ++j) std::swap(A(k, j), A(p, j));
      for (int j = 0; j < B.c; ++j) std::swap(B(k, j), B(p, j));
    }
    for (int i = k + 1; i < n; ++i) {
      cd f = A(i, k) / A(k, k);
      if (f == cd(0)) continue;
      for (int j = k; j < n; ++j) A(i, j) -= f * A(k, j);
      for (int j = 0; j < B.c; ++j) B(i, j) -= f * B(k, j);
    }
  }
  for (int j = 0; j < B.c; ++j)
    for (int i = n - 1; i >= 0; --i) {
      cd s = B(i, j);
      for (int k = i + 1; k < n; ++k) s -= A(i, k) * B(k, j);
      B(i, j) = s / A(i, i);
    }
  return B;
}

// Hermitian eigen-decomposition, cyclic Jacobi. Returns ascending eigenvalues, V columns.
inline std::vector<double> eigh(Mat A, Mat* Vout = nullptr) {
  int n = A.r;
  Mat V = eye(n);
  double nrm = fro(A) + 1e-300;
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0;
    for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) off += std::norm(A(i, j));
    if (std::sqrt(off) < 1e-16 * nrm) break;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        cd apq = A(p, q);
        double b = std::abs(apq);
        if (b < 1e-300) continue;
        cd ph = apq / b;
        double app = A(p, p).real(), aqq = A(q, q).real();
        double th = (aqq - app) / (2 * b);
        double t = (th >= 0 ? 1.0 : -1.0) / (std::abs(th) + std::sqrt(th * th + 1));
        double c = 1 / std::sqrt(t * t + 1), s = t * c;
        // rotation: p' = c p - s conj(ph) q ; q' = s ph p + c q   (columns)
        for (int i = 0; i < n; ++i) {
          cd x = A(i, p), y = A(i, q);
          A(i, p) = c * x - s * std::conj(ph) * y;
          A(i, q) = s * ph * x + c * y;
          x = V(i, p); y = V(i, q);
          V(i, p) = c * x - s * std::conj(ph) * y;
          V(i, q) = s * ph * x + c * y;
        }
        for (int i = 0; i < n; ++i) {
          cd x = A(p, i), y = A(q, i);
          A(p, i) = c * x - s * ph * y;
          A(q, i) = s * std::conj(ph) * x + c * y;
        }
      }
  }
  std::vector<int> id(n);
  for (int i = 0; i < n; ++i) id[i] = i;
  std::sort(id.begin(), id.end(), [&](int a, int b) { return A(a, a).real() < A(b, b).real(); });
  std::vector<double> w(n);
  for (int i = 0; i < n; ++i) w[i] = A(id[i], id[i]).real();
  if (Vout) {
    *Vout = Mat(n, n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) (*Vout)(i, j) = V(i, id[j]);
  }
  return w;
}
// f(M) for Hermitian M
template <class F> inline Mat matfun(const Mat& M, F f) {
  Mat V;
  auto w = eigh(M, &V);
  Mat W = V;
  for (int j = 0; j < W.c; ++j) for (int i = 0; i < W.r; ++i) W(i, j) *= f(w[j]);
  return mul(W, herm(V));
}

// ---------------------------------------------------------------- reference smearing (long double)
enum Smear { FD = 0, GS = 1, GAUSS = 2, MP = 3, COLD = 4 };
inline const char* smear_name(int s) { static const char* n[] = {"FD", "GS", "GAUSS", "MP", "COLD"}; return n[s]; }
inline bool monotone(int s) { return s == FD || s == GS || s == GAUSS; }
const ld PI = 3.14159265358979323846264338327950288L;
const double KB = 0.00000316681156340226;

inline ld ref_f(int s, ld x) {
  const ld s2 = sqrtl(2.0L), sp = sqrtl(PI);
  switch (s) {
    case FD: return 1 / (1 + expl(-x));
    case GS: return x <= 0 ? 0.5L * expl(x * (s2 - x)) : 1 - 0.5L * expl(-x * (s2 + x));
    case GAUSS: return 0.5L * erfcl(-x);
    case MP: return 0.5L * (erfcl(-x) + x * expl(-x * x) / sp);
    default: { ld z = x - 1 / s2; return expl(-z * z) / (s2 * sp) + 0.5L * erfcl(1 / s2 - x); }
  }
}
inline ld ref_delta(int s, ld x) {
  const ld s2 = sqrtl(2.0L), sp = sqrtl(PI);
  switch (s) {
    case FD: { ld e = expl(-fabsl(x)); return e / ((1 + e) * (1 + e)); }
    case GS: { ld y = fabsl(x); return 0.5L * expl(-y * (s2 + y)) * (s2 + 2 * y); }
    case GAUSS: return expl(-x * x) / sp;
    case MP: return expl(-x * x) * (1.5L - x * x) / sp;
    default: { ld z = x - 1 / s2; return expl(-z * z) * (2 - s2 * x) / sp; }
  }
}
inline ld ref_dxdelta(int s, ld x) {
  const ld s2 = sqrtl(2.0L), sp = sqrtl(PI);
  switch (s) {
    case FD: { ld e = expl(-fabsl(x)); ld d = e * (1 - e) / ((1 + e) * (1 + e) * (1 + e)); return x > 0 ? -d : d; }
    case GS: {  // y=|x|: d/dy [0.5 e^{-y(s2+y)}(s2+2y)] = 0.5 e^{..} (2-(s2+2y)^2) = -2 e^{..} y (s2+y)
      ld y = fabsl(x); ld d = -2 * expl(-y * (s2 + y)) * y * (s2 + y); return x > 0 ? d : -d; }
    case GAUSS: return -2 * x * expl(-x * x) / sp;
    case MP: return expl(-x * x) * x * (2 * x * x - 5) / sp;
    default: { ld z = x - 1 / s2; return expl(-z * z) * (-2 * z * (2 - s2 * x) - s2) / sp; }
  }
}
inline ld ref_entropy(int s, ld x) {
  const ld s2 = sqrtl(2.0L), sp = sqrtl(PI);
  switch (s) {
    case FD: { ld y = fabsl(x); ld e = expl(-y); return log1pl(e) + y * e / (1 + e); }
    case GS: { ld y = fabsl(x); return 0.25L * (2 * expl(-y * (s2 + y)) * y + expl(0.5L) * sp * erfcl(1 / s2 + y)); }
    case GAUSS: return 0.5L * expl(-x * x) / sp;
    case MP: return expl(-x * x) * (1 - 2 * x * x) / 4 / sp;
    default: { ld z = x - 1 / s2; return expl(-z * z) * (1 - s2 * x) / 2 / sp; }
  }
}
// entropy of an occupation (fraction p = f/occ in [0,1]) for the monotone schemes
inline ld entropy_of_f(int s, ld p) {
  if (p <= 0 || p >= 1) return 0;
  if (s == FD) return -p * logl(p) - (1 - p) * log1pl(-p);
  ld q = p <= 0.5L ? p : 1 - p;  // symmetric: S(x)=S(-x)
  const ld s2 = sqrtl(2.0L);
  ld x;
  if (s == GS) {
    ld L = logl(2 * q);  // x(s2-x)=L, x<=0
    x = (s2 - sqrtl(2 - 4 * L)) / 2;
  } else {
    ld lo = -12, hi = 0;
    for (int i = 0; i < 70; ++i) { ld m = (lo + hi) / 2; (0.5L * erfcl(-m) < q ? lo : hi) = m; }
    x = (lo + hi) / 2;
  }
  return ref_entropy(s, x);
}

// reference chemical potential of a set of levels (monotone smearing): weighted count = Ne
struct Level { double e, w; };
inline ld ref_count(int s, const std::vector<Level>& L, ld mu, ld kT, ld occ) {
  ld n = 0;
  for (auto& l : L) n += l.w * occ * ref_f(s, (mu - l.e) / kT);
  return n;
}
inline ld ref_mu(int s, const std::vector<Level>& L, ld kT, ld occ, ld Ne) {
  ld lo = 1e300, hi = -1e300;
  for (auto& l : L) { lo = std::min<ld>(lo, l.e); hi = std::max<ld>(hi, l.e); }
  lo -= 60 * kT + 1; hi += 60 * kT + 1;
  for (int i = 0; i < 200; ++i) { ld m = (lo + hi) / 2; (ref_count(s, L, m, kT, occ) < Ne ? lo : hi) = m; }
  return (lo + hi) / 2;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

}  // namespace vh
