// Random physical problems and the mock callback objects, which double as monitors.
#pragma once
#include <mpi.h>
#include <fstream>
#include <memory>
#include <nlohmann/json.hpp>
#include <sstream>
#include <stdexcept>
#include "common.hpp"
#include "interface.hpp"
#include "nlcglib.hpp"
#ifdef VH_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace vh {

typedef std::pair<int, int> key_t;
extern int g_in_callback;  // >0 while the mock itself runs (MPI calls are then the mock's)
struct CbGuard { CbGuard() { ++g_in_callback; } ~CbGuard() { --g_in_callback; } };

// ================================================================= scenario
struct KPoint {
  key_t key;
  int n, nb;
  double w;
  int pad_rows;   // extra rows in the leading dimension of the caller's arrays
  int rs = 1;     // distance of neighbouring entries in the caller's arrays
  bool rowmajor = false;  // ... which run along a row rather than a column
  int vs = 1;     // stride of the caller's vectors
  Mat S, P, H0;   // operators
  std::vector<Mat> D;  // density observables (Hermitian PSD)
  Mat X0;         // start orbitals, S-orthonormal
  std::vector<int> fperm; // order of the start occupations (empty: identity)
  std::vector<double> e;  // generalised eigenvalues of (H0,S), all n, ascending
};

enum EKind { LINEAR = 0, CONVEX = 1, ROUGH = 2, NOISY = 3 };

struct Scn {
  uint64_t seed = 0;
  std::vector<KPoint> k;
  int smear = FD, occ = 2, Ne = 2, nspin = 1;
  double T = 1000;
  int ekind = LINEAR;
  double U = 0;               // CONVEX
  std::vector<double> rho0;
  double A = 0, om = 0;       // ROUGH/NOISY
  double Eoff = 0;            // constant energy offset
  double tol = 1e-9, kappa = 0.3, tau = 0.1;
  int maxiter = 50, restart = 10;
  int skind = 0, pkind = 0, spec = 0;
  uint64_t shuffle = 0;       // != 0: each collection lists its entries in an order of its own
  std::vector<int> order;     // order in which entries are listed by the caller's collections
  double kT() const { return KB * T; }
  bool degenerate = false;
  double unit = 1;
  std::string desc() const {
    std::string ks;
    for (auto& x : k)
      ks += fmt("%s[%d,%d]n=%d,nb=%d,w=%.4g,ld+%d,rs%d%s,vs%d", ks.empty() ? "" : " ", x.key.first, x.key.second, x.n, x.nb, x.w, x.pad_rows, x.rs, x.rowmajor ? "T" : "", x.vs);
    return fmt("{\"seed\":%llu,\"smearing\":\"%s\",\"T\":%.6g,\"occ\":%d,\"Ne\":%d,\"E\":%d,\"S\":%d,\"P\":%d,\"spectrum\":%d,\"kappa\":%.4g,\"tau\":%.4g,\"tol\":%.3g,\"maxiter\":%d,\"restart\":%d,\"unit\":%.4g,\"kpoints\":\"%s\"}",
               (unsigned long long)seed, smear_name(smear), T, occ, Ne, ekind, skind, pkind, spec, kappa, tau, tol, maxiter, restart, unit, ks.substr(0, 900).c_str());
  }
  std::string cls() const {  // equivalence class used to count distinct scenarios
    std::string dims;
    for (auto& x : k) dims += fmt("%d.%d.%d_", x.n, x.nb, x.pad_rows);
    return fmt("%s/E%d/S%d/P%d/sp%d/o%d/ne%d/%s", smear_name(smear), ekind, skind, pkind, spec, occ, Ne, dims.c_str());
  }
};

inline void orthonormalise(Mat& X, const Mat& S) {
  // modified Gram-Schmidt in the S metric, twice
  for (int pass = 0; pass < 2; ++pass)
    for (int j = 0; j < X.c; ++j) {
      Mat x(X.r, 1);
      for (int i = 0; i < X.r; ++i) x(i, 0) = X(i, j);
      for (int l = 0; l < j; ++l) {
        Mat y(X.r, 1);
        for (int i = 0; i < X.r; ++i) y(i, 0) = X(i, l);
        cd c = hmul(y, mul(S, x))(0, 0);
        for (int i = 0; i < X.r; ++i) x(i, 0) -= c * y(i, 0);
      }
      double nn = std::sqrt(hmul(x, mul(S, x))(0, 0).real());
      for (int i = 0; i < X.r; ++i) X(i, j) = x(i, 0) / nn;
    }
}

inline Mat rnd_hpd(Rng& g, int n, double spread) {  // well conditioned HPD
  Mat R = rnd(g, n, n, spread / std::sqrt(2.0 * n));
  Mat B = add(eye(n), R);
  Mat H = hmul(B, B);
  for (int i = 0; i < n; ++i) H(i, i) = H(i, i).real();
  return add(H, eye(n), 0.2);
}

struct GenOpt {
  std::vector<int> smears{FD, GS, GAUSS, MP, COLD};
  std::vector<int> ekinds{LINEAR, CONVEX};
  int max_keys = 6;
  int nmax = 14;
  double Tmin = 300, Tmax = 60000;
  bool large = false;
  bool pad = true;
  bool oddkeys = true;
  double gap_frac = 0.25;  // probability of an insulator
  bool allow_degenerate = true;
  int maxiter_lo = 5, maxiter_hi = 40;
  double tol_lo = 1e-12, tol_hi = 1e-6;
  double unit = 0;         // probability of another energy unit
  bool wide = false;       // also rare extremes: many k-points, many bands, tiny weights, huge offsets ...
  bool wellposed = false;  // settings for which convergence is expected
};

inline Scn gen(uint64_t seed, const GenOpt& o) {
  Rng g(seed);
  Scn s;
  s.seed = seed;
  s.smear = g.pick(o.smears);
  s.ekind = g.pick(o.ekinds);
  s.nspin = g.p(0.3) ? 2 : 1;
  s.occ = s.nspin == 2 ? 1 : (g.p(0.65) ? 2 : 1);
  int nk = g.p(0.25) ? 1 : g.i(1, std::max(1, o.max_keys / s.nspin));
  s.T = g.logu(o.Tmin, o.Tmax);
  Rng x(seed ^ 0x51deull);
  bool many_k = o.wide && x.p(0.03), many_b = o.wide && !many_k && x.p(0.015), tiny_w = o.wide && x.p(0.08), big_off = o.wide && x.p(0.06),
       full = o.wide && x.p(0.1), hot = o.wide && x.p(0.05);
  if (many_k) nk = x.i(7, 40) / s.nspin;
  if (hot) s.T = x.logu(6e4, 6e5);
  s.skind = g.i(0, 2);
  s.pkind = g.i(0, 2);
  s.spec = g.u() < o.gap_frac ? 1 : g.pick(std::vector<int>{0, 0, 0, 3, o.allow_degenerate ? 2 : 0, o.allow_degenerate ? 4 : 0});
  s.degenerate = s.spec == 2 || s.spec == 4;
  int nb0 = o.large ? g.i(12, 30) : (g.p(0.1) && !o.wellposed ? 1 : g.i(2, 6));
  if (many_k) nb0 = x.i(1, 3);
  if (many_b) { nk = 1; nb0 = x.i(31, 72); }
  bool vary_nb = g.p(0.2);
  double wsum = 0;
  std::vector<double> w(nk);
  bool uneven = g.p(0.6);
  for (auto& x : w) { x = uneven ? g.u(0.2, 2.0) : 1.0; wsum += x; }
  if (tiny_w) {
    wsum = 0;
    for (auto& y : w) { y = x.logu(1e-3, 1); wsum += y; }
  }
  if (o.wide && x.p(0.06)) wsum *= 1 + x.u(-6e-4, 6e-4);  // not exactly normalised
  for (auto& x : w) x /= wsum;
  int base = o.oddkeys && g.p(0.4) ? g.i(-5, 1000) : 0;
  int stride = o.oddkeys && g.p(0.3) ? g.i(2, 17) : 1;
  bool rev = o.oddkeys && g.p(0.3);
  double shift = g.p(0.3) ? g.u(-30, 30) : g.u(-0.5, 0.5);
  int nobs = g.i(1, 3);
  double cap = 0;
  int padmode = o.pad ? g.i(0, 2) : 0;
  for (int ik = 0; ik < nk; ++ik)
    for (int is = 0; is < s.nspin; ++is) {
      KPoint kp;
      kp.key = {base + stride * (rev ? nk - 1 - ik : ik), o.oddkeys && (seed >> 11) % 6 == 0 ? 3 * is - (int)((seed >> 20) % 7) + 4 : is};
      kp.nb = nb0 + (vary_nb ? g.i(0, 2) : 0);
      bool square = !o.wellposed && g.p(0.05);
      kp.n = square ? kp.nb : kp.nb + (o.large || many_b ? g.i(10, 60) : g.i(1, std::max(2, (many_k ? 6 : o.nmax) - kp.nb)));
      kp.w = w[ik];
      kp.pad_rows = padmode == 0 ? 0 : (padmode == 1 ? g.i(0, 3) : g.i(1, 9));
      cap += kp.w * kp.nb * s.occ;
      s.k.push_back(std::move(kp));
    }
  // electrons: strictly between 0 and the capacity
  int nemax = (int)std::floor(cap - 0.3), nemin = 1;
  if (nemax < nemin) {  // capacity too small (nb==1, occ==1): enlarge bands
    for (auto& kp : s.k) { kp.nb += 2; kp.n += 2; }
    cap = 0;
    for (auto& kp : s.k) cap += kp.w * kp.nb * s.occ;
    nemax = (int)std::floor(cap - 0.3);
  }
  s.Ne = g.i(nemin, std::max(nemin, std::min(nemax, (int)std::ceil(0.8 * cap))));
  s.Ne = std::min(s.Ne, nemax);
  if (full) s.Ne = nemax;
  double filled = s.Ne / cap;  // mean fraction of filled bands
  for (auto& kp : s.k) {
    int n = kp.n, nb = kp.nb;
    Mat B;
    if (s.skind == 0) B = eye(n);
    else if (s.skind == 1) { B = eye(n); for (int i = 0; i < n; ++i) B(i, i) = g.u(0.7, 1.5); }
    else B = add(eye(n), rnd(g, n, n, 0.35 / std::sqrt(2.0 * n)));
    kp.S = hmul(B, B);
    for (int i = 0; i < n; ++i) kp.S(i, i) = kp.S(i, i).real();
    // eigenvalues
    std::vector<double> e(n);
    double width = s.spec == 3 ? 6.0 : 1.0;
    for (auto& x : e) x = g.u(0, width);
    std::sort(e.begin(), e.end());
    if (s.spec == 2) for (int i = 0; i < n; ++i) e[i] = std::round(e[i] * 4) / 4;           // exactly degenerate
    if (s.spec == 4) for (int i = 1; i < n; i += 2) e[i] = e[i - 1] + 1e-12 * g.i(0, 100);  // nearly degenerate
    std::sort(e.begin(), e.end());
    if (s.spec == 1) {
      int no = std::max(1, std::min(n - 1, (int)std::lround(filled * nb)));
      for (int i = no; i < n; ++i) e[i] += 0.6;
    }
    if (o.wellposed)  // keep the bands inside separated from those outside
      for (int i = nb; i < n; ++i) e[i] += 0.25;
    for (auto& x : e) x += shift;
    std::sort(e.begin(), e.end());
    kp.e = e;
    // H0 = B^H V diag(e) V^H B
    Mat V = rnd(g, n, n);
    orthonormalise(V, eye(n));
    Mat VB = hmul(V, B);
    Mat DV = VB;
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) DV(i, j) *= e[i];
    kp.H0 = hmul(VB, DV);
    Mat Hh = herm(kp.H0);
    kp.H0 = add(kp.H0, Hh);
    for (auto& x : kp.H0.a) x *= 0.5;
    // preconditioner
    if (s.pkind == 0) kp.P = eye(n);
    else if (s.pkind == 1) { kp.P = eye(n); for (int i = 0; i < n; ++i) kp.P(i, i) = g.u(0.4, 1.8); }
    else kp.P = rnd_hpd(g, n, 0.4);
    if (s.spec == 3) for (auto& x : kp.P.a) x *= 0.25;
    for (int m = 0; m < nobs; ++m) {
      Mat q = rnd(g, n, 1, 1.0 / std::sqrt(2.0 * n));
      kp.D.push_back(mul(q, herm(q)));
      for (auto& x : kp.D.back().a) x *= 2.0;
    }
    kp.X0 = rnd(g, n, nb);
    orthonormalise(kp.X0, kp.S);
  }
  if (s.ekind == CONVEX) {
    s.U = g.u(0.05, 0.4);
    for (int m = 0; m < nobs; ++m) s.rho0.push_back(g.u(0, 0.5));
  }
  if (s.ekind == ROUGH) { s.om = g.logu(3, 60); s.A = g.u(0.3, 1.6) / s.om; }
  if (s.ekind == NOISY) { s.om = g.logu(1e2, 1e6); s.A = g.logu(1e-7, 1e-2); }
  s.Eoff = g.p(0.3) ? g.u(-100, 100) : 0;
  if (big_off) s.Eoff = (x.p(0.5) ? -1 : 1) * x.logu(1e2, 1e5);
  s.kappa = o.wellposed ? g.u(0.15, 0.4) : g.logu(0.02, 1.0);
  s.tau = g.p(0.5) ? 0.1 : g.u(0.05, 0.7);
  s.tol = g.logu(o.tol_lo, o.tol_hi);
  s.maxiter = g.i(o.maxiter_lo, o.maxiter_hi);
  if (many_b) s.maxiter = std::min(s.maxiter, 4);
  if (many_k) s.maxiter = std::min(s.maxiter, 12);
  s.restart = g.pick(std::vector<int>{1, 2, 3, 5, 7, 10, 10, 20, 1000});
  if (x.p(o.wide ? 0.08 : o.unit)) {
    double f = x.logu(1e-3, 10);
    for (auto& kp : s.k) {
      for (auto& v : kp.H0.a) v *= f;
      for (auto& v : kp.P.a) v /= f;
      for (auto& v : kp.e) v *= f;
    }
    s.U *= f; s.T *= f; s.Eoff *= f; s.A *= f; s.om /= f; s.tol *= f; s.unit = f;
  }
  s.order.resize(s.k.size());
  for (size_t i = 0; i < s.k.size(); ++i) s.order[i] = (int)i;
  if (g.p(0.5)) for (size_t i = s.order.size(); i > 1; --i) std::swap(s.order[i - 1], s.order[g.next() % i]);
  return s;
}

// ================================================================= guarded arrays
// Array with canaries around it and in the padding rows.
struct Guarded {
  int rows, cols, s0, s1;
  static constexpr int G = 8;
  std::vector<cd> raw;
  std::vector<char> inside;
  Guarded(int r, int c, int pad, int rs = 1, bool rowmajor = false) : rows(r), cols(c) {
    s0 = rowmajor ? c * rs + pad : rs;
    s1 = rowmajor ? rs : r * rs + pad;
    size_t n = rowmajor ? (size_t)s0 * r : (size_t)s1 * c;
    raw.resize(n + 2 * G);
    inside.assign(raw.size(), 0);
    for (size_t i = 0; i < raw.size(); ++i) raw[i] = canary(i);
    for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) inside[at(i, j)] = 1;
  }
  size_t at(int i, int j) const { return G + (size_t)i * s0 + (size_t)j * s1; }
  cd canary(size_t i) const { return cd(1e200 + (double)i * 1e190, -3e210); }
  cd* data() { return raw.data() + G; }
  cd& operator()(int i, int j) { return raw[at(i, j)]; }
  long broken() const {  // index of a damaged canary or -1
    for (size_t i = 0; i < raw.size(); ++i) {
      if (inside[i]) continue;
      cd c = canary(i);
      if (std::memcmp(&raw[i], &c, sizeof c)) return (long)i;
    }
    return -1;
  }
  void set(const Mat& m) { for (int j = 0; j < cols; ++j) for (int i = 0; i < rows; ++i) (*this)(i, j) = m(i, j); }
  Mat get() const {
    Mat m(rows, cols);
    for (int j = 0; j < cols; ++j) for (int i = 0; i < rows; ++i) m(i, j) = raw[at(i, j)];
    return m;
  }
};
struct GuardedV {
  int n, st;
  std::vector<double> raw;
  static constexpr int G = 4;
  explicit GuardedV(int n_, int st_ = 1) : n(n_), st(st_), raw((size_t)n_ * st_ + 2 * G, -7.25e222) {}
  double* data() { return raw.data() + G; }
  double& operator[](int i) { return raw[G + (size_t)i * st]; }
  bool broken() const {
    for (size_t i = 0; i < raw.size(); ++i) {
      long q = (long)i - G;
      if (q >= 0 && q < (long)n * st && q % st == 0) continue;
      if (raw[i] != -7.25e222) return true;
    }
    return false;
  }
  std::vector<double> get() const { std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = raw[G + (size_t)i * st]; return v; }
};

// Exceptions the mock callbacks throw: of several types, none of which the library may confuse
// with its own, swallow or replace.
struct Tag { long at; std::string where; };
struct InjectedFault : std::exception, Tag {
  InjectedFault(long a, std::string w) : Tag{a, std::move(w)} {}
  const char* what() const noexcept override { return "injected fault"; }
};
struct InjectedRuntime : std::runtime_error, Tag { InjectedRuntime(long a, std::string w) : std::runtime_error("injected runtime_error"), Tag{a, std::move(w)} {} };
struct InjectedLogic : std::out_of_range, Tag { InjectedLogic(long a, std::string w) : std::out_of_range("injected out_of_range"), Tag{a, std::move(w)} {} };
struct InjectedAlloc : std::bad_alloc, Tag { InjectedAlloc(long a, std::string w) : Tag{a, std::move(w)} {} };
struct InjectedForeign : Tag { InjectedForeign(long a, std::string w) : Tag{a, std::move(w)} {} };  // not a std::exception
struct InjectedInvalid : std::invalid_argument, Tag { InjectedInvalid(long a, std::string w) : std::invalid_argument("injected invalid_argument"), Tag{a, std::move(w)} {} };
struct InjectedSystem : std::system_error, Tag { InjectedSystem(long a, std::string w) : std::system_error(std::make_error_code(std::errc::io_error)), Tag{a, std::move(w)} {} };
struct InjectedBadCall : std::bad_function_call, Tag { InjectedBadCall(long a, std::string w) : Tag{a, std::move(w)} {} };
enum { NFAULT = 8 };
inline const char* fault_name(int k) { const char* n[] = {"std::exception", "std::runtime_error", "std::out_of_range", "std::bad_alloc", "foreign exception", "std::invalid_argument", "std::system_error", "std::bad_function_call"}; return n[k]; }
[[noreturn]] inline void throw_fault(int kind, long at, const char* w) {
  switch (kind) {
    case 1: throw InjectedRuntime(at, w);
    case 2: throw InjectedLogic(at, w);
    case 3: throw InjectedAlloc(at, w);
    case 4: throw InjectedForeign(at, w);
    case 5: throw InjectedInvalid(at, w);
    case 6: throw InjectedSystem(at, w);
    case 7: throw InjectedBadCall(at, w);
    default: throw InjectedFault(at, w);
  }
}

// ================================================================= run record
struct Acc {            // an accepted state, recorded at print_info()
  long ev;              // index of the evaluation that produced it
  double E, mu, F, Sent;  // F, Sent (= -kT S): NaN if not recomputable (MP, cold)
  std::vector<std::vector<double>> f;
  std::vector<Mat> X;
};
struct Rec {
  nlcglib::nlcg_info info{};
  bool returned = false;
  bool fault = false;       // InjectedFault arrived
  bool fault_identity = false;
  std::string fault_where;
  std::string exc;          // message of another exception
  std::string exc_type;
  std::vector<Acc> acc;
  std::vector<nlohmann::json> js;
  bool json_ok = true, json_missing = false;
  std::string json_err;
  long evals = 0, callbacks = 0, sapply = 0, papply = 0;
  std::vector<double> evalF;  // free energy of each evaluation (monotone smearings)
  std::vector<double> evalE;
  Acc last;                 // state in the energy object at return
  bool last_clean = true;   // no set_fn without compute pending
  double mu_last = 0;
  double worst_orth = 0;
};

// ================================================================= mocks
struct Ctx;
struct Ctx {
  const Scn* s = nullptr;
  std::vector<int> local;   // indices into s->k handled by this rank, in listing order
  MPI_Comm comm = MPI_COMM_SELF;
  int rank = 0, nranks = 1;
  // arrays, by position in `local`
  std::vector<std::unique_ptr<Guarded>> X, HX, SX;
  std::vector<std::unique_ptr<GuardedV>> fn, ek;
  std::vector<Mat> HXcopy;
  std::vector<std::vector<double>> fncopy, ekcopy;
  double Etot = 0, mu = 0;
  long since_accept = 0;
  long ncompute = 0, nsetfn = 0, setfn_since = 0, setmu_since = 0, cb = 0;
  bool dirty = false;      // occupations set but not evaluated yet
  bool mu_dirty = false;
  long fault_at = -1;
  int fault_kind = 0;
  Rec* rec = nullptr;
  double orth_tol = 1e-10;
  double worst_orth = 0;
  std::vector<double> opnorm;  // largest |operand|^2 of the overlap since the last evaluation
  // current evaluation
  std::vector<Mat> curX;
  double curS = NAN, curF = NAN;
  std::vector<Mat> accX;
  // lying hook: modifies the reported energy
  std::function<double(Ctx&, double)> lie;
  std::function<void(Ctx&)> on_eval;     // after each evaluation
  std::function<void(Ctx&)> on_accept;   // at print_info
  bool keepX = false;

  void tick(const char* where) {
    long c = cb++;
    if (rec) rec->callbacks = cb;
    if (c == fault_at) { if (rec) rec->fault_where = where; throw_fault(fault_kind, c, where); }
  }
  const KPoint& kp(int l) const { return s->k[local[l]]; }
  // entry i of collection `kind` is k-point pos(kind, i) of this rank
  std::vector<std::vector<int>> perm;
  int pos(int kind, int i) const { return perm.empty() || i < 0 || i >= (int)local.size() ? i : perm[kind][i]; }
  int find(key_t key) const {
    for (size_t l = 0; l < local.size(); ++l) if (kp((int)l).key == key) return (int)l;
    return -1;
  }
  double reduce(double v) const {
    if (nranks == 1) return v;
    double r;
    MPI_Allreduce(&v, &r, 1, MPI_DOUBLE, MPI_SUM, comm);
    return r;
  }
  void setup(const Scn& sc, const std::vector<int>& loc, MPI_Comm c) {
    s = &sc; local = loc; comm = c;
    MPI_Comm_rank(c, &rank);
    MPI_Comm_size(c, &nranks);
    X.clear(); HX.clear(); SX.clear(); fn.clear(); ek.clear();
    perm.clear();
    if (sc.shuffle) {
      Rng g(sc.shuffle);
      for (int w = 0; w < 8; ++w) {
        std::vector<int> p(local.size());
        for (size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
        for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[g.next() % i]);
        perm.push_back(p);
      }
    }
    for (size_t l = 0; l < local.size(); ++l) {
      const KPoint& k = kp((int)l);
      X.emplace_back(new Guarded(k.n, k.nb, k.pad_rows, k.rs, k.rowmajor));
      HX.emplace_back(new Guarded(k.n, k.nb, k.pad_rows ? k.pad_rows + 1 : 0, k.rs, k.rowmajor));
      SX.emplace_back(new Guarded(k.n, k.nb, 0));
      fn.emplace_back(new GuardedV(k.nb, k.vs));
      ek.emplace_back(new GuardedV(k.nb, k.vs));
      X.back()->set(k.X0);
      // naive start occupations: aufbau by index, not meant to be consistent
      for (int i = 0; i < k.nb; ++i) (*fn.back())[i] = s->occ * ((k.fperm.empty() ? i : k.fperm[i]) < k.nb / 2 ? 1.0 : 0.3);
    }
    curX.assign(local.size(), Mat());
    opnorm.assign(local.size(), 0.0);
    accX = curX;
    HXcopy.assign(local.size(), Mat());
    fncopy.assign(local.size(), {});
    ekcopy.assign(local.size(), {});
    snapshot();
    Etot = 0; mu = 0; ncompute = nsetfn = setfn_since = setmu_since = cb = since_accept = 0; dirty = mu_dirty = false;
  }
  void snapshot() {
    for (size_t l = 0; l < local.size(); ++l) {
      HXcopy[l] = HX[l]->get();
      fncopy[l] = fn[l]->get();
      ekcopy[l] = ek[l]->get();
    }
  }
  static bool same(const std::vector<double>& a, const std::vector<double>& b) {
    return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double)));
  }
  // caller-owned arrays must be untouched, except the described elements of X
  void guards(const char* when) {
    for (size_t l = 0; l < local.size(); ++l) {
      rep().stat("guard_checks");
      if (X[l]->broken() >= 0) rep().viol("C10", "pad-X", "padding of orbital array of key %d,%d overwritten (%s)", kp(l).key.first, kp(l).key.second, when);
      if (HX[l]->broken() >= 0) rep().viol("C10", "pad-HX", "padding of H|psi> array overwritten (%s)", when);
      if (fn[l]->broken() || ek[l]->broken()) rep().viol("C10", "pad-vec", "memory around eigenvalue/occupation arrays overwritten (%s)", when);
      Mat h = HX[l]->get();
      if (std::memcmp(h.a.data(), HXcopy[l].a.data(), h.a.size() * sizeof(cd))) rep().viol("C10", "write-HX", "the caller's H|psi> array was modified (%s)", when);
      if (!same(fn[l]->get(), fncopy[l])) rep().viol("C10", "write-fn", "the caller's occupation array was modified (%s)", when);
      if (!same(ek[l]->get(), ekcopy[l])) rep().viol("C10", "write-ek", "the caller's eigenvalue array was modified (%s)", when);
    }
  }
};

inline double entropy_kT(const Ctx& c) {  // -kT*S over all ranks from the occupations
  if (!monotone(c.s->smear)) return NAN;
  ld S = 0;
  for (size_t l = 0; l < c.local.size(); ++l) {
    ld sk = 0;
    for (double f : c.fn[l]->get()) sk += c.s->occ * entropy_of_f(c.s->smear, (ld)f / c.s->occ);
    S += c.kp(l).w * sk;
  }
  return -c.s->kT() * c.reduce((double)S);
}

template <class B, int dim, class T> struct Coll;  // unused

struct MatColl : nlcglib::MatrixBaseZ {
  Ctx& c; int which; int bad_at = -2; MPI_Comm entry_comm = MPI_COMM_SELF;
  MatColl(Ctx& c_, int w) : c(c_), which(w) {}
  Guarded& at(int i) const { return which == 0 ? *c.X[i] : which == 1 ? *c.HX[i] : *c.SX[i]; }
  buffer_t get(int i) override { return make(i); }
  const buffer_t get(int i) const override { return make(i); }
  buffer_t make(int i) const {
    CbGuard g;
    c.tick("matrix.get");
    if (i < 0 || i >= (int)c.local.size()) { rep().viol("C12", "entry-index", "entry %d of %zu requested", i, c.local.size()); throw std::out_of_range("entry"); }
    Guarded& a = at(c.pos(which, i));
    return buffer_t({a.s0, a.s1}, {a.rows, a.cols}, a.data(), bad_at == -1 || bad_at == i ? nlcglib::memory_type::device : nlcglib::memory_type::host, entry_comm);
  }
  int size() const override { CbGuard g; c.tick("matrix.size"); return (int)c.local.size(); }
  MPI_Comm mpicomm(int) const override { return entry_comm; }
  MPI_Comm mpicomm() const override { CbGuard g; c.tick("matrix.mpicomm"); return c.comm; }
  kindex_t kpoint_index(int i) const override { CbGuard g; c.tick("matrix.key"); return c.kp(c.pos(which, i)).key; }
};
struct VecColl : nlcglib::VectorBaseZ {
  Ctx& c; int which; int bad_at = -2;
  VecColl(Ctx& c_, int w) : c(c_), which(w) {}
  buffer_t get(int i) override { return make(i); }
  const buffer_t get(int i) const override { return make(i); }
  buffer_t make(int i) const {
    CbGuard g;
    c.tick("vector.get");
    if (i < 0 || i >= (int)c.local.size()) { rep().viol("C12", "entry-index", "entry %d of %zu requested", i, c.local.size()); throw std::out_of_range("entry"); }
    int q = c.pos(3 + which, i);
    GuardedV& a = which == 0 ? *c.fn[q] : *c.ek[q];
    return buffer_t({a.st}, {a.n}, a.data(), bad_at == -1 || bad_at == i ? nlcglib::memory_type::device : nlcglib::memory_type::host);
  }
  int size() const override { CbGuard g; c.tick("vector.size"); return (int)c.local.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { CbGuard g; c.tick("vector.mpicomm"); return c.comm; }
  kindex_t kpoint_index(int i) const override { CbGuard g; c.tick("vector.key"); return c.kp(c.pos(3 + which, i)).key; }
};
struct ScalColl : nlcglib::ScalarBaseZ {
  Ctx& c;
  explicit ScalColl(Ctx& c_) : c(c_) {}
  buffer_t get(int i) override { CbGuard g; c.tick("weight.get"); return c.kp(c.pos(5, i)).w; }
  const buffer_t get(int i) const override { CbGuard g; c.tick("weight.get"); return c.kp(c.pos(5, i)).w; }
  int size() const override { CbGuard g; c.tick("weight.size"); return (int)c.local.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { CbGuard g; c.tick("weight.mpicomm"); return c.comm; }
  kindex_t kpoint_index(int i) const override { CbGuard g; c.tick("weight.key"); return c.kp(c.pos(5, i)).key; }
};

struct MockEnergy : nlcglib::EnergyBase {
  Ctx& c;
  int dev_mat = -2, dev_vec = -2;  // entry in device memory; -1: all of them
  int dev_which = -1;               // of this collection; -1: of all of them
  MPI_Comm entry_comm = MPI_COMM_SELF;
  int ne_override = -1;
  bool ne_set = false;
  explicit MockEnergy(Ctx& c_) : c(c_) {}

  void evaluate() {  // physics
    const Scn& s = *c.s;
    double E0 = 0;
    std::vector<double> rho(s.k[0].D.size(), 0.0);
    std::vector<Mat> h0x(c.local.size());
    for (size_t l = 0; l < c.local.size(); ++l) {
      const KPoint& k = c.kp(l);
      const Mat& X = c.curX[l];
      h0x[l] = mul(k.H0, X);
      for (int i = 0; i < k.nb; ++i) {
        double f = (*c.fn[l])[i], h = 0;
        for (int r = 0; r < k.n; ++r) h += (std::conj(X(r, i)) * h0x[l](r, i)).real();
        E0 += k.w * f * h;
      }
      if (s.ekind == CONVEX)
        for (size_t m = 0; m < k.D.size(); ++m) {
          Mat dx = mul(k.D[m], X);
          for (int i = 0; i < k.nb; ++i) {
            double h = 0;
            for (int r = 0; r < k.n; ++r) h += (std::conj(X(r, i)) * dx(r, i)).real();
            rho[m] += k.w * (*c.fn[l])[i] * h;
          }
        }
    }
    E0 = c.reduce(E0);
    double E = E0, hs = 1;
    std::vector<double> pot(rho.size(), 0.0);
    if (s.ekind == CONVEX)
      for (size_t m = 0; m < rho.size(); ++m) {
        double r = c.reduce(rho[m]);
        E += 0.5 * s.U * (r - s.rho0[m]) * (r - s.rho0[m]);
        pot[m] = s.U * (r - s.rho0[m]);
      }
    if (s.ekind == ROUGH) { E = E0 + s.A * std::sin(s.om * E0); hs = 1 + s.A * s.om * std::cos(s.om * E0); }
    if (s.ekind == NOISY) E = E0 + s.A * std::sin(s.om * E0);
    for (size_t l = 0; l < c.local.size(); ++l) {
      const KPoint& k = c.kp(l);
      Mat hx = h0x[l];
      if (s.ekind == CONVEX)
        for (size_t m = 0; m < k.D.size(); ++m) hx = add(hx, mul(k.D[m], c.curX[l]), pot[m]);
      if (hs != 1) for (auto& v : hx.a) v *= hs;
      c.HX[l]->set(hx);
      c.SX[l]->set(mul(k.S, c.curX[l]));
      for (int i = 0; i < k.nb; ++i) {
        double h = 0;
        for (int r = 0; r < k.n; ++r) h += (std::conj(c.curX[l](r, i)) * hx(r, i)).real();
        (*c.ek[l])[i] = h;
      }
    }
    c.Etot = E + s.Eoff;
  }

  void compute() override {
    CbGuard g;
    c.tick("compute");
    c.guards("compute");
    const Scn& s = *c.s;
    bool first = c.ncompute == 0;
    // one line search: trial steps (factor 5 each, in floating point range) and backtracking (factor tau each)
    if (s.tau > 0 && s.tau < 1 && ++c.since_accept > 330 + std::log(2e7) / -std::log(s.tau)) {
      rep().viol("C21", "unbounded", "%ld evaluations since the last accepted state; %s", c.since_accept, s.desc().c_str());
      throw std::runtime_error("mock: unbounded line search");
    }
    if (!first && c.setfn_since == 0) rep().viol("C12", "no-set_fn", "evaluation %ld requested without setting occupations since the previous one", c.ncompute);
    if (!first && c.mu_dirty) rep().viol("C12", "no-set_mu", "evaluation %ld: chemical potential of the previous state was never set", c.ncompute);
    double worst = 0;
    for (size_t l = 0; l < c.local.size(); ++l) {
      const KPoint& k = c.kp(l);
      c.curX[l] = c.X[l]->get();
      if (!finite(c.curX[l])) rep().viol("C04", "nan-X", "orbitals of key %d,%d contain NaN/Inf at evaluation %ld", k.key.first, k.key.second, c.ncompute);
      Mat o = hmul(c.curX[l], mul(k.S, c.curX[l]));
      double d = dist(o, eye(k.nb));
      worst = std::max(worst, d);
      rep().stat("orth_checks");
      // huge steps: the Gram matrix of X + tZ has condition ~ |X + tZ|^2
      double tol = std::max(c.orth_tol, 2e-14 * c.opnorm[l]);
      c.opnorm[l] = 0;
      c.worst_orth = std::max(c.worst_orth, d / tol);
      if (!(d < tol)) rep().viol("C04", "not-orthonormal", "evaluation %ld key %d,%d: |X^H S X - 1| = %.3e; %s", c.ncompute, k.key.first, k.key.second, d, s.desc().c_str());
    }
    if (!first) {
      double N = 0;
      for (size_t l = 0; l < c.local.size(); ++l) for (double f : c.fn[l]->get()) N += c.kp(l).w * f;
      N = c.reduce(N);
      double err = std::abs(N - s.Ne);
      double lim = monotone(s.smear) ? 1e-10 : 1.01e-2;
      rep().stat("electron_checks");
      if (!(err < lim)) rep().viol("C05", "electron-count", "evaluation %ld: weighted occupations sum to %.15g, expected %d; %s", c.ncompute, N, s.Ne, s.desc().c_str());
      for (size_t l = 0; l < c.local.size(); ++l)
        for (double f : c.fn[l]->get()) {
          if (!std::isfinite(f) || (monotone(s.smear) && (f < -1e-14 || f > s.occ + 1e-14)) || f < -0.2 * s.occ || f > 1.2 * s.occ)
            rep().viol("C05", "occ-range", "evaluation %ld: occupation %.17g outside [0,%d]", c.ncompute, f, s.occ);
        }
    }
    evaluate();
    if (c.lie) c.Etot = c.lie(c, c.Etot);
    c.curS = entropy_kT(c);
    c.curF = c.Etot + c.curS;
    c.snapshot();
    c.dirty = false;
    c.mu_dirty = !first;
    c.setfn_since = 0;
    c.setmu_since = 0;
    c.ncompute++;
    if (c.rec) { c.rec->evals = c.ncompute; c.rec->evalF.push_back(c.curF); c.rec->evalE.push_back(c.Etot); }
    if (c.on_eval) c.on_eval(c);
    rep().stat("evaluations_monitored");
  }
  int nelectrons() override { CbGuard g; c.tick("nelectrons"); return ne_set ? ne_override : c.s->Ne; }
  int occupancy() override { CbGuard g; c.tick("occupancy"); return c.s->occ; }
  void need_clean(const char* what) {
    if (c.ncompute == 0) rep().viol("C12", "read-before-eval", "%s read before any evaluation", what);
    if (c.dirty) rep().viol("C12", "stale-read", "%s read after new occupations were set but before the evaluation", what);
  }
  double get_total_energy() override { CbGuard g; c.tick("get_total_energy"); need_clean("total energy"); return c.Etot; }
  std::map<std::string, double> get_energy_components() override {
    CbGuard g; c.tick("get_energy_components"); need_clean("energy components");
    std::map<std::string, double> m{{"total", c.Etot}, {"eval", (double)c.ncompute}, {"twice", 2 * c.Etot}};
    if (c.ncompute % 3 == 1) m["sometimes"] = -c.Etot;  // an energy object need not report the same terms every time
    return m;
  }
  std::shared_ptr<nlcglib::MatrixBaseZ> mk(int w) { auto p = std::make_shared<MatColl>(c, w); p->bad_at = dev_which < 0 || dev_which == w ? dev_mat : -2; p->entry_comm = entry_comm; return p; }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_hphi(nlcglib::memory_type m) override { CbGuard g; c.tick("get_hphi"); need_clean("H|psi>"); memcheck(m); return mk(1); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_sphi(nlcglib::memory_type m) override { CbGuard g; c.tick("get_sphi"); need_clean("S|psi>"); memcheck(m); return mk(2); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_C(nlcglib::memory_type m) override { CbGuard g; c.tick("get_C"); memcheck(m); return mk(0); }
  void memcheck(nlcglib::memory_type m) { if (m != nlcglib::memory_type::host) rep().viol("C12", "memtype", "host run asked for memory type %d", (int)m); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_fn() override { CbGuard g; c.tick("get_fn"); auto p = std::make_shared<VecColl>(c, 0); p->bad_at = dev_which < 0 || dev_which == 0 ? dev_vec : -2; return p; }
  std::shared_ptr<nlcglib::VectorBaseZ> get_ek() override { CbGuard g; c.tick("get_ek"); need_clean("band energies"); auto p = std::make_shared<VecColl>(c, 1); p->bad_at = dev_which < 0 || dev_which == 1 ? dev_vec : -2; return p; }
  std::shared_ptr<nlcglib::VectorBaseZ> get_gkvec_ekin() override { CbGuard g; c.tick("get_gkvec_ekin"); return std::make_shared<VecColl>(c, 1); }
  std::shared_ptr<nlcglib::ScalarBaseZ> get_kpoint_weights() override { CbGuard g; c.tick("get_kpoint_weights"); return std::make_shared<ScalColl>(c); }
  void set_fn(const std::vector<std::pair<int, int>>& keys, const std::vector<std::vector<double>>& v) override {
    CbGuard g;
    c.tick("set_fn");
    c.guards("set_fn");
    std::set<key_t> seen;
    if (keys.size() != v.size()) rep().viol("C12", "set_fn-size", "%zu keys but %zu occupation vectors", keys.size(), v.size());
    for (size_t i = 0; i < std::min(keys.size(), v.size()); ++i) {
      int l = c.find(keys[i]);
      if (l < 0) { rep().viol("C12", "set_fn-key", "occupations set for unknown key %d,%d", keys[i].first, keys[i].second); continue; }
      if (!seen.insert(keys[i]).second) rep().viol("C12", "set_fn-dup", "occupations of key %d,%d set twice", keys[i].first, keys[i].second);
      if ((int)v[i].size() != c.kp(l).nb) { rep().viol("C12", "set_fn-len", "key %d,%d: %zu occupations for %d bands", keys[i].first, keys[i].second, v[i].size(), c.kp(l).nb); continue; }
      for (int b = 0; b < c.kp(l).nb; ++b) (*c.fn[l])[b] = v[i][b];
    }
    if (seen.size() != c.local.size()) rep().viol("C12", "set_fn-missing", "occupations set for %zu of %zu k-points", seen.size(), c.local.size());
    if (c.mu_dirty) rep().viol("C12", "no-set_mu", "new occupations set although the chemical potential of evaluation %ld was never set", c.ncompute - 1);
    for (size_t l = 0; l < c.local.size(); ++l) {
      c.fncopy[l] = c.fn[l]->get();
      // results of the previous evaluation are no longer available
      for (int i = 0; i < c.kp(l).nb; ++i) (*c.ek[l])[i] = NAN;
      for (int j = 0; j < c.kp(l).nb; ++j) for (int r = 0; r < c.kp(l).n; ++r) (*c.HX[l])(r, j) = cd(NAN, NAN);
      c.ekcopy[l] = c.ek[l]->get();
      c.HXcopy[l] = c.HX[l]->get();
    }
    c.dirty = true;
    c.nsetfn++;
    c.setfn_since++;
  }
  void set_chemical_potential(double mu) override {
    CbGuard g;
    c.tick("set_chemical_potential");
    if (!std::isfinite(mu)) rep().viol("C12", "mu-nan", "chemical potential %g set", mu);
    c.mu = mu;
    c.mu_dirty = false;
    c.setmu_since++;
  }
  double get_chemical_potential() override { CbGuard g; c.tick("get_chemical_potential"); return c.mu; }
  void print_info() const override {
    CbGuard g;
    c.tick("print_info");
    c.since_accept = 0;
    if (c.dirty) rep().viol("C12", "report-dirty", "state reported between setting occupations and evaluation");
    if (c.mu_dirty) rep().viol("C12", "report-mu", "state reported before its chemical potential was set");
    c.accX.resize(c.local.size());
    for (size_t l = 0; l < c.local.size(); ++l) {
      c.accX[l] = c.X[l]->get();
      if (c.ncompute && dist(c.accX[l], c.curX[l]) > 0) rep().viol("C12", "report-X", "orbitals in the energy object at an iteration report are not the ones last evaluated (diff %.2e)", dist(c.accX[l], c.curX[l]));
    }
    if (c.rec) {
      Acc a;
      a.ev = c.ncompute - 1; a.E = c.Etot; a.mu = c.mu; a.Sent = c.curS; a.F = c.curF;
      for (auto& f : c.fn) a.f.push_back(f->get());
      if (c.keepX) a.X = c.accX;
      c.rec->acc.push_back(std::move(a));
    }
    if (c.on_accept) c.on_accept(c);
  }
};

// ---- operators
// A buffer passed to apply() must be plain host memory of the k-point's shape.
inline bool check_op_buffers(const char* op, const Ctx& c, key_t key, const nlcglib::MatrixBaseZ::buffer_t& out, const nlcglib::MatrixBaseZ::buffer_t& in) {
  int l = c.find(key);
  rep().stat("operator_checks");
  if (l < 0) { rep().viol("C13", "key", "%s applied with unknown key %d,%d", op, key.first, key.second); return false; }
  const KPoint& k = c.kp(l);
  bool ok = true;
  for (auto* b : {&in, &out}) {
    const char* nm = b == &in ? "operand" : "result";
    if (b->size[0] != k.n || b->size[1] < 1 || b->size[1] > k.nb) { rep().viol("C13", "shape", "%s key %d,%d: %s is %dx%d, k-point has n=%d, %d bands", op, key.first, key.second, nm, b->size[0], b->size[1], k.n, k.nb); ok = false; }
    if (b->stride[0] != 1 || b->stride[1] < b->size[0]) { rep().viol("C13", "stride", "%s: %s has strides %d,%d", op, nm, b->stride[0], b->stride[1]); ok = false; }
    if (!b->data) { rep().viol("C13", "null", "%s: %s is null", op, nm); ok = false; }
    if (b->memtype != nlcglib::memory_type::host) { rep().viol("C13", "memtype", "%s: %s memory type %d", op, nm, (int)b->memtype); ok = false; }
    int sz = 0;
    if (b->mpi_comm == MPI_COMM_NULL || (MPI_Comm_size(b->mpi_comm, &sz), sz != 1)) rep().viol("C13", "comm", "%s: %s carries a communicator of size %d", op, nm, sz);
  }
  if (in.size != out.size) { rep().viol("C13", "shape-mismatch", "%s: operand and result differ in shape", op); ok = false; }
  if (!ok) return false;
  const cd *a0 = in.data, *a1 = in.data + (size_t)in.stride[1] * (in.size[1] - 1) + in.size[0];
  const cd *b0 = out.data, *b1 = out.data + (size_t)out.stride[1] * (out.size[1] - 1) + out.size[0];
  if (a0 < b1 && b0 < a1) { rep().viol("C13", "overlap", "%s: operand and result overlap", op); return false; }
#ifdef VH_ASAN
  for (int j = 0; j < in.size[1]; ++j) {
    if (__asan_region_is_poisoned((void*)(in.data + (size_t)in.stride[1] * j), in.size[0] * sizeof(cd))) { rep().viol("C13", "asan-in", "%s: operand not addressable", op); return false; }
    if (__asan_region_is_poisoned((void*)(out.data + (size_t)out.stride[1] * j), out.size[0] * sizeof(cd))) { rep().viol("C13", "asan-out", "%s: result not addressable", op); return false; }
  }
#endif
  return true;
}
inline Mat fetch(const nlcglib::MatrixBaseZ::buffer_t& b) {
  Mat m(b.size[0], b.size[1]);
  for (int j = 0; j < m.c; ++j) for (int i = 0; i < m.r; ++i) m(i, j) = b.data[(size_t)j * b.stride[1] + i * b.stride[0]];
  return m;
}
inline void store(nlcglib::MatrixBaseZ::buffer_t& b, const Mat& m) {
  for (int j = 0; j < m.c; ++j) for (int i = 0; i < m.r; ++i) b.data[(size_t)j * b.stride[1] + i * b.stride[0]] = m(i, j);
}

// How badly does `in` fit key l?  0: it belongs there, ~1: it does not.
// Overlap: the library applies S to X + tZ with Z tangent, i.e. X^H S in = 1.
inline double misfit_S(const Ctx& c, int l, const Mat& in) {
  const KPoint& k = c.kp(l);
  if (in.r != k.n || in.c != k.nb) return 1;
  double best = 1;
  for (const std::vector<Mat>* set : {&c.curX, &c.accX}) {
    const Mat& X = (*set)[l];
    if (X.r != k.n) continue;
    best = std::min(best, dist(hmul(mul(k.S, X), in), eye(k.nb)) / (1 + maxabs(in)));
  }
  return best;
}
// Preconditioner: operands lie in span(SX, HX). *proper: the span is not the whole space.
inline double misfit_P(const Ctx& c, int l, const Mat& in, bool* proper) {
  const KPoint& k = c.kp(l);
  *proper = false;
  if (in.r != k.n || c.curX[l].r != k.n) return 1;
  Mat B(k.n, 2 * k.nb);
  Mat sx = mul(k.S, c.curX[l]), hx = c.HXcopy[l];
  for (int j = 0; j < k.nb; ++j) for (int i = 0; i < k.n; ++i) { B(i, j) = sx(i, j); B(i, k.nb + j) = hx(i, j); }
  std::vector<std::vector<cd>> q;  // Gram-Schmidt with rank detection
  for (int j = 0; j < B.c; ++j) {
    std::vector<cd> v(B.a.begin() + (size_t)j * B.r, B.a.begin() + (size_t)(j + 1) * B.r);
    double n0 = 0; for (auto& x : v) n0 += std::norm(x);
    for (int p = 0; p < 2; ++p) for (auto& u : q) { cd d = 0; for (int i = 0; i < B.r; ++i) d += std::conj(u[i]) * v[i]; for (int i = 0; i < B.r; ++i) v[i] -= d * u[i]; }
    double n1 = 0; for (auto& x : v) n1 += std::norm(x);
    if (n1 > 1e-18 * n0) { double f = 1 / std::sqrt(n1); for (auto& x : v) x *= f; q.push_back(v); }
  }
  *proper = (int)q.size() < k.n;
  double res = 0, tot = 0;
  for (int j = 0; j < in.c; ++j) {
    std::vector<cd> v(in.a.begin() + (size_t)j * in.r, in.a.begin() + (size_t)(j + 1) * in.r);
    for (auto& x : v) tot += std::norm(x);
    for (auto& u : q) { cd d = 0; for (int i = 0; i < B.r; ++i) d += std::conj(u[i]) * v[i]; for (int i = 0; i < B.r; ++i) v[i] -= d * u[i]; }
    for (auto& x : v) res += std::norm(x);
  }
  return tot > 1e-20 ? std::sqrt(res / tot) : 0;
}

template <class Base> struct MockOp : Base {
  Ctx& c; bool is_S; bool check_owner = true;
  long* counter;
  MockOp(Ctx& c_, bool s_, long* cnt) : c(c_), is_S(s_), counter(cnt) {}
  void apply(const key_t& key, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override {
    CbGuard g;
    const char* nm = is_S ? "overlap" : "preconditioner";
    c.tick(nm);
    if (counter) ++*counter;
    if (!check_op_buffers(nm, c, key, out, in)) throw std::runtime_error("mock operator: malformed call");
    int l = c.find(key);
    Mat x = fetch(in);
    if (is_S) { double q = fro(x); c.opnorm[l] = std::max(c.opnorm[l], q * q); }
    if (!finite(x)) rep().viol("C13", "nan-operand", "%s key %d,%d: operand contains NaN/Inf", nm, key.first, key.second);
    else if (check_owner && c.ncompute > 1) {
      bool proper = true;
      double mine = is_S ? misfit_S(c, l, x) : misfit_P(c, l, x, &proper);
      rep().stat(mine < 1e-5 ? "operand_owner_confirmed" : "operand_owner_unknown");
      if (mine > 1e-2)
        for (size_t o = 0; o < c.local.size(); ++o) {
          if ((int)o == l) continue;
          double other = is_S ? misfit_S(c, o, x) : misfit_P(c, o, x, &proper);
          if (other < 1e-7 && proper)
            rep().viol("C13", "wrong-kpoint", "%s called with key %d,%d but the operand belongs to key %d,%d (misfit %.1e against %.1e)", nm, key.first, key.second, c.kp(o).key.first, c.kp(o).key.second, mine, other);
        }
    }
    // scribble, then write the result: nothing may depend on the old content of `out`
    Mat nanm(x.r, x.c);
    for (auto& v : nanm.a) v = cd(NAN, NAN);
    store(out, nanm);
    Mat y = mul(is_S ? c.kp(l).S : c.kp(l).P, x);
    store(out, y);
    // the operand must not alias the result in disguise
    Mat x2 = fetch(in);
    if (std::memcmp(x2.a.data(), x.a.data(), x.a.size() * sizeof(cd))) rep().viol("C13", "alias", "%s: writing the result changed the operand", nm);
  }
  std::vector<key_t> get_keys() const override {
    std::vector<key_t> k;
    for (size_t l = 0; l < c.local.size(); ++l) k.push_back(c.kp(c.pos(is_S ? 6 : 7, (int)l)).key);
    return k;
  }
};

// ================================================================= running
inline void read_json(Rec& r, const std::string& file) {
  std::ifstream in(file);
  if (!in) { r.json_missing = true; return; }
  std::stringstream ss;
  ss << in.rdbuf();
  std::string t = ss.str();
  // concatenated documents: split at top-level braces
  int depth = 0; bool str = false, esc = false; size_t b = 0;
  for (size_t i = 0; i < t.size(); ++i) {
    char ch = t[i];
    if (str) { if (esc) esc = false; else if (ch == '\\') esc = true; else if (ch == '"') str = false; continue; }
    if (ch == '"') str = true;
    else if (ch == '{') { if (depth++ == 0) b = i; }
    else if (ch == '}') {
      if (--depth == 0) {
        try { r.js.push_back(nlohmann::json::parse(t.substr(b, i - b + 1))); }
        catch (std::exception& e) { r.json_ok = false; r.json_err = e.what(); return; }
      }
    } else if (depth == 0 && !isspace((unsigned char)ch)) { r.json_ok = false; r.json_err = "garbage between records"; return; }
  }
  if (depth != 0) { r.json_ok = false; r.json_err = "truncated record"; }
}

struct RunOpt {
  bool json = true;
  bool keepX = false;
  int fault_kind = 0;
  long fault_at = -1;
  MPI_Comm comm = MPI_COMM_SELF;
  std::vector<int> local;        // empty: all
  bool use_local = false;
  std::function<double(Ctx&, double)> lie;
  std::function<void(Ctx&)> on_eval, on_accept;
  std::string jsonfile = "nlcg.json";
  bool check_owner = true;
  bool remove_files = true;
  int entry = 0;                 // 0: nlcg_us_cpu, 1: nlcg_us_device_cpu
};

inline nlcglib::smearing_type lib_smear(int s) {
  switch (s) {
    case FD: return nlcglib::smearing_type::FERMI_DIRAC;
    case GS: return nlcglib::smearing_type::GAUSSIAN_SPLINE;
    case GAUSS: return nlcglib::smearing_type::GAUSS;
    case MP: return nlcglib::smearing_type::METHFESSEL_PAXTON;
    default: return nlcglib::smearing_type::COLD;
  }
}

inline Rec run_nlcg(const Scn& s, const RunOpt& o = RunOpt()) {
  Rec r;
  Ctx c;
  std::vector<int> loc = o.use_local ? o.local : s.order;
  c.setup(s, loc, o.comm);
  c.rec = &r;
  c.keepX = o.keepX;
  c.fault_at = o.fault_at;
  c.fault_kind = o.fault_kind;
  c.lie = o.lie;
  c.on_eval = o.on_eval;
  c.on_accept = o.on_accept;
  MockEnergy e(c);
  MockOp<nlcglib::OverlapBase> S(c, true, &r.sapply);
  MockOp<nlcglib::UltrasoftPrecondBase> P(c, false, &r.papply);
  S.check_owner = P.check_owner = o.check_owner;
  try {
    if (o.entry == 1)
      r.info = nlcglib::nlcg_us_device_cpu(e, P, S, lib_smear(s.smear), s.T, s.tol, s.kappa, s.tau, s.maxiter, s.restart);
    else
      r.info = nlcglib::nlcg_us_cpu(e, P, S, lib_smear(s.smear), s.T, s.tol, s.kappa, s.tau, s.maxiter, s.restart);
    r.returned = true;
  } catch (Tag& f) {
    r.fault = true;
    r.fault_identity = f.at == o.fault_at;
  } catch (std::exception& ex) {
    r.exc = ex.what();
    r.exc_type = typeid(ex).name();
  } catch (...) {
    r.exc = "non-standard exception";
    r.exc_type = "?";
  }
  c.guards("return");
  r.worst_orth = c.worst_orth;
  r.last.ev = c.ncompute - 1;
  r.last.E = c.Etot; r.last.mu = c.mu; r.last.F = c.curF; r.last.Sent = c.curS;
  for (size_t l = 0; l < c.local.size(); ++l) { r.last.f.push_back(c.fn[l]->get()); r.last.X.push_back(c.X[l]->get()); }
  r.last_clean = !c.dirty && !c.mu_dirty;
  r.mu_last = c.mu;
  if (r.returned) {
    if (c.dirty) rep().viol("C12", "return-dirty", "returned with occupations set but not evaluated");
    if (c.mu_dirty) rep().viol("C12", "return-mu", "returned without setting the chemical potential of the last state");
    for (size_t l = 0; l < c.local.size(); ++l)
      if (c.ncompute && dist(c.X[l]->get(), c.curX[l]) > 0) rep().viol("C12", "return-X", "orbitals changed after the last evaluation");
  }
  if (o.json && r.returned) read_json(r, o.jsonfile);
  return r;
}

}  // namespace vh
