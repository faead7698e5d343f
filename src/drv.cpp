// Black box driver: runs the minimiser on random problems under the monitors of mock.hpp.
// usage: drv <mode> <seed> <first case> <last case> [key=value ...]
#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>
#include <unistd.h>
#include <chrono>
#include <iostream>
#include <typeinfo>
#include "judge.hpp"
#include "pmpi.hpp"
using namespace vh;

int vh::g_in_callback = 0;

struct Args {
  std::string mode;
  uint64_t seed = 1;
  long a = 0, b = 0;
  std::map<std::string, std::string> kv;
  std::string get(const std::string& k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  long geti(const std::string& k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
};
static Args A;

static std::string prof_name;
static GenOpt profile(const std::string& p, uint64_t h) {
  GenOpt o;
  Rng g(h ^ 0xabcdef);
  if (p == "general") { o.wide = true; o.ekinds = {LINEAR, LINEAR, CONVEX, CONVEX, ROUGH}; if (g.p(0.1)) { o.maxiter_lo = 0; o.maxiter_hi = 2; } }
  else if (p == "rough") { o.wide = g.p(0.3); o.ekinds = {ROUGH, NOISY, NOISY, CONVEX}; o.maxiter_hi = 30; o.smears = {FD, GS, GAUSS}; }
  else if (p == "long") { o.maxiter_lo = 60; o.maxiter_hi = 110; o.tol_lo = o.tol_hi = 1e-16; o.max_keys = 3; o.nmax = 10; o.smears = {FD, GS, GAUSS, FD, MP}; o.ekinds = {LINEAR, CONVEX, ROUGH}; o.Tmin = 2000; }
  else if (p == "large") { o.large = true; o.max_keys = 2; o.maxiter_lo = 3; o.maxiter_hi = 6; }
  else if (p == "well") { o.wellposed = true; o.smears = {FD, GS, GAUSS}; o.Tmin = g.p(0.3) ? 3000 : 25000; o.Tmax = 120000; o.maxiter_lo = o.maxiter_hi = 300; o.tol_lo = 5e-9; o.tol_hi = 1e-6; o.allow_degenerate = true; o.nmax = 12; o.max_keys = 4; }
  else if (p == "cold") { o.Tmin = 10; o.Tmax = 500; o.gap_frac = 0.9; o.maxiter_hi = 15; }
  else if (p == "short") { o.maxiter_lo = 4; o.maxiter_hi = 12; o.nmax = 9; o.max_keys = 4; o.smears = {FD, GS, GAUSS}; o.Tmin = 2000; o.ekinds = {LINEAR, CONVEX}; o.allow_degenerate = false; }
  return o;
}

// exceptions a run may legitimately end in (numerically hopeless requests)
static bool excusable(const Scn& s, const Rec& r) {
  if (r.exc.find("couldn't find chemical potential") != std::string::npos) {
    // huge steps drive the levels so far that the requested accuracy is below their rounding
    auto p = r.exc.find("mu = ");
    if (p != std::string::npos) return std::abs(atof(r.exc.c_str() + p + 5)) * 2.2e-16 / s.kT() > 3e-13;
    return !monotone(s.smear) || s.T < 600 || s.ekind == ROUGH || s.ekind == NOISY;
  }
  return false;
}

static void note(const Scn& s, const Rec& r) {
  if (rep().muted) return;
  rep().stat("runs");
  rep().stat("evaluations", r.evals);
  rep().stat("iterations", (long)r.acc.size());
  if (A.geti("trace", 0)) printf("TRACE orth %.3g\n", r.worst_orth);
  rep().token("classes", s.cls());
  rep().token("smearings", smear_name(s.smear));
  if (r.returned && s.maxiter > 0 && !r.info.converged && r.info.iter + 1 < s.maxiter) rep().stat("runs_aborted_by_library");
}
// a run on valid input has to return
static void need_return(const char* prop, const Scn& s, const Rec& r) {
  if (r.returned) return;
  if (excusable(s, r)) { rep().stat("runs_excused_exception"); if (A.geti("trace", 0)) printf("TRACE excused %s %s\n", r.exc.c_str(), s.desc().c_str()); return; }
  rep().viol(prop, "exception", "minimisation on a valid problem ended in an exception: %s (%s); %s", r.exc.c_str(), r.exc_type.c_str(), s.desc().c_str());
}

static const char* P0 = "C01";  // property under check (for exceptions)

// ------------------------------------------------------------------ plain fuzzing
static void mode_fuzz(const std::string& prof) {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    Scn s = gen(h, profile(prof, h));
    RunOpt o;
    o.entry = (h >> 7) % 5 == 0;
    Rec r = run_nlcg(s, o);
    note(s, r);
    need_return(P0, s, r);
    judge(s, r);
    rep().sample(s.desc());
    if (A.geti("trace", 0)) {
      printf("TRACE %s\n", s.desc().c_str());
      for (size_t q = 0; q < r.acc.size(); ++q)
        printf("TRACE  it %zu F=%.15g slope=%.6g mu=%.10g\n", q, accF(s, r, q), q < r.js.size() ? num(r.js[q], "slope_x") : NAN, r.acc[q].mu);
      printf("TRACE  end conv=%d iter=%d F=%.15g %s evals=%ld\n", r.info.converged, r.info.iter, r.last.F, r.exc.c_str(), r.evals);
    }
  }
}

// ------------------------------------------------------------------ lying landscapes
// From iteration k0 on (for `span` iterations) every state other than the accepted one is
// reported with a huge energy: drives backtracking to exhaustion, forced restarts and aborts.
static Mat density(const Ctx& c, int l) {
  Mat X = c.curX[l], Y = X;
  for (int j = 0; j < X.c; ++j) for (int i = 0; i < X.r; ++i) Y(i, j) *= (*c.fn[l])[j];
  return mul(Y, herm(X));
}
static std::vector<Mat> densities(const Ctx& c) {
  std::vector<Mat> d;
  for (size_t l = 0; l < c.local.size(); ++l) d.push_back(density(c, (int)l));
  return d;
}
// Two densities (times weight) closer than this are the same state: a reset permutes bands, changes phases,
// orthonormalises once more, and the electron number, thus the occupation, is only met to 1e-11
static double SAME = 1e-10;
static std::vector<Mat> accepted_densities(const Ctx& c) {
  SAME = 1e-10;
  for (size_t l = 0; l < c.local.size(); ++l) {
    const KPoint& k = c.kp(l);
    SAME = std::max(SAME, 100 * k.w * dist(hmul(c.curX[l], mul(k.S, c.curX[l])), eye(k.nb)) * (1 + fro(c.curX[l])));
  }
  return densities(c);
}
static void mode_lie() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = profile("short", h);
    g.maxiter_hi = 14;
    g.maxiter_lo = 8;
    Scn s = gen(h, g);
    s.tol = 1e-14;
    Rng q(h ^ 77);
    bool endless = i % 24 == 7;  // the energy keeps falling a little in every iteration
    if (endless) { s.maxiter = q.i(220, 420); if (q.p(0.5)) s.restart = q.i(1, 300); }
    double Eacc = 0, fall = q.logu(1e-7, 1e-2);
    int k0 = q.i(1, 5), span = q.pick(std::vector<int>{1, 1, 2, 1000, 1000});
    double big = q.logu(1e-3, 1e3);
    int it = 0;
    RunOpt o;
    std::vector<Mat> accD;
    o.on_accept = [&](Ctx& c) {
      ++it;
      Eacc = c.Etot + c.curS;
      accD = accepted_densities(c);
    };
    o.lie = [&](Ctx& c, double E) {
      if (endless) {
        if (!it) return E;
        double S = entropy_kT(c);
        return c.since_accept <= 1 ? Eacc + 1 - S : Eacc - fall - S;
      }
      if (it < k0 || it >= k0 + span || accD.empty()) return E;
      // compare density matrices: a reset may permute bands or change phases
      double dmax = 0;
      for (size_t l = 0; l < c.local.size(); ++l) dmax = std::max(dmax, c.kp(l).w * dist(accD[l], density(c, l)));
      return dmax > SAME ? E + big : E;
    };
    Rec r = run_nlcg(s, o);
    note(s, r);
    need_return(P0, s, r);
    judge(s, r);
    bool aborted = r.returned && !r.info.converged && r.info.iter + 1 < s.maxiter;
    rep().stat(aborted ? "lie_runs_aborted" : "lie_runs_recovered");
    rep().sample(fmt("{\"lie_from\":%d,\"span\":%d,\"big\":%g,\"scn\":%s}", k0, span, big, s.desc().c_str()));
  }
}

// ------------------------------------------------------------------ reference solutions (C02)
struct Ref { double F, mu; std::vector<std::vector<double>> e; };
// minimiser of the density dependent functional: minimise over the potential (dual), via damped
// fixed point iteration on rho
static bool reference(const Scn& s, Ref& out) {
  size_t M = s.ekind == CONVEX ? s.rho0.size() : 0;
  std::vector<double> rho(M, 0.3);
  auto solve_for = [&](const std::vector<double>& r, std::vector<double>& rnew, double& F, double& mu) {
    std::vector<double> pot(M);
    for (size_t m = 0; m < M; ++m) pot[m] = s.U * (r[m] - s.rho0[m]);
    rnew.assign(M, 0);
    std::vector<Level> L;
    std::vector<Mat> Vs(s.k.size());
    std::vector<std::vector<double>> es(s.k.size());
    for (size_t a = 0; a < s.k.size(); ++a) {
      auto& k = s.k[a];
      Mat H = k.H0;
      for (size_t m = 0; m < M; ++m) H = add(H, k.D[m], pot[m]);
      Mat R = matfun(k.S, [](double x) { return 1 / std::sqrt(x); });
      Mat V;
      es[a] = eigh(mul(R, mul(H, R)), &V);
      Vs[a] = mul(R, V);
      for (int b = 0; b < k.nb; ++b) L.push_back({es[a][b], k.w});
    }
    ld m_ = ref_mu(s.smear, L, s.kT(), s.occ, s.Ne);
    mu = (double)m_;
    out.e = es;
    ld E = 0, S = 0;
    for (size_t a = 0; a < s.k.size(); ++a) {
      auto& k = s.k[a];
      for (int b = 0; b < k.nb; ++b) {
        ld x = (m_ - es[a][b]) / s.kT();
        ld f = s.occ * ref_f(s.smear, x);
        E += k.w * f * es[a][b];
        S += k.w * s.occ * ref_entropy(s.smear, x);
        for (size_t m = 0; m < M; ++m) {
          Mat v(k.n, 1);
          for (int i = 0; i < k.n; ++i) v(i, 0) = Vs[a](i, b);
          rnew[m] += k.w * (double)f * hmul(v, mul(k.D[m], v))(0, 0).real();
        }
      }
    }
    for (size_t m = 0; m < M; ++m) { E -= pot[m] * rnew[m]; E += 0.5 * s.U * (rnew[m] - s.rho0[m]) * (rnew[m] - s.rho0[m]); }
    F = (double)(E - s.kT() * S) + s.Eoff;
  };
  double F = 0, mu = 0;
  std::vector<double> rn;
  double mixp = 0.5, last = 1e300;
  for (int it = 0; it < 400; ++it) {
    solve_for(rho, rn, F, mu);
    double res = 0;
    for (size_t m = 0; m < M; ++m) res = std::max(res, std::abs(rn[m] - rho[m]));
    if (res < 1e-12) { out.F = F; out.mu = mu; return true; }
    if (res > last) mixp *= 0.7;
    last = res;
    for (size_t m = 0; m < M; ++m) rho[m] += mixp * (rn[m] - rho[m]);
  }
  return false;
}

static void mode_c02() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    Scn s = gen(h, profile("well", h));
    if (s.restart > 20) s.restart = 20;
    Ref ref;
    if (!reference(s, ref)) { rep().stat("reference_failed"); continue; }
    RunOpt ro;
    std::vector<Mat> hx;
    ro.on_eval = [&](Ctx& c) { hx = c.HXcopy; };
    Rec r = run_nlcg(s, ro);
    note(s, r);
    need_return("C02", s, r);
    judge(s, r);
    if (!r.returned) continue;
    // variational principle: nothing can lie below the minimum
    double eps = feps(s, ref.F, ref.mu);
    for (size_t e = 1; e < r.evalF.size(); ++e) {
      rep().stat("variational_checks");
      if (!(r.evalF[e] >= ref.F - eps)) rep().viol("C02", "below-minimum", "evaluation %zu: F=%.15g below the true minimum %.15g; %s", e, r.evalF[e], ref.F, s.desc().c_str());
    }
    if (!(r.info.F >= ref.F - eps)) rep().viol("C02", "summary-below-minimum", "summary F=%.15g below the true minimum %.15g; %s", r.info.F, ref.F, s.desc().c_str());
    rep().stat(r.info.converged ? "c02_converged" : "c02_unconverged");
    // Gradient left in the orbitals, weighted with the occupations
    double resid = 0, sat = 1e9;
    for (size_t l = 0; l < hx.size(); ++l) {
      const KPoint& k = s.k[s.order[l]];
      Mat sx = mul(k.S, r.last.X[l]);
      Mat R = add(hx[l], mul(sx, hmul(r.last.X[l], hx[l])), -1.0);
      for (int b = 0; b < k.nb; ++b) {
        double n2 = 0;
        for (int q = 0; q < k.n; ++q) n2 += std::norm(R(q, b));
        resid += k.w * r.last.f[l][b] * n2;
        sat = std::min(sat, std::min(r.last.f[l][b], s.occ - r.last.f[l][b]) / s.occ);
      }
    }
    if (sat >= 1e-4) rep().stat("runs_without_saturated_bands");
    if (r.info.converged) {
      double dF = r.last.F - ref.F, lim = 60 * s.tol + eps;
      double sl = r.js.empty() ? r.info.tolerance : num(r.js.back(), "slope_x");
      if (std::isfinite(sl) && !(std::abs(sl) < s.tol)) rep().viol("C02", "above-tolerance", "reported as converged with residual %.6g, requested tolerance %.6g; %s", sl, s.tol, s.desc().c_str());
      // (Numerically) empty orbitals and saturated occupations carry no gradient: a run can be
      // stationary above the minimum.  That is a limit of the method, not a defect.
      bool metastable = sat < 1e-4 && resid < 1e3 * s.tol;
      if (!(dF <= lim)) {
        if (metastable) rep().stat("metastable_excused");
        else rep().viol("C02", "not-minimum", "converged (|slope|=%.3g < tol=%.3g) but F-Fmin=%.6g, orbital gradient^2 %.3g, saturation %.2g; %s", std::abs(r.info.tolerance), s.tol, dF, resid, sat, s.desc().c_str());
      } else {
        // occupations, as far as the free energy determines them: dF >= w df^2 kT / (2 occ)
        double worst = 0;
        for (size_t l = 0; l < r.last.f.size(); ++l) {
          const KPoint& k = s.k[s.order[l]];
          auto fl = r.last.f[l];
          std::sort(fl.begin(), fl.end(), std::greater<double>());
          for (int b = 0; b < k.nb; ++b) {
            double fr = s.occ * (double)ref_f(s.smear, (ref.mu - ref.e[s.order[l]][b]) / s.kT());
            worst = std::max(worst, k.w * (fl[b] - fr) * (fl[b] - fr) * s.kT() / s.occ);
          }
        }
        rep().stat("occupation_sets_compared");
        if (!(worst <= 60 * lim)) rep().viol("C02", "wrong-occupations", "converged, but occupations differ from the reference solution (w df^2 kT=%.3g, tol %.3g); %s", worst, s.tol, s.desc().c_str());
        if (A.geti("trace", 0)) printf("TRACE %ld occratio %.3g\n", i, worst / lim);
      }
      if (A.geti("trace", 0)) printf("TRACE %ld conv iter=%d dF=%.3g ratio=%.3g (%s)\n", i, r.info.iter, dF, metastable ? 0 : dF / (s.tol + eps / 60), s.cls().c_str());
      rep().stat("reference_compared");
    } else {
      if (A.geti("trace", 0)) printf("TRACE %ld UNCONV iter=%d dF=%.3g tol=%.3g slope=%.3g %s\n", i, r.info.iter, r.last.F - ref.F, s.tol, r.info.tolerance, s.desc().c_str());
      if (sat < 1e-4) rep().stat("metastable_excused");
      else rep().viol("C02", "no-convergence", "well-posed problem did not converge in %d iterations (stopped at %d, slope %.3g, tol %.3g, F-Fmin=%.3g); %s", s.maxiter, r.info.iter, r.info.tolerance, s.tol, r.last.F - ref.F, s.desc().c_str());
    }
    rep().sample(fmt("{\"Fref\":%.12g,\"F\":%.12g,\"iter\":%d,\"scn\":%s}", ref.F, r.info.F, r.info.iter, s.desc().c_str()));
  }
}

#include "modes.hpp"

int main(int argc, char** argv) {
  own_output();
  MPI_Init(&argc, &argv);
  if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
  A.mode = argv[1];
  A.seed = strtoull(argv[2], 0, 10);
  A.a = atol(argv[3]);
  A.b = atol(argv[4]);
  for (int i = 5; i < argc; ++i) {
    std::string t = argv[i];
    auto p = t.find('=');
    if (p != std::string::npos) A.kv[t.substr(0, p)] = t.substr(p + 1);
  }
  static std::string prop = A.get("prop", "C01");
  P0 = prop.c_str();
  rep().budget = (double)A.geti("budget", 1000000);
  int wr;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  // the library also writes iteration tables to stdout: keep ours separate
  std::cout.setstate(std::ios_base::badbit);
  nlcglib::initialize();
  int rc = 0;
  if (A.mode == "fuzz") mode_fuzz(A.get("profile", "general"));
  else if (A.mode == "lie") mode_lie();
  else if (A.mode == "c03tol") mode_c03tol();
  else if (A.mode == "c02") mode_c02();
  else rc = other_modes();
  nlcglib::finalize();
  rep().finish();
  MPI_Finalize();
  return rc;
}
