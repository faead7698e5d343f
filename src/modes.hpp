// Further modes of drv: C07 C09 C10 C15 C16 C20 C22. Included into drv.cpp.
#include <csignal>
#include <fcntl.h>

// ================================================================= helpers
static int count_fds() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
  return n;
}
static uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
// everything observable of a run, bit by bit
static uint64_t digest(const Rec& r) {
  uint64_t h = 1469598103934665603ull;
  auto D = [&](double v) { h = hash_bytes(&v, sizeof v, h); };
  D(r.returned); D(r.info.F); D(r.info.S); D(r.info.tolerance); D(r.info.iter); D(r.info.converged);
  for (auto& a : r.acc) { D(a.E); D(a.mu); D((double)a.ev); for (auto& f : a.f) for (double x : f) D(x); }
  for (double e : r.evalE) D(e);
  for (auto& x : r.last.X) h = hash_bytes(x.a.data(), x.a.size() * sizeof(cd), h);
  for (auto& f : r.last.f) for (double x : f) D(x);
  for (auto& j : r.js) { std::string s = j.dump(); h = hash_bytes(s.data(), s.size(), h); }
  h = hash_bytes(r.exc.data(), r.exc.size(), h);
  D((double)r.callbacks);
  return h;
}

// -kT*S of the current occupations, any smearing; false if it cannot be inferred
static bool entropy_any(const Ctx& c, double* out) {
  const Scn& s = *c.s;
  if (monotone(s.smear)) { *out = entropy_kT(c); return true; }
  ld S = 0;
  for (size_t l = 0; l < c.local.size(); ++l)
    for (double f : c.fn[l]->get()) {
      ld p = (ld)f / s.occ;
      if (!(p > 1e-3L && p < 1 - 1e-3L)) return false;  // there the occupation is a unique function of x
      ld lo = s.smear == MP ? -1.2247L : -8, hi = s.smear == MP ? 1.2247L : 1.41421356L;
      for (int i = 0; i < 90; ++i) { ld m = (lo + hi) / 2; (ref_f(s.smear, m) < p ? lo : hi) = m; }
      S += c.kp(l).w * s.occ * ref_entropy(s.smear, (lo + hi) / 2);
    }
  *out = -s.kT() * c.reduce((double)S);
  return true;
}

// ================================================================= C07 slope
// At chosen iterations all trial states are reported with a huge energy, which makes the
// library walk through t = t_trial, t_min, t_trial*tau^j and back to 0.  The true free energies
// along that walk give the derivative at t = 0 by extrapolation.
static void mode_c07() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = profile("short", h);
    Rng q(h ^ 0x707);
    g.smears = {FD, GS, GAUSS, MP, COLD};
    g.maxiter_lo = 4; g.maxiter_hi = 13;
    g.Tmin = 2000; g.Tmax = 60000;
    Rng qx(h ^ 0x70707);
    g.unit = 0.2;
    if (qx.p(0.25)) g.Tmin = 300;
    Scn s = gen(h, g);
    if (!monotone(s.smear)) s.T = q.u(1.5e5, 5e5) * s.unit;  // spectrum inside the monotonous region
    s.tol = 1e-12 * s.unit;
    s.tau = q.u(0.45, 0.62);
    s.restart = q.pick(std::vector<int>{1, 3, 1000, 1000, 1000});
    bool degstart = q.p(0.25);
    if (degstart && s.ekind == LINEAR) {
      // orbitals mixing two eigenstates evenly: equal diagonal elements, coupled bands
      for (auto& k : s.k) {
        if (k.nb < 2) continue;
        Mat R = matfun(k.S, [](double x) { return 1 / std::sqrt(x); }), V;
        eigh(mul(R, mul(k.H0, R)), &V);
        Mat Y = mul(R, V);
        int b0 = q.i(0, k.nb - 2), e0 = q.i(0, k.n - 2);
        Mat X = k.X0;
        cd ph = std::polar(1.0, q.u(0, 6.28));
        double th = std::atan(1.0) + (qx.p(0.5) ? qx.logu(1e-9, 1e-2) : 0);  // or nearly evenly
        for (int r = 0; r < k.n; ++r) {
          X(r, 0) = std::cos(th) * Y(r, e0) + std::sin(th) * ph * Y(r, e0 + 1);
          X(r, 1) = std::sin(th) * Y(r, e0) - std::cos(th) * ph * Y(r, e0 + 1);
        }
        (void)b0;
        orthonormalise(X, k.S);
        k.X0 = X;
      }
    }
    int first = q.i(0, 2), period = q.i(2, 4);
    if (degstart) first = 0;
    int it = -1;
    bool lying = false;
    std::vector<Mat> accD;
    double F0 = 0, mu0 = 0, E0 = 0, S0 = 0;
    bool F0ok = false;
    struct Pt { double E, S; bool ok; double N, mu; };
    std::vector<Pt> cur;
    struct Meas { int it; double E0, S0, F0; std::vector<Pt> p; bool ok; double mu; };
    std::vector<Meas> ms;
    auto close_meas = [&]() { if (lying) ms.push_back({it, E0, S0, F0, cur, F0ok, mu0}); cur.clear(); };
    RunOpt o;
    o.check_owner = false;
    auto corr = [&](Ctx& c) {  // electron count error
      double N = 0;
      for (size_t l = 0; l < c.local.size(); ++l) for (double f : c.fn[l]->get()) N += c.kp(l).w * f;
      return N - s.Ne;
    };
    double trueE = 0;
    o.on_accept = [&](Ctx& c) {
      close_meas();
      ++it;
      lying = it >= first && (it - first) % period == 0;
      accD = accepted_densities(c);
      double S;
      F0ok = entropy_any(c, &S);
      F0 = trueE + S - c.mu * corr(c);
      mu0 = c.mu; E0 = trueE; S0 = S;
    };
    double big = q.u(0.5, 5) * s.unit;
    o.lie = [&](Ctx& c, double E) {
      trueE = E;
      if (!lying || accD.empty()) return E;
      auto d = densities(c);
      double dm = 0;
      for (size_t l = 0; l < d.size(); ++l) dm = std::max(dm, c.kp(l).w * dist(d[l], accD[l]));
      Pt p;
      p.E = E;
      p.ok = entropy_any(c, &p.S);
      p.N = corr(c);
      cur.push_back(p);
      return dm > SAME ? E + big : E;
    };
    o.on_eval = [&](Ctx&) {};
    Rec r = run_nlcg(s, o);
    close_meas();
    note(s, r);
    need_return("C07", s, r);
    if (!r.returned || !r.json_ok) continue;
    int nbt = 0;
    for (double t = 0.2; t > 1e-8; t *= s.tau) ++nbt;
    for (auto& m : ms) {
      if (m.it >= (int)r.js.size()) continue;
      if (r.info.converged && m.it == r.info.iter) continue;
      double slope = num(r.js[m.it], "slope_x");
      // evaluations: trial, predicted minimum, nbt backtracking steps, reset
      if ((int)m.p.size() != nbt + 3) { rep().stat("slope_inconclusive_count"); continue; }
      if (!m.ok) { rep().stat("slope_inconclusive_entropy"); continue; }
      std::vector<double> ts, ds;
      bool ok = true;
      double t = 0.2;
      for (int j = 0; j < nbt; ++j, t *= s.tau) {
        const Pt& p = m.p[2 + j];
        if (t > 0.05 || t < 2e-5) continue;
        if (!p.ok) { ok = false; break; }
        double F = p.E + p.S - m.mu * p.N;
        ts.push_back(t);
        ds.push_back((F - m.F0) / t);
      }
      if (!ok || ts.size() < 5) { rep().stat("slope_inconclusive_entropy"); continue; }
      // Neville extrapolation to t=0; keep the entry with the smallest error estimate
      std::vector<double> T = ds;
      double best = NAN, err = 1e300;
      std::vector<double> prev = ds;
      for (size_t lev = 1; lev < std::min<size_t>(ts.size(), 8); ++lev) {
        std::vector<double> nx(ts.size() - lev);
        for (size_t a = 0; a + lev < ts.size(); ++a) nx[a] = prev[a + 1] + (prev[a + 1] - prev[a]) * ts[a + lev] / (ts[a] - ts[a + lev]);
        for (size_t a = 0; a + 1 < nx.size(); ++a) {
          double e = std::abs(nx[a + 1] - nx[a]) + std::abs(nx[a] - prev[a + 1]);
          if (e < err) { err = e; best = nx[a + 1]; }
        }
        prev = nx;
      }
      double lim = 5e-5 * std::abs(slope) + 1e-6 * s.unit + 30 * err;
      if (err > 1e-5 * std::abs(slope) + 1e-8 * s.unit) { rep().stat("slope_inconclusive_accuracy"); continue; }
      bool conj = m.it > 0 && (m.it - 1) % s.restart != 0;
      if (conj) {
        // gamma = fr/fr_old: leaving a point that was stationary up to rounding amplifies rounding
        double lo = 1e300;
        for (int j = 0; j < m.it; ++j) lo = std::min(lo, std::abs(num(r.js[j], "slope_x")));
        if (lo < 1e-5 * std::abs(slope)) { rep().stat("slope_inconclusive_gamma"); continue; }
      }
      rep().stat(conj ? "slopes_compared_conjugated" : "slopes_compared_restarted");
      rep().token("slope_classes", fmt("%s/%s/S%d/P%d/o%d", smear_name(s.smear), conj ? "cg" : "sd", s.skind, s.pkind, s.occ));
      if (A.geti("trace", 0) > 1) { double t = 0.2; for (int j = 0; j < nbt; ++j, t *= s.tau) { auto& p = m.p[2 + j]; printf("TRACE  t=%.3e dE/t %.9g dS/t %.9g d/t %.10g N %.2e\n", t, (p.E - m.E0) / t, (p.S - m.S0) / t, (p.E + p.S - m.mu * p.N - m.F0) / t, p.N); } }
      if (A.geti("trace", 0)) printf("TRACE slope %.10g fd %.10g diff %.2e err %.1e lim %.1e it=%d %s deg=%d\n", slope, best, std::abs(slope - best), err, lim, m.it, smear_name(s.smear), (int)degstart);
      if (!(std::abs(best - slope) <= lim))
        rep().viol("C07", "slope", "iteration %d (%s direction): reported slope %.12g, derivative along the path %.12g (+-%.1e); degenerate start %d; %s", m.it, conj ? "conjugated" : "restarted", slope, best, err, (int)degstart, s.desc().c_str());
    }
    rep().sample(s.desc());
  }
}

// ================================================================= comparison of two runs
struct Cmp { double offF = 0, scaleF = 1, shiftMu = 0, scaleMu = 1, amp = 1000, fl = 1; };
// How far runs of (almost) identical problems drift apart: relative perturbations `rel`.
// Conjugate gradients with an extrapolating line search amplify rounding; a comparison is only
// meaningful relative to that.
struct Sens { std::vector<double> F, E, slope, mu; };
static Sens sensitivity(const Scn& s, const Rec& a, double rel = 1e-12, int twins = 3) {
  Sens z;
  size_t n = std::min(a.acc.size(), a.js.size());
  for (auto* v : {&z.F, &z.E, &z.slope, &z.mu}) v->assign(n, 0);
  rep().muted++;
  for (int t = 0; t < twins; ++t) {
    Scn p = s;
    Rng g(s.seed ^ (77 + t));
    for (auto& k : p.k) {
      double sc = rel * maxabs(k.H0);
      for (int j = 0; j < k.n; ++j)
        for (int i = 0; i <= j; ++i) { cd d = sc * cd(g.u(-1, 1), i == j ? 0 : g.u(-1, 1)); k.H0(i, j) += d; if (i != j) k.H0(j, i) += std::conj(d); }
      for (auto& x : k.X0.a) x += 0.1 * rel * g.cg();
      orthonormalise(k.X0, k.S);
    }
    RunOpt o;
    o.check_owner = false;
    Rec r = run_nlcg(p, o);
    size_t m = std::min(r.acc.size(), r.js.size());
    for (size_t i = 0; i < n; ++i) {
      if (i >= m || !r.returned) { z.F[i] = z.E[i] = z.slope[i] = z.mu[i] = 1e300; continue; }
      auto up = [](double& q, double v) { if (!(v <= q)) q = v; };
      up(z.F[i], std::abs(num(a.js[i], "F") - num(r.js[i], "F")));
      up(z.E[i], std::abs(a.acc[i].E - r.acc[i].E));
      up(z.slope[i], std::abs(num(a.js[i], "slope_x") - num(r.js[i], "slope_x")));
      up(z.mu[i], std::abs(a.acc[i].mu - r.acc[i].mu));
    }
  }
  rep().muted--;
  for (auto* v : {&z.F, &z.E, &z.slope, &z.mu}) for (size_t i = 1; i < n; ++i) (*v)[i] = std::max((*v)[i], (*v)[i - 1]);
  return z;
}
// compares b (transformed) with a; returns number of compared iterations
static int compare_runs(const char* prop, const char* key, const Scn& s, const Rec& a, const Rec& b, const Sens& z, const Cmp& m, int maxit, const std::string& what) {
  int n = 0;
  if (a.returned != b.returned) {
    if (excusable(s, a) || excusable(s, b)) return 0;
    rep().viol(prop, key, "%s: one run returned, the other did not (%s | %s); %s", what.c_str(), a.exc.c_str(), b.exc.c_str(), s.desc().c_str());
    return 0;
  }
  size_t na = std::min(a.acc.size(), a.js.size()), nb = std::min(b.acc.size(), b.js.size());
  for (size_t i = 0; i < (size_t)maxit; ++i) {
    if (i >= na || i >= nb) {
      if (na != nb && i > 0 && std::abs(num(a.js[i - 1], "slope_x")) > 1e-5)
        rep().viol(prop, key, "%s: runs end after %zu and %zu iterations; %s", what.c_str(), na, nb, s.desc().c_str());
      break;
    }
    // electrons really present (schemes without monotony may be slightly off) and dN/dmu
    double N = 0, dN = 0;
    if (a.acc[i].f.size() == s.order.size())
      for (size_t l = 0; l < s.order.size(); ++l)
        for (double f : a.acc[i].f[l]) { N += s.k[s.order[l]].w * f; dN += s.k[s.order[l]].w * std::min(std::abs(f), std::abs(s.occ - f)) / s.kT(); }
    const double shiftF = m.shiftMu * N + m.offF;
    double Fa = num(a.js[i], "F") * m.scaleF + shiftF, Fb = num(b.js[i], "F");
    double ea = a.acc[i].E * m.scaleF, eb = b.acc[i].E - shiftF;
    double sa = num(a.js[i], "slope_x") * m.scaleF, sb = num(b.js[i], "slope_x");
    double mua = a.acc[i].mu * m.scaleMu + m.shiftMu, mub = b.acc[i].mu;
    double sc = std::abs(m.scaleF) * (1 + std::abs(Fa) * 1e-3);
    const double amp = m.amp;
    if (amp * z.F[i] > 1e-4 || amp * z.slope[i] > 0.02 * std::abs(sa) + 1e-4) { rep().stat("comparison_stopped_sensitive"); break; }
    double sf = std::abs(m.scaleF);
    double tF = m.fl * 2e-8 * sc + amp * sf * z.F[i], tE = m.fl * 2e-6 * sc + amp * sf * z.E[i], tS = m.fl * (1e-5 * std::abs(sa) + 2e-8 * sc) + amp * sf * z.slope[i], tMu = (m.fl * 1e-5 + amp * z.mu[i] + 1e-8 / (dN + 1e-300)) * std::abs(m.scaleMu);
    ++n;
    rep().stat("iterations_compared");
    if (A.geti("trace", 0)) printf("TRACE %s it %zu ratio %.2e %.2e %.2e dF %.2e dE %.2e dslope %.2e dmu %.2e slope %.2e\n", what.c_str(), i, std::abs(Fa - Fb) / tF, std::abs(ea - eb) / tE, std::abs(sa - sb) / tS, std::abs(Fa - Fb) / sc, std::abs(ea - eb) / sc, std::abs(sa - sb) / sc, std::abs(mua - mub), sa);
    bool bad = !(std::abs(Fa - Fb) <= tF) || !(std::abs(ea - eb) <= tE) || !(std::abs(sa - sb) <= tS);
    // a gap leaves the chemical potential undetermined
    bool mubad = !(std::abs(mua - mub) <= tMu);
    // several chemical potentials may give the right count
    if (!monotone(s.smear) && (mubad || (m.fl > 1 && std::abs(mua - mub) > 1e-6))) { rep().stat("comparison_stopped_other_root"); break; }
    if (bad || mubad) {
      rep().viol(prop, key, "%s: iteration %zu: F %.14g expected %.14g, E %.12g expected %.12g, slope %.9g expected %.9g, mu %.10g expected %.10g; %s", what.c_str(), i, Fb, Fa, eb, ea, sb, sa, mub, mua, s.desc().c_str());
      break;
    }
    if (std::abs(sa) < 1e-4 * std::abs(m.scaleF)) break;  // rounding decides from here on
  }
  return n;
}
static GenOpt cmp_profile(uint64_t h) {
  GenOpt g = profile("short", h);
  g.maxiter_lo = 4; g.maxiter_hi = 7;
  g.smears = {FD, GS, GAUSS};
  g.Tmin = 4000;
  return g;
}

// ---------------------------------------------------------------- C03: the tolerance is met exactly
// A run is repeated with the tolerance right above, right below and at the residual of one of its iterations:
// it has to stop there, not to stop there, and not to stop there.
static void mode_c03tol() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    Scn s = gen(h, profile((h >> 13) & 1 ? "general" : "short", h));
    Rng q(h ^ 0x0303);
    s.maxiter = q.i(4, 24);
    s.tol = 1e-300;
    RunOpt o;
    o.check_owner = false;
    Rec a = run_nlcg(s, o);
    note(s, a);
    need_return("C03", s, a);
    judge(s, a);
    std::vector<std::pair<long, double>> low;  // iterations with a residual below all before
    double best = 1e300;
    for (size_t k = 0; k < a.js.size(); ++k) {
      double sl = std::abs(num(a.js[k], "slope_x"));
      if (!(sl > 0)) break;
      if (sl < best / 1.05) { low.push_back({(long)k, sl}); best = sl; }
    }
    if (low.empty()) { rep().stat("tolerance_no_candidate"); continue; }
    auto pk = low[q.p(0.4) ? low.size() - 1 : q.i(0, (int)low.size() - 1)];
    for (int v = 0; v < 4; ++v) {
      Scn t = s;
      double d = q.p(0.4) ? 1e-9 : q.logu(1e-9, 3e-2);
      t.tol = v == 0 ? pk.second : v == 1 ? pk.second * (1 - d) : pk.second * (1 + d);
      if (v == 3) { t.maxiter = (int)pk.first; if (!t.maxiter) continue; }  // the iteration is out of reach
      Rec b = run_nlcg(t, o);
      note(t, b);
      need_return("C03", t, b);
      judge(t, b);
      if (!b.returned || b.js.size() <= (size_t)pk.first) {
        // (a run that ended early is judged by its own numbers, see judge())
        if (b.returned && v < 3) rep().stat("tolerance_rerun_differs");
        if (v == 3 && b.returned && b.info.converged) rep().viol("C03", "tolerance", "convergence in iteration %d of at most %d; %s", b.info.iter, t.maxiter, t.desc().c_str());
        else if (v == 3) rep().stat("tolerances_at_the_edge");
        continue;
      }
      if (v == 3) continue;
      double own = num(b.js[pk.first], "slope_x");
      if (!(std::abs(std::abs(own) - pk.second) <= 1e-13 * pk.second)) { rep().stat("tolerance_rerun_differs"); if (d < 1e-6 || v == 0) continue; }
      rep().stat("tolerances_at_the_edge");
      bool stops = std::abs(own) < t.tol, did = b.info.converged && b.info.iter == pk.first;
      if (stops != did) rep().viol("C03", "tolerance", "tolerance %.17g, residual of iteration %ld %.17g: %s there (converged=%d, iteration %d); %s", t.tol, pk.first, own, did ? "stopped" : "did not stop", (int)b.info.converged, b.info.iter, t.desc().c_str());
    }
  }
}


// ================================================================= C10 layouts
static void mode_c10() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = cmp_profile(h);
    g.pad = false;
    Scn s = gen(h, g);
    for (size_t q = 0; q < s.order.size(); ++q) s.order[q] = (int)q;
    RunOpt o;
    Rec a = run_nlcg(s, o);
    note(s, a);
    need_return("C10", s, a);
    Rng q(h ^ 0x1010);
    Sens z = sensitivity(s, a);
    for (int v = 0; v < 8; ++v) {
      Scn t = s;
      std::string what;
      if (v == 4) { for (auto& k : t.k) k.rowmajor = true; what += "row-major "; }
      if (v == 5) { for (auto& k : t.k) { k.rs = q.i(2, 4); k.rowmajor = q.p(0.5); k.pad_rows = q.i(0, 5); } what += "strided "; }
      if (v == 6) { for (auto& k : t.k) k.vs = q.i(2, 4); what += "vector-stride "; }
      if (v == 7 || v == 3) { t.shuffle = q.next() | 1; what += "shuffled "; }
      if (v == 7) for (auto& k : t.k) { if (q.p(0.5)) k.rowmajor = true; if (q.p(0.5)) k.vs = 3; if (q.p(0.5)) k.rs = 2; if (q.p(0.5)) k.pad_rows = q.i(1, 9); }
      if (v == 0 || v == 3) {
        for (auto& k : t.k) k.pad_rows = q.i(1, 40);
        what += "padded ";
      }
      if (v == 1 || v == 3) {
        for (size_t p = t.order.size(); p > 1; --p) std::swap(t.order[p - 1], t.order[q.next() % p]);
        what += "reordered ";
      }
      if (v == 2 || v == 3) {
        // injective relabelling that changes the order of the keys
        std::map<int, int> m;
        std::vector<int> ids;
        for (auto& k : t.k) if (!m.count(k.key.first)) { m[k.key.first] = 0; }
        std::set<int> used;
        for (auto& e : m) { int x; do x = q.pick(std::vector<int>{q.i(-9, 60), q.i(0, 5), q.i(1000, 2000000000)}); while (!used.insert(x).second); e.second = x; }
        for (auto& k : t.k) k.key.first = m[k.key.first];
        if (q.p(0.4)) { int a = q.i(-4, 9), b = q.p(0.5) ? 1 : -1; for (auto& k : t.k) k.key.second = a + b * k.key.second; }
        what += "relabelled ";
      }
      Rec b = run_nlcg(t, o);
      note(t, b);
      judge(t, b);
      compare_runs("C10", "layout", t, a, b, z, Cmp(), 5, what);
      rep().stat("layout_pairs");
      rep().token("layouts", what + fmt("k%zu", s.k.size()));
    }
    rep().sample(s.desc());
  }
}

// ================================================================= C20 symmetries
static Mat rnd_unitary(Rng& g, int n) { Mat U = rnd(g, n, n); orthonormalise(U, eye(n)); return U; }
static Mat conjm(Mat m) { for (auto& x : m.a) x = std::conj(x); return m; }
static void mode_c20() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = cmp_profile(h);
    if ((h >> 5) % 3 == 0) g.smears = {MP, COLD};
    Scn s = gen(h, g);
    if (!monotone(s.smear)) s.T = 3e5;
    RunOpt o;
    o.check_owner = false;
    Rec a = run_nlcg(s, o);
    note(s, a);
    need_return("C20", s, a);
    Rng q(h ^ 0x2020);
    Sens z = sensitivity(s, a), z2 = sensitivity(s, a, 1e-9);
    int only = (int)A.geti("kind", -1);
    for (int v = 0; v < 10; ++v) {
      if (only >= 0 && v != only) continue;
      Scn t = s;
      Cmp m;
      std::string what;
      if (v == 0) {
        what = "energy-shift";
        double c = q.p(0.3) ? q.u(-30, 30) : q.u(-3, 3);
        for (auto& k : t.k) k.H0 = add(k.H0, k.S, c);
        m.shiftMu = c;
      } else if (v == 1) {
        what = "basis-change";
        for (auto& k : t.k) {
          Mat U = rnd_unitary(q, k.n), Uh = herm(U);
          for (Mat* M : {&k.H0, &k.S, &k.P}) *M = mul(Uh, mul(*M, U));
          for (auto& D : k.D) D = mul(Uh, mul(D, U));
          k.X0 = mul(Uh, k.X0);
        }
      } else if (v == 2) {
        what = "band-permutation";
        for (auto& k : t.k) {
          std::vector<int> p(k.nb);
          for (int b = 0; b < k.nb; ++b) p[b] = b;
          for (int b = k.nb; b > 1; --b) std::swap(p[b - 1], p[q.next() % b]);
          Mat X = k.X0;
          for (int b = 0; b < k.nb; ++b) { cd ph = std::polar(1.0, q.u(0, 6.28)); for (int r = 0; r < k.n; ++r) k.X0(r, b) = ph * X(r, p[b]); }
          k.fperm = p;
        }
      } else if (v == 3) {
        what = "conjugation";
        for (auto& k : t.k) { for (Mat* M : {&k.H0, &k.S, &k.P, &k.X0}) *M = conjm(*M); for (auto& D : k.D) D = conjm(D); }
      } else if (v == 4) {
        what = "k-reordering";
        std::map<int, int> mm;
        for (auto& k : t.k) mm[k.key.first] = 0;
        std::vector<int> ids;
        for (auto& e : mm) ids.push_back(e.first);
        for (size_t p = ids.size(); p > 1; --p) std::swap(ids[p - 1], ids[q.next() % p]);
        size_t z = 0;
        for (auto& e : mm) e.second = ids[z++] * 3 + 1;
        for (auto& k : t.k) k.key.first = mm[k.key.first];
      } else if (v == 5) {
        what = "k-splitting";
        int id = t.k[q.next() % t.k.size()].key.first, mx = 0;
        for (auto& k : t.k) mx = std::max(mx, k.key.first);
        int copies = q.i(2, 3);
        std::vector<double> part(copies, 1.0 / copies);
        if (q.p(0.5)) {  // unequal parts, down to tiny ones
          double sum = 0;
          for (auto& x : part) { x = q.logu(1e-4, 1); sum += x; }
          for (auto& x : part) x /= sum;
        }
        size_t n0 = t.k.size();
        for (size_t z = 0; z < n0; ++z)
          if (t.k[z].key.first == id) {
            double w = t.k[z].w;
            t.k[z].w = w * part[0];
            for (int c = 1; c < copies; ++c) { KPoint k = t.k[z]; k.key.first = mx + c; k.w = w * part[c]; t.k.push_back(k); }
          }
        t.order.resize(t.k.size());
        for (size_t z = 0; z < t.k.size(); ++z) t.order[z] = (int)z;
      } else if (v == 6) {
        if (s.occ != 2) continue;
        what = "spin-channels";
        t.occ = 1; t.nspin = 2;
        size_t n0 = t.k.size();
        for (size_t z = 0; z < n0; ++z) { KPoint k = t.k[z]; k.key.second += 1; t.k.push_back(k); }
        t.order.resize(t.k.size());
        for (size_t z = 0; z < t.k.size(); ++z) t.order[z] = (int)z;
      } else if (v == 7) {
        what = "energy-unit";
        double f = q.pick(std::vector<double>{0.5, 2.0, 27.2113845, 0.0367493254});
        for (auto& k : t.k) { for (auto& x : k.H0.a) x *= f; for (auto& x : k.P.a) x /= f; }
        t.U *= f; t.T *= f; t.Eoff *= f;
        m.scaleF = f; m.scaleMu = f;
      } else if (v == 8) {
        what = "energy-offset";  // a constant added to the energy
        m.offF = (q.p(0.5) ? -1 : 1) * q.logu(1, 1e5);
        t.Eoff += m.offF;
      } else {
        what = "extensive";  // twice the weights and electrons: same state, twice the energy
        if (s.ekind != LINEAR) continue;
        for (auto& k : t.k) k.w *= 2;
        t.Ne *= 2; t.Eoff *= 2;
        m.scaleF = 2;
      }
      // these change the path of the search for the chemical potential: its tolerance shows
      bool coarse = m.shiftMu != 0 || m.scaleF != 1 || m.offF != 0;
      if (coarse) { m.amp = 100; m.fl = 100; }
      Rec b = run_nlcg(t, o);
      note(t, b);
      need_return("C20", t, b);
      int n = compare_runs("C20", what.c_str(), s, a, b, coarse ? z2 : z, m, 4, what);
      rep().stat("metamorphic_pairs");
      if (n) rep().token("relations", what + "/" + smear_name(s.smear) + fmt("/E%d", s.ekind));
      rep().stat("pairs_" + what);
    }
    rep().sample(s.desc());
  }
}

// ================================================================= C15 fault enumeration
static void mode_c15() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = profile("short", h);
    g.smears = {FD, GS, GAUSS, MP, COLD};
    g.maxiter_lo = 2; g.maxiter_hi = 3;
    g.max_keys = 2; g.nmax = 6;
    Scn s = gen(h, g);
    s.tol = 1e-14;
    Rng q(h ^ 0x15);
    bool lie = q.p(0.4);  // also the backtracking path
    int it = 0;
    std::vector<Mat> accD;
    RunOpt o;
    o.check_owner = false;
    auto arm = [&](RunOpt& w) {
      it = 0; accD.clear();
      if (!lie) return;
      w.on_accept = [&](Ctx& c) { ++it; accD = accepted_densities(c); };
      w.lie = [&](Ctx& c, double E) {
        if (it != 2 || accD.empty()) return E;
        auto d = densities(c);
        double dm = 0;
        for (size_t l = 0; l < d.size(); ++l) dm = std::max(dm, c.kp(l).w * dist(d[l], accD[l]));
        return dm > 1e-6 ? E + 1 : E;
      };
    };
    arm(o);
    Rec base = run_nlcg(s, o);
    note(s, base);
    if (!base.returned) { rep().stat("base_run_failed"); continue; }
    uint64_t d0 = digest(base);
    long N = base.callbacks;
    long step = std::max<long>(1, A.geti("step", 1));
    long heap0 = 0;
    for (long f = (long)(q.next() % step); f < N; f += step) {
      RunOpt w = o;
      arm(w);
      w.fault_at = f;
      w.fault_kind = (int)(q.next() % NFAULT);
      Rec r = run_nlcg(s, w);
      rep().stat("faults_injected");
      rep().token("fault_types", fault_name(w.fault_kind));
      rep().token("fault_sites", r.fault_where);
      if (!r.fault) rep().viol("C15", "swallowed", "%s thrown by callback number %ld (%s) did not reach the caller (returned=%d, other exception '%s'); %s", fault_name(w.fault_kind), f, r.fault_where.c_str(), (int)r.returned, r.exc.c_str(), s.desc().c_str());
      else if (!r.fault_identity) rep().viol("C15", "changed", "another exception than the injected one arrived");
      RunOpt w2 = o;
      arm(w2);
      Rec c = run_nlcg(s, w2);
      rep().stat("clean_reruns");
      if (digest(c) != d0) rep().viol("C15", "rerun", "after a failed run (callback %ld, %s) the same minimisation gives another result; %s", f, r.fault_where.c_str(), s.desc().c_str());
      if (!c.json_ok || c.js.size() != base.js.size()) rep().viol("C15", "json", "after a failed run (callback %ld) the step log of the next run is damaged: %zu records, expected %zu", f, c.js.size(), base.js.size());
      if (f >= N / 4 && !heap0) heap0 = (long)mallinfo2().uordblks;
    }
    // heap neutrality: repeat the same faults
    int fds0 = count_fds();
    std::vector<long> fl;
    for (int z = 0; z < 12; ++z) fl.push_back((long)(q.next() % N));
    long use[4], typ[4], com[4];
    for (int round = 0; round < 4; ++round) {
      for (long f : fl) { RunOpt w = o; arm(w); w.fault_at = f; w.fault_kind = (int)(f % NFAULT); w.json = false; { Rec r = run_nlcg(s, w); } rep().stat("faults_injected"); }
      use[round] = (long)mallinfo2().uordblks;
      typ[round] = pm::st().others - pm::st().types_freed;
      com[round] = pm::st().comms_created - pm::st().comms_freed;
    }
    if (typ[3] > typ[2] && typ[2] > typ[1] && typ[1] > typ[0]) rep().viol("C15", "mpi-types", "MPI datatypes accumulate over failed runs: %ld -> %ld", typ[0], typ[3]);
    if (com[3] > com[2] && com[2] > com[1] && com[1] > com[0]) rep().viol("C15", "mpi-comms", "MPI communicators accumulate over failed runs: %ld -> %ld", com[0], com[3]);
    if (use[1] < use[2] && use[2] < use[3] && use[3] - use[1] > 2 * 12 * 16)
      rep().viol("C15", "leak", "heap in use grows with every failed run: %ld %ld %ld %ld bytes after 12 failed runs each; %s", use[0], use[1], use[2], use[3], s.desc().c_str());
    if (count_fds() > fds0 + 1) rep().viol("C15", "fd-leak", "open files grow with failed runs: %d -> %d", fds0, count_fds());
    rep().sample(fmt("{\"callbacks\":%ld,\"lie\":%d,\"scn\":%s}", N, (int)lie, s.desc().c_str()));
  }
}

// ================================================================= C16 repeatability
// options of one run; every call starts from a fresh state
// kind 0: as is; 1: from some iteration on all trial states are reported far above (aborts);
// 2: only for one or two iterations (recovers by resetting)
static RunOpt c16_opt(const Scn& s, uint64_t h, int kind) {
  RunOpt o;
  o.check_owner = false;
  if (!kind) return o;
  struct St { int it = 0, k0, span; double big; std::vector<Mat> d; };
  auto st = std::make_shared<St>();
  Rng q(h ^ 0x1616);
  st->k0 = q.i(0, 4); st->span = kind == 1 ? 1000000 : q.i(1, 2); st->big = q.logu(1e-2, 1e2) * s.unit;
  o.on_accept = [st](Ctx& c) { ++st->it; st->d = accepted_densities(c); };
  o.lie = [st](Ctx& c, double E) {
    if (st->it <= st->k0 || st->it > st->k0 + st->span || st->d.empty()) return E;
    auto d = densities(c);
    double dm = 0;
    for (size_t l = 0; l < d.size(); ++l) dm = std::max(dm, c.kp(l).w * dist(d[l], st->d[l]));
    return dm > SAME ? E + st->big : E;
  };
  return o;
}
static void mode_c16() {
  long n = A.b - A.a;
  std::vector<Scn> scs;
  std::vector<uint64_t> hs;
  std::vector<int> kinds;
  for (long i = A.a; i < A.b; ++i) {
    uint64_t h = mix(A.seed, (uint64_t)i);
    std::string prof = i % 4 == 3 ? "long" : i % 4 == 2 ? "rough" : "general";
    GenOpt g = profile(prof, h);
    g.max_keys = 3; g.maxiter_hi = std::min(g.maxiter_hi, 25); g.maxiter_lo = std::min(g.maxiter_lo, 20);
    scs.push_back(gen(h, g));
    hs.push_back(h);
    kinds.push_back(i % 5 == 1 ? 1 : i % 5 == 4 ? 2 : 0);
    if (kinds.back()) scs.back().tol = 1e-14 * scs.back().unit;
  }
  std::vector<uint64_t> d(n, 0);
  Rng q(mix(A.seed, 0x16) ^ (uint64_t)A.geti("order", 0));
  std::vector<long> idx(n);
  for (long i = 0; i < n; ++i) idx[i] = i;
  int rounds = (int)A.geti("rounds", 3);
  for (int r = 0; r < rounds; ++r) {
    if (A.geti("order", 0) || r > 0) for (long p = n; p > 1; --p) std::swap(idx[p - 1], idx[q.next() % p]);
    for (long z : idx) {
      if (!rep().begin_case(A.a + z)) break;
      Rec rec = run_nlcg(scs[z], c16_opt(scs[z], hs[z], kinds[z]));
      note(scs[z], rec);
      if (kinds[z]) rep().stat(rec.returned && !rec.info.converged && rec.info.iter + 1 < scs[z].maxiter ? "runs_given_up" : "runs_disturbed");
      uint64_t dg = digest(rec);
      if (d[z] == 0) d[z] = dg;
      else {
        rep().stat("repetitions_compared");
        if (d[z] != dg) rep().viol("C16", "repeat", "repeating a minimisation in the same process gives another history; %s", scs[z].desc().c_str());
      }
    }
  }
  for (long i = 0; i < n; ++i) if (d[i]) printf("DIGEST %ld %016llx\n", A.a + i, (unsigned long long)d[i]);
  // resources
  auto& P = pm::st();
  auto block = [&]() { for (long z = 0; z < std::min<long>(n, 6); ++z) { RunOpt o = c16_opt(scs[z], hs[z], kinds[z]); o.json = false; Rec rec = run_nlcg(scs[z], o); } };
  block(); block();
  long use[4], typ[4], com[4]; int fds[4];
  for (int b = 0; b < 4; ++b) {
    block();
    use[b] = (long)mallinfo2().uordblks;
    typ[b] = P.others - P.types_freed;
    com[b] = P.comms_created - P.comms_freed;
    fds[b] = count_fds();
    rep().stat("resource_blocks");
  }
  rep().stat("resource_runs", 6 * std::min<long>(n, 6));
  if (use[0] < use[1] && use[1] < use[2] && use[2] < use[3] && use[3] - use[0] > 3 * 64)
    rep().viol("C16", "heap", "heap in use grows with each block of runs: %ld %ld %ld %ld", use[0], use[1], use[2], use[3]);
  if (typ[3] > typ[2] && typ[2] > typ[1] && typ[1] > typ[0]) rep().viol("C16", "mpi-types", "MPI datatypes accumulate: %ld %ld %ld %ld", typ[0], typ[1], typ[2], typ[3]);
  if (com[3] > com[2] && com[2] > com[1] && com[1] > com[0]) rep().viol("C16", "mpi-comms", "MPI communicators accumulate: %ld -> %ld", com[0], com[3]);
  if (fds[3] > fds[0]) rep().viol("C16", "fds", "open files accumulate: %d -> %d", fds[0], fds[3]);
  printf("SAMPLE {\"heap\":[%ld,%ld,%ld,%ld],\"mpi_types\":[%ld,%ld],\"fds\":[%d,%d]}\n", use[0], use[1], use[2], use[3], typ[0], typ[3], fds[0], fds[3]);
}

// ================================================================= C22 invalid requests
static const int NBAD = 24;
static void mode_c22() {
  int wsize, wrank;
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  if (wsize > 1) {
    std::string own = fmt("rank%d", wrank);
    mkdir(own.c_str(), 0755);
    if (chdir(own.c_str())) return;
    rep().quiet_rank = wrank != 0;
  }
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    int kind = (int)(i % NBAD);
    uint64_t h = mix(A.seed, (uint64_t)(i / NBAD) * 2 + 1);
    GenOpt g = profile("short", h);
    g.maxiter_lo = 3; g.maxiter_hi = 6;
    Scn s = gen(h, g);
    s.tol = 1e-14;
    RunOpt o;
    o.check_owner = false;
    Rec before;
    bool pre = (h >> 9) & 1;
    if (pre) before = run_nlcg(s, o);
    Scn t = s;
    Ctx c;
    std::string what;
    auto sm = lib_smear(s.smear);
    int entry = 0;
    bool lie = false;
    int dm = -2, dv = -2, dwhich = -1, nloc = 0;
    int ne = -1;
    MPI_Comm ec = MPI_COMM_SELF;
    Rng q(h);
    auto ST = [](int v) { return static_cast<nlcglib::smearing_type>(v); };
    switch (kind) {
      case 0: what = "T=0"; t.T = 0; break;
      case 1: what = "T<0"; t.T = -q.logu(1e-3, 1e4); break;
      case 2: what = "T=NaN"; t.T = NAN; break;
      case 3: what = "unknown-smearing"; sm = ST(77); break;
      case 4: what = "unknown-smearing"; sm = ST(-1); break;
      case 5: { what = "too-many-electrons"; double cap = 0; for (auto& k : s.k) cap += k.w * k.nb * s.occ; ne = (int)std::ceil(cap) + q.i(1, 5); break; }
      case 6: what = "negative-electrons"; ne = -1 - q.i(1, 4); break;
      case 7: what = "restart=0"; t.restart = 0; break;
      case 8: what = "restart<0"; t.restart = -q.i(1, 20); break;
      case 9: what = "device-matrices"; dm = q.p(0.3) ? -1 : q.i(0, 63); dwhich = q.p(0.3) ? -1 : q.i(0, 1); break;
      case 10: what = "device-vectors"; dv = q.p(0.3) ? -1 : q.i(0, 63); dwhich = q.p(0.3) ? -1 : q.i(0, 1); break;
      case 11: what = "distributed-arrays"; ec = MPI_COMM_WORLD; if (wsize == 1) { rep().stat("skipped_needs_ranks"); continue; } break;
      case 12: what = "nlcg_us_device"; entry = 1; break;
      case 13: what = "nlcg_us_cpu_device"; entry = 2; break;
      case 14: what = "nlcg_mvp2_cpu"; entry = 3; break;
      case 15: what = "nlcg_mvp2_device"; entry = 4; break;
      case 16: what = "nlcg_mvp2_cpu_device"; entry = 5; break;
      case 17: what = "nlcg_mvp2_device_cpu"; entry = 6; break;
      case 18: what = "tau=1"; t.tau = 1; lie = true; break;
      case 19: what = "tau>1"; t.tau = 1 + q.logu(1e-3, 10); lie = true; break;
      case 20: what = "unknown-smearing-device_cpu"; sm = ST(55); entry = 7; break;
      case 21: what = "T=0-device_cpu"; t.T = 0; entry = 7; break;
      case 22: what = "restart=0-device_cpu"; t.restart = 0; entry = 7; break;
      default: what = "too-many-electrons"; ne = 1000000; break;
    }
    c.setup(t, t.order, MPI_COMM_SELF);
    Rec dummy;
    c.rec = &dummy;
    MockEnergy e(c);
    nloc = (int)c.local.size();
    if (nloc) { if (dm > 0) dm %= nloc; if (dv > 0) dv %= nloc; }
    e.dev_mat = dm; e.dev_vec = dv; e.dev_which = dwhich; e.entry_comm = ec;
    if (ne != -1) { e.ne_set = true; e.ne_override = ne; }
    std::vector<Mat> accD;
    int lied = 0, inone = 0;
    if (lie) {
      c.on_accept = [&](Ctx& cc) { inone = 0; accD = accepted_densities(cc); };
      c.lie = [&](Ctx& cc, double E) {
        if (accD.empty()) return E;
        auto d = densities(cc);
        double dmx = 0;
        for (size_t l = 0; l < d.size(); ++l) dmx = std::max(dmx, cc.kp(l).w * dist(d[l], accD[l]));
        if (dmx > SAME) lied = std::max(lied, ++inone);
        return dmx > SAME ? E + 1000 : E;
      };
    }
    MockOp<nlcglib::OverlapBase> S(c, true, nullptr);
    MockOp<nlcglib::UltrasoftPrecondBase> P(c, false, nullptr);
    S.check_owner = P.check_owner = false;
    rep().stat("invalid_requests");
    rep().token("requests", what);
    rep().muted++;  // monitors of other properties are not interested in this run
    bool threw = false, stdexc = false;
    std::string msg;
    alarm(60);
    try {
      using namespace nlcglib;
      switch (entry) {
        case 0: nlcg_us_cpu(e, P, S, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
        case 1: nlcg_us_device(e, P, S, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
        case 2: nlcg_us_cpu_device(e, P, S, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
        case 3: nlcg_mvp2_cpu(e, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
        case 4: nlcg_mvp2_device(e, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
        case 5: nlcg_mvp2_cpu_device(e, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
        case 6: nlcg_mvp2_device_cpu(e, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
        case 7: nlcg_us_device_cpu(e, P, S, sm, t.T, t.tol, t.kappa, t.tau, t.maxiter, t.restart); break;
      }
    } catch (std::exception& ex) { threw = stdexc = true; msg = ex.what(); }
    catch (...) { threw = true; }
    alarm(0);
    rep().muted--;
    if (!threw && lie && lied < 2) rep().stat("tau_not_used");  // no step had to be shortened
    else if (!threw) rep().viol("C22", what.c_str(), "request '%s' was not refused (no exception); %s", what.c_str(), t.desc().c_str());
    else if (!stdexc) rep().viol("C22", what.c_str(), "request '%s' ended in something that is no std::exception", what.c_str());
    // the library stays usable
    Rec after = run_nlcg(s, o);
    rep().stat("valid_runs_after");
    need_return("C22", s, after);
    judge(s, after);
    if (pre && digest(before) != digest(after)) rep().viol("C22", "aftermath", "a valid run after request '%s' differs from the one before it; %s", what.c_str(), s.desc().c_str());
    rep().sample(fmt("{\"request\":\"%s\",\"exception\":\"%s\"}", what.c_str(), msg.substr(0, 80).c_str()));
  }
}

// ================================================================= C09 distribution
static void on_alarm(int) {
  const char m[] = "\nVIOL C09 hang case=-1 distributed run did not finish in time (deadlock?)\n";
  ssize_t w = write(1, m, sizeof m - 1);
  (void)w;
  _exit(3);
}
static void mode_c09() {
  int wr, ws;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &ws);
  rep().quiet_rank = wr != 0;
  signal(SIGALRM, on_alarm);
  auto& P = pm::st();
  for (long i = A.a; i < A.b; ++i) {
    int stop = rep().over();
    PMPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (stop) break;
    rep().begin_case(i);
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = cmp_profile(h);
    g.maxiter_lo = 3; g.maxiter_hi = 14;
    g.max_keys = 8;
    if ((h >> 3) % 4 == 0) g.smears = {MP, COLD};
    Scn s = gen(h, g);
    if (!monotone(s.smear)) s.T = 3e5;
    if (i % 7 == 3) { s.maxiter = 25 + (int)(h % 40); s.tol = 1e-16; }
    Rng q(h ^ 0x909);
    bool empties = q.p(0.25);  // ranks without k-points
    while (!empties && (int)s.k.size() < ws) {
      size_t n0 = s.k.size();
      int mx = s.k[0].key.first, mn = mx;
      for (auto& k : s.k) { mx = std::max(mx, k.key.first); mn = std::min(mn, k.key.first); }
      for (size_t z = 0; z < n0; ++z) { KPoint k = s.k[z]; k.key.first += mx - mn + 1; k.w /= 2; s.k[z].w /= 2; s.k.push_back(k); }
      s.order.clear();
      for (size_t z = 0; z < s.k.size(); ++z) s.order.push_back((int)z);
    }
    // distribution
    std::vector<int> owner(s.k.size());
    std::string dist_name;
    int dk = q.i(0, 3);
    if (empties) {
      std::vector<int> who;
      for (int z = 0; z < ws; ++z) if (q.p(0.5)) who.push_back(z);
      if (who.empty()) who.push_back(q.i(0, ws - 1));
      for (auto& z : owner) z = q.pick(who);
      dist_name = "empty-ranks";
    } else if (dk == 0) { for (size_t z = 0; z < owner.size(); ++z) owner[z] = (int)(z * ws / owner.size()); dist_name = "blocks"; }
    else if (dk == 1) { for (size_t z = 0; z < owner.size(); ++z) owner[z] = (int)(z % ws); dist_name = "cyclic"; }
    else if (dk == 2) { for (size_t z = 0; z < owner.size(); ++z) owner[z] = z < (size_t)ws ? (int)z : q.i(0, ws - 1); dist_name = "random"; }
    else { for (size_t z = 0; z < owner.size(); ++z) owner[z] = z < (size_t)ws ? (int)(ws - 1 - z) : 0; dist_name = "lopsided"; }
    for (size_t z = owner.size(); z > 1; --z) { size_t y = q.next() % z; std::swap(s.k[z - 1], s.k[y]); }
    RunOpt so;
    so.check_owner = false;
    std::string own = fmt("rank%d", wr);
    mkdir(own.c_str(), 0755);
    if (chdir(own.c_str())) return;
    rep().muted++;
    Rec ser = run_nlcg(s, so);
    Sens z = sensitivity(s, ser);
    rep().muted--;
    if (chdir("..")) return;
    RunOpt d;
    d.check_owner = false;
    d.comm = MPI_COMM_WORLD;
    d.use_local = true;
    for (size_t z = 0; z < s.k.size(); ++z) if (owner[z] == wr) d.local.push_back((int)z);
    d.json = false;
    // all ranks in one directory, or each in its own
    bool apart = q.p(0.4);
    if (apart && chdir(own.c_str())) return;
    if (apart) { remove("nlcg.json"); remove("nlcg.out"); }
    PMPI_Barrier(MPI_COMM_WORLD);
    P.log.clear();
    P.record = true;
    P.delay_prob = q.p(0.5) ? 0.05 : 0;
    P.rng = Rng(mix(h, 100 + wr));
    alarm(120);
    Rec r = run_nlcg(s, d);
    P.record = false;
    P.delay_prob = 0;
    PMPI_Barrier(MPI_COMM_WORLD);
    alarm(0);
    // collective sequences
    std::string all;
    for (auto& x : P.log) { all += x; all += ' '; }
    uint64_t hh = hash_bytes(all.data(), all.size(), 99);
    std::vector<uint64_t> hs(ws);
    PMPI_Allgather(&hh, 1, MPI_UINT64_T, hs.data(), 1, MPI_UINT64_T, MPI_COMM_WORLD);
    rep().stat("collectives_recorded", (long)P.log.size());
    for (int z = 0; z < ws; ++z)
      if (hs[z] != hs[0] && wr == 0) { rep().viol("C09", "collectives", "ranks 0 and %d issued different sequences of collectives (%zu calls on rank 0); %s", z, P.log.size(), s.desc().c_str()); break; }
    // history, rank by rank, against the serial run
    if (wr == 0) {
      note(s, r);
      read_json(r, "nlcg.json");
      JudgeOpt jo;
      jo.local_all = false;
      judge(s, r, jo);
      rep().stat("distributed_runs");
      rep().token("distributions", fmt("np%d/%s/k%zu", ws, dist_name.c_str(), s.k.size()));
      rep().sample(fmt("{\"np\":%d,\"dist\":\"%s\",\"scn\":%s}", ws, dist_name.c_str(), s.desc().c_str()));
    }
    if (apart) {
      if (wr != 0 && access("nlcg.json", F_OK) == 0) rep().viol("C14", "rank", "rank %d of %d writes a step log of its own; %s", wr, ws, s.desc().c_str());
      if (wr != 0 && access("nlcg.out", F_OK) == 0) rep().viol("C25", "rank", "rank %d of %d writes a text log of its own; %s", wr, ws, s.desc().c_str());
      if (chdir("..")) return;
    }
    need_return("C09", s, r);
    if (r.returned && ser.returned) {
      Rec rr = r;
      if (rr.js.empty()) { rr.js = ser.js; if (rr.js.size() > rr.acc.size()) rr.js.resize(rr.acc.size()); }  // energies only
      compare_runs("C09", "history", s, ser, rr, z, Cmp(), 6, fmt("rank %d of %d (%s)", wr, ws, dist_name.c_str()));
    } else if (r.returned != ser.returned && !excusable(s, r) && !excusable(s, ser))
      rep().viol("C09", "outcome", "serial run returned=%d, distributed returned=%d (%s); %s", (int)ser.returned, (int)r.returned, r.exc.c_str(), s.desc().c_str());
    // identical summary on all ranks
    double mine[6] = {r.info.F, r.info.S, r.info.tolerance, (double)r.info.iter, (double)r.info.converged, r.last.mu};
    std::vector<double> allv(6 * ws);
    PMPI_Allgather(mine, 6, MPI_DOUBLE, allv.data(), 6, MPI_DOUBLE, MPI_COMM_WORLD);
    for (int z = 0; z < ws; ++z)
      for (int w = 0; w < 6; ++w)
        if (wr == 0 && r.returned && std::memcmp(&allv[6 * z + w], &allv[w], 8) && !(std::abs(allv[6 * z + w] - allv[w]) <= 1e-11 * (1 + std::abs(allv[w])))) { rep().viol("C09", "summary", "rank %d returned a different summary than rank 0 (field %d: %.17g / %.17g); %s", z, w, allv[6 * z + w], allv[w], s.desc().c_str()); z = ws; break; }
    PMPI_Barrier(MPI_COMM_WORLD);
  }
}

#include "c08.hpp"
#include "c08b.hpp"

// ================================================================= console and text log
// everything written to standard output (by C or C++ streams) while the object lives
struct Capture {
  int keep = -1;
  std::string file;
  std::ios_base::iostate st;
  Capture() {
    fflush(stdout);
    st = std::cout.rdstate();
    std::cout.clear();
    file = fmt(".cap.%d", (int)getpid());
    keep = dup(1);
    int f = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(f, 1);
    close(f);
  }
  std::string end() {
    std::cout.flush();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    keep = -1;
    std::cout.clear();
    std::cout.setstate(st);
    std::ifstream in(file, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    remove(file.c_str());
    return ss.str();
  }
  ~Capture() { if (keep >= 0) end(); }
};
static std::vector<double> numbers(const std::string& t) {
  std::vector<double> v;
  for (size_t i = 0; i < t.size();) {
    char c = t[i];
    bool start = isdigit((unsigned char)c) || ((c == '-' || c == '+') && i + 1 < t.size() && isdigit((unsigned char)t[i + 1]));
    if (start && (i == 0 || !(isalnum((unsigned char)t[i - 1]) || t[i - 1] == '_'))) {
      char* e;
      v.push_back(strtod(t.c_str() + i, &e));
      i = e - t.c_str();
    } else ++i;
  }
  return v;
}

// ================================================================= C24 overlap self-check
// exported by the library, although its header does not declare it
namespace nlcglib { void nlcheck_overlap(EnergyBase&, OverlapBase&, OverlapBase&) __attribute__((weak)); }
static void mode_c24() {
  if (!nlcglib::nlcheck_overlap) { rep().stat("overlap_checks"); rep().token("overlap_kinds", "not exported"); return; }
  int wr, ws;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &ws);
  rep().quiet_rank = wr != 0;
  std::string own = fmt("rank%d", wr);
  mkdir(own.c_str(), 0755);
  if (chdir(own.c_str())) return;
  for (long i = A.a; i < A.b; ++i) {
    int stop = rep().over();
    PMPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (stop) break;
    rep().begin_case(i);
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = profile("general", h);
    Scn s = gen(h, g);
    Rng q(h ^ 0x24);
    int kind = q.i(0, 3);
    const char* kn[] = {"exact inverse", "scaled inverse", "perturbed inverse", "unrelated operator"};
    double eps = q.logu(1e-7, 1);
    for (auto& k : s.k) {
      Mat inv = solve(k.S, eye(k.n));
      if (kind == 1) for (auto& x : inv.a) x *= 1 + eps;
      if (kind == 2) { Mat d = rnd(q, k.n, k.n); for (size_t z = 0; z < inv.a.size(); ++z) inv.a[z] += eps * d.a[z]; }
      if (kind == 3) inv = rnd(q, k.n, k.n);
      k.P = inv;
    }
    Ctx c;
    std::vector<int> loc;
    for (size_t z = 0; z < s.order.size(); ++z) if ((int)(z % ws) == wr) loc.push_back(s.order[z]);
    if ((int)s.order.size() < ws) continue;
    c.setup(s, loc, ws > 1 ? MPI_COMM_WORLD : MPI_COMM_SELF);
    if (q.p(0.3)) for (auto& x : c.X) { double f = q.u(0.3, 3); Mat m = x->get(); for (auto& v : m.a) v *= f; x->set(m); }  // need not be normalised
    MockEnergy e(c);
    MockOp<nlcglib::OverlapBase> S(c, true, nullptr), Si(c, false, nullptr);
    S.check_owner = Si.check_owner = false;
    double v[5] = {0, 0, 0, 0, 0}, scale = 0;
    for (size_t l = 0; l < c.local.size(); ++l) {
      const KPoint& k = c.kp((int)l);
      Mat x = c.X[l]->get(), sx = mul(k.S, x), si = mul(k.P, x), y = mul(k.P, sx);
      auto sq = [](const Mat& m) { double f = fro(m); return f * f; };
      v[0] += sq(x); v[1] += sq(sx); v[2] += sq(si);
      Mat t = hmul(x, sx);
      for (int b = 0; b < t.r; ++b) v[3] += t(b, b).real();
      Mat d = x;
      for (size_t z = 0; z < d.a.size(); ++z) d.a[z] -= y.a[z];
      v[4] += sq(d);
      scale += sq(x) + fro(k.P) * fro(k.P) * fro(k.S) * fro(k.S) * sq(x);
    }
    for (auto& x : v) x = c.reduce(x);
    scale = std::sqrt(c.reduce(scale));
    double want[5] = {std::sqrt(v[0]), std::sqrt(v[1]), std::sqrt(v[2]), v[3], std::sqrt(v[4])};
    const char* nm[5] = {"|X|", "|SX|", "|S^-1 X|", "tr(X^H S X)", "|X - S^-1 S X|"};
    Capture cap;
    std::string exc;
    std::vector<Mat> X0;
    for (auto& x : c.X) X0.push_back(x->get());
    try { nlcglib::nlcheck_overlap(e, S, Si); } catch (std::exception& ex) { exc = ex.what(); }
    std::string out = cap.end();
    rep().stat("overlap_checks");
    rep().token("overlap_kinds", fmt("%s/np%d/k%zu", kn[kind], ws, s.k.size()));
    if (!exc.empty()) { rep().viol("C24", "exception", "overlap check of a valid problem ended in '%s'; %s", exc.c_str(), s.desc().c_str()); continue; }
    c.guards("nlcheck_overlap");
    for (size_t l = 0; l < X0.size(); ++l) if (dist(X0[l], c.X[l]->get()) > 0) rep().viol("C24", "modified", "the overlap check modified the orbitals; %s", s.desc().c_str());
    if (c.ncompute || c.nsetfn) rep().viol("C24", "modified", "the overlap check changed the state of the energy object; %s", s.desc().c_str());
    if (wr != 0 && out.empty()) continue;
    std::vector<double> num = numbers(out);
    for (int w = 0; w < 5; ++w) {
      // six digits are printed; the deviation of an exact inverse is rounding noise
      double tol = 1e-5 * std::abs(want[w]) + (w == 4 ? 1e-11 * scale : 1e-300);
      bool ok = false;
      double best = NAN;
      for (double x : num) { if (!(std::abs(x - want[w]) >= std::abs(best - want[w]))) best = x; ok = ok || std::abs(x - want[w]) <= tol; }
      if (!ok) rep().viol("C24", "value", "%s = %.9g is not among the reported numbers (closest %.9g), %s; %s; output: %s", nm[w], want[w], best, kn[kind], s.desc().c_str(), out.substr(0, 300).c_str());
    }
    rep().sample(fmt("{\"kind\":\"%s\",\"deviation\":%.6g,\"scn\":%s}", kn[kind], want[4], s.desc().c_str()));
  }
  if (chdir("..")) return;
}

// ================================================================= C25 text log
struct TextRec { int step; double F, slope; std::vector<double> S, mu, E; };
struct TextLog { std::vector<TextRec> r; bool success = false, error = false, junk = false; size_t bytes = 0; std::map<std::string, double> par; };
static TextLog parse_log(const std::string& t) {
  TextLog L;
  L.bytes = t.size();
  for (unsigned char ch : t) if (ch == 0 || ch > 126) L.junk = true;
  std::stringstream in(t);
  std::string l;
  while (std::getline(in, l)) {
    int step, n = 0;
    double F, sl;
    if (!l.empty() && isdigit((unsigned char)l[0]) && sscanf(l.c_str(), "%d %lf %lf%n", &step, &F, &sl, &n) == 3) { L.r.push_back({step, F, sl, {}, {}, {}}); continue; }
    if (l.find("SUCCESS") != std::string::npos) L.success = true;
    if (l.find("[NLCG] Error") != std::string::npos) L.error = true;
    size_t c = l.find(':');
    if (c == std::string::npos) continue;
    char* e;
    double v = strtod(l.c_str() + c + 1, &e);
    if (e == l.c_str() + c + 1) continue;
    std::string key = l.substr(0, c);
    while (!key.empty() && isspace((unsigned char)key.back())) key.pop_back();
    while (!key.empty() && isspace((unsigned char)key[0])) key.erase(0, 1);
    if (L.r.empty()) { L.par[key] = v; continue; }
    if (key == "kT * S") L.r.back().S.push_back(v);
    if (key == "Fermi energy") L.r.back().mu.push_back(v);
    if (key == "KS energy" || key == "KS-energy") L.r.back().E.push_back(v);
  }
  return L;
}
static std::string slurp(const char* f) { std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); return ss.str(); }
static void judge_log(const char* where, const Scn& s, const Rec& r, const std::string& text, bool header, const std::string& before) {
  TextLog L = parse_log(text);
  auto V = [&](const char* k, const std::string& m) { rep().viol("C25", k, "%s: %s (run before: %s); %s", where, m.c_str(), before.c_str(), s.desc().c_str()); };
  rep().stat("logs_checked");
  rep().stat("log_records", (long)L.r.size());
  if (L.junk) V("junk", "contains bytes that are not text");
  if (L.r.size() != r.acc.size() || r.js.size() != r.acc.size()) { V("count", fmt("%zu iterations reported, %zu accepted states, %zu step records", L.r.size(), r.acc.size(), r.js.size())); return; }
  auto near = [](double a, double b) { return std::abs(a - b) <= 1e-12 * (1 + std::abs(b)); };  // 13 digits
  for (size_t k = 0; k < L.r.size(); ++k) {
    auto& x = L.r[k];
    const Acc& a = r.acc[k];
    double F = r.js[k].value("F", (double)NAN), sl = r.js[k].value("slope_x", (double)NAN), S = r.js[k].value("entropy", (double)NAN);
    if (x.step != (int)k) { V("step", fmt("record %zu is numbered %d", k, x.step)); return; }
    if (!near(x.F, F)) { V("F", fmt("iteration %zu: free energy %.14g reported, %.14g in the step log", k, x.F, F)); return; }
    if (!(std::abs(x.slope - sl) <= 1e-12 * std::abs(sl))) { V("slope", fmt("iteration %zu: residual %.14g reported, %.14g in the step log", k, x.slope, sl)); return; }
    if (x.S.empty() || x.mu.empty() || x.E.empty()) { V("fields", fmt("iteration %zu: entropy, Fermi energy or energy missing", k)); return; }
    for (double v : x.S) if (!near(v, S)) { V("S", fmt("iteration %zu: entropy term %.14g reported, is %.14g", k, v, S)); return; }
    for (double v : x.mu) if (!near(v, a.mu)) { V("mu", fmt("iteration %zu: Fermi energy %.14g reported, is %.14g", k, v, a.mu)); return; }
    for (double v : x.E) if (!near(v, a.E) && !(std::abs(v - a.E) < 1e-12 * (1 + std::abs(F) + std::abs(S)))) { V("E", fmt("iteration %zu: energy %.14g reported, is %.14g", k, v, a.E)); return; }
  }
  if (L.success != r.info.converged) V("success", fmt("%s, but the run %s", L.success ? "success reported" : "success not reported", r.info.converged ? "converged" : "did not converge"));
  bool aborted = !r.info.converged && r.info.iter + 1 < s.maxiter;
  if (header) {
    if (aborted && !L.error) V("error", "the run was given up early, but no error is logged");
    // a run given up in its last permitted iteration cannot be told from a complete one
    if (L.error && (r.info.converged || r.info.iter + 1 < std::min(s.maxiter, (int)r.acc.size()))) V("error", "an error is logged although the run was not given up");
    auto P = [&](const char* k, double v) {
      auto it = L.par.find(k);
      if (it == L.par.end()) V("parameter", fmt("parameter %s missing", k));
      else if (!(std::abs(it->second - v) <= 1e-5 * std::abs(v))) V("parameter", fmt("parameter %s is %g, %g logged", k, v, it->second));
    };
    P("T", s.T); P("maxiter", s.maxiter); P("tol", s.tol); P("kappa", s.kappa); P("tau", s.tau); P("restart", s.restart);
    rep().stat("headers_checked");
  }
}
// a chain of runs in one process: after each of them nlcg.out and the console describe that run and no other
static void mode_c25() {
  int wr, ws;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &ws);
  rep().quiet_rank = wr != 0;
  for (long i = A.a; i < A.b; ++i) {
    int stop = rep().over();
    PMPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (stop) break;
    rep().begin_case(i);
    uint64_t h = mix(A.seed, (uint64_t)i);
    Rng q(h ^ 0x25);
    std::string before = "none";
    for (int n = 0; n < 4; ++n) {
      int kind = q.i(0, 4);
      if (ws > 1 && kind == 3) kind = 0;
      const char* kn[] = {"normal", "short", "aborted", "failed", "converging"};
      GenOpt g = profile(kind == 4 ? "general" : "short", mix(h, n));
      if (kind == 2) { g.maxiter_lo = 8; g.maxiter_hi = 14; }
      if (ws > 1) g.max_keys = 8;
      Scn s = gen(mix(h, n), g);
      if (kind == 1) s.maxiter = q.i(0, 2);
      if (kind == 4) s.tol = q.logu(1e-6, 1e-2);
      if (kind == 2) s.tol = 1e-14;
      RunOpt o;
      o.check_owner = false;
      int it = 0, k0 = q.i(1, 6);
      std::vector<Mat> accD;
      if (kind == 2) {
        o.on_accept = [&](Ctx& c) { ++it; accD = accepted_densities(c); };
        o.lie = [&](Ctx& c, double E) {
          double dm = 0;
          if (it >= k0 && !accD.empty()) { auto d = densities(c); for (size_t l = 0; l < d.size(); ++l) dm = std::max(dm, c.kp(l).w * dist(d[l], accD[l])); }
          if (c.nranks > 1) { double m; PMPI_Allreduce(&dm, &m, 1, MPI_DOUBLE, MPI_MAX, c.comm); dm = m; }
          return dm > SAME ? E + 10 : E;
        };
      }
      if (kind == 3) o.fault_at = q.i(5, 400);
      if (ws > 1) {
        while ((int)s.k.size() < ws) {
          size_t n0 = s.k.size();
          int mx = s.k[0].key.first, mn = mx;
          for (auto& k : s.k) { mx = std::max(mx, k.key.first); mn = std::min(mn, k.key.first); }
          for (size_t z = 0; z < n0; ++z) { KPoint k = s.k[z]; k.key.first += mx - mn + 1; k.w /= 2; s.k[z].w /= 2; s.k.push_back(k); }
        }
        o.comm = MPI_COMM_WORLD;
        o.use_local = true;
        for (size_t z = 0; z < s.k.size(); ++z) if ((int)(z % ws) == wr) o.local.push_back((int)z);
        o.json = false;
      }
      // all ranks in one directory, or each in its own
      bool apart = ws > 1 && q.p(0.5);
      if (apart) { std::string own = fmt("rank%d", wr); mkdir(own.c_str(), 0755); if (chdir(own.c_str())) return; remove("nlcg.out"); }
      PMPI_Barrier(MPI_COMM_WORLD);
      Capture cap;
      Rec r = run_nlcg(s, o);
      std::string con = cap.end();
      PMPI_Barrier(MPI_COMM_WORLD);
      rep().token("chains", before + ">" + kn[kind] + fmt("/np%d", ws));
      if (r.returned && wr == 0) {
        if (ws > 1) read_json(r, "nlcg.json");
        judge_log("nlcg.out", s, r, slurp("nlcg.out"), true, before);
        judge_log("console", s, r, con, false, before);
        rep().stat(kind == 2 && !r.info.converged && r.info.iter + 1 < s.maxiter ? "aborted_runs" : "other_runs");
      } else if (wr != 0 && parse_log(con).r.size()) rep().viol("C25", "rank", "rank %d writes the iteration table to its console, too", wr);
      if (apart) {
        if (wr != 0 && access("nlcg.out", F_OK) == 0) rep().viol("C25", "rank", "rank %d of %d writes a text log of its own", wr, ws);
        if (chdir("..")) return;
      }
      if (r.returned || r.fault) before = kn[kind];
      if (n == 0) rep().sample(s.desc());
    }
  }
}

static int other_modes() {
  if (A.mode == "c24") { mode_c24(); return 0; }
  if (A.mode == "c25") { mode_c25(); return 0; }
  if (A.mode == "c07") mode_c07();
  else if (A.mode == "c08") mode_c08();
  else if (A.mode == "c08long") mode_c08long();
  else if (A.mode == "c08edge") mode_c08edge();
  else if (A.mode == "c09") mode_c09();
  else if (A.mode == "c10") mode_c10();
  else if (A.mode == "c15") mode_c15();
  else if (A.mode == "c16") mode_c16();
  else if (A.mode == "c20") mode_c20();
  else if (A.mode == "c22") mode_c22();
  else { fprintf(stderr, "unknown mode\n"); return 2; }
  return 0;
}
