// C08: search directions, recovered from the states the library asks to evaluate.
// Included into drv.cpp (after modes' helpers).
//
// Trial states are X' = (X + t z) M^{-1/2} U with M = (X+tz)^H S (X+tz) and U the eigenvectors of
// diag(e) + t z_eta.  For tangent z: A = X^H S X' = M^{-1/2} U, hence X' A^{-1} - X = t z and
// U = M^{1/2} A, so that both parts of the direction and the rotation can be read off X, X'.
struct Dir { std::vector<Mat> x, eta; double fr = 0, slope = 0, err = 0; bool ok = false; };  // err: relative uncertainty of the reference

struct C08State {
  std::vector<Mat> X, HX;
  std::vector<std::vector<double>> f, e;
  double mu = 0;
};

static double retr(const Mat& a, const Mat& b) { double s = 0; for (size_t i = 0; i < a.a.size(); ++i) s += (std::conj(a.a[i]) * b.a[i]).real(); return s; }

// gradient with respect to eta at diagonal eta = diag(e)
static std::vector<Mat> ref_geta(const Scn& s, const Ctx& c, const C08State& st, const std::vector<Mat>& hij, bool* singular) {
  double kT = s.kT();
  ld a = 0, b = 0, aa = 0;
  for (size_t l = 0; l < st.e.size(); ++l)
    for (int i = 0; i < c.kp(l).nb; ++i) {
      ld d = s.occ * ref_delta(s.smear, ((ld)st.mu - st.e[l][i]) / kT) * c.kp(l).w;
      a += d;
      aa += fabsl(d);
      b += d * (hij[l](i, i).real() - st.e[l][i]);
    }
  *singular = std::abs(c.reduce((double)a)) < 1e-3 * c.reduce((double)aa);  // first-order schemes: no response to mu
  double ga = c.reduce((double)a), gb = c.reduce((double)b);
  std::vector<Mat> g;
  for (size_t l = 0; l < st.e.size(); ++l) {
    int nb = c.kp(l).nb;
    double w = c.kp(l).w;
    Mat m(nb, nb);
    for (int j = 0; j < nb; ++j)
      for (int i = 0; i < nb; ++i) {
        ld ei = st.e[l][i], ej = st.e[l][j];
        if (i == j) {
          ld d = s.occ * ref_delta(s.smear, ((ld)st.mu - ei) / kT);
          double v = (double)(-w / kT * (hij[l](i, i).real() - (double)ei) * d);
          if (std::abs(ga) >= 1e-12) v += (double)(w * d / ga * gb / kT);
          m(i, i) = v;
        } else {
          ld q;
          if (fabsl(ei - ej) < 1e-5L * kT) q = -s.occ * ref_delta(s.smear, ((ld)st.mu - (ei + ej) / 2) / kT) / kT;
          else q = s.occ * (ref_f(s.smear, ((ld)st.mu - ej) / kT) - ref_f(s.smear, ((ld)st.mu - ei) / kT)) / (ej - ei);
          m(i, j) = w * (double)q * hij[l](i, j);
        }
      }
    g.push_back(m);
  }
  return g;
}

// restart direction and, if a previous direction is given, the conjugated one
static void ref_dirs(const Scn& s, const Ctx& c, const C08State& st, const Dir* prev, const std::vector<Mat>* U, double ee, Dir* R, Dir* C) {
  size_t nl = st.X.size();
  std::vector<Mat> hij(nl), sx(nl), gx(nl);
  *R = Dir();
  for (size_t l = 0; l < nl; ++l) {
    const KPoint& k = c.kp(l);
    sx[l] = mul(k.S, st.X[l]);
    hij[l] = hmul(st.X[l], st.HX[l]);
    Mat psx = mul(k.P, sx[l]);
    Mat ll = solve(hmul(sx[l], psx), hmul(psx, st.HX[l]));
    Mat r = add(mul(sx[l], ll), st.HX[l], -1.0);
    R->x.push_back(mul(k.P, r));
    Mat de = hij[l];
    for (int i = 0; i < k.nb; ++i) de(i, i) -= st.e[l][i];
    for (auto& v : de.a) v *= s.kappa;
    R->eta.push_back(de);
    gx[l] = st.HX[l];
    for (int j = 0; j < k.nb; ++j) for (int i = 0; i < k.n; ++i) gx[l](i, j) *= k.w * st.f[l][j];
  }
  bool singular;
  auto ge = ref_geta(s, c, st, hij, &singular);
  double fr = 0, frabs = 0, zx = 0, ze_ = 0;
  for (size_t l = 0; l < nl; ++l) { frabs += 2 * fro(gx[l]) * fro(R->x[l]) + fro(ge[l]) * fro(R->eta[l]); zx += fro(R->x[l]); ze_ += fro(R->eta[l]); }
  frabs = c.reduce(frabs);
  for (size_t l = 0; l < nl; ++l) fr += 2 * retr(gx[l], R->x[l]) + retr(ge[l], R->eta[l]);
  R->fr = R->slope = c.reduce(fr);
  R->ok = true;
  R->err = (singular ? 1 : 1e-13) + s.kappa * ee / (1e-300 + ze_);
  double relfr = (1e-13 + ee / s.kT() + R->err) * frabs / (std::abs(R->fr) + 1e-300);
  *C = Dir();
  if (!prev || !prev->ok || !U || prev->fr == 0) return;
  double gamma = R->fr / prev->fr, sl = 0;
  for (size_t l = 0; l < nl; ++l) {
    Mat zp = mul(prev->x[l], (*U)[l]);
    Mat corr = solve(hmul(sx[l], sx[l]), hmul(sx[l], zp));
    zp = add(zp, mul(sx[l], corr), -1.0);
    Mat ze = hmul((*U)[l], mul(prev->eta[l], (*U)[l]));
    sl += 2 * retr(gx[l], zp) + retr(ge[l], ze);
    C->x.push_back(add(R->x[l], zp, gamma));
    C->eta.push_back(add(R->eta[l], ze, gamma));
  }
  C->fr = R->fr;
  C->slope = R->fr + gamma * c.reduce(sl);
  C->ok = true;
  double zc = 0, zp0 = 0;
  for (size_t l = 0; l < nl; ++l) { zc += fro(C->x[l]) + fro(C->eta[l]); zp0 += fro(prev->x[l]) + fro(prev->eta[l]); }
  C->err = R->err * (1 + (zx + ze_) / (zc + 1e-300)) + (relfr + prev->err) * 2 * std::abs(gamma) * zp0 / (zc + 1e-300);
}

static void mode_c08() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = profile("short", h);
    Rng q(h ^ 0x808);
    g.smears = {FD, GS, GAUSS, FD, MP, COLD};
    g.ekinds = {LINEAR, CONVEX, ROUGH};
    g.maxiter_lo = 6; g.maxiter_hi = 16;
    g.Tmin = 1500; g.Tmax = 80000;
    Rng qx(h ^ 0x80808);
    g.unit = 0.2;
    bool lengthy = qx.p(0.03);
    if (lengthy) { g.ekinds = {ROUGH}; g.maxiter_lo = 60; g.maxiter_hi = 150; g.max_keys = 2; }
    Scn s = gen(h, g);
    s.tol = 1e-12;
    s.restart = q.pick(std::vector<int>{1, 2, 3, 4, 6, 1000, 1000, 1000});
    if (!monotone(s.smear)) s.T = q.u(3e4, 3e5) * s.unit;
    if (lengthy) s.restart = qx.i(3, 120);
    // at one iteration every step is reported as going uphill: reset and restart must follow
    int lie_it = q.p(0.35) ? q.i(0, 5) : -1;
    double big = q.u(0.5, 5) * s.unit;

    C08State st;
    std::vector<std::vector<double>> e0;
    Dir cur, candR, candC;          // direction in use; its candidates until the first usable trial decides
    bool decided = false, have = false, dead = false, uphill_before = false, reset_before = false;
    int it = -1;
    std::vector<Mat> lastU;          // rotation of the last trial
    std::vector<std::vector<double>> laste;
    double lastt = 0, ee = 1e-13, lastee = 0;  // ee: uncertainty of the levels
    bool pending = false, last_ok = false;
    std::vector<Mat> pX;
    std::vector<std::vector<double>> pf;
    std::vector<std::string> note_;
    struct SlopeRef { int it; double R, C; int kind; };
    std::vector<SlopeRef> slopes;
    auto flush = [&](Ctx& c) {
      if (!pending) return;
      pending = false;
      last_ok = false;
      if (!have || dead) return;
      size_t nl = pX.size();
      std::vector<Mat> d(nl), Ai(nl), Aa(nl);
      double noise = 0;
      std::vector<double> nk(nl);
      for (size_t l = 0; l < nl; ++l) {
        const KPoint& k = c.kp(l);
        Aa[l] = hmul(st.X[l], mul(k.S, pX[l]));
        Ai[l] = solve(Aa[l], eye(k.nb));
        if (!finite(Ai[l])) { dead = true; rep().stat("directions_singular"); return; }
        nk[l] = 3e-14 * (1 + fro(Ai[l])) * (1 + fro(Aa[l])) * (1 + fro(st.X[l]));
        noise += nk[l];
        d[l] = add(mul(pX[l], Ai[l]), st.X[l], -1.0);
      }
      if (noise > 1e-7) { dead = true; rep().stat("directions_step_too_long"); return; }
      auto fit = [&](const Dir& z, double* t) -> double {  // worst misfit of the orbital part
        double a = 0, b = 0;
        for (size_t l = 0; l < nl; ++l) { a += retr(z.x[l], d[l]); b += retr(z.x[l], z.x[l]); }
        *t = b > 0 ? a / b : 0;
        double w = 0;
        for (size_t l = 0; l < nl; ++l) {
          double tz = std::abs(*t) * fro(z.x[l]);
          w = std::max(w, fro(add(d[l], z.x[l], -*t)) / (3e-6 * tz + 1e3 * nk[l]));
        }
        return w;
      };
      double sz = 0;
      for (size_t l = 0; l < nl; ++l) sz = std::max(sz, fro(d[l]));
      double t = 0, t2 = 0;
      if (!decided) {
        if (sz < 1e6 * noise || sz < 1e-9) {
          // nothing to see (e.g. square problem or a tiny step)
          dead = true;
          rep().stat("directions_invisible");
          return;
        }
        double mR = fit(candR, &t), mC = candC.ok ? fit(candC, &t2) : 1e300;
        double differ = 0;
        if (candC.ok) for (size_t l = 0; l < nl; ++l) differ = std::max(differ, fro(add(candC.x[l], candR.x[l], -1.0)) / (1e-300 + fro(candR.x[l])));
        bool period = it == 0 || (it - 1) % s.restart == 0;
        bool mustR = period || reset_before, mustC = !mustR && candC.ok && !uphill_before && candC.slope < -1e-9;
        bool isR = mR <= 1, isC = mC <= 1;
        rep().stat("directions_compared");
        rep().token("direction_classes", fmt("%s/%s/S%d/P%d/o%d/r%d", smear_name(s.smear), isC && !isR ? "cg" : "sd", s.skind, s.pkind, s.occ, reset_before));
        if (A.geti("trace", 0)) printf("TRACE it %d R %.2e C %.2e differ %.1e t %.4g %.4g must %d%d noise %.1e sz %.1e fr %.3g\n", it, mR, mC, differ, t, t2, mustR, mustC, noise, sz, candR.fr);
        if (!isR && !isC) {
          rep().viol("C08", "direction", "iteration %d: the step taken is along neither the restart direction (misfit %.2e of allowed) nor the conjugated direction (%.2e); %s", it, mR, mC, s.desc().c_str());
          dead = true;
          return;
        }
        if (differ > 1e-3) {
          if (mustR && !isR) rep().viol("C08", "not-restarted", "iteration %d: %s, but the direction is conjugated to the previous one; %s", it, period ? fmt("restart period %d", s.restart).c_str() : "the previous line search was reset", s.desc().c_str());
          if (mustC && !isC) rep().viol("C08", "not-conjugated", "iteration %d (restart period %d): steepest descent instead of the conjugated direction; %s", it, s.restart, s.desc().c_str());
        }
        // both fit if they are parallel (e.g. after a reset)
        bool useC = isC && (!isR || (!mustR && candC.slope < 0 && (mustC || mC < mR)));
        rep().stat(useC ? "conjugated_directions" : "restart_directions");
        cur = useC ? candC : candR;
        if (!useC) uphill_before = candC.ok && !mustR;  // conjugation was abandoned: a restart is pending
        else uphill_before = false;
        decided = true;
        slopes.push_back({it, candR.slope, candC.ok ? candC.slope : NAN, useC});
      }
      double m = fit(cur, &t);
      lastt = t;
      if (m > 1 && sz > 1e6 * noise) rep().viol("C08", "step-direction", "iteration %d: a later step of the same line search leaves the search direction (misfit %.2e of allowed); %s", it, m, s.desc().c_str());
      // pseudo-Hamiltonian
      lastee = 0;
      double terr = cur.err + noise / (sz + 1e-300);
      lastU.assign(nl, Mat());
      laste.assign(nl, {});
      for (size_t l = 0; l < nl; ++l) {
        const KPoint& k = c.kp(l);
        Mat xt = add(st.X[l], d[l]);
        Mat M = hmul(xt, mul(k.S, xt));
        Mat U = mul(matfun(M, [](double x) { return std::sqrt(x); }), Aa[l]);
        // eta' = diag(e) + t z_eta
        Mat eta(k.nb, k.nb);
        for (int b = 0; b < k.nb; ++b) eta(b, b) = st.e[l][b];
        eta = add(eta, cur.eta[l], t);
        Mat W = hmul(U, mul(eta, U));
        double sc = 1 + maxabs(cur.eta[l]) * std::abs(t), off = 0;
        for (int a = 0; a < k.nb; ++a) for (int b = 0; b < k.nb; ++b) if (a != b) off = std::max(off, std::abs(W(a, b)));
        // t is known to relative accuracy sqrt(noise)-ish
        double emax = 0;
        for (double x : st.e[l]) emax = std::max(emax, std::abs(x));
        double tol = 3e-6 * std::abs(t) * maxabs(cur.eta[l]) + 1e3 * nk[l] * (sc + emax) + 1e-10;
        lastee = std::max(lastee, ee + (cur.err + (std::abs(t) > 1e-9 ? terr : 0)) * std::abs(t) * maxabs(cur.eta[l]) + nk[l] * (sc + emax));
        rep().stat("rotations_compared");
        if (off > tol)
          rep().viol("C08", "eta-direction", "iteration %d key %d,%d: orbitals were not rotated to the eigenvectors of eta + t z_eta (off-diagonal %.2e, allowed %.1e, t=%.4g); %s", it, k.key.first, k.key.second, off, tol, t, s.desc().c_str());
        std::vector<double> e(k.nb);
        for (int b = 0; b < k.nb; ++b) {
          e[b] = W(b, b).real();
          double x = (c.mu - e[b]) / s.kT();
          double f = s.occ * (double)ref_f(s.smear, x), slack = tol / s.kT();
          // allow for the uncertainty of x
          double f1 = s.occ * (double)ref_f(s.smear, x + slack), f2 = s.occ * (double)ref_f(s.smear, x - slack);
          double ft = std::abs(f1 - f) + std::abs(f2 - f) + 1e-9;
          rep().stat("occupations_compared");
          if (!(std::abs(pf[l][b] - f) <= ft))
            rep().viol("C08", "eta-levels", "iteration %d key %d,%d band %d: occupation %.12g, level %.9g of eta + t z_eta gives %.12g (t=%.4g); %s", it, k.key.first, k.key.second, b, pf[l][b], e[b], f, t, s.desc().c_str());
        }
        lastU[l] = U;
        laste[l] = e;
      }
      last_ok = true;
    };
    std::vector<Mat> accD;
    RunOpt o;
    o.check_owner = false;
    o.on_eval = [&](Ctx& c) {
      flush(c);
      if (c.ncompute == 1) { e0.clear(); for (size_t l = 0; l < c.local.size(); ++l) e0.push_back(c.ek[l]->get()); return; }
      if (it < 0) return;
      pX = c.curX;
      pf.clear();
      for (size_t l = 0; l < c.local.size(); ++l) pf.push_back(c.fn[l]->get());
      pending = true;
    };
    o.on_accept = [&](Ctx& c) {
      flush(c);
      ++it;
      if (lie_it == it) accD = accepted_densities(c);
      bool first = it == 0;
      if (!first && (!last_ok || dead)) { have = false; dead = true; return; }
      Dir prev = cur;
      std::vector<Mat> U = lastU;
      reset_before = !first && std::abs(lastt) * (fro(cur.x[0]) + fro(cur.eta[0])) < 1e-11 && std::abs(lastt) < 1e-9;
      st.X = c.curX;
      st.HX = c.HXcopy;
      st.f.clear();
      for (size_t l = 0; l < c.local.size(); ++l) st.f.push_back(c.fn[l]->get());
      st.e = first ? e0 : laste;
      st.mu = c.mu;
      ee = first ? 1e-13 : lastee;
      ref_dirs(s, c, st, first ? nullptr : &prev, first ? nullptr : &U, ee, &candR, &candC);
      decided = false;
      have = true;
      last_ok = false;
      if (std::abs(candR.fr) < 1e-6) { have = false; dead = true; }
      if (ee > 2e-7 * s.kT() || candR.err > 2e-7 || (candC.ok && candC.err > 2e-7)) { have = false; dead = true; rep().stat("directions_reference_inaccurate"); }
    };
    o.lie = [&](Ctx& c, double E) {
      if (it < 0 || it != lie_it || accD.empty()) return E;
      double dm = 0;
      auto d = densities(c);
      for (size_t l = 0; l < d.size(); ++l) dm = std::max(dm, c.kp(l).w * dist(d[l], accD[l]));
      return dm > SAME ? E + big : E;
    };
    Rec r = run_nlcg(s, o);
    note(s, r);
    need_return("C08", s, r);
    if (lie_it >= 0) rep().stat("runs_with_forced_reset");
    if (!r.returned || !r.json_ok) continue;
    for (auto& z : slopes) {
      if (z.it >= (int)r.js.size()) continue;
      double sl = num(r.js[z.it], "slope_x"), want = z.kind ? z.C : z.R;
      rep().stat("direction_slopes_compared");
      if (!(std::abs(sl - want) <= 1e-5 * (std::abs(want) + std::abs(z.R)) + 1e-9))
        rep().viol("C08", "slope", "iteration %d: reported slope %.12g, the %s direction has slope %.12g; %s", z.it, sl, z.kind ? "conjugated" : "restart", want, s.desc().c_str());
      if (!z.kind && monotone(s.smear) && sl > 1e-10)
        rep().viol("C08", "uphill", "iteration %d: restart direction points uphill (slope %.3g); %s", z.it, sl, s.desc().c_str());
    }
    rep().sample(s.desc());
  }
}
