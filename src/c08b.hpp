// C08, continued. Included after c08.hpp.

// rotation U (X' = (X + t z) M^{-1/2} U) and tangent step t z of one trial state
struct Step { std::vector<Mat> d, U; double size = 0, noise = 0; std::vector<double> nk; bool ok = false; };
static Step read_step(const Ctx& c, const std::vector<Mat>& X, const std::vector<Mat>& Xn) {
  Step s;
  for (size_t l = 0; l < X.size(); ++l) {
    const KPoint& k = c.kp(l);
    Mat A = hmul(X[l], mul(k.S, Xn[l])), Ai = solve(A, eye(k.nb));
    if (!finite(Ai)) return s;
    s.nk.push_back(3e-14 * (1 + fro(Ai)) * (1 + fro(A)) * (1 + fro(X[l])));
    s.noise += s.nk.back();
    s.d.push_back(add(mul(Xn[l], Ai), X[l], -1.0));
    s.size = std::max(s.size, fro(s.d.back()));
    Mat xt = add(X[l], s.d[l]);
    s.U.push_back(mul(matfun(hmul(xt, mul(k.S, xt)), [](double x) { return std::sqrt(x); }), A));
  }
  s.ok = s.noise < 1e-7;
  return s;
}

// ---------------------------------------------------------------- long runs
// The Hamiltonian drifts, which keeps a run going for hundreds of iterations, with line searches
// that end at the predicted minimum, in backtracking or in a reset.  Of every direction the orbital part is
// compared with the plane spanned by the restart direction and the transported previous direction,
// both obtained from the states themselves: nothing accumulates, so that the length does not matter.
static void mode_c08long() {
  std::map<int, std::array<long, 2>> at;  // iteration: restarts out of turn, directions
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = profile("short", h);
    Rng q(h ^ 0x8081);
    g.ekinds = {ROUGH, LINEAR, CONVEX};
    g.max_keys = 3; g.nmax = 7; g.unit = 0.1;
    g.Tmin = 3000; g.Tmax = 60000;
    Scn s = gen(h, g);
    s.maxiter = q.i(70, 260);
    s.tol = 1e-15 * s.unit;
    s.restart = q.p(0.6) ? 100000 : q.i(2, 160);
    s.tau = q.u(0.2, 0.6);
    double drift = q.logu(1e-4, 1e-2), off = 0, pb = q.pick(std::vector<double>{0, 0.05, 0.3}), pr = q.pick(std::vector<double>{0, 0, 0.02});
    int it = -1, ev = 0, plan = 0, bt = 0;
    double Facc = 0;
    std::vector<Mat> X, HX, D;
    std::vector<std::vector<Mat>> trials;  // states evaluated since
    std::vector<Mat> z, U;                 // previous direction (absolute scale) and rotation
    bool have_z = false, reset_before = false, stop = false;
    double zerr = 0;
    auto close_it = [&](Ctx& c) {          // iteration `it` has ended, c.curX is accepted next
      if (it < 0 || stop) return;
      size_t nl = X.size();
      Step st, fin;
      if (!trials.empty()) { st = read_step(c, X, trials[0]); fin = read_step(c, X, trials.back()); }
      bool period = it == 0 || (it - 1) % s.restart == 0, mustR = period || reset_before;
      reset_before = plan == 2;
      bool had = have_z;
      have_z = false;
      if (!(std::abs(c.mu) < 1e5 * s.unit + 1e3 * std::abs(s.Eoff))) { rep().stat("long_runs_stopped_wild"); stop = true; return; }
      if (!st.ok || !fin.ok) { rep().stat("long_step_too_long"); return; }
      if (st.size < 1e-8 || st.size < 1e7 * st.noise) { rep().stat("long_step_invisible"); return; }
      std::vector<Mat> R(nl), Z(nl);
      double rr = 0, rz = 0, zz = 0, rd = 0, zd = 0;
      for (size_t l = 0; l < nl; ++l) {
        const KPoint& k = c.kp(l);
        Mat sx = mul(k.S, X[l]), psx = mul(k.P, sx);
        R[l] = mul(k.P, add(mul(sx, solve(hmul(sx, psx), hmul(psx, HX[l]))), HX[l], -1.0));
        if (had) {
          Mat zp = mul(z[l], U[l]);
          Z[l] = add(zp, mul(sx, solve(hmul(sx, sx), hmul(sx, zp))), -1.0);
        } else Z[l] = Mat(k.n, k.nb);
        rr += retr(R[l], R[l]); rz += retr(R[l], Z[l]); zz += retr(Z[l], Z[l]);
        rd += retr(R[l], st.d[l]); zd += retr(Z[l], st.d[l]);
      }
      if (!(rr > 1e-14 * s.unit * s.unit)) { rep().stat("long_stationary"); return; }
      auto misfit = [&](double al, double be) {
        double w = 0;
        for (size_t l = 0; l < nl; ++l) {
          Mat f = add(add(st.d[l], R[l], -al), Z[l], -be);
          double sz = std::abs(al) * fro(R[l]) + std::abs(be) * fro(Z[l]);
          w = std::max(w, fro(f) / (3e-6 * sz + 1e3 * st.nk[l]));
        }
        return w;
      };
      double al1 = rd / rr, m1 = misfit(al1, 0);
      rep().stat("long_directions");
      double sin2 = zz > 0 ? 1 - rz * rz / (rr * zz) : 0;
      bool plane = had && sin2 > 1e-4 && zerr / std::sqrt(sin2) < 1e-8;
      double al = al1, be = 0, m2 = 1e300;
      if (plane) {
        double det = rr * zz - rz * rz;
        al = (rd * zz - zd * rz) / det; be = (zd * rr - rd * rz) / det;
        m2 = misfit(al, be);
      }
      double e0 = st.noise / st.size;
      if (mustR) {
        rep().stat("long_restarts_due");
        if (m1 > 30) {
          rep().viol("C08", plane && m2 <= 1 ? "not-restarted" : "direction", "iteration %d: %s, but the step is not along the restart direction (misfit %.2e of allowed); %s", it, period ? fmt("restart period %d", s.restart).c_str() : "the previous line search was reset", m1, s.desc().c_str());
          stop = true;
          return;
        }
      } else if (had && plane) {
        bool isR = m1 <= 1;
        if (!isR && m1 > 30 && m2 > 30) {
          rep().viol("C08", "direction", "iteration %d: the step is not a combination of the restart direction and the previous direction (misfit %.2e, %.2e of allowed); %s", it, m1, m2, s.desc().c_str());
          stop = true;
          return;
        }
        // (leaving a point that was stationary up to rounding, the weight is anything)
        if (!isR && std::abs(be) * std::sqrt(zz) < 100 * std::abs(al) * std::sqrt(rr) && !(be / al > 0)) rep().viol("C08", "gamma", "iteration %d: conjugated with a negative weight %.3g; %s", it, be / al, s.desc().c_str());
        at[it][1]++;
        if (isR) at[it][0]++;
        rep().stat(isR ? "long_restarts_uphill" : "long_conjugated");
      } else rep().stat("long_unresolved");
      // steps are positive: the scale of the direction does not matter
      z.assign(nl, Mat());
      double sc = 0;
      for (size_t l = 0; l < nl; ++l) sc += fro(st.d[l]);
      for (size_t l = 0; l < nl; ++l) { z[l] = st.d[l]; for (auto& v : z[l].a) v /= sc; }
      U = fin.U;
      zerr = e0 + fin.noise;
      have_z = true;
    };
    RunOpt o;
    o.check_owner = false;
    // a drifting problem may be driven out of the range where anything is promised
    bool wild = false;
    auto look = [&](Ctx& c) { if (!(std::abs(c.mu) < 1e4 * s.unit + 1e3 * std::abs(s.Eoff)) || !std::isfinite(c.Etot + c.curS)) wild = true; };
    o.on_eval = [&](Ctx& c) { look(c); if (it >= 0) trials.push_back(c.curX); };
    o.on_accept = [&](Ctx& c) {
      close_it(c);
      ++it;
      look(c);
      X = c.curX; HX = c.HXcopy; D = accepted_densities(c);
      Facc = c.Etot + c.curS;
      // the problem changes a little: there is always something left to minimise
      if (q.p(0.7)) {
        double de = 0;
        for (size_t l = 0; l < X.size(); ++l) {
          Mat& H = s.k[c.local[l]].H0;
          double sc = drift * maxabs(H);
          Mat dH(H.r, H.c);
          for (int b = 0; b < H.c; ++b)
            for (int a = 0; a <= b; ++a) { cd v = sc * q.cg(); if (a == b) v = v.real(); dH(a, b) = v; dH(b, a) = std::conj(v); }
          H = add(H, dH, 1.0);
          Mat xhx = hmul(X[l], mul(dH, X[l]));
          for (int b = 0; b < xhx.c; ++b) de += c.kp(l).w * c.fn[l]->get()[b] * xhx(b, b).real();
        }
        off -= de;
      }
      trials.clear();
      ev = 0;
      plan = q.p(pr) && plan != 2 ? 2 : q.p(pb) ? 1 : 0;
      bt = q.i(0, 3);
    };
    o.lie = [&](Ctx& c, double E) {
      if (it < 0) return E;
      ++ev;
      double S = entropy_kT(c);
      if (plan == 2) {
        double dm = 0;
        auto d = densities(c);
        for (size_t l = 0; l < d.size(); ++l) dm = std::max(dm, c.kp(l).w * dist(d[l], D[l]));
        return Facc + (dm > SAME ? 1 + s.unit : 1e-10 * (std::abs(Facc) + s.unit)) - S;
      }
      if (plan == 1 && ev > 1 && ev <= 2 + bt) return Facc + 0.5 * s.unit - S;
      return E + off;
    };
    Rec r = run_nlcg(s, o);
    note(s, r);
    if (wild && !r.returned) rep().stat("long_runs_ended_wild");
    else need_return("C08", s, r);
    rep().stat("long_iterations", it);
    rep().sample(fmt("{\"long\":%d,\"scn\":%s}", it, s.desc().c_str()));
  }
  for (auto& x : at) printf("IDX %d %ld %ld\n", x.first, x.second[0], x.second[1]);
}

// ---------------------------------------------------------------- the sign of the conjugated slope
// The Hamiltonian seen at the end of the second line search is H + theta G: with theta the slope of
// the third, conjugated direction is brought as close to zero as wanted, on either side: below zero
// the direction has to be used, above zero the run has to go on along the restart direction.
static void mode_c08edge() {
  for (long i = A.a; i < A.b; ++i) {
    if (!rep().begin_case(i)) break;
    uint64_t h = mix(A.seed, (uint64_t)i);
    GenOpt g = profile("short", h);
    Rng q(h ^ 0x8082);
    g.ekinds = {LINEAR, CONVEX, ROUGH};
    g.max_keys = 3; g.nmax = 8; g.unit = 0.3;
    g.Tmin = 3000; g.Tmax = 60000;
    Scn s = gen(h, g);
    s.tol = 1e-16 * s.unit;
    s.restart = 1000;
    s.maxiter = 3;
    struct Out { bool ok = false; double R = 0, C = 0, err = 0; int it = 0; long evals_after = 0; double slope = NAN; bool returned = false; Rec r; };
    double tau = q.u(0.02, 0.4);
    std::vector<Mat> G;
    for (auto& k : s.k) {
      Mat g(k.n, k.n);
      double sc = maxabs(k.H0);
      for (int b = 0; b < k.n; ++b)
        for (int a = 0; a <= b; ++a) { cd v = sc * q.cg(); if (a == b) v = v.real(); g(a, b) = v; g(b, a) = std::conj(v); }
      G.push_back(g);
    }
    const Scn& s0 = s;
    auto run = [&](double theta) {
      Scn s = s0;
      Out out;
      int it = -1, ev = 0;
      double Facc = 0, fall = 1e-3 * s.unit;
      C08State st;
      std::vector<std::vector<double>> e0;
      Dir R, C, cur;
      RunOpt o;
      o.check_owner = false;
      o.on_eval = [&](Ctx& c) {
        if (c.ncompute == 1) { e0.clear(); for (size_t l = 0; l < c.local.size(); ++l) e0.push_back(c.ek[l]->get()); }
        if (it == 1 && ev == 1) for (size_t l = 0; l < s.k.size(); ++l) s.k[l].H0 = add(s.k[l].H0, G[l], theta);
      };
      o.on_accept = [&](Ctx& c) {
        ++it;
        ev = 0;
        out.it = it;
        std::vector<Mat> X0 = st.X;
        double mu0 = st.mu;
        (void)mu0;
        st.X = c.curX; st.HX = c.HXcopy; st.mu = c.mu;
        st.f.clear();
        for (size_t l = 0; l < c.local.size(); ++l) st.f.push_back(c.fn[l]->get());
        Facc = c.Etot + c.curS;
        if (it == 0) {
          st.e = e0;
          ref_dirs(s, c, st, nullptr, nullptr, 1e-13 * s.unit, &R, &C);
          cur = R;
        } else if (it <= 2) {
          if (!cur.ok) return;
          cur.ok = false;
          Step sp = read_step(c, X0, c.curX);
          if (!sp.ok || sp.size < 1e-7) return;
          double a = 0, b = 0;
          for (size_t l = 0; l < X0.size(); ++l) { a += retr(cur.x[l], sp.d[l]); b += retr(cur.x[l], cur.x[l]); }
          double t = a / b;
          std::vector<std::vector<double>> e;
          for (size_t l = 0; l < X0.size(); ++l) {
            int nb = c.kp(l).nb;
            Mat eta(nb, nb);
            for (int k = 0; k < nb; ++k) eta(k, k) = st.e[l][k];
            eta = add(eta, cur.eta[l], t);
            Mat W = hmul(sp.U[l], mul(eta, sp.U[l]));
            std::vector<double> v(nb);
            for (int k = 0; k < nb; ++k) v[k] = W(k, k).real();
            e.push_back(v);
          }
          st.e = e;
          Dir prev = cur;
          prev.ok = true;
          ref_dirs(s, c, st, &prev, &sp.U, 1e-13 * s.unit, &R, &C);
          if (it == 1) { cur = R; return; }  // the first line search is always followed by a restart
          out.ok = R.ok && C.ok;
          out.R = R.slope; out.C = C.slope; out.err = (R.err + C.err) * (std::abs(R.slope) + std::abs(C.slope));
        }
      };
      o.lie = [&](Ctx& c, double E) {
        if (it < 0) return E;
        double S = entropy_kT(c);
        ++ev;
        if (it >= 2) out.evals_after++;
        if (ev == 1) {
          double b = cur.slope, a = -b / (2 * tau);
          return (it == 1 ? Facc + b * 0.2 + a * 0.04 : Facc) - S;
        }
        return Facc - fall - S;
      };
      Rec r = run_nlcg(s, o);
      note(s, r);
      out.returned = r.returned;
      if (r.json_ok && r.js.size() > 2) out.slope = num(r.js[2], "slope_x");
      out.r = r;
      return out;
    };
    rep().muted++;
    double lo = 0, hi = 0;
    Out a = run(0);
    if (a.ok && a.C < 0)
      for (double t = 1e-3; t < 300 && !hi; t *= 2)
        for (int sg = -1; sg < 2; sg += 2) {
          Out b = run(sg * t);
          if (!b.ok || !(b.C > 0)) continue;
          hi = sg * t; lo = t > 1e-3 ? sg * t / 2 : 0;
          break;
        }
    rep().muted--;
    if (!hi) { rep().stat("edge_no_sign_change"); rep().sample(s.desc()); continue; }
    for (int side = 0; side < 2; ++side) {
      double l = lo, u = hi;
      double target = (side ? 1 : -1) * q.logu(1e-9, 1e-3) * std::abs(a.R);
      Out best;
      double bt = 0;
      rep().muted++;
      for (int k = 0; k < 60; ++k) {
        double m = (l + u) / 2;
        Out b = run(m);
        if (!b.ok) break;
        bool good = b.C * target > 0 && std::abs(b.C) < 2 * std::abs(target) && std::abs(b.C) > 0.5 * std::abs(target);
        if (good) { best = b; bt = m; break; }
        (b.C < target ? l : u) = m;
      }
      rep().muted--;
      if (!best.ok) { rep().stat("edge_not_reached"); continue; }
      if (std::abs(best.C) < 100 * best.err) { rep().stat("edge_within_rounding"); continue; }
      if (std::abs(best.R) < 1e3 * std::abs(best.C) || std::abs(best.R) < 1e-7 * s.unit) { rep().stat("edge_flat"); continue; }
      Out v = run(bt);
      need_return("C08", s, v.r);
      if (!v.returned) continue;
      rep().stat(side ? "edge_uphill_by_little" : "edge_downhill_by_little");
      rep().token("edge_sizes", fmt("%s%d", side ? "+" : "-", (int)std::floor(std::log10(std::abs(best.C)))));
      double want = side ? best.R : best.C;
      if (getenv("EDGE")) printf("TRACE ratio %g\n", std::abs(v.slope - want) / best.err);
      if (!(std::abs(v.slope - want) <= 0.1 * std::abs(want)))
        rep().viol("C08", side ? "not-restarted" : "not-conjugated", "iteration 2: the conjugated direction has slope %.3g, so the %s direction (slope %.6g) is to be used, but the slope reported is %.6g; %s", best.C, side ? "restart" : "conjugated", want, v.slope, s.desc().c_str());
      else if (v.evals_after == 0)
        rep().viol("C08", "gave-up", "iteration 2: the run ended without a line search along a direction of slope %.6g; %s", want, s.desc().c_str());
    }
    rep().sample(s.desc());
  }
}
