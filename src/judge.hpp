// Offline oracles over a recorded run: C01 C03 C05 C12 C14.
#pragma once
#include "mock.hpp"

namespace vh {

inline double accF(const Scn& s, const Rec& r, size_t i) {
  if (monotone(s.smear)) return r.acc[i].F;
  if (i < r.js.size() && r.js[i].contains("F") && r.js[i]["F"].is_number()) return r.js[i]["F"].get<double>();
  return NAN;
}
// rounding allowance for free energies: the electron number is only met to 1e-11
inline double feps(const Scn& s, double F, double mu) {
  (void)s;
  return 5e-10 * (1 + std::abs(mu)) + 1e-12 * std::abs(F);
}
inline double num(const nlohmann::json& j, const char* k) {
  return j.contains(k) && j[k].is_number() ? j[k].get<double>() : NAN;
}
inline bool close(double a, double b, double tol) { return std::abs(a - b) <= tol; }

// expected -kT*S and N of levels
struct LevelSet { std::map<key_t, std::vector<double>> e; };

struct JudgeOpt {
  bool has_json = true;   // this rank may read nlcg.json
  bool local_all = true;  // all k-points local
};

inline void judge(const Scn& s, const Rec& r, const JudgeOpt& o = JudgeOpt()) {
  const std::string d = s.desc();
  if (!r.returned) return;
  rep().stat("runs_judged");
  // ---------------------------------------------------------------- C01
  for (size_t i = 1; i < r.acc.size(); ++i) {
    double a = accF(s, r, i - 1), b = accF(s, r, i);
    rep().stat("accepted_transitions");
    if (!(b <= a + feps(s, a, r.acc[i].mu)))
      rep().viol("C01", "increase", "iteration %zu: free energy rose from %.15g to %.15g; %s", i, a, b, d.c_str());
  }
  if (monotone(s.smear) && !r.acc.empty()) {
    double a = r.acc.back().F, b = r.last.F;
    if (!(b <= a + feps(s, a, r.last.mu))) {
      rep().viol("C01", "final-worse", "state left behind has F=%.15g, last accepted %.15g; %s", b, a, d.c_str());
      rep().viol("C12", "final-rejected", "state left in the energy object has F=%.15g, above the last accepted %.15g: a rejected trial; %s", b, a, d.c_str());
    }
  }
  // ---------------------------------------------------------------- C12 final state
  if (r.info.converged && !r.acc.empty()) {
    if (r.last.ev != r.acc.back().ev) rep().viol("C12", "final-not-accepted", "converged, but %ld evaluations happened after the reported state", r.last.ev - r.acc.back().ev);
    if (r.last.mu != r.acc.back().mu) rep().viol("C12", "final-mu", "converged, but chemical potential changed after the report");
  }
  if (!o.has_json) return;
  // ---------------------------------------------------------------- C14 structure
  if (r.json_missing && !r.acc.empty()) { rep().viol("C14", "no-file", "%zu iterations were reported but there is no nlcg.json; %s", r.acc.size(), d.c_str()); return; }
  if (!r.json_ok) { rep().viol("C14", "json", "nlcg.json: %s; %s", r.json_err.c_str(), d.c_str()); return; }
  if (r.js.size() != r.acc.size()) rep().viol("C14", "count", "%zu iterations were reported but nlcg.json has %zu records; %s", r.acc.size(), r.js.size(), d.c_str());
  size_t n = std::min(r.js.size(), r.acc.size());
  for (size_t i = 0; i < n; ++i) {
    const auto& j = r.js[i];
    const Acc& a = r.acc[i];
    rep().stat("json_records");
    if (!j.contains("step") || !j["step"].is_number_integer() || j["step"].get<long>() != (long)i) rep().viol("C14", "step", "record %zu has step %s", i, j.contains("step") ? j["step"].dump().c_str() : "missing");
    if (!j.contains("type") || j["type"] != "cg_iteration") rep().viol("C14", "type", "record %zu has no type cg_iteration", i);
    if (num(j, "EKS") != a.E) rep().viol("C14", "EKS", "record %zu: EKS=%.17g, accepted state has %.17g", i, num(j, "EKS"), a.E);
    if (num(j, "fermi_energy") != a.mu) rep().viol("C14", "mu", "record %zu: fermi_energy=%.17g, accepted state has %.17g", i, num(j, "fermi_energy"), a.mu);
    double F = num(j, "F"), S = num(j, "entropy"), sl = num(j, "slope_x");
    if (!close(F, a.E + S, 1e-12 * (1 + std::abs(F)))) rep().viol("C14", "F", "record %zu: F=%.17g but EKS+entropy=%.17g", i, F, a.E + S);
    if (monotone(s.smear) && !close(S, a.Sent, 1e-9 * s.kT() + 1e-13)) {
      rep().viol("C14", "entropy", "record %zu: entropy=%.17g, occupations give %.17g; %s", i, S, a.Sent, d.c_str());
    }
    // the run returns the slope of the last state with full precision (the log keeps it likewise)
    if (i + 1 == n && r.returned && r.info.iter == (int)i && !close(r.info.tolerance, sl, 1e-13 * std::abs(sl))) rep().viol("C14", "slope-value", "last record: slope_x=%.17g, the run ended with slope %.17g; %s", sl, r.info.tolerance, d.c_str());
    if (!std::isfinite(sl)) rep().viol("C14", "slope", "record %zu: slope_x is not a number", i);
    const auto& comp = j.contains("ks_energy_comps") ? j["ks_energy_comps"] : nlohmann::json();
    if (!comp.is_object() || comp.size() != ((a.ev + 1) % 3 == 1 ? 4u : 3u) || ((a.ev + 1) % 3 == 1 && num(comp, "sometimes") != -a.E) || num(comp, "total") != a.E || num(comp, "twice") != 2 * a.E || num(comp, "eval") != (double)(a.ev + 1))
      rep().viol("C14", "components", "record %zu: energy components %s do not belong to the accepted state (E=%.17g, evaluation %ld)", i, comp.dump().c_str(), a.E, a.ev + 1);
    bool want = i % 10 == 0;
    if (want && (!j.contains("eta") || !j.contains("fn"))) { rep().viol("C14", "missing-arrays", "record %zu lacks eta/fn", i); continue; }
    if (want) {
      std::map<key_t, std::vector<double>> eta, fn;
      for (auto* nm : {"eta", "fn"}) {
        auto& dst = std::string(nm) == "eta" ? eta : fn;
        for (auto& e : j[nm]) {
          key_t k{e.value("ik", -99999), e.value("ispn", -99999)};
          std::vector<double> v;
          for (auto& x : e["value"]) v.push_back(x.is_number() ? x.get<double>() : NAN);
          if (!dst.emplace(k, v).second) rep().viol("C14", "dup-key", "record %zu: %s lists key %d,%d twice", i, nm, k.first, k.second);
        }
        if (dst.size() != s.k.size()) rep().viol("C14", "keys", "record %zu: %s lists %zu of %zu k-points", i, nm, dst.size(), s.k.size());
      }
      ld N = 0, St = 0;
      bool okk = true;
      for (auto& k : s.k) {
        auto ie = eta.find(k.key), jf = fn.find(k.key);
        if (ie == eta.end() || jf == fn.end() || (int)ie->second.size() != k.nb || (int)jf->second.size() != k.nb) {
          rep().viol("C14", "key-missing", "record %zu: key %d,%d missing or of wrong length", i, k.key.first, k.key.second);
          okk = false;
          continue;
        }
        for (int b = 0; b < k.nb; ++b) {
          ld x = ((ld)a.mu - ie->second[b]) / s.kT();
          ld f = s.occ * ref_f(s.smear, x);
          rep().stat("occupations_compared");
          // rounding of (mu - e)/kT
          double tolx = 4e-16 * (std::abs(a.mu) + std::abs(ie->second[b])) / s.kT();
          if (!(std::abs((double)f - jf->second[b]) <= s.occ * (3e-12 + tolx))) {
            rep().viol("C05", "not-smearing-function", "iteration %zu key %d,%d band %d: occupation %.17g, smearing function at mu gives %.17Lg; %s", i, k.key.first, k.key.second, b, jf->second[b], f, d.c_str());
            rep().viol("C06", "occupation-run", "iteration %zu key %d,%d band %d: occupation %.17g, closed form at (mu-e)/kT=%.6Lg is %.17Lg; %s", i, k.key.first, k.key.second, b, jf->second[b], x, f, d.c_str());
            rep().viol("C14", "eta-fn", "record %zu key %d,%d band %d: fn=%.17g inconsistent with eta and Fermi energy (%.17Lg)", i, k.key.first, k.key.second, b, jf->second[b], f);
          }
          N += k.w * jf->second[b];
          St += k.w * s.occ * ref_entropy(s.smear, x);
        }
      }
      if (okk) {
        rep().stat("entropies_compared");
        ld ref = -s.kT() * St;
        if (!(std::abs((double)ref - S) <= 1e-9 * s.kT() + 1e-13)) {
          rep().viol("C14", "entropy-eta", "record %zu: entropy=%.17g, from eta and Fermi energy %.17Lg; %s", i, S, ref, d.c_str());
          rep().viol("C06", "entropy-run", "iteration %zu: entropy term %.17g, weighted closed form %.17Lg; %s", i, S, ref, d.c_str());
          rep().viol("C03", "entropy", "iteration %zu: reported entropy term %.17g, -kT*S is %.17Lg; %s", i, S, ref, d.c_str());
        }
      }
      if (o.local_all && okk)
        for (size_t l = 0; l < a.f.size(); ++l) {
          const auto& k = s.k[s.order[l]];
          if (a.f[l] != fn[k.key]) rep().viol("C14", "fn-state", "record %zu key %d,%d: fn differs from the occupations in the energy object", i, k.key.first, k.key.second);
        }
    }
  }
  // ---------------------------------------------------------------- C03
  if (s.maxiter > 0) {
    rep().stat("summaries_checked");
    int it = r.info.iter;
    if (it < 0 || it >= s.maxiter || it + 1 != (int)r.acc.size()) rep().viol("C03", "iter", "iter=%d, %zu iterations were reported (maxiter %d); %s", it, r.acc.size(), s.maxiter, d.c_str());
    else if ((int)r.js.size() > it) {
      const auto& j = r.js[it];
      const Acc& a = r.acc[it];
      double sl = num(j, "slope_x");
      if (!close(r.info.S, num(j, "entropy"), 1e-13)) rep().viol("C03", "S", "summary S=%.17g, state %d has %.17g", r.info.S, it, num(j, "entropy"));
      if (!close(r.info.F, a.E + r.info.S, 1e-12 * (1 + std::abs(a.E)))) rep().viol("C03", "F", "summary F=%.17g, state %d has E+S=%.17g", r.info.F, it, a.E + r.info.S);
      if (monotone(s.smear) && !close(r.info.S, a.Sent, 1e-9 * s.kT() + 1e-13)) rep().viol("C03", "S-occ", "summary S=%.17g, the occupations give %.17g; %s", r.info.S, a.Sent, d.c_str());
      if (!(close(r.info.tolerance, sl, 1e-13 + 1e-10 * std::abs(sl)))) rep().viol("C03", "residual", "summary residual %.17g, slope compared with the tolerance was %.17g; %s", r.info.tolerance, sl, d.c_str());
      for (int q = 0; q <= it && q < (int)r.js.size(); ++q) {
        bool below = std::abs(num(r.js[q], "slope_x")) < s.tol;
        if (q < it && below) rep().viol("C03", "missed-convergence", "slope %.3g below tol %.3g at iteration %d but the run went on", num(r.js[q], "slope_x"), s.tol, q);
        if (q == it && below != r.info.converged) rep().viol("C03", "converged-flag", "converged=%d but |slope|=%.6g, tol=%.6g at iteration %d; %s", (int)r.info.converged, std::abs(num(r.js[q], "slope_x")), s.tol, q, d.c_str());
      }
      if (r.info.converged) {
        if (!close(r.info.F, r.last.E + r.info.S, 1e-12 * (1 + std::abs(r.last.E))) || (monotone(s.smear) && !close(r.info.F, r.last.F, feps(s, r.last.F, r.last.mu))))
          rep().viol("C03", "final-F", "summary F=%.17g but the state left behind has F=%.17g", r.info.F, r.last.F);
      }
      rep().stat(r.info.converged ? "runs_converged" : "runs_not_converged");
    }
  } else {
    rep().stat("summaries_checked_maxiter0");
    const auto& i = r.info;
    bool bad = !std::isfinite(i.F) || !std::isfinite(i.S) || !std::isfinite(i.tolerance) || i.converged;
    if (bad || !close(i.F, r.last.E + i.S, 1e-12 * (1 + std::abs(r.last.E))) || (monotone(s.smear) && !close(i.S, r.last.Sent, 1e-9 * s.kT() + 1e-13)) || i.iter != 0 || std::abs(i.tolerance) > 1e6)
      rep().viol("C03", "maxiter0", "maxiter=%d: summary F=%.17g S=%.17g residual=%.17g iter=%d converged=%d, state has E=%.17g F=%.17g; %s", s.maxiter, i.F, i.S, i.tolerance, i.iter, (int)i.converged, r.last.E, r.last.F, d.c_str());
  }
}

}  // namespace vh
