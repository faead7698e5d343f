// C21: the library's line search on synthetic free-energy profiles along the path.
#include "hmain.hpp"
#include "linesearch/linesearch.hpp"
using namespace vh;
using namespace nlcglib;

struct Runaway {};
struct Path {
  std::function<double(double)> F;
  long cap;
  std::vector<double> ts, Fs;
  double cur;
  double get_F() { return cur; }
  std::tuple<long, double> operator()(double t) {
    if ((long)ts.size() >= cap) throw Runaway();
    ts.push_back(t);
    cur = F(t);
    Fs.push_back(cur);
    return std::make_tuple((long)ts.size() - 1, t);
  }
};
struct FEref { Path* p; double get_F() { return p->get_F(); } };
struct Gref { Path* p; std::tuple<long, double> operator()(double t) { return (*p)(t); } };

// profiles with F(0) = F0, bounded below
static std::function<double(double)> profile(Rng& g, double F0, double& slope, std::string& name) {
  double sc = g.logu(1e-12, 1e6), b = -g.logu(1e-8, 10) * sc, w = g.logu(1e-3, 1e3);
  switch (g.i(0, 11)) {
    case 0: { name = "quadratic"; double a = g.logu(1e-4, 1e4) * sc; slope = b; return [=](double t) { return F0 + b * t + a * t * t; }; }
    case 1: { name = "quartic"; double a = -g.u(0, 2) * sc, q = g.logu(1e-3, 1e3) * sc; slope = b; return [=](double t) { return F0 + b * t + a * t * t + q * t * t * t * t; }; }
    case 2: { name = "sine"; double A = sc; slope = -A * w; return [=](double t) { return F0 - A * std::sin(w * t); }; }
    case 3: { name = "saturating"; double A = sc; slope = -A / w; return [=](double t) { return F0 - A * t / (std::abs(t) + w); }; }  // keeps falling, bounded
    case 4: { name = "wall"; slope = b; double A = sc * g.logu(1e-3, 1e3); return [=](double t) { return t == 0 ? F0 : F0 + A; }; }
    case 5: { name = "spike"; double t0 = g.logu(1e-9, 1); double A = sc * g.logu(1e-3, 1e3); slope = b; return [=](double t) { return std::abs(t) < t0 ? F0 + b * t : F0 + A; }; }  // descends only close to the start
    case 6: { name = "plateau"; slope = g.p(0.3) ? 0.0 : b; return [=](double) { return F0; }; }
    case 7: { name = "noise"; slope = b; uint64_t h = g.next(); double A = sc; return [=](double t) { uint64_t u; memcpy(&u, &t, 8); Rng r(u ^ h); return t == 0 ? F0 : F0 + A * (r.u() - 0.7); }; }
    case 8: { name = "noise-up"; slope = b; uint64_t h = g.next(); double A = sc; return [=](double t) { uint64_t u; memcpy(&u, &t, 8); Rng r(u ^ h); return t == 0 ? F0 : F0 + A * r.u(); }; }
    case 9: { name = "well"; double t0 = g.logu(1e-4, 10), A = sc, wd = t0 * g.u(0.01, 0.5); slope = b; return [=](double t) { double x = (t - t0) / wd, y = t0 / wd; return F0 - A * (std::exp(-x * x) - std::exp(-y * y)); }; }
    case 10: { name = "flat-slope"; slope = 0; double A = sc; return [=](double t) { return F0 - A * (1 - 1 / (1 + t * t)); }; }  // stationary start, lower elsewhere
    default: { name = "ripple"; double A = sc * g.logu(1e-3, 1), a = sc; slope = b + A * w; if (slope > 0) slope = b; double s = slope; return [=](double t) { return F0 + (s - A * w) * t + a * t * t + A * std::sin(w * t); }; }
  }
}

static int mode_ls() {
  Logger::GetInstance().detach_stdout();
  for (long i = A.a; i < A.b; ++i) {
    if (!next_case(i)) break;
    Rng g(case_seed(i, 21));
    double F0 = g.p(0.3) ? 0.0 : g.p(0.5) ? g.u(-5, 5) : g.u(-1e4, 1e4), slope;
    std::string name;
    auto F = profile(g, F0, slope, name);
    bool lying = g.p(0.25);
    if (lying) slope = -g.logu(1e-10, 1e3);  // a slope that has nothing to do with the profile
    bool uphill = g.p(0.05);
    if (uphill) slope = g.logu(1e-300, 10);
    line_search ls;
    if (g.p(0.5)) ls.tau = g.p(0.5) ? g.u(0.01, 0.95) : g.logu(1e-6, 0.99);
    if (g.p(0.3)) ls.t_trial = g.logu(1e-3, 10);
    bool pending = g.p(0.4), fr = pending;
    bool badtau = !uphill && g.p(0.04);
    if (badtau) ls.tau = g.p(0.5) ? 1.0 : g.p(0.5) ? std::nextafter(1.0, 2.0) : 1 + g.logu(1e-6, 10);
    // trial points grow by constant factors until floating point overflows, backtracking shrinks by tau
    long bound = 700 + (long)(std::log(std::max(2.0, ls.t_trial * 1e8)) / -std::log(ls.tau));
    if (badtau) bound = 1000;  // such a tau must be refused instead of backtracking for ever
    Path p{F, 20 * bound, {}, {}, F0};
    FEref fe{&p}; Gref G{&p};
    std::string desc = fmt("%s F0=%.17g slope=%g tau=%g t_trial=%g pending=%d", name.c_str(), F0, slope, ls.tau, ls.t_trial, (int)pending);
    int outcome = -1; long id = -1; double t = NAN;
    try {
      auto r = ls(G, fe, slope, fr);
      id = std::get<0>(r); t = std::get<1>(r); outcome = fr ? 1 : 0;
    } catch (const SlopeError&) { outcome = 2;
    } catch (const DescentError&) { outcome = 3;
    } catch (const Runaway&) { outcome = 4;
    } catch (const std::exception& e) { outcome = 5; if (!badtau) rep().viol("C21", "exception", "line search ended in '%s'; %s", e.what(), desc.c_str()); }
    long n = (long)p.ts.size();
    rep().stat("line_searches");
    static const char* on[] = {"accepted", "reset", "refused", "descent_error", "runaway", "other"};
    rep().stat(std::string("outcome_") + on[std::max(0, outcome)]);
    rep().token("profiles", name + ":" + on[std::max(0, outcome)] + (lying ? ":lying" : "") + (pending ? ":pending" : ""));
    if (uphill) {
      if (outcome != 2) rep().viol("C21", "uphill", "positive slope was not refused (%s); %s", on[std::max(0, outcome)], desc.c_str());
      else if (n) rep().viol("C21", "uphill", "positive slope refused only after %ld evaluations; %s", n, desc.c_str());
      continue;
    }
    if (badtau && outcome != 4) { rep().stat(outcome == 5 ? "bad_tau_refused" : "bad_tau_not_needed"); continue; }
    if (outcome == 2) { rep().viol("C21", "refused", "slope %g <= 0 was refused; %s", slope, desc.c_str()); continue; }
    if (outcome == 4 || n > bound) { rep().viol("C21", "unbounded", "%s%ld evaluations (bound %ld); %s", outcome == 4 ? "stopped after " : "", n, bound, desc.c_str()); continue; }
    if (outcome == 0 || outcome == 1) {
      if (id != n - 1) rep().viol("C21", "stale", "the returned state is evaluation %ld of %ld: not the one the energy object holds; %s", id, n, desc.c_str());
      else if (p.cur > F0) rep().viol("C21", "worse", "accepted step t=%.17g raises the free energy by %.3g; %s", t, p.cur - F0, desc.c_str());
      if (outcome == 1 && t != 0) rep().viol("C21", "reset", "restart requested but the state is at t=%g, not at the start; %s", t, desc.c_str());
      if (outcome == 1 && pending) rep().viol("C21", "pending", "a restart was already pending: a second reset instead of a descent error; %s", desc.c_str());
      if (outcome == 0 && !(t >= 0)) rep().viol("C21", "backwards", "step t=%g against the search direction; %s", t, desc.c_str());
    }
    if (outcome == 3 && !pending) rep().viol("C21", "descent", "descent error although no restart was pending; %s", desc.c_str());
    // giving up is only legitimate if none of the evaluated states was acceptable
    if (outcome == 1 || outcome == 3) {
      bool good = false; double tb = 0; for (long q = 0; q < n; ++q) if (p.ts[q] > 0 && p.ts[q] <= ls.t_trial && p.Fs[q] < F0) { good = true; tb = p.ts[q]; }
      // the trial point of the quadratic search is evaluated again by the backtracking search
      if (good) rep().viol("C21", "gave-up", "gave up although the step t=%g lowers the free energy; %s", tb, desc.c_str());
    }
    if (i < A.a + 3) rep().sample(fmt("{\"profile\":\"%s\",\"evaluations\":%ld,\"outcome\":\"%s\"}", desc.c_str(), n, on[std::max(0, outcome)]));
  }
  return 0;
}
static int dispatch() { return A.mode == "ls" ? mode_ls() : 2; }
VH_MAIN(dispatch)
