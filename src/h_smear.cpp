// C05 C06: the library's smearing functions and its Smearing object against long double closed forms.
#include "hmain.hpp"
#include "smearing.hpp"
using namespace vh;
typedef double (*fun_t)(double, double);

struct Fam { int s; fun_t fn, delta, dx, ent; };
template <class C> static Fam fam(int s) { return {s, &C::fn, &C::delta, &C::dxdelta, &C::entropy}; }

static void one_x(const Fam& F, double x, double mo) {
  struct { const char* nm; double got; ld want; } v[] = {
      {"occupation", F.fn(x, mo), mo * ref_f(F.s, x)},
      {"delta", F.delta(x, mo), mo * ref_delta(F.s, x)},
      {"delta'", F.dx(x, mo), mo * ref_dxdelta(F.s, x)},
      {"entropy", F.ent(x, mo), mo * ref_entropy(F.s, x)}};
  for (auto& q : v) {
    rep().stat("function_values_compared");
    if (!(std::abs(q.got - (double)q.want) <= 4e-13 * mo))
      rep().viol("C06", q.nm, "%s %s(x=%.17g, mo=%g) = %.17g, closed form %.17g", smear_name(F.s), q.nm, x, mo, q.got, (double)q.want);
  }
  // what the library says about itself: delta = df/dx, dS = -x df, delta' (five-point differences)
  if (std::abs(x) < 6) {
    double h = 2e-3;
    auto d = [&](fun_t g) { return (8 * (g(x + h, mo) - g(x - h, mo)) - (g(x + 2 * h, mo) - g(x - 2 * h, mo))) / (12 * h); };
    bool kink = F.s == GS && std::abs(x) < 3 * h;  // second derivative of f jumps there
    double tol = kink ? 0 : 3e-9 * mo;
    if (!kink) {
      rep().stat("derivative_relations_checked", 3);
      if (!(std::abs(d(F.fn) - F.delta(x, mo)) <= tol)) rep().viol("C06", "df=delta", "%s x=%.17g: df/dx=%.12g, delta=%.12g", smear_name(F.s), x, d(F.fn), F.delta(x, mo));
      if (!(std::abs(d(F.delta) - F.dx(x, mo)) <= 10 * tol)) rep().viol("C06", "ddelta", "%s x=%.17g: ddelta/dx=%.12g, dxdelta=%.12g", smear_name(F.s), x, d(F.delta), F.dx(x, mo));
      if (!(std::abs(d(F.ent) + x * F.delta(x, mo)) <= 10 * tol)) rep().viol("C06", "dS", "%s x=%.17g: dS/dx=%.12g, -x delta=%.12g", smear_name(F.s), x, d(F.ent), -x * F.delta(x, mo));
    }
  }
  if (mo == 2) {
    rep().stat("occupancy_scaling_checked", 4);
    fun_t g[] = {F.fn, F.delta, F.dx, F.ent};
    for (auto f : g) if (!(std::abs(f(x, 2) - 2 * f(x, 1)) <= 4e-13)) rep().viol("C06", "occupancy", "%s x=%.17g: value for occupancy 2 is %.15g, twice that for 1 is %.15g", smear_name(F.s), x, f(x, 2), 2 * f(x, 1));
  }
}

static int mode_fun() {
  Fam fs[] = {fam<nlcglib::fermi_dirac>(FD), fam<nlcglib::gaussian_spline>(GS), fam<nlcglib::gauss_smearing>(GAUSS), fam<nlcglib::methfessel_paxton_smearing>(MP), fam<nlcglib::cold_smearing>(COLD)};
  static const double special[] = {0, 1e-300, -1e-300, 1e-16, -1e-16, 1e-8, -1e-8, 0.5, -0.5, 0.70710678118654752, 1.41421356237309505, 1.2247448713915890, 7, -7, 8, -8, 10, -10, 35, -35, 40, -40, 100, -100, 700, -700, 1000, -1000, 1e6, -1e6};
  for (long i = A.a; i < A.b; ++i) {
    if (!next_case(i)) break;
    Rng g(case_seed(i, 61));
    for (auto& F : fs) {
      rep().token("schemes", smear_name(F.s));
      for (double mo : {1.0, 2.0}) {
        for (int k = 0; k < 60; ++k) {
          double x = g.p(0.5) ? g.u(-9, 9) : g.p(0.5) ? g.u(-50, 50) : (g.p(0.5) ? 1 : -1) * g.logu(1e-12, 1e4);
          one_x(F, x, mo);
          rep().token("x_bins", fmt("%s%g:%d", smear_name(F.s), mo, (int)std::floor(std::max(-50.0, std::min(50.0, x)))));
        }
        for (double x : special) for (double e : {0.0, 1e-12, -1e-12}) one_x(F, x * (1 + e), mo);
      }
    }
  }
  return 0;
}

static nlcglib::smearing_type lib_type(int s) {
  switch (s) {
    case FD: return nlcglib::smearing_type::FERMI_DIRAC;
    case GS: return nlcglib::smearing_type::GAUSSIAN_SPLINE;
    case GAUSS: return nlcglib::smearing_type::GAUSS;
    case MP: return nlcglib::smearing_type::METHFESSEL_PAXTON;
    default: return nlcglib::smearing_type::COLD;
  }
}
typedef Kokkos::View<double*, Kokkos::HostSpace> vec_t;

// occupations, chemical potential and entropy of random spectra, possibly distributed over ranks
static int mode_obj() {
  bool nonewton = getenv("NLCGLIB_DISABLE_NEWTON_EFERMI") && strcmp(getenv("NLCGLIB_DISABLE_NEWTON_EFERMI"), "0");
  int me = world_rank(), np = world_size();
  for (long i = A.a; i < A.b; ++i) {
    if (!next_case(i)) break;
    Rng g(case_seed(i, 62));
    int s = g.i(0, 4);
    double mo = g.p(0.5) ? 1 : 2;
    int nk = g.i(1, 9), nsp = mo == 1 && g.p(0.5) ? 2 : 1;
    double T = g.p(0.2) ? g.logu(10, 300) : g.logu(300, 60000), kT = KB * T;
    int spec = g.i(0, 4);
    double off = g.p(0.3) ? g.u(-20, 20) : 0;
    std::vector<double> w(nk);
    double ws = 0;
    bool uneven = g.p(0.6);
    for (auto& x : w) { x = uneven ? g.logu(0.05, 2) : 1; ws += x; }
    Rng xt(case_seed(i, 63));
    if (xt.p(0.08)) ws *= 1 + xt.u(-6e-4, 6e-4);  // weights that do not add up to one exactly
    for (auto& x : w) x /= ws;
    int kb = g.p(0.3) ? g.i(-10, 100) : 0, ks = g.p(0.3) ? g.i(2, 9) : 1;
    nlcglib::Communicator comm(MPI_COMM_WORLD);
    nlcglib::mvector<double> wk(comm);
    nlcglib::mvector<vec_t> ek(comm);
    std::vector<Level> L;
    std::map<std::pair<int, int>, std::vector<double>> mine;
    double cap = 0;
    int nb = g.i(1, 12);
    if (xt.p(0.015)) nb = xt.i(60, 700);
    bool vary = g.p(0.3);
    std::string dist;
    for (int k = 0; k < nk; ++k)
      for (int sp = 0; sp < nsp; ++sp) {
        int n = vary ? std::max(1, nb + g.i(-2, 2)) : nb;
        std::vector<double> e(n);
        for (int b = 0; b < n; ++b) {
          double x = spec == 0 ? g.u(-1, 1) : spec == 1 ? (b < n / 2 ? g.u(-1, -0.5) : g.u(0.3, 1)) : spec == 2 ? std::round(3 * g.u(-1, 1)) / 3 : spec == 3 ? g.u(-3, 3) * kT : g.u(-5, 5);
          e[b] = x + off;
        }
        if (g.p(0.7)) std::sort(e.begin(), e.end());
        int own = g.i(0, np - 1);
        dist += (char)('0' + own);
        std::pair<int, int> key(kb + ks * (g.p(0.5) ? k : k), sp);
        for (double x : e) L.push_back({x, w[k]});
        cap += w[k] * mo * n;
        if (own == me) {
          wk[key] = w[k];
          vec_t v("e", n);
          for (int b = 0; b < n; ++b) v(b) = e[b];
          ek[key] = v;
          mine[key] = e;
        }
      }
    int hi = (int)std::floor(cap - 1e-9);
    if (hi < 1) continue;
    bool impossible = g.p(0.08);
    int Ne = impossible ? (int)std::ceil(cap + 0.5) + g.i(0, 5) : g.i(1, hi);
    if (impossible && !monotone(s)) continue;  // first-order schemes may exceed the capacity
    std::string d = fmt("%s T=%.6g mo=%g Ne=%d nk=%d spin=%d spec=%d off=%.4g np=%d dist=%s", smear_name(s), T, mo, Ne, nk, nsp, spec, off, np, dist.c_str());
    rep().token("classes", fmt("%s/%g/%d/%d/%d", smear_name(s), mo, spec, nsp, (int)std::log10(T)));
    try {
      nlcglib::Smearing sm(T, Ne, mo, wk, lib_type(s));
      auto r = sm.fn(ek);
      double mu = std::get<0>(r);
      auto fn = std::get<1>(r);
      if (impossible) { rep().viol("C05", "impossible", "%d electrons do not fit (capacity %.3f) but occupations were returned; %s", Ne, cap, d.c_str()); continue; }
      double mus[2] = {mu, -mu}, mx[2];
      MPI_Allreduce(mus, mx, 2, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
      if (mx[0] != -mx[1]) rep().viol("C05", "mu-ranks", "ranks got different chemical potentials %.17g..%.17g; %s", -mx[1], mx[0], d.c_str());
      // occupations
      double loc = 0, N;
      if (fn.size() != mine.size()) rep().viol("C05", "keys", "%zu occupation vectors for %zu local k-points; %s", (size_t)fn.size(), mine.size(), d.c_str());
      for (auto& q : mine) {
        if (!fn.data().count(q.first)) { rep().viol("C05", "keys", "no occupations for key %d,%d; %s", q.first.first, q.first.second, d.c_str()); continue; }
        auto f = fn[q.first];
        if (f.size() != q.second.size()) { rep().viol("C05", "length", "%zu occupations for %zu levels; %s", (size_t)f.size(), q.second.size(), d.c_str()); continue; }
        for (size_t b = 0; b < q.second.size(); ++b) {
          double want = mo * (double)ref_f(s, ((ld)mu - q.second[b]) / kT);
          double tol = mo * (1e-12 + 4e-16 * (std::abs(mu) + std::abs(q.second[b])) / kT);
          rep().stat("occupations_compared");
          if (!(std::abs(f(b) - want) <= tol)) rep().viol("C05", "occupation", "f=%.17g, smearing function at mu gives %.17g; %s", (double)f(b), want, d.c_str());
          loc += wk.at(q.first) * f(b);
        }
        for (size_t b = 0; b < q.second.size(); ++b)
          if (ek[q.first](b) != q.second[b]) rep().viol("C05", "input-modified", "levels were modified; %s", d.c_str());
      }
      MPI_Allreduce(&loc, &N, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
      double lim = monotone(s) || nonewton ? 1e-10 : 1e-2;
      lim += cap * (3e-16 * std::abs(mu) / kT + 1e-14);  // many levels at mu: the next double may be another count
      rep().stat(monotone(s) || nonewton ? "electron_counts_tight" : "electron_counts_loose");
      if (!(std::abs(N - Ne) <= lim)) rep().viol("C05", "count", "weighted occupations sum to %.15g, not %d; %s", N, Ne, d.c_str());
      // entropy
      double S = sm.entropy(fn, ek, mu);
      ld want = 0;
      for (auto& l : L) want += l.w * mo * ref_entropy(s, ((ld)mu - l.e) / kT);
      double amax = std::abs(mu) + std::abs(off) + 6;
      double tol = cap * (1e-12 + 1e-15 * amax / kT);
      rep().stat("entropies_compared");
      if (!(std::abs(S + (double)want) <= tol)) rep().viol("C06", "entropy-sum", "entropy() = %.15g, weighted sum over k-points is %.15g; %s", S, -(double)want, d.c_str());
      rep().sample(fmt("{\"case\":\"%s\",\"mu\":%.12g,\"N\":%.15g,\"S\":%.12g}", d.c_str(), mu, N, S));
    } catch (std::exception& ex) {
      if (impossible) { rep().stat("impossible_refused"); continue; }
      if (!monotone(s)) rep().stat("nonmonotone_gave_up");
      // giving up is legitimate only where the electron count cannot be resolved in double precision
      ld mu = ref_mu(s, L, kT, mo, Ne), slope = 0, mum = fabsl(mu) + 1e-3L;
      for (auto& l : L) slope += l.w * mo * ref_delta(s, (mu - l.e) / kT) / kT;
      if (slope * mum * 2e-16L * 20 < 1e-11L) rep().viol("C05", "gave-up", "'%s' although mu=%.12Lg solves it; %s", ex.what(), mu, d.c_str());
      else rep().stat("unresolvable_counts");
    }
  }
  return 0;
}
static int dispatch() { return A.mode == "fun" ? mode_fun() : mode_obj(); }
VH_MAIN(dispatch)
