// C26: the kinetic-energy preconditioner against the Payne-Teter-Allan formula in long double.
#include "hmain.hpp"
#include "la/lapack.hpp"
#include "preconditioner.hpp"
using namespace vh;
using namespace nlcglib;
typedef Kokkos::complex<double> kc;
typedef KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> O;
typedef KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> V;

struct Kin : VectorBaseZ {
  std::vector<std::vector<double>> v, raw;
  std::vector<std::pair<int, int>> keys;
  std::vector<int> st;
  buffer_t mk(int i) { return buffer_t({st[i]}, {(int)v[i].size()}, raw[i].data(), memory_type::host); }
  buffer_t get(int i) override { return mk(i); }
  const buffer_t get(int i) const override { return const_cast<Kin*>(this)->mk(i); }
  int size() const override { return (int)v.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_SELF; }
  kindex_t kpoint_index(int i) const override { return keys[i]; }
};
static ld pta(ld t) { ld p = 27 + 18 * t + 12 * t * t + 8 * t * t * t; return p / (p + 16 * t * t * t * t); }

static int mode_pre() {
  for (long i = A.a; i < A.b; ++i) {
    if (!next_case(i)) break;
    Rng g(case_seed(i, 26));
    auto kin = std::make_shared<Kin>();
    int nk = g.i(1, 5);
    std::set<std::pair<int, int>> used;
    for (int k = 0; k < nk; ++k) {
      std::pair<int, int> key;
      do key = {g.i(-3, 12), g.i(0, 1)}; while (!used.insert(key).second);
      int n = g.p(0.05) ? g.i(100, 400) : g.i(1, 60), st = g.p(0.7) ? 1 : g.i(2, 4);
      std::vector<double> e(n), raw((size_t)n * st, -3e33);
      for (int z = 0; z < n; ++z) { e[z] = g.p(0.1) ? 0.0 : g.p(0.2) ? g.logu(1e-12, 1e12) : g.u(0, 30); raw[(size_t)z * st] = e[z]; }
      kin->v.push_back(e); kin->raw.push_back(raw); kin->keys.push_back(key); kin->st.push_back(st);
    }
    PreconditionerTeter<Kokkos::HostSpace> P(kin);
    for (int k = 0; k < nk; ++k) {
      int n = (int)kin->v[k].size(), nb = g.p(0.08) ? g.i(13, 90) : g.i(1, 12);
      auto D = P.at(kin->keys[k]);
      O x(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, n, nb}})));
      Mat X(n, nb);
      for (int b = 0; b < nb; ++b) for (int z = 0; z < n; ++z) { X(z, b) = g.cg(); x.array()(z, b) = kc(X(z, b).real(), X(z, b).imag()); }
      auto check = [&](const char* how, auto& y) {
        rep().stat("preconditioned_elements", (long)n * nb);
        for (int b = 0; b < nb; ++b)
          for (int z = 0; z < n; ++z) {
            ld w = pta(kin->v[k][z]);
            kc got = y.array()(z, b);
            ld er = (ld)w * X(z, b).real(), ei = (ld)w * X(z, b).imag();
            if (!(std::abs((double)(got.real() - er)) <= 1e-14 * (std::abs((double)er) + 1e-300) * 8 && std::abs((double)(got.imag() - ei)) <= 1e-14 * (std::abs((double)ei) + 1e-300) * 8)) {
              rep().viol("C26", "value", "%s: key %d,%d element (%d,%d), kinetic energy %.12g: (%.15g,%.15g), expected (%.15g,%.15g)", how, kin->keys[k].first, kin->keys[k].second, z, b, kin->v[k][z], got.real(), got.imag(), (double)er, (double)ei);
              return;
            }
          }
      };
      auto y = D(x);
      check("applied", y);
      for (int b = 0; b < nb; ++b) for (int z = 0; z < n; ++z) { kc q = x.array()(z, b); if (q.real() != X(z, b).real() || q.imag() != X(z, b).imag()) { rep().viol("C26", "input", "the operand was modified"); b = nb; break; } }
      D.apply_in_place(x);
      check("applied in place", x);
      rep().token("shapes", fmt("n%d/nb%d/st%d", n / 10, nb / 4, kin->st[k]));
    }
    bool thrown = false;
    try { P.at(std::make_pair(999, 0)); } catch (std::exception&) { thrown = true; }
    rep().stat("unknown_keys");
    if (!thrown) rep().viol("C26", "unknown-key", "a key without kinetic energies was served");
  }
  return 0;
}
static int dispatch() { return A.mode == "pre" ? mode_pre() : 2; }
VH_MAIN(dispatch)
