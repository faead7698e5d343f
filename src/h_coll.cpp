// C18: keyed collections, their gathers and reductions on real communicators, against a global table
// that every rank knows from the seed.
#include "hmain.hpp"
#include "la/lapack.hpp"
using namespace vh;
using namespace nlcglib;
typedef Kokkos::complex<double> kc;
typedef std::pair<int, int> key;
typedef Kokkos::View<double*, Kokkos::HostSpace> view;

struct Entry { int owner; double v; int n; kc z; std::vector<double> w; };
typedef std::map<key, Entry> Table;

static Table table(Rng& g, int P) {
  Table t;
  int nk = g.p(0.1) ? 0 : g.p(0.04) ? g.i(30, 200) : g.i(1, 14), scheme = g.i(0, 4);
  for (int k = 0; k < nk; ++k) {
    key q;
    do { q = g.p(0.5) ? key(k, g.i(0, 1)) : key(g.i(-1000000, 1000000), g.i(-3, 1 << 20)); } while (t.count(q));
    Entry e;
    e.owner = scheme == 0 ? k % P : scheme == 1 ? 0 : scheme == 2 ? P - 1 : scheme == 3 ? g.i(0, P - 1) : std::min(P - 1, k * P / nk);
    e.v = g.p(0.1) ? 0.0 : g.p(0.1) ? g.logu(1e-300, 1e300) : g.g();
    e.n = (int)(g.next() & 0x7fffffff) - (1 << 30);
    e.z = kc(g.g(), g.g());
    e.w.resize(g.p(0.1) ? 0 : g.p(0.03) ? g.i(100, 700) : g.i(1, 30));
    for (auto& x : e.w) x = g.g();
    t[q] = e;
  }
  int used = 0; std::set<int> own; for (auto& e : t) own.insert(e.second.owner); used = (int)own.size();
  rep().token("distributions", fmt("P%d:%d:%s%s", P, scheme, used < P ? "empty_ranks" : "full", t.empty() ? ":nothing" : ""));
  return t;
}
static view mk(const std::vector<double>& w) { view x("x", w.size()); for (size_t i = 0; i < w.size(); ++i) x(i) = w[i]; return x; }
static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static std::string ks(key k) { return fmt("(%d,%d)", k.first, k.second); }

template <class R> static bool keys_match(const char* what, const R& r, const Table& t) {
  rep().stat("gathers_compared");
  if (r.size() != t.size()) { rep().viol("C18", what, "%s: %zu entries gathered, %zu exist", what, (size_t)r.size(), t.size()); return false; }
  auto i = t.begin();
  for (auto& e : r) { if (e.first != i->first) { rep().viol("C18", what, "%s: key %s instead of %s", what, ks(e.first).c_str(), ks(i->first).c_str()); return false; } ++i; }
  return true;
}

static void gathers(const Table& t, Communicator C, int me) {
  mvector<double> d(C); mvector<int> n(C); mvector<view> w(C); mvector<kc> z(C);
  for (auto& e : t) if (e.second.owner == me) { d[e.first] = e.second.v; n[e.first] = e.second.n; w[e.first] = mk(e.second.w); z[e.first] = e.second.z; }
  for (int expl = 0; expl < 2; ++expl) {
    auto gd = expl ? d.allgather(C) : d.allgather();
    if (keys_match("allgather<double>", gd, t)) for (auto& e : gd) if (!bits(e.second, t.at(e.first).v)) { rep().viol("C18", "allgather<double>", "value of %s changed", ks(e.first).c_str()); break; }
    auto gn = expl ? n.allgather(C) : n.allgather();
    if (keys_match("allgather<int>", gn, t)) for (auto& e : gn) if (e.second != t.at(e.first).n) { rep().viol("C18", "allgather<int>", "value of %s changed", ks(e.first).c_str()); break; }
    auto gw = expl ? w.allgather(C) : w.allgather();
    if (keys_match("allgather<view>", gw, t))
      for (auto& e : gw) {
        auto& want = t.at(e.first).w;
        bool ok = e.second.size() == want.size();
        for (size_t i = 0; ok && i < want.size(); ++i) ok = bits(e.second(i), want[i]);
        if (!ok) { rep().viol("C18", "allgather<view>", "array of %s: %zu elements instead of %zu, or changed", ks(e.first).c_str(), (size_t)e.second.size(), want.size()); break; }
      }
    // own entries are untouched and the gathered copy is independent of them
    for (auto& e : gw) for (size_t i = 0; i < e.second.size(); ++i) e.second(i) = -1;
    for (auto& e : w) for (size_t i = 0; i < e.second.size(); ++i) if (!bits(e.second(i), t.at(e.first).w[i])) { rep().viol("C18", "alias", "gathered array shares memory with %s", ks(e.first).c_str()); break; }
    // a gathered collection is complete: reducing it again must not count entries once per rank
    ld s = 0, mag = 0; for (auto& e : t) { s += e.second.v; mag += std::abs(e.second.v); }
    double sg = sum(gd), sl = expl ? sum(d, C) : sum(d);
    rep().stat("reductions_compared", 2);
    if (!(std::abs(sg - s) <= 1e-14L * mag * 20)) rep().viol("C18", "sum(gathered)", "sum of the gathered collection %.15g, of all entries %.15Lg", sg, s);
    if (!(std::abs(sl - s) <= 1e-14L * mag * 20)) rep().viol("C18", "sum", "sum %.15g, of all entries %.15Lg (%zu entries)", sl, s, t.size());
    kc zs = expl ? sum(z, C) : sum(z); std::complex<ld> zz = 0; ld zm = 0;
    for (auto& e : t) { zz += std::complex<ld>(e.second.z.real(), e.second.z.imag()); zm += Kokkos::abs(e.second.z); }
    if (!(std::abs(std::complex<ld>(zs.real(), zs.imag()) - zz) <= 1e-14L * 20 * zm)) rep().viol("C18", "sum<complex>", "sum (%.15g,%.15g), expected (%.15Lg,%.15Lg)", zs.real(), zs.imag(), zz.real(), zz.imag());
  }
  // sums of arrays per key, then over keys; products
  ld sw = 0, swm = 0, sp = 0, spm = 0;
  for (auto& e : t) { ld q = 0; for (double x : e.second.w) { q += x; swm += std::abs(x); } sw += q; sp += q * e.second.v; spm += std::abs(e.second.v) * 30 * 5; }
  double a = sum(sum(w)), b = sum(d * sum(w));
  rep().stat("reductions_compared", 2);
  if (!(std::abs(a - sw) <= 1e-13L * swm)) rep().viol("C18", "sum(sum)", "nested sum %.15g, expected %.15Lg", a, sw);
  if (!(std::abs(b - sp) <= 1e-13L * spm)) rep().viol("C18", "sum(product)", "weighted sum %.15g, expected %.15Lg", b, sp);
}

template <class T, class F> static void vec_gather(const char* what, Rng& g, Communicator C, int me, int P, F mkval) {
  std::vector<std::vector<T>> all(P);
  for (auto& v : all) { v.resize(g.p(0.25) ? 0 : g.p(0.03) ? g.i(100, 400) : g.i(1, 9)); for (auto& x : v) x = mkval(g); }
  auto r1 = C.allgather(all[me]); auto r2 = _allgather(all[me], C);
  rep().stat("gathers_compared", 3);
  if (!(r1 == all)) rep().viol("C18", what, "Communicator::allgather(vector<%s>) on %d ranks lost or mixed values", what, P);
  if (!(r2 == all)) rep().viol("C18", what, "_allgather(vector<%s>) on %d ranks lost or mixed values", what, P);
  // with explicit displacements (gaps must stay as they are)
  std::vector<int> cnt(P), dis(P); int off = g.i(0, 3);
  for (int p = 0; p < P; ++p) { cnt[p] = (int)all[p].size(); dis[p] = off; off += cnt[p] + g.i(0, 3); }
  T fill = mkval(g);
  std::vector<T> buf(off + 2, fill), want(off + 2, fill);
  for (int p = 0; p < P; ++p) for (int i = 0; i < cnt[p]; ++i) want[dis[p] + i] = all[p][i];
  for (int i = 0; i < cnt[me]; ++i) buf[dis[me] + i] = all[me][i];
  C.allgather(buf.data(), cnt, dis);
  if (!(buf == want)) rep().viol("C18", what, "allgather with displacements of %s on %d ranks wrong", what, P);
  int k = g.i(1, 4);
  std::vector<T> eq(k * P, fill), ew(k * P);
  for (auto& x : ew) x = mkval(g);
  for (int i = 0; i < k; ++i) eq[me * k + i] = ew[me * k + i];
  C.allgather(eq.data(), k);
  if (!(eq == ew)) rep().viol("C18", what, "allgather of %d %s per rank wrong", k, what);
}

static void plain(Rng& g, Communicator C, int me, int P) {
  vec_gather<int>("int", g, C, me, P, [](Rng& r) { return (int)r.next(); });
  vec_gather<double>("double", g, C, me, P, [](Rng& r) { return r.g(); });
  vec_gather<char>("char", g, C, me, P, [](Rng& r) { return (char)r.next(); });
  vec_gather<cd>("complex", g, C, me, P, [](Rng& r) { return r.cg(); });
  vec_gather<key>("pair<int,int>", g, C, me, P, [](Rng& r) { return key((int)r.next(), (int)r.next()); });
  vec_gather<std::pair<key, double>>("pair<key,double>", g, C, me, P, [](Rng& r) { int a = (int)r.next(), b = (int)r.next(); return std::make_pair(key(a, b), r.g()); });
  vec_gather<std::pair<int, double>>("pair<int,double>", g, C, me, P, [](Rng& r) { int a = (int)r.next(); return std::make_pair(a, r.g()); });
  vec_gather<std::pair<double, char>>("pair<double,char>", g, C, me, P, [](Rng& r) { double a = r.g(); return std::make_pair(a, (char)r.next()); });
  std::vector<double> v(P); std::vector<int> n(P); std::vector<cd> z(P);
  for (int p = 0; p < P; ++p) { v[p] = g.g() * g.logu(1e-5, 1e5); n[p] = g.i(-100000, 100000); z[p] = g.cg(); }
  ld s = 0, m = 0; cd zs = 0; for (int p = 0; p < P; ++p) { s += v[p]; m += std::abs(v[p]); zs += z[p]; }
  struct { const char* w; double got, want, tol; } q[] = {
      {"sum double", C.allreduce(v[me], mpi_op::sum), (double)s, (double)m * 1e-14}, {"min double", C.allreduce(v[me], mpi_op::min), *std::min_element(v.begin(), v.end()), 0}, {"max double", C.allreduce(v[me], mpi_op::max), *std::max_element(v.begin(), v.end()), 0},
      {"sum int", (double)C.allreduce(n[me], mpi_op::sum), (double)std::accumulate(n.begin(), n.end(), 0), 0}, {"min int", (double)C.allreduce(n[me], mpi_op::min), (double)*std::min_element(n.begin(), n.end()), 0}, {"max int", (double)C.allreduce(n[me], mpi_op::max), (double)*std::max_element(n.begin(), n.end()), 0}};
  rep().stat("reductions_compared", 7);
  for (auto& x : q) if (!(std::abs(x.got - x.want) <= x.tol)) rep().viol("C18", "allreduce", "%s over %d ranks: %.15g, expected %.15g", x.w, P, x.got, x.want);
  if (!(std::abs(C.allreduce(z[me], mpi_op::sum) - zs) <= 1e-13 * P)) rep().viol("C18", "allreduce", "sum of complex wrong");
}

// per-key application: pairing by key, counted evaluations, communicator of the first operand
static void application(Rng& g, Communicator C) {
  int nk = g.p(0.06) ? g.i(20, 90) : g.i(0, 9);
  std::vector<key> keys; std::set<key> seen;
  while ((int)keys.size() < nk) { key q(g.i(-50, 50), g.i(0, 3)); if (seen.insert(q).second) keys.push_back(q); }
  mvector<double> a(C); mvector<int> b; std::map<key, double> A0; std::map<key, int> B0;
  for (auto k : keys) { A0[k] = g.g(); B0[k] = g.i(-99, 99); a[k] = A0[k]; }
  for (int i = nk - 1; i >= 0; --i) b[keys[i]] = B0[keys[i]];
  key extra(1000, 1000); b[extra] = 7;  // the first operand decides which keys take part
  std::map<key, int> calls; int total = 0;
  auto f = [&](double x, int y) { for (auto& e : A0) if (bits(e.second, x)) calls[e.first]++; ++total; return std::make_tuple(x + 1000.0 * y, y, x); };
  auto check = [&](const char* w, auto& res) {
    rep().stat("applications_checked");
    if ((int)res.size() != nk) { rep().viol("C18", w, "%s: %zu results for %d keys", w, (size_t)res.size(), nk); return; }
    for (auto& e : res) {
      if (!A0.count(e.first)) { rep().viol("C18", w, "%s: unknown key", w); return; }
      auto r = eval(e.second);
      if (!bits(std::get<0>(r), A0[e.first] + 1000.0 * B0[e.first]) || std::get<1>(r) != B0[e.first]) { rep().viol("C18", w, "%s: operands of different keys were combined for %s", w, ks(e.first).c_str()); return; }
    }
  };
  auto ident = [&](const char* w, const Communicator& c) { int r; MPI_Comm_compare(c.raw(), C.raw(), &r); if (r != MPI_IDENT) rep().viol("C18", w, "%s does not keep the communicator of its first operand", w); };
  {
    auto r = tapply(f, a, b); ident("tapply", r.commk());
    auto e = eval_threaded(r); ident("eval_threaded", e.commk());
    if (total != nk) rep().viol("C18", "tapply", "%d evaluations for %d keys", total, nk);
    for (auto& c : calls) if (c.second != 1) { rep().viol("C18", "tapply", "an entry was evaluated %d times", c.second); break; }
    check("tapply", e);
    if (total != nk) rep().viol("C18", "tapply", "reading evaluated results evaluates again");
    total = 0; calls.clear(); execute(r);
    if (total != nk) rep().viol("C18", "execute", "%d evaluations for %d keys", total, nk);
    // unzip
    auto u = unzip(e), u2 = unzip(e, C);
    ident("unzip", std::get<0>(u2).commk());
    rep().stat("applications_checked");
    for (int i = 0; i < 2; ++i) {
      auto& U = i ? u2 : u;
      bool ok = (int)std::get<0>(U).size() == nk && (int)std::get<1>(U).size() == nk && (int)std::get<2>(U).size() == nk;
      for (auto k : keys) ok = ok && bits(std::get<0>(U)[k], A0[k] + 1000.0 * B0[k]) && std::get<1>(U)[k] == B0[k] && bits(std::get<2>(U)[k], A0[k]);
      if (!ok) { rep().viol("C18", "unzip", "unzip lost or mixed entries"); break; }
    }
  }
  {
    total = 0; calls.clear();
    auto r = tapply_async(f, a, b); ident("tapply_async", r.commk());
    auto e = eval_threaded(r);
    check("tapply_async", e); check("tapply_async", r);
    if (total != nk) rep().viol("C18", "tapply_async", "%d evaluations for %d keys", total, nk);
  }
  {  // chained lazily
    auto h = [](auto x, double y) { return std::get<0>(eval(x)) - y; };
    auto r = eval_threaded(tapply(h, tapply(f, a, b), a));
    rep().stat("applications_checked");
    for (auto k : keys) if (!(std::abs(r[k] - 1000.0 * B0[k]) <= 1e-9)) { rep().viol("C18", "chain", "chained application combined different keys"); break; }
    ident("chained tapply", r.commk());
  }
  if (nk) {  // a key the second operand does not have cannot be paired: refused
    mvector<int> c; for (int i = 1; i < nk; ++i) c[keys[i]] = 1;
    bool thrown = false;
    try { auto r = tapply([](double x, int y) { return x + y; }, a, c); eval_threaded(r); } catch (const std::exception&) { thrown = true; }
    rep().stat("refusals_provoked");
    if (!thrown) rep().viol("C18", "tapply", "a key missing in the second operand was paired with something");
  }
  {  // matrices: deep copies
    mvector<KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>> M(C);
    for (auto k : keys) { int r = g.i(1, 5), c = g.i(1, 5); M[k] = KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>(Map<>(Communicator(MPI_COMM_SELF), SlabLayoutV({{0, 0, r, c}}))); for (int i = 0; i < r * c; ++i) M[k].array().data()[i] = kc(A0[k], i); }
    auto cp = copy(M); ident("copy", cp.commk());
    rep().stat("applications_checked");
    bool ok = (int)cp.size() == nk;
    for (auto k : keys) { ok = ok && cp[k].array().size() == M[k].array().size(); for (size_t i = 0; ok && i < M[k].array().size(); ++i) { ok = cp[k].array().data()[i] == M[k].array().data()[i]; cp[k].array().data()[i] = kc(-5); } }
    for (auto k : keys) for (size_t i = 0; ok && i < M[k].array().size(); ++i) ok = M[k].array().data()[i] == kc(A0[k], (double)i);
    if (!ok) rep().viol("C18", "copy", "copy of a collection of matrices is not an independent equal copy");
  }
}

static int mode_coll() {
  for (long i = A.a; i < A.b; ++i) {
    if (!next_case(i)) break;
    Rng g(case_seed(i, 18));
    MPI_Comm w = MPI_COMM_WORLD, sub = MPI_COMM_NULL;
    int W = world_size(), color = 0;
    bool split = W > 1 && g.p(0.4);
    if (split) { int cut = g.i(1, W - 1), rev = g.i(0, 1); color = world_rank() < cut; MPI_Comm_split(w, color, rev ? -world_rank() : world_rank(), &sub); w = sub; }
    { Rng h(mix(g.next(), (uint64_t)color));
      Communicator C(w);
      Table t = table(h, C.size());
      gathers(t, C, C.rank());
      plain(h, C, C.rank(), C.size());
      application(h, C); }
    if (split) MPI_Comm_free(&sub);
  }
  return 0;
}
static int dispatch() { return A.mode == "coll" ? mode_coll() : 2; }
VH_MAIN(dispatch)
