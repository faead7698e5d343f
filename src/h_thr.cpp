// C19: log, singletons and switches hammered from several threads. Built with ThreadSanitizer (data
// races) and plainly (message accounting at full speed). MPI is not started; the rank is a stand-in.
#include <mpi.h>
#include <atomic>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "common.hpp"
#include "utils/logger.hpp"
#include "utils/env.hpp"
using namespace vh;
static int g_rank = 0;
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = g_rank; return MPI_SUCCESS; }

struct Barrier {
  std::atomic<int> n{0}; int want;
  explicit Barrier(int w) : want(w) {}
  void wait() { n.fetch_add(1); while (n.load() < want) {} }
};
static void jitter(Rng& g) {
  switch (g.i(0, 7)) { case 0: usleep(g.i(0, 30)); break; case 1: std::this_thread::yield(); break; default: for (volatile int i = 0; i < 50; i = i + 1) {} }
}

template <int N> struct Probe : public nlcglib::CSingleton<Probe<N>> {
  static inline std::atomic<int> made{0};
  int payload = 0;
  Probe() { made.fetch_add(1); std::this_thread::yield(); payload = 4242 + N; }
};
template <int N> static void probe(int T, Rng g) {
  Barrier b(T); std::vector<std::thread> th; std::vector<void*> seen(T); std::vector<int> pay(T);
  for (int t = 0; t < T; ++t) th.emplace_back([&, t, g]() mutable { g.s += t * 77777; b.wait(); if (g.p(0.5)) jitter(g); auto& p = Probe<N>::GetInstance(); seen[t] = &p; pay[t] = p.payload; });
  for (auto& t : th) t.join();
  rep().stat("singleton_first_uses");
  if (Probe<N>::made.load() != 1) rep().viol("C19", "singleton", "%d instances were constructed by concurrent first use", Probe<N>::made.load());
  for (int t = 0; t < T; ++t) if (seen[t] != seen[0] || pay[t] != 4242 + N) { rep().viol("C19", "singleton", "threads saw different or unfinished instances"); break; }
}
template <int N> struct Loop { static void go(int k, int T, Rng g) { if (k == N) probe<N>(T, g); else Loop<N - 1>::go(k, T, g); } };
template <> struct Loop<-1> { static void go(int, int, Rng) {} };

// the log of one run: every message exactly once and whole
static void account(const char* where, const std::string& text, const std::map<std::string, int>& sent, const char* tag) {
  std::map<std::string, int> got; size_t junk = 0;
  std::stringstream s(text); std::string l;
  while (std::getline(s, l)) {
    size_t p = l.find('<');
    if (p == std::string::npos || l.back() != '>') { ++junk; if (junk < 2) rep().viol("C19", "scrambled", "%s (%s): line '%.80s' is not a message anyone wrote", where, tag, l.c_str()); continue; }
    std::string pre = l.substr(0, p);
    // prefixes are whole tags "P<thread>::"
    for (size_t i = 0; i < pre.size();) { size_t e = pre.find("::", i); if (e == std::string::npos || pre[i] != 'P') { rep().viol("C19", "prefix", "%s: torn prefix '%.60s'", where, pre.c_str()); break; } i = e + 2; }
    got[l.substr(p)]++;
  }
  for (auto& m : sent) if (got[m.first] != m.second) { rep().viol("C19", "lost", "%s (%s): message %.60s written %d time(s), arrived %d time(s)", where, tag, m.first.c_str(), m.second, got[m.first]); break; }
  for (auto& m : got) if (!sent.count(m.first)) { rep().viol("C19", "invented", "%s (%s): '%.80s' was never written", where, tag, m.first.c_str()); break; }
  rep().stat("messages_accounted", (long)sent.size());
}

static void log_case(long i, Rng g, bool first) {
  int T = g.i(2, 8), M = g.i(20, 120), kind = g.i(0, 3);
  g_rank = kind == 3 ? 1 : 0;
  bool prefixes = g.p(0.4), churn = g.p(0.5), cout_on = g.p(0.5);
  std::string file = fmt("log.%ld.txt", i);
  std::stringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf());
  using nlcglib::Logger;
  if (!first) { Logger::GetInstance().attach_file_master(file); if (cout_on) Logger::GetInstance().attach_stdout(); else Logger::GetInstance().detach_stdout(); }
  if (kind == 2) Logger::GetInstance().attach_file("rk" + file + ".", ".log");
  std::map<std::string, int> sent; std::mutex m;
  Barrier b(T + churn);
  std::atomic<int> left{T};
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t, g]() mutable {
      g.s += 1000003ull * (t + 1);
      std::map<std::string, int> mine;
      b.wait();
      if (first) { Logger::GetInstance().attach_file_master(file); Logger::GetInstance().detach_stdout(); }
      for (int k = 0; k < M; ++k) {
        std::string body = fmt("<%ld:%d:%d:", i, t, k) + std::string(g.p(0.03) ? g.i(200, 6000) : g.i(0, 60), 'a' + t) + ">";
        if (g.p(0.2)) { body = fmt("<%ld:%d:%d:n%d>", i, t, k, g.i(0, 99999)); }
        mine[body]++;
        if (prefixes && g.p(0.3)) Logger::GetInstance().push_prefix(fmt("P%d", t)), Logger::GetInstance() << body + "\n", Logger::GetInstance().pop_prefix();
        else if (cout_on && !first && g.p(0.1)) Logger::GetInstance() << nlcglib::TO_STDOUT << body + "\n";
        else Logger::GetInstance() << body + "\n";
        if (g.p(0.05)) Logger::GetInstance().flush();
        if (g.p(0.3)) jitter(g);
      }
      std::lock_guard<std::mutex> l(m);
      for (auto& x : mine) sent[x.first] += x.second;
      left.fetch_sub(1);
    });
  if (churn)
    th.emplace_back([&, g]() mutable {
      g.s += 5; b.wait();
      while (left.load()) {
        Logger::GetInstance().flush();
        (void)Logger::GetInstance().is_detached();
        if (!cout_on || first) Logger::GetInstance().detach_stdout();
        jitter(g);
      }
    });
  for (auto& t : th) t.join();
  Logger::GetInstance().clear_prefix();
  Logger::GetInstance().flush();
  std::cout.rdbuf(old);
  auto slurp = [](const std::string& f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); };
  rep().token("log_kinds", fmt("T%d:%s%s%s%s:rank%d", T, prefixes ? "p" : "", churn ? "c" : "", cout_on ? "o" : "", first ? "f" : "", g_rank));
  if (!first && kind == 2) account("log of this rank", slurp("rk" + file + fmt(".%d", g_rank) + ".log"), sent, "attach_file");
  else if (!first && g_rank == 0) account("master log", slurp(file), sent, "attach_file_master");
  else if (!first && !slurp(file).empty()) rep().viol("C19", "rank", "a rank other than 0 wrote the master log");
  if (!first) { if (cout_on && g_rank == 0) account("standard output", cap.str(), sent, "attached"); else if (!cap.str().empty()) rep().viol("C19", "stdout", "output on a detached console: '%.60s'", cap.str().c_str()); }
  unlink(file.c_str()); unlink(("rk" + file + fmt(".%d", g_rank) + ".log").c_str());
}

// the switch, read for the first time by several threads at once (fresh process each time)
static void env_case(Rng g) {
  const char* vals[] = {nullptr, "0", "1", "", "yes", "00"};
  const char* v = vals[g.i(0, 5)];
  bool want = v && strcmp(v, "0") != 0;
  int T = g.i(2, 8);
  auto* sh = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    if (v) setenv("NLCGLIB_DISABLE_NEWTON_EFERMI", v, 1); else unsetenv("NLCGLIB_DISABLE_NEWTON_EFERMI");
    Barrier b(T); std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&] { b.wait(); for (int k = 0; k < 20; ++k) if (nlcglib::env::get_skip_newton_efermi() != want) sh->fetch_add(1); });
    for (auto& t : th) t.join();
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  rep().stat("switch_first_reads");
  if (sh->load()) rep().viol("C19", "switch", "%d of %d concurrent readers saw the wrong value of the switch (variable %s)", sh->load(), T * 20, v ? v : "unset");
  if (WIFSIGNALED(st)) rep().viol("C19", "switch", "reading the switch from several threads ended with signal %d", WTERMSIG(st));
  munmap(sh, 4096);
}

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  uint64_t seed = strtoull(argv[2], 0, 10); long a = atol(argv[3]), b = atol(argv[4]);
  std::string mode = argv[1];
  for (int i = 5; i < argc; ++i) { double s; if (sscanf(argv[i], "budget=%lf", &s) == 1) rep().budget = s; }
  if (mode == "env") {
    for (long i = a; i < b; ++i) { if (!rep().begin_case(i)) break; env_case(Rng(mix(seed, i * 3 + 1))); }
  } else {
    bool first = true;
    for (long i = a; i < b; ++i) {
      if (!rep().begin_case(i)) break;
      Rng g(mix(seed, i * 3));
      if (first) { g_rank = 0; log_case(-1, g, true); for (int k = 0; k < 24; ++k) Loop<23>::go(k, g.i(2, 8), g); {  // switch read concurrently in this process as well
          Barrier bb(4); std::vector<std::thread> th; std::atomic<int> bad{0}; for (int t = 0; t < 4; ++t) th.emplace_back([&] { bb.wait(); if (nlcglib::env::get_skip_newton_efermi()) bad++; }); for (auto& t : th) t.join(); if (bad.load()) rep().viol("C19", "switch", "switch read as set although the variable is not"); } }
      first = false;
      log_case(i, g, false);
    }
  }
  rep().finish();
  return 0;
}
