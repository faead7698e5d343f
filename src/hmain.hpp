// Shared main of the harnesses that drive the library's headers directly.
#pragma once
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include "common.hpp"
namespace vh {
struct HArgs {
  std::string mode;
  uint64_t seed = 1;
  long a = 0, b = 0;
  std::map<std::string, std::string> kv;
  std::string get(const char* k, const char* d) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  long geti(const char* k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
};
inline HArgs A;
inline int world_rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
inline int world_size() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }
inline uint64_t case_seed(long i, uint64_t salt) { return A.seed * 0x9E3779B97F4A7C15ull + (uint64_t)i * 0xD1B54A32D192ED03ull + salt; }
// collective: all ranks agree whether to run one more case
inline bool next_case(long i) {
  int ok = rep().over() ? 0 : 1, all = 1;
  MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  if (!all) { rep().stat("cases_dropped_time"); return false; }
  return rep().begin_case(i);
}
}  // namespace vh
#define VH_MAIN(dispatch)                                                   \
  int main(int argc, char** argv)                                           \
  {                                                                         \
    int prov;                                                               \
    vh::own_output();                                                       \
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);              \
    if (argc < 5) return 2;                                                 \
    vh::A.mode = argv[1];                                                   \
    vh::A.seed = strtoull(argv[2], 0, 10);                                  \
    vh::A.a = atol(argv[3]);                                                \
    vh::A.b = atol(argv[4]);                                                \
    for (int i = 5; i < argc; ++i) {                                        \
      std::string t = argv[i];                                              \
      auto p = t.find('=');                                                 \
      if (p != std::string::npos) vh::A.kv[t.substr(0, p)] = t.substr(p + 1); \
    }                                                                       \
    vh::rep().budget = (double)vh::A.geti("budget", 1000000);               \
    if (vh::world_rank() != 0) vh::rep().quiet_rank = true;                 \
    Kokkos::initialize();                                                   \
    int rc = dispatch();                                                    \
    Kokkos::finalize();                                                     \
    vh::rep().finish();                                                     \
    MPI_Finalize();                                                         \
    return rc;                                                              \
  }
