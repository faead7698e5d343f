// MPI profiling layer: records the collectives issued by the library (not by the mock objects),
// counts MPI objects, and can delay ranks at random to vary the schedule.
#pragma once
#include <mpi.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "common.hpp"
namespace vh { extern int g_in_callback; }

namespace pm {
struct State {
  bool record = false;
  std::vector<std::string> log;
  long types_created = 0, types_freed = 0, comms_created = 0, comms_freed = 0, others = 0;
  double delay_prob = 0;
  vh::Rng rng{1};
  long delays = 0;
};
inline State& st() { static State s; return s; }
inline void note(const char* op, MPI_Comm c, long n, MPI_Datatype t, long opid) {
  auto& s = st();
  if (s.delay_prob > 0 && s.rng.p(s.delay_prob)) { ++s.delays; usleep((unsigned)s.rng.i(50, 3000)); }
  if (!s.record || vh::g_in_callback > 0) return;
  int csz = -1, tsz = -1;
  if (c != MPI_COMM_NULL) PMPI_Comm_size(c, &csz);
  if (t != MPI_DATATYPE_NULL) PMPI_Type_size(t, &tsz);
  if (csz == 1) return;  // private communicators need no match
  s.log.push_back(vh::fmt("%s/c%d/n%ld/t%d/o%ld", op, csz, n, tsz, opid));
}
inline long opnum(MPI_Op o) { return o == MPI_SUM ? 1 : o == MPI_MAX ? 2 : o == MPI_MIN ? 3 : 9; }
}  // namespace pm

extern "C" {
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { pm::note("allreduce", c, n, t, pm::opnum(o)); return PMPI_Allreduce(a, b, n, t, o, c); }
int MPI_Reduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { pm::note("reduce", c, n, t, pm::opnum(o) + 10 * root); return PMPI_Reduce(a, b, n, t, o, root, c); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { pm::note("bcast", c, n, t, root); return PMPI_Bcast(b, n, t, root, c); }
int MPI_Barrier(MPI_Comm c) { pm::note("barrier", c, 0, MPI_DATATYPE_NULL, 0); return PMPI_Barrier(c); }
int MPI_Allgather(const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c) { pm::note("allgather", c, m, u, 0); return PMPI_Allgather(a, n, t, b, m, u, c); }
int MPI_Allgatherv(const void* a, int n, MPI_Datatype t, void* b, const int* m, const int* d, MPI_Datatype u, MPI_Comm c) {
  int sz; PMPI_Comm_size(c, &sz);
  long h = 0; for (int i = 0; i < sz; ++i) h = h * 1000003 + m[i] * 31 + d[i];
  pm::note("allgatherv", c, h, u, 0);
  return PMPI_Allgatherv(a, n, t, b, m, d, u, c);
}
int MPI_Gather(const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { pm::note("gather", c, n, t, r); return PMPI_Gather(a, n, t, b, m, u, r, c); }
int MPI_Type_commit(MPI_Datatype* t) { pm::st().types_created++; return PMPI_Type_commit(t); }
int MPI_Type_free(MPI_Datatype* t) { pm::st().types_freed++; return PMPI_Type_free(t); }
int MPI_Type_create_struct(int n, const int* b, const MPI_Aint* d, const MPI_Datatype* t, MPI_Datatype* r) { pm::st().others++; return PMPI_Type_create_struct(n, b, d, t, r); }
int MPI_Type_create_resized(MPI_Datatype a, MPI_Aint l, MPI_Aint e, MPI_Datatype* r) { pm::st().others++; return PMPI_Type_create_resized(a, l, e, r); }
int MPI_Type_contiguous(int n, MPI_Datatype a, MPI_Datatype* r) { pm::st().others++; return PMPI_Type_contiguous(n, a, r); }
int MPI_Type_vector(int n, int b, int q, MPI_Datatype a, MPI_Datatype* r) { pm::st().others++; return PMPI_Type_vector(n, b, q, a, r); }
int MPI_Type_dup(MPI_Datatype a, MPI_Datatype* r) { pm::st().others++; return PMPI_Type_dup(a, r); }
int MPI_Type_indexed(int n, const int* b, const int* d, MPI_Datatype a, MPI_Datatype* r) { pm::st().others++; return PMPI_Type_indexed(n, b, d, a, r); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* r) { pm::st().comms_created++; pm::note("comm_dup", c, 0, MPI_DATATYPE_NULL, 0); return PMPI_Comm_dup(c, r); }
int MPI_Comm_split(MPI_Comm c, int k, int q, MPI_Comm* r) { pm::st().comms_created++; pm::note("comm_split", c, 0, MPI_DATATYPE_NULL, 0); return PMPI_Comm_split(c, k, q, r); }
int MPI_Comm_free(MPI_Comm* c) { pm::st().comms_freed++; return PMPI_Comm_free(c); }
}
