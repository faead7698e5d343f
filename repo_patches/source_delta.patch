From 362fa135147a59ab430a2da3f1425ebb4934e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 01/24] fix: Gaussian-spline entropy ignored the maximal
 occupancy

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..2d264c2 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return mo * 0.25 *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return mo * 0.25 *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From f028ab280c47909aaabf117e3cd038de47ccaa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 02/24] fix: derivative of the Gaussian-spline delta missed a
 factor x for x <= 0

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 2d264c2..45c332a 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -208,7 +208,7 @@ struct gaussian_spline : summed<gaussian_spline>
     if (x > 8 || x < -8) return 0;
 
     if (x <= 0) {
-      return -2 * mo * std::exp((sqrt2 - x) * x) * (sqrt2 - x);
+      return -2 * mo * std::exp((sqrt2 - x) * x) * x * (sqrt2 - x);
     } else {
       return -2 * mo * std::exp(-x * (sqrt2 + x)) * x * (sqrt2 + x);
     }
-- 
2.43.0


From d8b5b363d65e407ee33c23567a493723bc4b06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 03/24] fix: derivative of the Methfessel-Paxton delta missed a
 factor x

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 45c332a..bb27099 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -280,7 +280,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
     double sqrtpi = std::sqrt(constants::pi);
-    return mo * std::exp(-x * x) * (2 * x * x - 5) / sqrtpi;
+    return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
-- 
2.43.0


From b5343a26b5b6cfe4dfc654c7c86aeff514935857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 04/24] fix: grad_eta evaluated delta at (e-mu)/kT instead of
 (mu-e)/kT

The smearing functions take x=(mu-e)/kT everywhere else. Makes no difference for
even delta functions, but gives a wrong gradient for cold smearing.
---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From 69a0fd801960003d506fe95c6ccfc3ca60311ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 05/24] fix: reported residual was off by the slope_eta
 placeholder (-1)

---
 src/nlcglib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..a0ccf53 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -88,7 +88,7 @@ print_info(double free_energy,
   nlcg_info info;
   info.F = free_energy;
   info.S = entropy;
-  info.tolerance = slope_x + slope_eta;
+  info.tolerance = slope_x;  // slope_eta is a placeholder, slope_x contains both contributions
   info.iter = step;
 
   return info;
-- 
2.43.0


From 975b8422e6045fbc868624edfb6d372daad23789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 06/24] fix: nlcg_info was returned uninitialised for maxiter
 <= 0

---
 src/nlcglib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index a0ccf53..73693e9 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -305,6 +305,12 @@ nlcg_us(EnergyBase& energy_base,
   double fr = slope;  // Fletcher-Reeves numerator
   bool force_restart{false};
 
+  // describes the initial state, in case no iteration is carried out
+  info.F = free_energy.get_F();
+  info.S = free_energy.get_entropy();
+  info.tolerance = slope;
+  info.iter = 0;
+
   for (int cg_iter = 0; cg_iter < maxiter; ++cg_iter) {
     if (std::abs(slope) < tol) {
       info = print_info(free_energy.get_F(),
-- 
2.43.0


From af4c39716f96c1316e9166dc68a04438d0f35c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 07/24] fix: reject restart < 1 (was an integer division by
 zero)

---
 src/nlcglib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 73693e9..79cdab0 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -228,6 +228,10 @@ nlcg_us(EnergyBase& energy_base,
   //                ~FE_UNDERFLOW);  // Enable all floating point exceptions but FE_INEXACT
   nlcg_info info;
 
+  if (restart < 1) {
+    throw std::runtime_error("restart must be > 0.");
+  }
+
   auto S = Overlap(overlap_base);
   auto P = USPreconditioner(us_precond_base);
 
-- 
2.43.0


From 18b45d40e1573c3f4db4226ee8bc50f67cd6c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 08/24] fix: reject negative temperatures

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index bb27099..645b516 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -558,7 +558,7 @@ public:
       , wk(wk)
       , smearing_t(smearing_t)
   {
-    if (T == 0) {
+    if (!(T > 0)) {
       throw std::runtime_error("Temperature must be > 0.");
     }
     kT = T * physical_constants::kb;
-- 
2.43.0


From 91f8dac4c6d13aae0b19ce0042df449b4a6ea82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 09/24] fix: solve_sym ignored failures of potrf/potrs

---
 src/la/lapack_cpu.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..7d7575d 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -75,11 +75,12 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
 
     char uplo = 'U';
     auto order = CBLAS_ORDER::CblasColMajor;
-    potrf_t::call(order, uplo, n, ptr_A, lda);
+    if (potrf_t::call(order, uplo, n, ptr_A, lda) != 0) throw std::runtime_error("zpotrf failed");
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-    potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    if (potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb) != 0)
+      throw std::runtime_error("zpotrs failed");
   } else {
     throw std::runtime_error("not implemented");
   }
-- 
2.43.0


From 6eab2a4af864be0fc9094c5a511974640c801b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 10/24] fix: op_iterator read past the end of its keys

---
 src/operator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operator.hpp b/src/operator.hpp
index e7807ff..4f5176e 100644
--- a/src/operator.hpp
+++ b/src/operator.hpp
@@ -19,7 +19,7 @@ public:
       : keys(keys)
       , obj(obj)
   {
-    if (end) {
+    if (end || keys.empty()) {
       pos = keys.size();
     } else {
       key_t k = keys[0];
@@ -30,7 +30,8 @@ public:
   op_iterator& operator++()
   {
     pos++;
-    pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    if (pos < static_cast<int>(keys.size()))
+      pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
     return *this;
   }
 
-- 
2.43.0


From 501fba5048fbd72f4292a3d637f0fb15ab2de032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 11/24] fix: format() wrote past the end of its buffer

---
 src/utils/format.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils/format.hpp b/src/utils/format.hpp
index b14e9d6..19a53db 100644
--- a/src/utils/format.hpp
+++ b/src/utils/format.hpp
@@ -2,16 +2,21 @@
 
 #include <iostream>
 #include <cstdio>
+#include <stdexcept>
+#include <string>
 
 namespace nlcglib {
 
 template<class... ARGS>
 std::string format(std::string format_string, ARGS&&... args)
 {
-  char buf[format_string.size()];
-  std::sprintf(buf, format_string.c_str(), args...);
+  int n = std::snprintf(nullptr, 0, format_string.c_str(), args...);
+  if (n < 0) throw std::runtime_error("format: invalid format string");
+  std::string buf(n + 1, '\0');
+  std::snprintf(&buf[0], buf.size(), format_string.c_str(), args...);
+  buf.resize(n);
 
-  return std::string(buf);
+  return buf;
 }
 
 }  // nlcglib
-- 
2.43.0


From 284782873577cd25bff5cb9fd2ce60e13e23c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 12/24] fix: mvector assignment from std::map did not return

---
 src/la/mvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index c34610a..cedeb87 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -98,6 +98,7 @@ public :
   mvector& operator=(std::map<key_t, T>&& data)
   {
     data_ = std::forward<std::map<key_t, T>>(data);
+    return *this;
   }
 
   template<typename Z>
-- 
2.43.0


From 97b24287e9554611c0c1e3378713550b1658a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:56 +0000
Subject: [PATCH 13/24] fix: restore the accepted state when the line search
 gives up

---
 src/linesearch/linesearch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..428e839 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -78,6 +78,7 @@ line_search::bt_search(GEODESIC& G, FREE_ENERGY& FE, double F0, bool& force_rest
   // TODO: let logger print state
   Logger::GetInstance().flush();
   if (force_restart)  {
+    G(0);  // leave the energy in the last accepted state
     throw DescentError();
   } else {
     force_restart = true;
-- 
2.43.0


From f4df5c91ea7249ae478eae75e34c93cf9b4c3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 14/24] fix: Logger did not lock

std::lock_guard<std::mutex> lock(std::mutex) declares a function, and flush() locked a
mutex of its own. Use one mutex for all loggers, since copies share the output stream.
---
 src/utils/logger.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 4f581d7..9adabb9 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -26,6 +26,7 @@ public:
 
   void attach_file(const std::string& prefix = "out", const std::string& suffix = ".log")
   {
+    std::lock_guard<std::mutex> lock(mutex_);
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
     stream_ptr_ = std::make_shared<std::ofstream>(prefix + std::to_string(pid_) + suffix);
   }
@@ -33,6 +34,7 @@ public:
   /// only master rank writes
   void attach_file_master(const std::string& fname = "nlcg.out")
   {
+    std::lock_guard<std::mutex> lock(mutex_);
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
     if (pid_ == 0)
       stream_ptr_ = std::make_shared<std::ofstream>(fname);
@@ -41,7 +43,7 @@ public:
   template <typename T>
   Logger& operator<<(const T& output)
   {
-    std::lock_guard<std::mutex> lock(std::mutex);
+    std::lock_guard<std::mutex> lock(mutex_);
     sbuf_.str("");
 
     for (auto& v : prefixes_) {
@@ -61,6 +63,7 @@ public:
   Logger operator<<(const to_stdout_trigger&)
   {
     Logger log;
+    std::lock_guard<std::mutex> lock(mutex_);
     log.prefixes_ = prefixes_;
     log.stream_ptr_ = stream_ptr_;
     log.detach_stdout_ = false;
@@ -69,37 +72,48 @@ public:
 
   void push_prefix(const std::string& tag)
   {
-    std::lock_guard<std::mutex> lock(std::mutex);
+    std::lock_guard<std::mutex> lock(mutex_);
     prefixes_.push_back(tag);
   }
 
   void pop_prefix()
   {
-    std::lock_guard<std::mutex> lock(std::mutex);
+    std::lock_guard<std::mutex> lock(mutex_);
     prefixes_.pop_back();
   }
 
   void clear_prefix()
   {
-    std::lock_guard<std::mutex> lock(std::mutex);
+    std::lock_guard<std::mutex> lock(mutex_);
     prefixes_.clear();
   }
 
   void flush()
   {
+    std::lock_guard<std::mutex> lock(mutex_);
     if(stream_ptr_) {
-      std::mutex mutex;
-      std::lock_guard<std::mutex> lock(mutex);
       auto& out = *(stream_ptr_.get());
       out.flush();
     }
   }
 
-  void detach_stdout() { detach_stdout_ = true; }
+  void detach_stdout()
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    detach_stdout_ = true;
+  }
 
-  void attach_stdout() { detach_stdout_ = false; }
+  void attach_stdout()
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    detach_stdout_ = false;
+  }
 
-  bool is_detached() { return detach_stdout_ == true; }
+  bool is_detached()
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    return detach_stdout_ == true;
+  }
 
 private:
   std::list<std::string> prefixes_;
@@ -107,6 +121,7 @@ private:
   std::stringstream sbuf_;
   bool detach_stdout_ = false;
   int pid_ = 0;
+  inline static std::mutex mutex_;
 };
 
 }  // namespace nlcglib
-- 
2.43.0


From a64cd2024c0e36c7fd2b1ff7f228c7c0964c1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 15/24] fix: MPI datatype of std::pair: wrong displacement,
 leaked on every use

---
 src/mpi/mpi_type.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 8fdf03d..aba9dd3 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -84,16 +84,32 @@ struct mpi_type<std::pair<T1, T2>>
 {
   static MPI_Datatype type()
   {
-    MPI_Datatype result;
+    // committed once per process
+    static MPI_Datatype datatype = create();
+    return datatype;
+  }
+
+private:
+  static MPI_Datatype create()
+  {
+    std::pair<T1, T2> p{};
+    MPI_Aint base, addr[2];
+    CALL_MPI(MPI_Get_address, (&p, &base));
+    CALL_MPI(MPI_Get_address, (&p.first, &addr[0]));
+    CALL_MPI(MPI_Get_address, (&p.second, &addr[1]));
+
+    MPI_Datatype tmp, result;
     int array_of_block_lengths[2] = {1, 1};
-    MPI_Aint array_of_displacements[2] = {0, sizeof(T1)};
+    MPI_Aint array_of_displacements[2] = {addr[0] - base, addr[1] - base};
     MPI_Datatype types[2] = {mpi_type<T1>::type(), mpi_type<T2>::type()};
     CALL_MPI(
         MPI_Type_create_struct, (2,
                                  array_of_block_lengths,
                                  array_of_displacements,
                                  types,
-                                 &result));
+                                 &tmp));
+    CALL_MPI(MPI_Type_create_resized, (tmp, 0, sizeof(std::pair<T1, T2>), &result));
+    CALL_MPI(MPI_Type_free, (&tmp));
     CALL_MPI(MPI_Type_commit, (&result));
     return result;
   }
-- 
2.43.0


From a14359bc4c5db20bc2a2999a0161d0c8e0f56d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:46 +0000
Subject: [PATCH 16/24] fix: quadratic line search stepped to infinity when the
 curvature is zero

Close to convergence F(t_trial) - slope * t_trial - F0 can round to exactly zero, t_min was
then infinite and the run ended in a failing eigensolver. Fall back to backtracking.
---
 src/linesearch/linesearch.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 428e839..fd82f1d 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -120,6 +120,9 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
 
     a = (F1 - b * tsearch - c) / (tsearch * tsearch);
 
+    // no curvature, the minimum cannot be predicted
+    if (a == 0) throw StepError();
+
     t_min = -b / (2 * a);
 
     // check curvature, might need to increase trial point
-- 
2.43.0


From b2a74063e7d9fea2d1dc723df38adaff2d80bbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:36 +0000
Subject: [PATCH 17/24] fix: gradient of eta vanished between degenerate bands

For two bands of equal pseudo eigenvalue the off-diagonal elements of the
gradient were set to zero instead of the limit of the difference quotient
(df/de). The reported slope then differed from the derivative of the free
energy, and coupled degenerate bands could pass for converged.
---
 src/pseudo_hamiltonian/grad_eta.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 99bde17..c53488c 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -176,7 +176,9 @@ public:
             double ej = ek(j);
             double ei = ek(i);
             if (std::abs(ej - ei) < 1e-10) {
-              // zero contribution
+              // degenerate: the difference quotient becomes the derivative of f
+              double delta = smearing<smearing_t>::delta((mu - ei) / kT_loc, mo);
+              mgETA(i, j) += -1 / kT_loc * delta * mHij(i, j);
             } else {
               double II = (fn(j) - fn(i)) / (ej - ei);
               mgETA(i, j) += II * mHij(i, j);
-- 
2.43.0


From 31fabe66a4c277d618e6928034fd8f95a5bd1d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:26 +0000
Subject: [PATCH 18/24] fix: outer() takes the dimensions of a * b^H, not of
 a^H * b

---
 src/la/lapack_cpu.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index 7d7575d..cfdbea4 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -156,7 +156,7 @@ inner(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
   }
 }
 
-///  Inner product: c = a^H * b, on CPU
+///  Outer product: c = a * b^H, on CPU
 template <class T0,
           class LAYOUT0,
           class... KOKKOS0,
@@ -191,9 +191,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
 
   // single rank
   if (A.map().is_local() && B.map().is_local() && C.map().is_local()) {
-    int m = A.map().ncols();
-    int k = A.map().nrows();
-    int n = B.map().ncols();
+    int m = A.map().nrows();
+    int k = A.map().ncols();
+    int n = B.map().nrows();
     numeric_t* A_ptr = A.array().data();
     numeric_t* B_ptr = B.array().data();
     numeric_t* C_ptr = C.array().data();
-- 
2.43.0


From 3da5569700085d204fa1145f7984e67a96861989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:26 +0000
Subject: [PATCH 19/24] fix: transform_alloc() allocates the shape of the
 product

---
 src/la/lapack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index bf411c3..b747b62 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -434,7 +434,10 @@ transform_alloc(
     const identity_t<typename M1::numeric_t>& alpha = identity_t<typename M1::numeric_t>{1.0},
     const identity_t<typename M1::numeric_t>& beta = identity_t<typename M1::numeric_t>{0.})
 {
-  to_layout_left_t<M1> C(A.map());
+  int m = A.map().nrows();
+  int n = B.map().ncols();
+  Map<SlabLayoutV> map(A.map().comm(), SlabLayoutV({{0, 0, m, n}}));
+  to_layout_left_t<M1> C(map);
   transform(C, beta, alpha, A, B);
   return C;
 }
-- 
2.43.0


From 0f99ea342727ed0b17fda1fc22892f043019b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:09 +0000
Subject: [PATCH 20/24] fix: geam does not reference its second operand if beta
 is zero

---
 src/la/cblas.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/la/cblas.hpp b/src/la/cblas.hpp
index d62b714..b97cf45 100644
--- a/src/la/cblas.hpp
+++ b/src/la/cblas.hpp
@@ -379,10 +379,14 @@ struct geam<Kokkos::complex<double>> : blas_base
 
     if (TransA == CBLAS_TRANSPOSE::CblasNoTrans && TransB == CBLAS_TRANSPOSE::CblasNoTrans &&
         Order == CblasColMajor) {
+      // as in BLAS, B is not referenced if beta is zero (it may be uninitialised)
+      const bool use_b = beta_ != 0.0;
 #pragma omp parallel for
       for (int j = 0; j < N; ++j) {
         for (int i = 0; i < M; ++i) {
-          cC[i + ldc * j] = alpha_ * (cA[i + lda * j]) + beta_ * cB[i + ldb * j];
+          auto c = alpha_ * cA[i + lda * j];
+          if (use_b) c += beta_ * cB[i + ldb * j];
+          cC[i + ldc * j] = c;
         }
       }
     } else {
-- 
2.43.0


From f02b82c2752b708f904e6a54e4dbeeeab1c149f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:14 +0000
Subject: [PATCH 21/24] fix: eval_threaded() keeps the communicator of its
 argument

---
 src/la/mvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index cedeb87..696d3f8 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -428,7 +428,7 @@ template <typename T>
 auto
 eval_threaded(const mvector<T>& input)
 {
-  mvector<std::remove_reference_t<decltype(eval(std::declval<T>()))>> result;
+  mvector<std::remove_reference_t<decltype(eval(std::declval<T>()))>> result(input.commk());
   for (auto& elem : input) {
     auto key = elem.first;
     result[key] = eval(elem.second);
-- 
2.43.0


From 0ce5ca4ac32572124545b8bb2380833c9e3be1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:00 +0000
Subject: [PATCH 22/24] fix: make_mmvector() honours the stride of host vectors

---
 src/la/mvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index 696d3f8..e649a8c 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -399,8 +399,8 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       throw std::runtime_error("recompile nlcglib with CUDA support");
 #endif
     } else if (buffer.memtype == memory_type::host) {
-      Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(buffer.data,
-                                                                            buffer.size[0]);
+      Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(
+          buffer.data, Kokkos::LayoutStride(buffer.size[0], buffer.stride[0]));
       vector_t dst("vector", buffer.size[0]);
       Kokkos::deep_copy(dst, src);
       auto kindex = vector_base->kpoint_index(i);
-- 
2.43.0


From e94487b573fdceeddbc93a470174fe79c8a0a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:00 +0000
Subject: [PATCH 23/24] fix: attaching a log file corrupted it if it replaced a
 file of the same name

The new file was opened (truncated) before the old stream was closed; what the
old stream still buffered ended up at its old offset in the new log. The number
format of the previous log leaked into the new one, too.
---
 src/utils/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 9adabb9..7514b9d 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -28,6 +28,8 @@ public:
   {
     std::lock_guard<std::mutex> lock(mutex_);
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
+    stream_ptr_.reset();  // close the old file first, it might be the same
+    sbuf_ = std::stringstream();  // forget the number format of the previous log
     stream_ptr_ = std::make_shared<std::ofstream>(prefix + std::to_string(pid_) + suffix);
   }
 
@@ -36,8 +38,11 @@ public:
   {
     std::lock_guard<std::mutex> lock(mutex_);
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
-    if (pid_ == 0)
+    if (pid_ == 0) {
+      stream_ptr_.reset();  // close the old file first, it might be the same
+      sbuf_ = std::stringstream();  // forget the number format of the previous log
       stream_ptr_ = std::make_shared<std::ofstream>(fname);
+    }
   }
 
   template <typename T>
-- 
2.43.0


From 23670f721140c978eb3f0c63d94120fc3b0446a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:00 +0000
Subject: [PATCH 24/24] fix: flush the log on every way out of the minimiser

---
 src/nlcglib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 79cdab0..64b5249 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -442,12 +442,15 @@ nlcg_us(EnergyBase& energy_base,
     } catch (DescentError&) {
       // CG failed abort
       logger << "[NLCG] Error: No descent direction found, nlcg didn't reach final tolerance\n";
+      logger.flush();
       return info;
     } catch (SlopeError&) {
       logger << "[NLCG] Error: slope > 0 after CG-restart. Abort.\n";
+      logger.flush();
       return info;
     }
   }
+  logger.flush();
   return info;
 }
 
-- 
2.43.0

