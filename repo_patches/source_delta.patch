From df03b2dae1761d5f01f2064442294b8dd606e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 01/23] fix: area of the phi faces of a 3D spherical mesh

---
 src/mesh/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..59e2bd0 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -62,7 +62,7 @@ void Spherical::execute(
         KV_cdouble_1d const& x0,
         KV_cdouble_1d const& x1,
         KV_cdouble_1d const& /*x2*/,
-        KV_cdouble_1d const& dx0,
+        KV_cdouble_1d const& /*dx0*/,
         KV_cdouble_1d const& dx1,
         KV_cdouble_1d const& dx2,
         KV_double_4d const& ds,
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * dx1(j); //phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From 607dd6c36d09de5760e1eecb957d02d81dfebc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 02/23] fix: the divergence of the pressure fix only involves
 normal velocities

---
 src/hydro/pressure_fix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..55c4ff8 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -82,7 +82,8 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
+                        {
+                            int const ipos = idim; // only the normal velocity contributes to the divergence
                             EulerCons var_L; // Left, front, down (i,j,k)
                             EulerCons var_R; // Right, back, top (i,j,k)
 
-- 
2.43.0


From 3f914514a81ffba9d313f5afbb45f019ce87be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 03/23] fix: the total energy of the pressure fix includes the
 new kinetic energy

---
 src/hydro/pressure_fix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index 55c4ff8..a3dd414 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -160,7 +160,7 @@ void pressure_fix(
 
                             double sum = 0;
                             for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
+                                sum += cons_new.rhou[idr] * cons_new.rhou[idr] / cons_new.rho;
                             }
 
                             double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
-- 
2.43.0


From b8f2fff2597c385c1815b6472ad82eb8645df28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 04/23] fix: an invalid (NaN) cell is not hidden by the minimum
 internal energy

---
 src/analysis/internal_energy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis/internal_energy.cpp b/src/analysis/internal_energy.cpp
index b6eec69..299d966 100644
--- a/src/analysis/internal_energy.cpp
+++ b/src/analysis/internal_energy.cpp
@@ -35,7 +35,8 @@ auto minimum_internal_energy(Range const& range, Grid const& grid, KV_cdouble_3d
 
                 double const cell_evol = compute_evol(cons);
 
-                local_evol = Kokkos::min(local_evol, cell_evol);
+                // the minimum drops NaN, do not let it hide an invalid cell
+                local_evol = Kokkos::min(local_evol, Kokkos::isnan(cell_evol) ? -Kokkos::Experimental::infinity_v<double> : cell_evol);
             },
             Kokkos::Min<double>(evol));
 
-- 
2.43.0


From 283783f4f7243a6297e9840e0aca963d9dee8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 05/23] fix: boundary conditions are applied by increasing
 priority

---
 src/boundary_distribute.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..b4acbb9 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -34,6 +34,7 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
 {
     if (bc_priority.empty()) {
         std::iota(bc_order.begin(), bc_order.end(), 0); // bc_order = {0,1,2,3,4,5};
+        std::ranges::reverse(bc_order); // the last applied condition has the highest priority
         return;
     }
     std::array<std::string, nfaces> tmp_arr;
@@ -45,22 +46,22 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
         if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
+            bc_order[i] = 0;
             ++counter;
         } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
+            bc_order[i] = 1;
             ++counter;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
+            bc_order[i] = 2;
             ++counter;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
+            bc_order[i] = 3;
             ++counter;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
+            bc_order[i] = 4;
             ++counter;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
+            bc_order[i] = 5;
             ++counter;
         }
     }
-- 
2.43.0


From 2b15d3b2c19806ef10877ccb7d358ebedac7f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 06/23] fix: a boundary priority list with a repeated face is
 refused

---
 src/boundary_distribute.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index b4acbb9..789d7f0 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cstddef>
 #include <numeric>
+#include <set>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -66,7 +67,7 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
         }
     }
     std::ranges::reverse(bc_order);
-    if (counter != nfaces) {
+    if (counter != nfaces || std::set<std::string>(tmp_arr.begin(), tmp_arr.end()).size() != nfaces) {
         throw std::runtime_error("boundary priority not fully defined !");
     }
 }
-- 
2.43.0


From 68c03d8790c9f34855e01d965c42f20edf1c1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 07/23] fix: centrifugal force along theta in 3D spherical
 geometry

The difference of the areas of the theta faces over the volume is already
cot(theta)/r; the source term multiplied it once more by cot(theta)/2, a
force that is wrong everywhere and does not change sign across the equator.
---
 src/hydro/extrapolation_reconstruction.hpp | 4 ----
 src/hydro/godunov_scheme.hpp               | 2 --
 src/hydro/source_terms.hpp                 | 6 +++---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/hydro/extrapolation_reconstruction.hpp b/src/hydro/extrapolation_reconstruction.hpp
index 5de8662..665e8ac 100644
--- a/src/hydro/extrapolation_reconstruction.hpp
+++ b/src/hydro/extrapolation_reconstruction.hpp
@@ -253,8 +253,6 @@ public:
                                         // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                         rhou_rec(i, j, k, 0, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
@@ -263,8 +261,6 @@ public:
                                                 ds(i_p, j_p, k_p, idim));
                                         rhou_rec(i, j, k, 1, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
diff --git a/src/hydro/godunov_scheme.hpp b/src/hydro/godunov_scheme.hpp
index 881ba76..f3986e2 100644
--- a/src/hydro/godunov_scheme.hpp
+++ b/src/hydro/godunov_scheme.hpp
@@ -229,8 +229,6 @@ public:
                                     // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                     rhou_new(i, j, k, idim) += source_grad_u_th(
                                             dtodv,
-                                            x1(j),
-                                            x1(j + 1),
                                             primL.rho,
                                             primR.rho,
                                             primL.u[2],
diff --git a/src/hydro/source_terms.hpp b/src/hydro/source_terms.hpp
index 1f90d87..cfcfeab 100644
--- a/src/hydro/source_terms.hpp
+++ b/src/hydro/source_terms.hpp
@@ -50,10 +50,10 @@ auto source_grad_u_idir_r(
 
 // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
 KOKKOS_FORCEINLINE_FUNCTION
-auto source_grad_u_th(double dtodv, double x1, double x1_p, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
+auto source_grad_u_th(double dtodv, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
 {
-    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (Kokkos::cos((x1 + x1_p) / 2) / Kokkos::sin((x1 + x1_p) / 2))
-           * (dS_p - dS) / 2;
+    // the difference of the areas over the volume is already cot(th) / r
+    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (dS_p - dS);
 }
 
 // Velocity term (e_{phi}): cot(th) * rho * u_{phi} * u_{th} / r
-- 
2.43.0


From 6a407569954f25034af3f9a948d417fc01fdbaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 08/23] fix: hexadecimal integers of an input file are read as
 documented

---
 vendor/inih/src/INIReader.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index a6d51c6..57c19cf 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>  // for transform
 #include <cctype>     // for tolower
+#include <cstddef>    // for size_t
 #include <stdexcept>
 #include <limits>
 #include <string>
@@ -14,6 +15,17 @@
 #include <inih/ini.h>      // for ini_parse
 #include <inih/INIReader.hpp>
 
+namespace {
+
+// Base of an integer literal: hexadecimal ("0x4D2") or decimal ("1234", also with leading zeros)
+int IntegerBase(const std::string& str)
+{
+    const std::size_t pos = str.find_first_not_of("+-");
+    return pos != std::string::npos && str[pos] == '0' && pos + 1 < str.size() && (str[pos + 1] == 'x' || str[pos + 1] == 'X') ? 16 : 10;
+}
+
+} // namespace
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -39,7 +51,7 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr);
+    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -51,35 +63,35 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr);
+    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr);
+    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoi(valstr);
+    return valstr.empty() ? default_value : std::stoi(valstr, nullptr, IntegerBase(valstr));
 }
 
 long INIReader::GetInteger(const std::string& section, const std::string& name, long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stol(valstr);
+    return valstr.empty() ? default_value : std::stol(valstr, nullptr, IntegerBase(valstr));
 }
 
 long long INIReader::GetInteger(const std::string& section, const std::string& name, long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoll(valstr);
+    return valstr.empty() ? default_value : std::stoll(valstr, nullptr, IntegerBase(valstr));
 }
 
 float INIReader::GetReal(const std::string& section, const std::string& name, float default_value) const
-- 
2.43.0


From 34510f05f83a10481003e6369b28c1eca55d16a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 09/23] fix: an output time after the final time is not counted
 as written

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index b20af58..fc5cb79 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -364,7 +364,7 @@ void main(int argc, char** argv)
         }
         if (param.time_output_frequency > 0) {
             double const next_output = param.time_first_output + ((time_output_id + 1) * param.time_output_frequency);
-            if ((t + dt) >= next_output) {
+            if ((t + dt) >= next_output && next_output <= param.t_end) {
                 dt = next_output - t;
                 if (dt <= 0) {
                     throw std::runtime_error("Error: the time step is negative");
-- 
2.43.0


From f1dfc1876a62cf2496cd8b249ce7bd8683527820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 10/23] fix: a time step that is not positive stops the run

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index fc5cb79..f9d9486 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -424,6 +424,10 @@ void main(int argc, char** argv)
             throw std::runtime_error(ss.str());
         }
 
+        if (dt < 0 || (dt == 0 && t < param.t_end)) {
+            throw std::runtime_error("Error: the time step is not positive");
+        }
+
         reconstruction->execute(
                 grid.range.with_ghosts(1),
                 grid,
-- 
2.43.0


From ae165f49dfcb59aef5122a83ef032389273cf91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 11/23] fix: the final state is checked like the ones before

---
 src/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index f9d9486..86027b7 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -569,6 +569,16 @@ void main(int argc, char** argv)
     Kokkos::Profiling::popRegion();
     std::chrono::steady_clock::time_point const end = std::chrono::steady_clock::now();
 
+    // the main time loop only checks the states it starts from
+    double const final_min_internal_energy
+            = minimum_internal_energy(grid.range.no_ghosts(), grid, rho(device, read_only), rhou(device, read_only), E(device, read_only));
+    if (Kokkos::isnan(final_min_internal_energy) || final_min_internal_energy < 0) {
+        std::stringstream ss;
+        ss << "Time = " << t << ", iteration = " << iter;
+        ss << ": detected invalid volumic internal energy";
+        throw std::runtime_error(ss.str());
+    }
+
     double const final_mass = integrate(grid.range.no_ghosts(), grid, rho(device, read_only));
 
     if (grid.mpi_rank == 0) {
-- 
2.43.0


From 67bb223b1e1cc5099a2260789e270115e02577db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 12/23] fix: the index of the outputs holds their exact times

---
 src/io/io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index 44272f1..c380a66 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <ostream>
 #include <sstream>
 #include <stdexcept>
@@ -459,6 +460,7 @@ void XmlWriter::operator()(
     IndentFn indent;
 
     std::ofstream xdmfFile(m_directory + '/' + m_prefix + ".xmf", std::ofstream::trunc);
+    xdmfFile << std::setprecision(std::numeric_limits<double>::max_digits10);
 
     xdmfFile << indent << "<?xml version=\"1.0\"?>\n";
     xdmfFile << indent << "<!DOCTYPE Xdmf SYSTEM \"Xdmf.dtd\" []>\n";
-- 
2.43.0


From 2bb85907458369a1d21644b399f92ff0080f8101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 13/23] fix: a restart file whose fields do not match the run
 is refused

---
 src/io/io.cpp      | 29 ++++++++++++++---------------
 src/io/io.hpp      |  1 +
 src/io/io_hdf5.hpp |  2 +-
 src/main.cpp       |  1 +
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index c380a66..f01bdb1 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -326,6 +326,7 @@ void write_pdi(
 
 void read_pdi(
         std::string const& restart_file,
+        Grid const& grid,
         int& output_id,
         int& iter_output_id,
         int& time_output_id,
@@ -342,21 +343,19 @@ void read_pdi(
     assert(span_is_contiguous(rho, u, P, fx));
 
     RaiiH5Hid const file_id(::H5Fopen(restart_file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), ::H5Fclose);
-    // check_extent_dset(file_id, "/rho", std::array {rho.extent(2), rho.extent(1), rho.extent(0)});
-    // check_extent_dset(file_id, "/u_x0", std::array {u.extent(2), u.extent(1), u.extent(0)});
-    // if (ndim > 1)
-    // {
-    //     check_extent_dset(file_id, "/u_x1", std::array {u.extent(2), u.extent(1), u.extent(0)});
-    // }
-    // if (ndim > 2)
-    // {
-    //     check_extent_dset(file_id, "/u_x2", std::array {u.extent(2), u.extent(1), u.extent(0)});
-    // }
-    // check_extent_dset(file_id, "/P", std::array {P.extent(2), P.extent(1), P.extent(0)});
-    // if (fx.extent(3) > 0)
-    // {
-    //     check_extent_dset(file_id, "/fx", std::array {fx.extent(3), fx.extent(2), fx.extent(1), fx.extent(0)});
-    // }
+    // all processes check the extents of the global fields, a mismatch would otherwise read a part of the file
+    std::array<std::size_t, 3> const field_extents {
+            int_cast<std::size_t>(grid.Nx_glob_ng[2]),
+            int_cast<std::size_t>(grid.Nx_glob_ng[1]),
+            int_cast<std::size_t>(grid.Nx_glob_ng[0])};
+    check_extent_dset(file_id, "/rho", field_extents);
+    for (int idim = 0; idim < ndim; ++idim) {
+        check_extent_dset(file_id, ("/ux" + std::to_string(idim)).c_str(), field_extents);
+    }
+    check_extent_dset(file_id, "/P", field_extents);
+    for (int ifx = 0; ifx < fx.extent_int(3); ++ifx) {
+        check_extent_dset(file_id, ("/fx" + std::to_string(ifx)).c_str(), field_extents);
+    }
     check_extent_dset(file_id, "/x0", std::array {x0_glob.extent(0)});
     check_extent_dset(file_id, "/x1", std::array {x1_glob.extent(0)});
     check_extent_dset(file_id, "/x2", std::array {x2_glob.extent(0)});
diff --git a/src/io/io.hpp b/src/io/io.hpp
index 93e2161..9e992af 100644
--- a/src/io/io.hpp
+++ b/src/io/io.hpp
@@ -47,6 +47,7 @@ void write_pdi(
 
 void read_pdi(
         std::string const& restart_file,
+        Grid const& grid,
         int& output_id,
         int& iter_output_id,
         int& time_output_id,
diff --git a/src/io/io_hdf5.hpp b/src/io/io_hdf5.hpp
index 77f7921..b301e92 100644
--- a/src/io/io_hdf5.hpp
+++ b/src/io/io_hdf5.hpp
@@ -60,7 +60,7 @@ void check_extent_dset(RaiiH5Hid const& file_id, char const* const dset_path, st
     RaiiH5Hid const dspace(::H5Dget_space(*dset_id), ::H5Sclose);
     int const ndims = ::H5Sget_simple_extent_ndims(*dspace);
     if (ndims != N) {
-        throw std::runtime_error("HERACLES++ error: Expecting a 1d dataset");
+        throw std::runtime_error("HERACLES++ error: Rank of the dataset does not match");
     }
     std::array<hsize_t, N> dset_extent {};
     ::H5Sget_simple_extent_dims(*dspace, dset_extent.data(), nullptr);
diff --git a/src/main.cpp b/src/main.cpp
index 86027b7..f445765 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -224,6 +224,7 @@ void main(int argc, char** argv)
     {
         read_pdi(
                 param.restart_file,
+                grid,
                 output_id,
                 iter_output_id,
                 time_output_id,
-- 
2.43.0


From 61ead24f7055525b50122728c9bd8479e4d87375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 14/23] fix: the Sedov 1D explosion is in the first cell of the
 global mesh

It was in the local cell 2 of rank 0, a ghost cell or another cell if Nghost
is not 2, and processes used the volume of their own cell 2.
---
 src/setups/sedov1d/setup.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..dc136e7 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -4,11 +4,14 @@
 
 #pragma once
 
+#include <array>
 #include <cassert>
 #include <string>
 
 #include <inih/INIReader.hpp>
 
+#include <mpi.h>
+
 #include <Kokkos_Core.hpp>
 #include <eos.hpp>
 #include <geom.hpp>
@@ -64,7 +67,16 @@ public:
         assert(u.extent_int(3) == ndim);
         assert(fx.extent_int(3) == 0);
 
-        int const mpi_rank = grid.mpi_rank;
+        // the perturbation is put in the first cells of the global mesh
+        bool const has_first_cells = grid.mpi_rank_cart[0] == 0;
+        int const i_first = grid.Nghost[0];
+
+        double dv_beg = 0;
+        Kokkos::deep_copy(dv_beg, Kokkos::subview(grid.dv, grid.Nghost[0], grid.Nghost[1], grid.Nghost[2]));
+        std::array const root_coords {0, 0, 0};
+        int root = -1;
+        MPI_Cart_rank(grid.comm_cart, root_coords.data(), &root);
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, root, grid.comm_cart);
 
         double alpha = -1;
 
@@ -78,13 +90,11 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +104,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (has_first_cells && i == i_first) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0


From 1ffc208015f92a4a9a1b91f4e5f1b703f3ed06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 15/23] fix: the Sedov 3D explosion is in one cell of the
 global mesh

Local indices were compared with the global middle: a decomposed run had
several explosions, or none, and r = 1 had to be exactly a face.
---
 src/setups/sedov3d/setup.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..6604e71 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // local indices of the middle of the global mesh
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) - range.Corner_min[1] + grid.Nghost[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) - range.Corner_min[2] + grid.Nghost[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
@@ -83,7 +84,7 @@ public:
                         u(i, j, k, idim) = 0;
                     }
 
-                    if (r(i) == 1 && j == ny_2 && k == nz_2) {
+                    if (r(i) <= 1 && 1 < r(i + 1) && j == ny_2 && k == nz_2) {
                         double const evol = param_setup.E1 / dv(i, j, k);
                         P(i, j, k) = eos.compute_pres_from_evol(rho(i, j, k), evol);
                     } else {
-- 
2.43.0


From 985d717e8889c7b90c78cee777ce4510d0ea8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 16/23] fix: the passive scalar of the Rayleigh-Taylor setup
 goes from fx1 to fx0

---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From cd796383d34ff7c9258e475e7d5007c1796755dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 17/23] fix: user boundaries of eq_hydro_sphe and
 stratified_atm hold the state of the setup

Their momentum was rho0 u0 whatever the density, and their energy had no
kinetic part.
---
 src/setups/eq_hydro_sphe/setup.hpp  | 6 ++++--
 src/setups/stratified_atm/setup.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/setups/eq_hydro_sphe/setup.hpp b/src/setups/eq_hydro_sphe/setup.hpp
index 324dc14..d7c75f0 100644
--- a/src/setups/eq_hydro_sphe/setup.hpp
+++ b/src/setups/eq_hydro_sphe/setup.hpp
@@ -142,11 +142,13 @@ public:
 
                     rho(i, j, k) = param_setup.rho0 * Kokkos::exp(1. / (xc(i) * x0));
 
+                    double ekin = 0;
                     for (int n = 0; n < rhou.extent_int(3); ++n) {
-                        rhou(i, j, k, n) = param_setup.rho0 * param_setup.u0;
+                        rhou(i, j, k, n) = rho(i, j, k) * param_setup.u0;
+                        ekin += 0.5 * rhou(i, j, k, n) * param_setup.u0;
                     }
 
-                    E(i, j, k) = eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0);
+                    E(i, j, k) = eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0) + ekin;
                 });
     }
 };
diff --git a/src/setups/stratified_atm/setup.hpp b/src/setups/stratified_atm/setup.hpp
index 17e52c6..c8d08c0 100644
--- a/src/setups/stratified_atm/setup.hpp
+++ b/src/setups/stratified_atm/setup.hpp
@@ -151,11 +151,13 @@ public:
 
                     rho(i, j, k) = param_setup.rho0 * Kokkos::exp(-xc(i) / x0);
 
+                    double ekin = 0;
                     for (int n = 0; n < rhou.extent_int(3); ++n) {
-                        rhou(i, j, k, n) = param_setup.rho0 * param_setup.u0;
+                        rhou(i, j, k, n) = rho(i, j, k) * param_setup.u0;
+                        ekin += 0.5 * rhou(i, j, k, n) * param_setup.u0;
                     }
 
-                    E(i, j, k) = eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0);
+                    E(i, j, k) = eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0) + ekin;
                 });
     }
 };
-- 
2.43.0


From b994767bda16dcc4ac37c93e88de66fee1df1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 18/23] fix: boundary priorities of the Gresho and
 Kelvin-Helmholtz inputs

The program refuses the former names of the faces.
---
 inputs/gresho_vortex.ini    | 2 +-
 inputs/kelvin_helmholtz.ini | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs/gresho_vortex.ini b/inputs/gresho_vortex.ini
index 8a4c486..c86621c 100644
--- a/inputs/gresho_vortex.ini
+++ b/inputs/gresho_vortex.ini
@@ -26,7 +26,7 @@ riemann_solver = Low Mach
 
 [Boundary Condition]
 BC = NullGradient
-Priority = X0_right X0_left X1_left X1_right
+Priority = X_right X_left Y_left Y_right
 
 [Perfect Gas]
 gamma = 1.4
diff --git a/inputs/kelvin_helmholtz.ini b/inputs/kelvin_helmholtz.ini
index 8088f6d..352627c 100644
--- a/inputs/kelvin_helmholtz.ini
+++ b/inputs/kelvin_helmholtz.ini
@@ -27,7 +27,7 @@ riemann_solver = HLLC
 
 [Boundary Condition]
 BC = Periodic
-Priority = X0_right X0_left X1_left X1_right
+Priority = X_right X_left Y_left Y_right
 
 [Perfect Gas]
 gamma = 1.4
-- 
2.43.0


From 2cb570b4a77f2d9c083d1a3b498e6d9b3b80b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 19/23] fix: the shock tube setup has no passive scalar

A build with assertions stopped on its spherical input, which also named the
final time timeout.
---
 inputs/shock_tube1d_sph.ini | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/inputs/shock_tube1d_sph.ini b/inputs/shock_tube1d_sph.ini
index 92643b5..ae0d26a 100644
--- a/inputs/shock_tube1d_sph.ini
+++ b/inputs/shock_tube1d_sph.ini
@@ -14,11 +14,8 @@ x0max = 2
 [Perfect Gas]
 gamma = 1.4
 
-[Passive Scalar]
-nfx = 1
-
 [Run]
-timeout = 0.2
+t_end = 0.2
 cfl = 0.4
 
 [Output]
-- 
2.43.0


From fdeeae4291f3de8c89c6e41eee932b408f814f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 20/23] fix: the shipped profile of v1d has the mesh under the
 name the program reads

The program (and the v1d tests of restart files) read the faces from /x0; the file still had
them under the former name /x, so that the v1d setups stopped with an error at once.
---
 src/setups/v1d/v1d_1d_start.h5 | Bin 78160 -> 78160 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/src/setups/v1d/v1d_1d_start.h5 b/src/setups/v1d/v1d_1d_start.h5
index 54d7e592c1b13dab7bd100fd6edc9c9e6f07fe03..4b262f8cc2c26e017c5fb93cf3de115f60cf7a7f 100644
GIT binary patch
delta 46
ucmccch~>f~mJK_Y7!x+{WSX8KSYf~b28<AjAz*W2HoFpI#OBQ2=ZgVjMh)Wt

delta 42
ucmccch~>f~mJK_Y7$Y|CWSXAA$;bc!5tA=6C2ro8y-tzQVsmEi^ThyE^bgqp

-- 
2.43.0


From 0dd57762374f74b19680c1ab2baf8aaeaa524fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 21/23] fix: RadGas: start the search of the temperature from
 the smaller of the two upper bounds

Starting from the larger one, Newton's method runs out of iterations where radiation dominates by more than about 1e11
and silently returns a temperature that is too high.
---
 src/thermodynamics/rad_gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermodynamics/rad_gas.hpp b/src/thermodynamics/rad_gas.hpp
index 3e27619..8e1bdef 100644
--- a/src/thermodynamics/rad_gas.hpp
+++ b/src/thermodynamics/rad_gas.hpp
@@ -77,7 +77,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp);
         double const Tg = P / C1;
         double const Tr = Kokkos::pow(3 * P / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // each one is an upper bound of the solution
         double T = T0;
         int itr = 0;
         double delta_T = 0;
@@ -107,7 +107,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp * m_gamma_m1);
         double const Tg = evol / C1;
         double const Tr = Kokkos::pow(evol / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // each one is an upper bound of the solution
         double T = T0;
         int itr = 0;
         double delta_T = 0;
-- 
2.43.0


From e0d8ab239d0a6c6cc47c987f9afec9db0f9cf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 22/23] fix: the boundaries of a grid that has just shifted use
 the gravity of the new grid

The boundary conditions applied after shift_grid were given the gravity of
the mesh before the shift, so a user-defined boundary that depends on the
gravity of a point mass put another state in the ghost cells than after a
restart from the same output.
---
 src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.cpp b/src/main.cpp
index f445765..c48f204 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -516,6 +516,7 @@ void main(int argc, char** argv)
                         x1_glob,
                         x2_glob,
                         grid);
+                g = std::make_unique<Gravity>(make_gravity(param, grid, rho_new));
                 bcs(bcs_array, grid, *g, rho_new, rhou_new, E_new, fx_new);
             }
             // useful only for the process near the outer boundary (no MPI is needed indeed !!)
-- 
2.43.0


From 0d1328013763b036674cbc63110124238b336d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 23/23] fix: Grid frees the communicator of the horizontal
 processes

MPI_Cart_sub creates a communicator that was never freed.
---
 src/mesh/grid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/grid.cpp b/src/mesh/grid.cpp
index d98fad8..aabe259 100644
--- a/src/mesh/grid.cpp
+++ b/src/mesh/grid.cpp
@@ -77,6 +77,9 @@ Grid::Grid(std::array<int, 3> const& nx_glob_ng, std::array<int, 3> const& mpi_d
 
 Grid::~Grid() noexcept
 {
+    if (comm_cart_horizontal != MPI_COMM_NULL) {
+        MPI_Comm_free(&comm_cart_horizontal);
+    }
     if (comm_cart != MPI_COMM_NULL) {
         MPI_Comm_free(&comm_cart);
     }
-- 
2.43.0

