From b485240f75ed26024735dcf9da320c3dabdee8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 01/22] fix: apply the boundary faces in the order listed by
 the priority key

---
 src/boundary_distribute.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..65f3d04 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -45,27 +45,29 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
         if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
+            bc_order[i] = 0;
             ++counter;
         } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
+            bc_order[i] = 1;
             ++counter;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
+            bc_order[i] = 2;
             ++counter;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
+            bc_order[i] = 3;
             ++counter;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
+            bc_order[i] = 4;
             ++counter;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
+            bc_order[i] = 5;
             ++counter;
         }
     }
     std::ranges::reverse(bc_order);
-    if (counter != nfaces) {
+    std::array<int, nfaces> sorted_faces = bc_order;
+    std::ranges::sort(sorted_faces);
+    if (counter != nfaces || std::ranges::adjacent_find(sorted_faces) != sorted_faces.end()) {
         throw std::runtime_error("boundary priority not fully defined !");
     }
 }
-- 
2.43.0


From 884a12dab92909d159fa05ad50633387c23185e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 02/22] fix: accept the X0_left face names of the shipped
 inputs in the boundary priority

---
 src/boundary_distribute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 65f3d04..5766aec 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -44,22 +44,22 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
 
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
-        if (tmp_arr[i] == "X_left") {
+        if (tmp_arr[i] == "X_left" || tmp_arr[i] == "X0_left") {
             bc_order[i] = 0;
             ++counter;
-        } else if (tmp_arr[i] == "X_right") {
+        } else if (tmp_arr[i] == "X_right" || tmp_arr[i] == "X0_right") {
             bc_order[i] = 1;
             ++counter;
-        } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
+        } else if ((tmp_arr[i] == "Y_left" || tmp_arr[i] == "X1_left") && ndim >= 2) {
             bc_order[i] = 2;
             ++counter;
-        } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
+        } else if ((tmp_arr[i] == "Y_right" || tmp_arr[i] == "X1_right") && ndim >= 2) {
             bc_order[i] = 3;
             ++counter;
-        } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
+        } else if ((tmp_arr[i] == "Z_left" || tmp_arr[i] == "X2_left") && ndim == 3) {
             bc_order[i] = 4;
             ++counter;
-        } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
+        } else if ((tmp_arr[i] == "Z_right" || tmp_arr[i] == "X2_right") && ndim == 3) {
             bc_order[i] = 5;
             ++counter;
         }
-- 
2.43.0


From 8aa0192b63cc49e4556b412645c7c0686a730ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 03/22] fix: count a not-a-number internal energy as invalid
 whatever the reduction order

---
 src/analysis/internal_energy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/internal_energy.cpp b/src/analysis/internal_energy.cpp
index b6eec69..682630d 100644
--- a/src/analysis/internal_energy.cpp
+++ b/src/analysis/internal_energy.cpp
@@ -33,7 +33,11 @@ auto minimum_internal_energy(Range const& range, Grid const& grid, KV_cdouble_3d
                 }
                 cons.E = E(i, j, k);
 
-                double const cell_evol = compute_evol(cons);
+                double cell_evol = compute_evol(cons);
+                if (Kokkos::isnan(cell_evol)) {
+                    // a minimum may ignore not-a-number, in the kernel or between processes
+                    cell_evol = -Kokkos::Experimental::infinity_v<double>;
+                }
 
                 local_evol = Kokkos::min(local_evol, cell_evol);
             },
-- 
2.43.0


From 77425cc03d62fffa239e8c40c0164c4f281bca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 04/22] fix: free the horizontal communicator of the grid

---
 src/mesh/grid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/grid.cpp b/src/mesh/grid.cpp
index d98fad8..aabe259 100644
--- a/src/mesh/grid.cpp
+++ b/src/mesh/grid.cpp
@@ -77,6 +77,9 @@ Grid::Grid(std::array<int, 3> const& nx_glob_ng, std::array<int, 3> const& mpi_d
 
 Grid::~Grid() noexcept
 {
+    if (comm_cart_horizontal != MPI_COMM_NULL) {
+        MPI_Comm_free(&comm_cart_horizontal);
+    }
     if (comm_cart != MPI_COMM_NULL) {
         MPI_Comm_free(&comm_cart);
     }
-- 
2.43.0


From c87dba02b993f7fe7b09fc531fc420bce63caa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 05/22] fix: end the whole job when one process fails

---
 src/main.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index b20af58..77d4e23 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -102,15 +102,9 @@ auto display_help_message(std::filesystem::path const& executable) -> std::strin
     return ss.str();
 }
 
-void main(int argc, char** argv)
+void run(int argc, char** argv)
 {
     // NOLINTBEGIN(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-    if (argc < 2) {
-        throw std::runtime_error(display_help_message(argv[0]));
-    }
-
-    MpiScopeGuard const mpi_guard(argc, argv);
-
     Kokkos::ScopeGuard const kokkos_guard(argc, argv);
 
     INIReader const reader(argv[1]);
@@ -421,6 +415,7 @@ void main(int argc, char** argv)
             std::stringstream ss;
             ss << "Time = " << t << ", iteration = " << iter;
             ss << ": detected invalid volumic internal energy";
+            MPI_Barrier(grid.comm_cart); // the output must be complete before any process aborts the job
             throw std::runtime_error(ss.str());
         }
 
@@ -587,6 +582,24 @@ void main(int argc, char** argv)
     PC_tree_destroy(&conf);
 }
 
+void main(int argc, char** argv)
+{
+    if (argc < 2) {
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+        throw std::runtime_error(display_help_message(argv[0]));
+    }
+
+    MpiScopeGuard const mpi_guard(argc, argv);
+
+    try {
+        run(argc, argv);
+    } catch (std::exception const& e) {
+        // The other processes may not have failed and would wait for this one forever
+        std::cerr << e.what() << '\n' << std::flush;
+        MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
+    }
+}
+
 } // namespace
 
 } // namespace hclpp
-- 
2.43.0


From 0f33f34a086a575d63eb0db1124f6f5b8ce9aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 06/22] fix: report a read error of the input file instead of
 using its first part

---
 vendor/inih/src/INIReader.cpp | 2 +-
 vendor/inih/src/ini.c         | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index a6d51c6..22d7930 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -23,7 +23,7 @@ INIReader::INIReader(const std::string& filename)
     {
         if (ec == -1)
         {
-            throw std::runtime_error("Could not open the file");
+            throw std::runtime_error("Could not open or read the file");
         }
         throw std::runtime_error(std::string("Parsing error at line ") + std::to_string(ec));
     }
diff --git a/vendor/inih/src/ini.c b/vendor/inih/src/ini.c
index 1f77879..7bad0e3 100644
--- a/vendor/inih/src/ini.c
+++ b/vendor/inih/src/ini.c
@@ -189,7 +189,12 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
 /* See documentation in header file. */
 int ini_parse_file(FILE* file, ini_handler handler, void* user)
 {
-    return ini_parse_stream((ini_reader)fgets, file, handler, user);
+    int error = ini_parse_stream((ini_reader)fgets, file, handler, user);
+
+    /* A read error also makes fgets return NULL */
+    if (error == 0 && ferror(file))
+        error = -1;
+    return error;
 }
 
 /* See documentation in header file. */
-- 
2.43.0


From 1d771394001f05e0ec488a62b2c0ee4ec46abc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 07/22] fix: read hexadecimal integers as documented

---
 vendor/inih/src/INIReader.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index 22d7930..96e015e 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -14,6 +14,17 @@
 #include <inih/ini.h>      // for ini_parse
 #include <inih/INIReader.hpp>
 
+namespace {
+
+// Base of the integer written in "str": 16 with the prefix "0x", 10 otherwise
+int IntegerBase(const std::string& str)
+{
+    const std::string::size_type pos = str.find_first_not_of("+-");
+    return pos != std::string::npos && (str.compare(pos, 2, "0x") == 0 || str.compare(pos, 2, "0X") == 0) ? 16 : 10;
+}
+
+} // namespace
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -39,7 +50,7 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr);
+    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -51,35 +62,35 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr);
+    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr);
+    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoi(valstr);
+    return valstr.empty() ? default_value : std::stoi(valstr, nullptr, IntegerBase(valstr));
 }
 
 long INIReader::GetInteger(const std::string& section, const std::string& name, long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stol(valstr);
+    return valstr.empty() ? default_value : std::stol(valstr, nullptr, IntegerBase(valstr));
 }
 
 long long INIReader::GetInteger(const std::string& section, const std::string& name, long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoll(valstr);
+    return valstr.empty() ? default_value : std::stoll(valstr, nullptr, IntegerBase(valstr));
 }
 
 float INIReader::GetReal(const std::string& section, const std::string& name, float default_value) const
-- 
2.43.0


From 3c1911df6a456f105b8fd1de064b38c2056008b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 08/22] fix: make no step when the run starts at or past its
 end

---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 77d4e23..d184609 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -344,6 +344,9 @@ void run(int argc, char** argv)
     std::chrono::steady_clock::time_point const start = std::chrono::steady_clock::now();
     Kokkos::Profiling::pushRegion("HERACLES++: main time loop");
 
+    // A restart may already be at the end of the run
+    should_exit = t >= param.t_end || iter >= param.max_iter;
+
     // Main timestep loop
     while (!should_exit) {
         double dt = param.cfl * time_step(grid.range.all_ghosts(), eos, grid, rho(device, read_only), u(device, read_only), P(device, read_only));
-- 
2.43.0


From f662cf5385592de96dd7497c46fbdaa7303e7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 09/22] fix: do not count a time output that the end of the run
 precedes

---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d184609..9dde468 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -361,7 +361,8 @@ void run(int argc, char** argv)
         }
         if (param.time_output_frequency > 0) {
             double const next_output = param.time_first_output + ((time_output_id + 1) * param.time_output_frequency);
-            if ((t + dt) >= next_output) {
+            // An output requested after the end of the run is left to a restart
+            if ((t + dt) >= next_output && next_output <= param.t_end) {
                 dt = next_output - t;
                 if (dt <= 0) {
                     throw std::runtime_error("Error: the time step is negative");
-- 
2.43.0


From a06320dbce2cda795fa41e57c1314bfeb2d69ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 10/22] fix: report a failure to write the attributes of an
 output to the disk

---
 src/io/io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index 44272f1..6f606e7 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -320,6 +320,9 @@ void write_pdi(
         write_string_attribute(file_id, "git_branch", git_branch);
         write_string_attribute(file_id, "compile_date", compile_date);
         write_string_attribute(file_id, "compile_time", compile_time);
+        if (::H5Fflush(*file_id, H5F_SCOPE_GLOBAL) < 0) { // an error when closing the file would go unnoticed
+            throw std::runtime_error("HERACLES++ error: writing file " + output_filename + " failed");
+        }
     }
 }
 
-- 
2.43.0


From 0575d8983d1eeed253de2a5d86dc4bce537f6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 11/22] fix: report a failure to write the index of the outputs

---
 src/io/io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/io.cpp b/src/io/io.cpp
index 6f606e7..4ca804a 100644
--- a/src/io/io.cpp
+++ b/src/io/io.cpp
@@ -566,6 +566,11 @@ void XmlWriter::operator()(
     xdmfFile << indent << "</Domain>\n";
     indent.pop();
     xdmfFile << indent << "</Xdmf>\n";
+
+    xdmfFile.close();
+    if (!xdmfFile) {
+        throw std::runtime_error("HERACLES++ error: writing file " + m_prefix + ".xmf failed");
+    }
 }
 
 } // namespace hclpp
-- 
2.43.0


From 027140304e609ce8fb5f51edf5e38f8d304f2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 12/22] fix: let the temperature of a radiation dominated gas
 converge

The solver started from the larger of the two limits. Where the radiation dominates by ten orders of magnitude this is so far from the root that the iteration ends before it gets there.
---
 src/thermodynamics/rad_gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermodynamics/rad_gas.hpp b/src/thermodynamics/rad_gas.hpp
index 3e27619..9a6f6cd 100644
--- a/src/thermodynamics/rad_gas.hpp
+++ b/src/thermodynamics/rad_gas.hpp
@@ -77,7 +77,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp);
         double const Tg = P / C1;
         double const Tr = Kokkos::pow(3 * P / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // within a factor two of the root, whichever pressure dominates
         double T = T0;
         int itr = 0;
         double delta_T = 0;
@@ -107,7 +107,7 @@ public:
         double const C1 = rho * units::kb / (m_mmw * units::mp * m_gamma_m1);
         double const Tg = evol / C1;
         double const Tr = Kokkos::pow(evol / units::ar, 1. / 4);
-        double const T0 = Tr > Tg ? Tr : Tg;
+        double const T0 = Tr < Tg ? Tr : Tg; // within a factor two of the root, whichever pressure dominates
         double T = T0;
         int itr = 0;
         double delta_T = 0;
-- 
2.43.0


From 2afd850469de30ca10d8bd1443731df813a6e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 13/22] fix: place the 3D Sedov explosion by the position in
 the global domain

The indices of the central cell were compared with process-local indices, so
every process whose sub-domain is large enough added an explosion of its own.
---
 src/setups/sedov3d/setup.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..2b6f464 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // Local indices of the cell at the center of the global domain
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) - grid.range.Corner_min[1] + grid.Nghost[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) - grid.range.Corner_min[2] + grid.Nghost[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
-- 
2.43.0


From 7a2278c6c39e58015c14d0c282f8b13a147689d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 14/22] fix: same ambient energy on all processes in the 1D
 Sedov setup

The energy of the explosion and of the gas around it was divided by the volume
of a cell of each process, so with cells of different volumes (spherical
geometry) the pressure depended on the decomposition; with another number of
ghost cells than two the explosion was put in a ghost cell.
---
 src/setups/sedov1d/setup.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..1bdd716 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <mpi.h>
+
 #include <cassert>
 #include <string>
 
@@ -78,13 +80,19 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
+
+        // All processes use the volume of the first cell of the global domain
+        int const ibeg = grid.Nghost[0];
+        double dv_beg = 0;
+        if (mpi_rank == 0) {
+            Kokkos::deep_copy(dv_beg, Kokkos::subview(grid.dv, ibeg, grid.Nghost[1], grid.Nghost[2]));
+        }
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, 0, grid.comm_cart);
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +102,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (mpi_rank == 0 && i == ibeg) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0


From e0478b4aa82abdea8f62269bda5fd16b58812e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 15/22] fix: no passive scalar in the 1D spherical shock tube
 input

The shock_tube setup fills no passive scalar and asserts that there is none: a
debug build aborts on this input and a release build outputs an unset field.
---
 inputs/shock_tube1d_sph.ini | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/inputs/shock_tube1d_sph.ini b/inputs/shock_tube1d_sph.ini
index 92643b5..5f93917 100644
--- a/inputs/shock_tube1d_sph.ini
+++ b/inputs/shock_tube1d_sph.ini
@@ -14,9 +14,6 @@ x0max = 2
 [Perfect Gas]
 gamma = 1.4
 
-[Passive Scalar]
-nfx = 1
-
 [Run]
 timeout = 0.2
 cfl = 0.4
-- 
2.43.0


From 3c2d4621d333f1bdc8e35bfbe9170be8d18146a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 16/22] fix: passive scalar of the lower fluid in the
 Rayleigh-Taylor setup

The profile of the passive scalar omitted the value fx1 of the lower fluid, which
the profile of the density includes: it ran from 0 to fx0 - fx1.
---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From 89d6b46f82f1c17940c75f79e3e52278754befe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 17/22] fix: use the amplitude A of the perturbation in the
 Rayleigh-Taylor setup

The parameter was read but the amplitude stayed at 0.01 whatever its value.
---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index dc1b03b..a0a80e2 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -81,7 +81,7 @@ public:
                 KOKKOS_LAMBDA(int i, int j, int k) {
                     double const x = xc(i);
                     double const y = yc(j);
-                    double const h = 0.01 * Kokkos::cos(4 * Kokkos::numbers::pi * x);
+                    double const h = param_setup.A * Kokkos::cos(4 * Kokkos::numbers::pi * x);
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-- 
2.43.0


From 878519bdbc2a1615797e8da873eb41f36150359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 18/22] fix: no transverse velocities in the divergence of the
 pressure fix

The loop over ipos added, for the faces of the direction idim, the difference of
every component of the velocity, weighted by the area of a face of another
direction: the divergence contained the cross derivatives.
---
 src/hydro/pressure_fix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..e4bb184 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -82,7 +82,9 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
+                        {
+                            int const ipos = idim; // only the velocity normal to the faces contributes to the divergence
+
                             EulerCons var_L; // Left, front, down (i,j,k)
                             EulerCons var_R; // Right, back, top (i,j,k)
 
-- 
2.43.0


From fb6ac5c33217ded4c1a06c46e557ffc44f8e315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 19/22] fix: kinetic energy of the end of the step in the
 pressure fix

The total energy was the new internal energy plus the old kinetic energy: the change
of the kinetic energy over the step was taken from the internal energy.
---
 src/hydro/pressure_fix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index e4bb184..1aa17c7 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -161,7 +161,7 @@ void pressure_fix(
 
                             double sum = 0;
                             for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
+                                sum += cons_new.rhou[idr] * cons_new.rhou[idr] / cons_new.rho;
                             }
 
                             double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
-- 
2.43.0


From 34d607b4dc3bc2027d1678c97b5818338d0fcfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 20/22] fix: centrifugal source term of the polar momentum in
 spherical geometry

The difference of the areas of the faces in theta divided by the volume is already
cot(theta) / r: the term rho * u_phi^2 * cot(theta) / r was multiplied by cot(theta) / 2.
---
 src/hydro/extrapolation_reconstruction.hpp | 4 ----
 src/hydro/godunov_scheme.hpp               | 2 --
 src/hydro/source_terms.hpp                 | 5 ++---
 3 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/hydro/extrapolation_reconstruction.hpp b/src/hydro/extrapolation_reconstruction.hpp
index 5de8662..665e8ac 100644
--- a/src/hydro/extrapolation_reconstruction.hpp
+++ b/src/hydro/extrapolation_reconstruction.hpp
@@ -253,8 +253,6 @@ public:
                                         // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                         rhou_rec(i, j, k, 0, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
@@ -263,8 +261,6 @@ public:
                                                 ds(i_p, j_p, k_p, idim));
                                         rhou_rec(i, j, k, 1, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
diff --git a/src/hydro/godunov_scheme.hpp b/src/hydro/godunov_scheme.hpp
index 881ba76..f3986e2 100644
--- a/src/hydro/godunov_scheme.hpp
+++ b/src/hydro/godunov_scheme.hpp
@@ -229,8 +229,6 @@ public:
                                     // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                     rhou_new(i, j, k, idim) += source_grad_u_th(
                                             dtodv,
-                                            x1(j),
-                                            x1(j + 1),
                                             primL.rho,
                                             primR.rho,
                                             primL.u[2],
diff --git a/src/hydro/source_terms.hpp b/src/hydro/source_terms.hpp
index 1f90d87..39211af 100644
--- a/src/hydro/source_terms.hpp
+++ b/src/hydro/source_terms.hpp
@@ -50,10 +50,9 @@ auto source_grad_u_idir_r(
 
 // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
 KOKKOS_FORCEINLINE_FUNCTION
-auto source_grad_u_th(double dtodv, double x1, double x1_p, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
+auto source_grad_u_th(double dtodv, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
 {
-    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (Kokkos::cos((x1 + x1_p) / 2) / Kokkos::sin((x1 + x1_p) / 2))
-           * (dS_p - dS) / 2;
+    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (dS_p - dS);
 }
 
 // Velocity term (e_{phi}): cot(th) * rho * u_{phi} * u_{th} / r
-- 
2.43.0


From 1d85a9bdbfad8d403b6cf57c3ab31756c6c17f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 21/22] fix: area of the azimuthal faces in spherical geometry

The area of a face phi = cst is (r_{i+1}^2 - r_i^2) / 2 * dtheta, not r_i * dr * dtheta.
---
 src/mesh/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..59e2bd0 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -62,7 +62,7 @@ void Spherical::execute(
         KV_cdouble_1d const& x0,
         KV_cdouble_1d const& x1,
         KV_cdouble_1d const& /*x2*/,
-        KV_cdouble_1d const& dx0,
+        KV_cdouble_1d const& /*dx0*/,
         KV_cdouble_1d const& dx1,
         KV_cdouble_1d const& dx2,
         KV_double_4d const& ds,
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * dx1(j); //phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From 025fa3e2b5ab3d28aa8963f82ad4339bd2a4f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 22/22] fix: performance of a job that continues an earlier one

The cell updates per second counted the iterations of the previous jobs.
---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 9dde468..1c86e8d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -344,6 +344,8 @@ void run(int argc, char** argv)
     std::chrono::steady_clock::time_point const start = std::chrono::steady_clock::now();
     Kokkos::Profiling::pushRegion("HERACLES++: main time loop");
 
+    int const iter_start = iter;
+
     // A restart may already be at the end of the run
     should_exit = t >= param.t_end || iter >= param.max_iter;
 
@@ -571,7 +573,7 @@ void run(int argc, char** argv)
         double const ny_glob_ng = grid.Nx_glob_ng[1];
         double const nz_glob_ng = grid.Nx_glob_ng[2];
         double const nb_cells = nx_glob_ng * ny_glob_ng * nz_glob_ng;
-        double const nb_iter = iter;
+        double const nb_iter = iter - iter_start;
         double const duration = std::chrono::duration<double>(end - start).count();
         double const nb_cell_updates_per_sec = nb_iter * nb_cells / duration;
         double const mega = 1E-6;
-- 
2.43.0

