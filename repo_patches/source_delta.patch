From 2acf0922c6e8bb858cf150f2870fbf33afd3bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 01/20] fix: PeriodicSquareLattice: row stride is the y extent

Indices were computed with the x extent as the stride, so that every lattice
with different extents addressed sites outside of itself; a position rounding
up to the extent has to wrap around as it does for PeriodicChain.
---
 .../lattices/periodic_square_lattice.hpp      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 91bbbef..1b3d019 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -114,26 +114,26 @@ namespace ieompp
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::index(const Index& x, const Index& y) const
         {
-            return x * _size_x + y;
+            return x * _size_y + y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::x_index(const Index& i) const
         {
-            return i / _size_x;
+            return i / _size_y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::y_index(const Index& i) const
         {
-            return i % _size_x;
+            return i % _size_y;
         }
 
         template <typename Float, typename Index>
         std::array<Index, 4> PeriodicSquareLattice<Float, Index>::neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                          index(i, (j == 0) ? _size_y - 1 : j - 1),
                                          index((i == _size_x - 1) ? 0 : i + 1, j),
@@ -145,7 +145,7 @@ namespace ieompp
         PeriodicSquareLattice<Float, Index>::unique_neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 2>{{index((i == _size_x - 1) ? 0 : i + 1, j),
                                          index(i, (j == _size_y - 1) ? 0 : j + 1)}};
         }
@@ -353,8 +353,8 @@ namespace ieompp
                                 typename PeriodicSquareLattice<Float, Index>::Vector>::type
             PeriodicSquareLattice<Float, Index>::operator[](const IndexT& idx) const
         {
-            const Index i = idx / _size_x;
-            const Index j = idx % _size_x;
+            const Index i = idx / _size_y;
+            const Index j = idx % _size_y;
             return Vector{_x_min + i * _dx, _y_min + j * _dy};
         }
 
@@ -374,9 +374,9 @@ namespace ieompp
             while(v[1] > _y_max) {
                 v[1] -= _y_length;
             }
-            const auto i = Index(std::round((v[0] - _x_min) / _dx));
-            const auto j = Index(std::round((v[1] - _y_min) / _dy));
-            return i * _size_x + j;
+            const auto i = Index(std::round((v[0] - _x_min) / _dx)) % _size_x;
+            const auto j = Index(std::round((v[1] - _y_min) / _dy)) % _size_y;
+            return i * _size_y + j;
         }
     } // namespace lattices
 } // namespace ieompp
-- 
2.43.0


From 0f1e637fdc1677d00eefcfc97f6fddb027b416b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 02/20] fix: next_line: return when the stream ends or fails

At the end of the input, or after a read error, getline leaves an empty and
therefore skippable line behind and the loop never ended. The state of the
stream tells the caller what happened.
---
 include/ieompp/io/line.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 5d630a5..1115d49 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -17,12 +17,12 @@ namespace ieompp
         std::string next_line(std::istream& strm)
         {
             std::string buf;
-            do {
-                std::getline(strm, buf);
+            while(std::getline(strm, buf)) {
                 if(!is_skippable_line(buf)) {
                     return buf;
                 }
-            } while(true);
+            }
+            return std::string();
         }
     } // namespace io
 } // namespace ieompp
-- 
2.43.0


From b6cf0ae3a2c5c49bcd00dfbf6080318e27651a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 03/20] fix: read_response_file: report a file that cannot be
 read

A missing or unreadable file never reaches its end, so that the loop went on
for ever while collecting empty arguments.
---
 src/hubbard/include/cli.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 85ef551..9f0c852 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -3,6 +3,7 @@
 
 #include <fstream>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -30,14 +31,19 @@ void read_response_file(const std::string& path, VariablesMap& vm,
 {
     get_loggers().main->info("Reading response file \"{}\"", path);
     std::ifstream file(path.c_str());
+    if(!file) {
+        throw std::runtime_error("Failed to open response file \"" + path + "\"");
+    }
     std::string buf;
     std::vector<std::string> args;
-    do {
-        getline(file, buf);
+    while(getline(file, buf)) {
         args.push_back(buf);
         boost::program_options::store(
             boost::program_options::command_line_parser(args).options(description).run(), vm);
-    } while(!file.eof());
+    }
+    if(file.bad()) {
+        throw std::runtime_error("Failed to read response file \"" + path + "\"");
+    }
     file.close();
     get_loggers().main->info("Finish reading response file \"{}\"", path);
 }
-- 
2.43.0


From 5b03f1350e577d542b5c88a832d5f423e84210e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 04/20] fix: clean_output_file: keep line breaks, end with the
 input, report errors

All kept lines ended up in a single line, a file with fewer entries than asked
for was read for ever, and errors went unnoticed.
---
 src/hubbard/include/checkpoint.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index f24d4da..99db83c 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -2,6 +2,7 @@
 #define SRC_HUBBARD_CHECKOINT_HPP_
 
 #include <fstream>
+#include <stdexcept>
 #include <string>
 
 #include <boost/filesystem.hpp>
@@ -59,6 +60,9 @@ void clean_output_file(const std::string& path, uint64_t entries)
 
     get_loggers().io->info("Open old output file \"{}\"", path);
     std::ifstream in_file((path + ".bak").c_str());
+    if(!in_file) {
+        throw std::runtime_error("Failed to open output file \"" + path + ".bak\"");
+    }
 
     get_loggers().io->info("Open new output \"{}\" file for writing", path);
     std::ofstream out_file(path);
@@ -68,12 +72,17 @@ void clean_output_file(const std::string& path, uint64_t entries)
     get_loggers().io->info("Start copying \"{}\" entries", entries);
     uint64_t counter = 0;
     std::string buffer;
-    while(counter < entries) {
-        std::getline(in_file, buffer);
+    while(counter < entries && std::getline(in_file, buffer)) {
         if(!ieompp::io::is_skippable_line(buffer)) {
             ++counter;
         }
         out_file << buffer;
+        if(!in_file.eof()) {
+            out_file << '\n';
+        }
+    }
+    if(in_file.bad()) {
+        throw std::runtime_error("Failed to read output file \"" + path + ".bak\"");
     }
     out_file.flush();
     get_loggers().io->info("Finished copying entries {}", entries);
@@ -81,6 +90,9 @@ void clean_output_file(const std::string& path, uint64_t entries)
     get_loggers().io->info("Close files \"{}\" and \"{}\"", path, path + ".bak");
     out_file.close();
     in_file.close();
+    if(!out_file) {
+        throw std::runtime_error("Failed to write output file \"" + path + "\"");
+    }
     get_loggers().io->info("Finished closing both files");
 }
 
-- 
2.43.0


From 51580137ab25ed42ceea18ba941309442a66836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 05/20] fix: write_checkpoint_file: report errors, drop the old
 info file first

Errors while writing went unnoticed, and overwriting the checkpoint of an
earlier run left the old info file next to an incomplete vector file.
---
 src/hubbard/include/checkpoint.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index 99db83c..6e4939b 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -23,17 +23,26 @@ void write_checkpoint_file(const std::string& prefix,
     std::string path                   = prefix + std::to_string(check_point_number) + ".blaze";
     get_loggers().io->info("Create checkpoint file \"{}\" using vector with {} elements", path,
                            vector.size());
+    // the info file of an earlier run must not vouch for a checkpoint that is being overwritten
+    const std::string info_path = prefix + std::to_string(check_point_number) + ".info";
+    boost::filesystem::remove(info_path);
     std::ofstream strm(path.c_str(), std::ofstream::binary);
     blaze::Archive<std::ofstream> archive(strm);
     archive << vector;
     strm.close();
+    if(!strm) {
+        throw std::runtime_error("Failed to write checkpoint file \"" + path + "\"");
+    }
     get_loggers().io->info("Finished writing checkpoint file \"{}\"", path);
 
-    path = prefix + std::to_string(check_point_number) + ".info";
+    path = info_path;
     get_loggers().io->info("Create checkpoint info file \"{}\" for t={}", path, t);
     strm.open(path.c_str());
     strm << t << '\n';
     strm.close();
+    if(!strm) {
+        throw std::runtime_error("Failed to write checkpoint info file \"" + path + "\"");
+    }
     get_loggers().io->info("Finished writing checkpoint info file \"{}\"", path);
 
     ++check_point_number;
-- 
2.43.0


From 5b0bc0a4123746947753368bdd2e79f2b998fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 06/20] fix: Fermi jump: resize the Fourier coefficients before
 writing them

The coefficients were written beyond the end of an empty vector, so that
copies of the observable had none.
---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 24eee95..9709a51 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -45,7 +45,7 @@ namespace ieompp
                 FermiJump1D(const Lattice& lattice, ExpectationValueFunction expectation_value, const Float& k_F)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 69f7057..05311ad 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -49,7 +49,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
@@ -107,7 +107,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
-- 
2.43.0


From 93af8daca4fc91e65e0781295da65337e8186d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 07/20] fix: Fermi jump: do not share the normal ordered
 coefficients

The static buffer kept the size of the first basis used, and was shared by
all threads calling the observable.
---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 9709a51..e16ef72 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -121,7 +121,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index b739c91..961d78c 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -61,7 +61,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
-- 
2.43.0


From f2a4d52df5e62a1161f7de9e2df579775d26cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 08/20] fix: RK4: do not share the intermediate vectors between
 threads

Independent integrations in different threads overwrote the intermediate
vectors of each other.
---
 include/ieompp/ode/rk4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/ode/rk4.hpp b/include/ieompp/ode/rk4.hpp
index fbe14f6..a9ee59f 100644
--- a/include/ieompp/ode/rk4.hpp
+++ b/include/ieompp/ode/rk4.hpp
@@ -38,7 +38,7 @@ namespace ieompp
                 assert(types::MatrixDimensionInfo<Vector>::columns(u) == 1);
                 assert(types::MatrixDimensionInfo<Vector>::rows(u) == _dimension);
 
-                static Vector k_1, k_2, k_3, k_4;
+                Vector k_1, k_2, k_3, k_4;
 
                 k_1 = m * u;
                 k_2 = m * (u + (_step_size / 2) * k_1);
@@ -56,7 +56,7 @@ namespace ieompp
                 assert(types::MatrixDimensionInfo<Vector>::columns(u) == 1);
                 assert(types::MatrixDimensionInfo<Vector>::rows(u) == _dimension);
 
-                static Vector k_1, k_2, k_3, k_4;
+                Vector k_1, k_2, k_3, k_4;
 
                 k_1 = u;
                 types::multiply_assign(m, k_1);
-- 
2.43.0


From b6512645d588c31e63ee744c286c005238988217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 09/20] fix: multiply_assign: do not share the temporary vector
 between threads

---
 include/ieompp/types/blaze/multiply_assign.hpp | 2 +-
 include/ieompp/types/eigen/multiply_assign.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/types/blaze/multiply_assign.hpp b/include/ieompp/types/blaze/multiply_assign.hpp
index 52ccee7..222e57e 100644
--- a/include/ieompp/types/blaze/multiply_assign.hpp
+++ b/include/ieompp/types/blaze/multiply_assign.hpp
@@ -20,7 +20,7 @@ namespace ieompp
 
             const Index rows = matrix.rows();
 
-            static blaze::DynamicVector<Scalar, blaze::columnVector> temp;
+            blaze::DynamicVector<Scalar, blaze::columnVector> temp;
             temp.resize(rows, false);
             temp.reset();
 
diff --git a/include/ieompp/types/eigen/multiply_assign.hpp b/include/ieompp/types/eigen/multiply_assign.hpp
index 25e4703..df0b51d 100644
--- a/include/ieompp/types/eigen/multiply_assign.hpp
+++ b/include/ieompp/types/eigen/multiply_assign.hpp
@@ -21,7 +21,7 @@ namespace ieompp
 
             const Index rows = matrix.rows();
 
-            static Eigen::Matrix<Scalar, Eigen::Dynamic, 1, Options, MaxRows, MaxCols> temp;
+            Eigen::Matrix<Scalar, Eigen::Dynamic, 1, Options, MaxRows, MaxCols> temp;
             temp.resize(vector.rows());
             temp.setZero();
 
-- 
2.43.0


From c6c3f03a7c5cdce724cd9b913b4f4936c1f04524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 10/20] fix: kinetic theory: size the partial results for every
 team

The number of partial results was the size of one team, while a later region
may get more threads than that one.
---
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index f8e670f..69b32a3 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -61,14 +61,8 @@ int main()
     const hubbard::ExpectationValue1DHalfFilled<double, decltype(lattice)> expectation_value(
         lattice, 1., 0.5);
 
-    vector<vector<complex<double>>> results;
-#pragma omp parallel
-    {
-#pragma omp critical
-        {
-            results.emplace_back(steps, complex<double>(0.));
-        }
-    }
+    vector<vector<complex<double>>> results(omp_get_max_threads(),
+                                            vector<complex<double>>(steps, complex<double>(0.)));
 
 #pragma omp parallel for
     for(uint64_t i = 0; i < N; ++i) {
-- 
2.43.0


From aa03183c3f27a4a6fc4a2b12ed3e83a7b4423640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 11/20] fix: kinetic theory: pass filling factor and Fermi
 momentum of half filling

The arguments of ExpectationValue1DHalfFilled are the filling factor and the
Fermi momentum; the program passed a filling factor of one and 0.5 as the
Fermi momentum and thus did not start at half filling.
---
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index 69b32a3..8a18b9c 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -59,7 +59,7 @@ int main()
     }
 
     const hubbard::ExpectationValue1DHalfFilled<double, decltype(lattice)> expectation_value(
-        lattice, 1., 0.5);
+        lattice, 0.5, ieompp::HalfPi<double>::value);
 
     vector<vector<complex<double>>> results(omp_get_max_threads(),
                                             vector<complex<double>>(steps, complex<double>(0.)));
-- 
2.43.0


From 3d9e995fe70b3259f0f304449265343fe4c41822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 12/20] fix: Platform: unset LOGNAME and long host names

LOGNAME is not set in many batch environments, and gethostname need not
terminate a name that does not fit.
---
 include/ieompp/platform.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 8c543db..c10752f 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -85,7 +85,7 @@ namespace ieompp
 #if BOOST_OS_WINDOWS
 #else
             static char buffer[128];
-            gethostname((char*)buffer, 128);
+            gethostname((char*)buffer, 127);
             return std::string((char*)buffer);
 #endif
         }
@@ -94,7 +94,8 @@ namespace ieompp
         {
 #if BOOST_OS_WINDOWS
 #else
-            return std::string(std::getenv("LOGNAME"));
+            const char* name = std::getenv("LOGNAME");
+            return std::string((name != nullptr) ? name : "unknown");
 #endif
         }
 
-- 
2.43.0


From 7510fa6e238cf03560c185135a9a73504bd4571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 13/20] fix: site occupation, particle number: scale the
 reality check

The imaginary part cancels only up to rounding errors, which are proportional
to the terms and depend on how they are distributed among the threads. The
check against an absolute epsilon aborted for ordinary complex vectors.
---
 .../hubbard_momentum_space/particle_number.hpp    |  2 +-
 .../models/hubbard_real_space/site_occupation.hpp |  4 ++--
 include/ieompp/types/number/is_zero.hpp           | 15 +++++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
index 5414dfb..fafaed8 100644
--- a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
+++ b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
@@ -54,7 +54,7 @@ namespace ieompp
                         }
                     }
 
-                    assert(types::IsZero(result.imag()));
+                    assert(types::IsRealUpToRounding(result, vec));
 
                     return result.real();
                 }
diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index 4c6f0dd..fac70e1 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -63,7 +63,7 @@ namespace ieompp
                     const auto result =
                         std::accumulate(results.begin(), results.end(), std::complex<Float>(0.));
 
-                    assert(types::IsZero(result.imag()));
+                    assert(types::IsRealUpToRounding(result, vector));
                     return result.real();
                 }
             };
@@ -320,7 +320,7 @@ namespace ieompp
                     const auto result =
                         std::accumulate(results.begin(), results.end(), std::complex<Float>(0.));
 
-                    assert(types::IsZero(result.imag()));
+                    assert(types::IsRealUpToRounding(result, vector));
 
                     return result.real();
                 }
diff --git a/include/ieompp/types/number/is_zero.hpp b/include/ieompp/types/number/is_zero.hpp
index 3296921..1bb500f 100644
--- a/include/ieompp/types/number/is_zero.hpp
+++ b/include/ieompp/types/number/is_zero.hpp
@@ -3,6 +3,9 @@
 
 #include "ieompp/types/number/complex.hpp"
 
+#include <cmath>
+#include <complex>
+#include <cstddef>
 #include <limits>
 
 namespace ieompp
@@ -44,6 +47,18 @@ namespace ieompp
             using Float = typename RealType<T>::Type;
             return IsZero<Float>(t.real(), max_dev) && IsZero<Float>(t.imag(), max_dev);
         }
+
+        // check if a sum that is real in exact arithmetic has no imaginary part beyond rounding
+        // errors, which grow with the coefficients the sum is quadratic in
+        template <typename T, typename Vector>
+        bool IsRealUpToRounding(const std::complex<T>& sum, const Vector& coefficients)
+        {
+            T scale = 0;
+            for(std::size_t i = 0, size = coefficients.size(); i < size; ++i) {
+                scale += std::norm(coefficients[i]);
+            }
+            return IsZero(sum.imag(), std::sqrt(std::numeric_limits<T>::epsilon()) * scale);
+        }
     } // namespace types
 } // namespace ieompp
 
-- 
2.43.0


From e8deaa7679e5d384db96c03fe8396177ab506a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 14/20] fix: programs: do not end successfully after failing to
 write the results

Errors of opening, writing and closing the result file (a full disk, for
example) were ignored and the programs ended with status zero.
---
 src/hubbard/hubbard_dispersion_1d.cpp          | 6 ++++++
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 5 +++++
 src/hubbard/hubbard_trivial.cpp                | 5 +++++
 src/hubbard/include/application.hpp            | 2 ++
 4 files changed, 18 insertions(+)

diff --git a/src/hubbard/hubbard_dispersion_1d.cpp b/src/hubbard/hubbard_dispersion_1d.cpp
index 2472d2b..241f8c8 100644
--- a/src/hubbard/hubbard_dispersion_1d.cpp
+++ b/src/hubbard/hubbard_dispersion_1d.cpp
@@ -3,6 +3,7 @@
 using namespace ieompp;
 
 #include <fstream>
+#include <iostream>
 using namespace std;
 
 int main()
@@ -16,4 +17,9 @@ int main()
         file << brillouin_zone[site] << '\t' << dispersion(site) << '\n';
     }
     file.close();
+
+    if(!file) {
+        cerr << "Failed to write dispersion.txt\n";
+        return 1;
+    }
 }
diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index 8a18b9c..3725212 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -84,4 +84,9 @@ int main()
         file << step * dt << '\t' << val.real() << '\t' << val.imag() << '\n';
     }
     file.close();
+
+    if(!file) {
+        cerr << "Failed to write theory.txt\n";
+        return 1;
+    }
 }
diff --git a/src/hubbard/hubbard_trivial.cpp b/src/hubbard/hubbard_trivial.cpp
index 1f02f9c..c91434a 100644
--- a/src/hubbard/hubbard_trivial.cpp
+++ b/src/hubbard/hubbard_trivial.cpp
@@ -76,5 +76,10 @@ int main()
     write_state(file, steps * dt, h);
     file.close();
 
+    if(!file) {
+        cerr << "Failed to write trivial.txt\n";
+        return 1;
+    }
+
     return 0;
 }
diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index 40a5c9c..3951f30 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -71,6 +71,8 @@ struct Application {
         }
 
         get_loggers().io->info("Opening output file \"{}\"", output_path);
+        // an incomplete output file must not go unnoticed
+        output_file.exceptions(std::ofstream::failbit | std::ofstream::badbit);
         output_file.open(output_path.c_str());
         get_loggers().io->info("File \"{}\" is now open", output_path);
 
-- 
2.43.0


From c6c32158e02b65ba2f1b68fa17f50ed68c7e2a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 15/20] fix: write_matrix_file: report errors

---
 src/hubbard/include/common.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hubbard/include/common.hpp b/src/hubbard/include/common.hpp
index f0086f1..4a49e6a 100644
--- a/src/hubbard/include/common.hpp
+++ b/src/hubbard/include/common.hpp
@@ -3,6 +3,7 @@
 
 #include <complex>
 #include <regex>
+#include <stdexcept>
 #include <string>
 
 #include <blaze/math/serialization/MatrixSerializer.h>
@@ -31,6 +32,9 @@ void write_matrix_file(const std::string& path,
     archive << matrix;
     strm.flush();
     strm.close();
+    if(!strm) {
+        throw std::runtime_error("Failed to write matrix file \"" + path + "\"");
+    }
     get_loggers().io->info("Finished writing matrix file \"{}\"", path);
 }
 
-- 
2.43.0


From 3a4ff559e96a288615c5e8f99cea62b5a3ab51e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 16/20] fix: recognise comments of any length and with CRLF
 line ends

The regular expression recurses once per character, so that a comment or blank line of
about 100000 characters overflowed the stack, and '.' does not match a carriage return.
---
 include/ieompp/io/eigen/sparse.hpp | 1 +
 include/ieompp/io/line.hpp         | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/eigen/sparse.hpp b/include/ieompp/io/eigen/sparse.hpp
index 9ef0fec..9e53599 100644
--- a/include/ieompp/io/eigen/sparse.hpp
+++ b/include/ieompp/io/eigen/sparse.hpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <istream>
 #include <ostream>
+#include <regex>
 #include <sstream>
 #include <string>
 
diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 1115d49..d30c2b0 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -2,7 +2,7 @@
 #define IEOMPP_IO_LINE_HPP_
 
 #include <istream>
-#include <regex>
+#include <string>
 
 namespace ieompp
 {
@@ -10,8 +10,8 @@ namespace ieompp
     {
         bool is_skippable_line(const std::string& str)
         {
-            static const std::regex reg(R"(^\s*(?:#.*)?$)");
-            return std::regex_match(str, reg);
+            const auto first = str.find_first_not_of(" \t\n\v\f\r");
+            return (first == std::string::npos) || (str[first] == '#');
         }
 
         std::string next_line(std::istream& strm)
-- 
2.43.0


From 40d4fd48433d15e53aaf92d258c9df9a2830a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 17/20] fix: number checkpoints of all vector types of a
 process together

The counter was a static of the function template, so that the first
checkpoints of, say, a complex and a real vector had the same file names
and the second overwrote the first.
---
 src/hubbard/include/checkpoint.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index 6e4939b..f4e8cdb 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -15,12 +15,19 @@
 
 #include "logging.hpp"
 
+// number of the next checkpoint, whatever the type of its vector
+inline uint64_t& next_checkpoint_number()
+{
+    static uint64_t number = 0;
+    return number;
+}
+
 template <typename Scalar, bool TransposeFlag, typename Time>
 void write_checkpoint_file(const std::string& prefix,
                            const blaze::DynamicVector<Scalar, TransposeFlag>& vector, const Time& t)
 {
-    static uint64_t check_point_number = 0;
-    std::string path                   = prefix + std::to_string(check_point_number) + ".blaze";
+    uint64_t& check_point_number = next_checkpoint_number();
+    std::string path             = prefix + std::to_string(check_point_number) + ".blaze";
     get_loggers().io->info("Create checkpoint file \"{}\" using vector with {} elements", path,
                            vector.size());
     // the info file of an earlier run must not vouch for a checkpoint that is being overwritten
-- 
2.43.0


From 46a776b81a9ad0a9a32c4c312e386986418ec514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 18/20] fix: squares in place of monomials and terms

x *= x appended the operators of x to itself while copying them; a
reallocation in between invalidates the iterators being read.
---
 include/ieompp/algebra/monomial/monomial.hpp | 5 +++++
 include/ieompp/algebra/term/term.hpp         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/ieompp/algebra/monomial/monomial.hpp b/include/ieompp/algebra/monomial/monomial.hpp
index b54cac3..3175f44 100644
--- a/include/ieompp/algebra/monomial/monomial.hpp
+++ b/include/ieompp/algebra/monomial/monomial.hpp
@@ -69,6 +69,11 @@ namespace ieompp
 
             Monomial& operator*=(const Monomial& rhs)
             {
+                if(this == &rhs) {
+                    // appending may reallocate the operators being copied
+                    const Monomial copy(rhs);
+                    return *this *= copy;
+                }
                 std::copy(rhs.begin(), rhs.end(), std::back_inserter(*this));
                 return *this;
             }
diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 31185e1..8892a28 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -50,6 +50,11 @@ namespace ieompp
 
             Term& operator*=(const Term& rhs)
             {
+                if(this == &rhs) {
+                    // appending may reallocate the operators being copied
+                    const Term copy(rhs);
+                    return *this *= copy;
+                }
                 prefactor *= rhs.prefactor;
                 std::copy(rhs.operators.begin(), rhs.operators.end(),
                           std::back_inserter(operators));
-- 
2.43.0


From fa640480767eb8f597a0e2371e475f12f0ce2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:35 +0000
Subject: [PATCH 19/20] fix: compose: text cut off when memory runs out

---
 include/ieompp/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieompp/string.hpp b/include/ieompp/string.hpp
index 788a2b2..7ceecbc 100644
--- a/include/ieompp/string.hpp
+++ b/include/ieompp/string.hpp
@@ -10,6 +10,7 @@ namespace ieompp
     std::string compose(Ts... ts)
     {
         std::ostringstream strm;
+        strm.exceptions(std::ios::badbit); // running out of memory must not cut off the result
         int _[] = {0, (strm << ts, 0)...};
         (void)_;
         return strm.str();
-- 
2.43.0


From f3c798b322c07e87c6f5021aeda266216c677e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:32 +0000
Subject: [PATCH 20/20] fix: programs that print their results succeeded
 although printing had failed

---
 src/hubbard/hubbard_commutators_momentum_space.cpp | 7 +++++++
 src/hubbard/hubbard_commutators_real_space.cpp     | 7 +++++++
 src/hubbard/hubbard_momentum_1d_rk4.cpp            | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/hubbard/hubbard_commutators_momentum_space.cpp b/src/hubbard/hubbard_commutators_momentum_space.cpp
index 0762aac..7c0736b 100644
--- a/src/hubbard/hubbard_commutators_momentum_space.cpp
+++ b/src/hubbard/hubbard_commutators_momentum_space.cpp
@@ -71,5 +71,12 @@ int main()
             cout << "\t\t" << t << '\n';
         }
     }
+
+    // incomplete output must not go unnoticed
+    if(!cout.flush()) {
+        cerr << "Failed to write output\n";
+        return 1;
+    }
+
     return 0;
 }
diff --git a/src/hubbard/hubbard_commutators_real_space.cpp b/src/hubbard/hubbard_commutators_real_space.cpp
index 137b057..93dedd6 100644
--- a/src/hubbard/hubbard_commutators_real_space.cpp
+++ b/src/hubbard/hubbard_commutators_real_space.cpp
@@ -90,5 +90,12 @@ int main()
             cout << "\t\t" << t << '\n';
         }
     }
+
+    // incomplete output must not go unnoticed
+    if(!cout.flush()) {
+        cerr << "Failed to write output\n";
+        return 1;
+    }
+
     return 0;
 }
diff --git a/src/hubbard/hubbard_momentum_1d_rk4.cpp b/src/hubbard/hubbard_momentum_1d_rk4.cpp
index e9a46f3..8b700e0 100644
--- a/src/hubbard/hubbard_momentum_1d_rk4.cpp
+++ b/src/hubbard/hubbard_momentum_1d_rk4.cpp
@@ -69,5 +69,11 @@ int main(int argc, char** argv)
     integrator.step(M, h);
     cout <<  particle_number(h) << '\n';
 
+    // incomplete output must not go unnoticed
+    if(!cout.flush()) {
+        cerr << "Failed to write output\n";
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0

