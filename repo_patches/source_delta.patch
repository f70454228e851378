From 347ee3583e92405cb790c2029dad04aae17664d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 01/33] fix: pure-flux problems use a linear invertible
 operator

With fluxes prescribed everywhere vmult shifted its argument and result by
their l2 norms, so the operator was nonlinear and near singular; on meshes
without duplicated edges the solution was off by several times its size or
GMRES failed.
---
 source/bem_fma.cc     | 12 +++++++++---
 source/bem_problem.cc | 13 +++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index a584ee9..d629abe 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3402,8 +3402,13 @@ BEMFMA<dim>::FMA_preconditioner(
   // We need a worker function that fills the final sparisty pattern once its
   // saprsity pattern has been set up. In this case no race condition occurs in
   // the worker so we can let it copy in the global memory.
-  auto f_sparsity_filler_tbb = [this,
-                                &c](blocked_range<types::global_dof_index> r) {
+  // with fluxes prescribed everywhere the system operator includes the mean
+  // value of its argument (see BEMProblem::vmult)
+  const double shift =
+    dirichlet_nodes->linfty_norm() == 0 ? 1. / fma_dh->n_dofs() : 0.;
+
+  auto f_sparsity_filler_tbb = [this, &c, shift](
+                                 blocked_range<types::global_dof_index> r) {
     for (types::global_dof_index i = r.begin(); i < r.end(); ++i)
       {
         if (this_cpu_set.is_element(i))
@@ -3438,7 +3443,8 @@ BEMFMA<dim>::FMA_preconditioner(
                       {
                         final_preconditioner.set(i,
                                                  j,
-                                                 init_preconditioner(i, j));
+                                                 init_preconditioner(i, j) +
+                                                   shift);
                         // foo_fma->pcout<<i<<" "<<j<<"
                         // "<<foo_fma->init_preconditioner(i,j)<<std::endl;
                       }
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 5c38cc1..e87d2da 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1591,11 +1591,7 @@ void
 BEMProblem<dim>::vmult(TrilinosWrappers::MPI::Vector       &dst,
                        const TrilinosWrappers::MPI::Vector &src) const
 {
-  serv_phi = src;
-  if (!have_dirichlet_bc)
-    {
-      vector_shift(serv_phi, -serv_phi.l2_norm());
-    }
+  serv_phi     = src;
   serv_dphi_dn = src;
 
 
@@ -1640,8 +1636,11 @@ BEMProblem<dim>::vmult(TrilinosWrappers::MPI::Vector       &dst,
   // "<<src(0)<<"  dst: "<<dst(0)<<std::endl;
   // in fully neumann bc case, we have to rescale the vector to have a zero mean
   // one
+  // with fluxes prescribed everywhere the operator annihilates the constants:
+  // adding the mean value of the argument makes it invertible, and the solution
+  // is then determined including its (arbitrary) constant.
   if (!have_dirichlet_bc)
-    vector_shift(dst, -dst.l2_norm());
+    vector_shift(dst, src.mean_value());
   dst.compress(VectorOperation::add);
 }
 
@@ -2230,6 +2229,8 @@ BEMProblem<dim>::assemble_preconditioner()
                     {
                       // Nodo di Dirichlet
                       band_system.add(i, j, neumann_matrix(i, j));
+                      if (!have_dirichlet_bc)
+                        band_system.add(i, j, 1. / dh.n_dofs()); // see vmult
 
                       if (i == j)
                         band_system.add(i, j, alpha(i));
-- 
2.43.0


From cdbe1ae9a47dea864aee27481e408d4b4705b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 02/33] fix: tie fluxes of coincident prescribed-potential
 nodes on smooth joints

normal_distance was divided by itself, so the smooth branch was never taken
and flat joints divided by 1-(n.n)^2 = 0.
---
 source/bem_problem.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index e87d2da..0a24608 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1976,10 +1976,10 @@ BEMProblem<dim>::compute_constraints(
                                          // + ((*it) -
                                          // start_per_process[this_mpi_process])
                                          // * dim + idim;//(*it)*dim+idim
-                            normal_distance += localized_normals[index1] *
-                                               localized_normals[index2];
+                            normal_distance += pow(localized_normals[index1] -
+                                                     localized_normals[index2],
+                                                   2);
                           }
-                        normal_distance /= normal_distance;
                         if (normal_distance < 1e-4)
                           {
                             c.add_line(*it);
-- 
2.43.0


From 6bfc636184b6edb28505558cbeeb1792d4c04cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 03/33] fix: a flux cell no longer overwrites the prescribed
 potential of a shared node

Nodes with a prescribed-potential cell are potential nodes; their data was
replaced by the flux of a neighbouring cell visited later.
---
 source/boundary_conditions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 60ced12..1c91471 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -279,7 +279,7 @@ BoundaryConditions<dim>::prepare_bem_vectors()
                 // ("<<node_normals[j]<<")  "<<" pos ("<<node_coors[j]<<")
                 // "<<node_coors[j](0)<<std::endl;
               }
-            else
+            else if (bem.dirichlet_nodes(local_dof_indices[j]) == 0)
               {
                 for (auto nbound : comp_dom.neumann_boundary_ids)
                   if (cell->material_id() == nbound)
-- 
2.43.0


From 02b237293b7a6417e32ea1cce59e29852cebc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 04/33] fix: classify owned nodes from all their cells,
 whatever process owns these

A node whose prescribed-potential cells belong to another process was taken
as a flux node, so that results depended on the partition.
---
 source/bem_problem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 0a24608..e1aa257 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -593,7 +593,7 @@ BEMProblem<dim>::compute_dirichlet_and_neumann_dofs_vectors()
   unsigned int helper_dirichlet = 0;
   for (; cell != endc; ++cell)
     {
-      if (cell->subdomain_id() == this_mpi_process)
+        // an owned node may get its label from a cell of another process
         {
           bool dirichlet = false;
           for (auto dummy : comp_dom.dirichlet_boundary_ids)
-- 
2.43.0


From bba2d6f8308e238bf223cbd9e1fc99d63acb6184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 05/33] fix: singular rules follow the element and order of the
 current problem

They were cached in a function-local static filled by the first problem of
the process, so a later problem with another element or order used the wrong
rules (or read past the end of the vector).
---
 source/bem_problem.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index e1aa257..a460b2e 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -426,7 +426,11 @@ BEMProblem<3>::get_singular_quadrature(const unsigned int index) const
 
 
 
-  static std::vector<Quadrature<2>> quadratures;
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<2>>>
+                               cache;
+  std::vector<Quadrature<2>> &quadratures =
+    cache[{fe->get_name(), singular_quadrature_order}];
   {
     if (quadratures.size() == 0)
       for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
@@ -445,7 +449,11 @@ BEMProblem<2>::get_singular_quadrature(const unsigned int index) const
 {
   Assert(index < fe->dofs_per_cell, ExcIndexRange(0, fe->dofs_per_cell, index));
 
-  static std::vector<Quadrature<1>> quadratures;
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<1>>>
+                               cache;
+  std::vector<Quadrature<1>> &quadratures =
+    cache[{fe->get_name(), singular_quadrature_order}];
   if (quadratures.size() == 0)
     for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
       {
-- 
2.43.0


From c6ee64917cb17ad7f04782bf1fe440c6de39a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 06/33] fix: solid angles are computed with vectors of the
 current partition

The work vectors were function-local statics, rebuilt only when their size
changed, so a problem with the same size but another partition used stale
maps.
---
 source/bem_problem.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index a460b2e..55125ae 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1565,14 +1565,10 @@ template <int dim>
 void
 BEMProblem<dim>::compute_alpha()
 {
-  static TrilinosWrappers::MPI::Vector ones, zeros, dummy;
-  if (ones.size() != dh.n_dofs())
-    {
-      ones.reinit(this_cpu_set, mpi_communicator);
-      vector_shift(ones, -1.);
-      zeros.reinit(this_cpu_set, mpi_communicator);
-      dummy.reinit(this_cpu_set, mpi_communicator);
-    }
+  TrilinosWrappers::MPI::Vector ones(this_cpu_set, mpi_communicator),
+    zeros(this_cpu_set, mpi_communicator),
+    dummy(this_cpu_set, mpi_communicator);
+  vector_shift(ones, -1.);
 
 
   if (solution_method == "Direct")
-- 
2.43.0


From 5e3ebb22cf2798b570e6756677b783efb579bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 07/33] fix: no timer is started by the concurrent workers of
 the downward pass

Teuchos timers are not reentrant: with more than one thread the run aborted
at random with 'timer already running'.
---
 source/bem_fma.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index d629abe..afbf4d4 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -2869,7 +2869,6 @@ BEMFMA<dim>::multipole_matr_vect_products(
                 types::global_dof_index block2Id = *pos1;
                 // std::vector <cell_it> elemBlk2Ids =
                 // block2.GetBlockElementsList();
-                Teuchos::TimeMonitor LocalTimer(*LocEval);
 
                 for (types::global_dof_index ii = 0; ii < nodesBlk1Ids.size();
                      ii++) // loop over each node of (*block_it)
-- 
2.43.0


From cb940934ce645854c6722b12d7413dc3449b8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 08/33] fix: copies and assignments of expansions own their
 coefficients

Copying a default-constructed expansion read through a null pointer,
self-assignment read freed memory, and assigning a local expansion leaked its
coefficients and rewrote the static translation tables.
---
 source/local_expansion.cc     | 38 +++++++++++++++++------------------
 source/multipole_expansion.cc | 25 ++++++++++++-----------
 2 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 2f1e511..2a1b359 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -43,16 +43,8 @@ LocalExpansion::LocalExpansion(const unsigned int      order,
 
 LocalExpansion::LocalExpansion(const LocalExpansion &other)
 {
-  this->p                  = other.p;
-  this->assLegFunction     = other.assLegFunction;
-  this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
-  this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
-  this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
-  this->is_zero = other.is_zero;
+  this->_L_n_m = NULL;
+  *this        = other;
 }
 
 LocalExpansion::~LocalExpansion()
@@ -64,15 +56,23 @@ LocalExpansion::~LocalExpansion()
 LocalExpansion &
 LocalExpansion::operator=(const LocalExpansion &other)
 {
-  this->p                  = other.p;
-  this->assLegFunction     = other.assLegFunction;
-  this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
-  this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
-  this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  // the translation tables are static: there is nothing to copy there
+  if (this == &other)
+    return *this;
+  this->p              = other.p;
+  this->assLegFunction = other.assLegFunction;
+  this->center         = other.center;
+  if (_L_n_m != NULL)
+    delete[] _L_n_m;
+  this->_L_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_L_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_L_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index 8dbe221..c8008b6 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -36,14 +36,8 @@ MultipoleExpansion::MultipoleExpansion(const unsigned int      order,
 
 MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
 {
-  this->p              = other.p;
-  this->assLegFunction = other.assLegFunction;
-  this->center         = other.center;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
-  this->is_zero = other.is_zero;
+  this->_M_n_m = NULL;
+  *this        = other;
 }
 
 
@@ -51,15 +45,22 @@ MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
 MultipoleExpansion &
 MultipoleExpansion::operator=(const MultipoleExpansion &other)
 {
+  if (this == &other)
+    return *this;
   this->p              = other.p;
   this->assLegFunction = other.assLegFunction;
   this->center         = other.center;
   if (_M_n_m != NULL)
     delete[] _M_n_m;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  this->_M_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_M_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_M_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
-- 
2.43.0


From f571e08682fdf3d84a4854076178593be8e5ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 09/33] fix: copies of the translation table are complete and
 independent

The copy constructor copied as many bytes as there are coefficients, and the
implicit assignment made both objects delete the same array.
---
 include/local_expansion_coeff.h |  2 ++
 source/local_expansion_coeff.cc | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/local_expansion_coeff.h b/include/local_expansion_coeff.h
index 4d5499c..8530440 100644
--- a/include/local_expansion_coeff.h
+++ b/include/local_expansion_coeff.h
@@ -21,6 +21,8 @@ public:
   LocalExpansionCoeff();
   LocalExpansionCoeff(const unsigned int &p);
   LocalExpansionCoeff(const LocalExpansionCoeff &orig);
+  LocalExpansionCoeff &
+  operator=(const LocalExpansionCoeff &orig);
   double
   get(const unsigned int &n,
       const unsigned int &m,
diff --git a/source/local_expansion_coeff.cc b/source/local_expansion_coeff.cc
index c1eea65..7e290bc 100644
--- a/source/local_expansion_coeff.cc
+++ b/source/local_expansion_coeff.cc
@@ -8,6 +8,7 @@
 #include "local_expansion_coeff.h"
 
 #include <iostream>
+#include <utility>
 
 #include "string.h"
 
@@ -29,8 +30,23 @@ LocalExpansionCoeff::LocalExpansionCoeff(const unsigned int &p)
 LocalExpansionCoeff::LocalExpansionCoeff(const LocalExpansionCoeff &orig)
 {
   _p     = orig._p;
-  _coeff = new double[(_p + 1) * (_p + 1) * (_p + 1) * (_p + 2) / 2];
-  memcpy(_coeff, orig._coeff, this->getNumberOfElements());
+  _coeff = NULL;
+  if (orig._coeff != NULL)
+    {
+      _coeff = new double[this->getNumberOfElements()];
+      memcpy(_coeff,
+             orig._coeff,
+             sizeof(double) * this->getNumberOfElements());
+    }
+}
+
+LocalExpansionCoeff &
+LocalExpansionCoeff::operator=(const LocalExpansionCoeff &orig)
+{
+  LocalExpansionCoeff copy(orig);
+  std::swap(_p, copy._p);
+  std::swap(_coeff, copy._coeff);
+  return *this;
 }
 
 LocalExpansionCoeff::~LocalExpansionCoeff()
-- 
2.43.0


From 45d876cd6d0583b06be279dc7b53626e3164ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 10/33] fix: expansions accept sources on their polar axis and
 at their center

The angles were computed as 0/0 there and every coefficient became NaN.
---
 source/local_expansion.cc     |  2 +-
 source/multipole_expansion.cc | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 2a1b359..c3dc210 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -260,7 +260,7 @@ LocalExpansion::Evaluate(const dealii::Point<3> &evalPoint)
       unsigned int     p           = this->p;
       dealii::Point<3> blockRelPos = evalPoint + (-1.0 * this->center);
       double           rho         = sqrt(blockRelPos.square());
-      double           cos_alpha_  = blockRelPos(2) / rho;
+      double           cos_alpha_  = rho > 0. ? blockRelPos(2) / rho : 1.;
       double           beta        = atan2(blockRelPos(1), blockRelPos(0));
 
       double P_n_m;
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index c8008b6..f279793 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -104,7 +104,7 @@ MultipoleExpansion::Add(const double strength, const dealii::Point<3> &point)
 
       dealii::Point<3> pointRelPos = point + (-1.0 * this->center);
       double           rho         = sqrt(pointRelPos.square());
-      double           cos_alpha_  = pointRelPos(2) / rho;
+      double           cos_alpha_  = rho > 0. ? pointRelPos(2) / rho : 1.;
       double           beta        = atan2(pointRelPos(1), pointRelPos(0));
       double           P_n_m;
       for (int n = 0; n < int(this->p) + 1; n++)
@@ -139,7 +139,18 @@ MultipoleExpansion::AddNormDer(const double                strength,
       dealii::Tensor<1, 3> normVersor =
         normal / sqrt(normal[0] * normal[0] + normal[1] * normal[1] +
                       normal[2] * normal[2]); // normal.square());
-      double rho     = sqrt(pointRelPos.square());
+      double rho = sqrt(pointRelPos.square());
+      if (pow(pointRelPos(0), 2.) + pow(pointRelPos(1), 2.) <=
+          1e-10 * pow(rho, 2.))
+        {
+          // beta is not defined on the polar axis: the harmonics are
+          // polynomials, whose derivative is the mean of the ones beside it
+          const dealii::Point<3> shift(
+            rho > 0. ? 1e-4 * rho : 1e-8 * (1. + point.norm()), 0., 0.);
+          this->AddNormDer(0.5 * strength, point + shift, normal);
+          this->AddNormDer(0.5 * strength, point + (-1.0 * shift), normal);
+          return;
+        }
       double dRhodN  = (pointRelPos / rho) * normVersor;
       double beta    = atan2(pointRelPos(1), pointRelPos(0));
       double dBetadN = (dealii::Point<3>(-pointRelPos(1), pointRelPos(0), 0.) /
-- 
2.43.0


From c011bfa1b565d5fe57c16f9c0b90176f623aea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 11/33] fix: expansions are re-centered whatever the length
 unit

Centers closer than 1e-7 were treated as equal, so meshes of that size lost
their far field.
---
 source/local_expansion.cc     | 2 +-
 source/multipole_expansion.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index c3dc210..aeef87b 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -115,7 +115,7 @@ LocalExpansion::Add(
   else
     {
       unsigned int p = this->p;
-      if (other.center.distance(this->center) > 1e-7)
+      if (other.center.distance(this->center) > 0.)
         {
           dealii::Point<3> blockRelPos =
             other.GetCenter() + (-1.0 * this->center);
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index f279793..6ce351d 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -207,7 +207,7 @@ MultipoleExpansion::Add(
     {
       this->is_zero             = false;
       FullMatrix<double> &A_n_m = this->GetA_n_m();
-      if (other.center.distance(this->center) > 1e-7)
+      if (other.center.distance(this->center) > 0.)
         {
           dealii::Point<3> blockRelPos = other.center + (-1.0 * this->center);
           double           rho         = sqrt(blockRelPos.square());
-- 
2.43.0


From 99ca4e2ca12364a709701796b4fb84e690926201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 12/33] fix: dipoles at the center of an expansion whatever the
 length unit

---
 source/multipole_expansion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index 6ce351d..172553d 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -146,7 +146,7 @@ MultipoleExpansion::AddNormDer(const double                strength,
           // beta is not defined on the polar axis: the harmonics are
           // polynomials, whose derivative is the mean of the ones beside it
           const dealii::Point<3> shift(
-            rho > 0. ? 1e-4 * rho : 1e-8 * (1. + point.norm()), 0., 0.);
+            rho > 0. ? 1e-4 * rho : 1e-100 + 1e-8 * point.norm(), 0., 0.);
           this->AddNormDer(0.5 * strength, point + shift, normal);
           this->AddNormDer(0.5 * strength, point + (-1.0 * shift), normal);
           return;
-- 
2.43.0


From b2d5441ae8adcd10c861beb3f94c38a623120df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 13/33] fix: refuse scalar and vector elements whose unknowns
 do not match

---
 source/bem_problem.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 55125ae..d1d8c5b 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -172,6 +172,11 @@ BEMProblem<dim>::reinit()
   dh.distribute_dofs(*fe);
   gradient_dh.distribute_dofs(*gradient_fe);
 
+  // the numberings of scalar and vector unknowns are matched node by node
+  AssertThrow(gradient_dh.n_dofs() == dim * dh.n_dofs(),
+              ExcMessage("The scalar and the vector finite elements must have "
+                         "the same type and order."));
+
   // we should choose the appropriate renumbering strategy and then stick with
   // it. in step 32 they use component_wise which is very straight-forward but
   // maybe the quickest is subdomain_wise (step 17, 18)
-- 
2.43.0


From a6882c77a2c293eb5edc8f65f4cccb31a9899de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 14/33] fix: concurrent tasks no longer modify the
 preconditioner matrix at the same time

---
 source/bem_fma.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index afbf4d4..8d5f87b 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -4,6 +4,7 @@
 #include "../include/bem_fma.h"
 
 #include <functional>
+#include <mutex>
 
 #include "../include/laplace_kernel.h"
 #include "Teuchos_TimeMonitor.hpp"
@@ -3406,7 +3407,11 @@ BEMFMA<dim>::FMA_preconditioner(
   const double shift =
     dirichlet_nodes->linfty_norm() == 0 ? 1. / fma_dh->n_dofs() : 0.;
 
-  auto f_sparsity_filler_tbb = [this, &c, shift](
+  // rows are prepared concurrently, but the matrix also keeps track of the
+  // kind of its last modification
+  std::mutex filling;
+
+  auto f_sparsity_filler_tbb = [this, &c, shift, &filling](
                                  blocked_range<types::global_dof_index> r) {
     for (types::global_dof_index i = r.begin(); i < r.end(); ++i)
       {
@@ -3414,6 +3419,7 @@ BEMFMA<dim>::FMA_preconditioner(
           {
             if (c.is_constrained(i))
               {
+                std::lock_guard<std::mutex> lock(filling);
                 final_preconditioner.set(i, i, 1);
                 // pcout<<i<<" "<<i<<"  **
                 // "<<final_preconditioner(i,i)<<std::endl;
@@ -3440,6 +3446,7 @@ BEMFMA<dim>::FMA_preconditioner(
                     // tanto lui già conosce le matrici.
                     if (init_prec_sparsity_pattern.exists(i, j))
                       {
+                        std::lock_guard<std::mutex> lock(filling);
                         final_preconditioner.set(i,
                                                  j,
                                                  init_preconditioner(i, j) +
@@ -3520,12 +3527,13 @@ BEMFMA<dim>::FMA_preconditioner(
   final_preconditioner.compress(VectorOperation::insert);
 
   // In order to add alpha we can again use the parallel_for strategy.
-  auto f_alpha_adder_tbb = [this, &c, &alpha](
+  auto f_alpha_adder_tbb = [this, &c, &alpha, &filling](
                              blocked_range<types::global_dof_index> r) {
     for (types::global_dof_index i = r.begin(); i < r.end(); ++i)
       {
         if (this_cpu_set.is_element(i))
           {
+            std::lock_guard<std::mutex> lock(filling);
             if ((*(dirichlet_nodes))(i) == 0 && !(c.is_constrained(i)))
               {
                 final_preconditioner.add(i, i, alpha(i));
-- 
2.43.0


From c9e4ceb692fb84bce8f965bde16db3220700d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 15/33] fix: hanging nodes take their parents' data of the same
 kind

---
 source/bem_problem.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index d1d8c5b..d091fe8 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1893,8 +1893,26 @@ BEMProblem<dim>::compute_constraints(
   // here we prepare the constraint matrix so as to account for the presence
   // hanging nodes
 
+  AffineConstraints<double> hanging_nodes;
+  DoFTools::make_hanging_node_constraints(dh, hanging_nodes);
+  hanging_nodes.close();
+
+  // the unknown is the potential on some nodes and the normal derivative on
+  // the others: a parent whose unknown is not the hanging node's one takes part
+  // with its known datum
   AffineConstraints<double> c_hn;
-  DoFTools::make_hanging_node_constraints(dh, c_hn);
+  for (const auto &line : hanging_nodes.get_lines())
+    {
+      double inhomogeneity = 0;
+      c_hn.add_line(line.index);
+      for (const auto &entry : line.entries)
+        if (localized_dirichlet_nodes(entry.first) ==
+            localized_dirichlet_nodes(line.index))
+          c_hn.add_entry(line.index, entry.first, entry.second);
+        else
+          inhomogeneity += entry.second * loc_tmp_rhs(entry.first);
+      c_hn.set_inhomogeneity(line.index, inhomogeneity);
+    }
   c_hn.close();
 
   std::vector<types::subdomain_id> dofs_domain_association(dh.n_dofs());
-- 
2.43.0


From 417aeb739a8f83d6240df34ab9457642ed9397c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 16/33] fix: spheroid axes scale their own coordinate on every
 re-initialisation

---
 source/bem_problem.cc | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index d091fe8..bd6b67f 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -201,24 +201,21 @@ BEMProblem<dim>::reinit()
       vector_constraints.distribute(map_vector);
     }
   // mapping_degree = fe->get_degree();
+  if (comp_dom.spheroid_bool && comp_dom.used_spherical_manifold)
+    {
+      AssertThrow(mapping_type == "FE",
+                  ExcMessage("A spheroid requires the FE mapping."));
+      const double axes[3] = {comp_dom.spheroid_x_axis,
+                              comp_dom.spheroid_y_axis,
+                              comp_dom.spheroid_z_axis};
+      for (types::global_dof_index ii = 0; ii < gradient_dh.n_dofs() / dim;
+           ++ii)
+        for (unsigned int d = 0; d < dim; ++d)
+          map_vector[vec_original_to_sub_wise[ii + d * gradient_dh.n_dofs() /
+                                                     dim]] *= axes[d];
+    }
   if (!mapping)
     {
-      if (comp_dom.spheroid_bool && comp_dom.used_spherical_manifold)
-        {
-          for (types::global_dof_index ii = 0; ii < gradient_dh.n_dofs() / dim;
-               ++ii)
-            {
-              map_vector[vec_original_to_sub_wise[ii]] *=
-                comp_dom.spheroid_x_axis;
-              map_vector[vec_original_to_sub_wise[ii + gradient_dh.n_dofs() /
-                                                         dim]] *=
-                comp_dom.spheroid_y_axis;
-              if (dim == 3)
-                map_vector[vec_original_to_sub_wise[ii + gradient_dh.n_dofs() /
-                                                           dim]] *=
-                  comp_dom.spheroid_z_axis;
-            }
-        }
       if (mapping_type == "FE")
         mapping = std::make_shared<MappingFEField<dim - 1, dim>>(gradient_dh,
                                                                  map_vector);
-- 
2.43.0


From 124f43626129199b7a105b36fae3c73b4539861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 17/33] fix: a re-initialisation applies the current mapping
 settings

---
 source/bem_problem.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index bd6b67f..8bfd0b2 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -214,14 +214,12 @@ BEMProblem<dim>::reinit()
           map_vector[vec_original_to_sub_wise[ii + d * gradient_dh.n_dofs() /
                                                      dim]] *= axes[d];
     }
-  if (!mapping)
-    {
-      if (mapping_type == "FE")
-        mapping = std::make_shared<MappingFEField<dim - 1, dim>>(gradient_dh,
-                                                                 map_vector);
-      else
-        mapping = std::make_shared<MappingQ<dim - 1, dim>>(mapping_degree);
-    }
+  // the mapping depends on the current element and settings
+  if (mapping_type == "FE")
+    mapping =
+      std::make_shared<MappingFEField<dim - 1, dim>>(gradient_dh, map_vector);
+  else
+    mapping = std::make_shared<MappingQ<dim - 1, dim>>(mapping_degree);
 
 
 
-- 
2.43.0


From 6271f00b5cb89f281aa68c524fd7b277a2ca67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 18/33] fix: the octree forgets the cells of earlier meshes

---
 source/bem_fma.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 8d5f87b..b504bd5 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3934,6 +3934,9 @@ BEMFMA<dim>::generate_octree_blocking()
   // per ogni livello
   dof_to_block.clear();
 
+  // map from each dof to the cells it belongs to
+  dof_to_elems.clear();
+
   // mappa che associa ad ogni quad point un vettore con i blocchi cui essa
   // appartiene per ogni livello
   quad_point_to_block.clear();
-- 
2.43.0


From 048ace8c9e49f87269663dcfd55695fdf24c4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 19/33] fix: unused vertices left by coarsening are not doubles
 of edge vertices

---
 source/computational_domain.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 830fd2c..1d4ea81 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -1127,12 +1127,15 @@ ComputationalDomain<dim>::compute_double_vertex_cache()
   std::fill(vertex_on_boundary.begin(), vertex_on_boundary.end(), false);
 
   auto all_vertices = tria.get_vertices();
+  // coarsening leaves unused vertices behind, they are nobody's double
+  const auto &used_vertices = tria.get_used_vertices();
 
   for (types::global_dof_index i = 0; i < n_vertex; ++i)
     {
       for (types::global_dof_index j = 0; j < n_vertex; ++j)
         {
-          if (all_vertices[i].distance(all_vertices[j]) <= toll)
+          if (used_vertices[j] &&
+              all_vertices[i].distance(all_vertices[j]) <= toll)
             {
               double_vertex_vector[i].push_back(j);
             }
-- 
2.43.0


From 90606f99e9156b7b9bc53354626601c6f22cc2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 20/33] fix: restore edge conformity also where the refinement
 levels differ by more than one

---
 source/computational_domain.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 1d4ea81..2f5f1b1 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -1073,10 +1073,15 @@ ComputationalDomain<dim>::make_edges_conformal(
                         {
                           // cout<<parent_face_center.distance((*jt)->face(d)->center())<<"
                           // "<<tol<<endl;
+                          // the second condition finds the edges the vertex
+                          // would split also when the cells next to it have
+                          // different sizes
                           if (parent_face_center.distance(
                                 ((*jt)->face(d)->vertex(0) +
                                  (*jt)->face(d)->vertex(1)) /
-                                2) < tol)
+                                2) < tol ||
+                              all_vertices[i].distance(
+                                (*jt)->face(d)->center(true)) < tol)
                             {
                               if (isotropic_ref_on_opposite_side)
                                 {
-- 
2.43.0


From ab929ff54954a26b2bf821e154d9d4b54522d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 21/33] fix: heap overflow at border vertices of more than two
 cells

---
 source/computational_domain.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 2f5f1b1..e82f931 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -1031,8 +1031,9 @@ ComputationalDomain<dim>::make_edges_conformal(
               if (vertex_on_boundary[i] == true &&
                   double_vertex_vector[i].size() == 1)
                 {
-                  std::vector<Point<dim>> nodes(
-                    GeometryInfo<dim - 1>::vertices_per_face);
+                  // a border vertex may belong to more than two cells, and only
+                  // some of these have border edges
+                  std::vector<Point<dim>> nodes;
                   for (types::global_dof_index kk = 0;
                        kk < vert_to_elems[i].size();
                        ++kk) // ogni faccia ha due estremi
@@ -1052,10 +1053,10 @@ ComputationalDomain<dim>::make_edges_conformal(
                               // "<<cell->face(f)->vertex(0)<<std::endl;
                               if (all_vertices[i].distance(
                                     cell->face(f)->vertex(0)) < tol)
-                                nodes[kk] = cell->face(f)->vertex(1);
+                                nodes.push_back(cell->face(f)->vertex(1));
                               else if (all_vertices[i].distance(
                                          cell->face(f)->vertex(1)) < tol)
-                                nodes[kk] = cell->face(f)->vertex(0);
+                                nodes.push_back(cell->face(f)->vertex(0));
                             }
                         }
                       // std::cout<<std::endl;
@@ -1063,6 +1064,8 @@ ComputationalDomain<dim>::make_edges_conformal(
                   // std::cout<<nodes[0]<<"    "<<ref_points[i]<<"
                   // "<<nodes[1]<<std::endl;
                   // we can now compute the center of the parent cell face
+                  if (nodes.size() != 2)
+                    continue;
                   Point<3> parent_face_center = 0.5 * (nodes[0] + nodes[1]);
                   for (auto jt = edge_cells.begin(); jt != edge_cells.end();
                        ++jt)
-- 
2.43.0


From e9218bad8f7ac179d5953fe73606ffd85088ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 22/33] fix: the printed nodal error of the potential is the
 one of the nodes

---
 source/boundary_conditions.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 1c91471..38cb7a8 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -366,7 +366,6 @@ BoundaryConditions<dim>::compute_errors()
 
       Vector<double> grad_difference_per_cell(comp_dom.tria.n_active_cells());
       std::vector<Point<dim>> support_points(bem.dh.n_dofs());
-      double                  phi_max_error; // = localized_phi.linfty_norm();
       Vector<double> difference_per_cell(comp_dom.tria.n_active_cells());
       DoFTools::map_dofs_to_support_points<dim - 1, dim>(*bem.mapping,
                                                          bem.dh,
@@ -411,8 +410,6 @@ BoundaryConditions<dim>::compute_errors()
                                           2 * (2 * bem.fe->degree + 1)),
                                         VectorTools::L2_norm);
 
-      phi_max_error = difference_per_cell.linfty_norm();
-
       //        }
       VectorTools::integrate_difference(*bem.mapping,
                                         bem.gradient_dh,
@@ -489,7 +486,8 @@ BoundaryConditions<dim>::compute_errors()
             << std::endl
             << "   Number of degrees of freedom: " << n_dofs << std::endl;
 
-      pcout << "Phi Nodes error L_inf norm: " << phi_max_error << std::endl;
+      pcout << "Phi Nodes error L_inf norm: " << phi_node_error.linfty_norm()
+            << std::endl;
       pcout << "Phi Cells error L_2 norm: " << L2_error << std::endl;
       pcout << "dPhidN Nodes error L_inf norm: "
             << dphi_dn_node_error.linfty_norm() << std::endl;
-- 
2.43.0


From b8f182ec682ced8f25e1b3ca38e4881bb5bbfcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 23/33] fix: refuse parameter values outside their range
 (negative counts read as huge ones, orders beyond the tables, empty rules)

---
 source/bem_fma.cc              |  9 +++++----
 source/bem_problem.cc          | 14 +++++++-------
 source/computational_domain.cc | 12 ++++++------
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index b504bd5..3a7c5bd 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -77,18 +77,19 @@ BEMFMA<dim>::declare_parameters(ParameterHandler &prm)
 {
   prm.enter_subsection("Octree Params");
   {
-    prm.declare_entry("Number of Octree Levels", "10", Patterns::Integer());
+    prm.declare_entry("Number of Octree Levels", "10", Patterns::Integer(1));
 
     prm.declare_entry(
       "Maximum Number of Collocation Points per Childless Block",
       "20",
-      Patterns::Integer());
+      Patterns::Integer(1));
   }
   prm.leave_subsection();
 
   prm.enter_subsection("FMA Params");
   {
-    prm.declare_entry("FMA Truncation Order", "6", Patterns::Integer());
+    // the tables of the translation operators end at order 10
+    prm.declare_entry("FMA Truncation Order", "6", Patterns::Integer(0, 10));
   }
   prm.leave_subsection();
 
@@ -96,7 +97,7 @@ BEMFMA<dim>::declare_parameters(ParameterHandler &prm)
   {
     prm.declare_entry("Granularity for TBB simple for cycles",
                       "10",
-                      Patterns::Integer());
+                      Patterns::Integer(1));
   }
   prm.leave_subsection();
 }
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 8bfd0b2..ae62bd1 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -489,14 +489,14 @@ BEMProblem<dim>::declare_parameters(ParameterHandler &prm)
                       "gauss",
                       Patterns::Selection(
                         QuadratureSelector<(dim - 1)>::get_quadrature_names()));
-    prm.declare_entry("Quadrature order", "4", Patterns::Integer());
-    prm.declare_entry("Singular quadrature order", "5", Patterns::Integer());
+    prm.declare_entry("Quadrature order", "4", Patterns::Integer(0));
+    prm.declare_entry("Singular quadrature order", "5", Patterns::Integer(1));
   }
   prm.leave_subsection();
 
   prm.declare_entry("Mapping Type", "FE", Patterns::Selection("FE|Q"));
 
-  prm.declare_entry("Mapping Q Degree", "1", Patterns::Integer());
+  prm.declare_entry("Mapping Q Degree", "1", Patterns::Integer(1));
 
   prm.declare_entry("Continuos gradient across edges",
                     "true",
@@ -506,7 +506,7 @@ BEMProblem<dim>::declare_parameters(ParameterHandler &prm)
     prm.declare_entry("Finite Element type",
                       "FEQ",
                       Patterns::Selection("FEQ|FEDGQ"));
-    prm.declare_entry("Finite element order", "1", Patterns::Integer());
+    prm.declare_entry("Finite element order", "1", Patterns::Integer(1));
   }
   prm.leave_subsection();
 
@@ -515,15 +515,15 @@ BEMProblem<dim>::declare_parameters(ParameterHandler &prm)
     prm.declare_entry("Finite Element type",
                       "FEQ",
                       Patterns::Selection("FEQ|FEDGQ"));
-    prm.declare_entry("Finite element order", "1", Patterns::Integer());
+    prm.declare_entry("Finite element order", "1", Patterns::Integer(1));
   }
   prm.leave_subsection();
 
 
   prm.enter_subsection("Grid Refinement");
   {
-    prm.declare_entry("Coarsening threshold", "0.03", Patterns::Double());
-    prm.declare_entry("Refinement threshold", "0.3", Patterns::Double());
+    prm.declare_entry("Coarsening threshold", "0.03", Patterns::Double(0., 1.));
+    prm.declare_entry("Refinement threshold", "0.3", Patterns::Double(0., 1.));
   }
   prm.leave_subsection();
 }
diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index e82f931..b147635 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -82,30 +82,30 @@ ComputationalDomain<dim>::declare_parameters(ParameterHandler &prm)
 
   prm.declare_entry("Input path to CAD files", "./", Patterns::Anything());
 
-  prm.declare_entry("Number of cycles", "2", Patterns::Integer());
+  prm.declare_entry("Number of cycles", "2", Patterns::Integer(0));
 
-  prm.declare_entry("Max aspect ratio", "3.5", Patterns::Double());
+  prm.declare_entry("Max aspect ratio", "3.5", Patterns::Double(1.));
 
   prm.declare_entry("Use iges surfaces and curves", "false", Patterns::Bool());
 
   prm.declare_entry("Cad tolerance to projectors tolerance ratio",
                     "100",
-                    Patterns::Double());
+                    Patterns::Double(0.));
 
   prm.declare_entry("Surface curvature adaptive refinement",
                     "false",
                     Patterns::Bool());
 
-  prm.declare_entry("Cells per circle", "12", Patterns::Double());
+  prm.declare_entry("Cells per circle", "12", Patterns::Double(0.));
 
   prm.declare_entry("Maximum number of curvature adaptive refinement cycles",
                     "5",
-                    Patterns::Integer());
+                    Patterns::Integer(0));
 
   prm.declare_entry(
     "Number of global refinement to be executed before local refinement cycle",
     "0",
-    Patterns::Integer());
+    Patterns::Integer(0));
 
   prm.enter_subsection("Boundary Conditions ID Numbers");
   {
-- 
2.43.0


From 04d2c5b97d925ee6365332c82eb9d515e7d59a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 24/33] fix: an unknown grid format is an error in release mode
 too (the run crashed on an empty mesh)

---
 source/computational_domain.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index b147635..5b1abd0 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -253,7 +253,9 @@ ComputationalDomain<dim>::read_domain()
   else if (input_grid_format == "inp")
     gi.read_ucd(in, true);
   else
-    Assert(false, ExcNotImplemented());
+    AssertThrow(false,
+                ExcMessage("Unknown input grid format '" + input_grid_format +
+                           "': the supported ones are inp, msh and vtk"));
 
   // GridTools::copy_material_to_manifold_id(tria);
 
-- 
2.43.0


From 6a74d8f9d2911f95c56bcce5bae92964eba61ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 25/33] fix: spheroid axes must be positive (a negative one
 turned the surface inside out)

---
 source/computational_domain.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 5b1abd0..4000bcb 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -152,6 +152,9 @@ ComputationalDomain<dim>::parse_parameters(ParameterHandler &prm)
   spheroid_x_axis = prm.get_double("Axis x dimension");
   spheroid_y_axis = prm.get_double("Axis y dimension");
   spheroid_z_axis = prm.get_double("Axis z dimension");
+  AssertThrow(!spheroid_bool || (spheroid_x_axis > 0. && spheroid_y_axis > 0. &&
+                                 (dim == 2 || spheroid_z_axis > 0.)),
+              ExcMessage("The axes of a spheroid must be positive"));
 
   prm.enter_subsection("Boundary Conditions ID Numbers");
   {
-- 
2.43.0


From 05c4beb2c353f32722a17ccc0e991108fe7fc6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 26/33] fix: refuse empty quadrature rules, and rules the
 accelerated solver does not use

---
 source/bem_problem.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index ae62bd1..5bb104a 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -548,6 +548,11 @@ BEMProblem<dim>::parse_parameters(ParameterHandler &prm)
                                       prm.get_integer("Quadrature order")));
     quadrature_order          = prm.get_integer("Quadrature order");
     singular_quadrature_order = prm.get_integer("Singular quadrature order");
+    AssertThrow(quadrature->size() > 0,
+                ExcMessage("The quadrature order must be positive"));
+    AssertThrow(solution_method != "FMA" ||
+                  prm.get("Quadrature type") == "gauss",
+                ExcMessage("FMA only works with gauss quadrature rules"));
   }
   prm.leave_subsection();
 
-- 
2.43.0


From db273b6d642317403ea869069663276dae0fa9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 27/33] fix: refuse coarsening and refinement fractions of more
 than all cells

---
 source/bem_problem.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 5bb104a..f91a5bb 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -579,6 +579,9 @@ BEMProblem<dim>::parse_parameters(ParameterHandler &prm)
   {
     coarsening_threshold = prm.get_double("Coarsening threshold");
     refinement_threshold = prm.get_double("Refinement threshold");
+    AssertThrow(coarsening_threshold + refinement_threshold <= 1. + 1e-10,
+                ExcMessage("The coarsening and refinement thresholds are "
+                           "fractions of the cells: their sum exceeds one"));
   }
   prm.leave_subsection();
 }
-- 
2.43.0


From 0d15c5f2e7dde3e75a319596441b3632cd46404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 28/33] fix: refuse a number of threads that is not positive
 (the run aborted)

---
 source/main.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/main.cc b/source/main.cc
index c535bd6..4938079 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -11,7 +11,12 @@ main(int argc, char *argv[])
       if (argc == 1)
         threads = numbers::invalid_unsigned_int;
       else
-        threads = atoi(argv[1]);
+        {
+          const int n = atoi(argv[1]);
+          AssertThrow(n > 0,
+                      ExcMessage("The number of threads must be positive"));
+          threads = n;
+        }
       Utilities::MPI::MPI_InitFinalize mpi_initialization(argc, argv, threads);
 
       std::string pname =
-- 
2.43.0


From edd5ad3a45a73b59ecb58fd250a618bd5f59512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 29/33] fix: the list of octree blocks had no room for blocks
 holding only nodes (heap overflow for rules with few points)

---
 source/bem_fma.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 3a7c5bd..14dd6c6 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3901,9 +3901,11 @@ BEMFMA<dim>::generate_octree_blocking()
         delete blocks[ii];
     }
 
+  // besides the root, every block holds a node or a quadrature point
   types::global_dof_index maxNumBlocks =
-    num_octree_levels * fma_dh->get_triangulation().n_active_cells() *
-    fe_v.n_quadrature_points;
+    1 + num_octree_levels * (fma_dh->n_dofs() +
+                             fma_dh->get_triangulation().n_active_cells() *
+                               fe_v.n_quadrature_points);
   // unsigned int maxNumBlocks = 0;
   // for (unsigned int ii = 0; ii < num_octree_levels + 1;  ii++)
   //  {
-- 
2.43.0


From a26b6cc4b90b42ce6e6c03f2b4d356d7c7fe21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:56 +0000
Subject: [PATCH 30/33] fix: refuse singular rules that are left without points
 (nodes at the middle of cells, order one)

---
 source/bem_fma.cc     | 10 +++++++---
 source/bem_problem.cc |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 14dd6c6..5e7d310 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -152,9 +152,13 @@ BEMFMA<dim>::direct_integrals()
   // contributions among nodes on the same block.
   std::vector<QTelles<dim - 1>> sing_quadratures;
   for (unsigned int i = 0; i < fma_dh->get_fe().dofs_per_cell; ++i)
-    sing_quadratures.push_back(
-      QTelles<dim - 1>(singular_quadrature_order,
-                       fma_dh->get_fe().get_unit_support_points()[i]));
+    {
+      sing_quadratures.push_back(
+        QTelles<dim - 1>(singular_quadrature_order,
+                         fma_dh->get_fe().get_unit_support_points()[i]));
+      AssertThrow(sing_quadratures.back().size() > 0,
+                  ExcMessage("The singular quadrature order is too low"));
+    }
   const types::global_dof_index dofs_per_cell = fma_dh->get_fe().dofs_per_cell;
 
   // vector containing the ids of the dofs
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index f91a5bb..4e4383f 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -459,6 +459,8 @@ BEMProblem<2>::get_singular_quadrature(const unsigned int index) const
       {
         quadratures.push_back(QTelles<1>(singular_quadrature_order,
                                          fe->get_unit_support_points()[i]));
+        AssertThrow(quadratures.back().size() > 0,
+                    ExcMessage("The singular quadrature order is too low"));
       }
   return quadratures[index];
 }
-- 
2.43.0


From 700348003df9a81b65d1c45cfaa97f6b3ba89a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:34 +0000
Subject: [PATCH 31/33] fix: compare the points of the mesh relative to its
 extent

Two nodes or vertices were taken for one when nearer than a fixed length: on
meshes with a small extent distinct vertices of the edges were merged (and the
edges wrongly refined), on meshes with a large extent coinciding nodes, apart
only by rounding, were not recognised.
---
 include/computational_domain.h |  4 ++++
 source/bem_problem.cc          |  2 +-
 source/computational_domain.cc | 13 +++++++++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/computational_domain.h b/include/computational_domain.h
index d6f66e9..310e5f8 100644
--- a/include/computational_domain.h
+++ b/include/computational_domain.h
@@ -191,6 +191,10 @@ public:
 
   void
   compute_double_vertex_cache();
+
+  /// extent of the mesh: the points of the mesh are compared relative to it.
+  double
+  mesh_extent() const;
   // const unsigned int fe_degree;
   // const unsigned int mapping_degree;
 
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 4e4383f..c1109ce 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -703,7 +703,7 @@ template <int dim>
 void
 BEMProblem<dim>::compute_double_nodes_set()
 {
-  double tol = 1e-10;
+  double tol = 1e-10 * comp_dom.mesh_extent();
   double_nodes_set.clear();
   double_nodes_set.resize(dh.n_dofs());
   std::vector<Point<dim>> support_points(dh.n_dofs());
diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 4000bcb..bd58eda 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -1027,7 +1027,7 @@ ComputationalDomain<dim>::make_edges_conformal(
           types::global_dof_index n_vertex     = tria.n_vertices();
           auto                    all_vertices = tria.get_vertices();
 
-          double tol = 1e-7;
+          double tol = 1e-7 * mesh_extent();
 
           to_restore = false;
           pcout << to_restore << std::endl;
@@ -1127,12 +1127,21 @@ ComputationalDomain<dim>::make_edges_conformal(
     }
 }
 
+template <int dim>
+double
+ComputationalDomain<dim>::mesh_extent() const
+{
+  const auto [min, max] =
+    GridTools::compute_bounding_box(tria).get_boundary_points();
+  return min.distance(max);
+}
+
 template <int dim>
 void
 ComputationalDomain<dim>::compute_double_vertex_cache()
 {
   pcout << "Computing infos for the double_vertex" << std::endl;
-  double toll = 1e-7;
+  double toll = 1e-7 * mesh_extent();
   double_vertex_vector.clear();
   types::global_dof_index n_vertex = tria.n_vertices();
   double_vertex_vector.resize(n_vertex);
-- 
2.43.0


From 97e320b64c7a6c3d4345152ca7327ae4ca4a0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 32/33] fix: reset the hypersingular free term before
 accumulating it

Every solve calls compute_hypersingular_free_coeffs, which adds to b_i what
reinit() last cleared: after a second solve without reinit() the free terms
were doubled and compute_gradients_hypersingular returned wrong gradients.
---
 source/bem_problem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index c1109ce..c2ed9f1 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1512,6 +1512,8 @@ BEMProblem<dim>::compute_hypersingular_free_coeffs()
   // the portion of integral that gives the contribution of each cell to the
   // free coefficient of its DOFS
   pcout << "Computing vector b_i" << std::endl;
+  for (unsigned int d = 0; d < dim; ++d)
+    b_i[d] = 0;
   std::vector<Tensor<1, dim>> free_term_b_all(dh.n_dofs());
 
   // we initialize an FEValues
-- 
2.43.0


From cc037f8cf422634a2de3cc0eedc7bb7dacc03109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:47 +0000
Subject: [PATCH 33/33] fix: integrate singular cells of nodes that coincide on
 sides with hanging nodes

---
 include/bem_problem.h |  3 +++
 source/bem_problem.cc | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/bem_problem.h b/include/bem_problem.h
index d925ea7..2162226 100644
--- a/include/bem_problem.h
+++ b/include/bem_problem.h
@@ -329,6 +329,9 @@ public:
   /// freedom of its gradient (a vector field)
 
   std::vector<std::set<types::global_dof_index>> double_nodes_set;
+  /// the double nodes and the nodes coinciding on the sides with hanging nodes:
+  /// the nodes whose cells contain the same point
+  std::vector<std::set<types::global_dof_index>> coincident_nodes_set;
   std::vector<std::set<types::global_dof_index>> gradient_double_nodes_set;
 
 
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index c2ed9f1..c3ac52c 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -362,7 +362,7 @@ BEMProblem<dim>::reinit()
   compute_double_nodes_set();
 
   fma.init_fma(dh,
-               double_nodes_set,
+               coincident_nodes_set,
                dirichlet_nodes,
                *mapping,
                quadrature_order,
@@ -744,6 +744,29 @@ BEMProblem<dim>::compute_double_nodes_set()
             }
         }
     }
+
+  // the nodes inside a side with hanging nodes coincide with nodes of its
+  // children: no condition has to be imposed between them, but they share the
+  // cells on which their integrals are singular
+  coincident_nodes_set = double_nodes_set;
+  for (cell = dh.begin_active(); cell != endc; ++cell)
+    for (unsigned int f = 0; f < GeometryInfo<dim - 1>::faces_per_cell; ++f)
+      if (cell->face(f)->has_children())
+        {
+          cell->face(f)->get_dof_indices(face_dofs);
+          const std::vector<types::global_dof_index> parent_dofs(face_dofs);
+          for (unsigned int c = 0; c < cell->face(f)->n_children(); ++c)
+            {
+              cell->face(f)->child(c)->get_dof_indices(face_dofs);
+              for (auto i : parent_dofs)
+                for (auto j : face_dofs)
+                  if (support_points[i].distance(support_points[j]) < tol)
+                    {
+                      coincident_nodes_set[i].insert(j);
+                      coincident_nodes_set[j].insert(i);
+                    }
+            }
+        }
 }
 
 template <int dim>
@@ -884,7 +907,7 @@ BEMProblem<dim>::assemble_system()
 
               for (unsigned int j = 0; j < fe->dofs_per_cell; ++j)
                 // if(local_dof_indices[j] == i)
-                if (double_nodes_set[i].count(local_dof_indices[j]) > 0)
+                if (coincident_nodes_set[i].count(local_dof_indices[j]) > 0)
                   {
                     singular_index = j;
                     is_singular    = true;
@@ -1313,7 +1336,7 @@ BEMProblem<dim>::compute_hypersingular_free_coeffs()
               for (unsigned int i_loc = 0; i_loc < fe->dofs_per_cell; ++i_loc)
                 {
                   std::set<types::global_dof_index> doubles =
-                    double_nodes_set[local_dof_indices[i_loc]];
+                    coincident_nodes_set[local_dof_indices[i_loc]];
                   for (std::set<types::global_dof_index>::iterator it =
                          doubles.begin();
                        it != doubles.end();
@@ -1555,7 +1578,7 @@ BEMProblem<dim>::compute_hypersingular_free_coeffs()
               Tensor<1, dim>              b =
                 singular_kernel_integrator.evaluate_free_term_b();
               std::set<types::global_dof_index> doubles =
-                double_nodes_set[global_id];
+                coincident_nodes_set[global_id];
               for (std::set<types::global_dof_index>::iterator it =
                      doubles.begin();
                    it != doubles.end();
@@ -2719,7 +2742,7 @@ BEMProblem<dim>::compute_gradients_hypersingular(
 
               for (unsigned int j = 0; j < fe->dofs_per_cell; ++j)
                 // if(local_dof_indices[j] == i)
-                if (double_nodes_set[i].count(local_dof_indices[j]) > 0)
+                if (coincident_nodes_set[i].count(local_dof_indices[j]) > 0)
                   {
                     singular_index = j;
                     is_singular    = true;
-- 
2.43.0

