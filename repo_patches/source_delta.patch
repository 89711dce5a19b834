From e4a3c54d1489c65ea862bd9e0a24510c9701d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:26 +0000
Subject: [PATCH 01/12] fix: read the cosmology parameters under the names
 every other component uses

The end-time correction and the particle_grid initial conditions read
cosmology/omegam and cosmology/omegav as mandatory settings while
CosmoManager reads omega_m and omega_v, so the two could disagree and a
run configured for CosmoManager alone aborted.
---
 core/src/DyabloTimeLoop.h                         | 4 ++--
 core/src/init/InitialConditions_grafic_fields.cpp | 4 ++--
 core/src/init/InitialConditions_particle_grid.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 3c6a3fd..6624299 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -126,8 +126,8 @@ public:
     if( t_end_var == "aexp" )
     {
       this->t_end_epsilon = 2e-8; // This is related to romberg precision in CosmoManager
-      this->omega_m = configMap.getValue<real_t>( "cosmology", "omegam" );
-      this->omega_v = configMap.getValue<real_t>( "cosmology", "omegav" );
+      this->omega_m = configMap.getValue<real_t>( "cosmology", "omega_m", 0.3 );
+      this->omega_v = configMap.getValue<real_t>( "cosmology", "omega_v", 0.7 );
     }
     else if( t_end_var != "time" ) 
       std::cout << "WARNING : can't correct dt to match t_end, possible overshoot. var=" << t_end_var << std::endl;
diff --git a/core/src/init/InitialConditions_grafic_fields.cpp b/core/src/init/InitialConditions_grafic_fields.cpp
index 910fa7d..c183e61 100644
--- a/core/src/init/InitialConditions_grafic_fields.cpp
+++ b/core/src/init/InitialConditions_grafic_fields.cpp
@@ -90,8 +90,8 @@ public:
     this->astart = header.astart;
     set_or_check( "cosmology", "astart", header.astart );
     this->omegam = header.om;
-    set_or_check( "cosmology", "omegam", omegam );
-    set_or_check( "cosmology", "omegav", header.ov );
+    set_or_check( "cosmology", "omega_m", omegam );
+    set_or_check( "cosmology", "omega_v", header.ov );
     this->omegab = configMap.getValue<real_t>("cosmology", "omegab", 0.049);
 
     using namespace Units;
diff --git a/core/src/init/InitialConditions_particle_grid.cpp b/core/src/init/InitialConditions_particle_grid.cpp
index 81ef377..109051f 100644
--- a/core/src/init/InitialConditions_particle_grid.cpp
+++ b/core/src/init/InitialConditions_particle_grid.cpp
@@ -54,9 +54,9 @@ public:
     if( cosmo )
     {
       real_t astart = configMap.getValue<real_t>( "cosmology", "astart" );
-      real_t omegam = configMap.getValue<real_t>( "cosmology", "omegam" );
+      real_t omegam = configMap.getValue<real_t>( "cosmology", "omega_m", 0.3 );
       real_t omegab = configMap.getValue<real_t>( "cosmology", "omegab" );
-      real_t omegav = configMap.getValue<real_t>( "cosmology", "omegav" );
+      real_t omegav = configMap.getValue<real_t>( "cosmology", "omega_v", 0.7 );
       
       real_t omegak = 1.0 - omegam - omegav;
       real_t eta    = sqrt(omegam / astart + omegav * astart * astart + omegak);
-- 
2.43.0


From 47565a16fbe98eb7d37516a0d428b7bf0c18c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 02/12] fix: initialise ConfigMap::print_config before the
 constructor reads it

The constructor calls getValue("ini","print_config"), which tests
print_config before it was ever assigned.
---
 core/src/utils/config/ConfigMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/utils/config/ConfigMap.h b/core/src/utils/config/ConfigMap.h
index fa1d8e7..ee2e46f 100644
--- a/core/src/utils/config/ConfigMap.h
+++ b/core/src/utils/config/ConfigMap.h
@@ -383,7 +383,7 @@ protected:
     bool used = false;
   };
 
-  bool print_config;
+  bool print_config = false;
 
   std::map<std::string, std::map< std::string, value_container> > _values;
   static int valueHandler( void* user, const char* section_cstr, const char* name_cstr,
-- 
2.43.0


From fb8df22f2ae745b76c72cca17990add2ea57cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 03/12] fix: apply the min boundary type at the min side and
 the max type at the max side

---
 core/src/boundary_conditions/BoundaryConditions.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index 3a5c29c..ef3a9c7 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -81,13 +81,13 @@ public:
     res = ref;
 
     // X dir
-    if (offset[IX] > 0) {
+    if (offset[IX] < 0) {
       if (bc_min[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_min[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
-    else if (offset[IX] < 0) {
+    else if (offset[IX] > 0) {
       if (bc_max[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_max[IX] == BC_USER)
@@ -95,13 +95,13 @@ public:
     }
 
     // Y dir
-    if (offset[IY] > 0) {
+    if (offset[IY] < 0) {
       if (bc_min[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_min[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
-    else if (offset[IY] < 0) {
+    else if (offset[IY] > 0) {
       if (bc_max[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_max[IY] == BC_USER)
@@ -110,13 +110,13 @@ public:
 
     // Z dir
     if (ndim == 3) {
-      if (offset[IZ] > 0) {
+      if (offset[IZ] < 0) {
         if (bc_min[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_min[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       }
-      else if (offset[IZ] < 0) {
+      else if (offset[IZ] > 0) {
         if (bc_max[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_max[IZ] == BC_USER)
-- 
2.43.0


From b1f170dbffda6e7b78763d3575069d507381b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 04/12] fix: hancock_oneneighbor overrides the user boundary
 flux on the side it was set for

---
 core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
index bf9abe8..958c0a8 100644
--- a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
+++ b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
@@ -290,10 +290,10 @@ void compute_fluxes_and_update( const FieldArray& Uin, const FieldArray& Uout, c
       PrimState qr_n = consToPrim<ndim>(ur_n, params.gamma0);
       ConsState flux = riemann(qr_c, qr_n, dir, sign);
 
-      if (sign == 1 && bc_manager.bc_min[dir] == BC_USER)
-        flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, true);
-      else if (sign == -1 && bc_manager.bc_max[dir] == BC_USER)
+      if (sign == 1 && bc_manager.bc_max[dir] == BC_USER)
         flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, false);
+      else if (sign == -1 && bc_manager.bc_min[dir] == BC_USER)
+        flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, true);
         
       // +- dS / dV 
       real_t scale = -sign * dt / cell_size[dir];     
-- 
2.43.0


From 9f4a406049149de8e81e5e9b6f67d2ab96801e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 05/12] fix: do not scale the two-dimensional viscous terms
 with the cell size along z

---
 core/src/parabolic/ParabolicTerm_viscosity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_viscosity.h b/core/src/parabolic/ParabolicTerm_viscosity.h
index 76bec7f..22f7968 100644
--- a/core/src/parabolic/ParabolicTerm_viscosity.h
+++ b/core/src/parabolic/ParabolicTerm_viscosity.h
@@ -136,7 +136,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IY] * size[IZ];
+        real_t area = size[IY] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xx;
         vf.rho_v += sign * area * tau_xy;
         vf.rho_w += sign * area * tau_xz;
@@ -176,7 +176,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IX] * size[IZ];
+        real_t area = size[IX] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xy;
         vf.rho_v += sign * area * tau_yy;
         vf.rho_w += sign * area * tau_yz;
-- 
2.43.0


From f16dc69e3439adf037a3b09961928107118349c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 06/12] fix: split the CIC share of a particle among the
 smaller neighbours that exist across an edge or a corner

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 6 ++++--
 core/src/particles/ParticleUpdate_CIC_move.cpp    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 0fc978b..c5a9b64 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -98,10 +98,12 @@ public:
         else 
         {
           // Smaller : write to all smaller neighbors
-          //real_t volume_fraction_smaller = volume_fraction/(2*(ndim-1)); // Mass distributed accross neighbors
+          // There are 2^(ndim-1) smaller neighbors through a face, fewer through an edge or a corner
+          int nneighbors = (offset[IX]==0?2:1)*(offset[IY]==0?2:1)*((ndim==3 && offset[IZ]==0)?2:1);
+          //real_t volume_fraction_smaller = volume_fraction/nneighbors; // Mass distributed accross neighbors
           //real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ) // Volume 2^ndim times smaller
           //real_t rho_contrib_smaller = (part_mass * volume_fraction_smaller) / Vcell_smaller;
-          real_t rho_contrib = 2 * (part_mass * volume_fraction) / Vcell;
+          real_t rho_contrib = (part_mass * volume_fraction) / Vcell * ( 2*2*(ndim-1) ) / nneighbors;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 3c89bd0..4106b10 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -98,7 +98,8 @@ public:
         }
         else 
         {
-          int nneighbors = 2*(ndim-1);
+          // There are 2^(ndim-1) smaller neighbors through a face, fewer through an edge or a corner
+          int nneighbors = (offset[IX]==0?2:1)*(offset[IY]==0?2:1)*((ndim==3 && offset[IZ]==0)?2:1);
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
-- 
2.43.0


From 655fc64b5b2fbf1ea7eba1c4a07c96851b3501de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 07/12] fix: start the markers of the second derivative
 criterion from COARSEN so that octants can be coarsened

---
 .../refine_condition/RefineCondition_second_derivative_error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
index 446e2b4..eca8f2c 100644
--- a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
+++ b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
@@ -117,6 +117,7 @@ public:
 
     uint32_t nbOcts = foreach_cell.get_amr_mesh().getNumOctants();
     Kokkos::View<int*> oct_marker_max("Oct_marker_max", nbOcts);
+    Kokkos::deep_copy( oct_marker_max, RefineCondition::COARSEN );
 
     const UserData::FieldAccessor Uin = Uin_.getAccessor( ConsState::getFieldsInfo() );
 
-- 
2.43.0


From 81d9662baeabd7afc2f7604c7cc5a072def1d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 08/12] fix: match fields by name when they are exchanged for
 load balancing

---
 core/src/UserData_fields.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index f03dbc4..751ba4b 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -280,16 +280,19 @@ inline void UserData_fields::exchange_loadbalance( const ViewCommunicator& ghost
     {  
         UserData_fields::FieldAccessor fields_old = this->backup_and_realloc();
         int nb_fields = this->nbFields();
-        auto old_fields_View = Kokkos::subview( fields_old.fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        auto new_fields_View = Kokkos::subview(this->fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
+        // backup_and_realloc() reorders fields : gather old fields in the new order
+        const DataArrayBlock& U_old = fields_old.fields.U;
+        DataArrayBlock old_fields_View( "old_fields", U_old.extent(0), nb_fields, U_old.extent(2) );
+        for( int i=0; i<nb_fields; i++ )
+        {
+            int i_old = fields_old.fm_active[i];
+            Kokkos::deep_copy( 
+                Kokkos::subview( old_fields_View, Kokkos::ALL(), std::make_pair(i, i+1), Kokkos::ALL() ),
+                Kokkos::subview( U_old, Kokkos::ALL(), std::make_pair(i_old, i_old+1), Kokkos::ALL() )
+            );
+        }
         
-        ghost_comm.exchange_ghosts<2>(old_fields_View, new_fields_View );
+        ghost_comm.exchange_ghosts<2>( old_fields_View, this->fields.U );
     }// This block is important to deallocate fields_old before extend_fields()
 
     this->extend_fields();
-- 
2.43.0


From e8c1e756dff28afc91b75ff41b66b63c3c169651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:41 +0000
Subject: [PATCH 09/12] fix: copy the allocated columns when a particle
 attribute is added after one was deleted

---
 core/src/UserData_particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 3995418..7a8507e 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -42,7 +42,7 @@ public:
             int nb_new_attributes = 1;
             int needed_attr_count = nbAttributes() + nb_new_attributes;
             this->max_particle_count = std::max( this->max_particle_count, needed_attr_count );
-            int allocated_attr_count = nbAttributes();
+            int allocated_attr_count = particles.nbfields();
             if( needed_attr_count > allocated_attr_count )
             {
                 ParticleData particles_new( particles, FieldManager(needed_attr_count) );
-- 
2.43.0


From 15f527809100deaf42b5d5515fd6dae151578968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:18 +0000
Subject: [PATCH 10/12] fix: use signed levels in the 2:1 rule so that octants
 can be merged to level 0

---
 core/src/amr/AMRmesh_hashmap_new.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index d4fac06..20ba164 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -721,7 +721,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     // return true if marker was modified, false otherwise
     auto check_21_cell = KOKKOS_LAMBDA( oct_index_t iOct )
     {
-      level_t level_current = lmesh.getLevel({iOct, false});
+      int level_current = lmesh.getLevel({iOct, false});
       int marker_current = getMarker( {iOct, false} );
       int marker_old = marker_current;
 
@@ -744,7 +744,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         {
           auto ns = lmesh.findNeighbors({iOct, false},{(int8_t)(sx*x),(int8_t)(sy*y),(int8_t)(sz*z)});
           DYABLO_ASSERT_KOKKOS_DEBUG(ns.size()>0, "Siblings can't be outside domain");
-          level_t level_siblings = lmesh.getLevel( ns[0] );
+          int level_siblings = lmesh.getLevel( ns[0] );
           DYABLO_ASSERT_KOKKOS_DEBUG( level_siblings >= level_current, "Siblings cannot be coarser");
 
           int marker_siblings = getMarker( ns[0] );
@@ -764,7 +764,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         auto ns = lmesh.findNeighbors({iOct,false}, {nx,ny,nz});
         for(int n=0; n<ns.size(); n++)
         {
-          level_t level_neighbor = lmesh.getLevel(ns[n]);
+          int level_neighbor = lmesh.getLevel(ns[n]);
           int maker_neighbor = getMarker( ns[n] );
           // If current marker violates 2:1 (too coarse compared to neighbors)
           if( level_current+marker_current < level_neighbor+maker_neighbor-1 )
-- 
2.43.0


From 45cc386ede245e5148d6e6a845852bc02ba63e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:18 +0000
Subject: [PATCH 11/12] fix: ranks left without octants after adaptation

---
 core/src/amr/AMRmesh_hashmap_new.cpp | 2 +-
 core/src/amr/LightOctree_hashmap.h   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index 20ba164..fa3b343 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -909,7 +909,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     std::vector<morton_t> morton_intervals(mpi_size+1);
     {
       morton_t morton_interval_begin;
-      if( storage.getNumOctants() != 0 )
+      if( new_nbOcts != 0 )
       {
         Kokkos::View<morton_t> morton_interval_begin_device("morton_interval_begin");
         Kokkos::parallel_for( "adapt:compute_morton", 1, KOKKOS_LAMBDA(int)
diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 79b987a..9c7c4af 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -47,7 +47,8 @@ public:
         private_init();
 
         // TODO use logical coords directly or even morton_intervals from AMRmesh
-        morton_t first_morton;
+        morton_t first_morton = 0;
+        if( pmesh->getNumOctants() != 0 )
         {
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
@@ -63,6 +64,9 @@ public:
         auto morton_intervals_host = Kokkos::create_mirror_view( morton_intervals );
         pmesh->getMpiComm().MPI_Allgather( &first_morton, morton_intervals_host.data(), 1 );
         morton_intervals_host(morton_intervals_host.size()-1) = uint64_t(-1);
+        for( int rank=morton_intervals_host.size()-2; rank>0; rank-- )
+            if( morton_intervals_host(rank) == 0 ) // rank is empty
+                morton_intervals_host(rank) = morton_intervals_host(rank+1);
         Kokkos::deep_copy(morton_intervals, morton_intervals_host);
 
     }
-- 
2.43.0


From 65b4ba8ff16467214602d70054ab12b9d178f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:18 +0000
Subject: [PATCH 12/12] fix: compute the Morton intervals of ranks from the
 size of octants on coarse grids that are not powers of two

---
 core/src/amr/LightOctree_hashmap.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 9c7c4af..2d41efd 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -53,11 +53,9 @@ public:
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
             index_t<3> logical_coords;
-            uint32_t octant_count = std::pow(2, max_level );
-            real_t octant_size = 1.0/octant_count;
-            logical_coords[IX] = std::floor(pos[IX]/octant_size);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size);
+            logical_coords[IX] = std::round(pos[IX]*this->storage.cell_count(IX, max_level));
+            logical_coords[IY] = std::round(pos[IY]*this->storage.cell_count(IY, max_level));
+            logical_coords[IZ] = (ndim-2)*std::round(pos[IZ]*this->storage.cell_count(IZ, max_level));
 
             first_morton = compute_morton_key( logical_coords );
         }
-- 
2.43.0

