From c2a14808d0bdf950dab43709bb5494f205b016b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:33 +0000
Subject: [PATCH 01/66] fix: keep the local lower bound of a single tile in
 set_tile_split_for_species

With one tile along an axis the last-tile block overwrote the lower bound of
the first tile with xminlocal-dx/2, so particles less than half a cell below
the domain were never exchanged.
---
 src/parallelization/tiling/tiling.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index f291bbd..846417a 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -181,7 +181,7 @@ MODULE tiling
               curr%x_grid_tile_max=curr%x_grid_tile_min+curr%nx_cells_tile*dx
               curr%nx_tile_min = (ix-1)*nx0_grid_tile
               curr%nx_tile_max = curr%nx_tile_min+curr%nx_cells_tile
-              curr%x_tile_min= curr%x_grid_tile_min-dx/2.0_num
+              IF (ntx .GT. 1) curr%x_tile_min= curr%x_grid_tile_min-dx/2.0_num
               curr%x_tile_max= xmaxlocal
             ENDIF
             !------------- Y- DIRECTION
@@ -216,7 +216,7 @@ MODULE tiling
               curr%y_grid_tile_max=curr%y_grid_tile_min+curr%ny_cells_tile*dy
               curr%ny_tile_min = (iy-1)*ny0_grid_tile
               curr%ny_tile_max = curr%ny_tile_min+curr%ny_cells_tile
-              curr%y_tile_min= curr%y_grid_tile_min-dy/2.0_num
+              IF (nty .GT. 1) curr%y_tile_min= curr%y_grid_tile_min-dy/2.0_num
               curr%y_tile_max= ymaxlocal
             ENDIF
             !------------- Z- DIRECTION
@@ -251,7 +251,7 @@ MODULE tiling
               curr%z_grid_tile_max=curr%z_grid_tile_min+curr%nz_cells_tile*dz
               curr%nz_tile_min = (iz-1)*nz0_grid_tile
               curr%nz_tile_max = curr%nz_tile_min+curr%nz_cells_tile
-              curr%z_tile_min= curr%z_grid_tile_min-dz/2.0_num
+              IF (ntz .GT. 1) curr%z_tile_min= curr%z_grid_tile_min-dz/2.0_num
               curr%z_tile_max= zmaxlocal
             ENDIF
           END DO
-- 
2.43.0


From 269f7f6a5cb6daf34654ac4cd28ac4425d9d5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:33 +0000
Subject: [PATCH 02/66] fix: upper absorbing and reinjecting particle
 boundaries without an offset

The upper particle boundary of the last rank coincides with its local upper
bound when the offset is zero: the strict test left x_max_boundary_part false
on every rank and the boundary condition was never applied.
---
 src/parallelization/mpi/mpi_routines.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parallelization/mpi/mpi_routines.F90 b/src/parallelization/mpi/mpi_routines.F90
index 03b704b..5552396 100644
--- a/src/parallelization/mpi/mpi_routines.F90
+++ b/src/parallelization/mpi/mpi_routines.F90
@@ -1614,7 +1614,7 @@ ENDIF
 ! -- Xmax
 IF  ((pbound_x_max .EQ. 3) .OR. (pbound_x_max .EQ. 1)) THEN
   xmax_part=xmax+offset_grid_part_x_max
-  IF ((xmax_part .GE. x_min_local) .AND. (xmax_part .LT. x_max_local)) THEN
+  IF ((xmax_part .GT. x_min_local) .AND. (xmax_part .LE. x_max_local)) THEN
     x_max_boundary_part= .TRUE.
     x_max_local_part = xmax_part
   ELSE
@@ -1644,7 +1644,7 @@ ENDIF
 ! -- Ymax
 IF  ((pbound_y_max .EQ. 3) .OR. (pbound_y_max .EQ. 1)) THEN
   ymax_part=ymax+offset_grid_part_y_max
-  IF ((ymax_part .GE. y_min_local) .AND. (ymax_part .LT. y_max_local)) THEN
+  IF ((ymax_part .GT. y_min_local) .AND. (ymax_part .LE. y_max_local)) THEN
     y_max_boundary_part= .TRUE.
     y_max_local_part = ymax_part
   ELSE
@@ -1674,7 +1674,7 @@ ENDIF
 ! -- zmax
 IF  ((pbound_z_max .EQ. 3) .OR. (pbound_z_max .EQ. 1)) THEN
   zmax_part=zmax+offset_grid_part_z_max
-  IF ((zmax_part .GE. z_min_local) .AND. (zmax_part .LT. z_max_local)) THEN
+  IF ((zmax_part .GT. z_min_local) .AND. (zmax_part .LE. z_max_local)) THEN
     z_max_boundary_part= .TRUE.
     z_max_local_part = zmax_part
   ELSE
-- 
2.43.0


From 550ef0ffd0b9a8c7f13759cdebc0256c4e1c81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:56 +0000
Subject: [PATCH 03/66] fix: count of particles per species after the combined
 tile and MPI exchange

particle_bcs_tiles_and_mpi_3d added the received particles to species_npart but
never subtracted those sent to a neighbour or absorbed, so the counter drifted.
---
 src/boundary_conditions/particle_boundaries.F90 | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 7ef2eca..4147245 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -2963,11 +2963,18 @@ IF (nrecv_buf_tot.gt.0) THEN
   ENDDO
   !!$OMP END PARALLEL DO
 
-  ! Update total number of particle species
-  curr%species_npart=curr%species_npart+nrecv_buf_tot
-
 ENDIF
 
+! Update total number of particle species: particles have also left this domain
+curr%species_npart=0
+DO iz=1, ntilez
+  DO iy=1, ntiley
+    DO ix=1, ntilex
+      curr%species_npart=curr%species_npart+curr%array_of_tiles(ix, iy, iz)%np_tile(1)
+    ENDDO
+  ENDDO
+ENDDO
+
 DEALLOCATE(recvbuf)
 
 ENDDO
-- 
2.43.0


From 8ad3a7cac2e17c791a8df67857042ec6fc4f2753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:17 +0000
Subject: [PATCH 04/66] fix: particle boundaries set inside a tile in the
 default particle exchange

particle_bcs_tiles_and_mpi_3d skipped every particle still within its tile, so
an absorbing or reinjecting boundary offset into the domain was not applied.
---
 src/boundary_conditions/particle_boundaries.F90 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 4147245..77590e6 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -2287,7 +2287,11 @@ DO is=1, nspecies
                 IF (((partx .GE. curr_tile%x_tile_min) .AND. (partx .LT.              &
                 curr_tile%x_tile_max)) .AND. ((party .GE. curr_tile%y_tile_min) .AND. &
                 (party .LT. curr_tile%y_tile_max)) .AND. ((partz .GE.                 &
-                curr_tile%z_tile_min) .AND. (partz .LT. curr_tile%z_tile_max))) CYCLE
+                curr_tile%z_tile_min) .AND. (partz .LT. curr_tile%z_tile_max)) .AND.  &
+                ((partx .GE. x_min_local_part) .AND. (partx .LT. x_max_local_part))   &
+                .AND. ((party .GE. y_min_local_part) .AND. (party .LT.                &
+                y_max_local_part)) .AND. ((partz .GE. z_min_local_part) .AND. (partz  &
+                .LT. z_max_local_part))) CYCLE
 
                 ! Case 2: if particle left MPI domain
                 IF (((partx .LT. x_min_local_part) .OR. (partx .GE.                   &
-- 
2.43.0


From b5b5793df9114faf93fa6f2ec30dd124f2da0596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:34 +0000
Subject: [PATCH 05/66] fix: reflecting particle boundaries in the default
 particle exchanges

particle_bcs_tiles_and_mpi_3d and particle_bcs_mpi_non_blocking_2d had no case
for reflecting boundaries and wrapped the particles as if they were periodic.
---
 .../particle_boundaries.F90                   | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 77590e6..c066838 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -1893,6 +1893,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_x(i) = part_xyz + dx
+              curr%part_ux(i) = - curr%part_ux(i)
+              xbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_x(i)=2.0_num*xmin_part-curr%part_x(i)
               curr%part_ux(i)=0.
@@ -1918,6 +1922,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_x(i) = part_xyz - dx
+              curr%part_ux(i) = - curr%part_ux(i)
+              xbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_x(i)= 2.0_num*xmax_part-curr%part_x(i)
               curr%part_ux(i)=0.
@@ -1945,6 +1953,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_z(i) = part_xyz + dz
+              curr%part_uz(i) = - curr%part_uz(i)
+              zbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_z(i)= 2.0_num*zmin_part-curr%part_z(i)
               curr%part_ux(i)=0.
@@ -1973,6 +1985,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_z(i) = part_xyz - dz
+              curr%part_uz(i) = - curr%part_uz(i)
+              zbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_z(i)= 2.0_num*zmax_part-curr%part_z(i)
               curr%part_ux(i)=0.
@@ -2283,6 +2299,41 @@ DO is=1, nspecies
                 gaminv=curr_tile%part_gaminv(i)
                 partpid=curr_tile%pid(i, 1:npid)
 
+                ! Reflecting boundaries: the particle goes back by one cell
+                IF (x_min_boundary_part .AND. (pbound_x_min .EQ. 2_idp) .AND.        &
+                (partx .LT. x_min_local_part)) THEN
+                  partx = partx + dx
+                  partux = -partux
+                ELSE IF (x_max_boundary_part .AND. (pbound_x_max .EQ. 2_idp) .AND.   &
+                (partx .GE. x_max_local_part)) THEN
+                  partx = partx - dx
+                  partux = -partux
+                ENDIF
+                IF (y_min_boundary_part .AND. (pbound_y_min .EQ. 2_idp) .AND.        &
+                (party .LT. y_min_local_part)) THEN
+                  party = party + dy
+                  partuy = -partuy
+                ELSE IF (y_max_boundary_part .AND. (pbound_y_max .EQ. 2_idp) .AND.   &
+                (party .GE. y_max_local_part)) THEN
+                  party = party - dy
+                  partuy = -partuy
+                ENDIF
+                IF (z_min_boundary_part .AND. (pbound_z_min .EQ. 2_idp) .AND.        &
+                (partz .LT. z_min_local_part)) THEN
+                  partz = partz + dz
+                  partuz = -partuz
+                ELSE IF (z_max_boundary_part .AND. (pbound_z_max .EQ. 2_idp) .AND.   &
+                (partz .GE. z_max_local_part)) THEN
+                  partz = partz - dz
+                  partuz = -partuz
+                ENDIF
+                curr_tile%part_x(i) = partx
+                curr_tile%part_y(i) = party
+                curr_tile%part_z(i) = partz
+                curr_tile%part_ux(i) = partux
+                curr_tile%part_uy(i) = partuy
+                curr_tile%part_uz(i) = partuz
+
                 ! Case 1: if particle did not leave tile nothing to do
                 IF (((partx .GE. curr_tile%x_tile_min) .AND. (partx .LT.              &
                 curr_tile%x_tile_max)) .AND. ((party .GE. curr_tile%y_tile_min) .AND. &
-- 
2.43.0


From 14df7f7f86f055f06f0aa7c821bf3ba3ff7e477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:59 +0000
Subject: [PATCH 06/66] fix: guard cell exchange with different guard cells for
 fields and currents

---
 src/boundary_conditions/field_boundaries.F90 | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/boundary_conditions/field_boundaries.F90 b/src/boundary_conditions/field_boundaries.F90
index 8fc75c0..3634144 100755
--- a/src/boundary_conditions/field_boundaries.F90
+++ b/src/boundary_conditions/field_boundaries.F90
@@ -92,6 +92,28 @@ MODULE field_boundary
 
   END SUBROUTINE field_bc
 
+  ! ______________________________________________________________________________________
+  !> @brief
+  !> Forgets the three cached derived types mpi_dtypes(first:first+2) of a guard cell
+  !> exchange when they were built for an array of another shape (fields and currents may
+  !> have different numbers of guard cells)
+  ! ______________________________________________________________________________________
+  SUBROUTINE refresh_guard_dtypes(first, sizes)
+    USE constants, ONLY: c_ndims
+    USE mpi
+    INTEGER(isp), INTENT(IN) :: first
+    INTEGER(idp), DIMENSION(c_ndims), INTENT(IN) :: sizes
+    INTEGER(idp), DIMENSION(c_ndims, 100), SAVE :: cached_sizes = 0_idp
+    INTEGER(isp) :: n
+
+    IF (ALL(cached_sizes(:, first) .EQ. sizes)) RETURN
+    DO n = first, first+2
+      IF (.NOT. is_dtype_init(n)) CALL MPI_TYPE_FREE(mpi_dtypes(n), errcode)
+      is_dtype_init(n) = .TRUE.
+    ENDDO
+    cached_sizes(:, first) = sizes
+  END SUBROUTINE refresh_guard_dtypes
+
   ! ______________________________________________________________________________________
   !> @brief
   !> Routine exchanging guard regions between subdomains
@@ -124,6 +146,7 @@ MODULE field_boundary
     sizes(2) = ny_local + 1 + 2 * nyg
     sizes(3) = nz_local + 1 + 2 * nzg
     starts = 1
+    CALL refresh_guard_dtypes(1_isp, sizes)
 
     szmax = sizes(1) * sizes(2) * (nzg+1)
     sz = sizes(1) * sizes(3) * (nyg+1)
@@ -297,6 +320,7 @@ MODULE field_boundary
     sizes(2) = ny_local + 1 + 2 * nyg
     sizes(3) = nz_local + 1 + 2 * nzg
     starts = 1
+    CALL refresh_guard_dtypes(4_isp, sizes)
 
     ! MOVE EDGES ALONG X
     subsizes(1) = nxg+1
-- 
2.43.0


From b7a93888f5ae44daf7e418025a276dc322725db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:28 +0000
Subject: [PATCH 07/66] fix: blocking summation of sources does not wrap around
 absorbing boundaries

---
 src/boundary_conditions/field_boundaries.F90 | 30 ++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/boundary_conditions/field_boundaries.F90 b/src/boundary_conditions/field_boundaries.F90
index 3634144..d570673 100755
--- a/src/boundary_conditions/field_boundaries.F90
+++ b/src/boundary_conditions/field_boundaries.F90
@@ -453,15 +453,13 @@ MODULE field_boundary
     ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
 
     temp = 0.0_num
-    CALL MPI_SENDRECV(array(nn, -nyg, -nzg), 1_isp, mpi_dtypes(7), INT(neighbour( 1,  &
-    0, 0), isp), tag, temp, sz, mpidbl, INT(neighbour(-1, 0, 0), isp), tag, comm,     &
-    status, errcode)
+    CALL MPI_SENDRECV(array(nn, -nyg, -nzg), 1_isp, mpi_dtypes(7), INT(proc_x_max, isp),  &
+    tag, temp, sz, mpidbl, INT(proc_x_min, isp), tag, comm, status, errcode)
     array(0:nxg, :, :) = array(0:nxg, :, :) + temp
 
     temp = 0.0_num
-    CALL MPI_SENDRECV(array(-nxg, -nyg, -nzg), 1_isp, mpi_dtypes(7),                  &
-    INT(neighbour(-1, 0, 0), isp), tag, temp, sz, mpidbl, INT(neighbour( 1, 0, 0),    &
-    isp), tag, comm, status, errcode)
+    CALL MPI_SENDRECV(array(-nxg, -nyg, -nzg), 1_isp, mpi_dtypes(7), INT(proc_x_min, isp),  &
+    tag, temp, sz, mpidbl, INT(proc_x_max, isp), tag, comm, status, errcode)
     array(nn-nxg:nn, :, :) = array(nn-nxg:nn, :, :) + temp
 
     DEALLOCATE(temp)
@@ -481,15 +479,13 @@ MODULE field_boundary
       ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
 
       temp = 0.0_num
-      CALL MPI_SENDRECV(array(-nxg, nn, -nzg), 1_isp, mpi_dtypes(8), INT(neighbour(0,   &
-      1, 0), isp), tag, temp, sz, mpidbl, INT(neighbour(0, -1, 0), isp), tag, comm,     &
-      status, errcode)
+      CALL MPI_SENDRECV(array(-nxg, nn, -nzg), 1_isp, mpi_dtypes(8), INT(proc_y_max, isp),  &
+    tag, temp, sz, mpidbl, INT(proc_y_min, isp), tag, comm, status, errcode)
       array(:, 0:nyg, :) = array(:, 0:nyg, :) + temp
 
       temp = 0.0_num
-      CALL MPI_SENDRECV(array(-nxg, -nyg, -nzg), 1_isp, mpi_dtypes(8), INT(neighbour(0, &
-      -1, 0), isp), tag, temp, sz, mpidbl, INT(neighbour(0, 1, 0), isp), tag, comm,     &
-      status, errcode)
+      CALL MPI_SENDRECV(array(-nxg, -nyg, -nzg), 1_isp, mpi_dtypes(8), INT(proc_y_min, isp),  &
+    tag, temp, sz, mpidbl, INT(proc_y_max, isp), tag, comm, status, errcode)
       array(:, nn-nyg:nn, :) = array(:, nn-nyg:nn, :) + temp
     
       DEALLOCATE(temp)
@@ -509,15 +505,13 @@ MODULE field_boundary
     ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
 
     temp = 0.0_num
-    CALL MPI_SENDRECV(array(-nxg, -nyg, nn), 1_isp, mpi_dtypes(9), INT(neighbour(0,   &
-    0, 1), isp), tag, temp, sz, mpidbl, INT(neighbour(0, 0, -1), isp), tag, comm,     &
-    status, errcode)
+    CALL MPI_SENDRECV(array(-nxg, -nyg, nn), 1_isp, mpi_dtypes(9), INT(proc_z_max, isp),  &
+    tag, temp, sz, mpidbl, INT(proc_z_min, isp), tag, comm, status, errcode)
     array(:, :, 0:nzg) = array(:, :, 0:nzg) + temp
 
     temp = 0.0_num
-    CALL MPI_SENDRECV(array(-nxg, -nyg, -nzg), 1_isp, mpi_dtypes(9), INT(neighbour(0, &
-    0, -1), isp), tag, temp, sz, mpidbl, INT(neighbour(0, 0, 1), isp), tag, comm,     &
-    status, errcode)
+    CALL MPI_SENDRECV(array(-nxg, -nyg, -nzg), 1_isp, mpi_dtypes(9), INT(proc_z_min, isp),  &
+    tag, temp, sz, mpidbl, INT(proc_z_max, isp), tag, comm, status, errcode)
     array(:, :, nn-nzg:nn) = array(:, :, nn-nzg:nn) + temp
 
     DEALLOCATE(temp)
-- 
2.43.0


From d7a2a63a40af6fc361955fd2231b74283cbaa5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:23 +0000
Subject: [PATCH 08/66] fix: stencil coefficients of the Maxwell solver for
 nodal grids and for orders above 4

---
 src/submain.F90 | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/submain.F90 b/src/submain.F90
index 3d440fc..1ce30da 100644
--- a/src/submain.F90
+++ b/src/submain.F90
@@ -935,7 +935,7 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
   ! ________________________________________________________________________________________
 
   IMPLICIT NONE
-  INTEGER(idp) :: norder, n, m, mn, i, j, k
+  INTEGER(idp) :: norder, n, m, mn, i, j, k, ix0
   LOGICAL(lp)  :: l_nodal
   REAL(num)    :: z, fact, c1, c2, c3, c4, c5
   REAL(num), INTENT(IN OUT), DIMENSION(norder/2) :: coeffs
@@ -945,18 +945,21 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
   IF (l_nodal) THEN
     z=0.0_num
     fact=1.0_num
+    n=norder+1
+    ix0=norder/2
   ELSE
     z=0.5_num
     fact=0.5_num
+    n=norder
+    ix0=norder/2-1
   END IF
   m=1
-  n=norder+1
 
   ALLOCATE(x(0:n-1))
   ALLOCATE(c(0:m, 0:n-1))
 
   DO i=0, n-1
-    x(i)=(i-n/2+1)*1.0_num
+    x(i)=(i-ix0)*1.0_num
   END DO
 
   c=0.0_num; c1=1.0_num; c4=x(0)-z; c(0, 0)=1.0_num
@@ -973,18 +976,17 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
           c(k, i)=c1*(k*c(k-1, i-1)-c5*c(k, i-1))/c2
         END DO
         c(0, i)=-c1*c5*c(0, i-1)/c2
-        DO k=1, mn-1
-          c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
-        END DO
-        c(0, j)=c4*c(0, j)/c3
       END IF
-
+      DO k=1, mn-1
+        c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
+      END DO
+      c(0, j)=c4*c(0, j)/c3
     END DO
     c1=c2
   END DO
 
   DO i=1, norder/2
-    coeffs(i)=c(m, norder/2+i-1)
+    coeffs(i)=c(m, ix0+i)
   END DO
   RETURN
 END SUBROUTINE FD_weights
-- 
2.43.0


From 0f1f6d6fd97e4405a341692fc77d2a67d0987c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:44 +0000
Subject: [PATCH 09/66] fix: keep the shape factor constants in working
 precision

1./6., 2./3. and 1./3. are single precision constants: gathered fields and
deposited charge and current of order 3 were wrong in the eighth digit
---
 .../field_gathering_o1_2d.F90                 |  4 +--
 .../field_gathering_o2_2d.F90                 |  4 +--
 .../field_gathering_o3_2d.F90                 |  6 ++---
 .../field_gathering_on_2d.F90                 |  4 +--
 .../field_gathering_on_3d.F90                 |  4 +--
 .../field_gathering_on_circ.F90               |  4 +--
 .../charge_deposition_2d.F90                  |  4 +--
 .../esirkepov/esirkepov_2d.F90                | 26 +++++++++----------
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index 247fc3d..c599073 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -494,7 +494,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_1_1( np, xp, zp, ex, ey, ez, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -714,7 +714,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 4929ffc..7d022d3 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -540,7 +540,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_2_2( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -798,7 +798,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index a51c6ec..61c8ccc 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -334,7 +334,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, oxint, zintsq, ozint, oxintsq, ozintsq
   real(num), DIMENSION(lvect, -1:2)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -915,7 +915,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_3_3( np, xp, zp, bx, by, bz, xmin
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
@@ -1268,7 +1268,7 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
index aba3e79..1c7825a 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
@@ -90,7 +90,7 @@ subroutine pxr_gete2dxz_n_energy_conserving( np, xp, yp, zp, ex, ey, ez, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -383,7 +383,7 @@ subroutine pxr_getb2dxz_n_energy_conserving( np, xp, yp, zp, bx, by, bz, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
index 4f16728..e66a655 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
@@ -723,7 +723,7 @@ subroutine pxr_getb3d_n_energy_conserving(np, xp, yp, zp, bx, by, bz, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -1068,7 +1068,7 @@ subroutine pxr_gete3d_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index a3888c0..ab0519c 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -96,7 +96,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
@@ -384,7 +384,7 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index 6cacf2d..793bebf 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -59,7 +59,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
   real(num) :: dxi, dzi, xint, zint, oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: x, z, r, wq, invvol
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp) :: j, l, ip, jj, ll, ixmin, ixmax, izmin, izmax
 
   dxi = 1./dx
@@ -204,7 +204,7 @@ SUBROUTINE pxr_depose_rhoold_n_2dxz(rhoold, np, xp, zp, ux, uy, uz, gaminv, w, q
   real(num) :: x, z, xold, zold, wq, invvol, vx, vy, vz
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
   real(num) :: sxold(-int(nox/2):int((nox+1)/2)), szold(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp) :: j, l, ip, jj, ll, jold, lold, ixmin, ixmax, izmin, izmax, ndt, idt
   real(num) :: dxp, dzp, x0, z0, x1, z1
 
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 9726aeb..7464b99 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -108,8 +108,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
   real(num) :: invvol, invdtdx, invdtdz
   real(num) :: oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter :: onesixth=1./6.
-  real(num), parameter :: twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num
+  real(num), parameter :: twothird=2.0_num/3.0_num
   real(num), dimension(:), allocatable :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp) :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz, i, k, ic, kc
   integer(idp) :: ixmin, ixmax, izmin, izmax, icell, ncells, ndtodx, ndtodz
@@ -385,7 +385,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
           ! -- Jy (2D Esirkepov scheme)
           jy(ic, kc) = jy(ic, kc) + wq*vy*invvol/ncells* ( (sz0(k)+0.5*dsz(k))*sx0(i) &
-          + (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+          + (0.5*sz0(k)+1.0_num/3.0_num*dsz(k))*dsx(i) )
 
           ! -- Jz
           if(k<izmax) then
@@ -474,8 +474,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_1_1( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: vx, vy, vz
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -689,8 +689,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: xintsq, zintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -910,7 +910,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -1060,7 +1060,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
         ! -- Jy (2D Esirkepov scheme)
         !$acc atomic update
         jy(ic, kc) = jy(ic, kc) + wq*vy*invvol* ( (sz0(k)+0.5*dsz(k))*sx0(i) +        &
-        (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+        (0.5*sz0(k)+1.0_num/3.0_num*dsz(k))*dsx(i) )
 
         ! --- Jz
         IF(k<izmax) THEN
@@ -1138,8 +1138,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_svec_3_3(jx, jy, jz, np, xp, zp, uxp, u
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   real(num), dimension(:), allocatable  :: sx, sx0, dsx, sz, sz0, dsz
   integer(isp)                          :: iixp, ikxp, ip, dix, diz, idx, idz, i, k,  &
   ic, kc
@@ -1555,8 +1555,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_vecHV_3_3(jx, jy, jz, np, xp, zp, uxp,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
+  real(num), parameter                  :: onethird=1.0_num/3.0_num
   real(num), dimension(-2:3)            :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz,    &
   idx, idz, i, k, ic, kc
-- 
2.43.0


From 6424b76c8f6463f52d0ad4f0c2260b1bbf83c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:29 +0000
Subject: [PATCH 10/66] fix: use the cache-blocked gather and push only where
 it applies

It covers equal orders 1 to 3 with the lower order along the staggered
direction, a staggered grid, and the Boris and Vay pushers: with unequal orders
particles were not pushed at all, and the other settings were ignored
---
 .../particle_pusher_manager_3d.F90             | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/particle_pushers/particle_pusher_manager_3d.F90 b/src/particle_pushers/particle_pusher_manager_3d.F90
index f46563e..cd977e1 100644
--- a/src/particle_pushers/particle_pusher_manager_3d.F90
+++ b/src/particle_pushers/particle_pusher_manager_3d.F90
@@ -48,14 +48,15 @@
 !> Revision 10.06.2015
 ! ________________________________________________________________________________________
 SUBROUTINE field_gathering_plus_particle_pusher
-  USE fields, ONLY: bx_p, by_p, bz_p, ex_p, ey_p, ez_p, l_lower_order_in_v, nox,     &
-    noy, noz, nxguards, nxjguards, nyguards, nyjguards, nzguards, nzjguards
+  USE fields, ONLY: bx_p, by_p, bz_p, ex_p, ey_p, ez_p, l_lower_order_in_v,          &
+    l_nodalgrid, nox, noy, noz, nxguards, nxjguards, nyguards, nyjguards, nzguards, nzjguards
   USE mpi
   USE params, ONLY: dt, fg_p_pp_separated
   USE particle_properties, ONLY: nspecies, particle_pusher
-  USE picsar_precision, ONLY: idp
+  USE picsar_precision, ONLY: idp, lp
   USE shared_data, ONLY: c_dim, dx, dy, dz, nx, ny, nz
   IMPLICIT NONE
+  LOGICAL(lp) :: l_cacheblock
 
 #if defined(DEBUG)
   WRITE(0, *) "Field gathering + Push_particles: start"
@@ -76,15 +77,22 @@ SUBROUTINE field_gathering_plus_particle_pusher
     ! 3D CASE
   CASE DEFAULT
 
+    ! The cache-blocked kernels exist for equal shape factor orders on a
+    ! staggered grid, lower order along the staggered direction, with the Boris
+    ! and Vay pushers
+    l_cacheblock = (nox.eq.noy) .AND. (noy.eq.noz) .AND. (nox.ge.1) .AND.        &
+    (nox.le.3) .AND. (.NOT. l_nodalgrid) .AND. l_lower_order_in_v .AND.  &
+    (particle_pusher.le.1)
+
     ! The field gathering and the particle pusher are performed together
-    IF (fg_p_pp_separated.eq.0) THEN
+    IF ((fg_p_pp_separated.eq.0) .AND. l_cacheblock) THEN
 
       CALL field_gathering_plus_particle_pusher_cacheblock_sub(ex_p, ey_p, ez_p, &
       bx_p, by_p, bz_p, nx, ny, nz, nxguards, nyguards, nzguards,                &
       nxjguards, nyjguards, nzjguards, nox, noy, noz, dx, dy, dz, dt,            &
       l_lower_order_in_v)
 
-    ELSE IF (fg_p_pp_separated.eq.1) THEN
+    ELSE IF (fg_p_pp_separated.le.1) THEN
 
       CALL field_gathering_plus_particle_pusher_sub(ex_p, ey_p, ez_p, bx_p, by_p, bz_p, &
       nx, ny,   nz, nxguards, nyguards, nzguards, nxjguards, nyjguards, nzjguards,      &
-- 
2.43.0


From 26e0cae94b545abe4d21b65dc85812aa5f7c9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 11/66] fix: picsar_vector::back() returns the last element

---
 src/multi_physics/QED/src/picsar_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 025982c..7075d47 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -347,7 +347,7 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 T&
 picsar::multi_physics::picsar_vector<T>::back()
 {
-    return v_data[0];
+    return v_data[v_size-1];
 }
 
 template <typename T>
-- 
2.43.0


From b290d118dde1cbda3d28e0b6b858ea816da8e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 12/66] fix: picsar_vector assignments release the old buffer,
 survive self-assignment and leave a usable moved-from vector

---
 src/multi_physics/QED/src/picsar_vector.hpp | 25 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 7075d47..63652b3 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -204,7 +204,7 @@ picsar::multi_physics::picsar_vector<T>::picsar_vector(picsar_vector&& other)
 
     other.v_size = 0;
     other.v_data = nullptr;
-    other.should_manage_memory = false;
+    other.should_manage_memory = true;
 }
 
 
@@ -213,11 +213,18 @@ template <typename T>
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (const picsar_vector& other)
 {
-    v_size = other.v_size;
+    if(this == &other)
+        return *this;
 
-    v_data = new T[other.v_size];
-    for(size_t i = 0; i < v_size; i++)
-        v_data[i] = other.v_data[i];
+    T* new_data = new T[other.v_size];
+    for(size_t i = 0; i < other.v_size; i++)
+        new_data[i] = other.v_data[i];
+
+    if(should_manage_memory)
+        delete[] v_data;
+
+    v_size = other.v_size;
+    v_data = new_data;
 
     should_manage_memory = true;
 
@@ -231,13 +238,19 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (picsar_vector&& other)
 {
+    if(this == &other)
+        return *this;
+
+    if(should_manage_memory)
+        delete[] v_data;
+
     v_size = other.v_size;
     v_data = other.v_data;
     should_manage_memory = other.should_manage_memory;
 
     other.v_size = 0;
     other.v_data = nullptr;
-    other.should_manage_memory = false;
+    other.should_manage_memory = true;
 
     return *this;
 }
-- 
2.43.0


From 6a0cc1286b8a45a1c5b1579348567c883ef981dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:10 +0000
Subject: [PATCH 13/66] fix: lookup table interpolations at the upper limit of
 the table stay within the table

---
 src/multi_physics/QED/src/lookup_tables.hpp | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 63f56d1..3cacc2b 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -318,6 +318,9 @@ interp_linear_equispaced(_REAL where) const
 
     size_t idx_left = static_cast<size_t>(
         floor((coords.size()-1)*(where-xmin)/xsize));
+    //The upper limit of the table belongs to the last interval
+    if(idx_left > coords.size()-2)
+        idx_left = coords.size()-2;
     size_t idx_right = idx_left + 1;
 
     _REAL xleft = coords[idx_left];
@@ -337,6 +340,9 @@ interp_linear(_REAL where) const
 {
     auto iter_right = picsar_upper_bound(coords.begin(), coords.end(),where);
     size_t idx_right = std::distance(coords.begin(), iter_right);
+    //The upper limit of the table belongs to the last interval
+    if(idx_right > coords.size()-1)
+        idx_right = coords.size()-1;
     size_t idx_left = idx_right-1;
 
     _REAL xleft = coords[idx_left];
@@ -541,6 +547,11 @@ interp_linear(_REAL where_x, _REAL where_y) const
         picsar_upper_bound(coords[1].begin(), coords[1].end(),where_y);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
     size_t idx_y_right = std::distance(coords[1].begin(), it_y_right);
+    //The upper limits of the table belong to the last interval
+    if(idx_x_right > coords[0].size()-1)
+        idx_x_right = coords[0].size()-1;
+    if(idx_y_right > coords[1].size()-1)
+        idx_y_right = coords[1].size()-1;
     size_t idx_x_left = idx_x_right - 1;
     size_t idx_y_left = idx_y_right - 1;
 
@@ -585,10 +596,15 @@ interp_linear_equispaced(_REAL where_x, _REAL where_y) const
 
     size_t idx_x_left = static_cast<size_t>(
         floor((coords[0].size()-1)*(where_x-xmin)/xsize));
+    //The upper limits of the table belong to the last interval
+    if(idx_x_left > coords[0].size()-2)
+        idx_x_left = coords[0].size()-2;
     size_t idx_x_right = idx_x_left + 1;
 
     size_t idx_y_left = static_cast<size_t>(
         floor((coords[1].size()-1)*(where_y-ymin)/ysize));
+    if(idx_y_left > coords[1].size()-2)
+        idx_y_left = coords[1].size()-2;
     size_t idx_y_right = idx_y_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -629,6 +645,9 @@ interp_linear_first(_REAL where_x, size_t coord_y) const
     auto it_x_right =
         picsar_upper_bound(coords[0].begin(), coords[0].end(),where_x);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
+    //The upper limit of the table belongs to the last interval
+    if(idx_x_right > coords[0].size()-1)
+        idx_x_right = coords[0].size()-1;
     size_t idx_x_left = idx_x_right - 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -672,6 +691,9 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
 
     size_t idx_x_left = static_cast<size_t>(
             floor((sx-1)*(where_x-xmin)/xsize));
+    //Just below the upper limit, rounding could give the last point
+    if(idx_x_left > sx-2)
+        idx_x_left = sx-2;
     size_t idx_x_right = idx_x_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
-- 
2.43.0


From b1a23392967caabe9764567c6fb356d85a3b5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:35 +0000
Subject: [PATCH 14/66] fix: Breit-Wheeler pair generation does not use log(0)
 nor points beyond the cumulative table

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 35b0873..d3f2c40 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -469,10 +469,12 @@ const _REAL* unf_zero_one_minus_epsi)
             invert = true;
         }
 
-        size_t first = 0;
+        //The first point (fraction zero) has a cumulative probability of
+        //zero, which the logarithmic table stores as -inf
+        size_t first = 1;
         size_t it;
         _REAL val;
-        size_t count = how_many_frac;
+        size_t count = how_many_frac-1;
         while(count > 0){
             it = first;
             size_t step = count/2;
@@ -489,6 +491,10 @@ const _REAL* unf_zero_one_minus_epsi)
             }
         }
 
+        //Rounding could bring the last point (one half) slightly below prob
+        if(first > how_many_frac-1)
+            first = how_many_frac-1;
+
         size_t upper = first;
         size_t lower = upper-1;
 
@@ -497,7 +503,7 @@ const _REAL* unf_zero_one_minus_epsi)
         _REAL upper_prob =
             exp(ref_cum_distrib_table.interp_linear_first_equispaced
             (log(tab_chi_phot), upper));
-        _REAL lower_prob =
+        _REAL lower_prob = (lower == 0) ? zero :
             exp(ref_cum_distrib_table.interp_linear_first_equispaced
             (log(tab_chi_phot), lower));
         _REAL chi_ele_frac = lower_frac +
-- 
2.43.0


From 0b77fb707e8f6a9a42626c73c271dec961cc2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 15/66] fix: the Breit-Wheeler engine compiles in single
 precision

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index d3f2c40..96dbe2e 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -944,7 +944,8 @@ compute_inner_integral(_REAL x) const
     auto func = [=](_REAL s){
         if (s >= static_cast<_REAL>(__breit_wheeler_special_func_big_arg))
             return zero;
-        return sqrt(s)*k_v(one/three, two*pow(s, three/two)/three);
+        return static_cast<_REAL>(
+            sqrt(s)*k_v(one/three, two*pow(s, three/two)/three));
     };
     return quad_a_inf<_REAL>(func, x);
 }
-- 
2.43.0


From abd1169b90dadf71425cd8cab418100df83cbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 16/66] fix: Schwinger generate_pairs_single and
 generate_pairs_multiple pass the cell size (they did not compile)

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 45e5a7a..7d81c66 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -218,7 +218,8 @@ _REAL dt
 {
     std::pair<bool, _REAL> res{false, zero};
 
-    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_single(ex, ey, ez, bx, by, bz,
+        dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
@@ -276,7 +277,8 @@ _REAL dt
 {
     std::pair<size_t, _REAL> res{0, zero};
 
-    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz,
+        dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
-- 
2.43.0


From 96dee3b3e40b90c741b4d68a4053e09e8c5c94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 17/66] fix: generate_log_spaced_vec rejects a zero lower limit
 instead of returning NaNs

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 795632c..1fd0a77 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -70,7 +70,7 @@ picsar::multi_physics::generate_log_spaced_vec
 {
     //Return empty vector upon error
     if( min >= max ||
-        min < static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
+        min <= static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
         size < 2)
         return std::vector<_REAL>(0);
 
-- 
2.43.0


From 462a891d50e509110ae6e254d4035923269411a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 18/66] fix: generate_log_lin_log_spaced_vec for sizes which
 are not multiples of three

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 1fd0a77..a2eab7f 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -115,7 +115,7 @@ picsar::multi_physics::generate_log_lin_log_spaced_vec
     std::vector<_REAL> vec(size);
     size_t size_first = size/3;
     size_t size_second = size/3;
-    size_t size_third = size/3;
+    size_t size_third = size - size_first - size_second;
 
     _REAL first_val = max*static_cast<_REAL>(1.0/10.0);
     _REAL second_val = max*static_cast<_REAL>(9.0/10.0);
-- 
2.43.0


From 7bc8ed79139969bd3b78c2f051dfaa0b54aae03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:39 +0000
Subject: [PATCH 19/66] fix: Breit-Wheeler rate above the table: the asymptotic
 expansion of the squared Bessel function has its coefficient squared

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 96dbe2e..921a6c5 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -345,7 +345,7 @@ _REAL _lambda)
         //Not suitable for GPU! Replaced with asymptotic expansion.
         //TT = a*chi_phot*pow(k_v(one/three, b/chi_phot),two);
         _REAL ccoeff = static_cast<_REAL>(tgamma(one/three)/two);
-        TT = a*chi_phot*ccoeff*pow(chi_phot*two/b , two/three);
+        TT = a*chi_phot*ccoeff*ccoeff*pow(chi_phot*two/b , two/three);
 
     }
     //otherwise use lookup tables
-- 
2.43.0


From 3352e0004727c88f598efb5c7ff95a69f9337355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 20/66] fix: k_v based on the STL returns zero for large
 arguments, as the one based on Boost, instead of throwing

---
 src/multi_physics/QED/src/special_functions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/multi_physics/QED/src/special_functions.hpp b/src/multi_physics/QED/src/special_functions.hpp
index eec1124..a3d76f3 100644
--- a/src/multi_physics/QED/src/special_functions.hpp
+++ b/src/multi_physics/QED/src/special_functions.hpp
@@ -54,6 +54,11 @@ namespace picsar{
 template<typename _REAL_ARG1, typename _REAL_ARG2>
 auto picsar::multi_physics::k_v(_REAL_ARG1 v, _REAL_ARG2 x)
 {
+    //Some implementations throw an exception for large arguments, for
+    //which the function underflows to zero
+    if(x > static_cast<_REAL_ARG2>(1.0e5))
+        return decltype(std::cyl_bessel_k(v, x)){0};
+
     return std::cyl_bessel_k(v, x);
 }
 
-- 
2.43.0


From 57c3719ec58be8b72e0618867c10640925ecff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 21/66] fix: quantum synchrotron rates: integrate the singular
 integrands with substitutions that make them regular (the rate was up to two
 times too low)

---
 src/multi_physics/QED/src/qed_commons.h       |  5 +-
 .../QED/src/quantum_sync_engine.hpp           | 50 +++++++++++--------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/multi_physics/QED/src/qed_commons.h b/src/multi_physics/QED/src/qed_commons.h
index ce805e0..891a7fa 100644
--- a/src/multi_physics/QED/src/qed_commons.h
+++ b/src/multi_physics/QED/src/qed_commons.h
@@ -223,8 +223,9 @@ namespace picsar{
     //Probability is used as a second coordinate
     const size_t __quantum_synchrotron_prob_tem_how_many = 256;
 
-    //Sets the limits for the semi-infinite integrals in the library
-    const double __quantum_synchrotron_special_func_big_arg = 1.0e20;
+    //Upper limit for the semi-infinite integrals in the library (modified
+    //Bessel functions are negligible beyond)
+    const double __quantum_synchrotron_special_func_big_arg = 1.0e2;
 
 // -------
 
diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index 2ceb57f..f5494f7 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -285,6 +285,9 @@ namespace picsar{
          PXRMP_FORCE_INLINE
          _REAL compute_KK_function(_REAL chi_part) const;
 
+        PXRMP_FORCE_INLINE
+        _REAL integrate_KK(_REAL chi_part, _REAL max_chi_phot) const;
+
 #endif //PXRMP_CORE_ONLY
 
      };
@@ -655,16 +658,7 @@ _REAL
 picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
 compute_cumulative_phot_em(_REAL chi_phot, _REAL chi_part) const
 {
-    auto func = [chi_part, this](_REAL __chi_phot){
-
-        if(chi_part - __chi_phot == zero || __chi_phot == zero)
-            return zero;
-        else{
-            return compute_KK_integrand(chi_part, __chi_phot);
-        }
-
-    };
-    _REAL num = quad_a_b<_REAL>(func, zero, chi_phot/two) + quad_a_b<_REAL>(func, chi_phot/two, chi_phot);
+    _REAL num = integrate_KK(chi_part, chi_phot);
     _REAL kk = compute_KK_function(chi_part);
     if(num >= kk)
         return one;
@@ -901,13 +895,16 @@ PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
 compute_inner_integral(_REAL y) const
 {
-    auto func = [this](_REAL s){
-        if( s > static_cast<_REAL>(__quantum_synchrotron_special_func_big_arg))
-            return zero;
-        return k_v(five/three, s);
+    //K_{5/3}(s) diverges as s^(-5/3) for s -> 0 and it decays as exp(-s).
+    //The substitution s = y*exp(v) makes the integrand regular
+    const _REAL s_max = static_cast<_REAL>(__quantum_synchrotron_special_func_big_arg);
+    if(y >= s_max)
+        return zero;
+    auto func = [=](_REAL v){
+        const _REAL s = y*exp(v);
+        return static_cast<_REAL>(s*k_v(five/three, s));
     };
-
-    return quad_a_b<_REAL>(func, y, two*y) + quad_a_inf<_REAL>(func, two*y);
+    return quad_a_b_s<_REAL>(func, zero, log(s_max/y));
 }
 
 template<typename _REAL, class _RNDWRAP>
@@ -934,13 +931,24 @@ PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
 compute_KK_function(_REAL chi_part) const
 {
+    return integrate_KK(chi_part, chi_part);
+}
 
-    auto func = [chi_part, this](_REAL chi_phot){
-            return compute_KK_integrand(chi_part, chi_phot);
+//Integral of the integrand above from zero to max_chi_phot. The integrand
+//diverges as chi_phot^(-2/3) for chi_phot -> 0: the substitution
+//chi_phot = t^3 removes the singularity (the lower bound avoids overflows).
+template<typename _REAL, class _RNDWRAP>
+PXRMP_FORCE_INLINE
+_REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
+integrate_KK(_REAL chi_part, _REAL max_chi_phot) const
+{
+    const _REAL t_max = static_cast<_REAL>(cbrt(max_chi_phot));
+    const _REAL t_min = static_cast<_REAL>(cbrt(chi_part)*1.0e-4);
+    auto func = [=](_REAL t){
+            const _REAL tt = (t > t_min) ? t : t_min;
+            return three*tt*tt*compute_KK_integrand(chi_part, tt*tt*tt);
     };
-
-    //The integral is split into two parts to  handle singularities better
-    return quad_a_b<_REAL>(func, zero, chi_part/two) + quad_a_b<_REAL>(func, chi_part/two, chi_part);
+    return quad_a_b_s<_REAL>(func, zero, t_max);
 }
 
 #endif //PXRMP_CORE_ONLY
-- 
2.43.0


From ff2aa4ce75724c359589a4cb0e78d0d4c56ce7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:01 +0000
Subject: [PATCH 22/66] fix: interpolation of the first coordinate of a 2D
 table on one of its points returns the value stored there (log-tables hold
 -inf)

---
 src/multi_physics/QED/src/lookup_tables.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 3cacc2b..e786c14 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -702,6 +702,13 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
     _REAL zlc = data[row_major(idx_x_left,coord_y,sx,sy)];
     _REAL zrc = data[row_major(idx_x_right,coord_y,sx,sy)];
 
+    //A logarithmic table can hold -inf, which must not be multiplied by a
+    //zero (or, due to rounding, negative) weight
+    if(where_x <= xleft)
+        return zlc;
+    if(where_x >= xright)
+        return zrc;
+
     _REAL wlc = (xright - where_x);
     _REAL wrc = (where_x - xleft);
 
-- 
2.43.0


From 38137bd5c4eb59c872b940ecaf4ecbe733b207d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:02 +0000
Subject: [PATCH 23/66] fix: cumulative Breit-Wheeler pair production where the
 rate underflows (NaN in single precision tables)

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 921a6c5..5661590 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -721,7 +721,17 @@ compute_cumulative_pair(_REAL chi_phot, _REAL chi_part) const
         return compute_TT_integrand(chi_phot, _chi_part);
     };
    _REAL num = quad_a_b<_REAL>(func, zero, chi_part);
-   return num/compute_TT_function(chi_phot) ;
+   _REAL tt = compute_TT_function(chi_phot);
+
+   //For very small chi_phot the rate underflows. In this limit the energy
+   //is equally shared between the two particles
+   if(tt == zero){
+       if(chi_part*two == chi_phot)
+            return one/two;
+       return (chi_part*two < chi_phot) ? zero : one;
+   }
+
+   return num/tt;
 }
 
 template<typename _REAL, class _RNDWRAP>
-- 
2.43.0


From e7fc83b76ec6edb5c6e9749aaa9a13a7e8d25f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 24/66] fix: Poisson numbers with a large mean, for which
 exp(-lambda) underflows

---
 src/multi_physics/QED/src/utilities.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index a2eab7f..dccfbc3 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -9,9 +9,9 @@
 #include <functional>
 #include <algorithm>
 #include <utility>
+#include <limits>
 
 #ifndef PXRMP_CORE_ONLY
-    #include <limits>
     //Uses the root finding algorithms provided by boost
     #include <boost/math/tools/roots.hpp>
 #endif //PXRMP_CORE_ONLY
@@ -173,13 +173,21 @@ size_t picsar::multi_physics::poisson_distrib
     T p = exp(-lambda);
     T s = p;
     T old_s;
+    //For large values of lambda exp(-lambda) underflows: the terms are then
+    //computed from their logarithms
+    const bool underflow = p < std::numeric_limits<T>::min();
+    const double log_lambda = underflow ? log(static_cast<double>(lambda)) : 0.0;
     while (unf_zero_one_minus_epsi > s){
         old_s = s;
-        p = p*lambda/(++k);
+        ++k;
+        if(underflow)
+            p = static_cast<T>(exp(k*log_lambda - lambda - lgamma(k + 1.0)));
+        else
+            p = p*lambda/k;
         s += p;
         //If this is true we have reached the limit of the floating
         //point number that we are using
-        if(s <= old_s)
+        if(s <= old_s && k > lambda)
             break;
     }
     return k;
-- 
2.43.0


From 42aa2b5b44cec2a551984e83c24cace7ce36fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:58 +0000
Subject: [PATCH 25/66] fix: quantum synchrotron internal_interp_dN_dt used
 lambda in SI units

---
 src/multi_physics/QED/src/quantum_sync_engine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index f5494f7..c6f463e 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -324,6 +324,10 @@ const lookup_1d<_REAL>& ref_KKfunc_table,
 const quantum_synchrotron_engine_ctrl<_REAL>& ref_qs_ctrl,
 _REAL _lambda)
 {
+#ifdef PXRMP_WITH_SI_UNITS
+    _lambda = static_cast<_REAL>(1.0);
+#endif
+
     if(energy_part == zero || chi_part == zero)
         return zero;
 
-- 
2.43.0


From a777657550e9af2871a71023780858d3d985c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 26/66] fix: Schwinger rate ignored lambda in the critical
 field (normalized units)

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 7d81c66..0ecc609 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -366,8 +366,10 @@ _REAL _lambda
     vec3<_REAL> ee{ex,ey,ez};
     vec3<_REAL> bb{bx,by,bz};
 
-    const _REAL c_ff = static_cast<_REAL>(one/(two*__schwinger*__schwinger));
-    const _REAL c_gg = static_cast<_REAL>(__c/__schwinger/__schwinger);
+    //In normalized units the critical field is proportional to lambda
+    const double critical_field = __schwinger*_lambda;
+    const _REAL c_ff = static_cast<_REAL>(one/(two*critical_field*critical_field));
+    const _REAL c_gg = static_cast<_REAL>(__c/critical_field/critical_field);
 
     _REAL ff = (norm2(ee) - static_cast<_REAL>(__c*__c)*norm2(bb))*c_ff;
     _REAL gg = dot(ee, bb)*c_gg;
-- 
2.43.0


From 6bfb34f568634a96c1bc2c6d0f501d7e64e6b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:25 +0000
Subject: [PATCH 27/66] fix: Schwinger rate overflowed in single precision

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 0ecc609..a3fcec6 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -388,10 +388,11 @@ _REAL _lambda
     else
         res = epsi*epsi*exp(-pi/epsi)/pi;
 
-    _REAL schwinger_coeff =
-        static_cast<_REAL>(__schwinger_coeff)*_lambda*_lambda*_lambda*_lambda;
+    //In double precision, since the coefficient overflows in single precision
+    const double schwinger_coeff =
+        __schwinger_coeff*_lambda*_lambda*_lambda*_lambda;
 
-    return schwinger_coeff*res;
+    return static_cast<_REAL>(schwinger_coeff*res);
 }
 
 #endif //__PICSAR_MULTIPHYSICS_SCHWINGER_PAIR_ENGINE__
-- 
2.43.0


From 6c31b4c3fcd14db4d7b5525b2b34f5f98ecae6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:44 +0000
Subject: [PATCH 28/66] fix: 2D Esirkepov deposition of order 2 read shape
 factors that were not initialised

The outermost old shape factors were left unset, so that Jy (and the other
components) of particles crossing a cell depended on what the stack held.
---
 .../current_deposition/esirkepov/esirkepov_2d.F90               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 7464b99..484e5f4 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -720,6 +720,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
 !$acc&                         sdxi, sdxim1, &
 !$acc&                         sdzk(-2:2), sdzkm1(-2:2) )
   DO ip=1, np
+    sx0 = 0.0_num
+    sz0 = 0.0_num
 
     ! --- computes current position in grid units
     x = (xp(ip)-xmin)*dxi
-- 
2.43.0


From 6b64a1111d73aedc9e5c610077de934b079c7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:10 +0000
Subject: [PATCH 29/66] fix: persistent summation of Jx set up receives with an
 uninitialised count

MPI_RECV_INIT got sz and buffers that were not set yet; with a negative value
on the stack MPI aborts the run.  The requests are replaced by MPI_IRECV before
any use, so the calls have no purpose.
---
 src/boundary_conditions/field_boundaries.F90 | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/boundary_conditions/field_boundaries.F90 b/src/boundary_conditions/field_boundaries.F90
index d570673..634e01e 100755
--- a/src/boundary_conditions/field_boundaries.F90
+++ b/src/boundary_conditions/field_boundaries.F90
@@ -1317,11 +1317,6 @@ USE picsar_precision, ONLY: idp, isp, num
       call MPI_SEND_INIT(array(-nxg, -nyg, -nzg), 1_isp, subarrayx, proc_x_min_mpisp, &
       tag, comm, reqperjxx(3), errcode)
 
-      call MPI_RECV_INIT(temp1, sz, mpidbl, proc_x_min_mpisp, tag, comm,              &
-      reqperjxx(2), errcode)
-      call MPI_RECV_INIT(temp2, sz, mpidbl, proc_x_max_mpisp, tag, comm,              &
-      reqperjxx(4), errcode)
-
       ! Init Y
       subsizes(1) = sizes(1)
       subsizes(2) = nyg+1
-- 
2.43.0


From 0c0e4ea769f6a6e12c7a13431ea791d0e99d4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 30/66] fix: Schwinger rate in weak fields (NaN where rounding
 or underflow made a square root negative)

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index a3fcec6..bbbf3af 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -375,6 +375,9 @@ _REAL _lambda
     _REAL gg = dot(ee, bb)*c_gg;
 
     _REAL inner = sqrt(ff*ff+ gg*gg);
+    //Rounding, or squares which underflow, must not make it less than |ff|
+    if(inner < fabs(ff))
+        inner = fabs(ff);
 
     _REAL epsi = sqrt(inner + ff);
     _REAL eta = sqrt(inner - ff);
-- 
2.43.0


From f9f871cc81ce0aaf2562271a13764fc0e9a9b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 31/66] fix: norm of vectors whose squares underflow (momenta
 of a few m_e c, SI units, single precision)

---
 src/multi_physics/QED/src/chi_functions.hpp      |  5 ++---
 .../QED/src/quantum_sync_engine.hpp              |  5 ++---
 src/multi_physics/QED/src/vec_functions.hpp      | 16 +++++++++++++++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/multi_physics/QED/src/chi_functions.hpp b/src/multi_physics/QED/src/chi_functions.hpp
index a96ee61..867a571 100644
--- a/src/multi_physics/QED/src/chi_functions.hpp
+++ b/src/multi_physics/QED/src/chi_functions.hpp
@@ -103,11 +103,10 @@ _REAL picsar::multi_physics::chi_lepton(
     vec3<_REAL> em_e{ex, ey, ez};
     vec3<_REAL> em_b{bx, by, bz};
 
-    _REAL norm_p2 = norm2(p);
-    if(norm_p2 == static_cast<_REAL>(0.0))
+    _REAL norm_p = norm(p);
+    if(norm_p == static_cast<_REAL>(0.0))
         return static_cast<_REAL>(0.0);
 
-    _REAL norm_p = sqrt(norm_p2);
     vec3<_REAL> p_unit = p / norm_p;
 
     //For gamma_2, writing the operations like this is better for single
diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index c6f463e..da52e2d 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -448,10 +448,9 @@ const _REAL* unf_zero_one_minus_epsi)
     _REAL me_c = static_cast<_REAL>(__emass*__c);
 
     vec3<_REAL> p_part{px, py, pz};
-    _REAL p2 = norm2(p_part);
-    _REAL norm_part = sqrt(p2);
+    _REAL norm_part = norm(p_part);
     vec3<_REAL> n_part = p_part/norm_part;
-    _REAL gamma_part = sqrt(one + p2/me_c/me_c);
+    _REAL gamma_part = sqrt(one + (norm_part/me_c)*(norm_part/me_c));
 
     const size_t how_many_prob = ref_cum_distrib_table.ref_coords()[1].size();
 
diff --git a/src/multi_physics/QED/src/vec_functions.hpp b/src/multi_physics/QED/src/vec_functions.hpp
index 2dacb5e..ee46279 100644
--- a/src/multi_physics/QED/src/vec_functions.hpp
+++ b/src/multi_physics/QED/src/vec_functions.hpp
@@ -5,6 +5,7 @@
 // (norm, scalar multiplication, vector and cross product...)
 
 #include <cmath>
+#include <limits>
 
 //Should be included by all the src files of the library
 #include "qed_commons.h"
@@ -84,7 +85,20 @@ template <typename _REAL>
 PXRMP_FORCE_INLINE PXRMP_GPU
 _REAL picsar::multi_physics::norm(const vec3<_REAL>& vec)
 {
-    return sqrt(norm2(vec));
+    const _REAL n2 = norm2(vec);
+    if(n2 >= std::numeric_limits<_REAL>::min()/std::numeric_limits<_REAL>::epsilon())
+        return sqrt(n2);
+
+    //The squares of the components underflow (e.g., momenta of a few m_e*c in
+    //SI units and single precision): they are scaled with the largest one
+    const _REAL x = fabs(vec[0]);
+    const _REAL y = fabs(vec[1]);
+    const _REAL z = fabs(vec[2]);
+    const _REAL xy = (x < y) ? y : x;
+    const _REAL scale = (xy < z) ? z : xy;
+    if(scale == static_cast<_REAL>(0.0))
+        return sqrt(n2);
+    return scale*sqrt(norm2(vec/scale));
 }
 
 //Dot product of two 3-vectors
-- 
2.43.0


From 3d522ae50cb8a03c54e85ef9d4d061912a1490e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 32/66] fix: B08 radiation-reaction push made NaN of a particle
 at rest without electric field

---
 src/particle_pushers/boris_pusher/boris_3d.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle_pushers/boris_pusher/boris_3d.F90 b/src/particle_pushers/boris_pusher/boris_3d.F90
index 2378c18..3edbd0a 100644
--- a/src/particle_pushers/boris_pusher/boris_3d.F90
+++ b/src/particle_pushers/boris_pusher/boris_3d.F90
@@ -455,8 +455,8 @@ SUBROUTINE pxr_boris_push_rr_B08_u_3d(np, uxp, uyp, uzp, gaminv, ex, ey, ez, bx,
     ! RR force constant
     crr=-(4_num*const*q**3*gamtmp)/(3_num*m**2*clight**5*4*pi*eps0)
     
-    ! 'up' inverse square norm 
-    upinvsq=1_num/(uxp(ip)**2 + uyp(ip)**2+ uzp(ip)**2)
+    ! 'up' inverse square norm (up vanishes for a particle at rest without E field)
+    upinvsq=1_num/MAX(uxp(ip)**2 + uyp(ip)**2+ uzp(ip)**2, TINY(1.0_num))
 
     ! E dot u / u square
     epar=upinvsq*(ex(ip)*uxp(ip)+ey(ip)*uyp(ip)+ez(ip)*uzp(ip))
-- 
2.43.0


From 5f2d1cc16e7777e86925f8e7018c45d36fe0031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 33/66] fix: separated pusher read the previous fields of the
 LL model from fixed attribute columns and never stored them

---
 .../particle_pusher_manager_3d.F90            | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/particle_pushers/particle_pusher_manager_3d.F90 b/src/particle_pushers/particle_pusher_manager_3d.F90
index cd977e1..49dbb85 100644
--- a/src/particle_pushers/particle_pusher_manager_3d.F90
+++ b/src/particle_pushers/particle_pusher_manager_3d.F90
@@ -684,7 +684,8 @@ SUBROUTINE particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg, nxx, nyy, nzz, nxgu
   USE grid_tilemodule, ONLY: aofgrid_tiles
   USE mpi
   USE output_data, ONLY: pushtime
-  USE particle_properties, ONLY: nspecies, particle_pusher
+  USE particle_properties, ONLY: bxoldpid, byoldpid, bzoldpid, exoldpid, eyoldpid,   &
+    ezoldpid, nspecies, particle_pusher
   USE particle_speciesmodule, ONLY: particle_species
   USE particle_tilemodule, ONLY: particle_tile
   USE particles, ONLY: species_parray
@@ -737,7 +738,8 @@ SUBROUTINE particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg, nxx, nyy, nzz, nxgu
   !$OMP PARALLEL DEFAULT(NONE) SHARED(ntilex,                                         &
   !$OMP ntiley, ntilez, nspecies, species_parray, aofgrid_tiles, nxjguard, nyjguard,  &
   !$OMP nzjguard, nxguard, nyguard, nzguard, exg, eyg, ezg, bxg, byg, bzg, dxx, dyy,  &
-  !$OMP dzz, dtt, noxx, noyy, nozz, c_dim, particle_pusher) PRIVATE(ix, iy, iz,       &
+  !$OMP dzz, dtt, noxx, noyy, nozz, c_dim, particle_pusher, exoldpid, eyoldpid,       &
+  !$OMP ezoldpid, bxoldpid, byoldpid, bzoldpid) PRIVATE(ix, iy, iz,                   &
   !$OMP ispecies, curr, curr_tile, count, jmin, jmax, kmin, kmax, lmin, lmax,         &
   !$OMP extile, eytile, eztile, bxtile, bytile, bztile, nxt, nyt, nzt,                &
   !$OMP nxc, nyc, nzc, ipmin, ipmax, ip, nxjg, nyjg, nzjg, isgathered,                &
@@ -843,13 +845,22 @@ SUBROUTINE particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg, nxx, nyy, nzz, nxgu
 	    CASE (4_idp)
               CALL pxr_boris_push_rr_LL_u_3d(count, curr_tile%part_ux, 		      &
               curr_tile%part_uy, curr_tile%part_uz, curr_tile%part_gaminv, 	      &
-              curr_tile%pid(1:count,4), curr_tile%pid(1:count,5),		      &
-  	      curr_tile%pid(1:count,6), curr_tile%pid(1:count,7),		      &
-	      curr_tile%pid(1:count,8), curr_tile%pid(1:count,9),                     &
+              curr_tile%pid(1:count,exoldpid), curr_tile%pid(1:count,eyoldpid),       &
+              curr_tile%pid(1:count,ezoldpid), curr_tile%pid(1:count,bxoldpid),       &
+              curr_tile%pid(1:count,byoldpid), curr_tile%pid(1:count,bzoldpid),       &
               curr_tile%part_ex, curr_tile%part_ey, curr_tile%part_ez, 		      &
               curr_tile%part_bx, curr_tile%part_by, curr_tile%part_bz, 		      &
               curr%charge, curr%mass, dtt)
 
+              ! Store fields on particle position for next step
+              ! to compute dE/dt and dB/dt terms in LL RR force
+              curr_tile%pid(1:count,exoldpid) = curr_tile%part_ex(1:count)
+              curr_tile%pid(1:count,eyoldpid) = curr_tile%part_ey(1:count)
+              curr_tile%pid(1:count,ezoldpid) = curr_tile%part_ez(1:count)
+              curr_tile%pid(1:count,bxoldpid) = curr_tile%part_bx(1:count)
+              curr_tile%pid(1:count,byoldpid) = curr_tile%part_by(1:count)
+              curr_tile%pid(1:count,bzoldpid) = curr_tile%part_bz(1:count)
+
               !! Boris pusher -- Full push
             CASE DEFAULT
 
-- 
2.43.0


From 60b6c7296bb6df5742eb9d5a32389d097c6a02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 34/66] fix: start the sum of get_kinetic_energy at zero

---
 src/diags/diags.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index d9a5b15..cbef8b3 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -960,6 +960,8 @@ MODULE diagnostics
     INTEGER(idp), parameter :: LVEC2=16
     REAL(num) :: partgam
 
+    total_kinetic_energy_loc = 0
+
     ! current species
     curr=>species_parray(ispecies)
 
-- 
2.43.0


From bc11785aaab842e219adc2af59c4e2f1d8b8010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 35/66] fix: load_test_plane marks the particles that do not
 cross as such

---
 src/diags/diags.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index cbef8b3..6e76255 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -716,7 +716,8 @@ MODULE diagnostics
         particle_relative_position(i) >0) THEN
           index_particle(i) = 1
           npnew = npnew +1
-
+        ELSE
+          index_particle(i) = 0
         END IF
       END DO
 
-- 
2.43.0


From ea465c6a7650a7e50907f73b55145d0cae2ab055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 36/66] fix: Lorentz transformation of Bx takes beta/c, not
 beta*c

---
 src/diags/diags.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 6e76255..469f71f 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -1385,7 +1385,7 @@ MODULE diagnostics
 
       temp = fields(1,i)
       fields(1,i) = gam*(fields(1,i) - cbeta*fields(3,i)) ! ey
-      fields(3,i) = gam*(fields(3,i) - cbeta*temp)    ! bx
+      fields(3,i) = gam*(fields(3,i) - beta_c*temp)    ! bx
   
       temp = fields(9,i)
       fields(9,i) =  gam*( fields(9,i) + beta_c * fields(8,i) ) ! rho
@@ -1432,7 +1432,7 @@ MODULE diagnostics
 
         temp = fields(1,i,j)
         fields(1,i,j) = gam*(fields(1,i,j) - cbeta*fields(3,i,j)) ! ey
-        fields(3,i,j) = gam*(fields(3,i,j) - cbeta*temp)    ! bx
+        fields(3,i,j) = gam*(fields(3,i,j) - beta_c*temp)    ! bx
 
         temp = fields(9,i,j)
         fields(9,i,j) =  gam*( fields(9,i,j) + beta_c * fields(8,i,j) ) ! rho
-- 
2.43.0


From 73a6473c81b3909ca3eb220286e2b56388a07994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 37/66] fix: calc_field_divB covers the nodes 0..n, as
 calc_field_div does

---
 src/diags/diags.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 469f71f..3597cf8 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -183,9 +183,9 @@ MODULE diagnostics
     invdz=1.0_num/dz
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, j, k)
     !$OMP DO COLLAPSE(3)
-    DO l = 1, nz
-      DO k = 1, ny
-        DO j = 1, nx
+    DO l = 0, nz
+      DO k = 0, ny
+        DO j = 0, nx
           divbb(j, k, l) = invdx*(bbx(j+1, k, l)-bbx(j, k, l))+ invdy*(bby(j, k+1,& 
           l)-bby(j, k, l))+invdz*(bbz(j, k, l+1)-bbz(j, k, l))
         END DO
-- 
2.43.0


From a56343bb3982b79e46b6b8d4cddc08898732b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:34 +0000
Subject: [PATCH 38/66] fix: energy of the fields in 2D does not multiply by
 the cell size along y

---
 .../Maxwell/maxwell_solver_manager.F90        | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/field_solvers/Maxwell/maxwell_solver_manager.F90 b/src/field_solvers/Maxwell/maxwell_solver_manager.F90
index d3a9e83..3ab825a 100644
--- a/src/field_solvers/Maxwell/maxwell_solver_manager.F90
+++ b/src/field_solvers/Maxwell/maxwell_solver_manager.F90
@@ -100,25 +100,30 @@ SUBROUTINE compute_em_energy
     magnetic_energy_mpi, magneto_energy_total
   USE mpi
   USE picsar_precision, ONLY: isp, num
-  USE shared_data, ONLY: comm, dx, dy, dz, errcode, nx, ny, nz
+  USE shared_data, ONLY: c_dim, comm, dx, dy, dz, errcode, nx, ny, nz
   IMPLICIT NONE
+  REAL(num) :: cell
+
+  ! There is no cell size along y in 2D
+  cell = dx*dz
+  IF (c_dim /= 2) cell = cell*dy
 
   electro_energy_mpi = 0.0_num
   magnetic_energy_mpi = 0.0_num
   electromagn_energy_mpi = 0.0_num
 
-  electro_energy_mpi = SUM(ABS(ex(0:nx-1, 0:ny-1, 0:nz-1)**2))*dx*dy*dz
+  electro_energy_mpi = SUM(ABS(ex(0:nx-1, 0:ny-1, 0:nz-1)**2))*cell
   electro_energy_mpi = electro_energy_mpi + SUM(ABS(ey(0:nx-1, 0:ny-1,                &
-  0:nz-1)**2))*dx*dy*dz
+  0:nz-1)**2))*cell
   electro_energy_mpi = electro_energy_mpi + SUM(ABS(ez(0:nx-1, 0:ny-1,                &
-  0:nz-1)**2))*dx*dy*dz
+  0:nz-1)**2))*cell
   electro_energy_mpi = electro_energy_mpi*0.5_num*eps0
 
-  magnetic_energy_mpi = SUM(ABS(bx(0:nx-1, 0:ny-1, 0:nz-1)**2))*dx*dy*dz
+  magnetic_energy_mpi = SUM(ABS(bx(0:nx-1, 0:ny-1, 0:nz-1)**2))*cell
   magnetic_energy_mpi = magnetic_energy_mpi+ SUM(ABS(by(0:nx-1, 0:ny-1,               &
-  0:nz-1)**2))*dx*dy*dz
+  0:nz-1)**2))*cell
   magnetic_energy_mpi = magnetic_energy_mpi+ SUM(ABS(bz(0:nx-1, 0:ny-1,               &
-  0:nz-1)**2))*dx*dy*dz
+  0:nz-1)**2))*cell
   magnetic_energy_mpi = magnetic_energy_mpi*0.5_num/mu0
 
   electromagn_energy_mpi =  magnetic_energy_mpi + electro_energy_mpi
-- 
2.43.0


From ebb4d8183a659f1bf783829ff0490c03496131a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:08 +0000
Subject: [PATCH 39/66] fix: norms of rho and div E in 2D are taken in the
 plane that holds the fields

---
 src/diags/diags.F90 | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 3597cf8..6855fbb 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -1228,9 +1228,10 @@ MODULE diagnostics
     USE mpi
     USE mpi_derived_types
     USE picsar_precision, ONLY: idp, num
+    USE shared_data, ONLY: c_dim
     IMPLICIT NONE
 
-    INTEGER(idp)                :: j, k, l
+    INTEGER(idp)                :: j, k, l, kmin, kmax
     INTEGER(idp)                :: nx2, ny2, nz2, nxguard, nyguard, nzguard
     REAL(num), dimension(-nxguard:nx2+nxguard, -nyguard:ny2+nyguard,                  &
     -nzguard:nz2+nzguard), intent(in) :: divee2, rho2
@@ -1238,10 +1239,18 @@ MODULE diagnostics
 
     norm = 0
 
+    ! The fields of a 2D run are in the plane 0
+    kmin = 1
+    kmax = ny2
+    IF (c_dim == 2) THEN
+      kmin = 0
+      kmax = 0
+    ENDIF
+
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, k, j)
     !$OMP DO COLLAPSE(3) REDUCTION(+:norm)
     do l = 1, nz2
-      do k = 1, ny2
+      do k = kmin, kmax
         do j = 1, nx2
 
           norm = norm + (divee2(j, k, l)*eps0 - rho2(j, k, l))**2
@@ -1269,9 +1278,10 @@ MODULE diagnostics
     USE mpi
     USE mpi_derived_types
     USE picsar_precision, ONLY: idp, num
+    USE shared_data, ONLY: c_dim
     IMPLICIT NONE
 
-    INTEGER(idp)                :: j, k, l
+    INTEGER(idp)                :: j, k, l, kmin, kmax
     INTEGER(idp)                :: nx2, ny2, nz2, nxguard, nyguard, nzguard
     REAL(num), dimension(-nxguard:nx2+nxguard, -nyguard:ny2+nyguard,                  &
     -nzguard:nz2+nzguard), intent(in) :: array
@@ -1279,10 +1289,18 @@ MODULE diagnostics
 
     norm = 0
 
+    ! The fields of a 2D run are in the plane 0
+    kmin = 1
+    kmax = ny2
+    IF (c_dim == 2) THEN
+      kmin = 0
+      kmax = 0
+    ENDIF
+
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, k, j)
     !$OMP DO COLLAPSE(3) REDUCTION(+:norm)
     do l = 1, nz2
-      do k = 1, ny2
+      do k = kmin, kmax
         do j = 1, nx2
 
           norm = norm+ (array(j, k, l))**2
@@ -1313,10 +1331,10 @@ MODULE diagnostics
     USE mpi_type_constants, ONLY: mpidbl
     USE omp_lib
     USE picsar_precision, ONLY: idp, isp, num
-    USE shared_data, ONLY: comm, errcode
+    USE shared_data, ONLY: c_dim, comm, errcode
     IMPLICIT NONE
 
-    INTEGER(idp)                :: j, k, l
+    INTEGER(idp)                :: j, k, l, kmin, kmax
     INTEGER(idp)                :: nx2, ny2, nz2, nxguard, nyguard, nzguard
     REAL(num), dimension(-nxguard:nx2+nxguard, -nyguard:ny2+nyguard,                  &
     -nzguard:nz2+nzguard), intent(in) :: divee2, rho2
@@ -1326,10 +1344,18 @@ MODULE diagnostics
     norm_loc = 0
     norm = 0
 
+    ! The fields of a 2D run are in the plane 0
+    kmin = 1
+    kmax = ny2
+    IF (c_dim == 2) THEN
+      kmin = 0
+      kmax = 0
+    ENDIF
+
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, k, j)
     !$OMP DO COLLAPSE(3) REDUCTION(+:norm_loc)
     do l = 1, nz2
-      do k = 1, ny2
+      do k = kmin, kmax
         do j = 1, nx2
 
           norm_loc = norm_loc + (divee2(j, k, l)*eps0 - rho2(j, k, l))**2
-- 
2.43.0


From 03fac7dc95935c4d001c06048ae4cf32d6045083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 40/66] fix: temporal diagnostics use the files and values of
 the active diagnostics only, on units of their own

---
 src/diags/diags.F90   | 63 +++++++++++++++----------------------------
 src/ios/simple_io.F90 | 38 +++++++++-----------------
 2 files changed, 34 insertions(+), 67 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 6855fbb..bc28029 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -259,7 +259,7 @@ MODULE diagnostics
 
     IMPLICIT NONE
 
-    INTEGER :: i
+    INTEGER :: i, temdiag_rank
 
     IF (temdiag_frequency.gt.0) THEN
 
@@ -368,49 +368,30 @@ MODULE diagnostics
         end if
       end if
 
-      ! Each mpi task will write in a given file according to their rank
+      ! Each mpi task will write in a given file according to their rank.
+      ! If there is not enough proc, only the first one deals with all of them.
+      ! The file of diag i is opened on the unit 42+i.
       CALL MPI_BARRIER(comm,errcode)
-      IF (nproc.ge.temdiag_nb) then
-        IF ((rank.ge.0).and.(rank.lt.temdiag_nb)) then
-          if (temdiag_act_list(rank+1).gt.0) then
-            write(0, '(" Rank ", I3, ", creation of the file ", A30)') rank,          &
-            "./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1)))
-            if (temdiag_format.eq.1) then
-              open(unit=42,                                                           &
-              file="./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1))),            &
-              ACTION='write', STATUS='new')
-              write(42, *) temdiag_nb_values(rank+1), temdiag_frequency*dt
-            else
-              open(unit=42,                                                           &
-              file="./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1))),            &
-              FORM="unformatted", ACCESS='stream', STATUS='new')
-              write(42) temdiag_nb_values(rank+1), temdiag_frequency*dt
-            end if
-
+      temdiag_rank = 0
+      do i = 1, 10
+        if (temdiag_act_list(i) .le. 0) CYCLE
+        if (rank .eq. temdiag_rank) then
+          write(0, '(" Rank ", I3, ", creation of the file ", A30)') rank,            &
+          "./RESULTS/"//trim(adjustl(temdiag_name_list(i)))
+          if (temdiag_format.eq.1) then
+            open(unit=42+i,                                                           &
+            file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),                   &
+            ACTION='write', STATUS='new')
+            write(42+i, *) temdiag_nb_values(i), temdiag_frequency*dt
+          else
+            open(unit=42+i,                                                           &
+            file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),                   &
+            FORM="unformatted", ACCESS='stream', STATUS='new')
+            write(42+i) temdiag_nb_values(i), temdiag_frequency*dt
           end if
-        ENDIF
-        ! If there is not enough proc, only the first one deals with it
-      else
-        IF (rank.eq.0) then
-          do i= 1, temdiag_nb
-            if (temdiag_act_list(i) .gt.0) then
-              write(0, '(" Creation of the file ", A30)')                             &
-              "./RESULTS/"//trim(adjustl(temdiag_name_list(i)))
-              IF (temdiag_format.eq.1) THEN
-                open(unit=42+i,                                                       &
-                file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),               &
-                ACTION='write', STATUS='new')
-                write(42+i, *) temdiag_nb_values(i), temdiag_frequency*dt
-              else
-                open(unit=42+i,                                                       &
-                file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),               &
-                FORM="unformatted", ACCESS='stream', STATUS='NEW')
-                write(42+i) temdiag_nb_values(i), temdiag_frequency*dt
-              end if
-            end if
-          end do
         end if
-      end if
+        if (nproc.ge.temdiag_nb) temdiag_rank = temdiag_rank + 1
+      end do
 
       CALL MPI_BARRIER(comm, errcode)
 
diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 2b8e70b..07018be 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -252,7 +252,7 @@ SUBROUTINE output_temporal_diagnostics
 
   REAL(num), dimension(:), allocatable :: local_values, global_values
   INTEGER(idp) :: ispecies
-  INTEGER(isp) :: i
+  INTEGER(isp) :: i, temdiag_rank
   REAL(num) :: tmptime
 
 #if defined(DEBUG)
@@ -412,37 +412,23 @@ SUBROUTINE output_temporal_diagnostics
 
     ! Output
     ! Each mpi task will write in a given file according to their rank
-    IF (nproc.ge.temdiag_nb) then
-      IF ((rank.ge.0).and.(rank.le.temdiag_nb)) then
-
+    ! (the first one in all of them if there is not enough proc)
+    temdiag_rank = 0
+    DO i=1, 10
+      IF (temdiag_act_list(i).le.0) CYCLE
+      IF (rank.eq.temdiag_rank) THEN
         ! Ascii format
         IF (temdiag_format.eq.1) then
-          write(42, *)                                                                &
-          global_values(temdiag_i_list(rank+1):temdiag_i_list(rank+1)+temdiag_nb_values(rank+1)-1)
-
-
+          write(42+i, *)                                                              &
+          global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
           ! Binary format
         ELSE
-          write(42)                                                                   &
-          global_values(temdiag_i_list(rank+1):temdiag_i_list(rank+1)+temdiag_nb_values(rank+1)-1)
-
+          write(42+i)                                                                 &
+          global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
         ENDIF
-
-      end if
-    else
-      if (rank.eq.0) then
-        DO i=1, temdiag_nb
-          IF (temdiag_format.eq.1) then
-            write(42+i, *)                                                            &
-            global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
-            ! Binary format
-          else
-            write(42+i)                                                               &
-            global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
-          end if
-        ENDDO
       ENDIF
-    ENDIF
+      IF (nproc.ge.temdiag_nb) temdiag_rank = temdiag_rank + 1
+    ENDDO
 
     localtimes(9) = localtimes(9) + (MPI_WTIME() - tmptime)
 
-- 
2.43.0


From a06bd51c92074b3f622be564caf5f2796c29cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 41/66] fix: temporal kinetic energy uses the mass of the
 species

---
 src/ios/simple_io.F90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 07018be..8b2bb5a 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -234,7 +234,7 @@ END SUBROUTINE output_routines
 !> Creation 2015
 ! ________________________________________________________________________________________
 SUBROUTINE output_temporal_diagnostics
-  USE constants, ONLY: clight, emass, eps0, imu0
+  USE constants, ONLY: clight, eps0, imu0
   USE diagnostics
   USE fields, ONLY: bx, by, bz, ex, ey, ez, nxguards, nyguards, nzguards
   USE mpi
@@ -244,6 +244,7 @@ SUBROUTINE output_temporal_diagnostics
     temdiag_totvalues
   USE params, ONLY: it
   USE particle_properties, ONLY: nspecies
+  USE particles, ONLY: species_parray
   USE picsar_precision, ONLY: idp, isp, num
   USE shared_data, ONLY: c_dim, comm, dive, dx, dy, dz, errcode, nproc, nx, ny, nz,  &
     rank, rho
@@ -271,7 +272,8 @@ SUBROUTINE output_temporal_diagnostics
         CALL get_loc_kinetic_energy(ispecies,                                         &
         local_values(temdiag_i_list(1)+ispecies-1))
         local_values(temdiag_i_list(1)+ispecies-1) =                                  &
-        local_values(temdiag_i_list(1)+ispecies-1)*emass*clight**2
+        local_values(temdiag_i_list(1)+ispecies-1)*                                   &
+        species_parray(ispecies)%mass*clight**2
       ENDDO
     end if
 
-- 
2.43.0


From 9c9d3d632421b79f36af09f925542c8495d1eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 42/66] fix: temporal field energies in 2D are those of the
 plane

---
 src/ios/simple_io.F90 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 8b2bb5a..7a030eb 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -284,7 +284,7 @@ SUBROUTINE output_temporal_diagnostics
       nzguards, local_values(temdiag_i_list(2)))
       local_values(temdiag_i_list(2)) = local_values(temdiag_i_list(2))*eps0
       ELSE IF(c_dim==2) THEN 
-          CALL get_loc_field_energy_2d(ex, nx, nz, dx, dz, nxguards,nzguards,         &
+          CALL get_loc_field_energy_2d(ex(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,         &
          local_values(temdiag_i_list(2)))
          local_values(temdiag_i_list(2)) = local_values(temdiag_i_list(2))*eps0
       ENDIF
@@ -297,7 +297,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(3)))
         local_values(temdiag_i_list(3)) = local_values(temdiag_i_list(3))*eps0
       ELSE IF(c_dim==2) THEN 
-          CALL get_loc_field_energy_2d(ey, nx, nz, dx, dz, nxguards,nzguards,         &
+          CALL get_loc_field_energy_2d(ey(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,         &
          local_values(temdiag_i_list(3)))
          local_values(temdiag_i_list(3)) = local_values(temdiag_i_list(3))*eps0
       ENDIF
@@ -312,7 +312,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(4)))
         local_values(temdiag_i_list(4)) = local_values(temdiag_i_list(4))*eps0
       ELSE IF(c_dim==2) THEN
-        CALL get_loc_field_energy_2d(ez, nx, nz, dx, dz, nxguards,nzguards,           &
+        CALL get_loc_field_energy_2d(ez(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,           &
         local_values(temdiag_i_list(4)))
         local_values(temdiag_i_list(4)) = local_values(temdiag_i_list(4))*eps0
       ENDIF
@@ -327,7 +327,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(5)))
         local_values(temdiag_i_list(5)) = local_values(temdiag_i_list(5))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(bx, nx, nz, dx, dz, nxguards,nzguards,          &
+         CALL get_loc_field_energy_2d(bx(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,          &
          local_values(temdiag_i_list(5)))
          local_values(temdiag_i_list(5)) = local_values(temdiag_i_list(5))*imu0
       ENDIF
@@ -341,7 +341,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(6)))
         local_values(temdiag_i_list(6)) = local_values(temdiag_i_list(6))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(by, nx, nz, dx, dz, nxguards,nzguards,          &
+         CALL get_loc_field_energy_2d(by(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,          &
          local_values(temdiag_i_list(6)))
          local_values(temdiag_i_list(6)) = local_values(temdiag_i_list(6))*imu0
       ENDIF
@@ -355,7 +355,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(7)))
         local_values(temdiag_i_list(7)) = local_values(temdiag_i_list(7))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(bz, nx, nz, dx, dz, nxguards,nzguards,            &
+         CALL get_loc_field_energy_2d(bz(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,            &
          local_values(temdiag_i_list(7)))
          local_values(temdiag_i_list(7)) = local_values(temdiag_i_list(7))*imu0
       ENDIF
-- 
2.43.0


From 4546e256b80579150b71b99c495c78610fedd474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 43/66] fix: particle dumps select the particles that pass the
 filter, whatever their tile

---
 src/ios/simple_io.F90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 7a030eb..2e49070 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -706,12 +706,13 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
   INTEGER(idp), INTENT(IN) :: idump, narr
   INTEGER(idp), INTENT(IN OUT) :: ndump
   LOGICAL(lp), DIMENSION(narr), INTENT(IN OUT) :: mask
-  INTEGER(idp) :: ix, iy, iz, count, ip
+  INTEGER(idp) :: ix, iy, iz, count, ip, np
   TYPE(particle_species), POINTER :: curr
   TYPE(particle_dump), POINTER :: dp
   TYPE(particle_tile), POINTER :: curr_tile
   REAL(num) :: partx, party, partz, partux, partuy, partuz
   ndump = 0
+  np = 0
   mask = .FALSE.
 
   dp => particle_dumps(idump)
@@ -725,6 +726,7 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
           CYCLE
         ELSE
           DO ip = 1, count
+            np = np+1
             partx= curr_tile%part_x(ip)
             party= curr_tile%part_y(ip)
             partz= curr_tile%part_z(ip)
@@ -738,7 +740,7 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
             dp%dump_uy_min) .AND. (partuy .LT. dp%dump_uy_max) .AND. (partuz .GT.     &
             dp%dump_uz_min) .AND. (partuz .LT. dp%dump_uz_max)) THEN
             ndump = ndump+1
-            mask(ip) = .TRUE.
+            mask(np) = .TRUE.
           ENDIF
         END DO
       ENDIF
-- 
2.43.0


From 77752e7471e63727b5cd64e797da91ee8765e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 44/66] fix: particle dumps of the processes do not overwrite
 each other

---
 src/ios/simple_io.F90 | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 2e49070..d89035c 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -598,7 +598,7 @@ SUBROUTINE write_particles_to_file
   LOGICAL(lp), ALLOCATABLE, DIMENSION(:) :: mask
   INTEGER(idp)                            :: narr, idump, ncurr, ndump
   INTEGER(isp)                            :: fh
-  INTEGER(idp)                            :: offset
+  INTEGER(idp)                            :: offset, nbefore
   TYPE(particle_species), POINTER         :: curr
   TYPE(particle_dump), POINTER            :: dp
   REAL(num)                               :: tmptime, tottime, t0
@@ -627,6 +627,9 @@ SUBROUTINE write_particles_to_file
     CALL get_particles_to_dump(idump, mask, narr, ndump)
 
     CALL MPI_ALLREDUCE(ndump, ncurr, 1_isp, MPI_INTEGER8, MPI_SUM, comm, errcode)
+    ! NUMBER OF PARTICLES DUMPED BY THE PREVIOUS PROCS
+    CALL MPI_SCAN(ndump, nbefore, 1_isp, MPI_INTEGER8, MPI_SUM, comm, errcode)
+    nbefore = nbefore - ndump
 
     ! OPENING INPUT FILE
     CALL MPI_FILE_OPEN(comm, TRIM('./RESULTS/'//TRIM(ADJUSTL(curr%name))//'_it_'//    &
@@ -636,36 +639,36 @@ SUBROUTINE write_particles_to_file
     ALLOCATE(arr(ndump))
 
     ! WRITE - X
-    offset = 0
+    offset = nbefore * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 1_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
     ! WRITE - Y
 
-    offset = offset + ndump* SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 2_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
     ! WRITE - Z
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 3_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Ux
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 4_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Uy
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 5_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Uz
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 6_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Weight
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 7_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
-- 
2.43.0


From 6dfb5444572b012907c9bf9ef40cddc64ff597d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 45/66] fix: particle dumps in 2D do not filter on the
 undefined y

---
 src/ios/simple_io.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index d89035c..ae46d7b 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -737,7 +737,8 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
             partuy= curr_tile%part_uy(ip)
             partuz= curr_tile%part_uz(ip)
             IF ((partx .GT. dp%dump_x_min) .AND. (partx .LT. dp%dump_x_max) .AND.     &
-            (party .GT. dp%dump_y_min) .AND. (party .LT. dp%dump_y_max) .AND. (partz  &
+            (c_dim .EQ. 2 .OR. ((party .GT. dp%dump_y_min) .AND. (party .LT.          &
+            dp%dump_y_max))) .AND. (partz                                             &
             .GT. dp%dump_z_min) .AND. (partz .LT. dp%dump_z_max) .AND. (partux .GT.   &
             dp%dump_ux_min) .AND. (partux .LT. dp%dump_ux_max) .AND. (partuy .GT.     &
             dp%dump_uy_min) .AND. (partuy .LT. dp%dump_uy_max) .AND. (partuz .GT.     &
-- 
2.43.0


From e9bfae031889e59058347c06966a9dad8368d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 46/66] fix: time statistics are written once, by the first
 process, without a stray last record

---
 src/diags/diags.F90   | 9 ++++++---
 src/ios/simple_io.F90 | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index bc28029..f6adc4d 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -423,9 +423,12 @@ MODULE diagnostics
 
       nb_timestat = 13
 
-      OPEN(unit=41, file="./RESULTS/time_stat", FORM="unformatted", ACCESS='stream')
-      WRITE(41) nb_timestat
-      WRITE(41) timestat_period*dt
+      ! Only the first proc writes in this file
+      IF (rank.eq.0) THEN
+        OPEN(unit=41, file="./RESULTS/time_stat", FORM="unformatted", ACCESS='stream')
+        WRITE(41) nb_timestat
+        WRITE(41) timestat_period*dt
+      ENDIF
 
       IF (rank.eq.0) WRITE(0, *) ' Initialization of the time statistics output: ',   &
       nb_timestat
diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index ae46d7b..8b9a9d2 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -954,12 +954,13 @@ END SUBROUTINE
 !> Creation 2016
 ! ________________________________________________________________________________________
 SUBROUTINE final_output_time_statistics
+USE shared_data, ONLY: rank
 USE time_stat, ONLY: buffer_timestat, itimestat, timestat_activated
 IMPLICIT NONE
 
-IF (timestat_activated.gt.0) THEN
+IF ((timestat_activated.gt.0).and.(rank.eq.0)) THEN
 
-  write(41) buffer_timestat(1:13, 1:itimestat)
+  write(41) buffer_timestat(1:13, 1:itimestat-1)
 
 END IF
 
-- 
2.43.0


From a48692583d6f15138653bed6473b8d4626afc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:12 +0000
Subject: [PATCH 47/66] fix: read repeated sections of the input file

The local flag end_section kept its value from one call to the next, so that the
second section of a kind was skipped.
---
 src/initialization/control_file.F90 | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 6b828ab..b70cee1 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -515,8 +515,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_cpusplit_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
     ! READS CPUSPLIT SECTION OF INPUT FILE
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
@@ -582,8 +583,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_plasma_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
     ! READS CPUSPLIT SECTION OF INPUT FILE
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
@@ -621,8 +623,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_solver_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
     ! READS CPUSPLIT SECTION OF INPUT FILE
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
@@ -740,8 +743,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_sorting_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
     ! READS CPUSPLIT SECTION OF INPUT FILE
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
@@ -791,8 +795,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_timestat_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
     ! READS CPUSPLIT SECTION OF INPUT FILE
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
@@ -834,8 +839,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_main_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
     ! READS GRID SECTION OF INPUT FILE
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
@@ -1184,8 +1190,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_output_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
     ! READS GRID SECTION OF INPUT FILE
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
@@ -1261,8 +1268,9 @@ MODULE control_file
   ! ______________________________________________________________________________________
   SUBROUTINE read_temporal_output_section
     INTEGER :: ix = 0
-    LOGICAL(lp)  :: end_section = .FALSE.
+    LOGICAL(lp)  :: end_section
 
+    end_section = .FALSE.
     DO WHILE((.NOT. end_section) .AND. (ios==0))
       READ(fh_input, '(A)', iostat=ios) buffer
       !WRITE(0, *), TRIM(ADJUSTL(buffer))
-- 
2.43.0


From 5f5ee39e301a5adaec57553d0cef9297bf26e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:12 +0000
Subject: [PATCH 48/66] fix: end the temporal section of the input file where
 it ends

The end::temporal line was not recognised: everything after it was read as part
of the temporal section.
---
 src/initialization/control_file.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index b70cee1..7209e05 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -1313,6 +1313,8 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'divE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(10)
+      ELSE IF (INDEX(buffer, 'end::temporal') .GT. 0) THEN
+        end_section =.TRUE.
       ENDIF
     ENDDO
     RETURN
-- 
2.43.0


From 392849283142fc2d4735d2ff205d98210376583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:12 +0000
Subject: [PATCH 49/66] fix: read the vector lengths and the buffer size in the
 solver section

The documentation lists lvec_curr_depo, lvec_charge_depo, lvec_fieldgathe and
mpi_buf_size in section::solver, where they were ignored.
---
 src/initialization/control_file.F90 | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 7209e05..a2b4780 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -673,6 +673,16 @@ MODULE control_file
         READ(buffer(ix+1:string_length), '(i10)') partcom
       ELSE IF (INDEX(buffer, 'mpi_buf_size') .GT. 0) THEN
         ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') mpi_buf_size
+      ELSE IF (INDEX(buffer, 'lvec_curr_depo') .GT. 0) THEN
+        ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') lvec_curr_depo
+      ELSE IF (INDEX(buffer, 'lvec_charge_depo') .GT. 0) THEN
+        ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') lvec_charge_depo
+      ELSE IF (INDEX(buffer, 'lvec_fieldgathe') .GT. 0) THEN
+        ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') lvec_fieldgathe
       ELSE IF (INDEX(buffer, 'l_spectral') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) l_spectral
-- 
2.43.0


From 79b7ced3f7fdf00bbc7cb8b5bfb600ed17b00d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:12 +0000
Subject: [PATCH 50/66] fix: nxpml, nypml and nzpml on the command line set the
 PML width

They were taken for nx, ny and nz, which are part of their names.
---
 src/initialization/control_file.F90 | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index a2b4780..384cfc9 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -303,6 +303,15 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'dtcoef') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) dtcoef
+      ELSE IF (INDEX(buffer, 'nxpml') .GT. 0) THEN
+        CALL GETARG(i+1, buffer)
+        READ(buffer, '(i10)') nx_pml
+      ELSE IF (INDEX(buffer, 'nypml') .GT. 0) THEN
+        CALL GETARG(i+1, buffer)
+        READ(buffer, '(i10)') ny_pml
+      ELSE IF (INDEX(buffer, 'nzpml') .GT. 0) THEN
+        CALL GETARG(i+1, buffer)
+        READ(buffer, '(i10)') nz_pml
       ELSE IF (INDEX(buffer, 'nx') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) nx_global_grid
@@ -348,15 +357,6 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'absorbing_bcs_z') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) absorbing_bcs_z
-      ELSE IF (INDEX(buffer, 'nxpml') .GT. 0) THEN
-        CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nx_pml
-      ELSE IF (INDEX(buffer, 'nypml') .GT. 0) THEN
-        CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') ny_pml
-      ELSE IF (INDEX(buffer, 'nzpml') .GT. 0) THEN
-        CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nz_pml
       ELSE IF (INDEX(buffer, 'g_spectral') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) g_spectral
-- 
2.43.0


From 5229ba78add0d457caf8c27705d438c4d1ab28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:12 +0000
Subject: [PATCH 51/66] fix: read integers of the input file whatever the
 blanks around them

The first ten characters after the equal sign were read: a number further to the
right was cut or taken as zero.
---
 src/initialization/control_file.F90 | 202 ++++++++++++++--------------
 1 file changed, 101 insertions(+), 101 deletions(-)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 384cfc9..dfd61b4 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -266,34 +266,34 @@ MODULE control_file
       CALL GETARG(i, buffer)
       IF (INDEX(buffer, 'ntilex') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') ntilex
+        READ(buffer, *) ntilex
       ELSE IF (INDEX(buffer, 'ntiley') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') ntiley
+        READ(buffer, *) ntiley
       ELSE IF (INDEX(buffer, 'ntilez') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') ntilez
+        READ(buffer, *) ntilez
       ELSE IF (INDEX(buffer, 'distr') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') pdistr
+        READ(buffer, *) pdistr
       ELSE IF (INDEX(buffer, 'nprocx') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nprocx
+        READ(buffer, *) nprocx
       ELSE IF (INDEX(buffer, 'nprocy') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nprocy
+        READ(buffer, *) nprocy
       ELSE IF (INDEX(buffer, 'nprocz') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nprocz
+        READ(buffer, *) nprocz
       ELSE IF (INDEX(buffer, 'nox') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nox
+        READ(buffer, *) nox
       ELSE IF (INDEX(buffer, 'noy') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') noy
+        READ(buffer, *) noy
       ELSE IF (INDEX(buffer, 'noz') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') noz
+        READ(buffer, *) noz
       ELSE IF (INDEX(buffer, 'tmax') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) tmax
@@ -305,13 +305,13 @@ MODULE control_file
         READ(buffer, *) dtcoef
       ELSE IF (INDEX(buffer, 'nxpml') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nx_pml
+        READ(buffer, *) nx_pml
       ELSE IF (INDEX(buffer, 'nypml') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') ny_pml
+        READ(buffer, *) ny_pml
       ELSE IF (INDEX(buffer, 'nzpml') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nz_pml
+        READ(buffer, *) nz_pml
       ELSE IF (INDEX(buffer, 'nx') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) nx_global_grid
@@ -526,43 +526,43 @@ MODULE control_file
       ENDIF
       IF (INDEX(buffer, 'nprocx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nprocx
+        READ(buffer(ix+1:string_length), *) nprocx
       ELSE IF (INDEX(buffer, 'nprocy') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nprocy
+        READ(buffer(ix+1:string_length), *) nprocy
       ELSE IF (INDEX(buffer, 'nprocz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nprocz
+        READ(buffer(ix+1:string_length), *) nprocz
       ELSE IF (INDEX(buffer, 'topology') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') topology
+        READ(buffer(ix+1:string_length), *) topology
       ELSE IF (INDEX(buffer, 'mpicom_curr') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') mpicom_curr
+        READ(buffer(ix+1:string_length), *) mpicom_curr
       ELSE IF (INDEX(buffer, 'partcom') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') partcom
+        READ(buffer(ix+1:string_length), *) partcom
       ELSE IF (INDEX(buffer, 'fg_p_pp_separated') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') fg_p_pp_separated
+        READ(buffer(ix+1:string_length), *) fg_p_pp_separated
       ELSE IF (INDEX(buffer, 'particle_pusher') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') particle_pusher
+        READ(buffer(ix+1:string_length), *) particle_pusher
       ELSE IF (INDEX(buffer, 'lvec_curr_depo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') lvec_curr_depo
+        READ(buffer(ix+1:string_length), *) lvec_curr_depo
       ELSE IF (INDEX(buffer, 'lvec_charge_depo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') lvec_charge_depo
+        READ(buffer(ix+1:string_length), *) lvec_charge_depo
       ELSE IF (INDEX(buffer, 'lvec_fieldgathe') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') lvec_fieldgathe
+        READ(buffer(ix+1:string_length), *) lvec_fieldgathe
       ELSE IF (INDEX(buffer, 'mpi_buf_size') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') mpi_buf_size
+        READ(buffer(ix+1:string_length), *) mpi_buf_size
       ELSE IF (INDEX(buffer, 'c_dim') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_dim
+        READ(buffer(ix+1:string_length), *) c_dim
         IF(c_dim == 2) ny = 1_idp
       ELSE IF (INDEX(buffer, 'end::cpusplit') .GT. 0) THEN
         end_section =.TRUE.
@@ -603,7 +603,7 @@ MODULE control_file
         READ(buffer(ix+1:string_length), *) pdistr
       ELSE IF (INDEX(buffer, 'particle_pusher') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') particle_pusher
+        READ(buffer(ix+1:string_length), *) particle_pusher
       ELSE IF (INDEX(buffer, 'end::plasma') .GT. 0) THEN
         end_section =.TRUE.
       END IF
@@ -634,55 +634,55 @@ MODULE control_file
       ENDIF
       IF (INDEX(buffer, 'norderx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') norderx
+        READ(buffer(ix+1:string_length), *) norderx
       ELSE IF (INDEX(buffer, 'nordery') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nordery
+        READ(buffer(ix+1:string_length), *) nordery
       ELSE IF (INDEX(buffer, 'norderz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') norderz
+        READ(buffer(ix+1:string_length), *) norderz
       ELSE IF (INDEX(buffer, 'nox') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nox
+        READ(buffer(ix+1:string_length), *) nox
       ELSE IF (INDEX(buffer, 'nx_pml') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nx_pml
+        READ(buffer(ix+1:string_length), *) nx_pml
       ELSE IF (INDEX(buffer, 'ny_pml') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') ny_pml
+        READ(buffer(ix+1:string_length), *) ny_pml
       ELSE IF (INDEX(buffer, 'nz_pml') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nz_pml
+        READ(buffer(ix+1:string_length), *) nz_pml
       ELSE IF (INDEX(buffer, 'noy') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') noy
+        READ(buffer(ix+1:string_length), *) noy
       ELSE IF (INDEX(buffer, 'noz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') noz
+        READ(buffer(ix+1:string_length), *) noz
       ELSE IF (INDEX(buffer, 'currdepo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') currdepo
+        READ(buffer(ix+1:string_length), *) currdepo
       ELSE IF (INDEX(buffer, 'fieldgathe') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') fieldgathe
+        READ(buffer(ix+1:string_length), *) fieldgathe
       ELSE IF (INDEX(buffer, 'rhodepo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') rhodepo
+        READ(buffer(ix+1:string_length), *) rhodepo
       ELSE IF (INDEX(buffer, 'partcom') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') partcom
+        READ(buffer(ix+1:string_length), *) partcom
       ELSE IF (INDEX(buffer, 'mpi_buf_size') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') mpi_buf_size
+        READ(buffer(ix+1:string_length), *) mpi_buf_size
       ELSE IF (INDEX(buffer, 'lvec_curr_depo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') lvec_curr_depo
+        READ(buffer(ix+1:string_length), *) lvec_curr_depo
       ELSE IF (INDEX(buffer, 'lvec_charge_depo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') lvec_charge_depo
+        READ(buffer(ix+1:string_length), *) lvec_charge_depo
       ELSE IF (INDEX(buffer, 'lvec_fieldgathe') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') lvec_fieldgathe
+        READ(buffer(ix+1:string_length), *) lvec_fieldgathe
       ELSE IF (INDEX(buffer, 'l_spectral') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) l_spectral
@@ -719,16 +719,16 @@ MODULE control_file
 #if defined(FFTW)
       ELSE IF (INDEX(buffer, 'nb_group_z') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nb_group_z
+        READ(buffer(ix+1:string_length), *) nb_group_z
 #if defined(P3DFFT)
       ELSE IF (INDEX(buffer, 'nb_group_y') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nb_group_y
+        READ(buffer(ix+1:string_length), *) nb_group_y
 #endif
 #endif
       ELSE IF (INDEX(buffer, 'fg_p_pp_separated') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') fg_p_pp_separated
+        READ(buffer(ix+1:string_length), *) fg_p_pp_separated
       ELSE IF (INDEX(buffer, 'end::solver') .GT. 0) THEN
         end_section =.TRUE.
       END IF
@@ -764,7 +764,7 @@ MODULE control_file
       ENDIF
       IF (INDEX(buffer, 'activation') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') sorting_activated
+        READ(buffer(ix+1:string_length), *) sorting_activated
       ELSE IF (INDEX(buffer, 'dx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) sorting_dx
@@ -816,19 +816,19 @@ MODULE control_file
       ENDIF
       IF (INDEX(buffer, 'activation') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') timestat_activated
+        READ(buffer(ix+1:string_length), *) timestat_activated
       ELSE IF (INDEX(buffer, 'period') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') timestat_period
+        READ(buffer(ix+1:string_length), *) timestat_period
       ELSE IF (INDEX(buffer, 'it_start') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') timestat_itstart
+        READ(buffer(ix+1:string_length), *) timestat_itstart
       ELSE IF (INDEX(buffer, 'per_it') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') timestat_perit
+        READ(buffer(ix+1:string_length), *) timestat_perit
       ELSE IF (INDEX(buffer, 'buffersize') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nbuffertimestat
+        READ(buffer(ix+1:string_length), *) nbuffertimestat
       ELSE IF (INDEX(buffer, 'end::timestat') .GT. 0) THEN
         end_section =.TRUE.
       END IF
@@ -860,28 +860,28 @@ MODULE control_file
       ENDIF
       IF (INDEX(buffer, 'c_dim') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_dim
+        READ(buffer(ix+1:string_length), *) c_dim
       ELSE IF (INDEX(buffer, 'nx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nx_global_grid
+        READ(buffer(ix+1:string_length), *) nx_global_grid
         nx_global=nx_global_grid-1
       ELSE IF (INDEX(buffer, 'ny') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') ny_global_grid
+        READ(buffer(ix+1:string_length), *) ny_global_grid
         ny_global=ny_global_grid-1
       ELSE IF (INDEX(buffer, 'nz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nz_global_grid
+        READ(buffer(ix+1:string_length), *) nz_global_grid
         nz_global=nz_global_grid-1
       ELSE IF (INDEX(buffer, 'ntilex') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') ntilex
+        READ(buffer(ix+1:string_length), *) ntilex
       ELSE IF (INDEX(buffer, 'ntiley') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') ntiley
+        READ(buffer(ix+1:string_length), *) ntiley
       ELSE IF (INDEX(buffer, 'ntilez') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') ntilez
+        READ(buffer(ix+1:string_length), *) ntilez
       ELSEIF (INDEX(buffer, 'dx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) dx
@@ -920,41 +920,41 @@ MODULE control_file
         READ(buffer(ix+1:string_length), *) dtcoef
       ELSE IF (INDEX(buffer, 'nguardsx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nxguards
+        READ(buffer(ix+1:string_length), *) nxguards
 #if defined(FFTW)
         nxg_group=nxguards
 #endif
       ELSE IF (INDEX(buffer, 'nguardsy') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nyguards
+        READ(buffer(ix+1:string_length), *) nyguards
 #if defined(FFTW)
         nyg_group=nyguards
 #endif
       ELSE IF (INDEX(buffer, 'nguardsz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nzguards
+        READ(buffer(ix+1:string_length), *) nzguards
 #if defined(FFTW)
         nzg_group=nzguards
 #endif
       ELSE IF (INDEX(buffer, 'njguardsx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nxjguards
+        READ(buffer(ix+1:string_length), *) nxjguards
       ELSE IF (INDEX(buffer, 'njguardsy') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nyjguards
+        READ(buffer(ix+1:string_length), *) nyjguards
       ELSE IF (INDEX(buffer, 'njguardsz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nzjguards
+        READ(buffer(ix+1:string_length), *) nzjguards
 #if defined(FFTW)
       ELSE IF (INDEX(buffer, 'ngguards_z') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nzg_group
+        READ(buffer(ix+1:string_length), *) nzg_group
       ELSE IF (INDEX(buffer, 'ngguards_y') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nyg_group
+        READ(buffer(ix+1:string_length), *) nyg_group
       ELSE IF (INDEX(buffer, 'ngguards_x') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') nxg_group
+        READ(buffer(ix+1:string_length), *) nxg_group
 #endif
       ELSE IF (INDEX(buffer, 'l_plasma') .GT. 0) THEN
         ix = INDEX(buffer, "=")
@@ -1027,7 +1027,7 @@ MODULE control_file
         curr%charge=curr%charge*echarge
       ELSEIF (INDEX(buffer, 'nppcell') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') curr%nppcell
+        READ(buffer(ix+1:string_length), *) curr%nppcell
       ELSE IF (INDEX(buffer, 'x_min') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) curr%x_min
@@ -1179,7 +1179,7 @@ MODULE control_file
         READ(buffer(ix+1:string_length), *) dp%dump_uz_max
       ELSEIF (INDEX(buffer, 'diag_period') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') dp%diag_period
+        READ(buffer(ix+1:string_length), *) dp%diag_period
       ELSE IF (INDEX(buffer, 'end::particle_dump') .GT. 0) THEN
         end_section =.TRUE.
       END IF
@@ -1211,52 +1211,52 @@ MODULE control_file
       ENDIF
       IF (INDEX(buffer, 'output_frequency') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') output_frequency
+        READ(buffer(ix+1:string_length), *) output_frequency
       ELSE IF (INDEX(buffer, 'output_step_min') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') output_step_min
+        READ(buffer(ix+1:string_length), *) output_step_min
       ELSE IF (INDEX(buffer, 'output_step_max') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') output_step_max
+        READ(buffer(ix+1:string_length), *) output_step_max
       ELSEIF (INDEX(buffer, 'ex') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_ex
+        READ(buffer(ix+1:string_length), *) c_output_ex
       ELSE IF (INDEX(buffer, 'ey') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_ey
+        READ(buffer(ix+1:string_length), *) c_output_ey
       ELSE IF (INDEX(buffer, 'ez') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_ez
+        READ(buffer(ix+1:string_length), *) c_output_ez
       ELSEIF (INDEX(buffer, 'bx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_bx
+        READ(buffer(ix+1:string_length), *) c_output_bx
       ELSE IF (INDEX(buffer, 'by') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_by
+        READ(buffer(ix+1:string_length), *) c_output_by
       ELSE IF (INDEX(buffer, 'bz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_bz
+        READ(buffer(ix+1:string_length), *) c_output_bz
       ELSEIF (INDEX(buffer, 'jx') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_jx
+        READ(buffer(ix+1:string_length), *) c_output_jx
       ELSE IF (INDEX(buffer, 'jy') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_jy
+        READ(buffer(ix+1:string_length), *) c_output_jy
       ELSE IF (INDEX(buffer, 'jz') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_jz
+        READ(buffer(ix+1:string_length), *) c_output_jz
       ELSEIF (INDEX(buffer, 'rho') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_rho
+        READ(buffer(ix+1:string_length), *) c_output_rho
       ELSE IF (INDEX(buffer, 'dive') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_dive
+        READ(buffer(ix+1:string_length), *) c_output_dive
       ELSE IF (INDEX(buffer, 'divj') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_divj
+        READ(buffer(ix+1:string_length), *) c_output_divj
       ELSE IF (INDEX(buffer, 'divb') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') c_output_divb
+        READ(buffer(ix+1:string_length), *) c_output_divb
       ELSE IF (INDEX(buffer, 'end::output') .GT. 0) THEN
         end_section =.TRUE.
       END IF
@@ -1289,40 +1289,40 @@ MODULE control_file
       ENDIF
       IF (INDEX(buffer, 'frequency') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_frequency
+        READ(buffer(ix+1:string_length), *) temdiag_frequency
       ELSE IF (INDEX(buffer, 'format') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_format
+        READ(buffer(ix+1:string_length), *) temdiag_format
       ELSE IF (INDEX(buffer, 'kinE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(1)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(1)
       ELSE IF (INDEX(buffer, 'exE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(2)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(2)
       ELSE IF (INDEX(buffer, 'eyE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(3)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(3)
       ELSE IF (INDEX(buffer, 'ezE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(4)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(4)
       ELSE IF (INDEX(buffer, 'bxE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(5)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(5)
       ELSE IF (INDEX(buffer, 'byE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(6)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(6)
       ELSE IF (INDEX(buffer, 'bzE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(7)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(7)
       ELSE IF (INDEX(buffer, 'divE-rho') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(8)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(8)
       ELSE IF (INDEX(buffer, 'rho') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(9)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(9)
       ELSE IF (INDEX(buffer, 'divE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(10)
+        READ(buffer(ix+1:string_length), *) temdiag_act_list(10)
       ELSE IF (INDEX(buffer, 'end::temporal') .GT. 0) THEN
         end_section =.TRUE.
       ENDIF
@@ -1445,10 +1445,10 @@ MODULE control_file
         READ(buffer(ix+1:string_length), *) curr%antenna_params%polangle
       ELSE IF (INDEX(buffer, 'temporal_order') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)') curr%antenna_params%temporal_order
+        READ(buffer(ix+1:string_length), *) curr%antenna_params%temporal_order
       ELSE IF (INDEX(buffer, 'window') .GT. 0) THEN
         ix = INDEX(buffer, "=")
-        READ(buffer(ix+1:string_length), '(i10)')curr%antenna_params%time_window
+        READ(buffer(ix+1:string_length), *)curr%antenna_params%time_window
       ELSE IF (INDEX(buffer, 'end::antenna') .GT. 0) THEN
         end_section =.TRUE.
       ENDIF
-- 
2.43.0


From ea88e36575c697bb7c508a8485c1eb7ce3db5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:05 +0000
Subject: [PATCH 52/66] fix: a section that is commented out is not read

Comment lines were skipped inside sections only: '# section::antenna' started an
antenna section.
---
 src/initialization/control_file.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index dfd61b4..0603ae8 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -470,6 +470,7 @@ MODULE control_file
        
     DO WHILE(ios==0)
       READ(fh_input, '(A)', iostat=ios) buffer
+      IF (INDEX(buffer, '#') .GT. 0) CYCLE
       ix=INDEX(buffer, 'section::')
       IF (ix .GT. 0) THEN
         section_name=buffer(ix:string_length)
-- 
2.43.0


From ffed70a237ebc21e796f1888d7bc4dd82db9cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:26 +0000
Subject: [PATCH 53/66] fix: lvec_fieldgathe is not taken for fieldgathe

The keyword fieldgathe is part of lvec_fieldgathe and was looked for first,
in the solver section and on the command line.
---
 src/initialization/control_file.F90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 0603ae8..c000a60 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -321,7 +321,8 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'nz') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) nz_global_grid
-      ELSE IF (INDEX(buffer, 'fieldgathe') .GT. 0) THEN
+      ELSE IF (INDEX(buffer, 'fieldgathe') .GT. 0 .AND. &
+      INDEX(buffer, 'lvec_fieldgathe') .EQ. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) fieldgathe
       ELSE IF (INDEX(buffer, 'currdepo') .GT. 0) THEN
@@ -663,7 +664,8 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'currdepo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) currdepo
-      ELSE IF (INDEX(buffer, 'fieldgathe') .GT. 0) THEN
+      ELSE IF (INDEX(buffer, 'fieldgathe') .GT. 0 .AND. &
+      INDEX(buffer, 'lvec_fieldgathe') .EQ. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) fieldgathe
       ELSE IF (INDEX(buffer, 'rhodepo') .GT. 0) THEN
-- 
2.43.0


From 41858683ad10b49e9de562c918845f831fc0be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:10 +0000
Subject: [PATCH 54/66] fix: distribution 3 asks each species whether it is an
 antenna

The species was looked at before the pointer was set: the first time a null
pointer, then the species before.
---
 src/parallelization/tiling/tiling.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index 846417a..02df1e4 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -1006,8 +1006,8 @@ MODULE tiling
       !!! --- Sets-up particle space distribution (random space with a given velocity)
     ELSE IF (pdistr .EQ. 3) THEN
       DO ispecies=1, nspecies
-        IF (curr%is_antenna) CYCLE
         curr=>species_parray(ispecies)
+        IF (curr%is_antenna) CYCLE
         jmin = NINT(MAX(curr%x_min-x_min_local, 0.0_num)/dx)
         jmax = NINT(MIN(curr%x_max-x_min_local, x_max_local-x_min_local)/dx)
         kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
-- 
2.43.0


From 3e4d199a7a8065c942e0ef0aa429a14f0be62bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:10 +0000
Subject: [PATCH 55/66] fix: random distributions keep a species within its box

The particles were counted in the cells of the box of the species but spread
over the whole domain of the process.
---
 src/parallelization/tiling/tiling.F90 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index 02df1e4..f470e9e 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -975,9 +975,9 @@ MODULE tiling
               DO ipart=1, curr%nppcell
                 CALL RANDOM_NUMBER(rng(1:6))
                 ! Sets positions and weight
-                partx = x_min_local+MIN(rng(1), 0.999_num)*(x_max_local-x_min_local)
-                party = y_min_local+MIN(rng(2), 0.999_num)*(y_max_local-y_min_local)
-                partz = z_min_local+MIN(rng(3), 0.999_num)*(z_max_local-z_min_local)
+                partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
+                party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
+                partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
                 partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
@@ -1020,9 +1020,9 @@ MODULE tiling
               DO ipart=1, curr%nppcell
                 CALL RANDOM_NUMBER(rng(1:6))
                 ! Sets positions and weight
-                partx = x_min_local+MIN(rng(1), 0.999_num)*(x_max_local-x_min_local)
-                party = y_min_local+MIN(rng(2), 0.999_num)*(y_max_local-y_min_local)
-                partz = z_min_local+MIN(rng(3), 0.999_num)*(z_max_local-z_min_local)
+                partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
+                party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
+                partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
                 partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
 
                 ! Sets velocity
-- 
2.43.0


From 0553f7a14e5ac9fdc45f87eb1b3dd22d7e971fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:10 +0000
Subject: [PATCH 56/66] fix: random distributions load particles in 2D

The cells in y, where there are none in 2D, made the loops empty.
---
 src/parallelization/tiling/tiling.F90 | 38 ++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index f470e9e..bbc6cd3 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -969,6 +969,10 @@ MODULE tiling
         kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
         lmin = NINT(MAX(curr%z_min-z_min_local, 0.0_num)/dz)
         lmax = NINT(MIN(curr%z_max-z_min_local, z_max_local-z_min_local)/dz)
+        IF (c_dim .EQ. 2) THEN
+          kmin = 0
+          kmax = 1
+        END IF
         DO l=lmin, lmax-1
           DO k=kmin, kmax-1
             DO j=jmin, jmax-1
@@ -978,7 +982,11 @@ MODULE tiling
                 partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
                 party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
                 partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
-                partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                IF (c_dim .EQ. 2) THEN
+                  partpid(wpid) = nc*dx*dz/(curr%nppcell)
+                ELSE
+                  partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                END IF
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
                 th=2*pi*rng(5)
@@ -994,8 +1002,13 @@ MODULE tiling
                 partuz = partvz /gaminv
 
                 ! Adds particle to array of tiles of current species
-                CALL add_particle_to_species(curr, partx, party, partz, partux,       &
-                partuy, partuz, gaminv, partpid)
+                IF (c_dim .EQ. 2) THEN
+                  CALL add_particle_to_species_2d(curr, partx, partz, partux, partuy, &
+                  partuz, gaminv, partpid)
+                ELSE
+                  CALL add_particle_to_species(curr, partx, party, partz, partux,     &
+                  partuy, partuz, gaminv, partpid)
+                END IF
               END DO
             END DO
           END DO
@@ -1014,6 +1027,10 @@ MODULE tiling
         kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
         lmin = NINT(MAX(curr%z_min-z_min_local, 0.0_num)/dz)
         lmax = NINT(MIN(curr%z_max-z_min_local, z_max_local-z_min_local)/dz)
+        IF (c_dim .EQ. 2) THEN
+          kmin = 0
+          kmax = 1
+        END IF
         DO l=lmin, lmax-1
           DO k=kmin, kmax-1
             DO j=jmin, jmax-1
@@ -1023,7 +1040,11 @@ MODULE tiling
                 partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
                 party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
                 partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
-                partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                IF (c_dim .EQ. 2) THEN
+                  partpid(wpid) = nc*dx*dz/(curr%nppcell)
+                ELSE
+                  partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                END IF
 
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
@@ -1040,8 +1061,13 @@ MODULE tiling
                 partuz = partvz /gaminv
 
                 ! Adds particle to array of tiles of current species
-                CALL add_particle_to_species(curr, partx, party, partz, partux,       &
-                partuy, partuz, gaminv, partpid)
+                IF (c_dim .EQ. 2) THEN
+                  CALL add_particle_to_species_2d(curr, partx, partz, partux, partuy, &
+                  partuz, gaminv, partpid)
+                ELSE
+                  CALL add_particle_to_species(curr, partx, party, partz, partux,     &
+                  partuy, partuz, gaminv, partpid)
+                END IF
               END DO
             END DO
           END DO
-- 
2.43.0


From 1a0727fe04114f92b6f3f5c700747d630edb8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:32 +0000
Subject: [PATCH 57/66] fix: sorting moves all the properties of a particle
 with it

---
 src/housekeeping/sorting.F90 | 37 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index 76ba2fc..c176a38 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -107,7 +107,7 @@ MODULE sorting
     USE grid_tilemodule, ONLY: aofgrid_tiles, grid_tile
     USE mpi
     USE params, ONLY: it
-    USE particle_properties, ONLY: nspecies, wpid
+    USE particle_properties, ONLY: npid, nspecies
     USE particle_speciesmodule, ONLY: particle_species
     USE particle_tilemodule, ONLY: particle_tile
     USE particles, ONLY: species_parray
@@ -130,7 +130,8 @@ MODULE sorting
     REAL(num)                       :: sxmin, symin, szmin
 
     !$OMP PARALLEL DO COLLAPSE(3) SCHEDULE(runtime) DEFAULT(NONE) SHARED(ntilex,      &
-    !$OMP ntiley, ntilez, nspecies, species_parray, aofgrid_tiles, dx, dy, dz, it,    &
+    !$OMP ntiley, ntilez, npid, nspecies, species_parray, aofgrid_tiles, dx, dy, dz,  &
+    !$OMP it,                                                                         &
     !$OMP rank, sorting_shiftx, sorting_shifty, sorting_shiftz, sorting_dx,c_dim,     &
     !$OMP sorting_dy, sorting_dz, sorting_verbose) PRIVATE(ix, iy, iz, ispecies,      &
     !$OMP curr, curr_tile, currg, count, nxc, nyc, nzc, nxjg, nyjg, nzjg, isgathered, &
@@ -189,7 +190,7 @@ MODULE sorting
                 CALL pxr_particle_bin_sorting(count, curr_tile%part_x,                &
                 curr_tile%part_y, curr_tile%part_z, curr_tile%part_ux,                &
                 curr_tile%part_uy, curr_tile%part_uz, curr_tile%part_gaminv,          &
-                curr_tile%pid, wpid, sxmin, symin, szmin, curr_tile%x_tile_max +      &
+                curr_tile%pid, npid, sxmin, symin, szmin, curr_tile%x_tile_max +      &
                 sorting_dx, curr_tile%y_tile_max + sorting_dy, curr_tile%z_tile_max + &
                 sorting_dz, sorting_dx, sorting_dy, sorting_dz)
               ELSE
@@ -199,7 +200,7 @@ MODULE sorting
                 CALL pxr_particle_bin_sorting_2d(count, curr_tile%part_x,              &
                 curr_tile%part_z, curr_tile%part_ux,                                   &
                 curr_tile%part_uy, curr_tile%part_uz, curr_tile%part_gaminv,           &
-                curr_tile%pid, wpid, sxmin,  szmin, curr_tile%x_tile_max +             &
+                curr_tile%pid, npid, sxmin,  szmin, curr_tile%x_tile_max +             &
                 sorting_dx                         ,curr_tile%z_tile_max +             &
                 sorting_dz, sorting_dx, sorting_dz)
 
@@ -237,14 +238,14 @@ END SUBROUTINE particle_sorting_sub
 !> @param[inout] xp, yp, zp particle positions
 !> @param[inout] ux, uy, uz particle momenta
 !> @param[inout] gam particle gamma factor
-!> @param[inout] pid particle id
-!> @param[inout] wpid particle weight
+!> @param[inout] pid particle properties
+!> @param[in] npid number of particle properties
 !> @param[in] xmin2, ymin2, zmin2 minimum point position on the local grid
 !> @param[in] xmax2, ymax2, zmax2 maximum point position on the local grid
 !> @param[in] dxf, dyf, dzf bin space steps
 !
 ! ______________________________________________________________________________________
-SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,    &
+SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, npid,    &
   xmin2, ymin2, zmin2, xmax2, ymax2, zmax2, dxf, dyf, dzf)
   USE picsar_precision, ONLY: idp, num
   implicit none
@@ -252,7 +253,7 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
   integer(idp) :: k, ic, nbhc
   integer(idp) :: ix, iy, iz
   integer(idp) :: nx3, ny3, nz3
-  integer(idp) :: wpid
+  integer(idp) :: npid
   real(num)    :: dxi, dyi, dzi
   real(num)    :: dxf, dyf, dzf
   real(num)    :: x2, y2, z2
@@ -261,11 +262,11 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
   real(num), dimension(np2), intent(inout)      :: xp, yp, zp
   real(num), dimension(np2), intent(inout)      :: ux, uy, uz
   real(num), dimension(np2), intent(inout)      :: gam
-  REAL(num), DIMENSION(np2, 1), intent(inout)    :: pid
+  REAL(num), DIMENSION(:, :), intent(inout)     :: pid
   real(num), dimension(np2)                     :: xps, yps, zps
   real(num), dimension(np2)                     :: uxs, uys, uzs
   real(num), dimension(np2)                     :: gams
-  real(num), dimension(np2, wpid)                :: pids
+  real(num), dimension(np2, npid)                :: pids
   integer(idp), dimension(np2)                  :: hcnb! Cell number
   integer(idp), dimension(:), allocatable        :: piihc! Particle indexes in the grid
   integer(idp), dimension(:), allocatable        :: nbppc! Number of particles per cells
@@ -333,7 +334,7 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
 
     k = hcnb(ip)
     piihc(k) = piihc(k) + 1
-    pids(piihc(k), :) = pid(ip, :)
+    pids(piihc(k), :) = pid(ip, 1:npid)
 
     xps(piihc(k)) = xp(ip)
     yps(piihc(k)) = yp(ip)
@@ -347,7 +348,7 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
   END DO
 
   ! Copy back to the original arrays
-  pid = pids
+  pid(1:np2, 1:npid) = pids
   xp = xps
   yp = yps
   zp = zps
@@ -361,7 +362,7 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
 END SUBROUTINE
 
 
-SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,    &
+SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, npid,    &
   xmin2,  zmin2, xmax2,  zmax2, dxf,  dzf)
   USE picsar_precision, ONLY: idp, num
   implicit none
@@ -369,7 +370,7 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
   integer(idp) :: k, ic, nbhc
   integer(idp) :: ix,  iz
   integer(idp) :: nx3,  nz3
-  integer(idp) :: wpid
+  integer(idp) :: npid
   real(num)    :: dxi, dzi
   real(num)    :: dxf, dzf
   real(num)    :: x2, z2
@@ -378,11 +379,11 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
   real(num), dimension(np2), intent(inout)      :: xp,  zp
   real(num), dimension(np2), intent(inout)      :: ux, uy, uz
   real(num), dimension(np2), intent(inout)      :: gam
-  REAL(num), DIMENSION(np2, 1), intent(inout)    :: pid
+  REAL(num), DIMENSION(:, :), intent(inout)     :: pid
   real(num), dimension(np2)                     :: xps, zps
   real(num), dimension(np2)                     :: uxs, uys, uzs
   real(num), dimension(np2)                     :: gams
-  real(num), dimension(np2, wpid)                :: pids
+  real(num), dimension(np2, npid)                :: pids
   integer(idp), dimension(np2)                  :: hcnb! Cell number
   integer(idp), dimension(:), allocatable        :: piihc! Particle indexes in the grid
   integer(idp), dimension(:), allocatable        :: nbppc! Number of particles per cells
@@ -446,7 +447,7 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
 
     k = hcnb(ip)
     piihc(k) = piihc(k) + 1
-    pids(piihc(k), :) = pid(ip, :)
+    pids(piihc(k), :) = pid(ip, 1:npid)
 
     xps(piihc(k)) = xp(ip)
     zps(piihc(k)) = zp(ip)
@@ -459,7 +460,7 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
   END DO
 
   ! Copy back to the original arrays
-  pid = pids
+  pid(1:np2, 1:npid) = pids
   xp = xps
   zp = zps
   ux = uxs
-- 
2.43.0


From 636ca39336a9fccfcff89625d4f6f4cc9b4c77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 58/66] fix: sorting with a positive shift of the sorting grid

---
 src/housekeeping/sorting.F90 | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index c176a38..d24025a 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -182,10 +182,14 @@ MODULE sorting
               IF (count .EQ. 0) CYCLE
 
               ! Sorting algorithm inside the tiles
+              ! (the first bin begins at the beginning of the tile or before)
               IF(c_dim ==3) THEN
-                sxmin = curr_tile%x_tile_min + sorting_shiftx
-                symin = curr_tile%y_tile_min + sorting_shifty
-                szmin = curr_tile%z_tile_min + sorting_shiftz
+                sxmin = curr_tile%x_tile_min + sorting_shiftx                        &
+                - MAX(0.0_num, CEILING(sorting_shiftx/sorting_dx)*sorting_dx)
+                symin = curr_tile%y_tile_min + sorting_shifty                        &
+                - MAX(0.0_num, CEILING(sorting_shifty/sorting_dy)*sorting_dy)
+                szmin = curr_tile%z_tile_min + sorting_shiftz                        &
+                - MAX(0.0_num, CEILING(sorting_shiftz/sorting_dz)*sorting_dz)
 
                 CALL pxr_particle_bin_sorting(count, curr_tile%part_x,                &
                 curr_tile%part_y, curr_tile%part_z, curr_tile%part_ux,                &
@@ -194,8 +198,10 @@ MODULE sorting
                 sorting_dx, curr_tile%y_tile_max + sorting_dy, curr_tile%z_tile_max + &
                 sorting_dz, sorting_dx, sorting_dy, sorting_dz)
               ELSE
-                sxmin = curr_tile%x_tile_min + sorting_shiftx
-                szmin = curr_tile%z_tile_min + sorting_shiftz
+                sxmin = curr_tile%x_tile_min + sorting_shiftx                        &
+                - MAX(0.0_num, CEILING(sorting_shiftx/sorting_dx)*sorting_dx)
+                szmin = curr_tile%z_tile_min + sorting_shiftz                        &
+                - MAX(0.0_num, CEILING(sorting_shiftz/sorting_dz)*sorting_dz)
 
                 CALL pxr_particle_bin_sorting_2d(count, curr_tile%part_x,              &
                 curr_tile%part_z, curr_tile%part_ux,                                   &
-- 
2.43.0


From 75a414cb9aaddfc5c6e1547f951bc64f30bbb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:55 +0000
Subject: [PATCH 59/66] fix: sorting particles that a boundary left out of
 their tile

---
 src/housekeeping/sorting.F90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index d24025a..41a16d4 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -303,9 +303,10 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, npid,
     y2 = (yp(ip)-ymin2)*dyi
     z2 = (zp(ip)-zmin2)*dzi
 
-    ix = floor(x2)
-    iy = floor(y2)
-    iz = floor(z2)
+    ! A particle put back by a boundary may be out of its tile
+    ix = MIN(MAX(int(floor(x2), idp), 0_idp), nx3-1)
+    iy = MIN(MAX(int(floor(y2), idp), 0_idp), ny3-1)
+    iz = MIN(MAX(int(floor(z2), idp), 0_idp), nz3-1)
 
     ! Bin id
     hcnb(ip) = iz*nx3*ny3 + iy*nx3 + ix+1
@@ -417,8 +418,9 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, npid,
     x2 = (xp(ip)-xmin2)*dxi
     z2 = (zp(ip)-zmin2)*dzi
 
-    ix = floor(x2)
-    iz = floor(z2)
+    ! A particle put back by a boundary may be out of its tile
+    ix = MIN(MAX(int(floor(x2), idp), 0_idp), nx3-1)
+    iz = MIN(MAX(int(floor(z2), idp), 0_idp), nz3-1)
 
     ! Bin id
     hcnb(ip) = iz*nx3 +  ix+1
-- 
2.43.0


From 17ef442e7042e4542151ee42265f2b1c3b6ce33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:25 +0000
Subject: [PATCH 60/66] fix: load balancing shares all the cells between all
 the processes

---
 src/housekeeping/load_balancing.F90 | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/housekeeping/load_balancing.F90 b/src/housekeeping/load_balancing.F90
index 1bf76f2..80d5650 100644
--- a/src/housekeeping/load_balancing.F90
+++ b/src/housekeeping/load_balancing.F90
@@ -2013,7 +2013,8 @@ SUBROUTINE compute_send_recv_sizes_and_index_g2l_copies
       curr_proc_load=0_num
       idirmin(iproc)=icell
       delta=0_num
-      DO WHILE((not_balanced) .AND. (icell .LT. ncellmaxdir-1))
+      ! Each of the next processes is left at least one cell
+      DO WHILE((not_balanced) .AND. (icell .LT. ncellmaxdir-nproc_in_dir+iproc))
         curr_proc_load=curr_proc_load+load_in_dir(icell)
         IF(curr_proc_load .GE. curr_balanced_load)  THEN
           not_balanced=.FALSE.
@@ -2027,10 +2028,8 @@ SUBROUTINE compute_send_recv_sizes_and_index_g2l_copies
       delta=(iproc+1_num)*balanced_load-SUM(load_per_proc)
       curr_balanced_load=balanced_load+delta
       icell=icell+1
-      ! Sanity check
-      IF ((iproc .EQ. nproc_in_dir-1) .AND. (icell .LT. ncellmaxdir-1)) THEN
-        idirmax(iproc)=ncellmaxdir-1
-      ENDIF
+      ! The last process takes what is left
+      IF (iproc .EQ. nproc_in_dir-1) idirmax(iproc)=ncellmaxdir-1
     END DO
 
 
-- 
2.43.0


From 69f1ac4c647262581708324b5527678699bb3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:25 +0000
Subject: [PATCH 61/66] fix: rank of a process without a cartesian communicator

---
 src/housekeeping/load_balancing.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/housekeeping/load_balancing.F90 b/src/housekeeping/load_balancing.F90
index 80d5650..2660d07 100644
--- a/src/housekeeping/load_balancing.F90
+++ b/src/housekeeping/load_balancing.F90
@@ -139,9 +139,9 @@ MODULE load_balance
       IF (ixt .LT. 0)     ixt=npx-1
       IF (ixt .GT. npx-1) ixt=0
       IF (iyt .LT. 0)     iyt=npy-1
-      IF (iyt .GT. npx-1) iyt=0
+      IF (iyt .GT. npy-1) iyt=0
       IF (izt .LT. 0)     izt=npz-1
-      IF (izt .GT. npx-1) izt=0
+      IF (izt .GT. npz-1) izt=0
       curr_rank= ixt +iyt*npx+izt*npx*npy
     ENDIF
 
-- 
2.43.0


From 64aad91d01c548f2dd6b671c77d438370eeaa22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:25 +0000
Subject: [PATCH 62/66] fix: a new split in tiles initializes the arrays of its
 tiles

---
 src/housekeeping/load_balancing.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/housekeeping/load_balancing.F90 b/src/housekeeping/load_balancing.F90
index 2660d07..d35bf9e 100644
--- a/src/housekeeping/load_balancing.F90
+++ b/src/housekeeping/load_balancing.F90
@@ -2219,6 +2219,7 @@ SUBROUTINE compute_send_recv_sizes_and_index_g2l_copies
 #ifdef _OPENMP
     USE omp_lib
 #endif
+    USE particle_properties, ONLY: l_aofgrid_tiles_array_allocated
     IMPLICIT NONE
     TYPE(particle_species), DIMENSION(:), ALLOCATABLE, TARGET :: new_species_parray
     TYPE(particle_species), POINTER :: currsp, currsp_new
@@ -2288,6 +2289,7 @@ SUBROUTINE compute_send_recv_sizes_and_index_g2l_copies
     ALLOCATE(aofgrid_tiles(ntilex_new, ntiley_new, ntilez_new))
 
     ! Init new tile arrays of new species array
+    l_aofgrid_tiles_array_allocated=.FALSE.
     CALL init_tile_arrays_for_species(nspecies, new_species_parray, aofgrid_tiles,    &
     ntilex_new, ntiley_new, ntilez_new)
 
@@ -2416,6 +2418,7 @@ y_max_local, z_max_local)
 DEALLOCATE(aofgrid_tiles)
 ALLOCATE(aofgrid_tiles(ntilex, ntiley, ntilez))
 
+l_aofgrid_tiles_array_allocated=.FALSE.
 CALL init_tile_arrays_for_species(nspecies, species_parray, aofgrid_tiles, ntilex,    &
 ntiley, ntilez)
 
-- 
2.43.0


From b796e527e1c9981ed3588b85edbefe068e18a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:25 +0000
Subject: [PATCH 63/66] fix: a new split in tiles keeps all the properties of
 the species

---
 src/housekeeping/load_balancing.F90 | 67 ++++++++++++++++-------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/housekeeping/load_balancing.F90 b/src/housekeeping/load_balancing.F90
index d35bf9e..1a2a5ab 100644
--- a/src/housekeeping/load_balancing.F90
+++ b/src/housekeeping/load_balancing.F90
@@ -2262,21 +2262,7 @@ SUBROUTINE compute_send_recv_sizes_and_index_g2l_copies
     DO ispecies=1, nspecies
       currsp=>species_parray(ispecies)
       currsp_new=>new_species_parray(ispecies)
-      currsp_new%charge=currsp%charge
-      currsp_new%mass=currsp%mass
-      currsp_new%x_min=currsp%x_min
-      currsp_new%x_max=currsp%x_max
-      currsp_new%y_min=currsp%y_min
-      currsp_new%y_max=currsp%y_max
-      currsp_new%z_min=currsp%z_min
-      currsp_new%z_max=currsp%z_max
-      currsp_new%vth_x=currsp%vth_x
-      currsp_new%vth_y=currsp%vth_y
-      currsp_new%vth_z=currsp%vth_z
-      currsp_new%vdrift_x=currsp%vdrift_x
-      currsp_new%vdrift_y=currsp%vdrift_y
-      currsp_new%vdrift_z=currsp%vdrift_z
-      currsp_new%nppcell=currsp%nppcell
+      CALL copy_species_properties(currsp, currsp_new)
     END DO
 
     CALL set_tile_split_for_species(new_species_parray, nspecies, ntilex_new,         &
@@ -2392,21 +2378,7 @@ ALLOCATE(species_parray(nspecies))
 DO ispecies=1, nspecies
   currsp=>species_parray(ispecies)
   currsp_new=>new_species_parray(ispecies)
-  currsp%charge=currsp_new%charge
-  currsp%mass=currsp_new%mass
-  currsp%x_min=currsp_new%x_min
-  currsp%x_max=currsp_new%x_max
-  currsp%y_min=currsp_new%y_min
-  currsp%y_max=currsp_new%y_max
-  currsp%z_min=currsp_new%z_min
-  currsp%z_max=currsp_new%z_max
-  currsp%vth_x=currsp_new%vth_x
-  currsp%vth_y=currsp_new%vth_y
-  currsp%vth_z=currsp_new%vth_z
-  currsp%vdrift_x=currsp_new%vdrift_x
-  currsp%vdrift_y=currsp_new%vdrift_y
-  currsp%vdrift_z=currsp_new%vdrift_z
-  currsp%nppcell=currsp_new%nppcell
+  CALL copy_species_properties(currsp_new, currsp)
 END DO
 
 
@@ -2456,6 +2428,41 @@ DEALLOCATE(new_species_parray)
 
 END SUBROUTINE create_new_tile_split
 
+! ________________________________________________________________________________________
+!> @brief
+!> This subroutine copies all the properties of a species, except its particles
+! ________________________________________________________________________________________
+SUBROUTINE copy_species_properties(sp_from, sp_to)
+  IMPLICIT NONE
+  TYPE(particle_species), INTENT(IN) :: sp_from
+  TYPE(particle_species), INTENT(IN OUT) :: sp_to
+
+  sp_to%name=sp_from%name
+  sp_to%kin_energy_sp=sp_from%kin_energy_sp
+  sp_to%is_antenna=sp_from%is_antenna
+  sp_to%antenna_params=sp_from%antenna_params
+  sp_to%charge=sp_from%charge
+  sp_to%mass=sp_from%mass
+  sp_to%x_min=sp_from%x_min
+  sp_to%x_max=sp_from%x_max
+  sp_to%y_min=sp_from%y_min
+  sp_to%y_max=sp_from%y_max
+  sp_to%z_min=sp_from%z_min
+  sp_to%z_max=sp_from%z_max
+  sp_to%vdrift_x=sp_from%vdrift_x
+  sp_to%vdrift_y=sp_from%vdrift_y
+  sp_to%vdrift_z=sp_from%vdrift_z
+  sp_to%vth_x=sp_from%vth_x
+  sp_to%vth_y=sp_from%vth_y
+  sp_to%vth_z=sp_from%vth_z
+  sp_to%nppspecies_max=sp_from%nppspecies_max
+  sp_to%nppcell=sp_from%nppcell
+  sp_to%sorting_period=sp_from%sorting_period
+  sp_to%sorting_start=sp_from%sorting_start
+  sp_to%ldodepos=sp_from%ldodepos
+  sp_to%lfreeze=sp_from%lfreeze
+END SUBROUTINE copy_species_properties
+
 ! ________________________________________________________________________________________
 !> @brief
 !> This subroutines needs a description.
-- 
2.43.0


From cede40c1f1137465496986470811b2f91b459f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:55 +0000
Subject: [PATCH 64/66] fix: pass logicals of the right kind to the field
 gathering

The dummies are LOGICAL(lp), 8 bytes; a default .FALSE. has 4, so that
what follows the constant in memory decided whether the fields of a
particle left of its tile's first node were mirrored (l4symtry).
---
 src/particle_pushers/particle_pusher_manager_2d.F90 | 2 +-
 src/particle_pushers/particle_pusher_manager_3d.F90 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particle_pushers/particle_pusher_manager_2d.F90 b/src/particle_pushers/particle_pusher_manager_2d.F90
index 2c84958..2124a0a 100644
--- a/src/particle_pushers/particle_pusher_manager_2d.F90
+++ b/src/particle_pushers/particle_pusher_manager_2d.F90
@@ -203,7 +203,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub_2d(exg, eyg, ezg, bxg, byg,
             curr_tile%z_grid_tile_min, dxx, dyy, dzz, curr_tile%nx_cells_tile,        &
             curr_tile%ny_cells_tile, curr_tile%nz_cells_tile, nxjg, 0_idp, nzjg, noxx,&
             noyy, nozz, extile, eytile, eztile, bxtile,                               &
-            bytile, bztile , .FALSE., .TRUE., LVEC_fieldgathe,                        &
+            bytile, bztile , .FALSE._lp, .TRUE._lp, LVEC_fieldgathe,                  &
             fieldgathe)
           END IF
 
diff --git a/src/particle_pushers/particle_pusher_manager_3d.F90 b/src/particle_pushers/particle_pusher_manager_3d.F90
index 49dbb85..599aff1 100644
--- a/src/particle_pushers/particle_pusher_manager_3d.F90
+++ b/src/particle_pushers/particle_pusher_manager_3d.F90
@@ -309,7 +309,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg
               curr_tile%nx_cells_tile, curr_tile%ny_cells_tile,                       &
               curr_tile%nz_cells_tile, nxjg, nyjg, nzjg, noxx, noyy, nozz,            &
               extile, eytile, eztile, bxtile, bytile,                                 &
-              bztile, .FALSE., l_lower_order_in_v_in, LVEC_fieldgathe,                &
+              bztile, .FALSE._lp, l_lower_order_in_v_in, LVEC_fieldgathe,             &
               fieldgathe)
 
             CASE DEFAULT! 3D CASE
@@ -323,7 +323,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg
               curr_tile%nx_cells_tile, curr_tile%ny_cells_tile,                       &
               curr_tile%nz_cells_tile, nxjg, nyjg, nzjg, noxx, noyy, nozz,            &
               extile, eytile, eztile, bxtile, bytile,                                 &
-              bztile , .FALSE., l_lower_order_in_v_in, lvec_fieldgathe,               &
+              bztile , .FALSE._lp, l_lower_order_in_v_in, lvec_fieldgathe,            &
               fieldgathe)
             END SELECT
 
-- 
2.43.0


From 29fde6989e108154342648ead259cfb252826ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:19 +0000
Subject: [PATCH 65/66] fix: the multimode Yee push compiles with OpenMP

The loops over r are followed by a statement for the axis: they cannot be
collapsed (gfortran: collapsed !$OMP DO loops not perfectly nested).
---
 src/field_solvers/Maxwell/yee_solver/yee.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field_solvers/Maxwell/yee_solver/yee.F90 b/src/field_solvers/Maxwell/yee_solver/yee.F90
index 0b724ab..81c4a5f 100644
--- a/src/field_solvers/Maxwell/yee_solver/yee.F90
+++ b/src/field_solvers/Maxwell/yee_solver/yee.F90
@@ -525,7 +525,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Etheta
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Et,Bz,Br,Jt)
 !$acc loop gang vector collapse(2)
@@ -571,7 +571,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Ez
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Ez,Br,Bt,Jz)
 !$acc loop gang vector collapse(2)
-- 
2.43.0


From 12879f24202d86b43cd6b936ba5e1a33bdc9ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:41 +0000
Subject: [PATCH 66/66] fix: tiles add their guard cells to the grid one at a
 time

In each of the phases +/-X, +/-Y and +/-Z of the charge and current
depositions, neighbouring tiles add to the same nodes of the grid (the
guard cells in y and z too, in the phase +/-X): with several OpenMP threads
updates were lost.
---
 .../charge_deposition_manager.F90             | 30 +++++++++++++++++++
 .../current_deposition_manager_2d.F90         |  6 ++++
 .../current_deposition_manager_3d.F90         | 30 +++++++++++++++++++
 3 files changed, 66 insertions(+)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_manager.F90 b/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
index 434413a..8e935cf 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
@@ -387,6 +387,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -395,6 +396,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -430,12 +432,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -471,12 +475,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -644,6 +650,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -652,6 +659,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -687,12 +695,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -728,12 +738,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -884,6 +896,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -892,6 +905,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -927,12 +941,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -968,12 +984,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1139,6 +1157,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -1147,6 +1166,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -1182,12 +1202,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1223,12 +1245,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1394,6 +1418,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -1402,6 +1427,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -1437,12 +1463,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1478,12 +1506,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
index a7f951d..15dbfab 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
@@ -609,6 +609,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -633,6 +634,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -668,6 +670,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -686,6 +689,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -721,6 +725,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -739,6 +744,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
index 0f2b522..72e623d 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
@@ -651,6 +651,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -675,6 +676,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -710,6 +712,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -728,6 +731,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -763,6 +767,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -781,6 +786,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1013,6 +1019,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1037,6 +1044,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -1072,6 +1080,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -1090,6 +1099,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1125,6 +1135,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -1143,6 +1154,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1377,6 +1389,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1401,6 +1414,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -1436,6 +1450,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -1454,6 +1469,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1489,6 +1505,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -1507,6 +1524,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1673,6 +1691,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1697,6 +1716,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -1732,6 +1752,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -1750,6 +1771,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1785,6 +1807,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -1803,6 +1826,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -1963,6 +1987,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1987,6 +2012,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         ENDIF
       END DO
     END DO
@@ -2022,6 +2048,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -2040,6 +2067,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
@@ -2075,6 +2103,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (add_guardcells)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -2093,6 +2122,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (add_guardcells)
         END IF
       END DO
     END DO
-- 
2.43.0

