From a1a7d9b8fa272b2481c3ff272e7571f16f6b1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 01/11] fix: Adiabaticwall indexes the wall velocity from 0

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 1a43313..f1c0d2b 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -316,7 +316,7 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 {
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
 }
 
@@ -333,9 +333,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	dgs[0] = 1.0;
 
 	for(int i= 1; i< NDIM+1; i++) {
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
-		dgs[i*NVARS+0] = 2.0*wallvel[i];
+		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-- 
2.43.0


From 9df36a8d4004aa40076f29ecf9704a8ee9cd0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 02/11] fix: InOutFlow's Jacobian routine uses the same
 supersonic test as computeGhostState

---
 src/spatial/abc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index f1c0d2b..835506a 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -110,7 +110,7 @@ void InOutFlow<scalar,j_real>::computeGhostStateAndJacobian(const j_real *const
 	/* At subsonic outflow, pressure is taken from farfield, the other 3 quantities
 	 * are taken from the interior.
 	 */
-	else if(Mni <= 1)
+	else if(Mni < 1)
 	{
 		gs[0] = ins[0];
 		gs[1] = ins[1];
-- 
2.43.0


From 96ff6d4b8cf47b618cbf7b7e744ad72d3a5bd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 03/11] fix: InFlow uses the outgoing Riemann invariant,
 non-dimensional speed and inward direction

---
 src/spatial/abc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 835506a..e2d764b 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -154,7 +154,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 {
 	const scalar ci = phy.getSoundSpeedFromConserved(ins);
 	// Outgoing Riemann invariant
-	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - ci/(2*phy.g - 1.0);
+	const scalar Rminus = -dimDotProduct(&ins[1],&n[0])/ins[0] - 2.0*ci/(phy.g - 1.0);
 	// Square of stagnation speed of sound
 	const scalar co2 = ci*ci + (phy.g-1.0)/2.0 * dimDotProduct(&ins[1],&ins[1])/(ins[0]*ins[0]);
 
@@ -165,11 +165,11 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	const scalar tg = ttotal*cg*cg/co2;
 	const scalar pg = ptotal * pow(tg/ttotal, phy.g/(phy.g-1.0));
 	gs[0] = phy.getDensityFromPressureTemperature(pg,tg);
-	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(co2 - cg*cg));
+	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*ttotal/(phy.Minf*phy.Minf)*(1.0 - cg*cg/co2));
 
-	// Get velocity components of ghost state assuming it's (anti-)parallel to the face normal
+	// Get velocity components of ghost state assuming it's anti-parallel to the face normal
 	scalar vg[NDIM];
-	getComponentsCartesian<scalar>(vgmag, n, vg);
+	getComponentsCartesian<scalar>(-vgmag, n, vg);
 	for(int i = 0; i < NDIM; i++)
 		gs[i+1] = gs[0]*vg[i];
 	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vgmag*vgmag);
-- 
2.43.0


From c287030806a6ea4665af6a5b51efb5d9d1d79c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 04/11] fix: Isothermalwall2D's Jacobian routine computes its
 own ghost state and derivative

---
 src/spatial/abc.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index e2d764b..ea4e961 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -377,8 +377,6 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	for(int k = 0; k < NVARS*NVARS; k++)
 		dgs[k] = 0;
 
-	/// \todo Fix isothermal BC Jacobian
-	// FIXME: Wrong Jacobian
 	const j_real tangMomentum = tangvel * ins[0];
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
@@ -392,19 +390,23 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	dgs[2*NVARS+2] = -1.0;
 
 	const j_real vmag2 = dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]);
-	gs[3] = jphy.getEnergyFromTemperature(walltemperature, ins[0], vmag2);
+	const j_real gtemp = 2.0*walltemperature - jphy.getTemperatureFromConserved(ins);
+	gs[3] = jphy.getEnergyFromTemperature(gtemp, ins[0], vmag2);
 
 	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
-	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
+	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0])
+		+ 2.0/(ins[0]*ins[0]) * (gs[1]*dgs[NVARS+0] + gs[2]*dgs[2*NVARS+0]);
 	for(int i = 1; i < NDIM+1; i++)
-		dvmag2[i] = 1.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
+		dvmag2[i] = 2.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
 	dvmag2[NDIM+1] = 0;
 
-	// dummy dT for the next function call
+	// derivatives of the ghost cell temperature
 	j_real dT[NVARS];
 	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	jphy.getJacobianTemperatureWrtConserved(ins, dT);
+	for(int i = 0; i < NVARS; i++) dT[i] = -dT[i];
 
-	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(walltemperature, ins[0], vmag2,
+	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(gtemp, ins[0], vmag2,
 	                                                    dT, dvmag2, &dgs[3*NVARS]);
 }
 
-- 
2.43.0


From 51a774b6cdd4e1065d851e6e655e677d734e3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 05/11] fix: adiabatic moving walls keep the interior
 temperature in the ghost cell

---
 src/spatial/abc.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index ea4e961..b60741e 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -276,7 +276,8 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostState(const scalar *const ins,
 	gs[0] = ins[0];
 	gs[1] =  2.0*tangMomentum*n[1] - ins[1];
 	gs[2] = -2.0*tangMomentum*n[0] - ins[2];
-	gs[3] = ins[3];
+	// change in kinetic energy, so that the temperature is the same
+	gs[3] = ins[3] + 2.0*tangvel*(tangMomentum - (n[1]*ins[1] - n[0]*ins[2]));
 }
 
 template <typename scalar, typename j_real>
@@ -300,7 +301,10 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real *
 	dgs[2*NVARS+0] = -2.0*tangvel*n[0];
 	dgs[2*NVARS+2] = -1.0;
 
-	gs[3] = ins[3];
+	gs[3] = ins[3] + 2.0*tangvel*(tangMomentum - (n[1]*ins[1] - n[0]*ins[2]));
+	dgs[3*NVARS+0] = 2.0*tangvel*tangvel;
+	dgs[3*NVARS+1] = -2.0*tangvel*n[1];
+	dgs[3*NVARS+2] = 2.0*tangvel*n[0];
 	dgs[3*NVARS+3] = 1.0;
 }
 
@@ -315,9 +319,12 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
                                                      scalar *const __restrict gs) const
 {
 	gs[0] = ins[0];
-	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
+	for(int i= 1; i< NDIM+1; i++) {
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
+		// change in kinetic energy, so that the temperature is the same
+		gs[NDIM+1] += 2.0*wallvel[i-1]*(ins[0]*wallvel[i-1] - ins[i]);
+	}
 }
 
 template <typename scalar, typename j_real>
@@ -332,15 +339,19 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
 
+	gs[NVARS-1] = ins[NVARS-1];
+	dgs[NVARS*NVARS-1] = 1.0;
+
 	for(int i= 1; i< NDIM+1; i++) {
 		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
 		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
-	}
 
-	gs[NVARS-1] = ins[NVARS-1];
-	dgs[NVARS*NVARS-1] = 1.0;
+		gs[NVARS-1] += 2.0*wallvel[i-1]*(ins[0]*wallvel[i-1] - ins[i]);
+		dgs[(NVARS-1)*NVARS+0] += 2.0*wallvel[i-1]*wallvel[i-1];
+		dgs[(NVARS-1)*NVARS+i] = -2.0*wallvel[i-1];
+	}
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 8e4b34a64a6018c5f2ec961ed9d898f8efa9b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 06/11] fix: full linearization of the local Lax-Friedrichs
 flux

---
 src/spatial/anumericalflux.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 834f93c..1ac03cf 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -145,10 +145,10 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	j_real dedu[NVARS];
 
 	if(leftismax) {
-		dedu[0] = -fabs(vni/(ul[0]*ul[0])) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
+		dedu[0] = -fabs(vni)/ul[0] + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
 				+ (ul[1]*ul[1]+ul[2]*ul[2])/(ul[0]*ul[0]*ul[0]) );
-		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/ul[0]);
-		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/ul[0]);
+		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/(ul[0]*ul[0]));
+		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/(ul[0]*ul[0]));
 		dedu[3] = ctermi*g*(g-1)/ul[0];
 	}
 	else {
@@ -168,10 +168,10 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 		for(int i = 0; i < NVARS; i++)
 			dedu[i] = 0;
 	} else {
-		dedu[0] = -fabs(vnj/(ur[0]*ur[0])) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
+		dedu[0] = -fabs(vnj)/ur[0] + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
 				+ (ur[1]*ur[1]+ur[2]*ur[2])/(ur[0]*ur[0]*ur[0]) );
-		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/ur[0]);
-		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/ur[0]);
+		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/(ur[0]*ur[0]));
+		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/(ur[0]*ur[0]));
 		dedu[3] = ctermj*g*(g-1)/ur[0];
 	}
 
-- 
2.43.0


From 8c42d4e790de728724e43cedb00c35ba6775e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 07/11] fix: limiters read the ghost state across physical
 boundary faces

Barth-Jespersen and Venkatakrishnan indexed the cell array with the number of
the boundary ghost cell, beyond the end of the array.
---
 src/spatial/limitedlinearreconstruction.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..8c0c28d 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -123,6 +123,9 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 	const GradBlock_t<scalar,NDIM,nvars> *const grads
 		= reinterpret_cast<const GradBlock_t<scalar,NDIM,nvars>*>(gradarray);
 
+	// Neighbours numbered from here on are ghost cells across physical boundary faces
+	const fint nrealcells = m->gnelem()+m->gnConnFace();
+
 #pragma omp parallel for default(shared)
 	for(fint iel = 0; iel < m->gnelem(); iel++)
 	{
@@ -132,7 +135,8 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				const scalar uj = jel < nrealcells ? u(jel,ivar) : ug(jel-nrealcells,ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -216,6 +220,9 @@ void VenkatakrishnanLimiter<scalar,nvars>
 	const GradBlock_t<scalar,NDIM,nvars> *const grads
 		= reinterpret_cast<const GradBlock_t<scalar,NDIM,nvars>*>(gradarray);
 
+	// Neighbours numbered from here on are ghost cells across physical boundary faces
+	const fint nrealcells = m->gnelem()+m->gnConnFace();
+
 #pragma omp parallel for default(shared)
 	for(fint iel = 0; iel < m->gnelem(); iel++)
 	{
@@ -227,7 +234,8 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				const scalar uj = jel < nrealcells ? u(jel,ivar) : ug(jel-nrealcells,ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From e63ec5ce5d54a60734da90e86f6cf4e1187f1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 08/11] fix: nodal output averages divide by the area counted
 once per cell; scalar field has its own number of variables

---
 src/spatial/aoutput.cpp   | 6 +++---
 src/spatial/diffusion.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..66e006b 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..8160b0b 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -352,16 +352,16 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < nvars; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
-			}
+			areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 7d7f6f1fa8de6b5368ef4ac4f0049e59ba916b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 09/11] fix: gradients of the diffusion problem without
 physical boundary faces

---
 src/spatial/diffusion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 8160b0b..b853bd7 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -334,7 +334,8 @@ void DiffusionMA<nvars>::getGradients(const Vec uvec,
 		compute_boundary_state(iface, &u(lelem,0), &ug(iface,0));
 	}
 
-	gradcomp->compute_gradients(u, amat::Array2dView<freal>(&ug(0,0),m->gnbface(),nvars),
+	const freal *const ugptr = m->gnbface() > 0 ? &ug(0,0) : nullptr;
+	gradcomp->compute_gradients(u, amat::Array2dView<freal>(ugptr,m->gnbface(),nvars),
 	                            &grads[0](0,0));
 }
 
-- 
2.43.0


From 71c559cbf0c24c337c864049eb39a5e72f4ccbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 10/11] fix: reductions over processes do not alias their
 buffers

---
 src/ode/aodesolver.cpp     | 2 +-
 src/utilities/mpiutils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..ef8e657 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -525,7 +525,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 			}
 		}
 
-		MPI_Allreduce(&resnorm2, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
+		MPI_Allreduce(MPI_IN_PLACE, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
 		resiold = resi;
 		resi = sqrt(resnorm2);
 
diff --git a/src/utilities/mpiutils.cpp b/src/utilities/mpiutils.cpp
index 8b4f7ad..33bdc84 100644
--- a/src/utilities/mpiutils.cpp
+++ b/src/utilities/mpiutils.cpp
@@ -14,7 +14,7 @@ namespace fvens {
 template <>
 void mpi_all_reduce(freal *const arr, const fint count, MPI_Op op, MPI_Comm comm)
 {
-	MPI_Allreduce(arr, arr, count, FVENS_MPI_REAL, op, comm);
+	MPI_Allreduce(MPI_IN_PLACE, arr, count, FVENS_MPI_REAL, op, comm);
 }
 
 void wait_for_debugger()
-- 
2.43.0


From ca69a14035ffc6263eec9269319794c697be6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 11/11] fix: TVD Runge-Kutta evaluates each stage at the stage
 state with the right sign and exchanges it

---
 src/ode/aodesolver.cpp | 73 ++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index ef8e657..dcaf0a5 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -676,27 +676,17 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int mpirank;
 	MPI_Comm_rank(PETSC_COMM_WORLD, &mpirank);
 
-	PetscInt locnelem; PetscScalar *uarr; PetscScalar *rarr;
+	PetscInt locnelem;
 	ierr = VecGetLocalSize(uvec, &locnelem); CHKERRQ(ierr);
 	assert(locnelem % nvars == 0);
 	locnelem /= nvars;
 	assert(locnelem == m->gnelem());
 
-	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> u(uarr, locnelem, nvars);
-	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
-
-
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
-	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
-#pragma omp parallel for simd default(shared)
-	for(fint iel = 0; iel < m->gnelem(); iel++)
-		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
+	// Solution at the beginning of the time step; uvec holds the stage solution
+	MVector<freal> uold(m->gnelem(),nvars);
 	
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
@@ -707,17 +697,34 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	{
 		freal dtmin=0;      //< Time step
 
+		{
+			ConstGhostedVecHandler<PetscScalar> uh(uvec);
+			Eigen::Map<const MVector<freal>> u(uh.getArray(), locnelem, nvars);
+
+#pragma omp parallel for simd default(shared)
+			for(fint iel = 0; iel < m->gnelem(); iel++)
+				for(int ivar = 0; ivar < nvars; ivar++)
+					uold(iel,ivar) = u(iel,ivar);
+		}
+
 		for(int istage = 0; istage < order; istage++)
 		{
+			{
+				MutableGhostedVecHandler<PetscScalar> rh(rvec);
+				PetscScalar *const rarr = rh.getArray();
+
 #pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++) {
-				for(int i = 0; i < nvars; i++)
-					residual(iel,i) = 0;
+				for(fint i = 0; i < (m->gnelem()+m->gnConnFace())*nvars; i++) {
+					rarr[i] = 0;
+				}
 			}
 
-			// update residual
+			// update residual at the current stage
 			ierr = space->compute_residual(uvec, rvec, true, dtmvec); CHKERRQ(ierr);
 
+			ierr = VecGhostUpdateBegin(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(rvec, ADD_VALUES, SCATTER_REVERSE); CHKERRQ(ierr);
+
 			// update time step for the first stage of each time step
 			if(istage == 0)
 			{
@@ -725,28 +732,34 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
 				dtmin = *std::min_element(dtm, dtm+m->gnelem());
 				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				MPI_Allreduce(MPI_IN_PLACE, &dtmin, 1, FVENS_MPI_REAL, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
 				throw Numerical_error("TVDRK solver diverged - dtmin is Nan or inf!");
 
-#pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
-				for(int i = 0; i < nvars; i++)
+				MutableGhostedVecHandler<PetscScalar> uh(uvec);
+				Eigen::Map<MVector<freal>> u(uh.getArray(), locnelem, nvars);
+				ConstGhostedVecHandler<PetscScalar> rh(rvec);
+				Eigen::Map<const MVector<freal>> residual(rh.getArray(), locnelem, nvars);
+
+				// NOTE: rvec contains the negative of the residual, ie., du/dt times the cell volume
+#pragma omp parallel for simd default(shared)
+				for(fint iel = 0; iel < m->gnelem(); iel++)
 				{
-					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
-						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					for(int i = 0; i < nvars; i++)
+					{
+						u(iel,i) = tvdcoeffs(istage,0)*uold(iel,i)
+							+ tvdcoeffs(istage,1)*u(iel,i)
+							+ tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					}
 				}
 			}
-		}
-
-#pragma omp parallel for simd default(shared)
-		for(fint iel = 0; iel < m->gnelem(); iel++)
-			for(int ivar = 0; ivar < nvars; ivar++)
-				u(iel,ivar) = ustage(iel,ivar);
 
+			ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+		}
 
 		if(step % 10 == 0)
 			if(mpirank == 0)
@@ -779,8 +792,6 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		outf.close();
 	}
 
-	ierr = VecRestoreArray(uvec, &uarr); CHKERRQ(ierr);
-	ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
 	return ierr;
 }
 
-- 
2.43.0

