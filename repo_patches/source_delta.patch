From 93ce45ec050c2b6fb869af6d385570d8f3db121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 01/32] fix: square the binormal term in
 computeAccelerationLoad

The net load used 2*a_w instead of a_w**2, giving a wrong load for banked
flight and NaN for negative bank angles.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3aab595..ba94969 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2092,7 +2092,7 @@ class Vehicle:
 		acc_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
 
 		acc_net = np.zeros(index)
-		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]*2.0)
+		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]**2.0)
 		acc_net_g = acc_net / self.planetObj.EARTHG
 
 		return acc_net_g
-- 
2.43.0


From 9ff3d6790ea34e2fdd72f9e9e3f2315deaf06633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 02/32] fix: computeMachScalar must not use np.float (removed
 from numpy)

Every propagation with userDefinedCDMach=True crashed.
---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ba94969..a95d039 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2233,9 +2233,9 @@ class Vehicle:
 			Mach no.
 		
 		"""
-		stat_pres = np.float(self.planetObj.pressure_int(r - self.planetObj.RP))
-		stat_temp = np.float(self.planetObj.temp_int(r - self.planetObj.RP))
-		sonic_spd = np.float(self.planetObj.sonic_int(r - self.planetObj.RP))
+		stat_pres = float(self.planetObj.pressure_int(r - self.planetObj.RP))
+		stat_temp = float(self.planetObj.temp_int(r - self.planetObj.RP))
+		sonic_spd = float(self.planetObj.sonic_int(r - self.planetObj.RP))
 		mach = v/sonic_spd
 
 		return mach
-- 
2.43.0


From 23daadf79030f3a0f5b5c069976284301ba0cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 03/32] fix: computeStagTemp reads CPCV from the planet object

Vehicle has no attribute CPCV, so computeStagTemp always crashed.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index a95d039..6ab76f5 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2263,7 +2263,7 @@ class Vehicle:
 		sonic_spd = self.planetObj.sonicvectorized(rc)
 		mach[:] = vc[:]/sonic_spd[:]
 		stag_temp = np.zeros(len(rc))
-		stag_temp[:] = stat_temp[:]*(1+0.5*(self.CPCV-1)*mach[:]**2.0)
+		stag_temp[:] = stat_temp[:]*(1+0.5*(self.planetObj.CPCV-1)*mach[:]**2.0)
 
 		return stag_temp
 
-- 
2.43.0


From 64188cdaea962ee8a8541816d23703da5b5df2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 04/32] fix: psuedoController reaches the command instead of
 overshooting it

When the command is within one guidance cycle the bank angle was still moved
by maxRollRate*timestep, past the command, so it chattered around it.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6ab76f5..896d880 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4568,7 +4568,7 @@ class Vehicle:
 			# so as to achieve the desired bank angle at the 
 			# end of the guidance cycle.
 			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep
-			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*self.maxRollRate*timestep
+			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*bankRate*timestep
 			Delta_deg_ini = DeltaCMD_deg
 
 		return DeltaCMD_deg, Delta_deg_ini
-- 
2.43.0


From 758ea86c6db93f815c8b0d7622024a2455c0eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 05/32] fix: accumulate the heat load from heatLoad0 in every
 propagator

scipy rejects cumulative_trapezoid(initial=heatLoad0) for a non-zero value, so
propogateEntry2 and the guidance predictors crashed once any heat had been
absorbed; the other propagators ignored heatLoad0, and the exit phases kept
restarting from the heat load at the switch point.
---
 AMAT/vehicle.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 896d880..3be364e 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2512,7 +2512,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def propogateEntry2(self, t_sec, dt, delta_deg):
 		"""
@@ -2599,7 +2599,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=self.heatLoad0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def dummyVehicle(self, density_mes_int):
 		"""
@@ -2779,7 +2779,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total , tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -2936,7 +2936,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -5407,6 +5407,7 @@ class Vehicle:
 
 			h_current_km  = h_km[-1]
 			t_current_min = t_min[-1]
+			Ji = heatload[-1]
 
 		self.t_min_full = t_min
 		self.h_km_full = h_km
@@ -5596,6 +5597,7 @@ class Vehicle:
 
 			h_current_km = h_km[-1]
 			t_current_min = t_min[-1]
+			Ji = heatload[-1]
 
 		self.t_min_full = t_min
 		self.h_km_full = h_km
@@ -6685,7 +6687,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total    = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload        = cumulative_trapezoid(q_stag_total , tc, \
+		heatload        = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, \
 			initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
@@ -6857,8 +6859,8 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, \
-							initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, \
+							initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -7024,6 +7026,7 @@ class Vehicle:
 
 			h_current_km  = h_km[-1]
 			t_current_min = t_min[-1]
+			Ji = heatload[-1]
 
 		self.t_min_full     = t_min
 		self.h_km_full      = h_km
@@ -7215,6 +7218,7 @@ class Vehicle:
 
 			h_current_km = h_km[-1]
 			t_current_min = t_min[-1]
+			Ji = heatload[-1]
 
 		self.t_min_full = t_min
 		self.h_km_full = h_km
-- 
2.43.0


From 90459dc5fdaad3287fb502db7878e79222f29cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 06/32] fix: let v_switch_kms end the guided entry phases

The loops test self.v_current_kms but updated a local variable, so the switch
speed documented in setEquilibriumGlideParams and setDragEntryPhaseParams was
never applied.
---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3be364e..6fb4c1b 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4992,7 +4992,7 @@ class Vehicle:
 			counter+=1
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -5226,7 +5226,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6164,7 +6164,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6376,7 +6376,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
-- 
2.43.0


From a820f3b249ec52aaf6997e4d0fe6815a0682939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 07/32] fix: return the bracket when it is already within the
 EFPA tolerance

The limit searches assigned their result inside the bisection loop, so a
bracket no wider than the tolerance raised UnboundLocalError.
---
 AMAT/vehicle.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6fb4c1b..c76cbcf 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3313,8 +3313,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3415,8 +3415,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3518,8 +3518,8 @@ class Vehicle:
 				#print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3621,8 +3621,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3841,8 +3841,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
@@ -3941,8 +3941,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
-- 
2.43.0


From bedc325966c523f5ac005ee38fc043529a3df534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 08/32] fix: findEFPALimitD and D2 search a ballistic
 trajectory

They set LD to zero for the search, but the aerodynamics use CL, so a vehicle
built with lift kept flying lift up.
---
 AMAT/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index c76cbcf..15991aa 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3794,10 +3794,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3853,6 +3855,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
@@ -3894,10 +3897,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis2(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3953,6 +3958,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
-- 
2.43.0


From 2400128b787a399e1b1c84004945142b2957a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:08 +0000
Subject: [PATCH 09/32] fix: define h_low for Jupiter and Saturn

hitsTargetApoapsis and every corridor search read planetObj.h_low, which was
missing for these two planets, so they raised AttributeError.
---
 AMAT/planet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index 1e4b6e3..ccb73d8 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -156,6 +156,7 @@ class Planet:
 			self.h_thres = 1000.0E3
 			self.h_skip = 1000.0E3     
 			self.h_trap = 50.0E3 
+			self.h_low = 100.0E3
 
 		elif planetID == 'SATURN':
 			self.ID = 'SATURN'
@@ -171,6 +172,7 @@ class Planet:
 			self.h_thres = 1000.0E3
 			self.h_skip = 1000.0E3     
 			self.h_trap = 50.0E3      
+			self.h_low = 100.0E3
 
 		elif planetID == 'TITAN':
 
-- 
2.43.0


From b27daa2ea3331be33024cb0500ad301e2ca8a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 10/32] fix: resolve the entry longitude quadrant with arctan2

For entry points with x < 0 in the body-inertial frame the longitude was off by
180 deg, and so were the atmosphere-relative velocity and heading.
---
 AMAT/approach.py | 2 +-
 AMAT/orbiter.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 0d897fd..2334f62 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -266,7 +266,7 @@ class Approach:
 											  np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_bi_unit))
 
 			self.latitude_entry_bi = np.arcsin(self.r_vec_entry_bi_unit[2])
-			self.longitude_entry_bi = np.arctan(self.r_vec_entry_bi_unit[1] / self.r_vec_entry_bi_unit[0])
+			self.longitude_entry_bi = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 
 			self.xi_1 = np.arctan(self.r_vec_entry_bi_unit[1]/self.r_vec_entry_bi_unit[0])
 			self.latitude_entry_bi_analytic = np.arctan(self.r_vec_entry_bi_unit[2]/
diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 5d9d944..a89b24e 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -737,7 +737,7 @@ class Orbiter:
 			self.gamma_inertial_probe_entry = -1 * np.arccos(self.h_probe_orbit / (self.r_EI * self.v_bi_mag_probe_entry))
 
 			self.latitude_probe_entry_bi = np.arcsin(self.r_vec_bi_probe_entry_unit[2])
-			self.longitude_probe_entry_bi = np.arctan(self.r_vec_bi_probe_entry_unit[1] / self.r_vec_bi_probe_entry_unit[0])
+			self.longitude_probe_entry_bi = np.arctan2(self.r_vec_bi_probe_entry_unit[1], self.r_vec_bi_probe_entry_unit[0])
 
 			self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
 			self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
-- 
2.43.0


From 10ed92991cf7ed1799067c0c80f8401becafb998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 11/32] fix: use the receiver diameter for the receiver gain

Link computed the receive aperture and gain from the transmitter diameter.
---
 AMAT/telecom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index 9e3ccaa..c10ed4e 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -142,7 +142,7 @@ class Link:
 		# if Dr and eta_r are provided, compute receiver gain using these values,
 		# else if Gr_dBi is provided, use this value directly for receiver gain
 		if Dr and eta_r:
-			self.Dr = Dt
+			self.Dr = Dr
 			self.Ar = 0.25 * np.pi * self.Dr * self.Dr
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
-- 
2.43.0


From 5039aed55e2863bbcd22c883f32dd479c3ec9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 12/32] fix: accept a 0 dBi antenna gain in Link

An isotropic (0 dBi) antenna was treated as if no gain had been given, and the
constructor raised AttributeError.
---
 AMAT/telecom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index c10ed4e..afe07f4 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -133,7 +133,7 @@ class Link:
 			self.eta_t = eta_t
 			self.Gt = self.compute_antenna_gain(self.eta_t, self.Dt, self.wavelength)
 			self.Gt_dBi = self.compute_dB(self.Gt)
-		elif Gt_dBi:
+		elif Gt_dBi is not None:
 			self.Dt = None
 			self.At = None
 			self.eta_t = None
@@ -147,7 +147,7 @@ class Link:
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
 			self.Gr_dBi = self.compute_dB(self.Gr)
-		elif Gr_dBi:
+		elif Gr_dBi is not None:
 			self.Dr = None
 			self.Ar = None
 			self.eta_r = None
-- 
2.43.0


From 1aa637e6a8058b63ed6451e3a22369813bb9e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:06 +0000
Subject: [PATCH 13/32] fix: Approach.vel_vec_bi is NaN or inbound-only at and
 after periapsis

---
 AMAT/approach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 2334f62..00c5572 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -477,7 +477,7 @@ class Approach:
 
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt((self.v_inf_mag)**2 + 2*self.planetObj.GM/r_mag_bi)
-		gamma = -1*np.arccos(self.h/(r_mag_bi*v_mag_bi))
+		gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From fcbeff3c06cac4ed82466454c1a17b4015973d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 14/32] fix: PropulsiveOrbiter.vel_vec_bi is outbound-only and
 skewed at periapsis

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index a89b24e..4c38f5b 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -963,7 +963,7 @@ class PropulsiveOrbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.approach.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 1c615d9a45287e74203989c21c97272f3c2e2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 15/32] fix: Orbiter velocities take the flight-path sign from
 the true anomaly

---
 AMAT/orbiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 4c38f5b..a2b6610 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -493,7 +493,7 @@ class Orbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) >= 0, 1, -1)*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -531,7 +531,7 @@ class Orbiter:
 		r_mag_bi = np.linalg.norm(self.pos_vec_bi_probe(theta_star))
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a_probe_orbit))
 
-		gamma = -1*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) >= 0, 1, -1)*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 692e48b46dd96d5cfc679cd79a9f888d81f71de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 16/32] fix: compute_probe_targeting_trajectory failed for a
 probe orbit outside the atmosphere

---
 AMAT/orbiter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index a2b6610..c2b6b7a 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -756,10 +756,13 @@ class Orbiter:
 			self.heading_atm_probe_entry = np.arccos(np.dot(self.v_atm_probe_entry_unit_proj,
 													  self.atm_probe_entry_local_latitude_parallel_vec_unit))
 
+			theta_star_end = self.theta_star_probe_entry
+
 		else:
 			print("Probe orbit periapsis outside atmospheric skip altitude.")
+			theta_star_end = 2*np.pi
 
-		theta_star_arr = np.linspace(theta_star, self.theta_star_probe_entry, num_points)
+		theta_star_arr = np.linspace(theta_star, theta_star_end, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi_probe(theta_star_arr) / self.vehicle.planetObj.RP
 
 		self.x_probe_orbit_arr = pos_vec_bi_arr[0][:]
-- 
2.43.0


From f8694019f90d67ff748af44680250973f8a595ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:37 +0000
Subject: [PATCH 17/32] fix: a trajectory starting at h_skip is not a skip-out
 at its first point

---
 AMAT/vehicle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 15991aa..3da623f 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1961,16 +1961,20 @@ class Vehicle:
 
 		# Check for event occurences
 
-		if h_min >= 0 and h_max > self.planetObj.h_skip:
+		# altitude must exceed h_skip by more than the round-off of r - RP, so
+		# that a trajectory which starts at h_skip has not already skipped out
+		h_skip = self.planetObj.h_skip + 1e-6
+
+		if h_min >= 0 and h_max > h_skip:
 			# Check for a "skip out event" occurence.
 			# if trajectory did not hit ground and max 
 			# altitude > predefined skip altitude
 			# then return the index of the first point after skipping out
 			# set exitflag = 1.0 to indicate trajectory skipped out
-			index = np.argmax(h > self.planetObj.h_skip)
+			index = np.argmax(h > h_skip)
 			exitflag = 1.0
 
-		elif h_min >= self.planetObj.h_trap and h_max < self.planetObj.h_skip:
+		elif h_min >= self.planetObj.h_trap and h_max <= h_skip:
 			# if trajectory did not reach trap in altitude and max altiude 
 			# < predefined skip altitude
 			# then return the index of the last point ie. full set of data 
-- 
2.43.0


From aa35b562a92bae38d2902a7df80a973bfdf2e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:04 +0000
Subject: [PATCH 18/32] fix: a target at the zenith (or nadir) of the lander
 gave a NaN elevation

---
 AMAT/visibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 97fae40..b676499 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -208,7 +208,7 @@ class LanderToPlanet(Visibility):
 			self.lander_pos_vec_bi_unit = self.lander_pos_vec_bi / np.linalg.norm(self.lander_pos_vec_bi)
 
 			# compute angle beta between lander zenith and observer to target unit vector
-			beta = np.arccos(np.dot(self.lander_pos_vec_bi_unit, self.obs_tar_pos_vec_bi_unit))*180/np.pi
+			beta = np.arccos(np.clip(np.dot(self.lander_pos_vec_bi_unit, self.obs_tar_pos_vec_bi_unit), -1, 1))*180/np.pi
 			elev = max(0, 90 - beta)  # if negative, target is below the horizon: set to 0
 
 			if elev > 0:
@@ -326,7 +326,7 @@ class LanderToOrbiter:
 			lander_orb_vec_unit = lander_orb_vec / np.linalg.norm(lander_orb_vec)
 
 			range = np.linalg.norm(lander_orb_vec)
-			beta = np.arccos(np.dot(lander_unit, lander_orb_vec_unit))*180/np.pi
+			beta = np.arccos(np.clip(np.dot(lander_unit, lander_orb_vec_unit), -1, 1))*180/np.pi
 			elev = max(0, 90 - beta)
 			if elev > 0:
 				visible = True
-- 
2.43.0


From 7da8c38b20bb54d97a55fde18fad8ff6f88f00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 19/32] fix: Monte Carlo lift-modulation runs fly the L/D they
 record

---
 AMAT/vehicle.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3da623f..dedb421 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5789,6 +5789,10 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
 
+			# fly the selected L/D
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
+
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(selected_atmfile, self.heightCol,
 										self.densLowCol,  self.densAvgCol, self.densHighCol, self.densTotalCol,
@@ -5893,6 +5897,10 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
 
+			# fly the selected L/D
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
+
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
 				selected_atmfile, self.heightCol, \
-- 
2.43.0


From edbadf8fe343c0d89ef55a660d32f4a0bd3fe490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 20/32] fix: drag-modulation corridor searches restore the
 ballistic coefficient

---
 AMAT/vehicle.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index dedb421..07942b2 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4001,12 +4001,14 @@ class Vehicle:
 		
 		"""
 
+		beta, CD = self.beta, self.CD
 		self.beta = self.beta1*self.betaRatio
 		self.CD = self.mass / (self.beta*self.A)
 		
 		underShootLimitD, exitflagD_us = self.findEFPALimitD(t_sec, dt, gamma0_deg_guess_low,
 															gamma0_deg_guess_high, gamma_deg_tol,
 															targetApopasisAltitude_km)
+		self.beta, self.CD = beta, CD
 
 		return underShootLimitD, exitflagD_us
 
@@ -4045,12 +4047,14 @@ class Vehicle:
 
 		"""
 
+		beta, CD = self.beta, self.CD
 		self.beta = self.beta1 * self.betaRatio
 		self.CD = self.mass / (self.beta * self.A)
 
 		underShootLimitD, exitflagD_us = self.findEFPALimitD2(t_sec, dt, gamma0_deg_guess_low,
 															 gamma0_deg_guess_high, gamma_deg_tol,
 															 targetApopasisAltitude_km)
+		self.beta, self.CD = beta, CD
 
 		return underShootLimitD, exitflagD_us
 
@@ -4088,11 +4092,13 @@ class Vehicle:
 		within user specified bounds.
 		
 		"""
+		beta, CD = self.beta, self.CD
 		self.beta = self.beta1
 		self.CD = self.mass / (self.beta*self.A)
 		
 		overShootLimitD,exitflagD_os = self.findEFPALimitD(t_sec,dt,gamma0_deg_guess_low,
 										gamma0_deg_guess_high,gamma_deg_tol, targetApopasisAltitude_km)
+		self.beta, self.CD = beta, CD
 		# print('overShootLimit: '+str(overShootLimitD))
 		
 		return overShootLimitD, exitflagD_os
@@ -4131,12 +4137,14 @@ class Vehicle:
 		within user specified bounds.
 
 		"""
+		beta, CD = self.beta, self.CD
 		self.beta = self.beta1
 		self.CD = self.mass / (self.beta * self.A)
 
 		overShootLimitD, exitflagD_os = self.findEFPALimitD2(t_sec, dt, gamma0_deg_guess_low,
 															gamma0_deg_guess_high, gamma_deg_tol,
 															targetApopasisAltitude_km)
+		self.beta, self.CD = beta, CD
 		# print('overShootLimit: '+str(overShootLimitD))
 
 		return overShootLimitD, exitflagD_os
-- 
2.43.0


From 44e5b1407c3d494d362c7daa3f148612da420793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:02 +0000
Subject: [PATCH 21/32] fix: eccentricity of a circular orbit must not be NaN

---
 AMAT/vehicle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 07942b2..cc90d1c 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2428,7 +2428,8 @@ class Vehicle:
 		"""
 
 		# compute the eccentricity of the orbit
-		ecc = np.sqrt(1.0 + 2*E*h**2.0/self.planetObj.GM**2.0)
+		# round-off may take the argument below zero for a circular orbit
+		ecc = np.sqrt(np.maximum(1.0 + 2*E*h**2.0/self.planetObj.GM**2.0, 0.0))
 		return ecc
 
 	def propogateEntry(self, t_sec, dt, delta_deg):
-- 
2.43.0


From 4da80ddba8f266c1fc367338e33d26e3f4422a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:50 +0000
Subject: [PATCH 22/32] fix: a trapped entry is an undershoot whatever altitude
 it was last sampled at

---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index cc90d1c..2dc2298 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3111,8 +3111,8 @@ class Vehicle:
 		else:
 			ans = 1.0
 
-		# if terminal altitude (km) < planet.h_low, then assume undershoot
-		if terminal_alt < self.planetObj.h_low/1000.0:
+		# if trapped, or terminal altitude (km) < planet.h_low, then assume undershoot
+		if self.exitflag == -1.0 or terminal_alt < self.planetObj.h_low/1000.0:
 			ans = 1.0
 	
 		return ans
@@ -3224,8 +3224,8 @@ class Vehicle:
 		else:
 			ans = 1.0
 
-		# if terminal altitude (km) < planet.h_low, then assume undershoot
-		if terminal_alt < self.planetObj.h_low/1000.0:
+		# if trapped, or terminal altitude (km) < planet.h_low, then assume undershoot
+		if self.exitflag == -1.0 or terminal_alt < self.planetObj.h_low/1000.0:
 			ans = 1.0
 	
 		return ans
-- 
2.43.0


From d43e00f5faf391e72707b8f4c5030810c5abc63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:24 +0000
Subject: [PATCH 23/32] fix: drop the uninitialised samples odeint returns
 after a failure

---
 AMAT/vehicle.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 2dc2298..21e5bf3 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1730,7 +1730,20 @@ class Vehicle:
 		
 		# use scipy odeint to solve for the entry trajectory using initial 
 		# conditions xbar_0 and vehicle parameters in args
-		xbar = odeint(self.EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,))
+		t_reached = [0.0]
+
+		def EOM(y, t, delta):
+			t_reached[0] = max(t_reached[0], t)
+			return self.EOM(y, t, delta)
+
+		xbar, info = odeint(EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,), full_output=True)
+
+		# odeint leaves the samples after a failure uninitialised,
+		# so keep only the samples it can reach
+		while info['message'] != 'Integration successful.' and len(tbar) > 1:
+			tbar = tbar[:max(1, np.searchsorted(tbar, min(t_reached[0], tbar[-1])))]
+			t_reached[0] = 0.0
+			xbar, info = odeint(EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,), full_output=True)
 
 		# extract solution from odeint into solution variable vectors
 		rbar = xbar[:, 0]    # radial distance rbar solution
-- 
2.43.0


From feaa5c0afe01efc2a1a315e797c5554d5cef267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:53 +0000
Subject: [PATCH 24/32] fix: a guided entry just below the interface has not
 exited while it descends

---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 21e5bf3..d4fb6a0 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5032,7 +5032,7 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			if h_current_km > self.planetObj.h_skip/1000 - 2.0:
+			if h_current_km > self.planetObj.h_skip/1000 - 2.0 and hdoti > 0:
 				break
 
 		
@@ -5266,7 +5266,7 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			if h_current_km > self.planetObj.h_skip / 1000 - 2.0:
+			if h_current_km > self.planetObj.h_skip / 1000 - 2.0 and hdoti > 0:
 				break
 
 		self.t_min_eg = t_min
@@ -6212,7 +6212,7 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			if h_current_km > self.planetObj.h_skip/1000 - 1.0:
+			if h_current_km > self.planetObj.h_skip/1000 - 1.0 and hdoti > 0:
 				break
 
 		
@@ -6424,7 +6424,7 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			if h_current_km > self.planetObj.h_skip / 1000 - 1.0:
+			if h_current_km > self.planetObj.h_skip / 1000 - 1.0 and hdoti > 0:
 				break
 
 		self.t_min_en = t_min
-- 
2.43.0


From 5d75687baee35d27bdbe61116669864e160be6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:15 +0000
Subject: [PATCH 25/32] fix: guided entries loop forever when the next sample
 leaves the atmosphere or is trapped

---
 AMAT/vehicle.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index d4fb6a0..17907dd 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5035,6 +5035,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip/1000 - 2.0 and hdoti > 0:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 		
 		self.t_min_eg = t_min
 		self.h_km_eg = h_km
@@ -5269,6 +5273,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip / 1000 - 2.0 and hdoti > 0:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 		self.t_min_eg = t_min
 		self.h_km_eg = h_km
 		self.v_kms_eg = v_kms
@@ -5437,6 +5445,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 			h_current_km  = h_km[-1]
 			t_current_min = t_min[-1]
 			Ji = heatload[-1]
@@ -5627,6 +5639,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 			h_current_km = h_km[-1]
 			t_current_min = t_min[-1]
 			Ji = heatload[-1]
@@ -6215,6 +6231,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip/1000 - 1.0 and hdoti > 0:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 		
 		self.t_min_en     = t_min
 		self.h_km_en      = h_km
@@ -6427,6 +6447,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip / 1000 - 1.0 and hdoti > 0:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 		self.t_min_en = t_min
 		self.h_km_en = h_km
 		self.v_kms_en = v_kms
@@ -7061,6 +7085,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 			if hi < 20.0E3:
 				break
 
@@ -7253,6 +7281,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
+			# the next sample is outside the atmosphere or trapped, no further progress
+			if len(t_min_c) < 2:
+				break
+
 			if hi < 20.0E3:
 				break
 
-- 
2.43.0


From faff5d4145a992b6dd551d91f52f7f0a3309ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:38 +0000
Subject: [PATCH 26/32] fix: an interruption while saving Monte Carlo results
 no longer loses the completed runs

---
 AMAT/vehicle.py | 79 +++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 17907dd..43c5b70 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -10,6 +10,15 @@ import random as rd
 import os
 
 
+def _saveSummary(fname, arr):
+	"""
+	Write a Monte Carlo summary array. The previous file is replaced only once
+	the new one is complete, so an interruption does not lose the saved runs.
+	"""
+	np.savetxt(fname + '.tmp', arr)
+	os.replace(fname + '.tmp', fname)
+
+
 class Vehicle:
 	"""
 	The Vehicle class is used to define vehicle parameters, 
@@ -5883,15 +5892,15 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_raise_DV.txt', np.array([apoapsis_raise_DV]))
 
 
-			np.savetxt(mainFolder+'/'+'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
-			np.savetxt(mainFolder+'/'+'terminal_periapsis_arr.txt', terminal_periapsis_arr)
+			_saveSummary(mainFolder+'/'+'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
+			_saveSummary(mainFolder+'/'+'terminal_periapsis_arr.txt', terminal_periapsis_arr)
 
-			np.savetxt(mainFolder+'/'+'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
-			np.savetxt(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			_saveSummary(mainFolder+'/'+'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
+			_saveSummary(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder+'/'+'acc_net_g_max_arr.txt', acc_net_g_max_arr)
-			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
-			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
+			_saveSummary(mainFolder+'/'+'acc_net_g_max_arr.txt', acc_net_g_max_arr)
+			_saveSummary(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
+			_saveSummary(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
 
 	def runMonteCarlo2(self, N, mainFolder):
 		"""
@@ -5997,15 +6006,15 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'apoapsis_raise_DV.txt',
 					   np.array([apoapsis_raise_DV]))
 
-			np.savetxt(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
-			np.savetxt(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
+			_saveSummary(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
+			_saveSummary(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
 
-			np.savetxt(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
-			np.savetxt(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			_saveSummary(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
+			_saveSummary(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
-			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
-			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
+			_saveSummary(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
+			_saveSummary(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
+			_saveSummary(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
 
 
@@ -7619,15 +7628,15 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_raise_DV.txt',np.array([apoapsis_raise_DV]))
 
 
-			np.savetxt(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
-			np.savetxt(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
+			_saveSummary(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
+			_saveSummary(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
 
-			np.savetxt(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
-			np.savetxt(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			_saveSummary(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
+			_saveSummary(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
-			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
-			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
+			_saveSummary(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
+			_saveSummary(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
+			_saveSummary(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
 	def runMonteCarloD2(self, N, mainFolder):
 		"""
@@ -7731,15 +7740,15 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'apoapsis_raise_DV.txt',
 					   np.array([apoapsis_raise_DV]))
 
-			np.savetxt(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
-			np.savetxt(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
+			_saveSummary(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
+			_saveSummary(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
 
-			np.savetxt(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
-			np.savetxt(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			_saveSummary(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
+			_saveSummary(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
-			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
-			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
+			_saveSummary(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
+			_saveSummary(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
+			_saveSummary(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
 
 	def runMonteCarloD_Earth(self, N, mainFolder):
@@ -7841,13 +7850,13 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_raise_DV.txt',np.array([apoapsis_raise_DV]))
 
 
-			np.savetxt(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
-			np.savetxt(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
+			_saveSummary(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
+			_saveSummary(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
 
-			np.savetxt(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
-			np.savetxt(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			_saveSummary(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
+			_saveSummary(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
-			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
-			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
+			_saveSummary(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
+			_saveSummary(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
+			_saveSummary(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
-- 
2.43.0


From 33ac25b3788568862743dcf5c77d41a605f7c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:39 +0000
Subject: [PATCH 27/32] fix: approach orbit with its periapsis on the node or
 in the equatorial plane gave NaN or misplaced vectors

---
 AMAT/approach.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 00c5572..93c9848 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -214,17 +214,19 @@ class Approach:
 		self.i = np.arccos(self.h_vec_bi_unit[2])
 
 		self.N_vec_bi = np.cross(np.array([0, 0, 1]), self.h_vec_bi)
-		self.N_vec_bi_unit = self.N_vec_bi / LA.norm(self.N_vec_bi)
+		if LA.norm(self.N_vec_bi) > 0:
+			self.N_vec_bi_unit = self.N_vec_bi / LA.norm(self.N_vec_bi)
+		else:
+			# equatorial orbit has no node, measure from the x-axis
+			self.N_vec_bi_unit = np.array([1.0, 0.0, 0.0])
 
 		if self.N_vec_bi_unit[1] >= 0:
 			self.OMEGA = np.arccos(self.N_vec_bi_unit[0])
 		else:
 			self.OMEGA = 2*np.pi - np.arccos(self.N_vec_bi_unit[0])
 
-		if self.e_vec_bi_unit[2] >= 0:
-			self.omega = np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
-		else:
-			self.omega = 2*np.pi - np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
+		self.omega = np.arctan2(np.dot(self.h_vec_bi_unit, np.cross(self.N_vec_bi_unit, self.e_vec_bi_unit)),
+								np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit)) % (2*np.pi)
 
 		self.N_ref_bi = np.array([0, 0, 1])
 		self.S_vec_bi = self.v_inf_vec_bi
-- 
2.43.0


From dd9b58f8208cac66d174799fa6f488533bf988b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:19 +0000
Subject: [PATCH 28/32] fix: aerocapture orbiter in an equatorial orbit, or
 with its periapsis on the node, had NaN orientation

---
 AMAT/orbiter.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index c2b6b7a..913e0d5 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -357,7 +357,11 @@ class Orbiter:
 		self.i = np.arccos(self.h_vec_bi_unit[2])
 
 		self.N_vec_bi = np.cross(np.array([0, 0, 1]), self.h_vec_bi)
-		self.N_vec_bi_unit = self.N_vec_bi / np.linalg.norm(self.N_vec_bi)
+		if np.linalg.norm(self.N_vec_bi) > 0:
+			self.N_vec_bi_unit = self.N_vec_bi / np.linalg.norm(self.N_vec_bi)
+		else:
+			# equatorial orbit has no node, measure from the x-axis
+			self.N_vec_bi_unit = np.array([1.0, 0.0, 0.0])
 
 		if self.N_vec_bi_unit[1] >= 0:
 			self.OMEGA = np.arccos(self.N_vec_bi_unit[0])
@@ -369,10 +373,8 @@ class Orbiter:
 
 		self.e_vec_bi_unit = self.e_vec_bi / np.linalg.norm(self.e_vec_bi)
 
-		if self.e_vec_bi_unit[2] >= 0:
-			self.omega = np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
-		else:
-			self.omega = 2*np.pi - np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
+		self.omega = np.arctan2(np.dot(self.h_vec_bi_unit, np.cross(self.N_vec_bi_unit, self.e_vec_bi_unit)),
+								np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit)) % (2*np.pi)
 
 
 	def compute_theta_star_exit(self):
@@ -700,7 +702,11 @@ class Orbiter:
 		self.i_probe_orbit = np.arccos(self.h_vec_bi_unit_probe_orbit[2])
 
 		self.N_vec_bi_probe_orbit = np.cross(np.array([0, 0, 1]), self.h_vec_bi_probe_orbit)
-		self.N_vec_bi_unit_probe_orbit = self.N_vec_bi_probe_orbit / np.linalg.norm(self.N_vec_bi_probe_orbit)
+		if np.linalg.norm(self.N_vec_bi_probe_orbit) > 0:
+			self.N_vec_bi_unit_probe_orbit = self.N_vec_bi_probe_orbit / np.linalg.norm(self.N_vec_bi_probe_orbit)
+		else:
+			# equatorial orbit has no node, measure from the x-axis
+			self.N_vec_bi_unit_probe_orbit = np.array([1.0, 0.0, 0.0])
 
 		if self.N_vec_bi_unit_probe_orbit[1] >= 0:
 			self.OMEGA_probe_orbit = np.arccos(self.N_vec_bi_unit_probe_orbit[0])
@@ -712,10 +718,8 @@ class Orbiter:
 
 		self.e_vec_bi_unit_probe_orbit = self.e_vec_bi_probe_orbit / np.linalg.norm(self.e_vec_bi_probe_orbit)
 
-		if self.e_vec_bi_unit_probe_orbit[2] >= 0:
-			self.omega_probe_orbit = np.arccos(np.dot(self.N_vec_bi_unit_probe_orbit, self.e_vec_bi_unit_probe_orbit))
-		else:
-			self.omega_probe_orbit = 2 * np.pi - np.arccos(np.dot(self.N_vec_bi_unit_probe_orbit, self.e_vec_bi_unit_probe_orbit))
+		self.omega_probe_orbit = np.arctan2(np.dot(self.h_vec_bi_unit_probe_orbit, np.cross(self.N_vec_bi_unit_probe_orbit, self.e_vec_bi_unit_probe_orbit)),
+								np.dot(self.N_vec_bi_unit_probe_orbit, self.e_vec_bi_unit_probe_orbit)) % (2*np.pi)
 
 		self.r_periapsis_probe = self.a_probe_orbit * (1 - self.e_probe_orbit)
 		self.r_apoapsis_probe = self.a_probe_orbit * (1 + self.e_probe_orbit)
@@ -826,7 +830,11 @@ class Orbiter:
 		self.i_orbiter_defl = np.arccos(self.h_vec_bi_unit_orbiter_defl[2])
 
 		self.N_vec_bi_orbiter_defl = np.cross(np.array([0, 0, 1]), self.h_vec_bi_orbiter_defl)
-		self.N_vec_bi_unit_orbiter_defl = self.N_vec_bi_orbiter_defl / np.linalg.norm(self.N_vec_bi_orbiter_defl)
+		if np.linalg.norm(self.N_vec_bi_orbiter_defl) > 0:
+			self.N_vec_bi_unit_orbiter_defl = self.N_vec_bi_orbiter_defl / np.linalg.norm(self.N_vec_bi_orbiter_defl)
+		else:
+			# equatorial orbit has no node, measure from the x-axis
+			self.N_vec_bi_unit_orbiter_defl = np.array([1.0, 0.0, 0.0])
 
 		if self.N_vec_bi_unit_orbiter_defl[1] >= 0:
 			self.OMEGA_orbiter_defl = np.arccos(self.N_vec_bi_unit_orbiter_defl[0])
@@ -838,10 +846,8 @@ class Orbiter:
 
 		self.e_vec_bi_unit_orbiter_defl =  self.e_vec_bi_orbiter_defl  / np.linalg.norm(self.e_vec_bi_orbiter_defl)
 
-		if self.e_vec_bi_unit_orbiter_defl[2] >= 0:
-			self.omega_orbiter_defl = np.arccos(np.dot(self.N_vec_bi_unit_orbiter_defl, self.e_vec_bi_unit_orbiter_defl))
-		else:
-			self.omega_orbiter_defl = 2 * np.pi - np.arccos(np.dot(self.N_vec_bi_unit_orbiter_defl, self.e_vec_bi_unit_orbiter_defl))
+		self.omega_orbiter_defl = np.arctan2(np.dot(self.h_vec_bi_unit_orbiter_defl, np.cross(self.N_vec_bi_unit_orbiter_defl, self.e_vec_bi_unit_orbiter_defl)),
+								np.dot(self.N_vec_bi_unit_orbiter_defl, self.e_vec_bi_unit_orbiter_defl)) % (2*np.pi)
 
 		self.r_periapsis_orbiter_defl = self.a_orbiter_defl * (1 - self.e_orbiter_defl)
 		self.r_apoapsis_orbiter_defl = self.a_orbiter_defl* (1 + self.e_orbiter_defl)
-- 
2.43.0


From 3228d2e04ebc4d66ec4fc5bd47ef79d8221dbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:58 +0000
Subject: [PATCH 29/32] fix: timed orbit of the propulsive orbiter did not
 converge near periapsis of very eccentric orbits

---
 AMAT/orbiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 913e0d5..1d395d3 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -1043,7 +1043,8 @@ class PropulsiveOrbiter:
 
 
 	def compute_E(self, M, rtol=1e-6):
-		root = optimize.newton(lambda E: E - self.e*np.sin(E) - M, x0=M)
+		# the root lies within e of M, bracketing it converges for every eccentricity
+		root = optimize.brentq(lambda E: E - self.e*np.sin(E) - M, M - self.e, M + self.e)
 		return root
 
 	def compute_theta_star(self, E):
-- 
2.43.0


From 94184947d315aabb6f8298d281b34a3735957429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 30/32] fix: lander-to-planet visibility ran backwards in time
 on planets with retrograde rotation

---
 AMAT/visibility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index b676499..4218862 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -191,8 +191,9 @@ class LanderToPlanet(Visibility):
 		# Convert observer to target unit vector in ICRF to observer planet BI frame
 		self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
 
-		self.longitude_array = np.linspace(0, 360, num_points)  # body inertial longitude array
-		self.t_array = np.linspace(0, 2*np.pi/(self.planetObj.OMEGA), num_points)  # time array
+		# one full rotation forward in time; the longitude decreases with time if the rotation is retrograde
+		self.longitude_array = np.linspace(0, 360*np.sign(self.planetObj.OMEGA), num_points)  # body inertial longitude array
+		self.t_array = np.linspace(0, 2*np.pi/abs(self.planetObj.OMEGA), num_points)  # time array
 		self.beta_array = np.array([])  # beta angle array
 		self.elevation_array = np.array([])  # elevation angle array
 		self.visible_array = np.array([], dtype=bool)
-- 
2.43.0


From d3edcf1db9ad8560892073de15235ee8f1f5b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 31/32] fix: resampling the coast after construction kept the
 coast's orbit

---
 AMAT/orbiter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 1d395d3..62efe6e 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -350,6 +350,7 @@ class Orbiter:
 		self.a = self.vehicle.computeSemiMajorAxisScalar(self.terminal_E)
 		self.e = self.vehicle.computeEccScalar(self.terminal_h, self.terminal_E)
 		self.h = np.sqrt(self.a * self.vehicle.planetObj.GM * (1 - self.e ** 2))
+		self.coast_elements = (self.a, self.e, self.h)
 
 		self.h_vec_bi = np.cross(self.terminal_r_vec, self.terminal_v_ie_vec)
 		self.h_vec_bi_unit = self.h_vec_bi / np.linalg.norm(self.h_vec_bi)
@@ -565,6 +566,10 @@ class Orbiter:
 
 		"""
 
+		# the coast precedes the periapsis raise maneuver, which replaces a, e, h
+		orbit_elements = (self.a, self.e, self.h)
+		self.a, self.e, self.h = self.coast_elements
+
 		theta_star_arr = np.linspace(self.theta_star_exit, np.pi, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi(theta_star_arr) / self.vehicle.planetObj.RP
 
@@ -581,6 +586,8 @@ class Orbiter:
 		self.v_apoapsis_vec_coast = self.vel_vec_bi(np.pi)
 		self.v_apoapsis_mag_coast = np.linalg.norm(self.v_apoapsis_vec_coast)
 
+		self.a, self.e, self.h = orbit_elements
+
 	def compute_post_PRM_orbital_elements(self):
 		"""
 		Computes the orbit elements for orbit with periapsis raised
-- 
2.43.0


From e144e973529800b2e38e36cad691b4a2ed017a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 32/32] fix: launch mass plots crashed on, or hid rows of,
 databases without an unlaunchable trajectory

---
 AMAT/interplanetary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/interplanetary.py b/AMAT/interplanetary.py
index 0a71a41..3c84a37 100644
--- a/AMAT/interplanetary.py
+++ b/AMAT/interplanetary.py
@@ -100,7 +100,7 @@ class Interplanetary:
 		ax.tick_params(direction='in')
 		ax.yaxis.set_ticks_position('both')
 		ax.xaxis.set_ticks_position('both')
-		plt.ylim(max(0, sorted(set(Lcmass))[1])-100, max(Lcmass)+100)
+		plt.ylim(max(0, min((m for m in Lcmass if m > 0), default=0))-100, max(Lcmass)+100)
 
 		plt.legend(loc='upper right', fontsize=12, framealpha=0.8)
 
@@ -249,7 +249,7 @@ class Interplanetary:
 
 		plt.figure(figsize=(8,6))
 		plt.scatter(self.Lcdate, self.Avinf, c=Lcmass, marker='o', cmap='jet',
-					vmin = max(0, sorted(set(Lcmass))[1]), vmax = max(Lcmass), s=scale)
+					vmin = max(0, min((m for m in Lcmass if m > 0), default=0)), vmax = max(Lcmass), s=scale)
 		cbar = plt.colorbar()
 		cbar.ax.tick_params(labelsize=14)
 		cbar.set_label(r'Launch capability, kg', labelpad=-20, y=1.05, rotation=0, fontsize=14)
@@ -314,7 +314,7 @@ class Interplanetary:
 		ax.tick_params(direction='in')
 		ax.yaxis.set_ticks_position('both')
 		ax.xaxis.set_ticks_position('both')
-		plt.ylim(max(0, sorted(set(Lcmass))[1])-100, max(Lcmass)+100)
+		plt.ylim(max(0, min((m for m in Lcmass if m > 0), default=0))-100, max(Lcmass)+100)
 
 
 		plt.legend(loc='upper right', fontsize=12, framealpha=0.8)
@@ -384,7 +384,7 @@ class Interplanetary:
 		ax.tick_params(direction='in')
 		ax.yaxis.set_ticks_position('both')
 		ax.xaxis.set_ticks_position('both')
-		plt.ylim(max(0, sorted(set(Lcmass))[1])-100, max(Lcmass)+100)
+		plt.ylim(max(0, min((m for m in Lcmass if m > 0), default=0))-100, max(Lcmass)+100)
 
 
 		plt.legend(loc='upper right', fontsize=12, framealpha=0.8)
-- 
2.43.0

