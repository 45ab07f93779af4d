From 65a8f59d32f0eca7b762ace43c4bc779905a6955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:05 +0000
Subject: [PATCH 01/29] fix: zero-frequency blocks used the removed numpy alias
 np.float (and float() of an array)

mSumme_k0 and everything built on it (free_energy, entropy, worker jobs with
analytic_n0) raised AttributeError on every input.
---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..56da6a2 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype = float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From aa5d48dbee28f29af52cd3dd57021512f1218617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:18 +0000
Subject: [PATCH 02/29] fix: interior zero-frequency TE coefficient of a plasma
 wall used a stale Bessel scaling

mie_internal_k0 multiplied K_(l-1)/K_l by x/(2l-1), a leftover of an older
scaling convention of lnknu, and only lined up with l for lmin=1.
---
 CasimirRio/scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 10306f7..511ba6b 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -237,8 +237,8 @@ class scattering:
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
-                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
-                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])*wPR_c/(2*l-1)#k_wp[0:-1]/k_wp[1:]*wPR_c/(2*l-1)
+                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
+                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
                 bTE = (-(mu0_e*l + mu0_i*k_fracterm )
                        /( (l+1)*mu0_e - mu0_i*k_fracterm )
-- 
2.43.0


From 1fb34ffdebbbae555c58cbc7adbb27d5128dc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 03/29] fix: zero-frequency TE coefficients of a magnetic
 plasma ignored mu in the penetration depth

The k->0 limit of n*k*r is sqrt(mu)*w_P*r/c; mie_k0 and mie_internal_k0 used
w_P*r/c and disagreed with mie/mie_internal at small k for mu(0) != 1.
---
 CasimirRio/scattering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 511ba6b..fe9bcc1 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -65,6 +65,7 @@ class scattering:
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat1.is_sigma_finite:
+                wPR_c = wPR_c * np.sqrt(mu0_sp)
                 ifraction = bessel_sk.i_fraction(wPR_c, l-0.5)[:, 0]
                 i_frac_term = (-l + wPR_c * ifraction)
                 bTE = ((mu0_md*i_frac_term - mu0_sp*(l+1))
@@ -237,6 +238,7 @@ class scattering:
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
+                wPR_c = wPR_c * np.sqrt(mu0_e)
                 k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
                 k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
-- 
2.43.0


From 513b779a0574e03f5fa8694b1efe8919630d8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 04/29] fix: lniknu permuted its l=0,1 results when x was not
 sorted around 1e-3

lniknu([1, 1e-4], 1) returned the values of lniknu([1e-4, 1], 1).
---
 CasimirRio/bessel_sk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..a268b50 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -71,8 +71,9 @@ def lniknu(x, lmax):
         i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
         i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
         i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
+        i0, i1 = np.empty(x.shape), np.empty(x.shape)
+        i0[sm], i0[lg] = i0sm, i0lg
+        i1[sm], i1[lg] = i1sm, i1lg
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-- 
2.43.0


From daaddb4d42646f822c8667724c47cabf96215ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 05/29] fix: continued-fraction depth was chosen from the last
 argument only

fnu used 80 levels for x=[800, 1] and 140 for x=[1, 800]; the former is off
by 1e-4 in ln I_l.
---
 CasimirRio/bessel_sk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index a268b50..b35395f 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -46,7 +46,7 @@ def fnu(x, nu):
 
     """
     Nmax = 80
-    if x[-1] > 100:
+    if np.max(x) > 100:
         Nmax = 140
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
-- 
2.43.0


From 1d2ffe0fbec9561e3e2d15c78ce25edb76676946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 06/29] fix: translation coefficients ignored the permeability
 of the medium

The Mie coefficients use n=sqrt(eps*mu) of the medium, the translation over
the same medium used sqrt(eps): wrong round trips for mu != 1.
---
 CasimirRio/translation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index e4fb086..c9e6dd0 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -51,7 +51,7 @@ class translation:
             self.trans_k0 = self.trans_k0_int
         if not (k == 0).any():
             self.bessels = bessel_sk.trans_bessels(self.k*self.L*
-                 np.sqrt(self.medium.epsilon(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
+                 np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
         self.forceFlag = forceFlag
         if self.forceFlag:
             self.get_vl1l2 = self.get_vl1l2_force
@@ -181,7 +181,7 @@ class translation:
         lppmax = l1+l2
         lpp = np.arange(abs(l1-l2), lppmax+1, 2)[np.newaxis, :]
         gaunt = self.gnt(l1, l2, self.m)
-        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)))[:, np.newaxis]
+        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
         sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
         sphB_gnt = sphB * gaunt
         sgn_ba = (-1)**lpp
-- 
2.43.0


From 2f306c13c620453fdd88bfb0df2091a335354b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 07/29] fix: mie_stratified popped layers from the caller's
 material and radius lists

A SphereSphere with an outermost shell of the medium lost that shell from its
own mat1/r1 (and from the lists the user passed) on first use.
---
 CasimirRio/stratified_sphere_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..89f08de 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -26,8 +26,8 @@ class StratifiedMieScattering(scattering):
     def __init__(self, mat_list, r_list):  # nCore, nCoating, nMedium
         try:
             if type(mat_list) == list and type(r_list) == list:
-                self.mat_list = mat_list
-                self.r_list = r_list
+                self.mat_list = list(mat_list)
+                self.r_list = list(r_list)
                 assert(len(r_list)==len(mat_list)-1)
                 scattering.__init__(self, mat_list[0], mat_list[1])
         except:
-- 
2.43.0


From ea6a92062869e26e6125bd9a1a7ddc10d8ea0ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 08/29] fix: raw_PFA.get_f_matsubaras overwrote the first entry
 of the caller's array

---
 CasimirRio/raw_PFA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..b7c96cc 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,6 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
+            matsubaras = matsubaras.copy()
             matsubaras[0] = 1e-20
         norm = 2*np.pi
         integralTE = lambda kn: quad(
-- 
2.43.0


From 328c8540917bae236f796175ae6d613f159da2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 09/29] fix: materials_converter.transform overwrote the
 parameters it was given

list.copy() is shallow, so the inner [C, omega] pairs were rewritten in place.
---
 CasimirRio/materials_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/materials_converter.py b/CasimirRio/materials_converter.py
index ced384a..dc0dd17 100644
--- a/CasimirRio/materials_converter.py
+++ b/CasimirRio/materials_converter.py
@@ -10,7 +10,7 @@ def transform(params):
     eV = 1.60218e-19
     hbar = 1.05457e-34
     omega_eV = eV/hbar
-    t_params = params.copy()
+    t_params = [list(osciallator) for osciallator in params]
     for i, osciallator in enumerate(params):
         t_params[i][0] = sqrt(osciallator[0]*(osciallator[1]*omega_eV)**2)
         t_params[i][1] = osciallator[1]*omega_eV
-- 
2.43.0


From b3688c6f23a220f0b8511d5d79e5795db301a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 10/29] fix: plane-plane Casimir pressure was half of -dF/dL

d/dL ln(1-r exp(-2kL)) = 2k r exp(-2kL)/(1-r exp(-2kL)); the factor 2 was
missing, so planeplanePressure disagreed with planeplaneFreeEnergy.
---
 CasimirRio/PFA.py     | 8 ++++----
 CasimirRio/raw_PFA.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 45c7cba..c88b0a1 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -41,8 +41,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def pressureRoundTrip(self, k_perp, kn, L):
@@ -54,8 +54,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE)+
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE)+
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index b7c96cc..1235042 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -30,8 +30,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
-- 
2.43.0


From d21362c15f01652407974642c8cdf3a1e8e3cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 11/29] fix: PFA.spheresphereForce ignored n0_shielding

---
 CasimirRio/PFA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index c88b0a1..0a102e9 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -183,7 +183,8 @@ class SphereSpherePFA:
         nenner = r1+r2
         if d < r1+r2:
             nenner = max(r1, r2)-min(r1, r2)
-        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0))
+        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0),
+                                           n0_shielding)
         return force
 
     def distance(self, r1, r2, d, rho):
-- 
2.43.0


From 3229ca950b387f6288248b69c6bc14f72850bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:09 +0000
Subject: [PATCH 12/29] fix: PFA.spheresphereEnergy failed for r1 > r2

The Derjaguin integral ran over rho in (0, r1), beyond the smaller sphere:
sqrt of a negative number (math domain error).
---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 0a102e9..aee4dba 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         Lrho = lambda rho: self.distance(r1, r2, d, rho)
         freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),
-                                           n0_shielding), 0, r1)[0]
+                                           n0_shielding), 0, min(r1, r2))[0]
         return freeE
 
     def spheresphereForce(self, r1, r2, T, d, n0_shielding = False):
-- 
2.43.0


From cc12c0d65c05b31d3495fb50c69fd00ade6c3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:09 +0000
Subject: [PATCH 13/29] fix: free_energy and entropy depended on whether force
 was called before

force() leaves forceFlag set, so a following free_energy()/entropy() evaluated
the Matsubara terms in force mode.
---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..7bc3539 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -74,6 +74,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir free energy times 2π/ℏc in units of micrometers
 
         """
+        self.forceFlag = 0
         if self.f_matsubaras is None:
             self.f_matsubaras = self.get_f_matsubaras(0)
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
@@ -97,6 +98,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir entropy in units of the Boltzmann-constant.
 
         """
+        self.forceFlag = 0
         if self.f_matsubaras is None:# ??? Was ist wenn zunächst force berechnet wurde und forceFlag jetzt auf 1 steht?
             self.f_matsubaras = self.get_f_matsubaras(0)
         S_T = - np.gradient(self.free_energy(), self.deltaT)
-- 
2.43.0


From 8091cf9712793a42320f0a4cd38c378da347d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:09 +0000
Subject: [PATCH 14/29] fix: mSum_oneRoundtrip used xrange, which Python 3 does
 not have

---
 CasimirRio/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 56da6a2..3cb9c60 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -523,7 +523,7 @@ class SphereSphere:
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
         TrM_matsubaras_m = np.array([np.trace(A[i,:,:]+D[i,:,:]) 
-                    for i in xrange(len(matsubaras))])
+                    for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
             mmax = round(np.log(self.precision)/np.log(0.5))
@@ -535,11 +535,11 @@ class SphereSphere:
             sh = np.shape(A)
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                            for i in xrange(len(matsubaras))])
+                            for i in range(len(matsubaras))])
                 return TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                                    for i in xrange(len(matsubaras))])
+                                    for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
                 return TrM_matsubaras_m
         return TrM_matsubaras_m
-- 
2.43.0


From 79749fa049681501cdf895190ee68ea349d8ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 15/29] fix: single round-trip approximation of ln det(1-M) had
 the wrong sign

ln det(1-M) = -Tr M + ...; mSumme and mSum_roundtrips(order=1) are negative
where mSum_oneRoundtrip was positive.
---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 3cb9c60..4b705cb 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -518,7 +518,7 @@ class SphereSphere:
 
     def mSum_oneRoundtrip(self, matsubaras, mmax="automatic"):# ??? Was hat das mit der Geometrie zu tun?
         """The analog of mSumme but calculating ln det(1-M(matsubaras)) in 
-           single round-trip approximation as Trace(M(matsubaras))
+           single round-trip approximation as -Trace(M(matsubaras))
 
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
@@ -536,13 +536,13 @@ class SphereSphere:
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                             for i in range(len(matsubaras))])
-                return TrM_matsubaras_m
+                return -TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                                     for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
-                return TrM_matsubaras_m
-        return TrM_matsubaras_m
+                return -TrM_matsubaras_m
+        return -TrM_matsubaras_m
 
     def mSum_roundtrips(self, matsubaras, order="automatic", forceFlag=0):
         m = 0
-- 
2.43.0


From dfcbe08064b4ca767bb1bc96d4e1dbf182967912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 16/29] fix: round-trip elements for m > 1 failed unless m <= 1
 was evaluated before

Only the cached branch dropped the Mie coefficients with l < m, so
single_m(2, k) on a fresh geometry (or for new k) raised a broadcast error.
---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 4b705cb..6c7a3b3 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -166,7 +166,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA, mieB, V]
+        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
     def roundTrip_elements_k0(self, m, k):
         """Collect all necessyary Mie-coefficients and translation matrices
-- 
2.43.0


From 020e5a812741424a5ea979c004734aaf064a06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 17/29] fix: zero-frequency Mie cache depended on the first m
 that was evaluated

The cache was filled for l >= max(1, m) of the first call and later sliced as
if it started at l = 1: single_m_k0(2) followed by mSumme_k0() failed.
---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6c7a3b3..4fb5746 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -198,14 +198,14 @@ class SphereSphere:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
             self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
                 self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
                 self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
             mieA_k0 = self.MieA_k0
             mieB_k0 = self.MieB_k0
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
@@ -217,7 +217,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0, mieB_k0, V_k0]
+        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
     def blockmatrices_k0_int(self, m):
         """ Returns a list of two blockmatrices corresponding to a subspace
-- 
2.43.0


From 0379860b53ad4f2df76a90e7925de394b22341f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 18/29] fix: supermatrix left the geometry in force mode

After mSum_trace_dot (also when it raised) every later energy evaluation of
the same geometry ran with forceFlag set.
---
 CasimirRio/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 4fb5746..db0432c 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -584,8 +584,11 @@ class SphereSphere:
            matrices returned by the blockmatrices() method.
 
         """
-        self.forceFlag = forceFlag
-        Ms = self.blockmatrices(m, matsubaras)
+        saved, self.forceFlag = self.forceFlag, forceFlag
+        try:
+            Ms = self.blockmatrices(m, matsubaras)
+        finally:
+            self.forceFlag = saved
         bigM = np.append(Ms[0], Ms[1], axis=2)
         bigM = np.append(bigM, np.append(Ms[2], Ms[3], axis=2), axis=1)
         return bigM
-- 
2.43.0


From 9eed8fb96835a7bcf5716ec278b18990298d5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 19/29] fix: blockmatrices_debug read an undefined name at zero
 frequency

---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index db0432c..87d92f8 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -446,7 +446,7 @@ class SphereSphere:
 
         if k0_evaluation:
             resultEE_k0, resultMM_k0 = self.blockmatrices_k0(m)
-            resultEE_k0, resultMM_k0 = mEE_k0[np.newaxis,...], mMM_k0[np.newaxis,...]
+            resultEE_k0, resultMM_k0 = resultEE_k0[np.newaxis,...], resultMM_k0[np.newaxis,...]
             resultEM_k0 = np.zeros(resultEE_k0.shape)
             resultEE = np.append(resultEE_k0, resultEE, axis=0)
             resultEM = np.append(resultEM_k0, resultEM, axis=0)
-- 
2.43.0


From 42d981426f3114b1e0a46c026e33a77d500fff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 20/29] fix: CoatedSphereSphere could not be evaluated

lssmax and forceFlag were passed into the l_offset and lssmax slots, and
mie_coated was called without lmin.
---
 CasimirRio/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 87d92f8..55f73c5 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -611,7 +611,8 @@ class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
                  mat2_core, mat2_coat, L, matMd, lmax, lssmax, forceFlag=0):
         SphereSphere.__init__(self, r1_a, r2_a, L, mat1_coat, mat2_coat,
-                               matMd, lmax, lssmax, forceFlag)
+                               matMd, lmax=lmax, lssmax=lssmax,
+                               forceFlag=forceFlag)
         self.r1_i = r1_i
         self.r2_i = r2_i
         self.r1_a = r1_a
@@ -638,11 +639,11 @@ class CoatedSphereSphere(SphereSphere):
         else:
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
-                ).mie_coated(k, self.lmax, self.r1_i,
+                ).mie_coated(k, 1, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
             self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
-                k, self.lssmax, self.r2_i, self.r2_a)
+                k, 1, self.lssmax, self.r2_i, self.r2_a)
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
                                   self.MieB[2][np.newaxis, :, np.newaxis,
-- 
2.43.0


From 1e7ae27c05473f1e1495c95804c055a25061f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 21/29] fix: zeroth Matsubara term of coated spheres was that
 of solid spheres of the coating

The analytic zero-frequency blocks only know solid spheres; stratified spheres
already fall back to the numerical limit, coated ones did not.
---
 CasimirRio/thermodynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 7bc3539..e4cc9f1 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -32,7 +32,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                              but given was", nprocs)
         self.nprocs = nprocs
         self.analytic_n0 = analytic_n0
-        if type(geom.mat1) == list or type(geom.mat2) == list:
+        if (type(geom.mat1) == list or type(geom.mat2) == list or
+            isinstance(geom, geometry.CoatedSphereSphere)):
             self.analytic_n0 = False
         self.nmax = nmax# ??? Was ist wenn nmax<maxstep gewählt ist?
         self.Tmax = Tmax
-- 
2.43.0


From 2423c8b0a22a70efcce95c788f2d9a24da3959bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 22/29] fix: a slice holding only n=0 failed without
 analytic_n0

F_alle([0]) evaluated mSumme on an empty array (IndexError), e.g. for nmax=0
or a slice length of 1 with stratified spheres.
---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index e4cc9f1..b7f1f19 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -159,6 +159,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-- 
2.43.0


From 48abda9dc83a099a3048490e42a2927bb1f7b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 23/29] fix: nprocs > 0 raised NameError instead of
 NotImplementedError

---
 CasimirRio/thermodynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index b7f1f19..397a940 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -230,7 +230,7 @@ def slicewise_eval(func, nmin, nmax, stepsize=200):
         nmin = nmax_sl+1
     return result 
 
-def multiproc_silcewise_eval(func, nmin, nmax):
+def multiproc_slicewise_eval(func, nmin, nmax, stepsize=200):
     raise NotImplementedError("multiprocessing not yet implemented!")
 
 if __name__ == "__main__":
-- 
2.43.0


From 44e65d7fb43548d297033095aec26834e59c2ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 24/29] fix: worker overwrote an existing result when out and
 out1 both existed

---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..cde965a 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -149,7 +149,7 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    if os.path.exists(foutput):
+    while os.path.exists(foutput):
         foutput += "1"
     outfile = open(foutput, "w")
     comment = job_infos()
-- 
2.43.0


From c8f2e15d318e7bfc7d3ccc26e64c7fb9b9bffb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 25/29] fix: worker ignored the analytic_n0 option of the job
 file

---
 CasimirRio/worker.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index cde965a..4fc0ae7 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -107,11 +107,7 @@ def do_calculation():
         nmax = config.get("thermodynamics", "nmax")
         if not nmax == "automatic":
             print("nmax has to be given as integer or \"automatic\"") 
-    try:
-        analytic_n0 = config.get("geometry", "analytic_n0")
-    except ValueError:
-        print("analytic_n0 is not given correctly: ", analytic_n0)
-    analytic_n0 = True
+    analytic_n0 = config.getboolean("geometry", "analytic_n0")
     if type(geom.r1) == list or type(geom.r2) == list:
         analytic_n0 = False
     Tmax = config.getfloat("thermodynamics", "Tmax")
-- 
2.43.0


From 6d5a93d9f204a205d15aee3fb35271380402b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:07 +0000
Subject: [PATCH 26/29] fix: static TE coefficient of a plasma took the first
 oscillator for the free carriers

---
 CasimirRio/scattering.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index fe9bcc1..cb21ceb 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -59,13 +59,11 @@ class scattering:
         bTM = (l+1)/l
         if not self.mat1.is_perfect_conductor:
             mu0_sp = self.mat1.mu(k)
-            wPR_c = np.array([0])
-            try:
-                wPR_c = np.array([self.mat1.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
             if not self.mat1.is_sigma_finite:
-                wPR_c = wPR_c * np.sqrt(mu0_sp)
+                # free carriers without dissipation set the penetration depth
+                wP2 = sum([p[0]**2 for p in self.mat1.e_properties
+                           if p[1] == 0 and p[2] == 0])
+                wPR_c = np.sqrt(wP2*mu0_sp)*R/2.998e14
                 ifraction = bessel_sk.i_fraction(wPR_c, l-0.5)[:, 0]
                 i_frac_term = (-l + wPR_c * ifraction)
                 bTE = ((mu0_md*i_frac_term - mu0_sp*(l+1))
@@ -233,12 +231,11 @@ class scattering:
         sgn = (-1)**(l)
         bTM = l/(l+1)
         if not self.mat2.is_perfect_conductor:
-            try:
-                wPR_c = np.array([self.mat2.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
-                wPR_c = wPR_c * np.sqrt(mu0_e)
+                # free carriers without dissipation set the penetration depth
+                wP2 = sum([p[0]**2 for p in self.mat2.e_properties
+                           if p[1] == 0 and p[2] == 0])
+                wPR_c = np.sqrt(wP2*mu0_e)*R/2.998e14
                 k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
                 k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
-- 
2.43.0


From bac236e35d0b845c4391ee66aff7826074924879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:21 +0000
Subject: [PATCH 27/29] fix: worker failed without l_offset when lmax was
 automatic

---
 CasimirRio/worker.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 4fc0ae7..b1b1ae3 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -59,11 +59,6 @@ def return_geometry():
         lmax = config.getint("geometry", "lmax")
     except ValueError:
         lmax = config.get("geometry", "lmax")
-        if lmax == "automatic":
-            try:
-                l_offset = config.getint("geometry", "l_offset")
-            except ValueError:
-                l_offset = None      
         if not lmax == "automatic":
             print("lmax has to be given as integer or \"automatic\"") 
     try:
-- 
2.43.0


From 242b08753f4681cc699b73ad9a58402efbdfc253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:21 +0000
Subject: [PATCH 28/29] fix: worker read precision before assignment when it
 was not a number

---
 CasimirRio/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index b1b1ae3..169f8d7 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -53,7 +53,10 @@ def return_geometry():
     try:
         precision = config.getfloat("geometry", "precision")
     except ValueError:
-        if not precision == "automatic":
+        precision = config.get("geometry", "precision")
+        if precision == "automatic":
+            precision = 1e-4
+        else:
             print("precision has to be a float or \"automatic\"")
     try:
         lmax = config.getint("geometry", "lmax")
-- 
2.43.0


From f9b9b8ac3169b7f0c0fe7d2cc1373b86c0603015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:15 +0000
Subject: [PATCH 29/29] fix: invalid numbers in the text boxes raised an
 unbound variable instead of the status message

---
 CasimirRio/textbox_get_example.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/textbox_get_example.py b/CasimirRio/textbox_get_example.py
index cc6056d..f4b866d 100644
--- a/CasimirRio/textbox_get_example.py
+++ b/CasimirRio/textbox_get_example.py
@@ -13,8 +13,7 @@ def retrieve_input():
     try:
         radius1 = float(r1.get())
     except:
-        if not status_text == "worked":
-            status_text.join("\ninvalid variable: Radius 1")
+        status_text = "invalid variable: Radius 1"
     try: 
         radius2 = float(r2.get())
     except:
@@ -24,6 +23,8 @@ def retrieve_input():
     except:
         status_text = "invalid variable: distance"
     status_label = tk.Label(my_window, text = status_text).grid()
+    if not status_text == "worked":
+        return
     radii = [radius1, radius2]
     radii.sort()
     rS, rG = radii
-- 
2.43.0

