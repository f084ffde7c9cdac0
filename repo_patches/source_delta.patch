From bfcbfc47d1b19d11f34edbc79aab06c52e4bc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 01/36] fix: no longshore transport where waves are directed
 offshore

---
 hapuamod/coast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index 2da6eab..ec72221 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -75,7 +75,7 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
     BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
     
-    LST = - PhysicalPars['K2coef'] * WavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
+    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
     return LST
 
-- 
2.43.0


From d07c46060baf62822cb96b5864edbd351778105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:47 +0000
Subject: [PATCH 02/36] fix: use the whole duration of time steps and
 intervals, not the seconds or days component

---
 hapuamod/core.py  |  2 +-
 hapuamod/mor.py   | 28 ++++++++++++++--------------
 hapuamod/out.py   |  2 +-
 hapuamod/riv.py   |  2 +-
 hapuamod/synth.py |  4 ++--
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d117dd9..862cfc0 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -209,7 +209,7 @@ def main(ModelConfigFile, Overwrite=False):
         
         # updates to user
         if MorTime >= LogTime:
-            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.seconds)
+            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.total_seconds())
             LogTime += OutputOpts['LogInt']
             
         # plotting
diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 75ccc14..25a13a8 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -180,22 +180,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndAggRate),
                            abs(OutletEndXMoveRate))
     
-    while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
+    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
         MorDt /= 2
-        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
-    while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
+    while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
         MorDt *= 2
-        logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
+        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
     #  1. issue warning
     #  2. limit change (while preserving sign) to prevent model blowing up (even though this may be at the expense of mass balance)
-    if MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        assert MorDt.seconds <= TimePars['MorDtMin'].seconds
+    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
         logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',
-                        MaxMorChangeRate * MorDt.seconds, NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
-        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.seconds
+                        MaxMorChangeRate * MorDt.total_seconds(), NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
+        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
         RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
@@ -206,13 +206,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Update morphology
         
     # note that += modifies variables in place so no need to explicitly return them!
-    RiverElev[1:] += RivBedAggRate * MorDt.seconds
-    ShoreZ += ShoreZChangeRate * MorDt.seconds
-    ShoreY += ShoreYChangeRate * MorDt.seconds
+    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
+    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
+    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
-        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.seconds
-        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.seconds
-        OutletEndX[1] += OutletEndXMoveRate * MorDt.seconds
+        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
+        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
     #%% 1. Check if outlet has extended too close to the edge of the domain
     if OutletEndX[1] < ShoreX[1]:
diff --git a/hapuamod/out.py b/hapuamod/out.py
index 94d1cad..093af2b 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -647,6 +647,6 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sed_inflow'][TimeIx] = SedInflow
     NcFile.variables['outlet_end_x'][TimeIx,:] = OutletEndX
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-    NcFile.variables['mordt'][TimeIx] = MorDt.seconds
+    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
     
     NcFile.close()
\ No newline at end of file
diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1dba573..35f2239 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -125,7 +125,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
-    dt = dt.seconds          # timestep for hydraulics [s]
+    dt = dt.total_seconds()          # timestep for hydraulics [s]
     N = z.size               # number of cross-sections
     S_0 = (z[:-1]-z[1:])/dx  # bed slope in each reach between XS [m/m]
     
diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 848b7db..d518f8b 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -92,7 +92,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     r = random.Random(RandomSeed)
     
     # Calculation additional (derived) input parameters
-    EventRate = 1/MeanTimeBetweenEvents.days
+    EventRate = 1/(MeanTimeBetweenEvents.total_seconds() / 86400)
     PropRate2 = 1-PropRate1
     Rate1Vals = [MeanEventIncrease * (PropRate1 / DecayRate1) * EventRate]
     Rate2Vals = [MeanEventIncrease * (PropRate2 / DecayRate2) * EventRate]
@@ -100,7 +100,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     
     logging.info('Generating synthetic shot-noise timeseries for period %s to %s' % (StartDate, EndDate))
     logging.debug('MeanTimeBetweenEvents = %f days, MeanEventIncrease = %f m3/s, DecayRate1 = %f' %  
-                  (MeanTimeBetweenEvents.days, MeanEventIncrease,DecayRate1))
+                  (MeanTimeBetweenEvents.total_seconds() / 86400, MeanEventIncrease,DecayRate1))
     logging.debug('PropRate1 = %f, DecayRate2 = %f, RisingLimbTime = %f hours' % 
                   (PropRate1, DecayRate2, RisingLimbTime.total_seconds() / 3600))
     logging.info('Estimated mean value of generated timeseries = %.3f' % MeanVal)
-- 
2.43.0


From 73ad34108d01163f658cc94f56dd3679208dbb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:56 +0000
Subject: [PATCH 03/36] fix: steady fallback of the unsteady solver reaches the
 caller and uses the current step

---
 hapuamod/riv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 35f2239..211c64b 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -301,7 +301,9 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h, V) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q, DsWl, NumericalPars)
+            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
+            A = h*B
 
 def assembleChannel(ShoreX, ShoreY, ShoreZ, 
                     OutletEndX, OutletEndWidth, OutletEndElev, 
-- 
2.43.0


From 6df759ccd2763720b1a7b363687bd35c67f201ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:39 +0000
Subject: [PATCH 04/36] fix: re-solve the perturbed matrix after a LinAlgError,
 reproducibly

---
 hapuamod/riv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 211c64b..1e49bf1 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -267,7 +267,8 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                 Delta = linalg.solve_banded([2,2],a_banded,Err)
             except linalg.LinAlgError as ErrMsg:
                 logging.warning('LinAlgError %s - adding some noise to see if this fixes it...' % ErrMsg)
-                a_banded += np.random.random(a_banded.shape) * 1e-7 - 5e-8
+                a_banded += np.random.RandomState(0).random_sample(a_banded.shape) * 1e-7 - 5e-8
+                Delta = linalg.solve_banded([2,2],a_banded,Err)
             
             # Update h & V
             h -= Delta[np.arange(0,2*N,2)]
-- 
2.43.0


From fd7738573e3a32481e1ca21612548519a2995e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 05/36] fix: velocity derivative of the convective term for
 reversed flow

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1e49bf1..b7251b3 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -242,7 +242,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                                                   - g_dt_Theta*B[:-1]*(S_0+(1/3)*Sf[:-1]))
             # d/dV[0]
             a_banded[3,np.arange(1,2*(N)-2,2)] = (A[:-1] 
-                                                  - 4*Beta*dtdx*Theta*V[:-1]*A[:-1] 
+                                                  - 4*Beta*dtdx*Theta*np.abs(V[:-1])*A[:-1] 
                                                   + 2*g_dt_Theta*A[:-1]*Sf[:-1]/V[:-1])
             # d/dh[1]
             a_banded[2,np.arange(2,2*(N),2)]   = (V[1:]*B[1:] 
@@ -251,7 +251,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                                                   - g_dt_Theta*B[1:]*(S_0+(1/3)*Sf[1:]))
             # d/dV[1]
             a_banded[1,np.arange(3,2*(N),2)]   = (A[1:] 
-                                                  + 4*Beta*dtdx*Theta*V[1:]*A[1:] 
+                                                  + 4*Beta*dtdx*Theta*np.abs(V[1:])*A[1:] 
                                                   + 2*g_dt_Theta*A[1:]*Sf[1:]/V[1:])
             
             # Ds Bdy condition derivatives
-- 
2.43.0


From 5a9d3306604264a538ebfa96f3312693cfefd96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 06/36] fix: offline lagoon area was counted twice or lost when
 the outlet is in line with the river

---
 hapuamod/riv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index b7251b3..6fda783 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -398,8 +398,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             OnlineLagoon = np.array([X0Ix])
             EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
             EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
-        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
-        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
+        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
+        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     elif OutletEndX[0] > 0:
         # Outlet channel to right of river
         if Closed:
@@ -473,7 +473,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     np.full(2, OutletEndWidth)])
     LagArea = np.zeros(ChanElev.size)
     LagArea[RiverElev.size] = StartArea
-    LagArea[RiverElev.size + OnlineLagoon.size - 1] = EndArea
+    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
     LagLen = (ChanFlag==1) * Dx
     LagLen[RiverElev.size] += StartLen
     LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
-- 
2.43.0


From 319e4786a6820f320b4a7cfe4076de4d717b784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 07/36] fix: no outlet channel is online once the lagoon has
 closed

---
 hapuamod/riv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 6fda783..d952814 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -438,6 +438,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
         if not Closed:
             logging.info('Closure occured in lagoon at X=%.0f', ShoreX[OnlineLagoon[LagCloseIx]])
             Closed = True
+            OutletChanIx = np.empty(0)
         EndArea += np.nansum(LagoonWidth[OnlineLagoon[LagCloseIx:]] * Dx)
         EndLen += np.nansum((LagoonWidth[OnlineLagoon[LagCloseIx:]] > 0) * Dx)
         OnlineLagoon = OnlineLagoon[:LagCloseIx]
-- 
2.43.0


From da81906ea1e85283bb6344582a797faf62497c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:13 +0000
Subject: [PATCH 08/36] fix: steady solver uses the configured gravity

---
 hapuamod/core.py | 6 ++++--
 hapuamod/riv.py  | 5 ++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 862cfc0..5836bbc 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -52,7 +52,8 @@ def main(ModelConfigFile, Overwrite=False):
         # If not hotstarting
         (ChanDep, ChanVel) = riv.solveSteady(ChanDx, ChanElev, ChanWidth, 
                                              PhysicalPars['RoughnessManning'], 
-                                             RivFlow, SeaLevel, NumericalPars)
+                                             RivFlow, SeaLevel, NumericalPars,
+                                             PhysicalPars['Gravity'])
         
         (LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel) = \
             riv.storeHydraulics(ChanDep, ChanVel, OnlineLagoon, OutletChanIx, 
@@ -136,7 +137,8 @@ def main(ModelConfigFile, Overwrite=False):
             (ChanDep, ChanVel) = riv.solveSteady(ChanDx, ChanElev, ChanWidth, 
                                                 PhysicalPars['RoughnessManning'], 
                                                 RivFlow[-1], SeaLevel[-1], 
-                                                NumericalPars)
+                                                NumericalPars, 
+                                                PhysicalPars['Gravity'])
         
         # Store the hydraulics ready to use for initial conditions in the next loop
         (LagoonWL, LagoonVel, OutletDep, OutletVel, OutletEndDep, OutletEndVel) = \
diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index d952814..135d38f 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -7,13 +7,12 @@ from scipy import linalg
 import logging
 
 def solveSteady(ChanDx, ChanElev, ChanWidth, Roughness, Qin, DsWL, 
-                NumericalPars):
+                NumericalPars, Grav=9.81):
     """ Solve steady state river hydraulics for a rectangular channel
     
     (ChanDep, ChanVel) = solveSteady(ChanDx, ChanElev, ChanWidth, 
                                      Roughness, Qin, DsWL, NumericalPars)
     """
-    Grav = 9.81
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
@@ -302,7 +301,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h[:], V[:]) = solveSteady(dx, z, B, n, Q, DsWl, NumericalPars)
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q, DsWl, NumericalPars, g)
             Sf = V*np.abs(V) * (n**2) / (h**(4/3))
             A = h*B
 
-- 
2.43.0


From df6ea24631beb45d8512a0fb68e45da584fd0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:03 +0000
Subject: [PATCH 09/36] fix: longshore transport into the outlet from the right
 changes the rate, not the shoreline position

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 25a13a8..b211850 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -149,8 +149,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndXMoveRate += WidthReductionRate/2
         else:
             # Transport from R to L
-            ShoreY[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
-                                            / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
+            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
+                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                   / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
-- 
2.43.0


From 474e178455c7fe3291a56db5f4def1620dfb1010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:49 +0000
Subject: [PATCH 10/36] fix: outlet reaching the right edge of the domain stays
 at the right edge

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index b211850..bfd9148 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -220,7 +220,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         OutletEndX[1] = ShoreX[1]
     if OutletEndX[1] > ShoreX[-2]:
         logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
-        OutletEndX[1] = ShoreX[1]
+        OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
     CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-- 
2.43.0


From f03fa8c894455930f040ff2f4f3dd8884d6479a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 11/36] fix: adaptive timestep stays between MorDtMin and
 MorDtMax

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index bfd9148..a86e6cb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -181,11 +181,11 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndXMoveRate))
     
     while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
-        MorDt /= 2
+        MorDt = max(MorDt / 2, TimePars['MorDtMin'])
         logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
-        MorDt *= 2
+        MorDt = min(MorDt * 2, TimePars['MorDtMax'])
         logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
-- 
2.43.0


From 411062116a63c75bfa2bccae631230ae23be64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:30 +0000
Subject: [PATCH 12/36] fix: breach check no longer overwrites the barrier
 crest height

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index a86e6cb..d39e188 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -598,7 +598,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-    CrestHeight = ShoreZ[:,0] # default
+    CrestHeight = ShoreZ[:,0].copy() # default
     CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
     CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan,0] # transects with connected channels (active or relic)
     assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
-- 
2.43.0


From bb67ba1b6d7528af1053497302a193eb4c0a29a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:10 +0000
Subject: [PATCH 13/36] fix: seaward truncation of a right-to-left outlet
 happens at the first eroded transect

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d39e188..9266e1b 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -415,7 +415,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                        ShoreX <= OutletEndX[1]))[0]
             else:
                 # Outlet angles from R to L
-                OutletEndX[1] = ShoreX[TruncationIx[-1]] + Dx/2 
+                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx/2 
                 OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                  ShoreX <= OutletEndX[0]))[0])
     
-- 
2.43.0


From 780e38821144165cc35c9861bb17b109d5d58366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:48 +0000
Subject: [PATCH 14/36] fix: transects without outlet channel never count as
 intersecting (uninitialised result)

---
 hapuamod/mor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 9266e1b..6e474b6 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,7 +446,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #
     # Remove old outlet channel and preserve sediment mass balance
     
-    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]))
+    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]),
+                                  out=np.full(ShoreX.size, True))
     if np.any(LagoonIntersect):
         for IntersectIx in np.where(LagoonIntersect)[0]:
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
@@ -516,7 +517,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     Breach = False
     BreachIx = np.nan
     
-    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]))
+    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]),
+                                 out=np.full(ShoreX.size, True))
     if np.any(ShoreIntersect):
         # If lagoon closed then check if channel at any eroded location(s) is connected to lagoon via relic channel
         if Closed and np.any(ShoreIntersect[ConnectedChan]):
-- 
2.43.0


From cf9099bee507c190f01bf26123d203b58859026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 15/36] fix: remove the inner barrier together with an outlet
 channel that merged into the lagoon

---
 hapuamod/mor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 6e474b6..ecbcb80 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -460,6 +460,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreY[LagoonIntersect, 1] = np.nan
         ShoreY[LagoonIntersect, 2] = np.nan
         ShoreZ[LagoonIntersect, 1] = np.nan
+        ShoreZ[LagoonIntersect, 2] = np.nan
+        OutletPresent[LagoonIntersect] = False
     
     #%% ID locations where existing or relic outlet channel is connected to lagoon
     # Also update WaterLevel variable to include outlet channel water level 
-- 
2.43.0


From 53cbebd6e78862d18482cd48e26b86511dfea739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:07 +0000
Subject: [PATCH 16/36] fix: overtopping breach of an open lagoon only where it
 is closer to the river than the outlet

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index ecbcb80..ce584f9 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -631,7 +631,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 PossBreachTsects.append(TsectIx)
         PossBreachTsects = np.array(PossBreachTsects)
         
-        if PossBreachTsects.size == 0 and not Closed:
+        if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
             # is closer to where river enters lagoon than existing outlet
             CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
-- 
2.43.0


From 5bc7e926b0363dfb69db31bf8240d5bc723648f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:05 +0000
Subject: [PATCH 17/36] fix: check the back-barrier height where the message
 says so

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index ce584f9..0347d3d 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -65,7 +65,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     # Height of barrier backshore (the part of hte barrier backing the shoreface)
     BackBarHeight = (ShoreZ[:,0] - ShoreZ[:,3])
     BackBarHeight[OutletPresent] = ShoreZ[OutletPresent,0] - ShoreZ[OutletPresent,1]
-    assert np.all(CrestWidth>0), 'Negative BackBarHeight at the start of updateMorphology'
+    assert np.all(BackBarHeight>0), 'Negative BackBarHeight at the start of updateMorphology'
     
     #%% Calculate rates of movement of morphology due to river forcing
     ShoreYChangeRate = np.zeros(ShoreY.shape)
-- 
2.43.0


From a2f50e080ed85eb4087d175ba70de5dffa2f7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:50 +0000
Subject: [PATCH 18/36] fix: stop when the end time is reached (the loop went
 on with a zero time step and crashed)

---
 hapuamod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 5836bbc..8adc8fe 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -105,7 +105,7 @@ def main(ModelConfigFile, Overwrite=False):
     PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
     
     MorDt = TimePars['MorDtMin'] # Initial morphological timestep
-    while MorTime <= TimePars['EndTime']:
+    while MorTime < TimePars['EndTime']:
         
         # Re-assemble the combined river channel incase it has evolved
         (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
-- 
2.43.0


From 5d95bcfea9c28fb29e7c529d36e27195076c778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 19/36] fix: river model does not need boundary data beyond the
 end time

---
 hapuamod/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 8adc8fe..2443b32 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -119,7 +119,8 @@ def main(ModelConfigFile, Overwrite=False):
                                 NumericalPars['Dx'], PhysicalPars)
                 
         # Run the river model for all the timesteps upto the next morphology step
-        HydTimes = pd.date_range(MorTime, MorTime + MorDt, 
+        # (but not beyond the end time, where the boundary timeseries may stop)
+        HydTimes = pd.date_range(MorTime, min(MorTime + MorDt, TimePars['EndTime']), 
                                  freq=TimePars['HydDt'], closed='right')
         
         RivFlow = interpolate_at(FlowTs, HydTimes).values
-- 
2.43.0


From a017a44db692bd2243bd11c760e7c614036f255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:51 +0000
Subject: [PATCH 20/36] fix: straight initial outlet is placed along the shore
 at its alongshore position

---
 hapuamod/loadmod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d7d8304..2d7211f 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -520,10 +520,10 @@ def loadModel(ModelConfigFile):
         if np.all(np.logical_not(OutletMask)):
             # Handle special case that outlet is straight out and didn't intersect any transects
             if OutletToR:
-                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,1])//Dx)
+                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,0])//Dx)
                 OutletEndX[1] = OutletEndX[0] + Dx/2
             else:
-                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,1])//Dx) + 1)
+                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,0])//Dx) + 1)
                 OutletEndX[1] = OutletEndX[0] - Dx/2
             
             OutletMask = ShoreX == OutletEndX[0]
-- 
2.43.0


From 3180ea79c64d36953205a54942991a5df6479be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:32 +0000
Subject: [PATCH 21/36] fix: lagoon edge stays behind a straight initial outlet

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 2d7211f..14f93c9 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -531,7 +531,7 @@ def loadModel(ModelConfigFile):
             ShoreY[OutletMask,1] = min(ShoreY[OutletMask,0] - PhysicalPars['SpitWidth'], 
                                        (ShoreY[OutletMask,0] + ShoreY[OutletMask,3])/2 + IniCond['OutletWidth']/2)
             ShoreY[OutletMask,2] = ShoreY[OutletMask,1] - IniCond['OutletWidth']
-            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] + 0.001, ShoreY[OutletMask,3])
+            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] - 0.001, ShoreY[OutletMask,3])
         else:
             if OutletToR:
                 # Outlet angles from L to R
-- 
2.43.0


From a9b1f2584ea1963f1db8f2789af146e5249e8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:09 +0000
Subject: [PATCH 22/36] fix: close the hotstart file once it has been read

---
 hapuamod/loadmod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 14f93c9..259b81d 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -322,6 +322,7 @@ def loadModel(ModelConfigFile):
         
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
+        NcFile.close()
         assert ShoreX[1] - ShoreX[0] == Dx, 'Dx specified in model config file must match hotstart file'
         
     elif Config['SpatialInputs']['Shoreline'] is None:
-- 
2.43.0


From 4c1d79fb85019624ad574fb82ae66985422cdb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:47 +0000
Subject: [PATCH 23/36] fix: both ends of the boundary timeseries are trimmed

---
 hapuamod/loadmod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 259b81d..43b2585 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -651,27 +651,27 @@ def loadModel(ModelConfigFile):
             and FlowTs.index[-1] >= TimePars['EndTime']), \
         'Flow timeseries %s does not extend over full model duration' \
         % Config['BoundaryConditions']['RiverFlow']
-    KeepTimes = np.zeros(FlowTs.shape[0], dtype=bool)
-    KeepTimes[:-1] = FlowTs.index[1:] > TimePars['StartTime']
-    KeepTimes[1:] = FlowTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
+    KeepTimes = np.ones(FlowTs.shape[0], dtype=bool)
+    KeepTimes[:-1] &= FlowTs.index[1:] > TimePars['StartTime']
+    KeepTimes[1:] &= FlowTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
     FlowTs = FlowTs[KeepTimes]
 
     assert (WaveTs.index[0] <= TimePars['StartTime'] 
             and WaveTs.index[-1] >= TimePars['EndTime']), \
         'Wave timeseries %s does not extend over full model duration' \
         % Config['BoundaryConditions']['WaveConditions']
-    KeepTimes = np.zeros(WaveTs.shape[0], dtype=bool)
-    KeepTimes[:-1] = WaveTs.index[1:] > TimePars['StartTime']
-    KeepTimes[1:] = WaveTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
+    KeepTimes = np.ones(WaveTs.shape[0], dtype=bool)
+    KeepTimes[:-1] &= WaveTs.index[1:] > TimePars['StartTime']
+    KeepTimes[1:] &= WaveTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
     WaveTs = WaveTs[KeepTimes]
     
     assert (SeaLevelTs.index[0] <= TimePars['StartTime'] 
             and SeaLevelTs.index[-1] >= TimePars['EndTime']), \
         'Sea level timeseries %s does not extend over full model duration' \
         % Config['BoundaryConditions']['SeaLevel']        
-    KeepTimes = np.zeros(SeaLevelTs.shape[0], dtype=bool)
-    KeepTimes[:-1] = SeaLevelTs.index[1:] > TimePars['StartTime']
-    KeepTimes[1:] = SeaLevelTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
+    KeepTimes = np.ones(SeaLevelTs.shape[0], dtype=bool)
+    KeepTimes[:-1] &= SeaLevelTs.index[1:] > TimePars['StartTime']
+    KeepTimes[1:] &= SeaLevelTs.index[:-1] < (TimePars['EndTime'] + TimePars['MorDtMax'])
     SeaLevelTs = SeaLevelTs[KeepTimes]
     
     #%% Read output options
-- 
2.43.0


From 70d6a72723ace252cbd549336985a5d303303ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:27 +0000
Subject: [PATCH 24/36] fix: the side of the baseline the land is on follows
 from the river location

---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 43b2585..934791b 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -439,7 +439,7 @@ def loadModel(ModelConfigFile):
                       (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
                      (Baseline[0] + 1/Baseline[0]))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
-        if ((InflowCoord[0] * Baseline[0] + Baseline[1])>0):
+        if InflowCoord[1] > InflowCoord[0] * Baseline[0] + Baseline[1]:
             # land is to north of baseline
             ShoreNormDir = math.atan2(Baseline[0],-1)
         else:
-- 
2.43.0


From 80e13c53ba297986073ec24e752ef253c082fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 25/36] fix: hotstart time lookup gives one timestep and works
 with cftime datetimes

---
 hapuamod/out.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 093af2b..c44afeb 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -441,7 +441,8 @@ def readTimestep(NcFile, TimeIx):
     ShoreX = NcFile.variables['transect_x'][:]
     
     ModelTime = netCDF4.num2date(NcFile.variables['time'][TimeIx],
-                                 NcFile.variables['time'].units)
+                                 NcFile.variables['time'].units,
+                                 only_use_cftime_datetimes=False)
     
     # ShoreY
     ShoreY = np.empty((NTransects, 5))
@@ -506,11 +507,12 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
         TimeIx = closestTimeIx(NcFile, DatetimeOfInterest)
     """
     NetCdfTimes = NcFile.variables['time'][:]
-    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units))
+    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units,
+                                                  only_use_cftime_datetimes=False))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
-    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
-    ClosestTime = OutputTimes[TimeIx].to_pydatetime()[0]
+    TimeIx = np.argmin(TimeDiffs)
+    ClosestTime = OutputTimes[TimeIx].to_pydatetime()
     
     return (TimeIx, ClosestTime)
 
-- 
2.43.0


From 0fb21b0364c11fb8463f594d872ac19e4335a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 26/36] fix: write the outlet end bedload that the output file
 declares

---
 hapuamod/out.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index c44afeb..3ab63d7 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -403,6 +403,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
     NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
     NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
+    NcFile.variables['outlet_end_bedload'][TimeIx] = np.ravel(OutletEndBedload)[0]
     NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
     NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-- 
2.43.0


From 79800e35fbcc1ace98a17d5c4ce57abaa826dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 27/36] fix: wave direction is stored in radians and comes back
 when a timestep is read

---
 hapuamod/out.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 3ab63d7..c92ba0e 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -138,8 +138,8 @@ def newOutFile(FileName, ModelName, StartTime,
     
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
-    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
+    WaveDirVar.units = 'radians'
+    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth), relative to shore normal'
     
     #%% create shore-transect data variables
     
@@ -475,7 +475,6 @@ def readTimestep(NcFile, TimeIx):
     Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
     
     WavePower=None
-    EDir_h=0
     LST = NcFile.variables['lst'][TimeIx,:] / 3600
     CST = NcFile.variables['cst'][TimeIx,:] / 3600
     
@@ -577,8 +576,8 @@ def newTsOutFile(FileName, ModelName, StartTime, Overwrite=False):
     # wave direction boundary condition
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
-    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
+    WaveDirVar.units = 'radians'
+    WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth), relative to shore normal'
     
     #%% create other timeseries variables
     
-- 
2.43.0


From db6949a521b01bfcb049c1eed501e33331ba39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 28/36] fix: record the bedload formula parameters and grain
 roughness with the outputs

---
 hapuamod/out.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index c92ba0e..fbd65a9 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -81,9 +81,12 @@ def newOutFile(FileName, ModelName, StartTime,
     NcFile.RiverSlope = PhysicalPars['RiverSlope']
     NcFile.GrainSize = PhysicalPars['GrainSize']
     NcFile.CritShieldsStress = PhysicalPars['CritShieldsStress']
+    NcFile.MPM_coef = PhysicalPars['MPM_coef']
+    NcFile.MPM_exp = PhysicalPars['MPM_exp']
     NcFile.UpstreamLength = PhysicalPars['UpstreamLength']
     NcFile.RiverWidth = PhysicalPars['RiverWidth']
     NcFile.RoughnessManning = PhysicalPars['RoughnessManning']
+    NcFile.GrainRoughness = PhysicalPars['GrainRoughness']
     NcFile.WidthDepthRatio = PhysicalPars['WidthDepthRatio']
     NcFile.BackshoreElev = PhysicalPars['BackshoreElev']
     NcFile.MaxOutletElev = PhysicalPars['MaxOutletElev']
-- 
2.43.0


From 1e06f117e4d355b7f11eaafe179c7e5d15cea53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 29/36] fix: synthetic flow has values on rising limbs longer
 than the output interval

---
 hapuamod/synth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index d518f8b..61447fe 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -156,7 +156,8 @@ def shotNoise(StartDate, EndDate, OutputInt,
         # EventList = EventList.append(pd.Series([EventSize], index = pd.DatetimeIndex([LastEventTime])))
     
     # Resample the output timeseries and clip
-    OutputTs = OutputTs.resample(OutputInt).mean()
+    # (rising limbs may be longer than OutputInt so have no data points to average)
+    OutputTs = OutputTs.resample(OutputInt).mean().interpolate(method='time')
     OutputTs = OutputTs.loc[:EndDate]    
     
     return OutputTs
-- 
2.43.0


From 43bbf376eff45414568759f66bba8973bd27183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:34 +0000
Subject: [PATCH 30/36] fix: first order shot noise does not need a second
 decay rate

---
 hapuamod/synth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 61447fe..ae29edb 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -84,6 +84,9 @@ def shotNoise(StartDate, EndDate, OutputInt,
     if PropRate1 < 1:
         assert not DecayRate2 is None, 'If PropRate1 is less than 1 then DecayRate2 must be specified'
         assert DecayRate2 > 0, 'DecayRate must be greater than 0'
+    else:
+        # First order shot noise - nothing decays at DecayRate2
+        DecayRate2 = DecayRate1
     assert RisingLimbTime > pd.Timedelta(days=0), 'Rising limb time must be greater than 0'
     if CalcTimeInt is None:
         CalcTimeInt = OutputInt/4
-- 
2.43.0


From 6fe0994bcfa0e1fffa0cdca5c770b7ae002cabde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:27 +0000
Subject: [PATCH 31/36] fix: right bank of the plotted outlet is closed with
 its own points

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 49ea3e8..5ef1cf6 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -344,7 +344,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                                    np.NaN, # Extra point
                                    np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])])
             OutletRbY[-2] = (OutletRbY[-1]-SpitWidth + OutletRbY[-3])/2
-            OutletLbY[-3] = np.min(OutletRbY[[-1,-3]])
+            OutletRbY[-3] = np.min(OutletRbY[[-1,-3]])
         else:
             # Outlet right bank angles R to L
             R_Ok = ShoreX[OutletChanIx] > OutletDsRbX
-- 
2.43.0


From 11c3456305ac45d532610ff15942a31b6db40f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:06 +0000
Subject: [PATCH 32/36] fix: right edge of the cliff hatching uses the cliff
 position

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 5ef1cf6..eac63b4 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -223,7 +223,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                              np.flipud(RiverLbY),   # River LB
                              -5000.0, CliffToLY[0], # LH Edge of domain
                              np.nan,                # Break to separate L and R polygons
-                             CliffToRX[-1],-5000.0, # RH Edge of domain
+                             CliffToRY[-1],-5000.0, # RH Edge of domain
                              RiverRbY,              # River RB
                              CliffToRY])            # Cliff RHS
     
-- 
2.43.0


From 3b126a66a8f1a4018b6cf9c792be216c301723ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:47 +0000
Subject: [PATCH 33/36] fix: a closed outlet can be plotted from the first time
 step

---
 hapuamod/animate.py   | 3 ++-
 hapuamod/core.py      | 2 +-
 hapuamod/visualise.py | 7 +++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/hapuamod/animate.py b/hapuamod/animate.py
index 14c784c..4123aa4 100644
--- a/hapuamod/animate.py
+++ b/hapuamod/animate.py
@@ -193,7 +193,8 @@ def main(ResultsFile, AnimationFile, StartTimestep=0, EndTimestep=None,
                                        OutletChanIx, RiverWidth, SpitWidth,
                                        ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
                                        WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest)
+                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest,
+                                       Closed=Closed)
         FigToAnimate = ModelFig['PlanFig']
         
         # Set up animation function
diff --git a/hapuamod/core.py b/hapuamod/core.py
index 2443b32..db612d3 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -95,7 +95,7 @@ def main(ModelConfigFile, Overwrite=False):
                                        PhysicalPars['SpitWidth'], ShoreZ=ShoreZ, 
                                        WavePower=0, EDir_h=0, 
                                        LST=np.zeros(ShoreX.size-1),
-                                       CST=np.zeros(ShoreX.size))
+                                       CST=np.zeros(ShoreX.size), Closed=Closed)
         
     #%% Main timestepping loop
     MorTime = TimePars['StartTime']
diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index eac63b4..2bd5f33 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -67,7 +67,8 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
               RiverWidth, SpitWidth,
               ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
               WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None):
+              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None,
+              Closed=False):
     """ Map the current model state in model coordinates
     
         Parameters:
@@ -87,6 +88,8 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
             LstScaling (optional, default = 0.0001)
             QuiverWidth (optional, default = 0.002)
             AreaOfInterest (optional)
+            PlotTime (optional)
+            Closed (optional, default = False)
             
         Returns:
             ModelFig (dict): handles for the various parts of the plot. Used as
@@ -174,7 +177,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
     
     # Update plot with correct data
     updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
-                    OutletChanIx, ShoreZ=ShoreZ, WavePower=WavePower, 
+                    OutletChanIx, Closed=Closed, ShoreZ=ShoreZ, WavePower=WavePower, 
                     EDir_h=EDir_h, LST=LST, CST=CST, PlotTime=PlotTime)
     
     return ModelFig
-- 
2.43.0


From 94996b275aa25e4085bdd6a0a3a0842db53854bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:24 +0000
Subject: [PATCH 34/36] fix: first transect plot shows its time

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 2bd5f33..359516e 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -679,7 +679,7 @@ def newTransectFig(ShoreX, ShoreY, ShoreZ, LagoonWL, OutletWL, SeaLevel,
     
     # Update lines
     updateTransectFig(TransectFig, ShoreY, ShoreZ, 
-                      LagoonWL, OutletWL, SeaLevel)
+                      LagoonWL, OutletWL, SeaLevel, PlotTime=PlotTime)
     
     return TransectFig
 
-- 
2.43.0


From 7d88f265b81700b7180a5124a6fa9cee8b99f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:48 +0000
Subject: [PATCH 35/36] fix: reverse shoaling divides by the group velocity
 ratio so deep water wave heights are preserved

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 2e8b7f7..9ec233a 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -50,7 +50,7 @@ WaveData['Angle_Offshore'] = np.arcsin(np.maximum(np.minimum(WaveData['LoffRatio
                                                              np.sin(WaveData['Angle_h']), 
                                                              1.0), -1.0)) # min and max is to prevent tiny irregularities generating complex numbers due to calculation of asin(>1) or asin(<-1)
 OutputData['Hsig_Offshore'] = (WaveData['Hsig'] / 
-                               np.sqrt(0.5 * WaveData['n_h'] * WaveData['LoffRatio'] * 
+                               np.sqrt(0.5 / WaveData['n_h'] * WaveData['LoffRatio'] * 
                                        (np.cos(WaveData['Angle_Offshore']) / 
                                         np.cos(WaveData['Angle_h']))))
 
-- 
2.43.0


From 05a8e2dd2eced2ae3f53a888e3979bc44f72f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:25 +0000
Subject: [PATCH 36/36] fix: keep the minutes of the wave model output times

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 9ec233a..4c0ad38 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -12,7 +12,7 @@ ColNames = ['ModelTime', 'Year', 'Month', 'Day', 'Hour', 'Min',
 
 WaveData = pd.read_table(WaveModelOutputFile, sep=' ', skipinitialspace=True,
                          skiprows=27, names=ColNames)
-WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:5])
+WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:6].rename(columns={'Min': 'Minute'}))
 WaveData = WaveData.set_index('DateTime')
 
 # Extract the columns we want
-- 
2.43.0

