From fb1fffb331977f781cc9c65a51bf13491f4d8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 01/31] fix: make get_pierce_points and get_ray_paths pass the
 loaded model to TauP_Pierce/TauP_Path

---
 taupy/TauP_Path.py   | 16 +++++-----------
 taupy/TauP_Pierce.py | 14 ++++----------
 taupy/TauP_Time.py   |  6 ++++--
 taupy/tau.py         | 10 ++++------
 4 files changed, 17 insertions(+), 29 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..d4fe6b6 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,19 +15,13 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
-        phaseList = phaseList if phaseList is not None else []
+    def __init__(self, taupy_model=None, phaseList=None, depth=0,
+                 degrees=None, coordinate_list=None, modelName="iasp91"):
+        # This type conversion is important (somehow).
+        TauP_Pierce.__init__(self, taupy_model, phaseList, float(depth),
+                             degrees, coordinate_list, modelName)
         self.maxPathTime = 1e300
         self.maxPathInc = 1
-        self.phaseList = phaseList
-        self.modelName = modelName
-        # This type conversion is important (somehow).
-        self.depth = float(depth)
-        self.degrees = degrees
 
     def calculate(self, degrees):
         """
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..e10378f 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,21 +14,15 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+    def __init__(self, taupy_model=None, phaseList=None, depth=0,
+                 degrees=None, coordinate_list=None, modelName="iasp91"):
+        TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees,
+                           coordinate_list, modelName)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
-        self.phaseList = phaseList
-        self.modelName = modelName
-        self.depth = depth
-        self.degrees = degrees
 
     def depthCorrect(self, depth):
         """
diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..2903d85 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -22,8 +22,10 @@ class TauP_Time(object):
     DEBUG = False
     verbose = False
 
-    def __init__(self, taupy_model, phaseList=None, depth=0,
-                 degrees=None, coordinate_list=None):
+    def __init__(self, taupy_model=None, phaseList=None, depth=0,
+                 degrees=None, coordinate_list=None, modelName="iasp91"):
+        if taupy_model is None:
+            taupy_model = TauModelLoader.load(modelName)
         self.tMod = taupy_model
         # tModDepth will be depth-corrected if source depth is not 0.
         self.tModDepth = self.tMod
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..1731b59 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From eeacdc180ff280b1f338a3f9056b86b9d6ef3d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 02/31] fix: Arrival.getPierce/getPath compute and return the
 points instead of comparing

---
 taupy/Arrival.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..a74e92a 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,15 +53,15 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.phase.calcPierceFromArrival(self)
         return self.pierce
 
     def getPath(self):
         """
-        Returns pierce points as TimeDist objects.
+        Returns path points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.phase.calcPathFromArrival(self)
         return self.path
 
     def getModuloDistDeg(self):
-- 
2.43.0


From bc181509a29aaf24fe40ca92abe8ae3130ebbfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 03/31] fix: Pn/Sn head-wave time uses the ray parameter (was
 adding radians to seconds)

---
 taupy/SeismicPhase.py | 3 ++-
 taupy/tau.py          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be6d4d3..c59cac4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -681,7 +681,8 @@ class SeismicPhase(object):
                                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
-            self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxRefraction * math.pi / 180 * self.minRayParam
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
diff --git a/taupy/tau.py b/taupy/tau.py
index 1731b59..dacd92b 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -52,9 +52,9 @@ class TauPyModel(object):
         >>> from taupy import tau
         >>> i91 = tau.TauPyModel()
         >>> i91.get_travel_times(10, 20)[0].name
-        'Pn'
+        'P'
         >>> i91.get_travel_times(10, 20)[0].time
-        15.60164282924581
+        272.6679998052059
         >>> i91.get_travel_times(100, 50, phase_list = ["P", "S"],
         ...                 print_output=True)
 
-- 
2.43.0


From 9975c12ddb7c4292fcc58ad348594ddbba708f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 04/31] fix: recognise ^, v and numeric-depth legs in phase
 names

---
 taupy/SeismicPhase.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index c59cac4..710ef6e 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -126,7 +126,7 @@ class SeismicPhase(object):
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
-                disconBranch = closestBranchToDepth(tMod, currLeg[1])
+                disconBranch = closestBranchToDepth(tMod, currLeg[1:])
                 legDepth = tMod.tauBranches[0][disconBranch].topDepth
                 puristName += currLeg[0]
                 puristName += str(legDepth)
@@ -251,7 +251,7 @@ class SeismicPhase(object):
                         "p and s must always be upgoing and cannot come "
                         "immediately before a top-sided reflection.")
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch >= disconBranch:
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -290,7 +290,7 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
@@ -301,7 +301,7 @@ class SeismicPhase(object):
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -316,7 +316,7 @@ class SeismicPhase(object):
                     elif ((prevLeg.startswith("v") and
                                    disconBranch < closestBranchToDepth(tMod,
                                                                        prevLeg[
-                                                                           1])
+                                                                           1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -488,8 +488,8 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
             elif (any(currLeg == p for p in ("m", "c", "i"))
-                  or currLeg.startswith == "^"
-                  or currLeg.startswith == "v" or isLegDepth):
+                  or currLeg.startswith("^")
+                  or currLeg.startswith("v") or isLegDepth):
                 pass
             else:
                 raise TauModelError(
@@ -1109,7 +1109,7 @@ def legPuller(name):
                                         "m", "c")):
                 legs.append(nchar)
                 offset += 1
-            elif nchar == "P" or "S":
+            elif nchar == "P" or nchar == "S":
                 # Now it gets complicated, first see if the next char is
                 # part of a different leg or if it's the end.
                 if (offset + 1 == len(name) or
@@ -1137,14 +1137,15 @@ def legPuller(name):
             elif nchar == "^" or nchar == "v":
                 # Top side or bottom side reflections, check for standard
                 # boundaries and then check for numerical ones.
-                if any(name[offset + 1] == c for c in ("m", "c", "i")):
+                if name[offset + 1:offset + 2] in ("m", "c", "i"):
                     legs.append(name[offset:offset + 2])
                     offset += 2
-                elif name[offset + 1].isdigit() or name[offset + 1] == ".":
+                elif name[offset + 1:offset + 2].isdigit() \
+                        or name[offset + 1:offset + 2] == ".":
                     numString = name[offset]
                     offset += 1
-                    while name[offset + 1].isdigit() or name[
-                                offset + 1] == ".":
+                    while offset < len(name) and (name[offset].isdigit()
+                                                  or name[offset] == "."):
                         numString += name[offset]
                         offset += 1
                     legs.append(numString)
@@ -1154,7 +1155,8 @@ def legPuller(name):
             elif nchar.isdigit() or nchar == ".":
                 numString = name[offset]
                 offset += 1
-                while name[offset + 1].isdigit() or name[offset + 1] == ".":
+                while offset < len(name) and (name[offset].isdigit()
+                                              or name[offset] == "."):
                     numString += name[offset]
                     offset += 1
                 legs.append(numString)
-- 
2.43.0


From a5126259fd116e7b6511eb96867b83f07d6038b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 05/31] fix: clamp the sine of takeoff and incident angles for
 sources on a discontinuity

---
 taupy/SeismicPhase.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 710ef6e..92446b7 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1046,13 +1046,15 @@ class SeismicPhase(object):
                 # Fake negative velocity so angle is negative in case of
                 # upgoing ray.
                 takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
-            takeoffAngle = (180 / math.pi) * math.asin(
-                takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth -
-                                                     self.sourceDepth))
+            # A ray leaving a source on a discontinuity may be too shallow for
+            # the velocity on the far side: it then leaves horizontally.
+            takeoffAngle = (180 / math.pi) * math.asin(max(-1.0, min(
+                1.0, takeoffVelocity * arrivalRayParam /
+                (self.tMod.radiusOfEarth - self.sourceDepth))))
             lastLeg = self.legs[-2][0]  # very last item is "END"
-            incidentAngle = (180 / math.pi) * math.asin(
-                vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
-                self.tMod.radiusOfEarth)
+            incidentAngle = (180 / math.pi) * math.asin(max(-1.0, min(
+                1.0, vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
+                self.tMod.radiusOfEarth)))
         return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum,
                        name, puristName, sourceDepth, takeoffAngle,
                        incidentAngle)
-- 
2.43.0


From 30487bc1f563f81a510d24cd409c3c03facd14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 06/31] fix: surface wave (kmps) phases no longer crash

---
 taupy/SeismicPhase.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 92446b7..e964154 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -588,6 +588,22 @@ class SeismicPhase(object):
 
     def sumBranches(self, tMod):
         """Sum the appropriate branches for this phase."""
+        # Special case for surface waves.
+        if self.name.endswith("kmps"):
+            try:
+                velocity = float(self.name[:-4])
+            except ValueError:
+                raise TauModelError("Invalid phase name: " + self.name)
+            if not 0 < velocity < float("inf"):
+                raise TauModelError("Invalid phase name: " + self.name)
+            self.dist = [0, 2 * math.pi]
+            self.time = [0, 2 * math.pi * tMod.radiusOfEarth / velocity]
+            self.minRayParam = self.maxRayParam = \
+                tMod.radiusOfEarth / velocity
+            self.rayParams = [self.maxRayParam, self.maxRayParam]
+            self.minDistance = 0
+            self.maxDistance = 2 * math.pi
+            return
         if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
             # Phase has no arrivals, possibly due to source depth.
             self.rayParams = []
@@ -597,20 +613,6 @@ class SeismicPhase(object):
             self.time = []
             self.maxDistance = -1
             return
-        # Special case for surface waves.
-        if self.name.endswith("kmps"):
-            self.dist = [0, 0]
-            self.time = [0, 0]
-            self.rayParams = [0, 0]
-            self.rayParams[0] = tMod.radiusOfEarth / float(self.name[:-4])
-            self.dist[1] = 2 * math.pi
-            self.time[1] = \
-                2 * math.pi * tMod.radiusOfEarth / float(self.name[:-4])
-            self.rayParams[1] = self.rayParams[0]
-            self.minDistance = 0
-            self.maxDistance = 2 * math.pi
-            self.downGoing.append(True)
-            return
         # Find the ray parameter index that corresponds to the minRayParam
         # and maxRayParam.
         for i, rp in enumerate(tMod.rayParams):
-- 
2.43.0


From f99ccd9d8bada2bf5c77e84e7c5369ebb442ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 07/31] fix: reject phases that do not end at the surface with
 TauModelError

---
 taupy/SeismicPhase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index e964154..3d88aaa 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -163,6 +163,10 @@ class SeismicPhase(object):
             isPWave = True
         elif currLeg == "s" or currLeg.startswith("S") or currLeg == "J":
             isPWave = False
+        # The ray can only arrive at the surface as a P or S wave.
+        if len(self.legs) > 1 and self.legs[-2][0] not in "PSps":
+            raise TauModelError("Phase does not end at the surface: {}"
+                                .format(self.name))
         # First,  decide whether the ray is upgoing or downgoing from the
         # source. If it is up going then the first branch number would be
         # tMod.sourceBranch-1 and downgoing would be tMod.sourceBranch.
-- 
2.43.0


From c0256393eccbe1b33b41cb1f6396d8e92ddd54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 08/31] fix: keep noDisconDepths per TauModel instead of
 accumulating on the class

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..a5e62bd 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -325,7 +325,7 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
-- 
2.43.0


From 5b063e2ebd795a8113bd820fcb2b5f67fa11f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 09/31] fix: SlownessModel.splitLayer no longer modifies the
 loaded model

---
 taupy/SlownessModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..12a436a 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1299,7 +1299,7 @@ class SlownessModel(object):
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
@@ -1313,7 +1313,7 @@ class SlownessModel(object):
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
-- 
2.43.0


From 45356a1bcf49dcbe6f3413d42fc9c8ffd1a0870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 10/31] fix: TauModel.findBranch returns the deepest branch for
 the centre of the Earth

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index a5e62bd..6ba7a48 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -340,7 +340,7 @@ class TauModel(object):
                 return i
         # Check to see if depth is centre of the Earth.
         if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
-            return len(self.tauBranches) - 1
+            return len(self.tauBranches[0]) - 1
         else:
             raise TauModelError("No TauBranch contains this depth.")
 
-- 
2.43.0


From 7cb4547b1075c472f347d7f9d8dace50ff0b2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 11/31] fix: use the radius of the velocity model instead of
 6371 km when sampling

---
 taupy/SlownessModel.py | 30 ++++++++++++++++--------------
 taupy/TauModel.py      |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 12a436a..5fc5d17 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -184,8 +184,10 @@ class SlownessModel(object):
             currVLayer.topSVelocity, currVLayer.topSVelocity,
             currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp,
             currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
-        currSLayer = create_from_vlayer(currVLayer, self.SWAVE)
-        currPLayer = create_from_vlayer(currVLayer, self.PWAVE)
+        currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                        self.radiusOfEarth)
+        currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                        self.radiusOfEarth)
         # We know that the top is always a critical slowness so add 0
         self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
         # Check to see if starting in fluid zone.
@@ -221,8 +223,8 @@ class SlownessModel(object):
                 fluidZone.botDepth = prevVLayer.botDepth
                 self.fluidLayerDepths.append(fluidZone)
 
-            currPLayer = create_from_vlayer(currVLayer,
-                                            self.PWAVE)
+            currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                            self.radiusOfEarth)
             # If we are in a fluid zone ( S velocity = 0.0 ) or if we are below
             # the outer core and allowInnerCoreS=false then use the P velocity
             # structure to look for critical points.
@@ -230,8 +232,8 @@ class SlownessModel(object):
                     or (belowOuterCore and self.allowInnerCoreS is False):
                 currSLayer = currPLayer
             else:
-                currSLayer = create_from_vlayer(currVLayer,
-                                                self.SWAVE)
+                currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                                self.radiusOfEarth)
 
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
@@ -591,8 +593,8 @@ class SlownessModel(object):
                     layer.layer_number, prevVLayer.botDepth,
                     prevVLayer.botDepth, prevVLayer.botPVelocity,
                     origVLayer.topPVelocity, topSVel, botSVel)
-                currPLayer = create_from_vlayer(currVLayer,
-                                                self.PWAVE)
+                currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                                self.radiusOfEarth)
                 self.PLayers.append(currPLayer)
                 if (prevVLayer.botSVelocity == 0
                     and origVLayer.topSVelocity == 0) \
@@ -600,19 +602,19 @@ class SlownessModel(object):
                             and currVLayer.topDepth >= self.vMod.iocbDepth):
                     currSLayer = currPLayer
                 else:
-                    currSLayer = create_from_vlayer(currVLayer,
-                                                    self.SWAVE)
+                    currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                                    self.radiusOfEarth)
                 self.SLayers.append(currSLayer)
-            currPLayer = create_from_vlayer(origVLayer,
-                                            self.PWAVE)
+            currPLayer = create_from_vlayer(origVLayer, self.PWAVE,
+                                            self.radiusOfEarth)
             self.PLayers.append(currPLayer)
             if self.depthInFluid(origVLayer.topDepth) or (
                     self.allowInnerCoreS is False
                     and origVLayer.topDepth >= self.vMod.iocbDepth):
                 currSLayer = currPLayer
             else:
-                currSLayer = create_from_vlayer(origVLayer,
-                                                self.SWAVE)
+                currSLayer = create_from_vlayer(origVLayer, self.SWAVE,
+                                                self.radiusOfEarth)
             self.SLayers.append(currSLayer)
         # Make sure that all high slowness layers are sampled exactly
         # at their bottom
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 6ba7a48..303676a 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -33,7 +33,7 @@ class TauModel(object):
 
     def __init__(self, sMod, spherical=True, debug=False):
         self.debug = debug
-        self.radiusOfEarth = 6371.0
+        self.radiusOfEarth = sMod.radiusOfEarth
         # True if this is a spherical slowness model. False if flat.
         self.spherical = spherical
         # Ray parameters used to construct the tau branches. This may only be
-- 
2.43.0


From 6fbc3e035a081f6db8f26c353fa8e0415e026dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 12/31] fix: fixOtherLayers splits the right layers when
 several contain the new slowness

---
 taupy/SlownessModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 5fc5d17..702e899 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1377,7 +1377,9 @@ class SlownessModel(object):
             # but must not break program flow. I.e. that's ok, no error
             # should be raised, the try clause can be seen like an if.
             pass
-        for otherLayerNum, sLayer in enumerate(out[:]):
+        otherLayerNum = 0
+        while otherLayerNum < len(out):
+            sLayer = out[otherLayerNum]
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 # Found a slowness layer with the other wave type that
                 # contains the new slowness sample.
@@ -1392,7 +1394,7 @@ class SlownessModel(object):
                 # Fix critical layers since we have added a slowness layer.
                 self.fixCriticalDepths(criticalDepths, otherLayerNum,
                                        not isPWave)
-                # Skip next layer as it was just added: achieved by slicing
-                # the list iterator.
-
+                # Skip next layer as it was just added.
+                otherLayerNum += 1
+            otherLayerNum += 1
         return out
-- 
2.43.0


From e106dce854680ba37a5cb9142979247b6a9b984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 13/31] fix: fixOtherLayers renumbers the critical depths of
 the wave type it splits

---
 taupy/SlownessModel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 702e899..7b81b9c 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1392,8 +1392,7 @@ class SlownessModel(object):
                 out.insert(otherLayerNum, botLayer)
                 out.insert(otherLayerNum, topLayer)
                 # Fix critical layers since we have added a slowness layer.
-                self.fixCriticalDepths(criticalDepths, otherLayerNum,
-                                       not isPWave)
+                self.fixCriticalDepths(criticalDepths, otherLayerNum, isPWave)
                 # Skip next layer as it was just added.
                 otherLayerNum += 1
             otherLayerNum += 1
-- 
2.43.0


From 4a0002c51c24adcb276b5882b863e3634c913d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 14/31] fix: keep the order of phases so that results do not
 depend on string hashing

---
 taupy/TauP_Time.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 2903d85..ec95b10 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -237,9 +237,12 @@ def parsePhaseList(phaseList):
     phaseNames = []
     for phaseName in phaseList:
         phaseNames += getPhaseNames(phaseName)
-    # Remove duplicates:
-    phaseNames = list(set(phaseNames))
-    return phaseNames
+    # Remove duplicates, keeping the order of first appearance:
+    uniqueNames = []
+    for phaseName in phaseNames:
+        if phaseName not in uniqueNames:
+            uniqueNames.append(phaseName)
+    return uniqueNames
 
 
 def getPhaseNames(phaseName):
-- 
2.43.0


From 1b0dde381134248997ed50266396d11b9f97c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 15/31] fix: great_circle_dist no longer fails for coinciding
 or antipodal points

---
 taupy/TauP_Time.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index ec95b10..b773353 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -350,9 +350,13 @@ def great_circle_dist(stn, event):
     lonA = stn[1]
     latB = event[0]
     lonB = event[1]
-    return rtod * math.acos(math.sin(latA * dtor) * math.sin(latB * dtor)
-                            + math.cos(latA * dtor) * math.cos(latB * dtor)
-                            * math.cos((lonB - lonA) * dtor))
+    cosDist = (math.sin(latA * dtor) * math.sin(latB * dtor)
+               + math.cos(latA * dtor) * math.cos(latB * dtor)
+               * math.cos((lonB - lonA) * dtor))
+    # Rounding can push this out of range for (almost) equal or antipodal
+    # points.
+    return rtod * math.acos(max(-1.0, min(1.0, cosDist)))
+
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From c65318069399c4a2aa5e9db2dbad816200a868ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 16/31] fix: findDepth reads botDepth instead of a method that
 does not exist

---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 7b81b9c..ee27b08 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -506,7 +506,7 @@ class SlownessModel(object):
             print(" p is just outside the bottommost layer. This probably "
                   "shouldn't be allowed to happen!")
             # noinspection PyUnboundLocalVariable
-            return velLayer.getBotDepth()
+            return velLayer.botDepth
 
         raise SlownessModelError(
             "slowness p=" + str(p) +
-- 
2.43.0


From 3d30f557f824f95da85d47825ef5279deea4ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 17/31] fix: readTVelFile accepts comment and blank lines

---
 taupy/VelocityModel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 4f205a4..6002baa 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -332,9 +332,11 @@ class VelocityModel(object):
             # but less elegant)
             f.readline()
             f.readline()
+            # Ignore comments as well as lines that are blank without them.
+            lines = (line.partition('#')[0] for line in f)
+            lines = (line for line in lines if line.strip())
             # Read the first line to provide initial top values.
-            line = f.readline()
-            line = line.partition('#')[0]
+            line = next(lines, '')
             line = line.rstrip()  # or just .strip()?'
             columns = line.split()
             topDepth = float(columns[0])
@@ -350,9 +352,7 @@ class VelocityModel(object):
             topDensity = float(columns[3])
 
                 # Iterate over the rest of the file.
-            for line in f:
-                line = line.partition('#')[0]
-                # needs the other comment options
+            for line in lines:
                 line = line.rstrip()  # or just .strip()?'
                 columns = line.split()
                 botDepth = float(columns[0])
-- 
2.43.0


From 826e7f04364a42d787a9439c813e4b4999575638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 18/31] fix: VelocityModel.validate rejects a model without
 layers instead of crashing

---
 taupy/VelocityModel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 6002baa..3f58d56 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -198,6 +198,11 @@ class VelocityModel(object):
                   str(self.minRadius), file=sys.stderr)
             return False
 
+        if self.getNumLayers() == 0:
+            print("There are no layers in the velocity model.",
+                  file=sys.stderr)
+            return False
+
         # Iterate over all layers, comparing each to the previous one.
         currVelocityLayer = self.layers[0]
         prevVelocityLayer = VelocityLayer(
-- 
2.43.0


From b54d407c08cd5557172dd0b9a0aee5205a3b4db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 19/31] fix: TauP_Create can write a model to the current
 directory

---
 taupy/TauP_Create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..217ff21 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,9 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            output_dir = os.path.dirname(self.output_filename)
+            if output_dir and not os.path.exists(output_dir):
+                os.makedirs(output_dir)
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
-- 
2.43.0


From 4106025b7a5c6f90ed068c7ad06dbb2ca311ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 20/31] fix: make create_taup_model and the TauP_Create script
 work

---
 taupy/TauP_Create.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index 217ff21..8d15ebd 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -135,26 +135,34 @@ class TauP_Create(object):
             if self.debug:
                 print("Method run is done, but not necessarily successful.")
 
+    @classmethod
+    def main(cls, model_file_name, output_dir, input_dir, verbose=False):
+        """ Reads a velocity model from input_dir and writes the tau model
+        built from it to output_dir, as a .taup file of the same name. """
+        model_name = os.path.splitext(os.path.basename(model_file_name))[0]
+        create = cls(os.path.join(input_dir, model_file_name),
+                     os.path.join(output_dir, model_name + ".taup"), verbose)
+        create.loadVMod()
+        create.run()
+
 
 if __name__ == '__main__':
     parser = argparse.ArgumentParser()
     parser.add_argument('-v', '--verbose', '-d', '--debug',
                         action='store_true',
                         help='increase output verbosity')
-    parser.add_argument('-i', '--input_dir',
+    parser.add_argument('-i', '--input_dir', default='./data',
                         help='set directory of input velocity models '
                              '(default: ./data)')
-    parser.add_argument('-o', '--output_dir',
+    parser.add_argument('-o', '--output_dir', default='./data/taup_models',
                         help='set where to write the .taup model - be '
                              'careful, this will overwrite any previous '
                              'models of the same name (default: '
                              './data/taup_models)')
-    parser.add_argument('-mod', '--filename',
+    parser.add_argument('-mod', '--filename', default='iasp91.tvel',
                         help='the velocity model name '
                              '(default: iasp91.tvel)')
     args = parser.parse_args()
 
-    tauPCreate = TauP_Create(modelFilename=args.mod, output_dir=args.o,
-                             input_dir=args.i, verbose=args.verbose)
-    tauPCreate.loadVMod()
-    tauPCreate.run()
+    TauP_Create.main(args.filename, args.output_dir, args.input_dir,
+                     args.verbose)
-- 
2.43.0


From 9d9824da59a38c1ee8642bd5e6a3f41f5a8aacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 21/31] fix: honour the model and kilometres options of the
 command line scripts

---
 taupy/TauP_Time.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index b773353..60e9ef2 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -216,10 +216,15 @@ class TauP_Time(object):
         self.DEBUG = args.verbose if args.verbose else self.DEBUG
         self.phaseList = args.phase_list.split(',') \
             if args.phase_list else self.phaseList
-        self.modelName = args.modelname if args.modelname else self.modelName
+        if args.modelname:
+            self.modelName = args.modelname
+            self.tMod = self.tModDepth = TauModelLoader.load(args.modelname)
         self.depth = float(args.depth) if args.depth else self.depth
         self.degrees = float(args.degrees) if args.degrees else self.degrees
         self.kilometres = float(args.kilometres) if args.kilometres else None
+        if self.degrees is None and self.kilometres is not None:
+            self.degrees = (self.kilometres / self.tMod.radiusOfEarth
+                            * 180 / math.pi)
         self.stationLat = float(args.staLat) if args.staLat else None
         self.stationLon = float(args.staLon) if args.staLon else None
         self.eventLat = float(args.evtLat) if args.evtLat else None
-- 
2.43.0


From 4454770c1e0d97234a9441200d6b0c68542f73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 22/31] fix: loading a model by path no longer falls back to a
 built-in of the same name

---
 taupy/TauModelLoader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModelLoader.py b/taupy/TauModelLoader.py
index d6dcffe..b741cb6 100644
--- a/taupy/TauModelLoader.py
+++ b/taupy/TauModelLoader.py
@@ -17,7 +17,7 @@ def load(model_name):
     """
     #
     filename = _get_model_filename(model_name)
-    if not os.path.exists(filename):
+    if os.path.dirname(model_name) or not os.path.exists(filename):
         filename = model_name
 
     with open(filename, 'rb') as f:
-- 
2.43.0


From 13f038579e639cb45371f42d2c596fe834a04207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 23/31] fix: sample the slowness at the source depth when
 splitting a branch

---
 taupy/TauBranch.py | 96 +++++++++-------------------------------------
 taupy/TauModel.py  | 14 ++++---
 2 files changed, 26 insertions(+), 84 deletions(-)

diff --git a/taupy/TauBranch.py b/taupy/TauBranch.py
index 16cc6ae..e12fb02 100644
--- a/taupy/TauBranch.py
+++ b/taupy/TauBranch.py
@@ -111,7 +111,7 @@ class TauBranch(object):
                 "TauBranch depths not compatible with slowness sampling.")
         td = TimeDist(rayParam, 0, 0)
         if topSLayer.botP >= rayParam and topSLayer.topP >= rayParam:
-            for i in range(botLayerNum + 1):
+            for i in range(topLayerNum, botLayerNum + 1):
                 if sMod.getSlownessLayer(i, self.isPWave).botP < rayParam:
                     # So we don't sum below the turning depth.
                     break
@@ -194,85 +194,25 @@ class TauBranch(object):
         botBranch.maxRayParam = topBranch.minRayParam
         botBranch.minTurnRayParam = self.minTurnRayParam
         botBranch.minRayParam = self.minRayParam
-        PRayParam = -1
-        SRayParam = -1
-        arrayLength = len(self.dist)
-        if indexP != -1:
-            arrayLength += 1
-            PRayParam = rayParams[indexP]
-            timeDistP = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum,
-                                               PRayParam)
-        if indexS != -1 and indexS != indexP:
-            arrayLength += 1
-            SRayParam = rayParams[indexS]
-            timeDistS = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum,
-                                               SRayParam)
-        else:
-            # In case indexS==P then only need one.
-            indexS = -1
-        # This looks silly, but makes filling these later on easier
-        botBranch.dist = [0 for i in range(arrayLength)]
-        botBranch.time = [0 for i in range(arrayLength)]
-        botBranch.tau = [0 for i in range(arrayLength)]
-        if indexP == -1:
-            # Then both indices are -1 so no new ray parameters are added.
-            botBranch.dist = [a-b for a, b in zip(self.dist, topBranch.dist)]
-            botBranch.time = [a-b for a, b in zip(self.time, topBranch.time)]
-            botBranch.tau = [a-b for a, b in zip(self.tau, topBranch.tau)]
-        else:
-            if indexS == -1:
-                # Only indexP != -1.
-                # Slice to have the 'iteration' go only until indexP (zip
-                # ends with the shortest iterator).
-                botBranch.dist = [a-b for a, b in zip(self.dist[:indexP],
-                                                      topBranch.dist)]
-                botBranch.time = [a-b for a, b in zip(self.time[:indexP],
-                                                      topBranch.time)]
-                botBranch.tau = [a-b for a, b in zip(self.tau[:indexP],
-                                                     topBranch.tau)]
-                botBranch.dist.append(timeDistP.distRadian)
-                botBranch.time.append(timeDistP.time)
+        # Any new ray parameter has to be calculated, all the others follow
+        # from the difference. topBranch already includes the new ones.
+        botBranch.dist, botBranch.time, botBranch.tau = [], [], []
+        oldIndex = 0
+        for i, rayParam in enumerate(rayParams):
+            if i == indexP or i == indexS:
+                timeDist = botBranch.calcTimeDist(sMod, topLayerNum,
+                                                  botLayerNum, rayParam)
+                botBranch.dist.append(timeDist.distRadian)
+                botBranch.time.append(timeDist.time)
                 botBranch.tau.append(
-                    timeDistP.time - PRayParam * timeDistP.distRadian)
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
+                    timeDist.time - rayParam * timeDist.distRadian)
             else:
-                # Both indexP and S are != -1 so have two new samples
-                # Note the following does the same (in the beginning) as the
-                # previous clause.
-                # I'm on the fence about which is better.
-                for i in range(indexS):
-                    botBranch.dist[i] = self.dist[i] - topBranch.dist[i]
-                    botBranch.time[i] = self.time[i] - topBranch.time[i]
-                    botBranch.tau[i] = self.tau[i] - topBranch.tau[i]
-                botBranch.dist[indexS] = timeDistS.distRadian
-                botBranch.time[indexS] = timeDistS.time
-                botBranch.tau[indexS] = \
-                    timeDistS.time - SRayParam * timeDistS.distRadian
-                for i in range(indexS, indexP):
-                    botBranch.dist[i + 1] = \
-                        self.dist[i] - topBranch.dist[i + 1]
-                    botBranch.time[i + 1] = \
-                        self.time[i] - topBranch.time[i + 1]
-                    botBranch.tau[i + 1] = \
-                        self.tau[i] - topBranch.tau[i + 1]
-                # Put in at indexP+1 because we have already shifted by 1
-                # due to indexS.
-                botBranch.dist[indexP + 1] = timeDistP.distRadian
-                botBranch.time[indexP + 1] = timeDistP.time
-                botBranch.tau[indexP + 1] = \
-                    timeDistP.time - PRayParam * timeDistP.distRadian
-                for i in range(indexP, len(self.dist)):
-                    botBranch.dist[i + 2] = \
-                        self.dist[i] - topBranch.dist[i + 2]
-                    botBranch.time[i + 2] = \
-                        self.time[i] - topBranch.time[i + 2]
-                    botBranch.tau[i + 2] = \
-                        self.tau[i] - topBranch.tau[i + 2]
+                botBranch.dist.append(
+                    self.dist[oldIndex] - topBranch.dist[i])
+                botBranch.time.append(
+                    self.time[oldIndex] - topBranch.time[i])
+                botBranch.tau.append(self.tau[oldIndex] - topBranch.tau[i])
+                oldIndex += 1
         return botBranch
 
     def path(self, rayParam, downgoing, sMod):
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 303676a..27c016e 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -243,9 +243,10 @@ class TauModel(object):
                 # each.
                 newRayParam = splitInfo.rayParam
                 # Insert the new ray parameters into the rayParams array.
-                for index, trp, brp in zip(count(), oldRayParams[:-1],
+                oldRayParams = outRayParams
+                for index, trp, brp in zip(count(1), oldRayParams[:-1],
                                            oldRayParams[1:]):
-                    if trp < newRayParam < brp:
+                    if trp > newRayParam > brp:
                         outRayParams = oldRayParams[:index]
                         outRayParams.append(newRayParam)
                         outRayParams = outRayParams + oldRayParams[index:]
@@ -262,8 +263,8 @@ class TauModel(object):
         newTauBranches = [[TauBranch() for j in range(
             len(self.tauBranches[0]) + 1)] for i in range(2)]
         for i in range(branchToSplit):
-            newTauBranches[0][i] = self.tauBranches[0][i]
-            newTauBranches[1][i] = self.tauBranches[1][i]
+            newTauBranches[0][i] = deepcopy(self.tauBranches[0][i])
+            newTauBranches[1][i] = deepcopy(self.tauBranches[1][i])
             # Add the new ray parameter(s) from splitting the S and/or P
             # wave slowness layer to both the P and S wave tau branches (if
             # splitting occurred).
@@ -288,7 +289,8 @@ class TauModel(object):
                     outRayParams)
         for i in range(branchToSplit + 1, len(self.tauBranches[0])):
             for pOrS in range(2):
-                newTauBranches[pOrS][i + 1] = self.tauBranches[pOrS][i]
+                newTauBranches[pOrS][i + 1] = \
+                    deepcopy(self.tauBranches[pOrS][i])
             if indexS != -1:
                 # Add the new ray parameter from splitting the S wave
                 # slownes layer to both the P and S wave tau branches.
@@ -300,7 +302,7 @@ class TauModel(object):
                 # slownes layer to both the P and S wave tau branches.
                 for pOrS in range(2):
                     newTauBranches[pOrS][i + 1].insert(PWaveRayParam, outSMod,
-                                                       indexS)
+                                                       indexP)
         # We have split a branch so possibly sourceBranch, mohoBranch,
         # cmbBranch and iocbBranch are off by 1.
         outSourceBranch = self.sourceBranch
-- 
2.43.0


From a2dd8c857182cd71a7d572cad9f2f0524f7329ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 24/31] fix: TauBranch.difference no longer moves the top of
 the loaded branch

---
 taupy/TauBranch.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/taupy/TauBranch.py b/taupy/TauBranch.py
index e12fb02..497f74d 100644
--- a/taupy/TauBranch.py
+++ b/taupy/TauBranch.py
@@ -153,11 +153,9 @@ class TauBranch(object):
         """
         if topBranch.topDepth != self.topDepth \
                 or topBranch.botDepth > self.botDepth:
-            if topBranch.topDepth != self.topDepth \
-                    and abs(topBranch.topDepth - self.topDepth) < 0.000001:
-                # Really close, just move top.
-                self.topDepth = topBranch.topDepth
-            else:
+            # A top that is really close is fine, as it is not needed below.
+            if topBranch.topDepth == self.topDepth \
+                    or abs(topBranch.topDepth - self.topDepth) >= 0.000001:
                 raise TauModelError(
                     "TauBranch not compatible with slowness sampling.")
         if topBranch.isPWave != self.isPWave:
-- 
2.43.0


From fd9dc519ae4e96d8ea2077cd54670ce62d3e8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 25/31] fix: do not return arrivals of whole laps twice at zero
 distance

---
 taupy/SeismicPhase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 3d88aaa..f538c40 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -776,8 +776,8 @@ class SeismicPhase(object):
         # less than the maximum distance for this phase. This ensures that
         # we get the time for phases that accumulate more than 180 degrees
         # of distance, for instance PKKKKP might wrap all of the way around.
-        # A special case exists at 180, so we skip the second case if
-        # tempDeg==180.
+        # A special case exists at 180 and 0, where both are the same (for
+        # the next n in case of 0), so we skip the second case for these.
         n = 0
         while n * 2 * math.pi + radDist <= self.maxDistance:
             # Look for arrivals that are radDist + 2nPi, i.e. rays that have
@@ -802,7 +802,7 @@ class SeismicPhase(object):
             # Look for arrivals that are 2(n+1)Pi-radDist, i.e. rays that
             # have done more than one half lap plus some number of whole laps.
             searchDist = (n + 1) * 2 * math.pi - radDist
-            if tempDeg != 180:
+            if tempDeg != 180 and tempDeg != 0:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
                             and rayNum + 1 != len(self.dist) - 1:
-- 
2.43.0


From cbb50486b8cc548e9471376c22c88c43b2ab5a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 26/31] fix: ray paths of head and multiply diffracted waves
 reach the receiver

---
 taupy/SeismicPhase.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index f538c40..7045327 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -958,15 +958,18 @@ class SeismicPhase(object):
                and i < len(self.branchSeq) - 1
                and self.branchSeq[i + 1] == self.tMod.cmbBranch - 1
                and ("Pdiff" in self.name or "Sdiff" in self.name)):
+                # A leg that turns at the cmb is diffracted just the same.
+                numFound = list(zip(self.branchSeq, self.branchSeq[1:])).count(
+                    (branchNum, branchNum))
                 diffTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])
+                                   (currArrival.dist - self.dist[0]) / numFound
                                    * currArrival.rayParam,
-                                   currArrival.dist - self.dist[0],
+                                   (currArrival.dist - self.dist[0])/numFound,
                                    self.tMod.cmbDepth)]
                 pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch - 1
+            elif(branchNum == self.tMod.mohoBranch
                  and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch - 1
+                 and self.branchSeq[i + 1] == self.tMod.mohoBranch
                  and ("Pn" in self.name or "Sn" in self.name)):
                 # Can't have both Pn and Sn in a wave, so one of these is 0.
                 numFound = max(self.name.count("Pn"), self.name.count("Sn"))
-- 
2.43.0


From 6cbff010ba6a9f22e985f27628c736ea4c0bf8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 27/31] fix: pierce points of head and diffracted waves add up
 to the arrival

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 7045327..79ca8c1 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1013,7 +1013,8 @@ class SeismicPhase(object):
             headDepth = self.tMod.mohoDepth
         else:
             headDepth = self.tMod.cmbDepth
-        numFound = self.name.count(phaseSeg)
+        # Every point at that depth gets an equal share, see below.
+        numFound = [td.depth for td in orig].count(headDepth)
         refractDist = currArrival.dist - self.dist[0]
         refractTime = refractDist * currArrival.rayParam
         out = []
-- 
2.43.0


From e2c9e63badd2bdee9ba66c00b38d808b041bd5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 28/31] fix: pierce printing compares each point with the one
 before it

---
 taupy/TauP_Pierce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index e10378f..8ad8ad6 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -111,6 +111,7 @@ class TauP_Pierce(TauP_Time):
                           currArrival.pierce[j].depth,
                           currArrival.pierce[j].time))
                     # Optional (only if used in calc?) coords output to follow.
+                prevDepth = capd
 
     def getCommentLine(self, currArrival):
         outName = currArrival.name
-- 
2.43.0


From 955020d87d51e8079b056c63d2c229aeb1b11ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 29/31] fix: shadow zones of P and S do not shift each other's
 ray parameters

---
 taupy/SeismicPhase.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 79ca8c1..ab5b4db 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -702,7 +702,6 @@ class SeismicPhase(object):
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
-            indexOffset = 0
             for hszi in hsz:
                 if self.maxRayParam > hszi.rayParam > self.minRayParam:
                     # There is a high slowness zone within our ray parameter
@@ -724,6 +723,9 @@ class SeismicPhase(object):
                             break
                     if foundOverlap:
                         hszIndex = self.rayParams.index(hszi.rayParam)
+                        # Shadow zones inserted before shift our ray
+                        # parameters, but not those of the branches.
+                        branchIndex = tMod.rayParams.index(hszi.rayParam)
                         newdist = deepcopy(self.dist[:hszIndex])
                         newtime = deepcopy(self.time[:hszIndex])
                         newrayParams = deepcopy(self.rayParams[:hszIndex])
@@ -736,23 +738,14 @@ class SeismicPhase(object):
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
                             if tb != 0 and taub.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tb * taub.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tb * taub.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                                newdist[hszIndex] += tb * taub.dist[branchIndex]
+                                newtime[hszIndex] += tb * taub.time[branchIndex]
                             if tbs != 0 and taubs.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tbs * taubs.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tbs * taubs.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                                newdist[hszIndex] += tbs * taubs.dist[branchIndex]
+                                newtime[hszIndex] += tbs * taubs.time[branchIndex]
                         newdist += self.dist[hszIndex:]
                         newtime += self.time[hszIndex:]
                         newrayParams += self.rayParams[hszIndex:]
-                        indexOffset += 1
                         self.dist = newdist
                         self.time = newtime
                         self.rayParams = newrayParams
-- 
2.43.0


From c2b31b76c8bddf4126879111bfc093d900b4d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 30/31] fix: legs of the other wave type do not end at a shadow
 zone

---
 taupy/SeismicPhase.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index ab5b4db..e12447a 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -737,10 +737,13 @@ class SeismicPhase(object):
                                                         timesBranches[1],
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
-                            if tb != 0 and taub.topDepth < hszi.topDepth:
+                            # Only legs of this wave type end at the zone.
+                            if tb != 0 and (not isPwave or
+                                            taub.topDepth < hszi.topDepth):
                                 newdist[hszIndex] += tb * taub.dist[branchIndex]
                                 newtime[hszIndex] += tb * taub.time[branchIndex]
-                            if tbs != 0 and taubs.topDepth < hszi.topDepth:
+                            if tbs != 0 and (isPwave or
+                                             taubs.topDepth < hszi.topDepth):
                                 newdist[hszIndex] += tbs * taubs.dist[branchIndex]
                                 newtime[hszIndex] += tbs * taubs.time[branchIndex]
                         newdist += self.dist[hszIndex:]
-- 
2.43.0


From 76cd5375c8d15c3db326409b16d2cc97bb74de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 31/31] fix: moving a slowness sample changes the layers of its
 own wave type

---
 taupy/SlownessModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index ee27b08..55d440f 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1303,7 +1303,7 @@ class SlownessModel(object):
                                                     sLayer.botP, depth)
             out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         elif abs(depth - sLayer.botDepth) < 0.000001:
             # As above.
@@ -1317,7 +1317,7 @@ class SlownessModel(object):
                                                     sLayer.botDepth)
             out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         else:
             # Must split properly.
-- 
2.43.0

