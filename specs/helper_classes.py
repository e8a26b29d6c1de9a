"""Reference definitions for taupy/helper_classes.py."""
from math import pi


# TimeDist.__init__
def TimeDist___init__(self, p=0, time=0, distRadian=0, depth=0):
    self.p = p
    self.depth = depth
    self.time = time
    self.distRadian = distRadian


# TimeDist.add
def TimeDist_add(self, td):
    self.time += td.time
    self.distRadian += td.distRadian


# TimeDist.getDistDeg
def TimeDist_getDistDeg(self):
    return self.distRadian * 180 / pi


# CriticalDepth.__init__
def CriticalDepth___init__(self, depth, velLayerNum, pLayerNum, sLayerNum):
    self.depth = depth
    self.velLayerNum = velLayerNum
    self.pLayerNum = pLayerNum
    self.sLayerNum = sLayerNum


# DepthRange.__init__
def DepthRange___init__(self, topDepth=None, botDepth=None, rayParam=-1):
    self.topDepth = topDepth
    self.botDepth = botDepth
    self.rayParam = rayParam


# SplitLayerInfo.__init__
def SplitLayerInfo___init__(self, sMod, neededSplit, movedSample, rayParam):
    self.sMod = sMod
    self.neededSplit = neededSplit
    self.movedSample = movedSample
    self.rayParam = rayParam
