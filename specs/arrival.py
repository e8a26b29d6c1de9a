"""Reference definitions for taupy/Arrival.py."""
from math import pi


# Arrival.__init__
def Arrival___init__(self, phase, time, dist, rayParam, rayParamIndex, name, puristName, sourceDepth, takeoffAngle, incidentAngle):
    self.phase = phase
    self.time = time
    self.dist = dist
    self.rayParam = rayParam
    self.rayParamIndex = rayParamIndex
    self.name = name
    self.puristName = puristName
    self.sourceDepth = sourceDepth
    self.incidentAngle = incidentAngle
    self.takeoffAngle = takeoffAngle
    self.pierce, self.path = ([], [])


# Arrival.rayParam_sec_degree
def Arrival_rayParam_sec_degree(self):
    return self.rayParam * pi / 180.0


# Arrival.purist_distance
def Arrival_purist_distance(self):
    return self.dist * 180.0 / pi


# Arrival.getPierce
def Arrival_getPierce(self):
    if not self.pierce:
        self.phase.calcPierceFromArrival(self)
    return self.pierce


# Arrival.getPath
def Arrival_getPath(self):
    if not self.path:
        self.phase.calcPathFromArrival(self)
    return self.path


# Arrival.getModuloDistDeg
def Arrival_getModuloDistDeg(self):
    moduloDist = 180.0 / pi * self.dist % 360.0
    if moduloDist > 180:
        moduloDist = 360 - moduloDist
    return moduloDist


# Arrival.getDistDeg
def Arrival_getDistDeg(self):
    return self.dist * 180 / pi


# Arrival.__str__
def Arrival___str__(self):
    return '{} phase arrival at {:.3f} seconds'.format(self.phase.name, self.time)
