"""Reference definitions for taupy/SeismicPhase.py."""
import math
import numpy as np
from copy import deepcopy
from itertools import count


# SeismicPhase.__init__
def SeismicPhase___init__(self, name, tMod):
    self.minRayParam = None
    self.maxRayParam = None
    self.maxRayParamIndex = -1
    self.minRayParamIndex = -1
    self.currBranch = None
    self.endAction = None
    self.name = name
    self.sourceDepth = tMod.sourceDepth
    self.tMod = tMod
    self.dist = []
    self.time = []
    self.rayParams = []
    self.minDistance = 0.0
    self.maxDistance = 1e+300
    self.branchSeq = []
    self.legAction = []
    self.downGoing = []
    self.waveType = []
    self.legs = legPuller(name)
    self.puristName = self.createPuristName(tMod)
    self.parseName(tMod)
    self.sumBranches(tMod)


# SeismicPhase.createPuristName
def SeismicPhase_createPuristName(self, tMod):
    currLeg = self.legs[0]
    if len(self.legs) == 2 and currLeg.endswith('kmps'):
        puristName = self.name
        return puristName
    puristName = ''
    for currLeg in self.legs[:-1]:
        if currLeg.startswith('v') or currLeg.startswith('^'):
            disconBranch = closestBranchToDepth(tMod, currLeg[1:])
            legDepth = tMod.tauBranches[0][disconBranch].topDepth
            puristName += currLeg[0]
            puristName += str(legDepth)
        else:
            try:
                float(currLeg)
                disconBranch = closestBranchToDepth(tMod, currLeg)
                legDepth = tMod.tauBranches[0][disconBranch].topDepth
                puristName += str(legDepth)
            except ValueError:
                puristName += currLeg
    return puristName


# SeismicPhase.parseName
def SeismicPhase_parseName(self, tMod):
    currLeg = self.legs[0]
    nextLeg = currLeg
    isPWave = True
    if len(self.legs) == 2 and currLeg.endswith('kmps'):
        return
    if 'J' in self.name and (not tMod.sMod.allowInnerCoreS):
        raise TauModelError('J phases are not created for this model: {}'.format(self.name))
    if currLeg == 'p' or currLeg.startswith('P') or currLeg == 'K' or (currLeg == 'k'):
        isPWave = True
    elif currLeg == 's' or currLeg.startswith('S') or currLeg == 'J':
        isPWave = False
    if len(self.legs) > 1 and self.legs[-2][0] not in 'PSps':
        raise TauModelError('Phase does not end at the surface: {}'.format(self.name))
    if currLeg.startswith('s') or currLeg.startswith('S'):
        sdep = tMod.sourceDepth
        if tMod.cmbDepth < sdep < tMod.iocbDepth:
            self.maxRayParam, self.minRayParam = (-1, -1)
            return
    if currLeg.startswith('P') or currLeg.startswith('S') or (self.expert and any((currLeg.startswith(a) for a in ('K', 'I')))):
        self.currBranch = tMod.sourceBranch
        self.endAction = self.REFLECTBOT
    elif currLeg == 'p' or currLeg == 's' or (self.expert and currLeg.startswith('k')):
        self.endAction = self.REFLECTTOP
        if tMod.sourceBranch != 0:
            self.currBranch = tMod.sourceBranch - 1
        else:
            self.maxRayParam = -1
            self.minRayParam = -1
            return
    else:
        raise TauModelError('First phase not recognised {}: '.format(currLeg) + 'Must be one of P, Pg, Pn, Pdiff, p or the S equivalents.')
    if tMod.sourceBranch != 0:
        self.maxRayParam = max(tMod.getTauBranch(tMod.sourceBranch - 1, isPWave).minTurnRayParam, tMod.getTauBranch(tMod.sourceBranch, isPWave).maxRayParam)
    else:
        self.maxRayParam = tMod.getTauBranch(tMod.sourceBranch, isPWave).maxRayParam
    self.minRayParam = 0
    isLegDepth, isNextLegDepth = (False, False)
    self.endAction = self.TRANSDOWN
    currLeg = 'START'
    for legNum in range(len(self.legs) - 1):
        prevLeg = currLeg
        currLeg = nextLeg
        nextLeg = self.legs[legNum + 1]
        isLegDepth = isNextLegDepth
        try:
            nextLegDepth = float(nextLeg)
            isNextLegDepth = True
        except ValueError:
            nextLegDepth = -1
            isNextLegDepth = False
        isPWavePrev = isPWave
        if currLeg == 'p' or currLeg.startswith('P') or currLeg == 'k' or (currLeg == 'I'):
            isPWave = True
        elif currLeg == 's' or currLeg.startswith('S') or currLeg == 'J':
            isPWave = False
        elif currLeg == 'K':
            pass
        if len(self.branchSeq) > 0 and isPWavePrev != isPWave:
            self.phaseConversion(tMod, int(self.branchSeq[-1]), self.endAction, isPWavePrev)
        if currLeg == 'p' or currLeg == 's' or currLeg == 'k':
            if nextLeg.startswith('v'):
                raise TauModelError('p and s must always be upgoing and cannot come immediately before a top-sided reflection.')
            elif nextLeg.startswith('^'):
                disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                if self.currBranch >= disconBranch:
                    self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.REFLECTTOP)
                else:
                    raise TauModelError('Phase not recognised: {currLeg} followed by {nextLeg} when currBranch > disconBranch'.format(**locals()))
            elif nextLeg == 'm' and self.currBranch >= tMod.mohoBranch:
                self.addToBranch(tMod, self.currBranch, tMod.mohoBranch, isPWave, self.TRANSUP)
            elif nextLeg.startswith('P') or nextLeg.startswith('S') or nextLeg == 'K' or (nextLeg == 'END'):
                disconBranch = tMod.cmbBranch if nextLeg == 'K' else 0
                self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.TRANSUP if currLeg == 'k' and (not nextLeg == 'K') else self.REFLECTTOP)
            elif isNextLegDepth:
                disconBranch = closestBranchToDepth(tMod, nextLeg)
                self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.TRANSUP)
            else:
                raise TauModelError('Phase not recognized: {} followed by {}'.format(currLeg, nextLeg))
        elif currLeg == 'P' or currLeg == 'S':
            if any((nextLeg == c for c in ('P', 'S', 'Pn', 'Sn', 'END'))):
                if self.endAction == self.TRANSDOWN or self.endAction == self.REFLECTTOP:
                    self.addToBranch(tMod, self.currBranch, tMod.cmbBranch - 1, isPWave, self.TURN)
                self.addToBranch(tMod, self.currBranch, 0, isPWave, self.REFLECTTOP)
            elif nextLeg.startswith('v'):
                disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                if self.currBranch <= disconBranch - 1:
                    self.addToBranch(tMod, self.currBranch, disconBranch - 1, isPWave, self.REFLECTBOT)
                else:
                    raise TauModelError('Phase not recognised: {currLeg} followed by {nextLeg} when currBranch > disconBranch'.format(**locals()))
            elif nextLeg.startswith('^'):
                disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                if prevLeg == 'K':
                    self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.REFLECTTOP)
                elif prevLeg.startswith('^') or any((prevLeg == c for c in ('P', 'S', 'p', 's', 'START'))):
                    self.addToBranch(tMod, self.currBranch, tMod.cmbBranch - 1, isPWave, self.TURN)
                    self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.REFLECTTOP)
                elif prevLeg.startswith('v') and disconBranch < closestBranchToDepth(tMod, prevLeg[1:]) or (prevLeg == 'm' and disconBranch < tMod.mohoBranch) or (prevLeg == 'c' and disconBranch < tMod.cmbBranch):
                    self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.REFLECTTOP)
                else:
                    raise TauModelError('Phase not recognised: {currLeg} followed by {nextLeg} when currBranch > disconBranch'.format(**locals()))
            elif nextLeg == 'c':
                self.addToBranch(tMod, self.currBranch, tMod.cmbBranch - 1, isPWave, self.REFLECTBOT)
            elif nextLeg == 'K':
                self.addToBranch(tMod, self.currBranch, tMod.cmbBranch - 1, isPWave, self.TRANSDOWN)
            elif nextLeg == 'm' or (isNextLegDepth and nextLegDepth < tMod.cmbDepth):
                disconBranch = closestBranchToDepth(tMod, nextLeg)
                if self.endAction == self.TURN or self.endAction == self.REFLECTBOT or self.endAction == self.TRANSUP:
                    if disconBranch > self.currBranch:
                        raise TauModelError('Phase not recognised: {currLeg} followed by {nextLeg} when currBranch > disconBranch'.format(**locals()))
                    self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.TRANSUP)
                else:
                    nextnextLeg = self.legs[legNum + 2]
                    if nextnextLeg == 'p' or nextnextLeg == 's':
                        self.addToBranch(tMod, self.currBranch, tMod.cmbBranch - 1, isPWave, self.TURN)
                        self.addToBranch(tMod, self.currBranch, disconBranch, isPWave, self.TRANSUP)
                    elif nextnextLeg == 'P' or nextnextLeg == 'S':
                        if disconBranch > self.currBranch:
                            self.addToBranch(tMod, self.currBranch, disconBranch - 1, isPWave, self.TRANSDOWN)
                        else:
                            self.maxRayParam = -1
                            return
                    else:
                        raise TauModelError('Phase not recognized: {} followed by {} followed by {}'.format(currLeg, nextLeg, nextnextLeg))
            else:
                raise TauModelError('Phase not recognized: {} followed by {}'.format(currLeg, nextLeg))
        elif currLeg.startswith('P') or currLeg.startswith('S'):
            if currLeg == 'Pdiff' or currLeg == 'Sdiff':
                if self.maxRayParam >= tMod.getTauBranch(tMod.cmbBranch - 1, isPWave).minTurnRayParam >= self.minRayParam:
                    self.addToBranch(tMod, self.currBranch, tMod.cmbBranch - 1, isPWave, self.TURN)
                    self.maxRayParam = self.minRayParam
                    if nextLeg == 'END' or nextLeg.startswith('P') or nextLeg.startswith('S'):
                        self.addToBranch(tMod, self.currBranch, 0, isPWave, self.REFLECTTOP)
                else:
                    self.maxRayParam = -1
                    return
            elif any((currLeg == p for p in ('Pg', 'Sg', 'Pn', 'Sn'))):
                if self.currBranch >= tMod.mohoBranch:
                    self.maxRayParam = -1
                    return
                if currLeg == 'Pg' or currLeg == 'Sg':
                    self.addToBranch(tMod, self.currBranch, tMod.mohoBranch - 1, isPWave, self.TURN)
                    self.addToBranch(tMod, self.currBranch, 0, isPWave, self.REFLECTTOP)
                elif currLeg == 'Pn' or currLeg == 'Sn':
                    if self.maxRayParam >= tMod.getTauBranch(tMod.mohoBranch, isPWave).maxRayParam >= self.minRayParam:
                        self.addToBranch(tMod, self.currBranch, tMod.mohoBranch, isPWave, self.TURN)
                        self.addToBranch(tMod, self.currBranch, tMod.mohoBranch, isPWave, self.TRANSUP)
                        self.minRayParam = self.maxRayParam
                        if nextLeg == 'END' or nextLeg.startswith('P') or nextLeg.startswith('S'):
                            self.addToBranch(tMod, self.currBranch, 0, isPWave, self.REFLECTTOP)
                    else:
                        self.maxRayParam = -1
                        return
            else:
                raise TauModelError('Phase not recognized: {} followed by {}'.format(currLeg, nextLeg))
        elif currLeg == 'K':
            if nextLeg == 'P' or nextLeg == 'S':
                if any((prevLeg == p for p in ('P', 'S', 'K', 'k', 'START'))):
                    self.addToBranch(tMod, self.currBranch, tMod.iocbBranch - 1, isPWave, self.TURN)
                self.addToBranch(tMod, self.currBranch, tMod.cmbBranch, isPWave, self.TRANSUP)
            elif nextLeg == 'K':
                if any((prevLeg == p for p in ('P', 'S', 'K'))):
                    self.addToBranch(tMod, self.currBranch, tMod.iocbBranch - 1, isPWave, self.TURN)
                self.addToBranch(tMod, self.currBranch, tMod.cmbBranch, isPWave, self.REFLECTTOP)
            elif nextLeg == 'I' or nextLeg == 'J':
                self.addToBranch(tMod, self.currBranch, tMod.iocbBranch - 1, isPWave, self.TRANSDOWN)
            elif nextLeg == 'i':
                self.addToBranch(tMod, self.currBranch, tMod.iocbBranch - 1, isPWave, self.REFLECTBOT)
            else:
                raise TauModelError('Phase not recognized: {} followed by {}'.format(currLeg, nextLeg))
        elif currLeg == 'I' or currLeg == 'J':
            self.addToBranch(tMod, self.currBranch, len(tMod.tauBranches[0]) - 1, isPWave, self.TURN)
            if nextLeg == 'I' or nextLeg == 'J':
                self.addToBranch(tMod, self.currBranch, tMod.iocbBranch, isPWave, self.REFLECTTOP)
            elif nextLeg == 'K':
                self.addToBranch(tMod, self.currBranch, tMod.iocbBranch, isPWave, self.TRANSUP)
        elif any((currLeg == p for p in ('m', 'c', 'i'))) or currLeg.startswith('^') or currLeg.startswith('v') or isLegDepth:
            pass
        else:
            raise TauModelError('Phase not recognized: {} followed by {}'.format(currLeg, nextLeg))


# SeismicPhase.phaseConversion
def SeismicPhase_phaseConversion(self, tMod, fromBranch, endAction, isPtoS):
    if endAction == self.TURN:
        raise TauModelError('Bad endAction: phase conversion is not allowed at turn points.')
    elif endAction == self.REFLECTTOP:
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(fromBranch, isPtoS).maxRayParam, tMod.getTauBranch(fromBranch, not isPtoS).maxRayParam)
    elif endAction == self.REFLECTBOT:
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(fromBranch, isPtoS).minTurnRayParam, tMod.getTauBranch(fromBranch, not isPtoS).minTurnRayParam)
    elif endAction == self.TRANSUP:
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(fromBranch, isPtoS).maxRayParam, tMod.getTauBranch(fromBranch - 1, not isPtoS).minTurnRayParam)
    elif endAction == self.TRANSDOWN:
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(fromBranch, isPtoS).minRayParam, tMod.getTauBranch(fromBranch + 1, not isPtoS).maxRayParam)
    else:
        raise TauModelError('Illegal endAction = {}'.format(endAction))


# SeismicPhase.addToBranch
def SeismicPhase_addToBranch(self, tMod, startBranch, endBranch, isPWave, endAction):
    self.endAction = endAction
    if endAction == self.TURN:
        endOffset = 0
        isDownGoing = True
        self.minRayParam = max(self.minRayParam, tMod.getTauBranch(endBranch, isPWave).minTurnRayParam)
    elif endAction == self.REFLECTTOP:
        endOffset = 0
        isDownGoing = False
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(endBranch, isPWave).maxRayParam)
    elif endAction == self.REFLECTBOT:
        endOffset = 0
        isDownGoing = True
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(endBranch, isPWave).minTurnRayParam)
    elif endAction == self.TRANSUP:
        endOffset = -1
        isDownGoing = False
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(endBranch, isPWave).maxRayParam)
    elif endAction == self.TRANSDOWN:
        endOffset = 1
        isDownGoing = True
        self.maxRayParam = min(self.maxRayParam, tMod.getTauBranch(endBranch, isPWave).minRayParam)
    else:
        raise TauModelError('Illegal endAction: {}'.format(endAction))
    if isDownGoing:
        for i in range(startBranch, endBranch + 1):
            self.branchSeq.append(i)
            self.downGoing.append(isDownGoing)
            self.waveType.append(isPWave)
            self.legAction.append(endAction)
    else:
        for i in range(startBranch, endBranch - 1, -1):
            self.branchSeq.append(i)
            self.downGoing.append(isDownGoing)
            self.waveType.append(isPWave)
            self.legAction.append(endAction)
    self.currBranch = endBranch + endOffset


# SeismicPhase.sumBranches
def SeismicPhase_sumBranches(self, tMod):
    if self.name.endswith('kmps'):
        try:
            velocity = float(self.name[:-4])
        except ValueError:
            raise TauModelError('Invalid phase name: ' + self.name)
        if not 0 < velocity < float('inf'):
            raise TauModelError('Invalid phase name: ' + self.name)
        self.dist = [0, 2 * math.pi]
        self.time = [0, 2 * math.pi * tMod.radiusOfEarth / velocity]
        self.minRayParam = self.maxRayParam = tMod.radiusOfEarth / velocity
        self.rayParams = [self.maxRayParam, self.maxRayParam]
        self.minDistance = 0
        self.maxDistance = 2 * math.pi
        return
    if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
        self.rayParams = []
        self.minRayParam = -1
        self.maxRayParam = -1
        self.dist = []
        self.time = []
        self.maxDistance = -1
        return
    for i, rp in enumerate(tMod.rayParams):
        if rp >= self.minRayParam:
            self.minRayParamIndex = i
        if rp >= self.maxRayParam:
            self.maxRayParamIndex = i
    if self.maxRayParamIndex == 0 and self.minRayParamIndex == len(tMod.rayParams) - 1:
        self.rayParams = deepcopy(tMod.rayParams)
    elif self.maxRayParamIndex == self.minRayParamIndex:
        if self.name.endswith('kmps'):
            self.rayParams = [0, self.maxRayParam]
        else:
            self.rayParams = [self.minRayParam, self.minRayParam]
    else:
        self.rayParams = deepcopy(tMod.rayParams[self.maxRayParamIndex:self.minRayParamIndex + 1])
    self.dist = [0 for i in range(len(self.rayParams))]
    self.time = [0 for i in range(len(self.rayParams))]
    timesBranches = [[0 for i in range(len(tMod.tauBranches[0]))] for j in range(2)]
    for wt, bs in zip(self.waveType, self.branchSeq):
        if wt:
            timesBranches[0][bs] += 1
        else:
            timesBranches[1][bs] += 1
    for tb, tbs, taub, taubs in zip(timesBranches[0], timesBranches[1], tMod.tauBranches[0], tMod.tauBranches[1]):
        if tb != 0:
            for i in range(self.maxRayParamIndex, self.minRayParamIndex + 1):
                self.dist[i - self.maxRayParamIndex] += tb * taub.dist[i]
                self.time[i - self.maxRayParamIndex] += tb * taub.time[i]
        if tbs != 0:
            for i in range(self.maxRayParamIndex, self.minRayParamIndex + 1):
                self.dist[i - self.maxRayParamIndex] += tbs * taubs.dist[i]
                self.time[i - self.maxRayParamIndex] += tbs * taubs.time[i]
    if 'Sdiff' in self.name or 'Pdiff' in self.name:
        if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10, self.minRayParam, self.name[0] == 'P'):
            self.minRayParam = -1
            self.maxRayParam = -1
            self.maxDistance = -1
            self.time = []
            self.dist = []
            self.rayParams = []
            return
        else:
            self.dist[1] = self.dist[0] + self.maxDiffraction * math.pi / 180
            self.time[1] = self.time[0] + self.maxDiffraction * math.pi / 180 * self.minRayParam
    elif 'Pn' in self.name or 'Sn' in self.name:
        self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
        self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180 * self.minRayParam
    elif self.maxRayParamIndex == self.minRayParamIndex:
        self.dist[1] = self.dist[0]
        self.time[1] = self.time[0]
    self.minDistance = min(self.dist)
    self.maxDistance = max(self.dist)
    for isPwave in [True, False]:
        hsz = tMod.sMod.highSlownessLayerDepthsP if isPwave else tMod.sMod.highSlownessLayerDepthsS
        for hszi in hsz:
            if self.maxRayParam > hszi.rayParam > self.minRayParam:
                branchNum = tMod.findBranch(hszi.topDepth)
                foundOverlap = False
                for legNum in range(len(self.branchSeq)):
                    if self.branchSeq[legNum] == branchNum and self.waveType[legNum] == isPwave and (self.downGoing[legNum] is True) and (self.branchSeq[legNum - 1] == branchNum - 1) and (self.waveType[legNum - 1] == isPwave) and (self.downGoing[legNum - 1] is True):
                        foundOverlap = True
                        break
                if foundOverlap:
                    hszIndex = self.rayParams.index(hszi.rayParam)
                    branchIndex = tMod.rayParams.index(hszi.rayParam)
                    newdist = deepcopy(self.dist[:hszIndex])
                    newtime = deepcopy(self.time[:hszIndex])
                    newrayParams = deepcopy(self.rayParams[:hszIndex])
                    newrayParams.append(hszi.rayParam)
                    newdist.append(0)
                    newtime.append(0)
                    for tb, tbs, taub, taubs in zip(timesBranches[0], timesBranches[1], tMod.tauBranches[0], tMod.tauBranches[1]):
                        if tb != 0 and (not isPwave or taub.topDepth < hszi.topDepth):
                            newdist[hszIndex] += tb * taub.dist[branchIndex]
                            newtime[hszIndex] += tb * taub.time[branchIndex]
                        if tbs != 0 and (isPwave or taubs.topDepth < hszi.topDepth):
                            newdist[hszIndex] += tbs * taubs.dist[branchIndex]
                            newtime[hszIndex] += tbs * taubs.time[branchIndex]
                    newdist += self.dist[hszIndex:]
                    newtime += self.time[hszIndex:]
                    newrayParams += self.rayParams[hszIndex:]
                    self.dist = newdist
                    self.time = newtime
                    self.rayParams = newrayParams


# SeismicPhase.calcTime
def SeismicPhase_calcTime(self, degrees):
    tempDeg = abs(degrees)
    while tempDeg > 360:
        tempDeg -= 360
    if tempDeg > 180:
        tempDeg = 360 - tempDeg
    radDist = tempDeg * math.pi / 180
    arrivals = []
    n = 0
    while n * 2 * math.pi + radDist <= self.maxDistance:
        searchDist = n * 2 * math.pi + radDist
        for rayNum in range(len(self.dist) - 1):
            if searchDist == self.dist[rayNum + 1] and rayNum + 1 != len(self.dist) - 1:
                continue
            elif (self.dist[rayNum] - searchDist) * (searchDist - self.dist[rayNum + 1]) >= 0:
                if self.rayParams[rayNum] == self.rayParams[rayNum + 1] and len(self.rayParams) > 2:
                    continue
                arrivals.append(self.linearInterpArrival(searchDist, rayNum, self.name, self.puristName, self.sourceDepth))
        searchDist = (n + 1) * 2 * math.pi - radDist
        if tempDeg != 180 and tempDeg != 0:
            for rayNum in range(len(self.dist) - 1):
                if searchDist == self.dist[rayNum + 1] and rayNum + 1 != len(self.dist) - 1:
                    continue
                elif (self.dist[rayNum] - searchDist) * (searchDist - self.dist[rayNum + 1]) >= 0:
                    if self.rayParams[rayNum] == self.rayParams[rayNum + 1] and len(self.rayParams) > 2:
                        continue
                    arrivals.append(self.linearInterpArrival(searchDist, rayNum, self.name, self.puristName, self.sourceDepth))
        n += 1
    return arrivals


# SeismicPhase.calcPierce
def SeismicPhase_calcPierce(self, degrees):
    arrivals = self.calcTime(degrees)
    for arrival in arrivals:
        self.calcPierceFromArrival(arrival)
    return arrivals


# SeismicPhase.calcPierceFromArrival
def SeismicPhase_calcPierceFromArrival(self, currArrival):
    rayNum = 0
    for i, rp in enumerate(self.tMod.rayParams[:-1]):
        if rp >= currArrival.rayParam:
            rayNum = i
        else:
            break
    rayParamA = self.rayParams[currArrival.rayParamIndex]
    rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
    distA = self.dist[currArrival.rayParamIndex]
    distB = self.dist[currArrival.rayParamIndex + 1]
    distRatio = (currArrival.dist - distA) / (distB - distA)
    distRayParam = distRatio * (rayParamB - rayParamA) + rayParamA
    pierce = [TimeDist(distRayParam, 0, 0, self.tMod.sourceDepth)]
    branchDist = 0
    branchTime = 0
    assert len(self.branchSeq) == len(self.waveType) == len(self.downGoing)
    for branchNum, isPWave, isDownGoing in zip(self.branchSeq, self.waveType, self.downGoing):
        tauBranch = self.tMod.getTauBranch(branchNum, isPWave)
        if distRayParam > tauBranch.maxRayParam:
            turnDepth = tauBranch.topDepth
        elif distRayParam <= tauBranch.minRayParam:
            turnDepth = tauBranch.botDepth
        elif isPWave or self.tMod.sMod.depthInFluid((tauBranch.topDepth + tauBranch.botDepth) / 2):
            turnDepth = self.tMod.sMod.findDepth(distRayParam, tauBranch.topDepth, tauBranch.botDepth, True)
        else:
            turnDepth = self.tMod.sMod.findDepth(distRayParam, tauBranch.topDepth, tauBranch.botDepth, isPWave)
        if any((x in self.name for x in ['Pdiff', 'Pn', 'Sdiff', 'Sn'])):
            distA = tauBranch.dist[rayNum]
            timeA = tauBranch.time[rayNum]
            distB, timeB = (distA, timeA)
        else:
            distA = tauBranch.dist[rayNum]
            timeA = tauBranch.time[rayNum]
            distB = tauBranch.dist[rayNum + 1]
            timeB = tauBranch.time[rayNum + 1]
        branchDist += distRatio * (distB - distA) + distA
        prevBranchTime = branchTime
        branchTime += distRatio * (timeB - timeA) + timeA
        if isDownGoing:
            branchDepth = min(tauBranch.botDepth, turnDepth)
        else:
            branchDepth = min(tauBranch.topDepth, turnDepth)
        if abs(prevBranchTime - branchTime) > 1e-10:
            pierce.append(TimeDist(distRayParam, branchTime, branchDist, branchDepth))
    if any((x in self.name for x in ['Pdiff', 'Pn', 'Sdiff', 'Sn'])):
        pierce = self.handleHeadOrDiffractedWave(currArrival, pierce)
    elif 'kmps' in self.name:
        pierce.append(TimeDist(distRayParam, currArrival.time, currArrival.dist, 0))
    currArrival.pierce = pierce
    return currArrival


# SeismicPhase.calcPath
def SeismicPhase_calcPath(self, degrees):
    arrivals = self.calcTime(degrees)
    for arrival in arrivals:
        self.calcPathFromArrival(arrival)
    return arrivals


# SeismicPhase.calcPathFromArrival
def SeismicPhase_calcPathFromArrival(self, currArrival):
    tempTimeDist = [TimeDist(currArrival.rayParam, 0, 0, self.tMod.sourceDepth)]
    pathList = [tempTimeDist]
    for i, branchNum, isPWave, isDownGoing in zip(count(), self.branchSeq, self.waveType, self.downGoing):
        tempTimeDist = self.tMod.getTauBranch(branchNum, isPWave).path(currArrival.rayParam, isDownGoing, self.tMod.sMod)
        if tempTimeDist:
            pathList.append(tempTimeDist)
            for ttd in tempTimeDist:
                if ttd.getDistDeg() < 0:
                    raise RuntimeError('Path is backtracking, this is impossible.')
        if branchNum == self.tMod.cmbBranch - 1 and i < len(self.branchSeq) - 1 and (self.branchSeq[i + 1] == self.tMod.cmbBranch - 1) and ('Pdiff' in self.name or 'Sdiff' in self.name):
            numFound = list(zip(self.branchSeq, self.branchSeq[1:])).count((branchNum, branchNum))
            diffTD = [TimeDist(currArrival.rayParam, (currArrival.dist - self.dist[0]) / numFound * currArrival.rayParam, (currArrival.dist - self.dist[0]) / numFound, self.tMod.cmbDepth)]
            pathList.append(diffTD)
        elif branchNum == self.tMod.mohoBranch and i < len(self.branchSeq) - 1 and (self.branchSeq[i + 1] == self.tMod.mohoBranch) and ('Pn' in self.name or 'Sn' in self.name):
            numFound = max(self.name.count('Pn'), self.name.count('Sn'))
            headTD = [TimeDist(currArrival.rayParam, (currArrival.dist - self.dist[0]) / numFound * currArrival.rayParam, (currArrival.dist - self.dist[0]) / numFound, self.tMod.mohoDepth)]
            pathList.append(headTD)
    if 'kmps' in self.name:
        headTD = [TimeDist(currArrival.rayParam, currArrival.dist * currArrival.rayParam, currArrival.dist, 0)]
        pathList.append(headTD)
    currArrival.path = []
    cumulative = TimeDist(currArrival.rayParam, 0, 0, currArrival.sourceDepth)
    for branchPath in pathList:
        for bp in branchPath:
            cumulative.add(bp)
            cumulative.depth = bp.depth
            currArrival.path.append(deepcopy(cumulative))
    return currArrival


# SeismicPhase.handleHeadOrDiffractedWave
def SeismicPhase_handleHeadOrDiffractedWave(self, currArrival, orig):
    for ps in ['Pn', 'Sn', 'Pdiff', 'Sdiff']:
        if ps in self.name:
            phaseSeg = ps
            break
    else:
        raise TauModelError('No head/diff segment in' + str(self.name))
    if phaseSeg in ['Pn', 'Sn']:
        headDepth = self.tMod.mohoDepth
    else:
        headDepth = self.tMod.cmbDepth
    numFound = [td.depth for td in orig].count(headDepth)
    refractDist = currArrival.dist - self.dist[0]
    refractTime = refractDist * currArrival.rayParam
    out = []
    j = 0
    for td in orig:
        out.append(TimeDist(td.p, td.time + j * refractTime / numFound, td.distRadian + j * refractDist / numFound, td.depth))
        if td.depth == headDepth:
            j += 1
            out.append(TimeDist(td.p, td.time + j * refractTime / numFound, td.distRadian + j * refractDist / numFound, td.depth))
    return out


# SeismicPhase.linearInterpArrival
def SeismicPhase_linearInterpArrival(self, searchDist, rayNum, name, puristName, sourceDepth):
    arrivalTime = (searchDist - self.dist[rayNum]) / (self.dist[rayNum + 1] - self.dist[rayNum]) * (self.time[rayNum + 1] - self.time[rayNum]) + self.time[rayNum]
    arrivalRayParam = (searchDist - self.dist[rayNum + 1]) * (self.rayParams[rayNum] - self.rayParams[rayNum + 1]) / (self.dist[rayNum] - self.dist[rayNum + 1]) + self.rayParams[rayNum + 1]
    if name.endswith('kmps'):
        takeoffAngle = 0
        incidentAngle = 0
    else:
        vMod = self.tMod.sMod.vMod
        if self.downGoing[0]:
            takeoffVelocity = vMod.evaluateBelow(sourceDepth, name[0])
        else:
            takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
        takeoffAngle = 180 / math.pi * math.asin(max(-1.0, min(1.0, takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth - self.sourceDepth))))
        lastLeg = self.legs[-2][0]
        incidentAngle = 180 / math.pi * math.asin(max(-1.0, min(1.0, vMod.evaluateBelow(0, lastLeg) * arrivalRayParam / self.tMod.radiusOfEarth)))
    return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum, name, puristName, sourceDepth, takeoffAngle, incidentAngle)


# SeismicPhase.getEarliestArrival
def SeismicPhase_getEarliestArrival(cls, relPhases, degrees):
    raise NotImplementedError('baaa')


# closestBranchToDepth
def closestBranchToDepth(tMod, depthString):
    if depthString == 'm':
        return tMod.mohoBranch
    elif depthString == 'c':
        return tMod.cmbBranch
    elif depthString == 'i':
        return tMod.iocbBranch
    disconBranch = -1
    disconMax = 1e+300
    disconDepth = float(depthString)
    for i, tBranch in enumerate(tMod.tauBranches[0]):
        if abs(disconDepth - tBranch.topDepth) < disconMax and (not any((ndc == tBranch.topDepth for ndc in tMod.noDisconDepths))):
            disconBranch = i
            disconMax = abs(disconDepth - tBranch.topDepth)
    return disconBranch


# legPuller
def legPuller(name):
    offset = 0
    legs = []
    if name.endswith('kmps'):
        legs.append(name)
    else:
        while offset < len(name):
            nchar = name[offset]
            if any((nchar == c for c in ('K', 'k', 'I', 'i', 'J', 'p', 's', 'm', 'c'))):
                legs.append(nchar)
                offset += 1
            elif nchar == 'P' or nchar == 'S':
                if offset + 1 == len(name) or any((name[offset + 1] == c for c in ('P', 'S', 'K', 'm', 'c', '^', 'v'))) or name[offset + 1].isdigit():
                    legs.append(nchar)
                    offset += 1
                elif name[offset + 1] == 'p' or name[offset + 1] == 's':
                    raise TauModelError('Invalid phase name: \n {} cannot be followed by {} in {}.'.format(nchar, name[offset + 1], name))
                elif any((name[offset + 1] == c for c in ('g', 'b', 'n'))):
                    legs.append(name[offset:offset + 2])
                    offset += 2
                elif len(name) >= offset + 5 and any((name[offset:offset + 5] == c for c in ('Sdiff', 'Pdiff'))):
                    legs.append(name[offset:offset + 5])
                    offset += 5
                else:
                    raise TauModelError('Invalid phase name: \n {nchar} in {name}'.format(**locals()))
            elif nchar == '^' or nchar == 'v':
                if name[offset + 1:offset + 2] in ('m', 'c', 'i'):
                    legs.append(name[offset:offset + 2])
                    offset += 2
                elif name[offset + 1:offset + 2].isdigit() or name[offset + 1:offset + 2] == '.':
                    numString = name[offset]
                    offset += 1
                    while offset < len(name) and (name[offset].isdigit() or name[offset] == '.'):
                        numString += name[offset]
                        offset += 1
                    legs.append(numString)
                else:
                    raise TauModelError('Invalid phase name {nchar} in {name}.'.format(**locals()))
            elif nchar.isdigit() or nchar == '.':
                numString = name[offset]
                offset += 1
                while offset < len(name) and (name[offset].isdigit() or name[offset] == '.'):
                    numString += name[offset]
                    offset += 1
                legs.append(numString)
            else:
                raise TauModelError('Invalid phase name {nchar} in {name}.'.format(**locals()))
    legs.append('END')
    return legs
