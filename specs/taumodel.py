"""Reference definitions for taupy/TauModel.py."""
from itertools import count
from math import pi
import pickle
from copy import deepcopy


# TauModel.__init__
def TauModel___init__(self, sMod, spherical=True, debug=False):
    self.debug = debug
    self.radiusOfEarth = sMod.radiusOfEarth
    self.spherical = spherical
    self.rayParams = []
    self.tauBranches = [[], []]
    self.sMod = sMod
    self.calcTauIncFrom()


# TauModel.calcTauIncFrom
def TauModel_calcTauIncFrom(self):
    if self.sMod.getNumLayers(True) == 0 or self.sMod.getNumLayers(False) == 0:
        raise SlownessModelError("Can't calculate tauInc when getNumLayers() = 0. I need more slowness samples.")
    if not self.sMod.validate():
        raise SlownessModelError('Validation of SlownessModel failed')
    numBranches = len(self.sMod.criticalDepths) - 1
    self.tauBranches = [[TauBranch() for j in range(numBranches)] for i in range(2)]
    rayNum = 0
    minPSoFar = self.sMod.SLayers[0].topP
    tempRayParams = [0 for i in range(2 * self.sMod.getNumLayers(False) + len(self.sMod.criticalDepths))]
    tempRayParams[rayNum] = minPSoFar
    rayNum += 1
    for currSLayer in self.sMod.SLayers:
        if currSLayer.topP < minPSoFar:
            tempRayParams[rayNum] = currSLayer.topP
            rayNum += 1
            minPSoFar = currSLayer.topP
        if currSLayer.botP < minPSoFar:
            tempRayParams[rayNum] = currSLayer.botP
            rayNum += 1
            minPSoFar = currSLayer.botP
    self.rayParams = tempRayParams[:rayNum]
    if self.debug:
        pass
    for waveNum, isPWave in enumerate([True, False]):
        minPSoFar = self.sMod.getSlownessLayer(0, isPWave).topP
        for critNum, topCritDepth, botCritDepth in zip(count(), self.sMod.criticalDepths[:-1], self.sMod.criticalDepths[1:]):
            topCritLayerNum = topCritDepth.pLayerNum if isPWave else topCritDepth.sLayerNum
            botCritLayerNum = (botCritDepth.pLayerNum if isPWave else botCritDepth.sLayerNum) - 1
            self.tauBranches[waveNum][critNum] = TauBranch(topCritDepth.depth, botCritDepth.depth, isPWave)
            self.tauBranches[waveNum][critNum].DEBUG = self.debug
            self.tauBranches[waveNum][critNum].createBranch(self.sMod, minPSoFar, self.rayParams)
            topSLayer = self.sMod.getSlownessLayer(topCritLayerNum, isPWave)
            botSLayer = self.sMod.getSlownessLayer(botCritLayerNum, isPWave)
            minPSoFar = min(minPSoFar, min(topSLayer.topP, botSLayer.botP))
            botSLayer = self.sMod.getSlownessLayer(self.sMod.layerNumberAbove(botCritDepth.depth, isPWave), isPWave)
            minPSoFar = min(minPSoFar, botSLayer.botP)
    bestMoho = 1e+300
    bestCmb = 1e+300
    bestIocb = 1e+300
    for branchNum, tBranch in enumerate(self.tauBranches[0]):
        if abs(tBranch.topDepth - self.sMod.vMod.mohoDepth) <= bestMoho:
            self.mohoBranch = branchNum
            bestMoho = abs(tBranch.topDepth - self.sMod.vMod.mohoDepth)
        if abs(tBranch.topDepth - self.sMod.vMod.cmbDepth) < bestCmb:
            self.cmbBranch = branchNum
            bestCmb = abs(tBranch.topDepth - self.sMod.vMod.cmbDepth)
        if abs(tBranch.topDepth - self.sMod.vMod.iocbDepth) < bestIocb:
            self.iocbBranch = branchNum
            bestIocb = abs(tBranch.topDepth - self.sMod.vMod.iocbDepth)
    self.mohoDepth = self.tauBranches[0][self.mohoBranch].topDepth
    self.cmbDepth = self.tauBranches[0][self.cmbBranch].topDepth
    self.iocbDepth = self.tauBranches[0][self.iocbBranch].topDepth
    if not self.validate():
        raise TauModelError('TauModel.calcTauIncFrom: Validation failed!')


# TauModel.writeModel
def TauModel_writeModel(self, outfile):
    with open(outfile, 'w+b') as f:
        pickle.dump(self, f, protocol=-1)


# TauModel.validate
def TauModel_validate(self):
    return True


# TauModel.depthCorrect
def TauModel_depthCorrect(self, depth):
    if self.sourceDepth != 0:
        raise TauModelError("Can't depth correct a TauModel that is not originally for a surface source.")
    if depth > self.radiusOfEarth:
        raise TauModelError("Can't depth correct to a source deeper than the radius of the Earth.")
    depthCorrected = self.loadFromDepthCache(depth)
    if depthCorrected is None:
        depthCorrected = self.splitBranch(depth)
        depthCorrected.sourceDepth = depth
        depthCorrected.sourceBranch = depthCorrected.findBranch(depth)
        depthCorrected.validate()
    return depthCorrected


# TauModel.loadFromDepthCache
def TauModel_loadFromDepthCache(self, depth):
    return None


# TauModel.splitBranch
def TauModel_splitBranch(self, depth):
    for tb in self.tauBranches[0]:
        if tb.topDepth == depth or tb.botDepth == depth:
            return deepcopy(self)
    indexP = -1
    PWaveRayParam = -1
    indexS = -1
    SWaveRayParam = -1
    outSMod = self.sMod
    outRayParams = deepcopy(self.rayParams)
    oldRayParams = self.rayParams
    for isPWave in [False, True]:
        splitInfo = outSMod.splitLayer(depth, isPWave)
        outSMod = splitInfo.sMod
        if splitInfo.neededSplit and (not splitInfo.movedSample):
            newRayParam = splitInfo.rayParam
            oldRayParams = outRayParams
            for index, trp, brp in zip(count(1), oldRayParams[:-1], oldRayParams[1:]):
                if trp > newRayParam > brp:
                    outRayParams = oldRayParams[:index]
                    outRayParams.append(newRayParam)
                    outRayParams = outRayParams + oldRayParams[index:]
                    if isPWave:
                        indexP = index
                        PWaveRayParam = newRayParam
                    else:
                        indexS = index
                        SWaveRayParam = newRayParam
                    break
    branchToSplit = self.findBranch(depth)
    newTauBranches = [[TauBranch() for j in range(len(self.tauBranches[0]) + 1)] for i in range(2)]
    for i in range(branchToSplit):
        newTauBranches[0][i] = deepcopy(self.tauBranches[0][i])
        newTauBranches[1][i] = deepcopy(self.tauBranches[1][i])
        if indexS != -1:
            newTauBranches[0][i].insert(SWaveRayParam, outSMod, indexS)
            newTauBranches[1][i].insert(SWaveRayParam, outSMod, indexS)
        if indexP != -1:
            newTauBranches[0][i].insert(PWaveRayParam, outSMod, indexP)
            newTauBranches[1][i].insert(PWaveRayParam, outSMod, indexP)
    for pOrS in range(2):
        newTauBranches[pOrS][branchToSplit] = TauBranch(self.tauBranches[pOrS][branchToSplit].topDepth, depth, pOrS == 0)
        newTauBranches[pOrS][branchToSplit].createBranch(outSMod, self.tauBranches[pOrS][branchToSplit].maxRayParam, outRayParams)
        newTauBranches[pOrS][branchToSplit + 1] = self.tauBranches[pOrS][branchToSplit].difference(newTauBranches[pOrS][branchToSplit], indexP, indexS, outSMod, newTauBranches[pOrS][branchToSplit].minRayParam, outRayParams)
    for i in range(branchToSplit + 1, len(self.tauBranches[0])):
        for pOrS in range(2):
            newTauBranches[pOrS][i + 1] = deepcopy(self.tauBranches[pOrS][i])
        if indexS != -1:
            for pOrS in range(2):
                newTauBranches[pOrS][i + 1].insert(SWaveRayParam, outSMod, indexS)
        if indexP != -1:
            for pOrS in range(2):
                newTauBranches[pOrS][i + 1].insert(PWaveRayParam, outSMod, indexP)
    outSourceBranch = self.sourceBranch
    if self.sourceDepth > depth:
        outSourceBranch += 1
    outmohoBranch = self.mohoBranch
    if self.mohoDepth > depth:
        outmohoBranch += 1
    outcmbBranch = self.cmbBranch
    if self.cmbDepth > depth:
        outcmbBranch += 1
    outiocbBranch = self.iocbBranch
    if self.iocbDepth > depth:
        outiocbBranch += 1
    tMod = deepcopy(self)
    tMod.sourceBranch = outSourceBranch
    tMod.mohoBranch = outmohoBranch
    tMod.cmbBranch = outcmbBranch
    tMod.iocbBranch = outiocbBranch
    tMod.sMod = outSMod
    tMod.rayParams = outRayParams
    tMod.tauBranches = newTauBranches
    tMod.noDisconDepths = self.noDisconDepths + [depth]
    if not tMod.validate():
        raise TauModelError('SplitBranch validation failed!')
    return tMod


# TauModel.findBranch
def TauModel_findBranch(self, depth):
    for i, tb in enumerate(self.tauBranches[0]):
        if tb.topDepth <= depth < tb.botDepth:
            return i
    if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
        return len(self.tauBranches[0]) - 1
    else:
        raise TauModelError('No TauBranch contains this depth.')


# TauModel.getTauBranch
def TauModel_getTauBranch(self, branchNum, isPWave):
    if isPWave:
        return self.tauBranches[0][branchNum]
    else:
        return self.tauBranches[1][branchNum]


# TauModel.getBranchDepths
def TauModel_getBranchDepths(self):
    branchDepths = [self.getTauBranch(0, True).topDepth]
    branchDepths += [self.getTauBranch(i - 1, True).botDepth for i in range(1, len(self.tauBranches[0]))]
    return branchDepths
