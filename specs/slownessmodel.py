"""Reference definitions for taupy/SlownessModel.py."""
from math import pi
import math
import numpy as np
from copy import deepcopy


# SlownessModel.__init__
def SlownessModel___init__(self, vMod, minDeltaP=0.1, maxDeltaP=11, maxDepthInterval=115, maxRangeInterval=2.5 * pi / 180, maxInterpError=0.05, allowInnerCoreS=True, slowness_tolerance=DEFAULT_SLOWNESS_TOLERANCE):
    self.vMod = vMod
    self.minDeltaP = minDeltaP
    self.maxDeltaP = maxDeltaP
    self.maxDepthInterval = maxDepthInterval
    self.maxRangeInterval = maxRangeInterval
    self.maxInterpError = maxInterpError
    self.allowInnerCoreS = allowInnerCoreS
    self.slowness_tolerance = slowness_tolerance
    self.createSample()


# SlownessModel.createSample
def SlownessModel_createSample(self):
    if self.vMod.validate() is False:
        raise SlownessModelError('Error in velocity model (vMod.validate failed)!')
    if self.vMod.getNumLayers() == 0:
        raise SlownessModelError('velModel.getNumLayers()==0')
    if self.vMod.layers[0].topSVelocity == 0:
        raise SlownessModelError('Unable to handle zero S velocity layers at surface. This should be fixed at some point, but is a limitation of TauP at this point.')
    self.radiusOfEarth = self.vMod.radiusOfEarth
    self.findCriticalPoints()
    self.coarseSample()
    self.rayParamIncCheck()
    self.depthIncCheck()
    self.distanceCheck()
    self.fixCriticalPoints()
    if self.validate() is True:
        pass
    else:
        raise SlownessModelError('SlownessModel.validate failed!')


# SlownessModel.findCriticalPoints
def SlownessModel_findCriticalPoints(self):
    highSlownessZoneP = DepthRange()
    highSlownessZoneS = DepthRange()
    fluidZone = DepthRange()
    inFluidZone = False
    belowOuterCore = False
    inHighSlownessZoneP = False
    inHighSlownessZoneS = False
    minPSoFar = 1.1e+300
    minSSoFar = 1.1e+300
    self.criticalDepths = []
    self.highSlownessLayerDepthsP = []
    self.highSlownessLayerDepthsS = []
    self.fluidLayerDepths = []
    currVLayer = self.vMod.layers[0]
    currVLayer = VelocityLayer(0, currVLayer.topDepth, currVLayer.topDepth, currVLayer.topPVelocity, currVLayer.topPVelocity, currVLayer.topSVelocity, currVLayer.topSVelocity, currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp, currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
    currSLayer = create_from_vlayer(currVLayer, self.SWAVE, self.radiusOfEarth)
    currPLayer = create_from_vlayer(currVLayer, self.PWAVE, self.radiusOfEarth)
    self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
    if inFluidZone is False and currVLayer.topSVelocity == 0:
        inFluidZone = True
        fluidZone = DepthRange(topDepth=currVLayer.topDepth)
        currSLayer = currPLayer
    if minSSoFar > currSLayer.topP:
        minSSoFar = currSLayer.topP
    if minPSoFar > currPLayer.topP:
        minPSoFar = currPLayer.topP
    for layerNum, layer in enumerate(self.vMod.layers):
        prevVLayer = currVLayer
        prevSLayer = currSLayer
        prevPLayer = currPLayer
        currVLayer = layer
        if inFluidZone is False and currVLayer.topSVelocity == 0:
            inFluidZone = True
            fluidZone = DepthRange(topDepth=currVLayer.topDepth)
        if inFluidZone is True and currVLayer.topSVelocity != 0:
            if prevVLayer.botDepth > self.vMod.iocbDepth:
                belowOuterCore = True
            inFluidZone = False
            fluidZone.botDepth = prevVLayer.botDepth
            self.fluidLayerDepths.append(fluidZone)
        currPLayer = create_from_vlayer(currVLayer, self.PWAVE, self.radiusOfEarth)
        if inFluidZone or (belowOuterCore and self.allowInnerCoreS is False):
            currSLayer = currPLayer
        else:
            currSLayer = create_from_vlayer(currVLayer, self.SWAVE, self.radiusOfEarth)
        if prevSLayer.botP != currSLayer.topP or prevPLayer.botP != currPLayer.topP:
            self.criticalDepths.append(CriticalDepth(currSLayer.topDepth, layerNum, -1, -1))
            if inHighSlownessZoneS and currSLayer.topP < minSSoFar:
                highSlownessZoneS.botDepth = currSLayer.topDepth
                self.highSlownessLayerDepthsS.append(highSlownessZoneS)
                inHighSlownessZoneS = False
            if inHighSlownessZoneP and currPLayer.topP < minPSoFar:
                highSlownessZoneP.botDepth = currSLayer.topDepth
                self.highSlownessLayerDepthsP.append(highSlownessZoneP)
                inHighSlownessZoneP = False
            if minPSoFar > currPLayer.topP:
                minPSoFar = currPLayer.topP
            if minSSoFar > currSLayer.topP:
                minSSoFar = currSLayer.topP
            if inHighSlownessZoneS is False and (prevSLayer.botP < currSLayer.topP or currSLayer.topP < currSLayer.botP):
                inHighSlownessZoneS = True
                highSlownessZoneS = DepthRange(topDepth=currSLayer.topDepth)
                highSlownessZoneS.rayParam = minSSoFar
            if inHighSlownessZoneP is False and (prevPLayer.botP < currPLayer.topP or currPLayer.topP < currPLayer.botP):
                inHighSlownessZoneP = True
                highSlownessZoneP = DepthRange(topDepth=currPLayer.topDepth)
                highSlownessZoneP.rayParam = minPSoFar
        elif (prevSLayer.topP - prevSLayer.botP) * (prevSLayer.botP - currSLayer.botP) < 0 or (prevPLayer.topP - prevPLayer.botP) * (prevPLayer.botP - currPLayer.botP) < 0:
            self.criticalDepths.append(CriticalDepth(currSLayer.topDepth, layerNum, -1, -1))
            if inHighSlownessZoneP is False and currPLayer.topP < currPLayer.botP:
                inHighSlownessZoneP = True
                highSlownessZoneP = DepthRange(topDepth=currPLayer.topDepth)
                highSlownessZoneP.rayParam = minPSoFar
            if inHighSlownessZoneS is False and currSLayer.topP < currSLayer.botP:
                inHighSlownessZoneS = True
                highSlownessZoneS = DepthRange(topDepth=currSLayer.topDepth)
                highSlownessZoneS.rayParam = minSSoFar
        if inHighSlownessZoneP and currPLayer.botP < minPSoFar:
            highSlownessZoneP.botDepth = self.findDepth(minPSoFar, layerNum, layerNum, self.PWAVE)
            self.highSlownessLayerDepthsP.append(highSlownessZoneP)
            inHighSlownessZoneP = False
        if inHighSlownessZoneS and currSLayer.botP < minSSoFar:
            porS = self.PWAVE if currSLayer == currPLayer else self.SWAVE
            highSlownessZoneS.botDepth = self.findDepth(minSSoFar, layerNum, layerNum, porS)
            self.highSlownessLayerDepthsS.append(highSlownessZoneS)
            inHighSlownessZoneS = False
        if minPSoFar > currPLayer.botP:
            minPSoFar = currPLayer.botP
        if minPSoFar > currPLayer.topP:
            minPSoFar = currPLayer.topP
        if minSSoFar > currSLayer.botP:
            minSSoFar = currSLayer.botP
        if minSSoFar > currSLayer.topP:
            minSSoFar = currSLayer.topP
    self.criticalDepths.append(CriticalDepth(self.radiusOfEarth, self.vMod.getNumLayers(), -1, -1))
    if inHighSlownessZoneS:
        highSlownessZoneS.botDepth = currVLayer.botDepth
        self.highSlownessLayerDepthsS.append(highSlownessZoneS)
    if inHighSlownessZoneP:
        highSlownessZoneP.botDepth = currVLayer.botDepth
        self.highSlownessLayerDepthsP.append(highSlownessZoneP)
    if inFluidZone:
        fluidZone.botDepth = currVLayer.botDepth
        self.fluidLayerDepths.append(fluidZone)
    if self.validate() is False:
        raise SlownessModelError('Validation failed after findDepth')


# SlownessModel.getNumLayers
def SlownessModel_getNumLayers(self, isPWave):
    if isPWave:
        return len(self.PLayers)
    else:
        return len(self.SLayers)


# SlownessModel.findDepth_from_depths
def SlownessModel_findDepth_from_depths(self, rayParam, topDepth, botDepth, isPWave):
    topLayerNum = self.vMod.layerNumberBelow(topDepth)
    if self.vMod.layers[topLayerNum].botDepth == topDepth:
        topLayerNum += 1
    botLayerNum = self.vMod.layerNumberAbove(botDepth)
    return self.findDepth(rayParam, topLayerNum, botLayerNum, isPWave)


# SlownessModel.findDepth
def SlownessModel_findDepth(self, p, topCriticalLayer, botCriticalLayer, isPWave):
    waveType = 'P' if isPWave else 'S'
    if not isinstance(topCriticalLayer, int) or not isinstance(botCriticalLayer, int):
        topDepth = topCriticalLayer
        botDepth = botCriticalLayer
        topCriticalLayer = self.vMod.layerNumberBelow(topDepth)
        if self.vMod.layers[topCriticalLayer].botDepth == topDepth:
            topCriticalLayer += 1
        botCriticalLayer = self.vMod.layerNumberAbove(botDepth)
    if topCriticalLayer > botCriticalLayer:
        raise SlownessModelError('findDepth: no layers to search (wrong layer num?)')
    for layerNum in range(topCriticalLayer, botCriticalLayer + 1):
        velLayer = self.vMod.layers[layerNum]
        topVelocity = velLayer.evaluateAtTop(waveType)
        botVelocity = velLayer.evaluateAtBottom(waveType)
        topP = self.toSlowness(topVelocity, velLayer.topDepth)
        botP = self.toSlowness(botVelocity, velLayer.botDepth)
        if abs(topP - p) < self.slowness_tolerance:
            return velLayer.topDepth
        if abs(p - botP) < self.slowness_tolerance:
            return velLayer.botDepth
        if (topP - p) * (p - botP) >= 0:
            slope = (botVelocity - topVelocity) / (velLayer.botDepth - velLayer.topDepth)
            depth = self.interpolate(p, topVelocity, velLayer.topDepth, slope)
            return depth
        elif layerNum == topCriticalLayer and abs(p - topP) < self.slowness_tolerance:
            return velLayer.topDepth
        if layerNum < self.vMod.getNumLayers() - 1:
            velLayer = self.vMod.layers[layerNum + 1]
            topVelocity = velLayer.evaluateAtTop(waveType)
            if isPWave is False and self.depthInFluid(velLayer.topDepth):
                topVelocity = velLayer.evaluateAtTop('P')
            topP = self.toSlowness(topVelocity, velLayer.topDepth)
            if botP >= p >= topP:
                return velLayer.topDepth
    if abs(p - botP) < self.slowness_tolerance:
        return velLayer.botDepth
    raise SlownessModelError('slowness p=' + str(p) + 'is not contained within the specified layers.' + ' topCriticalLayer=' + str(topCriticalLayer) + ' botCriticalLayer=' + str(botCriticalLayer))


# SlownessModel.toSlowness
def SlownessModel_toSlowness(self, velocity, depth):
    if velocity == 0:
        raise SlownessModelError("toSlowness: velocity can't be zero, at depth" + str(depth), 'Maybe related to using S velocities in outer core?')
    return (self.radiusOfEarth - depth) / velocity


# SlownessModel.interpolate
def SlownessModel_interpolate(self, p, topVelocity, topDepth, slope):
    denominator = p * slope + 1
    if denominator == 0:
        raise SlownessModelError('Negative velocity gradient that just balances the slowness gradient of the spherical slowness, i.e. Earth flattening. Instructions unclear; explode.')
    else:
        depth = (self.radiusOfEarth + p * (topDepth * slope - topVelocity)) / denominator
        return depth


# SlownessModel.depthInFluid
def SlownessModel_depthInFluid(self, depth):
    for elem in self.fluidLayerDepths:
        if elem.topDepth <= depth < elem.botDepth:
            return True
    return False


# SlownessModel.coarseSample
def SlownessModel_coarseSample(self):
    self.PLayers = []
    self.SLayers = []
    origVLayer = self.vMod.layers[0]
    origVLayer = VelocityLayer(0, origVLayer.topDepth, origVLayer.topDepth, origVLayer.topPVelocity, origVLayer.topPVelocity, origVLayer.topSVelocity, origVLayer.topSVelocity, origVLayer.topDensity, origVLayer.topDensity, origVLayer.topQp, origVLayer.topQp, origVLayer.topQs, origVLayer.topQs)
    for layer in self.vMod.layers:
        prevVLayer = origVLayer
        origVLayer = layer
        if prevVLayer.botPVelocity != origVLayer.topPVelocity or (prevVLayer.botSVelocity != origVLayer.topSVelocity and (self.allowInnerCoreS or origVLayer.topDepth < self.vMod.iocbDepth)):
            if prevVLayer.botSVelocity == 0:
                topSVel = prevVLayer.botPVelocity
            else:
                topSVel = prevVLayer.botSVelocity
            if origVLayer.topSVelocity == 0:
                botSVel = origVLayer.topPVelocity
            else:
                botSVel = origVLayer.topSVelocity
            currVLayer = VelocityLayer(layer.layer_number, prevVLayer.botDepth, prevVLayer.botDepth, prevVLayer.botPVelocity, origVLayer.topPVelocity, topSVel, botSVel)
            currPLayer = create_from_vlayer(currVLayer, self.PWAVE, self.radiusOfEarth)
            self.PLayers.append(currPLayer)
            if prevVLayer.botSVelocity == 0 and origVLayer.topSVelocity == 0 or (self.allowInnerCoreS is False and currVLayer.topDepth >= self.vMod.iocbDepth):
                currSLayer = currPLayer
            else:
                currSLayer = create_from_vlayer(currVLayer, self.SWAVE, self.radiusOfEarth)
            self.SLayers.append(currSLayer)
        currPLayer = create_from_vlayer(origVLayer, self.PWAVE, self.radiusOfEarth)
        self.PLayers.append(currPLayer)
        if self.depthInFluid(origVLayer.topDepth) or (self.allowInnerCoreS is False and origVLayer.topDepth >= self.vMod.iocbDepth):
            currSLayer = currPLayer
        else:
            currSLayer = create_from_vlayer(origVLayer, self.SWAVE, self.radiusOfEarth)
        self.SLayers.append(currSLayer)
    for highZone in self.highSlownessLayerDepthsS:
        sLayerNum = self.layerNumberAbove(highZone.botDepth, self.SWAVE)
        highSLayer = self.SLayers[sLayerNum]
        while highSLayer.topDepth == highSLayer.botDepth and (highSLayer.topP - highZone.rayParam) * (highZone.rayParam - highSLayer.botP) < 0:
            sLayerNum += 1
            highSLayer = self.SLayers[sLayerNum]
        if highZone.rayParam != highSLayer.botP:
            self.addSlowness(highZone.rayParam, self.SWAVE)
    for highZone in self.highSlownessLayerDepthsP:
        sLayerNum = self.layerNumberAbove(highZone.botDepth, self.PWAVE)
        highSLayer = self.PLayers[sLayerNum]
        while highSLayer.topDepth == highSLayer.botDepth and (highSLayer.topP - highZone.rayParam) * (highZone.rayParam - highSLayer.botP) < 0:
            sLayerNum += 1
            highSLayer = self.PLayers[sLayerNum]
        if highZone.rayParam != highSLayer.botP:
            self.addSlowness(highZone.rayParam, self.PWAVE)
    botP = -1
    for layer in self.PLayers:
        topP = layer.topP
        if topP != botP:
            self.addSlowness(topP, self.SWAVE)
        botP = layer.botP
        self.addSlowness(botP, self.SWAVE)
    botP = -1
    for layer in self.SLayers:
        topP = layer.topP
        if topP != botP:
            self.addSlowness(topP, self.PWAVE)
        botP = layer.botP
        self.addSlowness(botP, self.PWAVE)


# SlownessModel.layerNumberAbove
def SlownessModel_layerNumberAbove(self, depth, isPWave):
    foundLayerNum = self.layerNumForDepth(depth, isPWave)
    tempLayer = self.getSlownessLayer(foundLayerNum, isPWave)
    while tempLayer.topDepth == depth and foundLayerNum > 0:
        foundLayerNum -= 1
        tempLayer = self.getSlownessLayer(foundLayerNum, isPWave)
    return foundLayerNum


# SlownessModel.layerNumberBelow
def SlownessModel_layerNumberBelow(self, depth, isPWave):
    foundLayerNum = self.layerNumForDepth(depth, isPWave)
    if isPWave:
        layers = self.PLayers
    else:
        layers = self.SLayers
    tempLayer = self.getSlownessLayer(foundLayerNum, isPWave)
    while tempLayer.botDepth == depth and foundLayerNum < len(layers) - 1:
        foundLayerNum += 1
        tempLayer = self.getSlownessLayer(foundLayerNum, isPWave)
    return foundLayerNum


# SlownessModel.layerNumForDepth
def SlownessModel_layerNumForDepth(self, depth, isPWave):
    if isPWave:
        layers = self.PLayers
    else:
        layers = self.SLayers
    if depth < layers[0].topDepth or depth > layers[-1].botDepth:
        raise SlownessModelError('No layer contains this depth')
    tooSmallNum = 0
    tooLargeNum = len(layers) - 1
    while True:
        if tooLargeNum - tooSmallNum < 3:
            currentNum = tooSmallNum
            while currentNum <= tooLargeNum:
                tempLayer = self.getSlownessLayer(currentNum, isPWave)
                if tempLayer.topDepth <= depth <= tempLayer.botDepth:
                    return currentNum
                currentNum += 1
        else:
            currentNum = int(Decimal((tooSmallNum + tooLargeNum) / 2.0).to_integral_value(ROUND_HALF_EVEN))
        tempLayer = self.getSlownessLayer(currentNum, isPWave)
        if tempLayer.topDepth > depth:
            tooLargeNum = currentNum - 1
        elif tempLayer.botDepth < depth:
            tooSmallNum = currentNum + 1
        else:
            return currentNum
        if tooSmallNum > tooLargeNum:
            raise ArithmeticError('tooSmallNum: ' + str(tooSmallNum) + ' >= tooLargeNum: ' + str(tooLargeNum))


# SlownessModel.getSlownessLayer
def SlownessModel_getSlownessLayer(self, layerNum, isPWave):
    if isPWave:
        return self.PLayers[layerNum]
    else:
        return self.SLayers[layerNum]


# SlownessModel.addSlowness
def SlownessModel_addSlowness(self, p, isPWave):
    if isPWave:
        layers = self.PLayers
        otherLayers = self.SLayers
    else:
        layers = self.SLayers
        otherLayers = self.PLayers
    for i, sLayer in enumerate(layers):
        if sLayer.topDepth != sLayer.botDepth:
            topVelocity = self.vMod.evaluateBelow(sLayer.topDepth, 'P' if isPWave else 'S')
            botVelocity = self.vMod.evaluateAbove(sLayer.botDepth, 'P' if isPWave else 'S')
        else:
            topVelocity = self.vMod.evaluateAbove(sLayer.botDepth, 'P' if isPWave else 'S')
            botVelocity = self.vMod.evaluateBelow(sLayer.topDepth, 'P' if isPWave else 'S')
        if not isPWave:
            if self.allowInnerCoreS is False and sLayer.botDepth > self.vMod.iocbDepth:
                break
            elif topVelocity == 0:
                continue
        if (sLayer.topP - p) * (p - sLayer.botP) > 0:
            botDepth = sLayer.botDepth
            if sLayer.botDepth != sLayer.topDepth:
                slope = (botVelocity - topVelocity) / (sLayer.botDepth - sLayer.topDepth)
                botDepth = self.interpolate(p, topVelocity, sLayer.topDepth, slope)
            botLayer = SlownessLayer(p, botDepth, sLayer.botP, sLayer.botDepth)
            topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p, botDepth)
            layers.pop(i)
            layers.insert(i, botLayer)
            layers.insert(i, topLayer)
            try:
                otherIndex = otherLayers.index(sLayer)
            except ValueError:
                otherIndex = -1
            if otherIndex != -1:
                otherLayers.pop(otherIndex)
                otherLayers.insert(otherIndex, botLayer)
                otherLayers.insert(otherIndex, topLayer)


# SlownessModel.rayParamIncCheck
def SlownessModel_rayParamIncCheck(self):
    for layers in [self.SLayers, self.PLayers]:
        for sLayer in layers:
            if abs(sLayer.topP - sLayer.botP) > self.maxDeltaP:
                numNewP = math.ceil(abs(sLayer.topP - sLayer.botP) / self.maxDeltaP)
                deltaP = (sLayer.topP - sLayer.botP) / numNewP
                rayNum = 1
                while rayNum < numNewP:
                    self.addSlowness(sLayer.topP - rayNum * deltaP, self.PWAVE)
                    self.addSlowness(sLayer.topP - rayNum * deltaP, self.SWAVE)
                    rayNum += 1


# SlownessModel.depthIncCheck
def SlownessModel_depthIncCheck(self):
    for which_codeblock, layers in enumerate([self.SLayers, self.PLayers]):
        for sLayer in layers:
            if sLayer.botDepth - sLayer.topDepth > self.maxDepthInterval:
                newNumDepths = math.ceil((sLayer.botDepth - sLayer.topDepth) / self.maxDepthInterval)
                deltaDepth = (sLayer.botDepth - sLayer.topDepth) / newNumDepths
                depthNum = 1
                while depthNum < newNumDepths:
                    if which_codeblock == 0:
                        velocity = self.vMod.evaluateAbove(sLayer.topDepth + depthNum * deltaDepth, 'S')
                        if velocity == 0 or (self.allowInnerCoreS is False and sLayer.topDepth + depthNum * deltaDepth >= self.vMod.iocbDepth):
                            velocity = self.vMod.evaluateAbove(sLayer.topDepth + depthNum * deltaDepth, 'P')
                        p = self.toSlowness(velocity, sLayer.topDepth + depthNum * deltaDepth)
                    else:
                        p = self.toSlowness(self.vMod.evaluateAbove(sLayer.topDepth + depthNum * deltaDepth, 'P'), sLayer.topDepth + depthNum * deltaDepth)
                    self.addSlowness(p, self.PWAVE)
                    self.addSlowness(p, self.SWAVE)
                    depthNum += 1


# SlownessModel.distanceCheck
def SlownessModel_distanceCheck(self):
    for currWaveType in [self.SWAVE, self.PWAVE]:
        isCurrOK = False
        isPrevOK = False
        prevPrevTD = None
        prevTD = None
        currTD = None
        j = 0
        sLayer = self.getSlownessLayer(j, currWaveType)
        while j < self.getNumLayers(currWaveType):
            prevSLayer = sLayer
            sLayer = self.getSlownessLayer(j, currWaveType)
            if self.depthInHighSlowness(sLayer.botDepth, sLayer.botP, currWaveType) is False and self.depthInHighSlowness(sLayer.topDepth, sLayer.topP, currWaveType) is False:
                if isCurrOK:
                    if isPrevOK:
                        prevPrevTD = prevTD
                    else:
                        prevPrevTD = None
                    prevTD = currTD
                    isPrevOK = True
                else:
                    prevTD = self.approxDistance(j - 1, sLayer.topP, currWaveType)
                    isPrevOK = True
                currTD = self.approxDistance(j, sLayer.botP, currWaveType)
                isCurrOK = True
                if abs(prevTD.distRadian - currTD.distRadian) > self.maxRangeInterval and abs(sLayer.topP - sLayer.botP) > 2 * self.minDeltaP:
                    self.addSlowness((sLayer.topP + sLayer.botP) / 2, self.PWAVE)
                    self.addSlowness((sLayer.topP + sLayer.botP) / 2, self.SWAVE)
                    currTD = prevTD
                    prevTD = prevPrevTD
                else:
                    splitRayParam = (sLayer.topP + sLayer.botP) / 2
                    allButLayer = self.approxDistance(j - 1, splitRayParam, currWaveType)
                    splitLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, splitRayParam, sLayer.bullenDepthFor(splitRayParam, self.radiusOfEarth))
                    justLayer = splitLayer.bullenRadialSlowness(splitRayParam, self.radiusOfEarth)
                    splitTD = TimeDist(splitRayParam, allButLayer.time + 2 * justLayer.time, allButLayer.distRadian + 2 * justLayer.distRadian)
                    with np.errstate(divide='ignore', invalid='ignore'):
                        diff = currTD.time - ((splitTD.time - prevTD.time) * ((currTD.distRadian - prevTD.distRadian) / np.array(splitTD.distRadian - prevTD.distRadian)) + prevTD.time)
                    if abs(diff) > self.maxInterpError:
                        self.addSlowness((prevSLayer.topP + prevSLayer.botP) / 2, self.PWAVE)
                        self.addSlowness((prevSLayer.topP + prevSLayer.botP) / 2, self.SWAVE)
                        self.addSlowness((sLayer.topP + sLayer.botP) / 2, self.PWAVE)
                        self.addSlowness((sLayer.topP + sLayer.botP) / 2, self.SWAVE)
                        currTD = prevPrevTD
                        isPrevOK = False
                        if j > 0:
                            j -= 1
                            sLayer = self.getSlownessLayer(j - 1 if j - 1 >= 0 else 0, currWaveType)
                        else:
                            isPrevOK = False
                            isCurrOK = False
                    else:
                        j += 1
            else:
                prevPrevTD = None
                prevTD = None
                currTD = None
                isCurrOK = False
                isPrevOK = False
                j += 1


# SlownessModel.depthInHighSlowness
def SlownessModel_depthInHighSlowness(self, depth, rayParam, isPWave):
    if isPWave:
        highSlownessLayerDepths = self.highSlownessLayerDepthsP
    else:
        highSlownessLayerDepths = self.highSlownessLayerDepthsS
    for tempRange in highSlownessLayerDepths:
        if tempRange.topDepth <= depth <= tempRange.botDepth:
            if rayParam > tempRange.rayParam or (rayParam == tempRange.rayParam and depth == tempRange.topDepth):
                return True
    return False


# SlownessModel.approxDistance
def SlownessModel_approxDistance(self, slownessTurnLayer, p, isPWave):
    if slownessTurnLayer >= self.getNumLayers(isPWave):
        raise SlownessModelError("Can't calculate a distance when getNumLayers() is smaller than the given slownessTurnLayer!")
    if p < 0:
        raise SlownessModelError('Ray parameter must not be negative!')
    td = TimeDist(p)
    for layerNum in range(0, slownessTurnLayer + 1):
        td.add(self.layerTimeDist(p, layerNum, isPWave))
    td.distRadian *= 2
    td.time *= 2
    return td


# SlownessModel.layerTimeDist
def SlownessModel_layerTimeDist(self, sphericalRayParam, layerNum, isPWave):
    timeDist = TimeDist(sphericalRayParam)
    sphericalLayer = self.getSlownessLayer(layerNum, isPWave)
    topRadius = self.radiusOfEarth - sphericalLayer.topDepth
    botRadius = self.radiusOfEarth - sphericalLayer.botDepth
    if sphericalRayParam > max(sphericalLayer.topP, sphericalLayer.botP):
        raise SlownessModelError('Ray cannot propagate within this layer, given ray param too large.')
    if sphericalRayParam < 0:
        raise SlownessModelError('Ray parameter must not be negative!')
    if sphericalRayParam > min(sphericalLayer.topP, sphericalLayer.botP):
        raise SlownessModelError('Ray turns in the middle of this layer! layerNum = ' + str(layerNum))
    if sphericalLayer.topDepth == sphericalLayer.botDepth:
        timeDist.time = 0
        timeDist.distRadian = 0
        return timeDist
    if sphericalRayParam == 0 and sphericalLayer.botDepth == self.radiusOfEarth:
        if layerNum != self.getNumLayers(isPWave) - 1:
            raise SlownessModelError('There are layers deeper than the centre of the Earth!')
        timeDist.distRadian = pi / 2
        timeDist.time = sphericalLayer.topP
        if timeDist.distRadian < 0 or timeDist.time < 0 or math.isnan(timeDist.time) or math.isnan(timeDist.distRadian):
            raise SlownessModelError('Centre of Earth timeDist < 0 or NaN.')
        return timeDist
    if abs(topRadius / sphericalLayer.topP - botRadius / sphericalLayer.botP) < self.slowness_tolerance:
        vel = botRadius / sphericalLayer.botP
        topTerm = topRadius * topRadius - sphericalRayParam * sphericalRayParam * vel * vel
        if abs(topTerm) < self.slowness_tolerance:
            topTerm = 0
        if sphericalRayParam == sphericalLayer.botP:
            botTerm = 0
        else:
            botTerm = botRadius * botRadius - sphericalRayParam * sphericalRayParam * vel * vel
        b = math.sqrt(topTerm) - math.sqrt(botTerm)
        timeDist.time = b / vel
        timeDist.distRadian = math.asin(b * sphericalRayParam * vel / (topRadius * botRadius))
        if timeDist.distRadian < 0 or timeDist.time < 0 or math.isnan(timeDist.time) or math.isnan(timeDist.distRadian):
            raise SlownessModelError('Constant velocity layer timeDist < 0 or NaN.')
        return timeDist
    return sphericalLayer.bullenRadialSlowness(sphericalRayParam, self.radiusOfEarth)


# SlownessModel.fixCriticalPoints
def SlownessModel_fixCriticalPoints(self):
    for cd in self.criticalDepths:
        cd.pLayerNum = self.layerNumberBelow(cd.depth, self.PWAVE)
        sLayer = self.getSlownessLayer(cd.pLayerNum, self.PWAVE)
        if cd.pLayerNum == len(self.PLayers) - 1 and sLayer.botDepth == cd.depth:
            cd.pLayerNum += 1
        cd.sLayerNum = self.layerNumberBelow(cd.depth, self.SWAVE)
        sLayer = self.getSlownessLayer(cd.sLayerNum, self.SWAVE)
        if cd.sLayerNum == len(self.SLayers) - 1 and sLayer.botDepth == cd.depth:
            cd.sLayerNum += 1


# SlownessModel.validate
def SlownessModel_validate(self):
    if self.radiusOfEarth <= 0:
        raise SlownessModelError('Radius of Earth must be positive.')
    if self.maxDepthInterval <= 0:
        raise SlownessModelError('maxDepthInterval must be positive and non-zero.')
    for isPWave in [self.PWAVE, self.SWAVE]:
        if isPWave:
            highSlownessLayerDepths = self.highSlownessLayerDepthsP
        else:
            highSlownessLayerDepths = self.highSlownessLayerDepthsS
        prevDepth = -1e+300
        for highSZoneDepth in highSlownessLayerDepths:
            if highSZoneDepth.topDepth >= highSZoneDepth.botDepth:
                raise SlownessModelError('High Slowness zone has zero or negative thickness!')
            if highSZoneDepth.topDepth <= prevDepth:
                raise SlownessModelError('High Slowness zone overlaps previous zone.')
            prevDepth = highSZoneDepth.botDepth
    prevDepth = -1e+300
    for fluidZone in self.fluidLayerDepths:
        if fluidZone.topDepth >= fluidZone.botDepth:
            raise SlownessModelError('Fluid zone has zero or negative thickness!')
        if fluidZone.topDepth <= prevDepth:
            raise SlownessModelError('Fluid zone overlaps previous zone.')
        prevDepth = fluidZone.botDepth
    for isPWave in [self.PWAVE, self.SWAVE]:
        prevDepth = 0
        if self.getNumLayers(isPWave) > 0:
            sLayer = self.getSlownessLayer(0, isPWave)
            prevBotP = sLayer.topP
        else:
            prevBotP = -1
        for sLayer in self.PLayers if isPWave else self.SLayers:
            if sLayer.validate() is False:
                raise SlownessModelError('Validation of SlownessLayer failed!')
            if sLayer.topDepth > prevDepth:
                raise SlownessModelError('Gap between slowness layers!')
            if sLayer.topDepth < prevDepth:
                raise SlownessModelError('Slowness layer overlaps previous!')
            if sLayer.topP != prevBotP:
                raise SlownessModelError('Slowness layer slowness does not agree with previous layer (at same depth)!')
            if math.isnan(sLayer.topDepth) or math.isnan(sLayer.botDepth):
                raise SlownessModelError('Slowness layer depth (top or btm) is NaN!')
            if sLayer.botDepth > self.radiusOfEarth:
                raise SlownessModelError('Slowness layer has a depth larger than radius of the Earth.')
            prevBotP = sLayer.botP
            prevDepth = sLayer.botDepth
    return True


# SlownessModel.getMinTurnRayParam
def SlownessModel_getMinTurnRayParam(self, depth, isPWave):
    minPSoFar = 1e+300
    if self.depthInHighSlowness(depth, 1e+300, isPWave):
        for sLayer in self.PLayers if isPWave else self.SLayers:
            if sLayer.botDepth == depth:
                minPSoFar = min(minPSoFar, sLayer.botP)
                return minPSoFar
            elif sLayer.botDepth > depth:
                minPSoFar = min(minPSoFar, sLayer.evaluateAtBullen(depth, self.radiusOfEarth))
                return minPSoFar
            else:
                minPSoFar = min(minPSoFar, sLayer.botP)
    else:
        sLayer = self.getSlownessLayer(self.layerNumberAbove(depth, isPWave), isPWave)
        if depth == sLayer.botDepth:
            minPSoFar = sLayer.botP
        else:
            minPSoFar = sLayer.evaluateAtBullen(depth, self.radiusOfEarth)
    return minPSoFar


# SlownessModel.getMinRayParam
def SlownessModel_getMinRayParam(self, depth, isPWave):
    minPSoFar = self.getMinTurnRayParam(depth, isPWave)
    sLayerAbove = self.getSlownessLayer(self.layerNumberAbove(depth, isPWave), isPWave)
    sLayerBelow = self.getSlownessLayer(self.layerNumberBelow(depth, isPWave), isPWave)
    if sLayerAbove.botDepth == depth:
        minPSoFar = min(min(minPSoFar, sLayerAbove.botP), sLayerBelow.topP)
    return minPSoFar


# SlownessModel.splitLayer
def SlownessModel_splitLayer(self, depth, isPWave):
    layerNum = self.layerNumberAbove(depth, isPWave)
    sLayer = self.getSlownessLayer(layerNum, isPWave)
    if sLayer.topDepth == depth or sLayer.botDepth == depth:
        return SplitLayerInfo(self, False, False, 0)
    elif abs(sLayer.topDepth - depth) < 1e-06:
        outLayers = deepcopy(self.PLayers) if isPWave else deepcopy(self.SLayers)
        outLayers[layerNum] = SlownessLayer(sLayer.topP, depth, sLayer.botP, sLayer.botDepth)
        sLayer = self.getSlownessLayer(layerNum - 1, isPWave)
        outLayers[layerNum - 1] = SlownessLayer(sLayer.topP, sLayer.topDepth, sLayer.botP, depth)
        out = deepcopy(self)
        out.PLayers = outLayers if isPWave else self.PLayers
        out.SLayers = self.SLayers if isPWave else outLayers
        return SplitLayerInfo(out, False, True, sLayer.botP)
    elif abs(depth - sLayer.botDepth) < 1e-06:
        outLayers = deepcopy(self.PLayers) if isPWave else deepcopy(self.SLayers)
        outLayers[layerNum] = SlownessLayer(sLayer.topP, sLayer.topDepth, sLayer.botP, depth)
        sLayer = self.getSlownessLayer(layerNum + 1, isPWave)
        outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth, sLayer.botP, sLayer.botDepth)
        out = deepcopy(self)
        out.PLayers = outLayers if isPWave else self.PLayers
        out.SLayers = self.SLayers if isPWave else outLayers
        return SplitLayerInfo(out, False, True, sLayer.botP)
    else:
        p = sLayer.evaluateAtBullen(depth, self.radiusOfEarth)
        topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p, depth)
        botLayer = SlownessLayer(p, depth, sLayer.botP, sLayer.botDepth)
        outLayers = deepcopy(self.PLayers) if isPWave else deepcopy(self.SLayers)
        outLayers.pop(layerNum)
        outLayers.insert(layerNum, botLayer)
        outLayers.insert(layerNum, topLayer)
        outCriticalDepths = deepcopy(self.criticalDepths)
        self.fixCriticalDepths(outCriticalDepths, layerNum, isPWave)
        if isPWave:
            outPLayers = outLayers
            outSLayers = self.fixOtherLayers(self.SLayers, p, sLayer, topLayer, botLayer, outCriticalDepths, False)
        else:
            outPLayers = self.fixOtherLayers(self.PLayers, p, sLayer, topLayer, botLayer, outCriticalDepths, True)
            outSLayers = outLayers
        out = deepcopy(self)
        out.criticalDepths = outCriticalDepths
        out.PLayers = outPLayers
        out.SLayers = outSLayers
        return SplitLayerInfo(out, True, False, p)


# SlownessModel.fixCriticalDepths
def SlownessModel_fixCriticalDepths(criticalDepths, layerNum, isPWave):
    for i, cd in enumerate(criticalDepths):
        if (cd.pLayerNum if isPWave else cd.sLayerNum) > layerNum:
            if isPWave:
                criticalDepths[i] = CriticalDepth(cd.depth, cd.velLayerNum, cd.pLayerNum + 1, cd.sLayerNum)
            else:
                criticalDepths[i] = CriticalDepth(cd.depth, cd.velLayerNum, cd.pLayerNum, cd.sLayerNum + 1)


# SlownessModel.fixOtherLayers
def SlownessModel_fixOtherLayers(self, otherLayers, p, changedLayer, newTopLayer, newBotLayer, criticalDepths, isPWave):
    out = deepcopy(otherLayers)
    try:
        otherIndex = otherLayers.index(changedLayer)
        del out[otherIndex]
        out.insert(otherIndex, newBotLayer)
        out.insert(otherIndex, newTopLayer)
    except ValueError:
        pass
    otherLayerNum = 0
    while otherLayerNum < len(out):
        sLayer = out[otherLayerNum]
        if (sLayer.topP - p) * (p - sLayer.botP) > 0:
            topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p, sLayer.bullenDepthFor(p, self.radiusOfEarth))
            botLayer = SlownessLayer(p, topLayer.botDepth, sLayer.botP, sLayer.botDepth)
            del out[otherLayerNum]
            out.insert(otherLayerNum, botLayer)
            out.insert(otherLayerNum, topLayer)
            self.fixCriticalDepths(criticalDepths, otherLayerNum, isPWave)
            otherLayerNum += 1
        otherLayerNum += 1
    return out
