"""Reference definitions for taupy/TauBranch.py."""



# TauBranch.__init__
def TauBranch___init__(self, topDepth=0, botDepth=0, isPWave=0):
    self.topDepth = topDepth
    self.botDepth = botDepth
    self.isPWave = isPWave


# TauBranch.createBranch
def TauBranch_createBranch(self, sMod, minPSoFar, rayParams):
    topLayerNum = sMod.layerNumberBelow(self.topDepth, self.isPWave)
    botLayerNum = sMod.layerNumberAbove(self.botDepth, self.isPWave)
    topSLayer = sMod.getSlownessLayer(topLayerNum, self.isPWave)
    botSLayer = sMod.getSlownessLayer(botLayerNum, self.isPWave)
    if topSLayer.topDepth != self.topDepth or botSLayer.botDepth != self.botDepth:
        if topSLayer.topDepth != self.topDepth and abs(topSLayer.topDepth - self.topDepth) < 1e-06:
            self.topDepth = topSLayer.topDepth
        elif botSLayer.botDepth != self.botDepth and abs(botSLayer.botDepth - self.botDepth) < 1e-06:
            self.botDepth = botSLayer.botDepth
        else:
            raise TauModelError('createBranch: TauBranch not compatible with slowness sampling at topDepth' + str(self.topDepth))
    self.maxRayParam = minPSoFar
    self.minTurnRayParam = sMod.getMinTurnRayParam(self.botDepth, self.isPWave)
    self.minRayParam = sMod.getMinRayParam(self.botDepth, self.isPWave)
    timeDist = [self.calcTimeDist(sMod, topLayerNum, botLayerNum, p) for p in rayParams]
    self.dist = [_t.distRadian for _t in timeDist]
    self.time = [_t.time for _t in timeDist]
    self.tau = [time - p * dist for time, dist, p in zip(self.time, self.dist, rayParams)]


# TauBranch.calcTimeDist
def TauBranch_calcTimeDist(self, sMod, topLayerNum, botLayerNum, p):
    timeDist = TimeDist(p)
    if p <= self.maxRayParam:
        layerNum = topLayerNum
        layer = sMod.getSlownessLayer(layerNum, self.isPWave)
        while layerNum <= botLayerNum and p <= layer.topP and (p <= layer.botP):
            timeDist.add(sMod.layerTimeDist(p, layerNum, self.isPWave))
            layerNum += 1
            if layerNum <= botLayerNum:
                layer = sMod.getSlownessLayer(layerNum, self.isPWave)
        if (layer.topP - p) * (p - layer.botP) > 0:
            raise SlownessModelError('Ray turns in the middle of this layer!')
    return timeDist


# TauBranch.insert
def TauBranch_insert(self, rayParam, sMod, index):
    topLayerNum = sMod.layerNumberBelow(self.topDepth, self.isPWave)
    botLayerNum = sMod.layerNumberAbove(self.botDepth, self.isPWave)
    topSLayer = sMod.getSlownessLayer(topLayerNum, self.isPWave)
    botSLayer = sMod.getSlownessLayer(botLayerNum, self.isPWave)
    if topSLayer.topDepth != self.topDepth or botSLayer.botDepth != self.botDepth:
        raise TauModelError('TauBranch depths not compatible with slowness sampling.')
    td = TimeDist(rayParam, 0, 0)
    if topSLayer.botP >= rayParam and topSLayer.topP >= rayParam:
        for i in range(topLayerNum, botLayerNum + 1):
            if sMod.getSlownessLayer(i, self.isPWave).botP < rayParam:
                break
            else:
                temptd = sMod.layerTimeDist(rayParam, i, self.isPWave)
                td.distRadian += temptd.distRadian
                td.time += temptd.time
    self.shiftBranch(index)
    self.dist[index] = td.distRadian
    self.time[index] = td.time
    self.tau[index] = td.time - rayParam * td.distRadian


# TauBranch.shiftBranch
def TauBranch_shiftBranch(self, index):
    newDist = self.dist[:index]
    newDist.append(0)
    newDist += self.dist[index:]
    self.dist = newDist
    newTime = self.time[:index]
    newTime.append(0)
    newTime += self.time[index:]
    self.time = newTime
    newTau = self.tau[:index]
    newTau.append(0)
    newTau += self.tau[index:]
    self.tau = newTau


# TauBranch.difference
def TauBranch_difference(self, topBranch, indexP, indexS, sMod, minPSoFar, rayParams):
    if topBranch.topDepth != self.topDepth or topBranch.botDepth > self.botDepth:
        if topBranch.topDepth == self.topDepth or abs(topBranch.topDepth - self.topDepth) >= 1e-06:
            raise TauModelError('TauBranch not compatible with slowness sampling.')
    if topBranch.isPWave != self.isPWave:
        raise TauModelError("Can't subtract branches is isPWave doesn't agree.")
    topLayerNum = sMod.layerNumberBelow(topBranch.botDepth, self.isPWave)
    botLayerNum = sMod.layerNumberBelow(self.botDepth, self.isPWave)
    topSLayer = sMod.getSlownessLayer(topLayerNum, self.isPWave)
    botSLayer = sMod.getSlownessLayer(botLayerNum, self.isPWave)
    if botSLayer.topDepth == self.botDepth and botSLayer.botDepth > self.botDepth:
        botLayerNum -= 1
        botSLayer = sMod.getSlownessLayer(botLayerNum, self.isPWave)
    if topSLayer.topDepth != topBranch.botDepth or botSLayer.botDepth != self.botDepth:
        raise TauModelError('TauBranch not compatible with slowness sampling.')
    sLayer = sMod.getSlownessLayer(sMod.layerNumberBelow(topBranch.botDepth, True), True)
    if indexP >= 0 and sLayer.topP != rayParams[indexP]:
        raise TauModelError("P wave index doesn't match top layer.")
    sLayer = sMod.getSlownessLayer(sMod.layerNumberBelow(topBranch.botDepth, False), False)
    if indexS >= 0 and sLayer.topP != rayParams[indexS]:
        raise TauModelError("S wave index doesn't match top layer.")
    del sLayer
    botBranch = TauBranch(topBranch.botDepth, self.botDepth, self.isPWave)
    botBranch.maxRayParam = topBranch.minRayParam
    botBranch.minTurnRayParam = self.minTurnRayParam
    botBranch.minRayParam = self.minRayParam
    botBranch.dist, botBranch.time, botBranch.tau = ([], [], [])
    oldIndex = 0
    for i, rayParam in enumerate(rayParams):
        if i == indexP or i == indexS:
            timeDist = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum, rayParam)
            botBranch.dist.append(timeDist.distRadian)
            botBranch.time.append(timeDist.time)
            botBranch.tau.append(timeDist.time - rayParam * timeDist.distRadian)
        else:
            botBranch.dist.append(self.dist[oldIndex] - topBranch.dist[i])
            botBranch.time.append(self.time[oldIndex] - topBranch.time[i])
            botBranch.tau.append(self.tau[oldIndex] - topBranch.tau[i])
            oldIndex += 1
    return botBranch


# TauBranch.path
def TauBranch_path(self, rayParam, downgoing, sMod):
    if rayParam > self.maxRayParam:
        return None
    assert rayParam >= 0
    try:
        topLayerNum = sMod.layerNumberBelow(self.topDepth, self.isPWave)
        botLayerNum = sMod.layerNumberAbove(self.botDepth, self.isPWave)
    except SlownessModelError:
        raise SlownessModelError('SlownessModel and TauModel are likelyout of sync.')
    thePath = [TimeDist()] * (botLayerNum - topLayerNum + 1)
    pathIndex = 0
    sLayer = sMod.getSlownessLayer(topLayerNum, self.isPWave)
    if sLayer.topDepth != self.topDepth:
        raise SlownessModelError('Branch and slowness model are not in agreement.')
    sLayer = sMod.getSlownessLayer(botLayerNum, self.isPWave)
    if sLayer.botDepth != self.botDepth:
        raise SlownessModelError('Branch and slowness model are not in agreement.')
    if downgoing:
        sLayerNum = topLayerNum
        sLayer = sMod.getSlownessLayer(sLayerNum, self.isPWave)
        while sLayer.botP >= rayParam and sLayerNum <= botLayerNum:
            if not sLayer.hasZeroThickness():
                thePath[pathIndex] = sMod.layerTimeDist(rayParam, sLayerNum, self.isPWave)
                thePath[pathIndex].depth = sLayer.botDepth
                pathIndex += 1
            sLayerNum += 1
            if sLayerNum <= botLayerNum:
                sLayer = sMod.getSlownessLayer(sLayerNum, self.isPWave)
        if sLayerNum <= botLayerNum and (not sLayer.hasZeroThickness()):
            turnDepth = sLayer.bullenDepthFor(rayParam, sMod.radiusOfEarth)
            turnSLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, rayParam, turnDepth)
            thePath[pathIndex] = turnSLayer.bullenRadialSlowness(rayParam, sMod.radiusOfEarth)
            thePath[pathIndex].depth = turnSLayer.botDepth
            pathIndex += 1
    else:
        sLayerNum = botLayerNum
        sLayer = sMod.getSlownessLayer(sLayerNum, self.isPWave)
        while (sLayer.topP <= rayParam or sLayer.hasZeroThickness()) and sLayerNum > topLayerNum:
            sLayerNum -= 1
            sLayer = sMod.getSlownessLayer(sLayerNum, self.isPWave)
        if sLayer.botP < rayParam:
            turnDepth = sLayer.bullenDepthFor(rayParam, sMod.radiusOfEarth)
            turnSLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, rayParam, turnDepth)
            thePath[pathIndex] = turnSLayer.bullenRadialSlowness(rayParam, sMod.radiusOfEarth)
            thePath[pathIndex].depth = turnSLayer.topDepth
            pathIndex += 1
            sLayerNum -= 1
            if sLayerNum >= topLayerNum:
                sLayer = sMod.getSlownessLayer(sLayerNum, self.isPWave)
        while sLayerNum >= topLayerNum:
            if not sLayer.hasZeroThickness():
                thePath[pathIndex] = sMod.layerTimeDist(rayParam, sLayerNum, self.isPWave)
                thePath[pathIndex].depth = sLayer.topDepth
                pathIndex += 1
            sLayerNum -= 1
            if sLayerNum >= topLayerNum:
                sLayer = sMod.getSlownessLayer(sLayerNum, self.isPWave)
    tempPath = thePath[0:pathIndex]
    return tempPath
