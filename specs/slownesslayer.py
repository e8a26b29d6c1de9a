"""Reference definitions for taupy/SlownessLayer.py."""
import math
import numpy as np


# SlownessLayer.__init__
def SlownessLayer___init__(self, topP, topDepth, botP, botDepth):
    self.topP = topP
    self.botP = botP
    if topDepth >= 0:
        self.topDepth = topDepth
    else:
        raise ValueError('topDepth must not be negative')
    if botDepth >= 0:
        self.botDepth = botDepth
    else:
        raise ValueError('botDepth must not be negative')


# SlownessLayer.validate
def SlownessLayer_validate(self):
    if math.isnan(self.topDepth) or math.isnan(self.botDepth) or math.isnan(self.topP) or math.isnan(self.botP):
        raise SlownessModelError('Slowness layer has NaN values.')
    if self.topP < 0 or self.botP < 0:
        raise SlownessModelError('Slowness layer has negative slowness.')
    if self.topDepth > self.botDepth:
        raise SlownessModelError('Slowness layer has negative thickness.')
    return True


# SlownessLayer.bullenRadialSlowness
def SlownessLayer_bullenRadialSlowness(self, p, radiusOfEarth):
    timedist = TimeDist(p)
    if self.botDepth == self.topDepth:
        timedist.distRadian = 0
        timedist.time = 0
        return timedist
    if self.botDepth - self.topDepth < 1e-09:
        return timedist
    B = math.log(self.topP / self.botP) / math.log((radiusOfEarth - self.topDepth) / (radiusOfEarth - self.botDepth))
    sqrtTopTopMpp = math.sqrt(self.topP * self.topP - p * p)
    sqrtBotBotMpp = math.sqrt(self.botP * self.botP - p * p)
    timedist.distRadian = (math.atan2(p, sqrtBotBotMpp) - math.atan2(p, sqrtTopTopMpp)) / B
    timedist.time = (sqrtTopTopMpp - sqrtBotBotMpp) / B
    if timedist.distRadian < 0 or timedist.time < 0 or math.isnan(timedist.distRadian) or math.isnan(timedist.time):
        raise SlownessModelError('timedist.time or .distRadian < 0 or Nan')
    return timedist


# SlownessLayer.bullenDepthFor
def SlownessLayer_bullenDepthFor(self, rayParam, radiusOfEarth):
    if (self.topP - rayParam) * (rayParam - self.botP) >= 0:
        if self.topDepth == self.botDepth:
            return self.botDepth
        if self.topP == rayParam:
            return self.topDepth
        if self.botP == rayParam:
            return self.botDepth
        if self.botP != 0 and self.botDepth != radiusOfEarth:
            B = np.divide(math.log(self.topP / self.botP), math.log((radiusOfEarth - self.topDepth) / (radiusOfEarth - self.botDepth)))
            try:
                denom = math.pow(radiusOfEarth - self.topDepth, B)
            except OverflowError:
                denom = np.inf
            A = np.divide(self.topP, denom)
            with np.errstate(divide='ignore', invalid='ignore'):
                tempDepth = radiusOfEarth - math.exp(1.0 / B * math.log(np.divide(rayParam, A)))
            if self.topDepth > tempDepth > self.topDepth - 1e-06:
                tempDepth = self.topDepth
            if self.botDepth < tempDepth < self.botDepth + 1e-06:
                tempDepth = self.botDepth
            if tempDepth < 0 or math.isnan(tempDepth) or math.isinf(tempDepth) or (tempDepth < self.topDepth) or (tempDepth > self.botDepth):
                if self.botDepth - self.topDepth < 5:
                    linear = (self.botDepth - self.topDepth) / (self.botP - self.topP) * (rayParam - self.topP) + self.topDepth
                    if linear >= 0 and (not math.isnan(linear)) and (not math.isinf(linear)):
                        return linear
                raise SlownessModelError('Calculated depth is outside layer, negative, or NaN.')
            if tempDepth < self.topDepth and self.topDepth - tempDepth < 1e-10:
                return self.topDepth
            if tempDepth > self.botDepth and tempDepth - self.botDepth < 1e-10:
                return self.botDepth
            return tempDepth
        elif self.topP != self.botP:
            return self.botDepth + (rayParam - self.botP) * (self.topDepth - self.botDepth) / (self.topP - self.botP)
        else:
            return self.botDepth
    else:
        raise SlownessModelError('Ray parameter is not contained within this slowness layer.')


# SlownessLayer.evaluateAtBullen
def SlownessLayer_evaluateAtBullen(self, depth, radiusOfEarth):
    topP = self.topP
    botP = self.botP
    topDepth = self.topDepth
    botDepth = self.botDepth
    assert not botDepth > radiusOfEarth
    assert not (topDepth - depth) * (depth - botDepth) < 0
    if depth == topDepth:
        return topP
    elif depth == botDepth:
        return botP
    else:
        B = np.divide(math.log(np.divide(topP, botP)), math.log(np.divide(radiusOfEarth - topDepth, radiusOfEarth - botDepth)))
        ADenominator = pow(radiusOfEarth - topDepth, B)
        A = topP / ADenominator
        answer = A * pow(radiusOfEarth - depth, B)
        if answer < 0 or math.isnan(answer) or math.isinf(answer):
            if botDepth - topDepth < 2 or math.isinf(ADenominator) or botP == 0:
                linear = (botP - topP) / (botDepth - topDepth) * (depth - topDepth) + topP
                if linear < 0 or math.isinf(linear) or math.isnan(linear):
                    pass
                else:
                    return linear
            raise SlownessModelError('Calculated Slowness is NaN or negative!')
    return answer


# SlownessLayer.hasZeroThickness
def SlownessLayer_hasZeroThickness(self):
    if self.topDepth == self.botDepth:
        return True
    else:
        return False


# create_from_vlayer
def create_from_vlayer(vLayer, isPWave, radiusOfEarth=6371, isSpherical=True):
    topDepth = vLayer.topDepth
    botDepth = vLayer.botDepth
    waveType = 'p' if isPWave else 's'
    if isSpherical:
        topP = (radiusOfEarth - topDepth) / vLayer.evaluateAtTop(waveType)
        botP = (radiusOfEarth - botDepth) / vLayer.evaluateAtBottom(waveType)
    else:
        raise NotImplementedError('no flat models yet')
    return SlownessLayer(topP, topDepth, botP, botDepth)
