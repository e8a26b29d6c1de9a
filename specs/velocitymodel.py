"""Reference definitions for taupy/VelocityModel.py."""
import os
import sys


# VelocityModel.__init__
def VelocityModel___init__(self, modelName='unknown', radiusOfEarth=radiusOfEarth, mohoDepth=default_moho, cmbDepth=default_cmb, iocbDepth=default_iocb, minRadius=0.0, maxRadius=6371.0, isSpherical=True, layers=None):
    self.modelName = modelName
    self.radiusOfEarth = radiusOfEarth
    self.mohoDepth = mohoDepth
    self.cmbDepth = cmbDepth
    self.iocbDepth = iocbDepth
    self.minRadius = minRadius
    self.maxRadius = maxRadius
    self.isSpherical = isSpherical
    self.layers = layers if layers else []


# VelocityModel.__len__
def VelocityModel___len__(self):
    return len(self.layers)


# VelocityModel.getDisconDepths
def VelocityModel_getDisconDepths(self):
    discontinuities = [self.layers[0].topDepth]
    for above_layer, below_layer in zip(self.layers[:-1], self.layers[1:]):
        if above_layer.botPVelocity != below_layer.topPVelocity or above_layer.botSVelocity != below_layer.topSVelocity:
            discontinuities.append(above_layer.botDepth)
    discontinuities.append(self.layers[-1].botDepth)
    return discontinuities


# VelocityModel.getNumLayers
def VelocityModel_getNumLayers(self):
    return len(self.layers)


# VelocityModel.layerNumberAbove
def VelocityModel_layerNumberAbove(self, depth):
    for i, layer in enumerate(self.layers):
        if layer.topDepth < depth <= layer.botDepth:
            return i
    raise TauPException('No such layer.')


# VelocityModel.layerNumberBelow
def VelocityModel_layerNumberBelow(self, depth):
    for i, layer in enumerate(self.layers):
        if layer.topDepth <= depth < layer.botDepth:
            return i
    raise TauPException('No such layer.')


# VelocityModel.evaluateAbove
def VelocityModel_evaluateAbove(self, depth, materialProperty):
    layer = self.layers[self.layerNumberAbove(depth)]
    return layer.evaluateAt(depth, materialProperty)


# VelocityModel.evaluateBelow
def VelocityModel_evaluateBelow(self, depth, materialProperty):
    layer = self.layers[self.layerNumberBelow(depth)]
    return layer.evaluateAt(depth, materialProperty)


# VelocityModel.depthAtTop
def VelocityModel_depthAtTop(self, layerNumber):
    layer = self.layers[layerNumber]
    return layer.topDepth


# VelocityModel.depthAtBottom
def VelocityModel_depthAtBottom(self, layerNumber):
    layer = self.layers[layerNumber]
    return layer.botDepth


# VelocityModel.validate
def VelocityModel_validate(self):
    if self.radiusOfEarth <= 0.0:
        return False
    if self.mohoDepth < 0.0:
        return False
    if self.cmbDepth < self.mohoDepth:
        return False
    if self.cmbDepth <= 0.0:
        return False
    if self.iocbDepth < self.cmbDepth:
        return False
    if self.iocbDepth <= 0.0:
        return False
    if self.minRadius < 0.0:
        return False
    if self.maxRadius <= 0.0:
        return False
    if self.maxRadius <= self.minRadius:
        return False
    if self.getNumLayers() == 0:
        return False
    currVelocityLayer = self.layers[0]
    prevVelocityLayer = VelocityLayer(0, currVelocityLayer.topDepth, currVelocityLayer.topDepth, currVelocityLayer.topPVelocity, currVelocityLayer.topPVelocity, currVelocityLayer.topSVelocity, currVelocityLayer.topSVelocity, currVelocityLayer.topDensity, currVelocityLayer.topDensity)
    for layerNum in range(0, self.getNumLayers()):
        currVelocityLayer = self.layers[layerNum]
        if prevVelocityLayer.botDepth != currVelocityLayer.topDepth:
            return False
        if currVelocityLayer.botDepth == currVelocityLayer.topDepth:
            return False
        if currVelocityLayer.topPVelocity <= 0.0 or currVelocityLayer.botPVelocity <= 0.0:
            return False
        if currVelocityLayer.topSVelocity < 0.0 or currVelocityLayer.botSVelocity < 0.0:
            return False
        if currVelocityLayer.topPVelocity != 0.0 and currVelocityLayer.botPVelocity == 0.0 or (currVelocityLayer.topPVelocity == 0.0 and currVelocityLayer.botPVelocity != 0.0):
            return False
        if currVelocityLayer.topSVelocity != 0.0 and currVelocityLayer.botSVelocity == 0.0 or (currVelocityLayer.topSVelocity == 0.0 and currVelocityLayer.botSVelocity != 0.0):
            if currVelocityLayer.topDepth != 0:
                pass
            return False
        prevVelocityLayer = currVelocityLayer
    return True


# VelocityModel.readVelocityFile
def VelocityModel_readVelocityFile(cls, filename):
    if filename.endswith('.nd'):
        fileType = '.nd'
    elif filename.endswith('.tvel'):
        fileType = '.tvel'
    else:
        raise TauPException('File type could not be determined, please rename your file to end with .tvel or .nd')
    fileType = fileType[1:]
    if fileType.lower() == 'nd':
        raise NotImplementedError('.nd files are not curently supported.Sorry.')
    elif fileType.lower() == 'tvel':
        vMod = cls.readTVelFile(filename)
    else:
        raise TauPException('File type invalid')
    vMod.fixDisconDepths()
    return vMod


# VelocityModel.readTVelFile
def VelocityModel_readTVelFile(cls, filename):
    layers = []
    myLayerNumber = 0
    with open(filename, 'rt') as f:
        f.readline()
        f.readline()
        lines = (line.partition('#')[0] for line in f)
        lines = (line for line in lines if line.strip())
        line = next(lines, '')
        line = line.rstrip()
        columns = line.split()
        topDepth = float(columns[0])
        topPVel = float(columns[1])
        topSVel = float(columns[2])
        if topSVel > topPVel:
            raise TauPException('S velocity, ', topSVel, ' at depth ', topDepth, ' is greater than the P velocity, ', topPVel)
        if len(columns) != 4:
            raise ValueError('Top density not specified.')
        topDensity = float(columns[3])
        for line in lines:
            line = line.rstrip()
            columns = line.split()
            botDepth = float(columns[0])
            botPVel = float(columns[1])
            botSVel = float(columns[2])
            if botSVel > botPVel:
                raise TauPException('S velocity, ', botSVel, ' at depth ', botDepth, ' is greater than the P velocity, ', botPVel)
            if len(columns) != 4:
                raise ValueError('Bottom density not specified.')
            botDensity = float(columns[3])
            if len(columns) > 4:
                raise TauPException('Your file has too much information. Stick to 4 columns.')
            tempLayer = VelocityLayer(myLayerNumber, topDepth, botDepth, topPVel, botPVel, topSVel, botSVel, topDensity, botDensity)
            topDepth = botDepth
            topPVel = botPVel
            topSVel = botSVel
            topDensity = botDensity
            if tempLayer.topDepth != tempLayer.botDepth:
                layers.append(tempLayer)
                myLayerNumber += 1
    radiusOfEarth = topDepth
    maxRadius = topDepth
    modelName = os.path.basename(filename)
    modelName = modelName[:-5]
    return VelocityModel(modelName, radiusOfEarth, cls.default_moho, cls.default_cmb, cls.default_iocb, 0, maxRadius, True, layers)


# VelocityModel.fixDisconDepths
def VelocityModel_fixDisconDepths(self):
    changeMade = False
    mohoMin = 65.0
    cmbMin = self.radiusOfEarth
    iocbMin = self.radiusOfEarth - 100.0
    tempMohoDepth = 0.0
    tempCmbDepth = self.radiusOfEarth
    tempIocbDepth = self.radiusOfEarth
    layerNum = 0
    while layerNum < self.getNumLayers() - 1:
        aboveLayer = self.layers[layerNum]
        belowLayer = self.layers[layerNum + 1]
        if aboveLayer.botPVelocity != belowLayer.topPVelocity or aboveLayer.botSVelocity != belowLayer.topSVelocity:
            if abs(self.mohoDepth - aboveLayer.botDepth) < mohoMin:
                tempMohoDepth = aboveLayer.botDepth
                mohoMin = abs(self.mohoDepth - aboveLayer.botDepth)
            if abs(self.cmbDepth - aboveLayer.botDepth) < cmbMin:
                tempCmbDepth = aboveLayer.botDepth
                cmbMin = abs(self.cmbDepth - aboveLayer.botDepth)
            if aboveLayer.botSVelocity == 0.0 and belowLayer.topSVelocity > 0.0 and (abs(self.iocbDepth - aboveLayer.botDepth) < iocbMin):
                tempIocbDepth = aboveLayer.botDepth
                iocbMin = abs(self.iocbDepth - aboveLayer.botDepth)
        layerNum += 1
    if self.mohoDepth != tempMohoDepth or self.cmbDepth != tempCmbDepth or self.iocbDepth != tempIocbDepth:
        changeMade = True
    self.mohoDepth = tempMohoDepth
    self.cmbDepth = tempCmbDepth
    self.iocbDepth = tempIocbDepth if tempCmbDepth != tempIocbDepth else self.radiusOfEarth
    return changeMade
