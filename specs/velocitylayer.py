"""Reference definitions for taupy/VelocityLayer.py."""



# VelocityLayer.__init__
def VelocityLayer___init__(self, layer_number, topDepth, botDepth, topPVelocity, botPVelocity, topSVelocity, botSVelocity, topDensity=2.6, botDensity=2.6, topQp=1000, botQp=1000, topQs=2000, botQs=2000):
    self.layer_number = int(layer_number)
    self.topDepth = float(topDepth)
    self.botDepth = float(botDepth)
    self.topPVelocity = float(topPVelocity)
    self.botPVelocity = float(botPVelocity)
    self.topSVelocity = float(topSVelocity)
    self.botSVelocity = float(botSVelocity)
    self.topDensity = float(topDensity)
    self.botDensity = float(botDensity)
    self.topQp = float(topQp)
    self.botQp = float(botQp)
    self.topQs = float(topQs)
    self.botQs = float(botQs)


# VelocityLayer.thickness
def VelocityLayer_thickness(self):
    return self.botDepth - self.topDepth


# VelocityLayer.evaluateAtBottom
def VelocityLayer_evaluateAtBottom(self, materialProperty):
    materialProperty = materialProperty.lower()
    if materialProperty == 'p':
        return self.botPVelocity
    elif materialProperty == 's':
        return self.botSVelocity
    elif materialProperty in 'rd':
        return self.botDensity
    raise TauPException('Unknown material property, use p, s, or d.')


# VelocityLayer.evaluateAtTop
def VelocityLayer_evaluateAtTop(self, materialProperty):
    materialProperty = materialProperty.lower()
    if materialProperty == 'p':
        return self.topPVelocity
    elif materialProperty == 's':
        return self.topSVelocity
    elif materialProperty in 'rd':
        return self.topDensity
    raise TauPException('Unknown material property, use p, s, or d.')


# VelocityLayer.evaluateAt
def VelocityLayer_evaluateAt(self, depth, materialProperty):
    thickness = self.thickness
    materialProperty = materialProperty.lower()
    if materialProperty == 'p':
        slope = (self.botPVelocity - self.topPVelocity) / thickness
        return slope * (depth - self.topDepth) + self.topPVelocity
    elif materialProperty == 's':
        slope = (self.botSVelocity - self.topSVelocity) / thickness
        return slope * (depth - self.topDepth) + self.topSVelocity
    elif materialProperty in 'rd':
        slope = (self.botDensity - self.topDensity) / thickness
        return slope * (depth - self.topDepth) + self.topDensity
    raise TauPException('Unknown material property, use p, s, or d.')
