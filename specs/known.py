"""Definitions that describe known, unrepaired defects exactly."""
import math


def rayParamIncCheck_steps_outside(self):
    for layers in [self.SLayers, self.PLayers]:
        for sLayer in layers:
            if abs(sLayer.topP - sLayer.botP) > self.maxDeltaP:
                numNewP = math.ceil(abs(sLayer.topP - sLayer.botP)
                                    / self.maxDeltaP)
                deltaP = (sLayer.topP - sLayer.botP) / numNewP
                rayNum = 1
                while rayNum < numNewP:
                    self.addSlowness(sLayer.topP + rayNum * deltaP,
                                     self.PWAVE)
                    self.addSlowness(sLayer.topP + rayNum * deltaP,
                                     self.SWAVE)
                    rayNum += 1
