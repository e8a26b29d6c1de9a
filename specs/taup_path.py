"""Reference definitions for taupy/TauP_Path.py."""
import numpy as np
import math


# TauP_Path.__init__
def TauP_Path___init__(self, taupy_model=None, phaseList=None, depth=0, degrees=None, coordinate_list=None, modelName='iasp91'):
    TauP_Pierce.__init__(self, taupy_model, phaseList, float(depth), degrees, coordinate_list, modelName)
    self.maxPathTime = 1e+300
    self.maxPathInc = 1


# TauP_Path.calculate
def TauP_Path_calculate(self, degrees):
    self.depthCorrect(self.sourceDepth)
    self.recalcPhases()
    self.arrivals = []
    self.calcPath(degrees)


# TauP_Path.calcPath
def TauP_Path_calcPath(self, degrees):
    self.degrees = degrees
    for phase in self.phases:
        phaseArrivals = phase.calcPath(degrees)
        self.arrivals += phaseArrivals


# TauP_Path.printResult
def TauP_Path_printResult(self):
    radiusOfEarth = self.tModDepth.radiusOfEarth
    for currArrival in self.arrivals:
        outName = currArrival.name
        if not currArrival.name == currArrival.puristName:
            outName += '(' + currArrival.puristName + ')'
        print('> ' + outName + ' at ' + ' {:.2f} seconds at '.format(currArrival.time) + ' {:.2f} degrees for a '.format(currArrival.getDistDeg()) + ' {} km deep source in the '.format(currArrival.sourceDepth) + ' {} model with rayParam {:.3f} s/deg.'.format(self.modelName, currArrival.rayParam * math.pi / 180))
        longWayRound = False
        if currArrival.getDistDeg() % 360 > 180:
            longWayRound = True
        prevTimeDist = TimeDist(0, 0, 0, 0)
        for j in range(len(currArrival.path)):
            capj = currArrival.path[j]
            if j < len(currArrival.path) - 1:
                capjplus = currArrival.path[j + 1]
            if j > 0:
                capjminus = currArrival.path[j - 1]
            if capj.distRadian < prevTimeDist.distRadian:
                raise RuntimeError("Ray path is backtracking, that's not possible.")
            calcTime = capj.time
            calcDepth = capj.depth
            prevDepth = calcDepth
            calcDist = capj.getDistDeg()
            if calcTime > self.maxPathTime:
                if j != 0 and capjminus.time < self.maxPathTime:
                    calcDist = np.interp(self.maxPathTime, (capjminus.time, capj.time), (capjminus.getDistDeg(), capj.getDistDeg()))
                    calcDepth = np.interp(self.maxPathTime, (capjminus.time, capj.time), (capjminus.depth, capj.depth))
                    prevDepth = calcDepth
                    calcTime = self.maxPathTime
                else:
                    break
            if longWayRound and calcDist != 0:
                calcDist *= -1
            print('{:4.2f}  {:4.1f}'.format(calcDist, radiusOfEarth - calcDepth))
            if calcTime >= self.maxPathTime:
                break
            if j < len(currArrival.path) - 1 and currArrival.rayParam != 0 and (capjplus.getDistDeg() - capj.getDistDeg() > self.maxPathInc):
                maxInterpNum = math.ceil((capjplus.getDistDeg() - capj.getDistDeg()) / self.maxPathInc)
                for interpNum in range(1, maxInterpNum):
                    calcTime += (capjplus.time - capj.time) / maxInterpNum
                    if calcTime > self.maxPathTime:
                        break
                    if longWayRound:
                        calcDist -= (capjplus.getDistDeg() - capj.getDistDeg()) / maxInterpNum
                    else:
                        calcDist += (capjplus.getDistDeg() - capj.getDistDeg()) / maxInterpNum
                    calcDepth = prevDepth + interpNum * (capjplus.depth - prevDepth) / maxInterpNum
                    print('{:4.2f}  {:4.1f}'.format(calcDist, radiusOfEarth - calcDepth))


# TauP_Path.printDistRadius
def TauP_Path_printDistRadius(self, calcDist, radius):
    print('{:4.2f}  {:4.1f}'.format(calcDist, radius))
