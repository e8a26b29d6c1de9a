"""Reference definitions for taupy/TauP_Pierce.py."""
from math import pi


# TauP_Pierce.__init__
def TauP_Pierce___init__(self, taupy_model=None, phaseList=None, depth=0, degrees=None, coordinate_list=None, modelName='iasp91'):
    TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees, coordinate_list, modelName)
    self.onlyTurnPoints = False
    self.onlyRevPoints = False
    self.onlyUnderPoints = False
    self.onlyAddPoints = False
    self.addDepth = []


# TauP_Pierce.depthCorrect
def TauP_Pierce_depthCorrect(self, depth):
    tModOrig = self.tMod
    mustRecalc = False
    if self.tModDepth.sourceDepth == depth:
        if self.addDepth:
            branchDepths = self.tModDepth.getBranchDepths()
            for addDepth in self.addDepth:
                for branchDepth in branchDepths:
                    if addDepth == branchDepth:
                        break
                    mustRecalc = True
                if mustRecalc:
                    break
    else:
        mustRecalc = True
    if not mustRecalc:
        TauP_Time.depthCorrect(self, depth)
    else:
        self.tModDepth = None
        if self.addDepth is not None:
            for addDepth in self.addDepth:
                self.tMod = self.tMod.splitBranch(addDepth)
        TauP_Time.depthCorrect(self, depth)
        self.tMod = tModOrig


# TauP_Pierce.calculate
def TauP_Pierce_calculate(self, degrees):
    self.depthCorrect(self.sourceDepth)
    self.recalcPhases()
    self.arrivals = []
    self.calcPierce(degrees)


# TauP_Pierce.calcPierce
def TauP_Pierce_calcPierce(self, degrees):
    for phase in self.phases:
        phaseArrivals = phase.calcPierce(degrees)
        self.arrivals += phaseArrivals


# TauP_Pierce.printResult
def TauP_Pierce_printResult(self):
    for currArrival in self.arrivals:
        outName = currArrival.name
        if not currArrival.name == currArrival.puristName:
            outName += '(' + currArrival.puristName + ')'
        print('> ' + outName + ' at ' + ' {:.2f} seconds at '.format(currArrival.time) + ' {:.2f} degrees for a '.format(currArrival.getDistDeg()) + ' {} km deep source in the '.format(currArrival.sourceDepth) + ' {} model with rayParam {:.3f} s/deg.'.format(self.modelName, currArrival.rayParam * pi / 180))
        longWayRound = False
        if currArrival.dist * 180 / pi % 360 > 180:
            longWayRound = True
        prevDepth = currArrival.pierce[0].depth
        for j, calcDist in enumerate([p.getDistDeg() for p in currArrival.pierce]):
            if longWayRound is True and calcDist != 0:
                calcDist *= -1
            if j < len(currArrival.pierce) - 1:
                nextDepth = currArrival.pierce[j + 1].depth
            else:
                nextDepth = currArrival.pierce[j].depth
            capd = currArrival.pierce[j].depth
            if not any([self.onlyTurnPoints, self.onlyRevPoints, self.onlyUnderPoints, self.onlyAddPoints]) or (self.onlyAddPoints and capd in self.addDepth) or (self.onlyRevPoints and (prevDepth - capd) * (capd - nextDepth) < 0) or (self.onlyTurnPoints and j != 0 and (prevDepth - capd <= 0 <= capd - nextDepth)) or (self.onlyUnderPoints and prevDepth - capd >= 0 >= capd - nextDepth):
                print('{:>7.2f} {:>7.1f} {:>7.1f}'.format(calcDist, currArrival.pierce[j].depth, currArrival.pierce[j].time))
            prevDepth = capd


# TauP_Pierce.getCommentLine
def TauP_Pierce_getCommentLine(self, currArrival):
    outName = currArrival.name
    if not currArrival.name == currArrival.puristName:
        outName += '(' + currArrival.puristName + ')'
    return ('> ' + outName + ' at ' + ' {:.2f} seconds at '.format(currArrival.time) + ' {:.2f} degrees for a '.format(currArrival.getDistDeg()) + ' {} km deep source in the '.format(currArrival.sourceDepth) + ' {} model with rayParam {:.3f} s/deg.'.format(self.modelName, currArrival.rayParam * pi / 180))
