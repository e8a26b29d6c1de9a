"""Reference definitions for taupy/TauP_Time.py."""
import os
import inspect
import argparse
import math
import taupy.TauModelLoader as TauModelLoader


# TauP_Time.__init__
def TauP_Time___init__(self, taupy_model=None, phaseList=None, depth=0, degrees=None, coordinate_list=None, modelName='iasp91'):
    if taupy_model is None:
        taupy_model = TauModelLoader.load(modelName)
    self.tMod = taupy_model
    self.tModDepth = self.tMod
    self.modelName = self.tMod.sMod.vMod.modelName
    phaseList = phaseList if phaseList is not None else []
    self.expert = False
    self.phaseList = phaseList
    self.phaseNames = []
    self.phases = []
    self.depth = depth
    self.degrees = degrees
    if coordinate_list is None:
        coordinate_list = [None, None, None, None]
    self.stationLat = coordinate_list[2]
    self.stationLon = coordinate_list[3]
    self.eventLat = coordinate_list[0]
    self.eventLon = coordinate_list[1]
    self.arrivals = []
    self.relativePhaseName = None
    self.relativeArrival = None


# TauP_Time.run
def TauP_Time_run(self, printOutput=False):
    self.phaseNames = parsePhaseList(self.phaseList)
    if self.degrees is not None or all((x is not None for x in (self.stationLat, self.stationLon, self.eventLat, self.eventLon))):
        if self.degrees is None:
            stn = (self.stationLat, self.stationLon)
            event = (self.eventLat, self.eventLon)
            self.degrees = great_circle_dist(stn, event)
        self.depthCorrect(self.depth)
        self.calculate(self.degrees)
        if printOutput:
            self.printResult()
    else:
        raise ValueError('You must specify either distance in degrees or event and station coordinates.')


# TauP_Time.depthCorrect
def TauP_Time_depthCorrect(self, depth):
    if self.tModDepth is None or self.tModDepth.sourceDepth != depth:
        self.tModDepth = self.tMod.depthCorrect(depth)
        self.arrivals = []
        self.recalcPhases()
    self.sourceDepth = depth


# TauP_Time.recalcPhases
def TauP_Time_recalcPhases(self):
    newPhases = []
    for tempPhaseName in self.phaseNames:
        alreadyAdded = False
        for phaseNum, seismicPhase in enumerate(self.phases):
            if seismicPhase.name == tempPhaseName:
                self.phases.pop(phaseNum)
                if seismicPhase.sourceDepth == self.depth and seismicPhase.tMod == self.tModDepth:
                    newPhases.append(seismicPhase)
                    alreadyAdded = True
                    break
        if not alreadyAdded:
            try:
                seismicPhase = SeismicPhase(tempPhaseName, self.tModDepth)
                newPhases.append(seismicPhase)
            except TauModelError:
                pass
        self.phases = newPhases


# TauP_Time.calculate
def TauP_Time_calculate(self, degrees):
    self.depthCorrect(self.sourceDepth)
    self.recalcPhases()
    self.calcTime(degrees)
    if self.relativePhaseName is not None:
        relPhases = []
        splitNames = getPhaseNames(self.relativePhaseName)
        for sName in splitNames:
            relPhases.append(SeismicPhase(sName, self.tModDepth))
        self.relativeArrival = SeismicPhase.getEarliestArrival(relPhases, degrees)


# TauP_Time.calcTime
def TauP_Time_calcTime(self, degrees):
    self.degrees = degrees
    self.arrivals = []
    for phase in self.phases:
        phaseArrivals = phase.calcTime(degrees)
        self.arrivals += phaseArrivals
    self.sortArrivals()


# TauP_Time.sortArrivals
def TauP_Time_sortArrivals(self):
    self.arrivals = sorted(self.arrivals, key=lambda arrivals: arrivals.time)
    pass


# TauP_Time.printResult
def TauP_Time_printResult(self):
    print('\nModel:', self.modelName)
    if self.arrivals:
        namespacewidth = len(max([arrival.name for arrival in self.arrivals], key=len)) - 2
    else:
        namespacewidth = 5
    lineOne = 'Distance   Depth   Phase' + ' ' * namespacewidth + 'Travel    Ray Param   Takeoff  Incident  Purist     Purist'
    lineTwo = '   (deg)    (km)   Name ' + ' ' * namespacewidth + 'Time (s)  p (s/deg)     (deg)     (deg)  Distance   Name '
    print(lineOne)
    print(lineTwo)
    print('-' * (len(lineOne) - 2))
    for arrival in self.arrivals:
        out = '{:>8.2f}'.format(arrival.getModuloDistDeg()) + '   '
        out += '{:>5.1f}'.format(self.depth) + '   '
        out += '{0:<{1}s}'.format(arrival.name, namespacewidth + 2) + '   '
        out += '{:>8.2f}'.format(arrival.time) + '   '
        out += '{:>8.3f}'.format(arrival.rayParam * math.pi / 180) + '   '
        if arrival.takeoffAngle == -0.0:
            arrival.takeoffAngle = 0
        out += '{:>6.2f}'.format(arrival.takeoffAngle) + '   '
        out += '{:>7.2f}'.format(arrival.incidentAngle) + '   '
        out += '{:>7.2f}'.format(arrival.dist * 180 / math.pi) + ('  = ' if arrival.puristName == arrival.name else '  * ')
        out += '{:<5s}'.format(arrival.puristName) + '   '
        print(out)


# TauP_Pierce.readcmdLineArgs
def TauP_Pierce_readcmdLineArgs(self):
    parser = argparse.ArgumentParser()
    parser.add_argument('-v', '--verbose', '--debug', action='store_true', help='increase output verbosity')
    parser.add_argument('-ph', '--phase_list', help='comma separated phase list, no white space!')
    parser.add_argument('-mod', '--modelname', help='Use this velocity model for calculations. Default is iasp91.')
    parser.add_argument('-d', '--depth', help='source depth in km')
    parser.add_argument('-deg', '--degrees', help='distance in degrees')
    parser.add_argument('-km', '--kilometres', help='distance in kilometres')
    parser.add_argument('-staLat', help='station latitude')
    parser.add_argument('-staLon', help='station longitude')
    parser.add_argument('-evtLat', help='event latitude')
    parser.add_argument('-evtLon', help='event longitude')
    parser.add_argument('-o', '--outfile', help='output is redirected to "outfile"')
    args = parser.parse_args()
    self.DEBUG = args.verbose if args.verbose else self.DEBUG
    self.phaseList = args.phase_list.split(',') if args.phase_list else self.phaseList
    if args.modelname:
        self.modelName = args.modelname
        self.tMod = self.tModDepth = TauModelLoader.load(args.modelname)
    self.depth = float(args.depth) if args.depth else self.depth
    self.degrees = float(args.degrees) if args.degrees else self.degrees
    self.kilometres = float(args.kilometres) if args.kilometres else None
    if self.degrees is None and self.kilometres is not None:
        self.degrees = self.kilometres / self.tMod.radiusOfEarth * 180 / math.pi
    self.stationLat = float(args.staLat) if args.staLat else None
    self.stationLon = float(args.staLon) if args.staLon else None
    self.eventLat = float(args.evtLat) if args.evtLat else None
    self.eventLon = float(args.evtLon) if args.evtLon else None
    self.outFile = args.outfile


# TauP_Time.readcmdLineArgs
def TauP_Time_readcmdLineArgs(self):
    parser = argparse.ArgumentParser()
    parser.add_argument('-v', '--verbose', '--debug', action='store_true', help='increase output verbosity')
    parser.add_argument('-ph', '--phase_list', help='comma separated phase list, no white space!')
    parser.add_argument('-mod', '--modelname', help='Use this velocity model for calculations. Default is iasp91.')
    parser.add_argument('-d', '--depth', help='source depth in km')
    parser.add_argument('-deg', '--degrees', help='distance in degrees')
    parser.add_argument('-km', '--kilometres', help='distance in kilometres')
    parser.add_argument('-staLat', help='station latitude')
    parser.add_argument('-staLon', help='station longitude')
    parser.add_argument('-evtLat', help='event latitude')
    parser.add_argument('-evtLon', help='event longitude')
    parser.add_argument('-o', '--outfile', help='output is redirected to "outfile"')
    args = parser.parse_args()
    self.DEBUG = args.verbose if args.verbose else self.DEBUG
    self.phaseList = args.phase_list.split(',') if args.phase_list else self.phaseList
    if args.modelname:
        self.modelName = args.modelname
        self.tMod = self.tModDepth = TauModelLoader.load(args.modelname)
    self.depth = float(args.depth) if args.depth else self.depth
    self.degrees = float(args.degrees) if args.degrees else self.degrees
    self.kilometres = float(args.kilometres) if args.kilometres else None
    if self.degrees is None and self.kilometres is not None:
        self.degrees = self.kilometres / self.tMod.radiusOfEarth * 180 / math.pi
    self.stationLat = float(args.staLat) if args.staLat else None
    self.stationLon = float(args.staLon) if args.staLon else None
    self.eventLat = float(args.evtLat) if args.evtLat else None
    self.eventLon = float(args.evtLon) if args.evtLon else None
    self.outFile = args.outfile


# parsePhaseList
def parsePhaseList(phaseList):
    phaseNames = []
    for phaseName in phaseList:
        phaseNames += getPhaseNames(phaseName)
    uniqueNames = []
    for phaseName in phaseNames:
        if phaseName not in uniqueNames:
            uniqueNames.append(phaseName)
    return uniqueNames


# getPhaseNames
def getPhaseNames(phaseName):
    names = []
    if phaseName.lower() == 'ttp' or phaseName.lower() == 'tts' or phaseName.lower() == 'ttbasic' or (phaseName.lower() == 'tts+') or (phaseName.lower() == 'ttp+') or (phaseName.lower() == 'ttall'):
        if phaseName.lower() == 'ttp' or phaseName.lower() == 'ttp+' or phaseName.lower() == 'ttbasic' or (phaseName.lower() == 'ttall'):
            names.append('p')
            names.append('P')
            names.append('Pn')
            names.append('Pdiff')
            names.append('PKP')
            names.append('PKiKP')
            names.append('PKIKP')
        if phaseName.lower() == 'tts' or phaseName.lower() == 'tts+' or phaseName.lower() == 'ttbasic' or (phaseName.lower() == 'ttall'):
            names.append('s')
            names.append('S')
            names.append('Sn')
            names.append('Sdiff')
            names.append('SKS')
            names.append('SKIKS')
        if phaseName.lower() == 'ttp+' or phaseName.lower() == 'ttbasic' or phaseName.lower() == 'ttall':
            names.append('PcP')
            names.append('pP')
            names.append('pPdiff')
            names.append('pPKP')
            names.append('pPKIKP')
            names.append('pPKiKP')
            names.append('sP')
            names.append('sPdiff')
            names.append('sPKP')
            names.append('sPKIKP')
            names.append('sPKiKP')
        if phaseName.lower() == 'tts+' or phaseName.lower() == 'ttbasic' or phaseName.lower() == 'ttall':
            names.append('sS')
            names.append('sSdiff')
            names.append('sSKS')
            names.append('sSKIKS')
            names.append('ScS')
            names.append('pS')
            names.append('pSdiff')
            names.append('pSKS')
            names.append('pSKIKS')
        if phaseName.lower() == 'ttbasic' or phaseName.lower() == 'ttall':
            names.append('ScP')
            names.append('SKP')
            names.append('SKIKP')
            names.append('PKKP')
            names.append('PKIKKIKP')
            names.append('SKKP')
            names.append('SKIKKIKP')
            names.append('PP')
            names.append('PKPPKP')
            names.append('PKIKPPKIKP')
        if phaseName.lower() == 'ttall':
            names.append('SKiKP')
            names.append('PP')
            names.append('ScS')
            names.append('PcS')
            names.append('PKS')
            names.append('PKIKS')
            names.append('PKKS')
            names.append('PKIKKIKS')
            names.append('SKKS')
            names.append('SKIKKIKS')
            names.append('SKSSKS')
            names.append('SKIKSSKIKS')
            names.append('SS')
            names.append('SP')
            names.append('PS')
    else:
        names.append(phaseName)
    return names


# great_circle_dist
def great_circle_dist(stn, event):
    rtod = 180 / math.pi
    dtor = math.pi / 180
    latA = stn[0]
    lonA = stn[1]
    latB = event[0]
    lonB = event[1]
    cosDist = math.sin(latA * dtor) * math.sin(latB * dtor) + math.cos(latA * dtor) * math.cos(latB * dtor) * math.cos((lonB - lonA) * dtor)
    return rtod * math.acos(max(-1.0, min(1.0, cosDist)))
