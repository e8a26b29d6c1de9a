"""The properties, and the obligations that decide each of them.

obligations: qualified name, or (qualified name, regular expression of the
components of its summary that matter for this property)."""

P = []


def prop(id, title, statement, over, quant, why, files, mech, obligations,
         note="", analyses=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mech=mech,
                  obligations=list(obligations), note=note,
                  analyses=list(analyses), observe=list(observe)))


prop("P01", "Queries never change a loaded model",
     "Computing travel times, pierce points or ray paths leaves the loaded "
     "model, and everything reachable from it, exactly as it was: correcting "
     "for a source depth works on a private copy. The same query therefore "
     "gives the same answer however many other queries, of any depth or "
     "phase, ran before it, also through other objects that share the model.",
     ["histories", "inputs"],
     "every sequence of queries on one or more tools sharing a loaded model",
     "The tests build a fresh tool per query and never look at the model "
     "afterwards; a leaked write shows only in a later, different query.",
     ["taupy/TauModel.py", "taupy/TauBranch.py", "taupy/SlownessModel.py",
      "taupy/SeismicPhase.py", "taupy/TauP_Time.py", "taupy/tau.py"],
     [("deep copies before every edit", "TauModel.splitBranch, "
       "SlownessModel.splitLayer, SlownessModel.fixOtherLayers"),
      ("depth-corrected model kept apart from the loaded one",
       "TauP_Time.depthCorrect")],
     [("TauModel.splitBranch", r"calls made|^self|^content\(self"),
      ("TauModel.depthCorrect", r"calls made|^self|^content\(self|result"),
      ("SlownessModel.splitLayer", r"^self|^content\(self|calls made"),
      ("SlownessModel.fixOtherLayers", r"^self|content\(otherLayers|calls"),
      ("TauBranch.difference", r"^self|^topBranch|^content"),
      ("TauP_Time.depthCorrect", r"self\.tMod|calls made"),
      ("TauP_Pierce.depthCorrect", r"self\.tMod|calls made")],
     analyses=["effects"])

prop("P02", "Travel-time arrivals come back in time order",
     "After a travel-time computation the list of arrivals is ordered by "
     "increasing arrival time, whatever phases, depth and distance were "
     "asked for, and it holds exactly the arrivals of all requested phases. "
     "Arrivals of equal time keep the order of the requested phases.",
     ["inputs", "configurations"],
     "every phase list, source depth and distance",
     "Tests compare a few printed tables for fixed models and distances.",
     ["taupy/TauP_Time.py"],
     [("sort after collecting", "TauP_Time.calcTime, "
       "TauP_Time.sortArrivals")],
     [("TauP_Time.calcTime", None), ("TauP_Time.sortArrivals", None),
      ("TauP_Time.calculate", r"result|calls made|self\.arrivals")])

prop("P03", "Every lap at the requested distance is searched exactly once",
     "A distance in degrees is folded into 0 to 180 degrees, and arrivals "
     "are returned for every distance within a phase's range that ends at "
     "that point of the sphere: whole laps plus and minus the folded "
     "distance. For 0 and 180 degrees, where both directions coincide, no "
     "lap is returned twice, and an exact hit on a sample shared by two "
     "neighbouring ray-parameter intervals yields one arrival.",
     ["inputs"],
     "every distance, negative or larger than a full circle, every phase",
     "Tests use distances between 0 and 180 that are no exact samples.",
     ["taupy/SeismicPhase.py"],
     [("folding, lap loop, duplicate guards", "SeismicPhase.calcTime")],
     ["SeismicPhase.calcTime"])

prop("P04", "Arrivals interpolate the two samples that bracket the distance",
     "Each arrival's time and ray parameter are the linear interpolation, at "
     "the arrival's distance, of the phase's neighbouring time, distance and "
     "ray-parameter samples that bracket it; the arrival carries that "
     "distance, the index of that interval, and the phase's names and source "
     "depth. Intervals of equal ray parameter, which mark shadow zones, "
     "give no arrival.",
     ["inputs"],
     "every phase, every interval of its samples, every distance",
     "Tests check a handful of arrivals against printed values.",
     ["taupy/SeismicPhase.py", "taupy/Arrival.py"],
     [("interpolation", "SeismicPhase.linearInterpArrival"),
      ("bracketing test", "SeismicPhase.calcTime")],
     [("SeismicPhase.linearInterpArrival",
       r"^(?!result\.(takeoff|incident))"),
      "SeismicPhase.calcTime", "Arrival.__init__"])

prop("P05", "Takeoff and incident angles obey Snell's law",
     "The takeoff angle in degrees is the arcsine of ray parameter times "
     "velocity over radius at the source, using the velocity just below the "
     "source for a downgoing first leg and, with negative sign, just above "
     "it for an upgoing one, of the wave type of the first leg. The incident "
     "angle is the same at the surface for the wave type of the last leg; "
     "rounding never pushes the sine outside -1 to 1, and surface waves have "
     "both angles zero.",
     ["inputs"],
     "every phase, source depth, including turning rays and sources on a "
     "discontinuity, and every model radius",
     "The few printed tables use shallow sources in one model.",
     ["taupy/SeismicPhase.py", "taupy/VelocityModel.py",
      "taupy/VelocityLayer.py"],
     [("angles", "SeismicPhase.linearInterpArrival"),
      ("one-sided velocities", "VelocityModel.evaluateBelow/evaluateAbove")],
     [("SeismicPhase.linearInterpArrival",
       r"^(result|result\.(takeoffAngle|incidentAngle))$"),
      "VelocityModel.evaluateBelow", "VelocityModel.evaluateAbove",
      "VelocityModel.layerNumberAbove", "VelocityModel.layerNumberBelow",
      "VelocityLayer.evaluateAt", "Arrival.__init__"])

prop("P06", "The planet's radius always comes from the model",
     "Every slowness, depth, layer time, angle, surface-wave time and "
     "kilometre conversion uses the radius of the velocity model it is "
     "computed for, so a model of another planet behaves as one; the radius "
     "of a model read from a file is the deepest depth in the file.",
     ["configurations", "inputs"],
     "every velocity model, of any radius",
     "All tests use models of radius 6371 km.",
     ["taupy/SlownessModel.py", "taupy/SlownessLayer.py",
      "taupy/TauModel.py", "taupy/TauBranch.py", "taupy/SeismicPhase.py",
      "taupy/VelocityModel.py", "taupy/TauP_Time.py", "taupy/TauP_Path.py"],
     [("radius handed from velocity to slowness to tau model",
       "SlownessModel.createSample, TauModel.__init__"),
      ("radius arguments", "calls of the layer formulas")],
     [("VelocityModel.readTVelFile", None),
      ("VelocityModel.__init__", r"radius|Radius"),
      ("SlownessModel.createSample", r"radiusOfEarth|calls made"),
      ("TauModel.__init__", r"radiusOfEarth"),
      "SlownessModel.toSlowness", "SlownessModel.interpolate",
      ("SlownessModel.findCriticalPoints", None),
      ("SlownessModel.coarseSample", None),
      "SlownessModel.layerTimeDist", "create_from_vlayer",
      ("VelocityModel.fixDisconDepths", None),
      ("SeismicPhase.sumBranches", None),
      ("SeismicPhase.linearInterpArrival", None),
      ("TauP_Time.readcmdLineArgs", r"degrees"),
      ("TauModel.depthCorrect", r"result"),
      ("SlownessModel.splitLayer", None),
      ("SlownessModel.fixOtherLayers", None),
      ("SlownessModel.getMinTurnRayParam", None), ("TauBranch.path", None),
      ("SlownessModel.validate", None)],
     analyses=["radius"])

prop("P07", "Distances and ray parameters are reported in consistent units",
     "Distances are kept in radians and ray parameters in seconds per "
     "radian; every degree value handed out is the radian value times 180/pi "
     "and every seconds-per-degree value the kept one times pi/180, for "
     "arrivals as for pierce and path points. The reported modulo distance "
     "is the kept distance folded into 0 to 180 degrees.",
     ["inputs"],
     "every arrival, pierce and path point",
     "Only times and distances of a few arrivals are compared.",
     ["taupy/Arrival.py", "taupy/helper_classes.py"],
     [("conversions", "Arrival.getDistDeg, Arrival.getModuloDistDeg, "
       "Arrival.rayParam_sec_degree, Arrival.purist_distance, "
       "TimeDist.getDistDeg")],
     ["Arrival.getDistDeg", "Arrival.getModuloDistDeg",
      "Arrival.rayParam_sec_degree", "Arrival.purist_distance",
      "TimeDist.getDistDeg", "TimeDist.add", "TimeDist.__init__"])

prop("P08", "Coordinates give the great-circle distance in degrees",
     "When only coordinates of source and receiver are given, the distance "
     "used is the great-circle angle in degrees between the two points given "
     "by latitude and longitude, also for equal and antipodal points; a "
     "distance that is given takes precedence. Without either, the query is "
     "refused with ValueError.",
     ["inputs"],
     "every pair of coordinates, and every combination of given arguments",
     "No test uses coordinates that meet the poles, dateline or antipodes.",
     ["taupy/TauP_Time.py", "taupy/tau.py"],
     [("great circle formula", "great_circle_dist"),
      ("choice of distance", "TauP_Time.run")],
     ["great_circle_dist", "TauP_Time.run",
      ("TauP_Time.__init__", r"Lat|Lon|degrees|result")])

prop("P09", "Phase-group names expand to their fixed lists of phases",
     "The group names ttp, ttp+, tts, tts+, ttbasic and ttall, in any case, "
     "each stand for their fixed list of phases; any other name stands for "
     "itself. The phases computed are the concatenation of the expansions "
     "of the requested names, each name once, in order of first appearance.",
     ["inputs"],
     "every list of requested names, including repeated and mixed-case ones",
     "Tests request single phases and ttall.",
     ["taupy/TauP_Time.py"],
     [("group table", "getPhaseNames"), ("concatenation",
                                         "parsePhaseList")],
     ["getPhaseNames", "parsePhaseList",
      ("TauP_Time.run", r"phaseNames|calls made")])

prop("P10", "Phase names split into legs by one fixed grammar",
     "A phase name is split, left to right, into the legs P, S (optionally "
     "with g, b, n or diff), p, s, K, k, I, i, J, m, c, numbers, and ^ or v "
     "followed by m, c, i or a number, and closed by an end mark; a "
     "surface-wave name ending in kmps is a single leg. Anything else, such "
     "as an unknown letter or P or S followed by p, s or I, is refused with "
     "a model error and never silently shortened.",
     ["inputs"],
     "every string used as a phase name",
     "Tests tokenize only the names that the group lists contain.",
     ["taupy/SeismicPhase.py"],
     [("tokenizer", "legPuller")],
     ["legPuller"])

prop("P11", "A leg sequence becomes the branch sequence it names",
     "The legs of a phase determine, one after the other, which model "
     "branches are crossed, in which direction, as P or S wave, and how each "
     "leg ends (turning, reflecting on top or bottom, passing up or down), "
     "and narrow the range of ray parameters accordingly at every turn, "
     "reflection, transmission and conversion. Phases that cannot exist for "
     "the source depth get an empty range; sequences that make no sense, or "
     "do not end at the surface, are refused with a model error.",
     ["inputs", "configurations"],
     "every phase name, model and source depth",
     "Tests cover the phases of ttall at few depths; nothing exercises "
     "conversions at numbered depths, underside reflections or core legs "
     "systematically.",
     ["taupy/SeismicPhase.py", "taupy/TauModel.py"],
     [("leg table", "SeismicPhase.parseName"),
      ("end-of-leg actions", "SeismicPhase.addToBranch"),
      ("conversions", "SeismicPhase.phaseConversion")],
     ["SeismicPhase.parseName", "SeismicPhase.addToBranch",
      "SeismicPhase.phaseConversion", "TauModel.getTauBranch",
      ("SeismicPhase.__init__", None)])

prop("P12", "Named depths resolve to the nearest real discontinuity",
     "A depth written in a phase name, with or without ^ or v, means the "
     "existing model discontinuity closest to it, the letters m, c and i "
     "mean the Moho, the core-mantle and the inner-core boundary, and depths "
     "that exist only because of the source are never chosen. The reported "
     "purist name is the phase name with each such depth replaced by the "
     "true one.",
     ["inputs", "configurations"],
     "every phase name with depths, every source depth",
     "No test uses a phase with a numbered depth.",
     ["taupy/SeismicPhase.py"],
     [("nearest discontinuity", "closestBranchToDepth"),
      ("purist name", "SeismicPhase.createPuristName")],
     ["closestBranchToDepth", "SeismicPhase.createPuristName",
      ("SeismicPhase.__init__", r"puristName|result"),
      ("TauModel.splitBranch", r"noDisconDepths")])

prop("P13", "One impossible phase never affects the others",
     "A requested phase that the model cannot produce is skipped, and the "
     "arrivals of all other requested phases are what they would be without "
     "it. Phases computed before are reused only if they belong to the same "
     "source depth and the same depth-corrected model.",
     ["inputs", "histories"],
     "every list of phase names with valid and invalid ones, every sequence "
     "of depths on one tool",
     "No test mixes bad phase names with good ones or changes the depth of "
     "a tool.",
     ["taupy/TauP_Time.py"],
     [("per-phase error handling and reuse", "TauP_Time.recalcPhases")],
     ["TauP_Time.recalcPhases", "TauP_Time.depthCorrect",
      ("TauP_Time.calculate", None)])

prop("P14", "A phase's tables are sums over the branches it crosses",
     "For each ray parameter in a phase's range the phase's distance and "
     "time are the sums, over the branches its legs cross, of the branch "
     "values, counted as often as P or S legs cross them; the range keeps "
     "exactly the model's ray parameters between its limits. Where the phase "
     "passes a high-slowness zone a shadow-zone sample is inserted at the "
     "zone's ray parameter, and phases with an empty range have empty "
     "tables.",
     ["inputs", "configurations"],
     "every phase, model and source depth",
     "Tests see only interpolated times of a few phases.",
     ["taupy/SeismicPhase.py"],
     [("summation", "SeismicPhase.sumBranches")],
     ["SeismicPhase.sumBranches", ("SeismicPhase.__init__", None)])

prop("P15", "Surface, head and diffracted waves follow their linear laws",
     "Diffracted and head waves extend their grazing ray by up to 60 and 20 "
     "degrees, with time growing by distance times the grazing ray "
     "parameter; surface waves named by a velocity in km/s have a time "
     "proportional to distance along the surface up to one full lap, and "
     "names without a positive finite velocity are refused. Pierce points "
     "and paths place that extra distance and time at the core-mantle "
     "boundary, the Moho or the surface, shared equally between its "
     "segments.",
     ["inputs"],
     "every such phase, distance and source depth",
     "Only Pdiff and Sdiff times at two distances are tested.",
     ["taupy/SeismicPhase.py"],
     [("extension", "SeismicPhase.sumBranches"),
      ("points", "SeismicPhase.handleHeadOrDiffractedWave, "
       "SeismicPhase.calcPathFromArrival")],
     ["SeismicPhase.sumBranches",
      "SeismicPhase.handleHeadOrDiffractedWave",
      "SeismicPhase.calcPathFromArrival",
      "SeismicPhase.calcPierceFromArrival"])

prop("P16", "Pierce points accumulate along the branches of the ray",
     "The pierce points of an arrival start at the source, follow its "
     "branches in order, carry the interpolated cumulative distance and "
     "time, and lie at the branch boundary crossed or at the turning depth "
     "of the ray, whichever is shallower. Branches that take no time add no "
     "point, and asking an arrival for its pierce points gives those of "
     "that arrival.",
     ["inputs"],
     "every arrival of every phase, source depth and distance",
     "One table of pierce points for one phase is compared.",
     ["taupy/SeismicPhase.py", "taupy/Arrival.py", "taupy/TauP_Pierce.py"],
     [("accumulation", "SeismicPhase.calcPierceFromArrival")],
     ["SeismicPhase.calcPierceFromArrival", "SeismicPhase.calcPierce",
      "Arrival.getPierce", "TauP_Pierce.calcPierce",
      "TauP_Pierce.calculate", "TimeDist.__init__"])

prop("P17", "Ray paths accumulate layer by layer along the branches",
     "The path of an arrival starts at the source and adds, layer by layer "
     "in the direction of travel and down to the exact turning depth, the "
     "distance and time of the arrival's ray parameter in each layer, each "
     "point at the depth where the layer is left. The points are cumulative, "
     "independent of each other, and a negative step is refused.",
     ["inputs"],
     "every arrival of every phase, source depth and distance",
     "One path table for one phase is compared.",
     ["taupy/SeismicPhase.py", "taupy/TauBranch.py", "taupy/Arrival.py",
      "taupy/TauP_Path.py"],
     [("path of a branch", "TauBranch.path"),
      ("accumulation", "SeismicPhase.calcPathFromArrival")],
     ["SeismicPhase.calcPathFromArrival", "SeismicPhase.calcPath",
      "TauBranch.path", "Arrival.getPath", "TauP_Path.calcPath",
      "TauP_Path.calculate", "TimeDist.add", "TimeDist.__init__",
      "SlownessLayer.hasZeroThickness"])

prop("P18", "Layer times and distances follow the Bullen law of the layer",
     "Within a layer slowness is a power of radius through the layer's end "
     "values; the time and distance of a ray through a layer, the slowness "
     "at a depth and the depth of a slowness are those of this law, with the "
     "exact end values at the boundaries and the limits for zero thickness, "
     "constant velocity and the centre. Rays that cannot cross the layer, "
     "and results that are negative or not numbers, are refused with an "
     "error rather than returned.",
     ["inputs"],
     "every layer and ray parameter, including degenerate ones",
     "One unit test evaluates a single layer.",
     ["taupy/SlownessLayer.py", "taupy/SlownessModel.py"],
     [("layer formulas", "SlownessLayer.bullenRadialSlowness, "
       "SlownessLayer.bullenDepthFor, SlownessLayer.evaluateAtBullen"),
      ("choice of formula and refusals", "SlownessModel.layerTimeDist")],
     ["SlownessLayer.bullenRadialSlowness", "SlownessLayer.bullenDepthFor",
      "SlownessLayer.evaluateAtBullen", "SlownessLayer.hasZeroThickness",
      "SlownessModel.layerTimeDist", "SlownessModel.approxDistance",
      "TimeDist.__init__", "TimeDist.add", "SlownessLayer.__init__"])

prop("P19", "Velocities at a boundary are taken from the asked-for side",
     "A value evaluated above a depth comes from the layer whose bottom may "
     "be that depth, one below it from the layer whose top may be that "
     "depth, and is the linear interpolation between that layer's end values "
     "of the asked-for material (P, S, density, in upper or lower case). "
     "Depths outside the model and unknown materials are refused with an "
     "error.",
     ["inputs"],
     "every depth, boundary and material",
     "Tests never query both sides of a boundary.",
     ["taupy/VelocityModel.py", "taupy/VelocityLayer.py"],
     [("one-sided lookup", "VelocityModel.layerNumberAbove/Below"),
      ("interpolation", "VelocityLayer.evaluateAt")],
     ["VelocityModel.layerNumberAbove", "VelocityModel.layerNumberBelow",
      "VelocityModel.evaluateAbove", "VelocityModel.evaluateBelow",
      "VelocityModel.depthAtTop", "VelocityModel.depthAtBottom",
      "VelocityLayer.evaluateAt", "VelocityLayer.evaluateAtTop",
      "VelocityLayer.evaluateAtBottom", "VelocityLayer.thickness",
      "VelocityLayer.__init__"])

prop("P20", "Inconsistent velocity models are rejected before sampling",
     "A velocity model whose radius or boundary depths are out of order or "
     "of wrong sign, that has no layers, whose layers leave gaps, overlap or "
     "have no thickness, or whose velocities are negative or switch between "
     "zero and non-zero within a layer, is reported invalid, and one that "
     "has none of these faults valid. Nothing is sampled from an invalid "
     "model, an empty one, or one that is fluid at the surface: an error is "
     "raised instead.",
     ["inputs"],
     "every velocity model",
     "Tests only use valid models.",
     ["taupy/VelocityModel.py", "taupy/SlownessModel.py"],
     [("validation", "VelocityModel.validate"),
      ("gate", "SlownessModel.createSample")],
     ["VelocityModel.validate", "VelocityModel.getNumLayers",
      "VelocityModel.__len__", ("SlownessModel.createSample", None)])

prop("P21", "A .tvel file is read into exactly the layers it lists",
     "After two header lines, each line gives depth, P, S velocity and "
     "density; blank lines and text after # are ignored, and consecutive "
     "lines form the layers, in order, numbered from 0, lines of equal depth "
     "forming a discontinuity and no layer. Files of unsupported type, "
     "lines without density and S velocities above the P velocity are "
     "refused with an error.",
     ["inputs"],
     "every file",
     "Two files of one shape are read by the tests.",
     ["taupy/VelocityModel.py"],
     [("parser", "VelocityModel.readTVelFile"),
      ("file type", "VelocityModel.readVelocityFile")],
     ["VelocityModel.readTVelFile", "VelocityModel.readVelocityFile",
      "VelocityModel.__init__", "VelocityLayer.__init__"])

prop("P22", "Moho, CMB and inner-core depths snap to real discontinuities",
     "After reading, the Moho and core-mantle depths are the depths of the "
     "velocity discontinuities closest to their nominal values, and the "
     "inner-core boundary that of the closest change from fluid to solid; "
     "without a candidate in range the Moho is the surface and the others "
     "the centre, and an inner-core boundary that would coincide with the "
     "core-mantle boundary is moved to the centre. The tau model's branch "
     "numbers of the three boundaries are those of the closest branch tops.",
     ["inputs", "configurations"],
     "every velocity model",
     "Tests use two models whose boundaries are at the nominal depths.",
     ["taupy/VelocityModel.py", "taupy/TauModel.py"],
     [("snapping", "VelocityModel.fixDisconDepths"),
      ("branch numbers", "TauModel.calcTauIncFrom")],
     ["VelocityModel.fixDisconDepths", "VelocityModel.getDisconDepths",
      ("TauModel.calcTauIncFrom",
       r"self\.(moho|cmb|iocb)(Branch|Depth)"),
      ("VelocityModel.readVelocityFile", None)])

prop("P23", "No slowness model is built that violates its own invariants",
     "Before a sampled model is used it is checked that its radius and "
     "limits are positive, that high-slowness and fluid zones are ordered, "
     "disjoint and of positive thickness, and that the P and S layers each "
     "tile the planet from the surface without gap or overlap, with "
     "continuous, non-negative, non-NaN slowness; any violation is raised "
     "as an error and never passed on to the tau model.",
     ["inputs", "programs"],
     "every sampling result",
     "Tests only build valid models, so no refusal is ever exercised.",
     ["taupy/SlownessModel.py", "taupy/SlownessLayer.py",
      "taupy/TauModel.py"],
     [("self check", "SlownessModel.validate, SlownessLayer.validate"),
      ("gates", "SlownessModel.createSample, TauModel.calcTauIncFrom")],
     ["SlownessModel.validate", "SlownessLayer.validate",
      "SlownessLayer.__init__",
      ("SlownessModel.createSample", r"result|calls made"),
      ("TauModel.calcTauIncFrom", r"result|calls made")])

prop("P24", "All critical depths and slowness zones of a model are found",
     "Scanning a velocity model finds the surface, every discontinuity and "
     "local slowness extremum of P or S, and the centre as critical depths, "
     "in order; every depth range where slowness exceeds its minimum above, "
     "with that minimum as its ray parameter, as a high-slowness zone of P "
     "or S; and every range of zero S velocity as a fluid zone. In fluids, "
     "and in the inner core if S waves are not allowed there, P takes the "
     "place of S.",
     ["inputs", "configurations"],
     "every velocity model and setting",
     "One test compares the zones of one model.",
     ["taupy/SlownessModel.py"],
     [("scan", "SlownessModel.findCriticalPoints"),
      ("depth of a slowness", "SlownessModel.findDepth")],
     ["SlownessModel.findCriticalPoints", "SlownessModel.findDepth",
      "SlownessModel.findDepth_from_depths", "SlownessModel.toSlowness",
      "SlownessModel.interpolate", "create_from_vlayer",
      "CriticalDepth.__init__", "DepthRange.__init__"])

prop("P25", "Sampling refines both wave types and keeps the layers tiling",
     "Slowness samples start as one layer per velocity layer and "
     "discontinuity for each wave type, and every refinement inserts a new "
     "slowness into the layers of both wave types by splitting each layer "
     "that contains it, at the depth that has this slowness, into two that "
     "meet there. Layers thicker than the depth limit are refined in equal "
     "steps, and layers are halved while neighbouring distances or "
     "interpolated times differ by more than their limits.",
     ["inputs", "configurations"],
     "every velocity model and sampling limits",
     "Tests build two models with default limits.",
     ["taupy/SlownessModel.py"],
     [("insertion", "SlownessModel.addSlowness"),
      ("first layers", "SlownessModel.coarseSample"),
      ("refinement", "SlownessModel.depthIncCheck, "
       "SlownessModel.distanceCheck")],
     ["SlownessModel.addSlowness", "SlownessModel.coarseSample",
      "SlownessModel.depthIncCheck", "SlownessModel.distanceCheck",
      "SlownessModel.approxDistance", "SlownessModel.depthInFluid",
      "SlownessModel.depthInHighSlowness",
      ("SlownessModel.createSample", r"calls made|result"),
      "SlownessLayer.__init__"])

prop("P26", "Wide slowness steps are refined within the step",
     "A layer whose slowness change exceeds the largest allowed step is "
     "refined at equal slowness steps that lie between the layer's own end "
     "slownesses.",
     ["inputs", "configurations"],
     "every velocity model and largest allowed step",
     "Model builds are compared as a whole or not at all.",
     ["taupy/SlownessModel.py"],
     [("equal steps", "SlownessModel.rayParamIncCheck")],
     ["SlownessModel.rayParamIncCheck"])

prop("P27", "Layer lookups find the layer that contains the depth",
     "For any depth within the model, the layer lookup of either wave type "
     "returns a layer that contains the depth; the variants for above and "
     "below return, at a boundary, the layer ending or starting there, past "
     "any layers of zero thickness. Depths outside are refused with an "
     "error; zone queries tell whether a depth lies in a fluid zone or a "
     "high-slowness zone for its ray parameter, and minimum ray parameters "
     "for a depth account for such zones.",
     ["inputs"],
     "every depth, wave type and list of layers",
     "Lookups are never tested on their own.",
     ["taupy/SlownessModel.py"],
     [("lookups", "SlownessModel.layerNumForDepth, layerNumberAbove, "
       "layerNumberBelow"), ("zones", "depthInHighSlowness, depthInFluid"),
      ("minimum ray parameters", "getMinTurnRayParam, getMinRayParam")],
     ["SlownessModel.layerNumForDepth", "SlownessModel.layerNumberAbove",
      "SlownessModel.layerNumberBelow", "SlownessModel.getSlownessLayer",
      "SlownessModel.getNumLayers", "SlownessModel.depthInFluid",
      "SlownessModel.depthInHighSlowness",
      "SlownessModel.getMinTurnRayParam", "SlownessModel.getMinRayParam"])

prop("P28", "A source depth splits layers of both wave types consistently",
     "Making a depth a layer boundary splits the layer of either wave type "
     "that contains it at the slowness found there, inserts that slowness "
     "into the layers of the other wave type wherever it occurs, and moves "
     "the layer numbers of all deeper critical depths along, so that layers "
     "still tile and critical depths still point at their layers. A depth "
     "that is a boundary already, or within a millimetre of one, adds no "
     "layer.",
     ["inputs", "configurations"],
     "every source depth and model",
     "Tests use a few source depths and see only final times.",
     ["taupy/SlownessModel.py"],
     [("splitting", "SlownessModel.splitLayer, fixOtherLayers, "
       "fixCriticalDepths")],
     ["SlownessModel.splitLayer", "SlownessModel.fixOtherLayers",
      "SlownessModel.fixCriticalDepths", "SlownessModel.fixCriticalPoints",
      "SplitLayerInfo.__init__", "CriticalDepth.__init__"])

prop("P29", "A tau model has one branch per critical zone and falling rays",
     "A tau model has, for P and for S, one branch between each two "
     "consecutive critical depths, and its ray parameters are the S "
     "slownesses in order of depth that are smaller than all before, hence "
     "strictly decreasing; each branch is limited by the smallest slowness "
     "above it.",
     ["inputs", "configurations"],
     "every slowness model",
     "Tests compare single values of one built model.",
     ["taupy/TauModel.py"],
     [("construction", "TauModel.calcTauIncFrom")],
     ["TauModel.calcTauIncFrom", ("TauModel.__init__", None),
      "SlownessModel.fixCriticalPoints"])

prop("P30", "Depth correction keeps boundary numbers and the source in step",
     "After a source at some depth is put into a model, the Moho, "
     "core-mantle and inner-core branch numbers still name the branches "
     "below those boundaries, the source branch is the one whose top is the "
     "source, all branches are re-tabulated for the added ray parameters, "
     "and ray parameters stay strictly decreasing. Sources below the centre, "
     "and a second correction of a corrected model, are refused with a "
     "model error.",
     ["inputs", "configurations"],
     "every source depth and model",
     "Tests use a few depths and see only final times.",
     ["taupy/TauModel.py"],
     [("splitting", "TauModel.splitBranch"),
      ("source", "TauModel.depthCorrect, TauModel.findBranch")],
     ["TauModel.splitBranch", "TauModel.depthCorrect",
      "TauModel.findBranch", "TauModel.getTauBranch",
      "TauModel.loadFromDepthCache", "TauModel.validate"])

prop("P31", "Branch tables stay aligned with the ray parameters",
     "A branch keeps one distance, one time and one tau (time minus ray "
     "parameter times distance) for every ray parameter of the model, "
     "summed over the layers the ray crosses until it turns; inserting a ray "
     "parameter and splitting a branch in two keep the three tables "
     "together, and the lower part of a split branch is the branch minus its "
     "upper part. A branch that does not fit the slowness layers is refused "
     "with a model error.",
     ["inputs", "configurations"],
     "every branch, ray parameter and source depth",
     "Tests see only interpolated times.",
     ["taupy/TauBranch.py"],
     [("tables", "TauBranch.createBranch, calcTimeDist"),
      ("updates", "TauBranch.insert, shiftBranch, difference")],
     ["TauBranch.createBranch", "TauBranch.calcTimeDist",
      "TauBranch.insert", "TauBranch.shiftBranch", "TauBranch.difference",
      "TauBranch.__init__", "TimeDist.add"])

prop("P32", "P and S quantities are never exchanged",
     "Whatever is computed for P waves uses P velocities, P layers, P zones "
     "and P branches, and whatever is computed for S waves the S ones, with "
     "the only exception that P takes the place of S in fluids and, when S "
     "is not allowed there, in the inner core.",
     ["inputs", "programs"],
     "every computation that exists for both wave types",
     "A wrong wave type shows in few phases, depths or models only.",
     ["taupy/SlownessModel.py", "taupy/SlownessLayer.py",
      "taupy/VelocityLayer.py", "taupy/TauModel.py", "taupy/TauBranch.py",
      "taupy/SeismicPhase.py"],
     [("selection by wave type", "every function with a wave type")],
     ["SlownessModel.getSlownessLayer", "SlownessModel.getNumLayers",
      "SlownessModel.layerNumberBelow", "SlownessModel.layerNumForDepth",
      "SlownessModel.layerNumberAbove",
      "SlownessModel.depthInHighSlowness",
      "SlownessModel.getMinTurnRayParam", "SlownessModel.getMinRayParam",
      "SlownessModel.findDepth", "SlownessModel.findDepth_from_depths",
      "SlownessModel.fixCriticalDepths", "SlownessModel.fixOtherLayers",
      "SlownessModel.splitLayer", "SlownessModel.fixCriticalPoints",
      "SlownessModel.addSlowness", "SlownessModel.coarseSample",
      "SlownessModel.depthIncCheck", "SlownessModel.distanceCheck",
      "SlownessModel.findCriticalPoints",
      "create_from_vlayer", "VelocityLayer.evaluateAt",
      "VelocityLayer.evaluateAtTop", "VelocityLayer.evaluateAtBottom",
      "VelocityLayer.__init__", "VelocityModel.readTVelFile",
      "TauModel.getTauBranch", "TauModel.calcTauIncFrom",
      "TauModel.splitBranch", "TauBranch.createBranch",
      "TauBranch.insert", "TauBranch.difference", "TauBranch.path",
      "TauBranch.calcTimeDist", "SlownessModel.approxDistance",
      "SlownessModel.layerTimeDist", "SeismicPhase.sumBranches",
      "SeismicPhase.phaseConversion", "SeismicPhase.addToBranch",
      "SeismicPhase.calcPierceFromArrival",
      "SeismicPhase.calcPathFromArrival",
      "SeismicPhase.linearInterpArrival", "SeismicPhase.parseName"])

prop("P33", "Models are written and found under one naming scheme",
     "A model named without a directory is loaded from the package's own "
     "models if there is one for the running Python version, named by the "
     "bare name without extension; a path with a directory, or an unknown "
     "name, is loaded as the file it names and nothing else. Creating a "
     "model writes it under the output directory, which is created if "
     "needed, by the name of its input file with the extension .taup.",
     ["inputs", "configurations"],
     "every model name, with or without directory and extension",
     "Tests load built-in models by their plain name.",
     ["taupy/TauModelLoader.py", "taupy/utils.py", "taupy/TauP_Create.py",
      "taupy/TauModel.py"],
     [("file name", "_get_model_filename"), ("choice", "load"),
      ("writing", "TauP_Create.main, TauP_Create.run, TauModel.writeModel")],
     ["_get_model_filename", "load", "TauP_Create.main", "TauP_Create.run",
      "TauModel.writeModel", "create_taup_model"])

prop("P34", "Every argument of a query reaches the computation it names",
     "Source depth, distance, coordinates, phase list and model given to the "
     "Python interface or on the command line are the ones used, in the "
     "stated units, for travel times, pierce points and ray paths alike; "
     "what is not given keeps its default (iasp91, depth 0, all phases of "
     "ttall). The interface returns the computed arrivals, or nothing when "
     "it prints.",
     ["inputs", "configurations"],
     "every combination of arguments",
     "Tests use one argument combination per tool.",
     ["taupy/tau.py", "taupy/TauP_Time.py", "taupy/TauP_Pierce.py",
      "taupy/TauP_Path.py"],
     [("interface", "TauPyModel"), ("constructors", "TauP_Time.__init__, "
       "TauP_Pierce.__init__, TauP_Path.__init__"),
      ("command line", "TauP_Time.readcmdLineArgs")],
     ["TauPyModel.__init__", "TauPyModel.get_travel_times",
      "TauPyModel.get_pierce_points", "TauPyModel.get_ray_paths",
      "Arrivals.__init__", "TauP_Time.__init__", "TauP_Pierce.__init__",
      "TauP_Path.__init__", "TauP_Time.readcmdLineArgs",
      "TauP_Pierce.readcmdLineArgs",
      "TauP_Time.run", "TauP_Time.depthCorrect", "TauP_Time.calculate",
      "TauP_Pierce.calculate", "TauP_Path.calculate",
      "TauP_Pierce.calcPierce", "TauP_Path.calcPath",
      "TauP_Pierce.depthCorrect"])

prop("P35", "Model-creation settings reach the sampler unchanged",
     "The input file, the limits on slowness step, depth step, distance "
     "step (given in degrees, used in radians), interpolation error and the "
     "permission of S waves in the inner core given to model creation are "
     "the ones the sampler works with, and the model written is the one "
     "built from that file. A missing or flat velocity model is refused "
     "with an error.",
     ["inputs", "configurations"],
     "every combination of settings",
     "Tests use the default settings.",
     ["taupy/TauP_Create.py", "taupy/SlownessModel.py"],
     [("settings", "TauP_Create.__init__, TauP_Create.createTauModel, "
       "SlownessModel.__init__"), ("file", "TauP_Create.loadVMod")],
     ["TauP_Create.__init__", "TauP_Create.createTauModel",
      "TauP_Create.loadVMod", "TauP_Create.run", "TauP_Create.main",
      ("SlownessModel.__init__", None), ("TauModel.__init__", None)])

prop("P36", "Printed results state the values that were computed",
     "Printing shows every arrival once, in order, with its own distance, "
     "source depth, phase name, time, ray parameter in seconds per degree, "
     "angles and purist name and distance, in columns of fixed width and "
     "precision. Pierce points are printed as distance, depth and time "
     "(negative distances for rays going the long way round), restricted "
     "to turning, reflecting, underside or requested points when asked, "
     "each judged against its neighbours; paths as distance and radius, "
     "cut off and interpolated at the maximum time and step. Results are "
     "printed if and only if that was asked for; then the interface "
     "returns nothing. Text forms of arrivals list all of them.",
     ["inputs", "configurations"],
     "every list of arrivals and every printing option",
     "Tests compare the printed text of a few phases in one model; the "
     "restrictions, the long way round and path cut-off are never printed.",
     ["taupy/TauP_Time.py", "taupy/TauP_Pierce.py", "taupy/TauP_Path.py",
      "taupy/tau.py", "taupy/Arrival.py"],
     [("printing", "TauP_Time.printResult, TauP_Pierce.printResult, "
       "TauP_Path.printResult"),
      ("on request only", "TauP_Time.run")],
     ["TauP_Time.printResult", "TauP_Pierce.printResult",
      "TauP_Path.printResult", "TauP_Path.printDistRadius",
      "TauP_Pierce.getCommentLine", "Arrival.__str__", "Arrivals.__str__",
      "Arrivals.__repr__", "TauP_Time.run", "Arrival.getModuloDistDeg",
      "Arrival.getDistDeg", "TimeDist.getDistDeg",
      "TauPyModel.get_travel_times", "TauPyModel.get_pierce_points",
      "TauPyModel.get_ray_paths"])

prop("P37", "Requested pierce depths become boundaries of the model traced",
     "When pierce points are asked for at given depths, every one of these "
     "depths is made a boundary of the model before the source is put into "
     "it, so that each ray crossing it has a point there; without requested "
     "depths the model is only corrected for the source. The model the tool "
     "was given is the one it holds afterwards, a model corrected for "
     "another source depth is never reused, phases are set up again on the "
     "corrected model, and every calculation starts from an empty list of "
     "arrivals. The boundary depths of a model are those of its branches, "
     "from the surface down.",
     ["inputs", "histories"],
     "every list of requested depths, source depth and history of calls",
     "No test requests a pierce depth.",
     ["taupy/TauP_Pierce.py", "taupy/TauModel.py"],
     [("requested depths", "TauP_Pierce.depthCorrect"),
      ("boundaries", "TauModel.getBranchDepths, TauModel.splitBranch")],
     ["TauP_Pierce.depthCorrect", "TauP_Pierce.calculate",
      "TauP_Pierce.__init__", "TauP_Pierce.calcPierce",
      "TauModel.getBranchDepths", "TauModel.splitBranch",
      "TauP_Time.depthCorrect", "TauP_Time.recalcPhases",
      "TauModel.depthCorrect"])

NOT_APPLICABLE = [
    ("N01", "Results agree with the Java TauP to its printed precision",
     "Travel times, ray parameters, angles, pierce points and paths agree "
     "with those of the Java TauP toolkit for the same model.",
     "Numerical agreement of results with another program quantifies over "
     "values that no argument about the source can bound; the formulas are "
     "decided instead (P04, P05, P14 to P18)."),
    ("N02", "Interpolated times stay within the requested error",
     "Interpolated travel times differ from exact ones by no more than the "
     "interpolation error requested for the model.",
     "Needs numerical error bounds of the sampled curve, which is not a "
     "fact about the shape of the code."),
    ("N03", "Model creation always terminates",
     "Creating a model terminates for every valid velocity model.",
     "The refinement loops stop because of numerical facts (intervals "
     "shrink below limits); no ranking function is visible in the source."),
    ("N04", "Travel times are reciprocal",
     "Exchanging source and receiver at equal depth leaves times unchanged, "
     "and phases and their reversed counterparts have equal times.",
     "A numerical identity between two runs, not a structural one."),
    ("N05", "Interrupted model creation leaves no damaged model file",
     "A model file is either complete or absent after a crash while "
     "writing.",
     "The code makes no such attempt (it writes in place); a check would "
     "only restate that."),
    ("N06", "Sources within a millimetre of a boundary give arrivals",
     "Every source depth in the planet gives arrivals, also when it is "
     "nearly but not exactly at a boundary.",
     "Whether the arithmetic survives depends on rounding of depths; "
     "depths within 1e-6 km of a boundary are known to fail (DESIGN.md), "
     "and no static rule here decides it."),
]
