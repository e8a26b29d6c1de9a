"""The values of class-level constants and attribute defaults, as the
reference definitions understand them."""

DECLARED = {
    'SeismicPhase.expert': 'False',
    'SeismicPhase.TURN': '0',
    'SeismicPhase.REFLECTTOP': '1',
    'SeismicPhase.REFLECTBOT': '2',
    'SeismicPhase.TRANSUP': '3',
    'SeismicPhase.TRANSDOWN': '4',
    'SeismicPhase.maxRefraction': '20',
    'SeismicPhase.maxDiffraction': '60',
    'SlownessModel.DEFAULT_SLOWNESS_TOLERANCE': '1e-16',
    'SlownessModel.radiusOfEarth': '6371.0',
    'SlownessModel.criticalDepths': '[]',
    'SlownessModel.highSlownessLayerDepthsP': '[]',
    'SlownessModel.highSlownessLayerDepthsS': '[]',
    'SlownessModel.fluidLayerDepths': '[]',
    'SlownessModel.PLayers': '[]',
    'SlownessModel.SLayers': '[]',
    'SlownessModel.SWAVE': 'False',
    'SlownessModel.PWAVE': 'True',
    'TauModel.sourceDepth': '0.0',
    'TauModel.radiusOfEarth': '6371.0',
    'TauModel.sourceBranch': '0',
    'TauModel.noDisconDepths': '[]',
    'VelocityModel.radiusOfEarth': '6371.0',
    'VelocityModel.default_moho': '35',
    'VelocityModel.default_cmb': '2889.0',
    'VelocityModel.default_iocb': '5153.9',
    'Arrivals.__slots__': "['arrivals']",
}

# codes whose values do not matter as long as they differ
CODES = [
    ["SeismicPhase.TURN", "SeismicPhase.REFLECTTOP",
     "SeismicPhase.REFLECTBOT", "SeismicPhase.TRANSUP",
     "SeismicPhase.TRANSDOWN"],
]
