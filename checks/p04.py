from mbv import Check

CHECK = Check(
    'P04', driver='p04', trace='P04Trace',
    design=[('Relay', 'RelayMC.cfg', 200, 200)],
    gens=[('Relay', 'P04Gen.cfg', 400, 4000, 15)],
    quick=dict(budget=15, workers=3), thorough=dict(budget=300),
    assumptions=['Documents arrive through process_document one at a time (the nodes are single threaded).'])
