from mbv import Check

CHECK = Check(
    'P03', driver='p03', trace='P03Trace',
    design=[('Handover', 'HandoverMC.cfg', 200, 200), ('Handover', 'HandoverTok.cfg', 200, 200),
            ('Handover', 'HandoverMC4.cfg', 0, 3000)],
    gens=[('Handover', 'P03Gen.cfg', 600, 10000, 10), ('Handover', 'P03GenMix.cfg', 500, 10000, 10)],
    quick=dict(budget=25),
    assumptions=['Documents arrive through process_document one at a time (the nodes are single threaded).'])
