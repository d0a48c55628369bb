from mbv import Check

CHECK = Check(
    'P18', driver='p18', trace='P18Trace',
    design=[('Lock', 'LockMC.cfg', 200, 200)],
    gens=[('Lock', 'P18Gen.cfg', 600, 6000, 8)],
    quick=dict(budget=25), thorough=dict(budget=300),
    assumptions=['The documents of one history never override each other, so the documents a consumer holds are the '
                 'ones it took in.'])
