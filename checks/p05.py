from mbv import Check

CHECK = Check(
    'P05', driver='p05', trace='P05Trace',
    design=[('Timing', 'TimingMC.cfg', 300, 300), ('Timing', 'TimingMC4.cfg', None, 800), ('Timing', 'TimingMC5.cfg', None, 1500)],
    gens=[('Timing', 'P05Gen.cfg', 300, 4000, 10), ('Timing', 'P05GenS.cfg', 300, 3000, 6)],
    quick=dict(budget=25), thorough=dict(budget=300),
    assumptions=['Elements that are never active (end not after begin) may or may not be listed for a time range.'])
