from mbv import Check

CHECK = Check(
    'P09', driver='p09', trace='P09Trace',
    design=[('Retime', 'RetimeMC.cfg', 200, 200), ('Retime', 'RetimeMC5.cfg', None, 2400)],
    gens=[('Retime', 'P09Gen.cfg', 600, 6000, 10)],
    quick=dict(budget=30), thorough=dict(budget=420),
    assumptions=['Times are whole milliseconds; the intervals compared are those the document states, that is, at '
                 'availability 0.'])
