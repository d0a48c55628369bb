from mbv import Check

CHECK = Check(
    'P01', driver='p01', trace='P01Trace',
    design=[('Timeline', 'TimelineMC.cfg', 300, 600), ('Timeline', 'TimelineMC4.cfg', 0, 3000)],
    gens=[('TimelineGen', 'P01Gen.cfg', 1500, 20000, 6)],
    quick=dict(budget=40),
    assumptions=[
        'Time moves in whole model units (1 s); queries probe each unit and each half unit.',
        'Computed begin and end times of a document are taken as the code reports them (P05 decides those).',
    ])
