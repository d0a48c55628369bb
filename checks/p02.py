from mbv import Check

CHECK = Check(
    'P02', driver='p02', trace='P01Trace',
    design=[('Timeline', 'TimelineMC.cfg', 300, 600)],
    gens=[('TimelineGen', 'P02Gen.cfg', 1500, 20000, 7)],
    quick=dict(budget=35),
    assumptions=['A number counts as present while the sequence holds the document, as retrieval by number reports.'])
