from mbv import Check

CHECK = Check(
    'P06', driver='p06', trace='P06Trace',
    design=[('Segment', 'SegmentMC.cfg', 300, 300), ('Segment', 'SegmentMC2.cfg', None, 2500)],
    gens=[('Segment', 'P06Gen.cfg', 400, 4000, 12)],
    quick=dict(budget=30), thorough=dict(budget=400),
    assumptions=['Texts are compared word by word: white space around elements is not significant.'])
