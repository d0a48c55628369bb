from mbv import Check

CHECK = Check(
    'P07', driver='p07', trace='P07Trace',
    design=[('Reseq', 'ReseqMC.cfg', 300, 300), ('Reseq', 'ReseqMC4.cfg', None, 800), ('Reseq', 'ReseqMC5.cfg', None, 2500)],
    gens=[('Reseq', 'P07Gen.cfg', 300, 4000, 14)],
    quick=dict(budget=30), thorough=dict(budget=400),
    assumptions=['A document whose number equals that of one overridden or forgotten may be taken in again.'])
