from mbv import Check

CHECK = Check(
    'P08', driver='p08', trace='P08Trace',
    design=[('Ident', 'IdentMC1.cfg', 300, 300), ('Ident', 'IdentMC.cfg', None, 1500)],
    gens=[('Ident', 'P08Gen.cfg', 250, 3000, 3)],
    quick=dict(budget=30), thorough=dict(budget=400),
    assumptions=['Documents spliced together agree on root extent and cell resolution.'])
