from mbv import Check

CHECK = Check(
    'P12', driver='p12', trace='P12Trace',
    design=[('Resolve', 'ResolveMC.cfg', 200, 200), ('Resolve', 'ResolveMC4.cfg', None, 1200)],
    gens=[('Resolve', 'P12Gen.cfg', 300, 3000, 3)],
    quick=dict(budget=25), thorough=dict(budget=420),
    assumptions=['Cells are square in pixels; percentages are multiples of 25, so that sizes are exact.',
                 'A percentage line height stated by a body or div is not judged: its font size is left open until the '
                 'content is known.'])
