# P08: identity and styling in fragments.
import random
import docgen
import p06
from p06 import execute


def rand(rng):
    p06.STYLED = True
    beh = p06.rand(rng)
    uni = rng.random() < 0.2
    for d in beh['docs']:
        if rng.random() < 0.5:
            for s in d['styles']:
                s['at'].update(extra(rng))
        if rng.random() < 0.3:
            d['regions'] and rng.choice(d['regions'])['at'].update(
                padding=rng.choice(['1%', '2px', '1% 2%']), showBackground=rng.choice(['always', 'whenActive']))
    if uni:
        beh['docs'] = [rename(d) for d in beh['docs']]
    return beh


def extra(rng):
    at = {}
    for k, vs in (('fontSize', ['80%', '100%', '150%', '1c']), ('lineHeight', ['normal', '120%']),
                  ('direction', ['ltr', 'rtl']), ('textDecoration', ['none', 'underline']),
                  ('unicodeBidi', ['normal', 'embed']), ('wrapOption', ['wrap', 'noWrap']), ('padding', ['1c', '2px']),
                  ('linePadding', ['0.5c']), ('multiRowAlign', ['start', 'center', 'end'])):
        if rng.random() < 0.25:
            at[k] = rng.choice(vs)
    return at


def rename(d):
    """The same document with names that are not ASCII."""
    f = lambda x: x and x + u'\u00e9'
    d = dict(d)
    d['nodes'] = [dict(n, id=f(n['id']), rg=f(n['rg']), st=[f(x) for x in n['st']]) for n in d['nodes']]
    for key in ('styles', 'regions'):
        d[key] = [dict(s, id=f(s['id']), st=[f(x) for x in s['st']]) for s in d[key]]
    return d


def of_gen(beh, rng):
    docs = []
    nums = rng.choice([(1, 2), (1, 2), (1, 11), (2, 12), (1, 101), (7, 107), (1, 1001), (23, 65559), (10, 100)])
    for k, d in enumerate(beh['docs']):
        T = [dict(n) for n in d['T']]
        T[0]['b'], T[0]['e'] = [(0, 10000), (4000, -1)][k]
        sty = [dict(s, at=dict(color='#%02x00%02x' % (ord(s['at']['color'][0]), k + 1)) if s['at'] else {}) for s in d['S']]
        reg = [dict(r, at=dict(origin='%d%% 0%%' % (k + 1), extent='50% 50%')) for r in d['R']]
        docs.append(dict(n=nums[k], avail=0, nodes=T, styles=sty, regions=reg))
    f, t = rng.choice([(0, 10000), (0, -1), (3000, 5000), (4000, 9000), (1000, 3000)])
    steps = [dict(ev='doc', k=rng.choice([1, 2]), f=4000, t=6000, dec=rng.randint(0, 1)), dict(ev='add', k=1),
             dict(ev='add', k=2), dict(ev='seq', f=f, t=t)]
    must = ['t1', 't2'] if f < 4000 and (t < 0 or t > 4000) else ['t1'] if t > 0 and t <= 4000 else ['t2']
    steps[-1]['must'] = must
    return dict(docs=docs, steps=steps, tb=rng.choice(['clock', 'media']))


def run(ctx):
    p06.STYLED = True
    for src, beh in ctx.schedule(rand):
        if 'steps' not in beh:
            beh = of_gen(beh, ctx.rng)
        execute(ctx, src, beh, styled=True)
