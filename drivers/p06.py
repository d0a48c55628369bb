# P06/P08: fragments of documents and of sequences.
from datetime import timedelta
import docgen
import docxml
import project
import nodes as nodes_
from harness import ms, errname
from ebu_tt_live.documents import EBUTT3Document, EBUTT3DocumentSequence
from ebu_tt_live.clocks import get_clock

STYLED = False


def td(x):
    return None if x < 0 else timedelta(milliseconds=x)


def points(docs, rng, span):
    pts = [0]
    for d in docs:
        for n in d['nodes']:
            pts += [x for x in (n['b'], n['e'], d.get('avail', 0)) if x >= 0]
    return pts + [rng.randint(0, span) for i in range(4)]


def rand(rng):
    unit = rng.choice([1000, 500, 250])
    span = rng.choice([4, 8, 12])
    styled = STYLED or rng.random() < 0.4
    docs = []
    nd = rng.choice([1, 2, 3, 3, 4])
    nums = list(range(1, nd + 3))
    if rng.random() < 0.4:
        # numbers that look alike
        base, step = rng.choice([1, 2, 7]), rng.choice([9, 10, 100, 1000, 256, 65536])
        nums = [base + i * step for i in range(nd + 2)]
    rng.shuffle(nums)
    mixed = rng.random() < 0.4
    sids = ['s1', 's2', 's3', 's4'] if styled else []
    rids = ['r1', 'r2'] if styled and rng.random() < 0.7 else []
    for i in range(nd):
        mysids = sids[:rng.randint(0, 4)] if sids else []
        myrids = rids[:rng.randint(0, 2)] if rids else []
        o = dict(span=span, step=unit, pt=rng.choice([0.3, 0.5]), pd=0.2, bad=rng.random() < 0.3, mixed=mixed,
                 size=rng.choice([4, 8, 14]), tag='d%dt' % (i + 1), idpre='n', styles=mysids, regions=myrids)
        T = docgen.tree(rng, o)
        if rng.random() < 0.7 and T[0]['b'] < 0:
            T[0]['b'] = rng.randint(0, span * 2) * unit
            if T[0]['e'] >= 0 and T[0]['e'] <= T[0]['b']:
                T[0]['e'] = T[0]['b'] + rng.randint(1, span) * unit
        if rng.random() < 0.03:
            T = []
        d = dict(n=nums[i], avail=rng.choice([0, 0, 0, rng.randint(1, 2 * span) * unit]), nodes=T)
        if styled:
            d['styles'] = docgen.styles(rng, mysids)
            d['regions'] = docgen.regions(rng, myrids, mysids)
        docs.append(d)
    pts = points(docs, rng, 3 * span * unit)
    steps = []

    def window():
        f = rng.choice(pts) + rng.choice([0, 0, 0, 1, -1, unit // 2])
        f = max(0, f) if rng.random() < 0.9 else -1
        t = rng.choice([-1, max(f, 0) + rng.randint(1, 2 * span) * unit, rng.choice(pts), rng.choice(pts) + 1])
        if t >= 0 and t <= f:
            t = f + rng.choice([1, unit, 3 * unit])
        return f, t
    for i in range(nd):
        for q in range(rng.choice([0, 1, 1, 2])):
            f, t = window()
            steps.append(dict(ev='doc', k=i + 1, f=f, t=t, dec=rng.randint(0, 1)))
        steps.append(dict(ev='add', k=i + 1))
        if i + 1 == nd or rng.random() < 0.3:
            for q in range(rng.choice([1, 2, 3])):
                f, t = window()
                steps.append(dict(ev='seq', f=max(f, 0), t=t))
    return dict(docs=docs, steps=steps, tb=rng.choice(['clock', 'media']))


def of_gen(beh, rng):
    """A generated document: cut it everywhere it matters."""
    T = beh['nodes']
    for i, n in enumerate(T):
        n.update(id='p%d' % i if n['k'] == 'p' else '', st=[], rg='')
    d = dict(n=1, avail=beh['avail'], nodes=T)
    pts = sorted(set(points([d], rng, 9000)))
    steps = [dict(ev='doc', k=1, f=-1, t=-1, dec=0)]
    for q in range(3):
        f = rng.choice(pts)
        t = rng.choice([-1] + [x for x in pts if x > f])
        steps.append(dict(ev='doc', k=1, f=f, t=t, dec=q % 2))
    steps.append(dict(ev='add', k=1))
    f = rng.choice(pts)
    steps.append(dict(ev='seq', f=f, t=rng.choice([-1] + [x for x in pts if x > f])))
    return dict(docs=[d], steps=steps, tb='clock')


def build(d, tb):
    cm = 'local' if tb == 'clock' else ''
    xml = docxml.build(dict(sid='s', n=d['n'], tb=tb, cm=cm, nodes=d['nodes'], styles=d.get('styles'),
                            regions=d.get('regions')), vary=True)
    doc = EBUTT3Document.create_from_xml(xml)
    if d.get('avail'):
        doc.availability_time = td(d['avail'])
    return doc


def state(doc):
    return (nodes_.canon(doc.get_xml(), drop=()), doc.computed_begin_time, doc.computed_end_time, doc.availability_time)


def fragment(ev, frag, styled):
    xml = frag.get_xml()
    p = project.project(xml)
    ev['nodes'] = project.slim(p['nodes'], styled)
    if styled:
        ev['styles'], ev['regions'] = p['styles'], p['regions']
    try:
        EBUTT3Document.create_from_xml(xml)
        ev['valid'] = True
    except Exception as e:
        ev['valid'] = False
        ev['why'] = errname(e)
    ev['out'] = 'ok'


def execute(ctx, src, beh, styled=False):
    heads = [dict(n=d['n'], avail=d.get('avail', 0), nodes=project.slim(d['nodes'], styled)) for d in beh['docs']]
    if styled:
        for h, d in zip(heads, beh['docs']):
            h['styles'], h['regions'] = d.get('styles') or [], d.get('regions') or []
    ctx.reset(src, beh, docs=heads)
    tb = beh.get('tb', 'clock')
    docs = [build(d, tb) for d in beh['docs']]
    seq = EBUTT3DocumentSequence(sequence_identifier='s', lang='en-GB', reference_clock=get_clock(
        'clock', clock_mode='local') if tb == 'clock' else get_clock('media'))
    held = []
    for x in beh['steps']:
        if x['ev'] == 'add':
            ev = dict(ev='add', k=x['k'])
            try:
                seq.add_document(docs[x['k'] - 1])
                held.append(docs[x['k'] - 1])
                ev['out'] = 'ok'
            except Exception as e:
                ev['out'] = 'error:' + errname(e)
            ctx.emit(ev)
            continue
        ev = {'ev': x['ev'], 'from': x['f'], 'to': x['t'], 'must': x.get('must', [])}
        watch = [docs[x['k'] - 1]] if x['ev'] == 'doc' else held
        try:
            before = [state(d) for d in watch]
            if x['ev'] == 'doc':
                ev['k'] = x['k']
                frag = docs[x['k'] - 1].extract_segment(begin=td(x['f']), end=td(x['t']),
                                                        deconflict_ids=bool(x.get('dec')))
            else:
                frag = seq.extract_segment(begin=td(x['f']), end=td(x['t']))
            ev['same'] = before == [state(d) for d in watch]
            fragment(ev, frag, styled)
        except Exception as e:
            ev['out'] = 'error:' + errname(e)
            ev['msg'] = str(e)[:200] if not isinstance(e, UnicodeError) else ''
        ctx.emit(ev)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh if 'docs' in beh else of_gen(beh, ctx.rng))
