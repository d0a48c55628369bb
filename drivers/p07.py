# P07: the resequencing node.
import os
from datetime import timedelta
import docgen
import docxml
import nodes
import p06
import project
from harness import errname, ms
from ebu_tt_live.clocks import get_clock
from ebu_tt_live.documents import EBUTT3Document
from ebu_tt_live.node.consumer import ReSequencer

OUT = 'OUT'


def late(rng):
    """Documents that come after what supersedes them is over."""
    docs, steps = [], []
    ln = rng.choice([2000, 3000, 5000])
    k = rng.randint(2, 4)
    for i in range(k):
        b = rng.randint(0, 4) * 1000
        e = b + rng.choice([1000, 2000, 3000, 6000, 12000])
        docs.append(dict(n=k + 1 - i if rng.random() < 0.8 else rng.randint(1, 6), nodes=[
            dict(k=k_, par=j, b=-1, e=-1, d=-1, id='p1' if k_ == 'p' else '', st=[], rg='', tx='d%dt1' % (i + 1) if k_ == 'text' else '')
            for j, k_ in enumerate(['body', 'div', 'p', 'text'])]))
        docs[-1]['nodes'][0].update(b=b, e=e if rng.random() < 0.9 else -1)
        steps.append(dict(ev='doc', k=i + 1, avail=0, now=0))
        steps += [dict(ev='cut')] * rng.choice([1, 1, 2, 3])
    steps += [dict(ev='cut')] * 4
    return dict(docs=docs, steps=steps, tb='clock', disc=rng.random() < 0.8, len=ln, start=0, init='')


def rand(rng):
    if rng.random() < 0.25:
        return late(rng)
    unit = rng.choice([1000, 500])
    span = rng.choice([3, 6, 10])
    nd = rng.choice([1, 2, 3, 4, 5])
    nums = [rng.randint(1, nd + 2) for i in range(nd)] if rng.random() < 0.6 else rng.sample(range(1, nd + 3), nd)
    docs = []
    mixed = rng.random() < 0.2
    for i in range(nd):
        o = dict(span=span, step=unit, pt=0.3, pd=0.2, bad=rng.random() < 0.2, mixed=mixed, size=rng.choice([3, 6]),
                 tag='d%dt' % (i + 1), idpre='n')
        T = docgen.tree(rng, o)
        if rng.random() < 0.8 and T[0]['b'] < 0:
            T[0]['b'] = rng.randint(0, span * 2) * unit
            if 0 <= T[0]['e'] <= T[0]['b']:
                T[0]['e'] = T[0]['b'] + rng.randint(1, span) * unit
        if rng.random() < 0.04:
            T = []
        docs.append(dict(n=nums[i], nodes=T))
    steps = []
    for i in range(nd):
        for q in range(rng.choice([0, 0, 1, 2])):
            steps.append(dict(ev='cut'))
        steps.append(dict(ev='doc', k=i + 1, avail=rng.choice([-1, 0, 0, rng.randint(0, 3 * span) * unit]),
                          now=rng.randint(0, 2 * span) * unit))
    for q in range(rng.choice([1, 2, 4, 8])):
        steps.append(dict(ev='cut'))
        if rng.random() < 0.2:
            steps.append(dict(ev='doc', k=rng.randint(1, nd), avail=0, now=0))
    return dict(docs=docs, steps=steps, tb=rng.choice(['clock', 'clock', 'media']), disc=rng.random() < 0.6,
                len=rng.choice([1, 2, 3, 5, span]) * unit, start=rng.choice([0, 0, rng.randint(0, span) * unit]),
                init=rng.choice(['', '', '', 's']))


def of_gen(beh, rng):
    docs, steps = [], []
    for x in beh['steps']:
        if x['ev'] == 'doc':
            e = x['e'] * 1000 if x['e'] >= 0 else -1
            p = dict(k='p', par=2, id='p1', b=-1, e=-1, d=-1, st=[], rg='', tx='')
            b = dict(p, k='body', par=0, id='', b=x['b'] * 1000, e=e)
            docs.append(dict(n=x['n'], nodes=[b, dict(p, k='div', par=1, id=''), p,
                                              dict(p, k='text', par=3, id='', tx='d%dt1' % (len(docs) + 1))]))
            steps.append(dict(ev='doc', k=len(docs), avail=0, now=0))
        else:
            steps.append(dict(ev='cut'))
    return dict(docs=docs, steps=steps, tb='clock', disc=beh['disc'], len=beh['len'] * 1000, start=0, init='')


def execute(ctx, src, beh):
    tb = beh['tb']
    cm = 'local' if tb == 'clock' else ''
    clock = get_clock('clock', clock_mode='utc')
    clock.set_fixed_time_mode(True)
    clock.set_fixed_time(timedelta(milliseconds=beh['start']))
    kw = {}
    if beh['init']:
        path = os.path.join(ctx.scratch, 'init.xml')
        with open(path, 'w') as f:
            f.write(docxml.build(dict(sid='s', n=1, tb=tb, cm=cm, nodes=[dict(k='body', par=0)])))
        kw['init_document'] = path
    rec = nodes.Rec()
    node = ReSequencer(node_id='r', reference_clock=clock, segment_length=beh['len'] / 1000.0, discard=beh['disc'],
                       sequence_identifier=OUT, producer_carriage=rec, **kw)
    ctx.reset(src, beh, docs=[dict(n=d['n'], nodes=project.slim(d['nodes'])) for d in beh['docs']],
              len=beh['len'], start=beh['start'], init=beh['init'])
    for x in beh['steps']:
        if x['ev'] == 'doc':
            doc = p06.build(dict(beh['docs'][x['k'] - 1], avail=0), tb)
            clock.set_fixed_time(timedelta(milliseconds=x['now']))
            avail = x['now'] if x['avail'] < 0 else x['avail']
            if x['avail'] >= 0:
                doc.availability_time = timedelta(milliseconds=avail)
            ev = dict(ev='doc', k=x['k'], avail=avail, out='ok')
            try:
                node.process_document(doc)
            except Exception as e:
                ev['out'] = 'error:' + errname(e)
            ev['em'] = len(rec.take())
        else:
            ev = dict(ev='cut', out='ok', want=OUT)
            try:
                node.convert_next_segment()
            except Exception as e:
                ev['out'] = 'error:' + errname(e)
                ev['msg'] = str(e)[:200] if not isinstance(e, UnicodeError) else ''
            out = rec.take()
            ev['em'] = len(out)
            if len(out) == 1:
                d = out[0][0]
                p06.fragment(ev, d, False) if ev['out'] == 'ok' else None
                ev['n'], ev['sid'] = d.sequence_number, d.sequence_identifier
        ctx.emit(ev)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh if 'docs' in beh else of_gen(beh, ctx.rng))
