# P18: nodes that serve one sequence.
import os
import re
from datetime import timedelta
import nodes
import docxml
from harness import errname
from ebu_tt_live.clocks import get_clock
from ebu_tt_live.node import SimpleConsumer
from ebu_tt_live.node.consumer import ReSequencer
from ebu_tt_live.node.delay import RetimingDelayNode
from ebu_tt_live.node.deduplicator import DeDuplicatorNode
from ebu_tt_live.node.encoder import EBUTTDEncoder

OUT = 'OUT'
U = 1000
KINDS = ['consume', 'resequence', 'retime', 'dedup', 'encode']


def spec_doc(sid, n):
    """Numbers in time order, no two documents overlap: none overrides another."""
    return dict(sid=sid, n=n, tb='clock', cm='utc', nodes=[
        dict(k='body', par=0, b=n * 10 * U, e=(n * 10 + 5) * U), dict(k='div', par=1), dict(k='p', par=2, id='p1'),
        dict(k='span', par=3, tx='@%s@ %d' % (sid, n))])


def rand(rng):
    kind = rng.choice(KINDS)
    sids = rng.choice([['a', 'b'], ['a', 'b', 'c'], ['a', 'A', OUT], ['a', 'a ', OUT], ['aa', 'a', 'b']])
    sids = [s.strip() + ('_' if s != s.strip() else '') for s in sids]
    steps = []
    for i in range(rng.randint(4, 10)):
        if kind == 'resequence' and rng.random() < 0.25:
            steps.append(dict(ev='seg'))
        else:
            steps.append(dict(ev='doc', sid=rng.choice(sids), n=rng.randint(1, 6)))
    return dict(kind=kind, init=rng.choice(['', '', 'a', 'b']) if kind == 'resequence' else '', steps=steps)


def make(ctx, kind, init):
    clock = get_clock('clock', clock_mode='utc')
    clock.set_fixed_time_mode(True)
    clock.set_fixed_time(timedelta(0))
    if kind == 'consume':
        rec = nodes.Rec()
        return SimpleConsumer(node_id='c', reference_clock=clock), rec
    if kind == 'resequence':
        rec = nodes.Rec()
        kw = {}
        if init:
            path = os.path.join(ctx.scratch, 'init.xml')
            with open(path, 'w') as f:
                f.write(docxml.build(spec_doc(init, 1)))
            kw['init_document'] = path
        return ReSequencer(node_id='r', reference_clock=clock, segment_length=7.0, discard=False,
                           sequence_identifier=OUT, producer_carriage=rec, **kw), rec
    if kind == 'retime':
        rec = nodes.Rec()
        return RetimingDelayNode(node_id='t', fixed_delay=2, document_sequence=OUT, producer_carriage=rec), rec
    if kind == 'dedup':
        rec = nodes.Rec()
        return DeDuplicatorNode(node_id='u', sequence_identifier=OUT, producer_carriage=rec), rec
    rec = nodes.RecD()
    return EBUTTDEncoder(node_id='e', media_time_zero=timedelta(0), producer_carriage=rec), rec


def held(node):
    s = getattr(node, '_sequence', None)
    if s is None:
        return []
    res = []
    for n in range(1, 8):
        try:
            if s.get_document(n) is not None:
                res.append(n)
        except KeyError:
            pass
    return res


def execute(ctx, src, beh):
    kind, init = beh['kind'], beh.get('init', '')
    node, rec = make(ctx, kind, init)
    seq = getattr(node, '_sequence', None)
    ctx.reset(src, beh, kind=kind, lock=init, held=held(node))
    for x in beh['steps']:
        if x.get('ev', 'doc') == 'seg':
            ev = dict(ev='seg')
            try:
                node.convert_next_segment()
                ev['out'] = 'ok'
            except Exception as e:
                ev['out'] = 'error:' + errname(e)
            out = rec.take()
            ev['em'] = len(out)
            ev['shown'] = sorted(set(m for d, _ in out for m in re.findall('@(.*?)@', d.get_xml())))
            ctx.emit(ev)
            continue
        d = nodes.small(spec_doc(x['sid'], x['n']))
        ev = dict(ev='doc', sid=x['sid'], n=x['n'])
        try:
            node.process_document(d)
            ev['out'] = 'ok'
        except Exception as e:
            ev['out'] = {'UnexpectedSequenceIdentifierError': 'unexpected'}.get(errname(e), 'error:' + errname(e))
        ev['em'] = len(rec.take())
        ev['held'] = held(node)
        s = getattr(node, '_sequence', None)
        ev['hsid'] = s.sequence_identifier if s is not None else ''
        ctx.emit(ev)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh)
