# P03: the handover node.
from datetime import timedelta
import nodes
from harness import errname
from ebu_tt_live.node.handover import HandoverNode

CATS = dict(IncompatibleSequenceError='incompatible', UnexpectedAuthorsGroupError='group')
OUT = 'OUT'


def doc(sid, n, ag='', tok=-1, tb='clock', cm='utc', b=-1, e=-1):
    return dict(ev='doc', sid=sid, n=n, ag=ag, tok=tok, tb=tb, cm=cm, b=b, e=e)


def from_spec(beh):
    return [doc(x['sid'], x['n'], x['ag'], x['tok'] or -1, *(('media', '') if x['par'] == 'media' else ('clock', x['par']))) for x in beh['steps']]


def rand(rng):
    if rng.random() < 0.02:
        return long_history(rng)
    sids = ['a', 'b', 'c'][:rng.choice([2, 2, 3])]
    if rng.random() < 0.15:
        sids = sids + [OUT]
    toks = rng.choice([[1, 2, 3], [1, 2, 3, 4, 5, 6], [9, 10, 11, 100], [-1, 1, 2]])
    steps = []
    nxt = dict((s, 0) for s in sids)
    mixed = rng.random() < 0.4
    for i in range(rng.randint(5, 14)):
        s = rng.choice(sids)
        if rng.random() < 0.08:
            steps.append(dict(ev='msg', sid=s, kw=rng.randint(0, 1)))
            continue
        if rng.random() < 0.75:
            nxt[s] += rng.randint(1, 2)
            n = nxt[s]
        else:
            n = rng.randint(1, nxt[s] + 1)
        d = doc(s, n, 'g', rng.choice(toks), b=rng.choice([-1, 1000, 5000]), e=rng.choice([-1, 9000]))
        if mixed:
            d['ag'] = rng.choice(['g', 'g', 'g', 'h', '', 'G'])
            if rng.random() < 0.1:
                d['tb'], d['cm'] = rng.choice([('media', ''), ('clock', 'local')])
        if rng.random() < 0.08:
            d['tok'] = -1
        d['kw'] = rng.randint(0, 1)
        steps.append(d)
    return dict(plain=steps)


def long_history(rng):
    """More numbers of one sequence than are remembered, then repeats from both sides of the edge."""
    steps = []
    total = rng.choice([99, 100, 101, 103, 150])
    for n in range(1, total + 1):
        steps.append(doc('a', n, '', -1))
        if n % 40 == 0:
            steps.append(doc('b', n, 'g', n))
    for n in (1, 2, total - 99, total - 100, total, 3):
        if n >= 1:
            steps.append(doc('a', n, 'g', 1000 + n))
    return dict(plain=steps)


def execute(ctx, src, beh):
    steps = beh['plain'] if 'plain' in beh else from_spec(beh)
    ctx.reset(src, beh, g='g', oid=OUT)
    rec = nodes.Rec()
    node = HandoverNode(node_id='h', authors_group_identifier='g', sequence_identifier=OUT, producer_carriage=rec)
    for x in steps:
        kw = dict(mark=object()) if x.get('kw') else {}
        if x['ev'] == 'msg':
            m = nodes.message(x['sid'], payload='p %s' % x['sid'])
            before = (m.payload, m.sender, m.recipient)
            ev = dict(ev='msg', sid=x['sid'])
            try:
                node.process_document(m, **kw)
                ev['out'] = 'ok'
            except Exception as e:
                ev['out'] = 'error:' + errname(e)
            ev['em'] = [dict(sid=d.sequence_identifier or '', same=bool(d is m and k == kw and before == (m.payload, m.sender, m.recipient)))
                        for d, k in rec.take()]
            ctx.emit(ev)
            continue
        d = nodes.small(x)
        before = nodes.canon(d.get_xml())
        ev = dict((k, x[k]) for k in ('ev', 'sid', 'n', 'ag', 'tok', 'tb', 'cm'))
        try:
            node.process_document(d, **kw)
            ev['out'] = 'ok'
        except Exception as e:
            ev['out'] = CATS.get(errname(e), 'error:' + errname(e))
        ev['em'] = []
        for o, k in rec.take():
            ev['em'].append(dict(sid=o.sequence_identifier, n=int(o.sequence_number),
                                 sel=o.authors_group_selected_sequence_identifier or '',
                                 tok=-1 if o.authors_group_control_token is None else int(o.authors_group_control_token),
                                 ag=o.authors_group_identifier or '',
                                 same=bool(k == kw and nodes.canon(o.get_xml()) == before)))
        ctx.emit(ev)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh)
