# P01/P02: the activation timeline and the intake rules of a document sequence.
from datetime import timedelta
import docxml
from harness import ms, errname
from ebu_tt_live.documents import EBUTT3Document, EBUTT3DocumentSequence
from ebu_tt_live.clocks import get_clock

U = 1000      # one model time unit in ms
CATS = dict(SequenceNumberCollisionError='collision', IncompatibleSequenceError='incompatible',
            UnexpectedAuthorsGroupError='group')


def make(x):
    """x: n, sid, tb, cm, ag and body timing: body (0/1), b, e, d, av in ms (-1 none)."""
    nodes = []
    if x['body']:
        nodes = [dict(k='body', par=0, b=x['b'], e=x['e'], d=x['d'])]
        if x.get('shape', 0):
            nodes += [dict(k='div', par=1), dict(k='p', par=2, id='p1', tx='t%d' % x['n'])]
    doc = EBUTT3Document.create_from_xml(docxml.build(dict(
        sid=x['sid'], n=x['n'], tb=x['tb'], cm=x['cm'], ag=x['ag'], nodes=nodes)))
    if x['av'] >= 0:
        doc.availability_time = timedelta(milliseconds=x['av'])
    return doc


def rand(rng):
    tb = rng.choice(['clock', 'clock', 'media'])
    cm = rng.choice(['local', 'utc']) if tb == 'clock' else ''
    steps = []
    nums = range(1, 9)
    rng.shuffle(nums)
    span = rng.choice([6, 12, 20])
    used = []
    for i in range(rng.randint(3, 7)):
        n = nums[i]
        x = dict(n=n, sid='s', tb=tb, cm=cm, ag='', body=1, b=-1, e=-1, d=-1, av=-1, shape=rng.randint(0, 1))
        r = rng.random()
        if r < 0.1:
            x['body'] = 0
        if rng.random() < 0.8:
            x['b'] = rng.randint(0, span) * U
        if rng.random() < 0.7:
            x['e'] = rng.randint(1, span + 2) * U
        if rng.random() < 0.2:
            x['d'] = rng.randint(1, 6) * U
        if rng.random() < 0.5:
            x['av'] = rng.randint(0, span) * U
        if rng.random() < 0.15:
            x['ag'] = rng.choice(['g', 'g', 'h'])
        r = rng.random()
        if r < 0.04:
            x['sid'] = 'other'
        elif r < 0.08 and tb == 'clock':
            x['cm'] = rng.choice(['local', 'utc', 'gps'])
        elif r < 0.12:
            if tb == 'clock':
                x['tb'], x['cm'] = 'media', ''
            else:
                x['tb'], x['cm'] = 'clock', 'local'
        elif r < 0.22 and used:
            x['n'] = rng.choice(used)
        used.append(x['n'])
        steps.append(x)
    return dict(tb=tb, cm=cm, steps=steps)


def from_spec(b):
    """A behaviour of TimelineGen: a sequence of [n, cb, ce] (or intake variants) in arrival order."""
    tb = b.get('tb', 'clock')
    cm = 'local' if tb == 'clock' else ''
    out = []
    for i, s in enumerate(b['steps']):
        x = dict(n=s['n'], sid='s', tb=tb, cm=cm, ag=s.get('ag', ''), body=1, b=s['cb'] * U,
                 e=(s['ce'] * U if s['ce'] >= 0 else -1), d=-1, av=-1, shape=0)
        if s['ce'] >= 0 and s['ce'] <= s['cb']:
            # not a document interval as such: the document arrives when it should have ended already
            x['b'], x['av'], x['e'] = -1, s['cb'] * U, s['ce'] * U
            if s['ce'] == s['cb']:
                x['body'], x['e'] = 0, -1
        v = s.get('v', 'ok')
        if v == 'sid':
            x['sid'] = 'other'
        elif v == 'tb':
            x['tb'], x['cm'] = ('media', '') if tb == 'clock' else ('clock', 'local')
        elif v == 'cm' and tb == 'clock':
            x['cm'] = 'utc'
        out.append(x)
    return dict(tb=tb, cm=cm, steps=out)


def observe(seq, docs, horizon):
    res = []
    for i, d in enumerate(docs):
        o = dict(u=i + 1)
        try:
            o['rb'] = ms(d.resolved_begin_time)
            o['re'] = ms(d.resolved_end_time)
            o['disc'] = bool(d.discarded)
            o['err'] = ''
        except Exception as e:
            o['rb'] = o['re'] = -1
            o['disc'] = False
            o['err'] = errname(e)
        try:
            got = seq.get_document(d.sequence_number)
            o['get'] = 'same' if got is d else 'other'
        except KeyError:
            o['get'] = 'none'
        except Exception as e:
            o['get'] = errname(e)
        res.append(o)
    q = []
    for t in range(0, horizon + 1):
        q.append(query(seq, t * U, t * U + 1))
        q.append(query(seq, t * U + U // 2, t * U + U // 2 + 1))
    return res, q


def query(seq, b, e):
    try:
        r = [d.sequence_number for d in seq.lookup_range_on_timeline(
            begin=None if b < 0 else timedelta(milliseconds=b), end=None if e < 0 else timedelta(milliseconds=e))]
        return dict(b=b, e=e, r=r, err='')
    except Exception as ex:
        return dict(b=b, e=e, r=[], err=errname(ex))


def execute(ctx, src, beh, horizon=None):
    b = beh if 'cm' in beh else from_spec(beh)
    ctx.reset(src, beh, sid='s', tb=b['tb'], cm=b['cm'], ag='')
    seq = EBUTT3DocumentSequence('s', get_clock(b['tb'], clock_mode=b['cm']), 'en-GB')
    docs = []
    hi = max([0] + [max(x['b'], x['e'], x['av']) for x in b['steps']]) // U + 2
    for i, x in enumerate(b['steps']):
        d = make(x)
        ev = dict(ev='add', n=d.sequence_number, sid=x['sid'], tb=x['tb'], cm=x['cm'], ag=x['ag'],
                  cb=ms(d.computed_begin_time), ce=ms(d.computed_end_time))
        try:
            seq.add_document(d)
            ev['out'] = 'ok'
            docs.append(d)
        except Exception as e:
            ev['out'] = CATS.get(errname(e), 'error:' + errname(e))
        ev['last'] = seq.last_sequence_number
        ev['docs'], ev['q'] = observe(seq, docs, hi if i == len(b['steps']) - 1 or i % 2 else 0)
        rg = ctx.rng
        for _ in range(6):
            lo = rg.randint(-1, hi) * U // 2
            w = rg.randint(0, hi) * U // 2
            ev['q'].append(query(seq, lo if lo >= 0 else -1, (max(lo, 0) + w) if w else -1))
        ctx.emit(ev)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh)
