# P02: intake rules of a sequence, offered directly, through is_compatible, and through a consuming node.
from datetime import timedelta
import p01
from harness import ms, errname
from ebu_tt_live.documents import EBUTT3DocumentSequence
from ebu_tt_live.clocks import get_clock
from ebu_tt_live.node import SimpleConsumer

U = p01.U
CATS = dict(p01.CATS, UnexpectedSequenceIdentifierError='unexpected')


def variant(x, rng, tb, cm):
    v = rng.choice(['', '', '', 'sid', 'tb', 'cm', 'dup', 'ag'])
    if v == 'sid':
        x['sid'] = rng.choice(['other', 'S', 's1', 's '.strip() + 's'])
    elif v == 'tb':
        x['tb'], x['cm'] = ('clock', rng.choice(['local', 'utc'])) if tb == 'media' else ('media', '')
    elif v == 'cm' and tb == 'clock':
        x['cm'] = rng.choice(['local', 'utc', 'gps'])
    elif v == 'ag':
        x['ag'] = rng.choice(['g', 'h', 'G'])


def rand(rng):
    tb = rng.choice(['clock', 'clock', 'media'])
    cm = rng.choice(['local', 'utc']) if tb == 'clock' else ''
    mode = rng.choice(['sequence', 'sequence', 'consumer', 'consumer'])
    steps = []
    span = rng.choice([4, 10])
    for i in range(rng.randint(4, 8)):
        x = dict(n=rng.randint(1, 6), sid='s', tb=tb, cm=cm, ag='', body=1, b=rng.randint(0, span) * U, e=-1, d=-1,
                 av=-1, shape=0, clk=rng.randint(0, span) * U)
        if rng.random() < 0.6:
            x['e'] = rng.randint(1, span + 2) * U
        if rng.random() < 0.5:
            x['av'] = rng.randint(0, span) * U
        if rng.random() < 0.1:
            x['body'] = 0
        variant(x, rng, tb, cm)
        if mode == 'consumer' and i == 0 and x['cm'] == 'gps':
            x['cm'] = 'utc'         # there is no gps clock for a sequence to run on
        x['probe'] = int(mode == 'sequence' and rng.random() < 0.3)
        steps.append(x)
    ag = rng.choice(['', '', 'g']) if mode == 'sequence' else ''
    return dict(tb=tb, cm=cm, mode=mode, ag=ag, steps=steps)


def execute(ctx, src, beh):
    b = beh if 'cm' in beh else dict(p01.from_spec(beh), mode='sequence', ag='')
    ctx.reset(src, beh, sid='s' if b['mode'] == 'sequence' else '', tb=b['tb'], cm=b['cm'], ag=b['ag'])
    seq = node = None
    clock = get_clock(b['tb'], clock_mode=b['cm'])
    clock.set_fixed_time_mode(True)
    if b['mode'] == 'sequence':
        kw = dict(authors_group_identifier=b['ag']) if b['ag'] else {}
        seq = EBUTT3DocumentSequence('s', clock, 'en-GB', **kw)
    else:
        node = SimpleConsumer(node_id='c', reference_clock=clock)
    docs = []
    hi = max([0] + [max(x['b'], x['e'], x['av']) for x in b['steps']]) // U + 2
    for x in b['steps']:
        d = p01.make(x)
        ev = dict(ev='add', n=d.sequence_number, sid=x['sid'], tb=x['tb'], cm=x['cm'], ag=x['ag'])
        held = []
        if seq is not None:
            held = [y for y in docs if got(seq, y)]
        if x.get('probe'):
            ev['ev'] = 'check'
            try:
                ok = seq.is_compatible(d)
                ev['out'] = 'ok' if ok else 'error:False'
            except Exception as e:
                ev['out'] = CATS.get(errname(e), 'error:' + errname(e))
        else:
            try:
                if node is not None:
                    ev['ev'] = 'consume'
                    clock.set_fixed_time(timedelta(milliseconds=x.get('clk', 0)))
                    before = node._sequence
                    node.process_document(d)
                    seq = node._sequence
                    taken = got(seq, d) or not any(got(seq, y) and y.sequence_number == d.sequence_number for y in docs)
                else:
                    seq.add_document(d)
                    taken = True
                ev['out'] = 'ok'
                if taken:
                    docs.append(d)
            except Exception as e:
                ev['out'] = CATS.get(errname(e), 'error:' + errname(e))
        ev['cb'], ev['ce'] = ms(d.computed_begin_time), ms(d.computed_end_time)
        if node is not None:
            ev['av'], ev['clk'], ev['gotav'] = x['av'], x.get('clk', 0), ms(d.availability_time)
        ev['last'] = seq.last_sequence_number if seq is not None else 0
        ev['docs'], ev['q'] = p01.observe(seq, docs, 3) if seq is not None else ([], [])
        for _ in range(4):
            lo = ctx.rng.randint(-1, hi) * U // 2
            w = ctx.rng.randint(0, hi) * U // 2
            if seq is not None:
                ev['q'].append(p01.query(seq, lo if lo >= 0 else -1, (max(lo, 0) + w) if w else -1))
        ctx.emit(ev)


def got(seq, d):
    try:
        return seq.get_document(d.sequence_number) is d
    except Exception:
        return False


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh)
