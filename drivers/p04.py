# P04: relaying nodes.
from datetime import timedelta
import six
import nodes
from harness import ms, errname
from ebu_tt_live.documents.ebutt3 import EBUTT3ObjectBase
from ebu_tt_live.node.distributing import DistributingNode
from ebu_tt_live.node.delay import BufferDelayNode

_cache = {}
MANY = ['q%d' % i for i in range(1, 16)]


def document(x):
    """Relaying does not change documents, so they can be used again."""
    key = tuple(sorted((k, v) for k, v in x.items() if k in ('sid', 'n', 'tb', 'cm', 'av')))
    if key not in _cache:
        if len(_cache) > 3000:
            _cache.clear()
        d = nodes.small(x)
        if x['av'] >= 0:
            d.availability_time = timedelta(milliseconds=x['av'])
        _cache[key] = d
    return _cache[key]


def doc(sid, n, tb='clock', cm='utc', av=-1, raw=1, kw=0):
    return dict(ev='doc', sid=sid, n=n, tb=tb, cm=cm, av=av, raw=raw, kw=kw)


def rand(rng):
    r = rng.random()
    if r < 0.12:
        return dict(kind='distribute', delay=0, plain=long_history(rng))
    kind = 'distribute' if r < 0.75 else 'buffer'
    sids = rng.choice([['a', 'b'], ['a', 'A'], ['s', 's1', 's11'], [u'\u017e', 'z'], MANY])
    steps = []
    for i in range(rng.randint(4, 16) if sids is not MANY else rng.choice([20, 40, 60])):
        if rng.random() < 0.15:
            steps.append(dict(ev='msg', sid=rng.choice(sids), av=rng.choice([-1, 2000]), kw=rng.randint(0, 1), n=0))
            continue
        tb = rng.choice(['clock', 'media'])
        steps.append(doc(rng.choice(sids), rng.choice([1, 2, 3, 11, 12, 111]), tb, rng.choice(['local', 'utc']) if tb == 'clock' else '',
                         rng.choice([-1, 0, 1500, 86400000]), rng.randint(0, 1), rng.randint(0, 1)))
    return dict(kind=kind, delay=rng.choice([0, 3, 7, 120]) if kind == 'buffer' else 0, plain=steps)


def long_history(rng):
    steps = []
    total = rng.choice([99, 100, 101, 102, 140, 205])
    base = rng.choice([0, 0, 1000])
    for n in range(1, total + 1):
        steps.append(doc('a', base + n))
        if n % 3 == 0:
            steps.append(doc('b', n))
        if n % 50 == 0:
            steps.append(doc('a', base + n - 30))
    for _ in range(12):
        n = rng.choice([1, 2, 3, total - 100, total - 99, total - 98, total, total - 50])
        if n >= 1:
            steps.append(doc('a', base + n))
    for n in range(1, total // 3 * 3 + 1, 9):
        steps.append(doc('b', n))
    return steps


def execute(ctx, src, beh):
    steps = beh['plain'] if 'plain' in beh else [doc(x['sid'], x['n']) for x in beh['steps']]
    kind = beh['kind']
    delay = beh.get('delay', 3)
    ctx.reset(src, beh, kind=kind, delay=delay)
    rec = nodes.RecText()
    if kind == 'distribute':
        node = DistributingNode(node_id='d', producer_carriage=rec)
    else:
        node = BufferDelayNode(node_id='d', fixed_delay=delay, producer_carriage=rec)
    for i, x in enumerate(steps):
        kw = dict(mark=object()) if x.get('kw') else {}
        ev = dict((k, x[k]) for k in ('ev', 'sid', 'n', 'tb', 'cm', 'av') if k in x)
        extra = {}
        if kind == 'buffer':
            item = u'<item n="%d" s="%s"/>\n' % (x['n'], x['sid'])
            extra = dict(sequence_identifier=x['sid'], sequence_number=x['n'])
        elif x['ev'] == 'msg':
            item = nodes.message(x['sid'], payload='pay %d' % i)
            if x['av'] >= 0:
                item.availability_time = timedelta(milliseconds=x['av'])
        else:
            item = document(x)
            if x['raw']:
                extra = dict(raw_xml=u'<?xml version="1.0"?>\n<!-- \u2713 raw %d --><tt:tt>%s %d</tt:tt>' % (i, x['sid'], x['n']))
        try:
            a = dict(kw)
            a.update(extra)
            node.process_document(item, **a)
            ev['out'] = 'ok'
        except Exception as e:
            ev['out'] = 'error:' + errname(e)
        ev['em'] = []
        for data, k in rec.take():
            m = {}
            if kind == 'buffer':
                m['same'] = data == item
                m['delay'] = k.pop('delay', -1)
                m['rest'] = k == dict(kw, **extra)
            else:
                m['sid'] = k.pop('sequence_identifier', None)
                m['av'] = ms(k.pop('availability_time', None))
                if x['ev'] == 'doc':
                    m['n'] = k.pop('sequence_number', -1)
                    m['tb'] = k.pop('time_base', None)
                    m['cm'] = k.pop('clock_mode', None) or ''
                    m['same'] = (data == extra['raw_xml']) if x['raw'] else nodes.canon(data, ()) == nodes.canon(item.get_xml(), ())
                else:
                    back = EBUTT3ObjectBase.create_from_xml(data)
                    m['same'] = bool(back.sequence_identifier == x['sid'] and back.payload == item.payload
                                     and back.sender == item.sender)
                m['rest'] = bool(k == kw and isinstance(data, six.text_type))
            ev['em'].append(m)
        ctx.emit(ev)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh)
