# P05: computed activation times of the elements of a document.
from datetime import timedelta
import docgen
import docxml
from harness import ms, errname
from ebu_tt_live.documents import EBUTT3Document
from ebu_tt_live.bindings import body_type, div_type, p_type, span_type

TIMED = (body_type, div_type, p_type, span_type)


def rand(rng):
    o = dict(span=rng.choice([3, 6, 10]), step=rng.choice([1000, 1000, 500, 333, 60000]), mixed=True,
             pt=rng.choice([0.3, 0.5, 0.7]), pd=0.4, bad=True, size=rng.choice([6, 10, 18]))
    T = docgen.tree(rng, o) if rng.random() < 0.97 else []
    steps = []
    w = o['span'] * o['step']
    top = lambda: rng.choice([-1, rng.randint(0, o['span']) * o['step']])
    for i in range(rng.choice([0, 1, 2])):
        if T and rng.random() < 0.6:
            steps.append(dict(ev='edit', b=top(), e=top(), d=top()))
        else:
            steps.append(dict(ev='avail', avail=rng.choice([0, rng.randint(1, 2 * w), 86400000])))
    return dict(avail=rng.choice([0, 0, rng.randint(1, 2 * w)]), nodes=T, steps=steps,
                tb=rng.choice(['clock', 'media']))


def elements(binding, out):
    """Timed elements in document order."""
    for x in binding.orderedContent():
        v = x.value
        if isinstance(v, TIMED):
            out.append(v)
            elements(v, out)
    return out


def td(x):
    return timedelta(milliseconds=x)


def observe(ctx, ev, doc, T, rng):
    els = elements(doc.binding.body, [doc.binding.body]) if doc.binding.body is not None else []
    idx = [i + 1 for i, n in enumerate(T) if n['k'] in ('body', 'div', 'p', 'span')]
    if len(els) != len(idx):
        ev['out'] = 'elements:%d/%d' % (len(els), len(idx))
        ctx.emit(ev)
        return
    cb, ce = [-2] * len(T), [-2] * len(T)
    ids = {}
    for i, x in zip(idx, els):
        cb[i - 1], ce[i - 1] = ms(x.computed_begin_time), ms(x.computed_end_time)
        ids[id(x)] = i
    ev.update(out='ok', cb=cb, ce=ce, db=ms(doc.computed_begin_time), de=ms(doc.computed_end_time), ranges=[])
    pts = sorted(set([x for x in cb + ce if x >= 0]))
    for k in range(3):
        if not pts:
            break
        a = rng.choice(pts) + rng.choice([0, 0, 1, -1])
        b = rng.choice([-1] + pts) + rng.choice([0, 1])
        a = max(a, 0)
        if b <= a:
            b = -1
        got = [ids[id(x)] for x in doc.lookup_range_on_timeline(td(a), None if b < 0 else td(b)) if id(x) in ids]
        leaf = [i for i in got if T[i - 1]['k'] in ('p', 'span')]
        ev['ranges'].append({'from': a, 'to': b, 'got': leaf})
    ctx.emit(ev)


def execute(ctx, src, beh):
    T = beh['nodes']
    for i, n in enumerate(T):
        if n['k'] == 'p' and not n.get('id'):
            n['id'] = 'p%d' % i
    ctx.reset(src, beh, nodes=[dict((k, n[k]) for k in ('k', 'par', 'b', 'e', 'd')) for n in T], avail=beh['avail'])
    import random
    rng = random.Random(len(T) * 31 + beh['avail'])
    tb = beh.get('tb', 'clock')
    ev = dict(ev='create')
    try:
        xml = docxml.build(dict(sid='s', n=1, tb=tb, cm='local' if tb == 'clock' else '', nodes=T), vary=True)
        if beh['avail'] and len(T) % 2:
            doc = EBUTT3Document.create_from_xml(xml, availability_time=td(beh['avail']))
        else:
            doc = EBUTT3Document.create_from_xml(xml)
            if beh['avail']:
                doc.availability_time = td(beh['avail'])
    except Exception as e:
        ev['out'] = 'error:' + errname(e)
        ctx.emit(ev)
        return
    observe(ctx, ev, doc, T, rng)
    for x in beh.get('steps', []):
        ev = dict(x)
        try:
            if x['ev'] == 'avail':
                doc.availability_time = td(x['avail'])
            else:
                body = doc.binding.body
                for name, v in (('begin', x['b']), ('end', x['e']), ('dur', x['d'])):
                    getattr(doc, 'set_' + name)(None if v < 0 else doc.binding.get_timing_type(td(v)))
                doc.validate()
        except Exception as e:
            ev['out'] = 'error:' + errname(e)
            ctx.emit(ev)
            return
        observe(ctx, ev, doc, T, rng)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        execute(ctx, src, beh)
