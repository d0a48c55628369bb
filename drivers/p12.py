# P12: resolution of styles.
import docgen
import docxml
from harness import errname
from ebu_tt_live.bindings.validation.timing import TimingValidationMixin
from ebu_tt_live.documents import EBUTT3Document

CELL = 4096
VALUES = dict(
    color=['#ff0000', '#00ff00', 'rgba(255,0,0,255)', 'yellow'], direction=['ltr', 'rtl'],
    fontFamily=['default', 'serif', 'monospaceSansSerif'], fontStyle=['normal', 'italic'], fontWeight=['normal', 'bold'],
    linePadding=['0c', '0.5c', '1c'], multiRowAlign=['auto', 'start', 'center', 'end'],
    textAlign=['start', 'left', 'center', 'right', 'end'], textDecoration=['none', 'underline'],
    wrapOption=['wrap', 'noWrap'], backgroundColor=['transparent', '#000000', '#ffffff80', 'blue'],
    padding=['0px', '1c', '2px', '1c 2c'], unicodeBidi=['normal', 'embed', 'bidiOverride'],
    fontSize=['50%', '100%', '200%', '25%', '50% 200%', '1c', '2c', '1c 2c', '40px'],
    lineHeight=['normal', '1c', '2c', '50%', '200%', '100%', '40px'])
NAMES = sorted(VALUES)
PLAIN = [a for a in NAMES if a not in ('fontSize', 'lineHeight')]


def size(text):
    """Quarters of a hundred percent, 1/4096 cells, pixels."""
    out = []
    for w in text.split():
        u = 'px' if w.endswith('px') else w[-1]
        v = float(w[:-len(u)]) * dict(px=1, c=CELL)[u] if u != '%' else float(w[:-1]) / 25
        if v != int(v) and u != '%':
            return dict(u='inexact', h=-1, v=-1)
        out.append(int(v))
    return dict(u=u, h=out[0], v=out[-1])


def ats(rng, names, p):
    return dict((a, rng.choice(VALUES[a])) for a in names if rng.random() < p)


def rand(rng):
    names = NAMES if rng.random() < 0.5 else rng.sample(NAMES, rng.randint(1, 3))
    p = rng.choice([0.2, 0.5, 0.8]) if len(names) < 5 else rng.choice([0.1, 0.3])
    ids = ['s%d' % (i + 1) for i in range(rng.choice([1, 2, 3, 5, 7]))]
    S = []
    for i, s in enumerate(ids):
        later = ids[i + 1:]
        S.append(dict(id=s, st=rng.sample(later, min(len(later), rng.choice([0, 1, 1, 2, 3]))) if later else [],
                      at=ats(rng, names, p)))
    rng.shuffle(S)
    rids = ['r1', 'r2'][:rng.randint(0, 2)]
    R = [dict(id=r, st=rng.sample(ids, min(len(ids), rng.choice([0, 1, 2]))),
              at=dict(padding='1%') if rng.random() < 0.2 else {}) for r in rids]
    o = dict(pt=0.0, pd=0, mixed=rng.random() < 0.3, size=rng.choice([5, 9, 14]), idpre='n', styles=ids, regions=rids)
    T = docgen.tree(rng, o)
    docs = [dict(S=S, R=R, T=[dict(k=n['k'], par=n['par'], st=n['st'], rg=n['rg']) for n in T])]
    changes = []
    for i in range(rng.choice([0, 0, 1, 2])):
        if rng.random() < 0.5:
            a = rng.choice(names)
            changes.append(dict(ev='style', id=rng.choice(ids), a=a, v=rng.choice(VALUES[a])))
        else:
            timed = [j for j, n in enumerate(T) if n['k'] not in ('text', 'br')]
            changes.append(dict(ev='refs', i=rng.choice(timed) + 1, st=rng.sample(ids, rng.randint(1, min(3, len(ids))))))
    return dict(docs=docs, changes=changes, cell=rng.choice([20, 16]), lists=rng.random() < 0.3)


def text(v):
    return '' if v is None else unicode(v.xsdLiteral() if hasattr(v, 'xsdLiteral') else v)


def look(el, region=False):
    c, s = el.computed_style, el.specified_style
    fs = dict(u='none', h=0, v=0) if c.fontSize is None else size(unicode(c.fontSize))
    lh = dict(normal=c.lineHeight == 'normal', v=0)
    if not lh['normal']:
        z = size(unicode(c.lineHeight))
        lh['v'] = z['v'] if z['u'] == 'c' else -1
    return dict(at=dict((a, text(getattr(c, a))) for a in PLAIN), fs=fs, lh=lh,
                spec=dict((a, text(getattr(s, a))) for a in NAMES if getattr(s, a) is not None))


def preorder(el):
    yield el
    for c in el.orderedContent():
        if isinstance(c.value, TimingValidationMixin):
            for x in preorder(c.value):
                yield x


def fix(at):
    return dict(at) if at else {}


def observe(ctx, doc, D, px):
    ev = dict(ev='look', D=D, px=px, sizes=sizes(D))
    try:
        doc.validate()
        els = list(preorder(doc.binding.body))
        it = iter(els)
        ev['els'] = [look(next(it)) if n['k'] not in ('text', 'br') else {} for n in D['T']]
        ev['regions'] = [look(r) for r in doc.binding.head.layout.region] if D['R'] else []
        ev['out'] = 'ok'
    except Exception as e:
        ev['out'] = 'error:' + errname(e)
        ev['els'] = ev['regions'] = []
    ctx.emit(ev)


def sizes(D):
    return dict((v, size(v)) for s in D['S'] for a, v in s['at'].items() if a in ('fontSize', 'lineHeight') and v != 'normal')


def execute(ctx, src, beh):
    ctx.reset(src, beh)
    px = beh.get('cell', 20)
    for d in beh['docs']:
        D = dict(S=[dict(id=s['id'], st=s['st'], at=fix(s['at'])) for s in d['S']],
                 R=[dict(id=s['id'], st=s['st'], at=fix(s['at'])) for s in d['R']], T=[dict(n) for n in d['T']])
        nodes = [dict(n, id='p%d' % i if n['k'] == 'p' else '', tx='x' if n['k'] == 'text' else '', b=-1, e=-1, d=-1)
                 for i, n in enumerate(D['T'])]
        xml = docxml.build(dict(sid='a', n=1, tb='media', cell=(640 // px, 480 // px), extent='640px 480px', nodes=nodes,
                                styles=D['S'], regions=D['R']))
        doc = EBUTT3Document.create_from_xml(xml)
        observe(ctx, doc, D, px)
        for c in beh.get('changes', []):
            if c['ev'] == 'style':
                s = [x for x in D['S'] if x['id'] == c['id']][0]
                s['at'][c['a']] = c['v']
                el = [x for x in doc.binding.head.styling.style if x.id == c['id']][0]
                setattr(el, c['a'], c['v'])
            else:
                D['T'][c['i'] - 1]['st'] = c['st']
                k = len([n for n in D['T'][:c['i'] - 1] if n['k'] not in ('text', 'br')])
                list(preorder(doc.binding.body))[k].style = c['st']
            observe(ctx, doc, D, px)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        if 'docs' not in beh:
            beh = dict(docs=[beh])
        execute(ctx, src, beh)
