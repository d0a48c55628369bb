# -*- coding: utf-8 -*-
# Seeded random documents in the abstract form of docxml.  Python 2.7 (Jython).
U = 1000


def times(rng, node, o, body=False):
    span, pt = o.get('span', 10), o.get('pt', 0.5)
    step = o.get('step', U)
    if rng.random() < pt:
        node['b'] = rng.randint(0 if rng.random() < 0.2 else 1, span) * step
    if node['b'] > 0 and rng.random() < 0.5:
        node['b'] = rng.randint(1, max(1, span // 3)) * step
    if rng.random() < pt:
        node['e'] = rng.randint(0 if rng.random() < 0.1 else 1, span + span // 2) * step
        if rng.random() < 0.6:
            node['e'] = max(node['e'], rng.randint(span, 2 * span) * step)
    if not o.get('bad', True) or rng.random() < 0.9:
        if node['b'] >= 0 and node['e'] >= 0 and node['e'] <= node['b']:
            node['e'] = node['b'] + rng.randint(1, span) * step
    if body and rng.random() < o.get('pd', 0.2):
        node['d'] = rng.randint(0 if rng.random() < 0.1 else 1, span) * step


def tree(rng, o=None):
    """Preorder nodes of a document body.  Options: span, step, pt (probability that a begin/end is stated), pd (dur),
    bad (contradictory times), mixed (text next to spans), nest (nested spans), text (put text), size, styles, regions
    (ids to refer to), tag (prefix of texts)."""
    o = o or {}
    T = []
    cnt = [0, 0]
    size = o.get('size', 12)
    styles, regions = o.get('styles') or [], o.get('regions') or []

    def node(k, par, **kw):
        n = dict(k=k, par=par, b=-1, e=-1, d=-1, id='', st=[], rg='', tx='')
        n.update(kw)
        T.append(n)
        return len(T)

    def refs(n, prob):
        if styles and rng.random() < prob:
            T[n - 1]['st'] = rng.sample(styles, min(len(styles), rng.choice([1, 1, 1, 2, 3])))

    def text():
        cnt[1] += 1
        return '%s%d' % (o.get('tag', 't'), cnt[1])

    def nid(pre):
        cnt[0] += 1
        return '%s%d' % (o.get('idpre', pre), cnt[0]) if not o.get('idpre') else '%s%s%d' % (o['idpre'], pre, cnt[0])

    def content(par, depth):
        """Children of a p or span."""
        r = rng.random()
        spans = rng.randint(0, 3)
        if spans == 0 or len(T) > size * 2 or depth > (4 if o.get('nest', True) else 1):
            if o.get('text', True) and r < 0.92:
                node('text', par, tx=text())
                while rng.random() < 0.15:
                    node('br', par)
                    if rng.random() < 0.7:
                        node('text', par, tx=text())
            return
        for i in range(spans):
            if o.get('mixed') and rng.random() < 0.35:
                if rng.random() < 0.7:
                    node('text', par, tx=text())
                else:
                    node('br', par)
            s = node('span', par)
            if rng.random() < 0.4:
                T[s - 1]['id'] = nid('s')
            times(rng, T[s - 1], o)
            refs(s, 0.4)
            if o.get('nest', True) and rng.random() < 0.3:
                content(s, depth + 1)
            elif o.get('text', True):
                if rng.random() < 0.93:
                    node('text', s, tx=text())
                    if rng.random() < 0.1:
                        node('br', s)
                        node('text', s, tx=text())
        if o.get('mixed') and rng.random() < 0.3:
            node('text', par, tx=text())

    def paragraph(par):
        p = node('p', par, id=nid('p'))
        times(rng, T[p - 1], o)
        refs(p, 0.4)
        if regions and rng.random() < 0.4:
            T[p - 1]['rg'] = rng.choice(regions)
        content(p, 1)

    def division(par, depth):
        d = node('div', par)
        if rng.random() < 0.4:
            T[d - 1]['id'] = nid('d')
        times(rng, T[d - 1], o)
        refs(d, 0.35)
        if regions and rng.random() < 0.4:
            T[d - 1]['rg'] = rng.choice(regions)
        for i in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            if len(T) > size:
                break
            if depth < 3 and rng.random() < 0.25:
                division(d, depth + 1)
            else:
                paragraph(d)

    b = node('body', 0)
    times(rng, T[0], o, body=True)
    refs(b, 0.3)
    for i in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        if len(T) > size:
            break
        division(b, 1)
    return T


COLOURS = ['rgba(255,0,0,255)', '#00ff00', '#0000ffff', 'yellow', 'black', '#ffffff80']


def style_ats(rng, region=False):
    at = {}
    if rng.random() < 0.5:
        at['color'] = rng.choice(COLOURS)
    if rng.random() < 0.4:
        at['backgroundColor'] = rng.choice(COLOURS)
    if rng.random() < 0.3:
        at['fontStyle'] = rng.choice(['normal', 'italic'])
    if rng.random() < 0.2:
        at['fontWeight'] = rng.choice(['normal', 'bold'])
    if rng.random() < 0.3:
        at['textAlign'] = rng.choice(['left', 'center', 'right', 'start', 'end'])
    if rng.random() < 0.3:
        at['fontFamily'] = rng.choice(['monospaceSansSerif', 'serif', 'Verdana'])
    return at


def styles(rng, ids, cyc=False):
    """Style list; references only to later ones, so that there is no cycle."""
    res = []
    for i, s in enumerate(ids):
        later = ids[i + 1:]
        st = rng.sample(later, min(len(later), rng.choice([0, 0, 1, 2]))) if later else []
        res.append(dict(id=s, st=st, at=style_ats(rng)))
    rng.shuffle(res)
    return res


def regions(rng, ids, sids=()):
    res = []
    for r in ids:
        a, b = rng.randint(0, 40), rng.randint(0, 40)
        at = dict(origin='%d%% %d%%' % (a, b), extent='%d%% %d%%' % (rng.randint(20, 60), rng.randint(20, 60)))
        if rng.random() < 0.4:
            at['displayAlign'] = rng.choice(['before', 'center', 'after'])
        if rng.random() < 0.3:
            at['writingMode'] = rng.choice(['lrtb', 'rltb', 'tbrl', 'tblr'])
        if rng.random() < 0.2:
            at['overflow'] = rng.choice(['visible', 'hidden'])
        st = rng.sample(list(sids), 1) if sids and rng.random() < 0.5 else []
        res.append(dict(id=r, st=st, at=at))
    return res
