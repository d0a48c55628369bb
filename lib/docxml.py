# -*- coding: utf-8 -*-
# Abstract documents -> XML text, and the projection back.  Python 2.7 (Jython); also imported by nothing else.
#
# An abstract document is a dict:
#   sid, n, tb ('clock'/'media'), cm ('local'/'utc'/'gps'/''), ag, tok, lang, cell (cols, rows) or None, extent or ''
#   styles:  [{id, st: [ids], at: {name: value}}]     at names without prefix, e.g. color
#   regions: [{id, st: [ids], at: {origin, extent, padding, ...}}]
#   nodes:   preorder list of {k: body|div|p|span|br|text, par: index (1-based) of the parent or 0,
#            id, b, e, d: ms or -1, st: [ids], rg: id or '', tx: text}
from xml.sax.saxutils import escape, quoteattr

NS = ('xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" '
      'xmlns:tts="http://www.w3.org/ns/ttml#styling" xmlns:ttm="http://www.w3.org/ns/ttml#metadata" '
      'xmlns:ebuttm="urn:ebu:tt:metadata" xmlns:ebutts="urn:ebu:tt:style" '
      'xmlns:ebuttp="urn:ebu:tt:parameters" xmlns:xml="http://www.w3.org/XML/1998/namespace"')

EBUTTS = ('linePadding', 'multiRowAlign')


def clock(ms):
    h, r = divmod(int(ms), 3600000)
    m, r = divmod(r, 60000)
    s, f = divmod(r, 1000)
    if f:
        return '%02d:%02d:%02d.%03d' % (h, m, s, f)
    return '%02d:%02d:%02d' % (h, m, s)


def count(ms, unit=None):
    ms = int(ms)
    if unit is None:
        unit = 'ms' if ms % 1000 else 's'
    if unit == 'ms':
        return '%dms' % ms
    if unit == 's':
        return ('%d.%03ds' % (ms // 1000, ms % 1000)) if ms % 1000 else '%ds' % (ms // 1000)
    raise ValueError(unit)


def timeattr(ms, i=0):
    """Alternates notations; both are legal in clock and media time base."""
    if i % 3 == 2:
        return count(ms)
    return clock(ms)


def attr(name, value):
    return ' %s=%s' % (name, quoteattr(value))


def style_attrs(at):
    out = ''
    for k in sorted(at):
        out += attr(('ebutts:' if k in EBUTTS else 'tts:') + k, at[k])
    return out


def _open(node, i, vary):
    out = '<tt:%s' % node['k']
    if node.get('id'):
        out += attr('xml:id', node['id'])
    for name, key in (('begin', 'b'), ('end', 'e'), ('dur', 'd')):
        v = node.get(key, -1)
        if v is not None and v >= 0:
            out += attr(name, timeattr(v, i if vary else 0))
    if node.get('st'):
        out += attr('style', ' '.join(node['st']))
    if node.get('rg'):
        out += attr('region', node['rg'])
    if node.get('xtra'):
        out += node['xtra']
    return out


def body_xml(nodes, vary=False):
    kids = {}
    for i, nd in enumerate(nodes):
        kids.setdefault(nd['par'], []).append(i + 1)

    def ser(i):
        nd = nodes[i - 1]
        if nd['k'] == 'text':
            return escape(nd['tx'])
        if nd['k'] == 'br':
            return '<tt:br/>'
        inner = ''.join(ser(j) for j in kids.get(i, []))
        if nd.get('tx'):
            inner = escape(nd['tx']) + inner
        if inner:
            return _open(nd, i, vary) + '>' + inner + '</tt:%s>' % nd['k']
        return _open(nd, i, vary) + '/>'
    return ''.join(ser(i) for i in kids.get(0, []))


def build(doc, vary=False):
    out = '<?xml version="1.0" encoding="UTF-8"?>\n<tt:tt %s' % NS
    out += attr('xml:lang', doc.get('lang') or 'en-GB')
    if doc.get('tb'):
        out += attr('ttp:timeBase', doc['tb'])
    if doc.get('cm'):
        out += attr('ttp:clockMode', doc['cm'])
    if doc.get('cell'):
        out += attr('ttp:cellResolution', '%d %d' % tuple(doc['cell']))
    if doc.get('extent'):
        out += attr('tts:extent', doc['extent'])
    out += attr('ebuttp:sequenceIdentifier', doc['sid'])
    out += attr('ebuttp:sequenceNumber', str(doc['n']))
    if doc.get('ag'):
        out += attr('ebuttp:authorsGroupIdentifier', doc['ag'])
    if doc.get('tok', -1) is not None and doc.get('tok', -1) >= 0:
        out += attr('ebuttp:authorsGroupControlToken', str(doc['tok']))
    if doc.get('rootxtra'):
        out += doc['rootxtra']
    out += '>'
    head = ''
    if doc.get('meta'):
        head += '<tt:metadata><ebuttm:documentMetadata>%s</ebuttm:documentMetadata></tt:metadata>' % (
            '' if doc['meta'] is True else doc['meta'])
    if doc.get('styles'):
        head += '<tt:styling>'
        for s in doc['styles']:
            head += '<tt:style' + attr('xml:id', s['id'])
            if s.get('st'):
                head += attr('style', ' '.join(s['st']))
            head += style_attrs(s.get('at', {})) + '/>'
        head += '</tt:styling>'
    if doc.get('regions'):
        head += '<tt:layout>'
        for s in doc['regions']:
            head += '<tt:region' + attr('xml:id', s['id'])
            if s.get('st'):
                head += attr('style', ' '.join(s['st']))
            at = dict(s.get('at', {}))
            at.setdefault('origin', '10% 10%')
            at.setdefault('extent', '80% 80%')
            head += style_attrs(at) + '/>'
        head += '</tt:layout>'
    out += '<tt:head>%s</tt:head>' % head if head else '<tt:head/>'
    out += body_xml(doc.get('nodes', []), vary)
    return out + '</tt:tt>'
