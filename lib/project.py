# -*- coding: utf-8 -*-
# XML text -> abstract document (the form of docxml), independent of the code under test.  Jython.
import re
from javax.xml.parsers import DocumentBuilderFactory
from org.xml.sax import InputSource
from java.io import StringReader

_f = DocumentBuilderFactory.newInstance()
_f.setNamespaceAware(True)
XML = 'http://www.w3.org/XML/1998/namespace'
STYLE = ('http://www.w3.org/ns/ttml#styling', 'urn:ebu:tt:style')
CLOCK = re.compile(r'^(\d+):(\d\d):(\d\d)(?:\.(\d+))?$')
COUNT = re.compile(r'^(\d+)(?:\.(\d+))?(h|m|s|ms)$')
UNIT = {'h': 3600000, 'm': 60000, 's': 1000, 'ms': 1}


class NotExact(Exception):
    pass


def time_ms(text):
    """Milliseconds of a time expression; NotExact if it is not a whole number of them."""
    m = CLOCK.match(text)
    if m:
        h, mi, s, f = m.groups()
        ms = (int(h) * 3600 + int(mi) * 60 + int(s)) * 1000
        num, den = int(f or 0) * 1000, 10 ** len(f or '')
    else:
        m = COUNT.match(text)
        if not m:
            raise ValueError(text)
        i, f, u = m.groups()
        ms = int(i) * UNIT[u]
        num, den = int(f or 0) * UNIT[u], 10 ** len(f or '')
    if num % den:
        raise NotExact(text)
    return ms + num // den


def parse(xml):
    b = _f.newDocumentBuilder()
    b.setErrorHandler(None)
    return b.parse(InputSource(StringReader(xml if isinstance(xml, unicode) else xml.decode('utf-8')))).getDocumentElement()


def kids(el):
    c = el.getFirstChild()
    while c is not None:
        yield c
        c = c.getNextSibling()


def attrs(el):
    m = el.getAttributes()
    for i in range(m.getLength()):
        a = m.item(i)
        yield a.getNamespaceURI(), a.getLocalName(), a.getValue()


def styled(el):
    at, st, id_ = {}, [], ''
    for ns, name, v in attrs(el):
        if ns in STYLE:
            at[name] = v
        elif name == 'style' and not ns:
            st = v.split()
        elif ns == XML and name == 'id':
            id_ = v
    return dict(id=id_, st=st, at=at)


def project(xml):
    root = parse(xml)
    doc = dict(root={}, styles=[], regions=[], nodes=[])
    for ns, name, v in attrs(root):
        if ns != 'http://www.w3.org/2000/xmlns/':
            doc['root'][name] = v
    nodes = doc['nodes']

    def walk(el, par):
        n = styled(el)
        n.update(k=el.getLocalName(), par=par, b=-1, e=-1, d=-1, rg='', tx='')
        for ns, name, v in attrs(el):
            if ns:
                continue
            if name in ('begin', 'end', 'dur'):
                n[name[0]] = time_ms(v)
            elif name == 'region':
                n['rg'] = v
        nodes.append(n)
        me = len(nodes)
        for c in kids(el):
            t = c.getNodeType()
            if t == 1:
                if c.getLocalName() in ('body', 'div', 'p', 'span', 'br'):
                    walk(c, me)
            elif t in (3, 4):
                for w in c.getData().split():
                    nodes.append(dict(k='text', par=me, id='', b=-1, e=-1, d=-1, st=[], rg='', tx=w, at={}))

    for c in kids(root):
        if c.getNodeType() != 1:
            continue
        if c.getLocalName() == 'head':
            for h in kids(c):
                if h.getNodeType() == 1 and h.getLocalName() in ('styling', 'layout'):
                    for s in kids(h):
                        if s.getNodeType() == 1 and s.getLocalName() in ('style', 'region'):
                            doc['styles' if s.getLocalName() == 'style' else 'regions'].append(styled(s))
        elif c.getLocalName() == 'body':
            walk(c, 0)
    return doc


def slim(nodes, styles=False):
    """The parts of the nodes that matter, for a trace."""
    keys = ('k', 'par', 'b', 'e', 'd', 'tx') + (('id', 'st', 'rg') if styles else ())
    return [dict((q, n[q]) for q in keys) for n in nodes]
