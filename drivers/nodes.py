# Shared by the drivers of nodes: recording carriages and document projections.
import six
from javax.xml.parsers import DocumentBuilderFactory
from org.xml.sax import InputSource
from java.io import StringReader
from ebu_tt_live.carriage.base import AbstractProducerCarriage
from ebu_tt_live.documents import EBUTT3Document, EBUTTDDocument
from ebu_tt_live.documents.ebutt3 import EBUTTAuthorsGroupControlRequest
import docxml


class Rec(AbstractProducerCarriage):
    """A producer carriage that records what it is handed."""
    _expects = EBUTT3Document

    def __init__(self):
        self.out = []

    def emit_data(self, data, **kwargs):
        self.out.append((data, kwargs))

    def take(self):
        o, self.out = self.out, []
        return o


class RecText(Rec):
    _expects = six.text_type


class RecD(Rec):
    _expects = EBUTTDDocument


REWRITTEN = ('sequenceIdentifier', 'sequenceNumber', 'authorsGroupSelectedSequenceIdentifier')


def parse(xml):
    """Java DOM of an XML text (str, unicode or bytes)."""
    f = DocumentBuilderFactory.newInstance()
    f.setNamespaceAware(True)
    b = f.newDocumentBuilder()
    b.setErrorHandler(None)
    return b.parse(InputSource(StringReader(xml if isinstance(xml, unicode) else xml.decode('utf-8')))).getDocumentElement()


def canon(xml, drop=REWRITTEN):
    """Order and prefix independent text of an XML document without the named root attributes."""
    out = []

    def walk(el, top):
        out.append(u'<{%s}%s' % (el.getNamespaceURI(), el.getLocalName()))
        ats = []
        m = el.getAttributes()
        for i in range(m.getLength()):
            a = m.item(i)
            if a.getNamespaceURI() == 'http://www.w3.org/2000/xmlns/' or a.getName() == 'xmlns':
                continue
            if top and a.getLocalName() in drop:
                continue
            ats.append(u' {%s}%s=%s' % (a.getNamespaceURI(), a.getLocalName(), a.getValue()))
        out.extend(sorted(ats))
        out.append(u'>')
        c = el.getFirstChild()
        while c is not None:
            t = c.getNodeType()
            if t == 1:
                walk(c, False)
            elif t in (3, 4):
                out.append(c.getData())
            c = c.getNextSibling()
        out.append(u'</>')
    walk(parse(xml), True)
    return u''.join(out)


def message(sid, payload='please', sender='me', recipient=None):
    return EBUTTAuthorsGroupControlRequest(sequence_identifier=sid, payload=payload, sender=sender,
                                           recipient=[recipient] if recipient else None)


def small(d):
    """A small document; d may set nodes."""
    d = dict(d)
    if 'nodes' not in d:
        d['nodes'] = [dict(k='body', par=0, b=d.get('b', -1), e=d.get('e', -1)), dict(k='div', par=1),
                      dict(k='p', par=2, id='p1', tx='text %s %s' % (d['sid'], d['n']))]
    return EBUTT3Document.create_from_xml(docxml.build(d))
