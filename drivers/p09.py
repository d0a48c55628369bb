# P09: the retiming delay node.
import docgen
import docxml
import project
import nodes
from harness import errname
from ebu_tt_live.documents import EBUTT3Document
from ebu_tt_live.node.delay import RetimingDelayNode

OUT = 'OUT'
META = ['', '<ebuttm:documentIdentifier>x</ebuttm:documentIdentifier>',
        '<ebuttm:appliedProcessing process="made" generatedBy="hand"/>',
        '<ebuttm:documentFacet link="http://x/y">pass</ebuttm:documentFacet>',
        '<ebuttm:documentIntendedTargetFormat link="x">WSTTeletextSubtitles</ebuttm:documentIntendedTargetFormat>']


def rand(rng):
    unit = rng.choice([1000, 500, 40])
    delay = rng.choice([1000, 2000, 500, 250, 90000, 3600000, 40, 0])
    sids = rng.choice([['a'], ['a', 'b'], ['a', OUT], ['a', 'b', OUT]])
    steps = []
    docs = {}
    for i in range(rng.randint(3, 8)):
        if rng.random() < 0.12:
            steps.append(dict(ev='msg', sid=rng.choice(['a', 'b', OUT])))
            continue
        sid, n = rng.choice(sids + sids[:1]), rng.randint(1, 9)
        if (sid, n) not in docs or rng.random() < 0.2:
            sids_ = ['s1', 's2', 's3'][:rng.randint(0, 3)]
            rids = ['r1', 'r2'][:rng.randint(0, 2)]
            o = dict(step=unit, pt=rng.choice([0.15, 0.3, 0.5, 0.8]), pd=0.3, bad=rng.random() < 0.3,
                     mixed=rng.random() < 0.5, idpre='n', size=rng.choice([3, 5, 10]), styles=sids_, regions=rids)
            d = dict(nodes=docgen.tree(rng, o), styles=docgen.styles(rng, sids_), regions=docgen.regions(rng, rids, sids_),
                     meta=rng.choice(['', True] + META), ag=rng.choice(['', 'grp']), tok=rng.choice([-1, 4]),
                     lang=rng.choice(['en', '']), vary=rng.random() < 0.5)
            if d['tok'] >= 0:
                d['ag'] = 'grp'
            if rng.random() < 0.1:
                # nothing but times: a document that empties the screen
                d['nodes'] = d['nodes'][:1]
            if rng.random() < 0.04:
                d['nodes'] = []
            if d['nodes'] and rng.random() < 0.5:
                d['nodes'][0]['b'] = -1
            docs[sid, n] = d
        steps.append(dict(docs[sid, n], ev='doc', sid=sid, n=n))
    return dict(tb=rng.choice(['clock', 'media']), delay=delay, steps=steps)


def of_gen(beh, rng):
    T = [dict(n, id='p%d' % i if n['k'] == 'p' else '') for i, n in enumerate(beh['nodes'])]
    steps = [dict(ev='doc', sid='a', n=1, nodes=T), dict(ev='msg', sid='a'), dict(ev='doc', sid='b', n=2, nodes=T),
             dict(ev='doc', sid=OUT, n=3, nodes=T), dict(ev='doc', sid='a', n=1, nodes=T),
             dict(ev='doc', sid='a', n=2, nodes=T)]
    steps = [steps[0]] + [s for s in steps[1:] if rng.random() < 0.3]
    return dict(tb=rng.choice(['clock', 'media']), delay=rng.choice([1000, 250, 60000]), steps=steps)


def flat(items):
    return [dict(id=x['id'], st=x['st'], at=sorted('%s=%s' % kv for kv in x['at'].items())) for x in items]


def seen(xml):
    """What matters of a document."""
    p = project.project(xml)
    root = p['root']
    return dict(nodes=project.slim(p['nodes'], True), styles=flat(p['styles']), regions=flat(p['regions']),
                sid=root.get('sequenceIdentifier', ''), n=int(root.get('sequenceNumber', '0')),
                root=sorted(u'%s=%s' % (k, v) for k, v in root.items()
                            if k not in ('sequenceIdentifier', 'sequenceNumber')),
                ap=nodes.parse(xml).getElementsByTagNameNS('urn:ebu:tt:metadata', 'appliedProcessing').getLength())


def execute(ctx, src, beh):
    rec = nodes.Rec()
    node = RetimingDelayNode(node_id='t', fixed_delay=beh['delay'] / 1000.0 if beh['delay'] % 1000 else beh['delay'] // 1000,
                             document_sequence=OUT, producer_carriage=rec)
    ctx.reset(src, beh, own=OUT, delay=beh['delay'])
    for x in beh['steps']:
        if x['ev'] == 'msg':
            m = nodes.message(x['sid'])
            before = m.get_xml() if hasattr(m, 'get_xml') else ''
            ev = dict(ev='msg', sid=x['sid'])
        else:
            d = dict(x, tb=beh['tb'], cm='utc' if beh['tb'] == 'clock' else '')
            m = EBUTT3Document.create_from_xml(docxml.build(d, x.get('vary')))
            ev = dict(ev='doc', sid=x['sid'], n=x['n'])
            ev['given'] = seen(m.get_xml())
        try:
            node.process_document(m)
            ev['out'] = 'ok'
        except Exception as e:
            ev['out'] = {'UnexpectedSequenceIdentifierError': 'unexpected'}.get(errname(e), 'error:' + errname(e))
        out = rec.take()
        ev['em'] = len(out)
        if x['ev'] == 'msg':
            ev['same'] = len(out) == 1 and out[0][0] is m and (not before or m.get_xml() == before)
        else:
            ev['valid'] = True
            ev['doc'] = []
            for o, kw in out:
                try:
                    xml = o.get_xml()
                    EBUTT3Document.create_from_xml(xml)
                    ev['doc'].append(seen(xml))
                except Exception as e:
                    ev['valid'] = False
        ctx.emit(ev)


def run(ctx):
    for src, beh in ctx.schedule(rand):
        if 'steps' not in beh:
            beh = of_gen(beh, ctx.rng)
        execute(ctx, src, beh)
