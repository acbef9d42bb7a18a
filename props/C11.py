"""The retiming delay: the same content, every instant later by exactly the delay."""
import copy
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from props import C07, C20

WORKER = ['pipe_ops']
SEC = 1000000
OUT = 'out seq'
DELAYS = [0, 1, 2.5, 0.25, 10, 0.001, 3600, 1.75, 61, 7.5]


@st.composite
def retimed(draw):
    d = draw(present.styled_docs(sid=draw(st.sampled_from(['in', u'\u00e9n'])), num=draw(st.integers(1, 10 ** 6)), nstyles=2,
                                 tree_kw=dict(p_time=draw(st.sampled_from([0.3, 0.6, 0.9, 1.0])), max_div=2,
                                              body_timing=draw(st.booleans()), mixed=draw(st.integers(0, 9)) == 0)))
    d['headmeta'] = draw(st.sampled_from(C07.HEADMETA))
    if d['body'] and draw(st.integers(0, 3)) == 0:
        # every leaf timed by itself
        for _, n in list(ttml.walk(d['body'])):
            kids = [c for c in n['c'] if not isinstance(c, str) and c['t'] == 'span']
            if n['t'] in ('p', 'span') and not kids and 'begin' not in n['a']:
                n['a']['begin'] = draw(ttml.times(6))
                if 'end' in n['a'] and ttml.bad(n['a']):
                    del n['a']['end']
        if draw(st.booleans()):
            d['body']['a'].pop('begin', None)
            d['body']['a'][draw(st.sampled_from(['dur', 'end']))] = draw(st.sampled_from(['3s', '00:00:05', '9s', '12s']))
    if draw(st.integers(0, 19)) == 0:
        d['body'] = None
    if d['tb'] == 'clock':
        d['cm'] = draw(st.sampled_from(['local', 'utc', 'gps']))
    if draw(st.integers(0, 3)) == 0:
        d['tta'] = {'ebuttm:authoringDelay': '3s'}
    return {'doc': d, 'delay': draw(st.sampled_from(DELAYS)), 'feed': draw(st.sampled_from(['xml', 'doc'])), 'chain': draw(st.integers(0, 3)) == 0,
            'avail': draw(st.one_of(st.none(), st.none(), st.integers(0, 9000).map(lambda x: x * 1000)))}


def strip(root):
    """the content without times, identifier and processing metadata"""
    root = copy.deepcopy(root)
    for e in root.iter():
        if e.tag in [ttml.q('tt:' + t) for t in ttml.TIMED]:
            for k in ('begin', 'end', 'dur'):
                e.attrib.pop(k, None)
    root.attrib.pop(ttml.q('ebuttp:sequenceIdentifier'), None)
    meta = root.find('%s/%s' % (ttml.q('tt:head'), ttml.q('tt:metadata')))
    n = []
    if meta is not None:
        dm = meta.find(ttml.q('ebuttm:documentMetadata'))
        if dm is not None:
            n = dm.findall(ttml.q('ebuttm:appliedProcessing'))
            for x in n:
                dm.remove(x)
            if not len(dm) and not dm.attrib:
                meta.remove(dm)
        if not len(meta) and not meta.attrib:
            root.find(ttml.q('tt:head')).remove(meta)
    return root, n


def runs(n, times, path=(), out=None, active=(0, None)):
    """every text run and br with the interval it is shown in"""
    if out is None:
        out = []
    b, e = times[path]
    b = max(b, active[0])
    e = active[1] if e is None else e if active[1] is None else min(e, active[1])
    i = 0
    for c in n['c']:
        if isinstance(c, str):
            out.append([path, c, b, e])
            continue
        if c['t'] in ttml.TIMED:
            runs(c, times, path + (i,), out, (b, e))
        elif c['t'] == 'br':
            out.append([path, '\n', b, e])
        i += 1
    return out


def compare(xml_in, xml_out, delay):
    ri, ro = ET.fromstring(xml_in.encode('utf8')), ET.fromstring(xml_out.encode('utf8'))
    si, ai = strip(ri)
    so, ao = strip(ro)
    d = C07.diff(C07.canon(si), C07.canon(so))
    if d:
        raise Fail('content changed: ' + d)
    if [ET.tostring(x) for x in ai] != [ET.tostring(x) for x in ao[:len(ai)]]:
        raise Fail('earlier processing metadata changed')
    if len(ao) != len(ai) + 1:
        raise Fail('%d processing entries instead of %d' % (len(ao), len(ai) + 1))
    if not any('retimed' in v for v in ao[-1].attrib.values()):
        raise Fail('processing entry %s' % ET.tostring(ao[-1]))
    m, o = ttml.from_root(ri), ttml.from_root(ro)
    if m['body'] is None:
        return 0
    tm, to = ttml.ref_times(m), ttml.ref_times(o)
    D = int(round(delay * SEC))
    a, b = runs(m['body'], tm), runs(o['body'], to)
    shown = 0
    for (p, text, x, y), (p2, text2, x2, y2) in zip(a, b):
        empty, empty2 = y is not None and y <= x, y2 is not None and y2 <= x2
        if empty and empty2:
            continue
        shown += 1
        if empty != empty2 or x2 != x + D or y2 != (None if y is None else y + D):
            raise Fail('%r at %s was shown from %s to %s, is now shown from %s to %s (delay %s)' % (
                text, list(p), x, y, x2, y2, D))
    # spans without text still show their background; all elements must be shifted that can show something
    for pts in present.instants({k: v for k, v in tm.items()}):
        if present.screen(m, pts, times=tm) != present.screen(o, pts + D, times=to):
            raise Fail('screen at %s and %s differ' % (pts, pts + D))
    for pts in present.instants({k: (v[0], v[1]) for k, v in to.items()}):
        s = present.screen(o, pts, times=to)
        if s != (present.screen(m, pts - D, times=tm) if pts >= D else []):
            raise Fail('screen at %s of the output is not that at %s of the input' % (pts, pts - D))
    return shown


def run_retimed(w, c, rec):
    d = c['doc']
    x = ttml.to_xml(d)
    stages = [['retiming', {'delay': c['delay'], 'seq': OUT}]]
    if c['chain']:
        stages.append(['distributing', {}])
    o = w.call('pipe', stages=stages, events=[{'xml': x, 'avail': c['avail']}], feed=c['feed'])[0]
    if 'exc' in o:
        raise Fail('%s %s' % (o['exc']['msg'], o['exc']['tb']), sig='exc:' + o['exc']['type'])
    if len(o['out']) != 1:
        raise Fail('emitted %d times' % len(o['out']))
    data, kw = o['out'][0]['data'], o['out'][0]['kw']
    root = ET.fromstring(data['text'].encode('utf8'))
    if root.get(ttml.q('ebuttp:sequenceIdentifier')) != OUT:
        raise Fail('sequence identifier %r' % root.get(ttml.q('ebuttp:sequenceIdentifier')))
    if int(root.get(ttml.q('ebuttp:sequenceNumber'))) != d['num']:
        raise Fail('sequence number %r' % root.get(ttml.q('ebuttp:sequenceNumber')))
    if c['chain']:
        if (kw['sequence_identifier'], kw['sequence_number'], kw['availability_time']) != (OUT, d['num'], c['avail']):
            raise Fail('parameters %s' % kw)
    else:
        if (data['sid'], data['num'], data['avail']) != (OUT, d['num'], c['avail']):
            raise Fail('document has %s' % data)
        if kw.get('raw_xml') not in (None, data['text']):
            raise Fail('the document is accompanied by the text it had before')
        m = ttml.from_xml(data['text'])
        b, e = ttml.doc_times(m, c['avail'] or 0)
        if d['body'] is not None and (data['b'], data['e']) != (b, e):
            raise Fail('computed times of the output are %s, %s instead of %s, %s' % (data['b'], data['e'], b, e))
    shown = compare(x, data['text'], c['delay'])
    w.call('parse3', xml=data['text'])
    nodes = [n for _, n in ttml.walk(d['body'])] if d['body'] else []
    rec.label('body has dur', any('dur' in n['a'] for n in nodes))
    rec.label('body has begin', bool(nodes) and 'begin' in nodes[0]['a'])
    rec.label('untimed', not any('begin' in n['a'] for n in nodes))
    rec.label('chained', c['chain'])
    rec.nontrivial(shown > 1 and c['delay'] and any(k in n['a'] for n in nodes for k in ('begin', 'end', 'dur')))


# ---------------------------------------------------------------- histories
@st.composite
def histories(draw):
    evs = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 9))
        if k < 8:
            evs.append({'k': 'doc', 'sid': draw(st.sampled_from(['a', 'a', 'a', 'b', OUT])), 'num': draw(st.integers(1, 4)), 'n': draw(st.integers(0, 5))})
        elif k < 9:
            evs.append({'k': 'msg', 'm': draw(C20.xmls())})
        else:
            evs.append({'k': 'bad'})
    return {'events': evs, 'delay': draw(st.sampled_from(DELAYS)), 'feed': draw(st.sampled_from(['xml', 'doc']))}


def hist_doc(e):
    return ttml.to_xml({'sid': e['sid'], 'num': e['num'], 'tb': 'clock', 'body': {'t': 'body', 'a': {}, 'c': [
        {'t': 'div', 'a': {}, 'c': [{'t': 'p', 'a': {'xml:id': 'p', 'begin': '%ds' % e['n'], 'end': '%ds' % (e['n'] + 2)}, 'c': ['text %d' % e['n']]}]}]}})


def run_history(w, c, rec):
    evs = [e for e in c['events'] if c['feed'] == 'xml' or e['k'] != 'bad']
    xs = [hist_doc(e) if e['k'] == 'doc' else C20.message_xml(e['m']) if e['k'] == 'msg' else '<bad' for e in evs]
    out = w.call('pipe', stages=[['retiming', {'delay': c['delay'], 'seq': OUT}]], events=[{'xml': x} for x in xs], feed=c['feed'])
    first = None
    seen = set()
    kinds = set()
    for i, (e, x, o) in enumerate(zip(evs, xs, out)):
        if e['k'] == 'bad':
            if 'exc' not in o or o['out']:
                raise Fail('malformed input: %s' % o)
            continue
        if e['k'] == 'msg':
            if len(o['out']) != 1 or C20.squeeze(C20.tree(ET.fromstring(o['out'][0]['data']['text'].encode('utf8')))) != \
                    C20.squeeze(C20.tree(ET.fromstring(x.encode('utf8')))):
                raise Fail('event %d: message became %s' % (i, o))
            continue
        exc = o.get('exc', {}).get('mro', ())
        refuse = e['sid'] == OUT
        repeated = (e['sid'], e['num']) in seen
        if not refuse and first is None:
            first = e['sid']
        if refuse or e['sid'] != first:
            kinds.add('own' if refuse else 'second')
            if o['out']:
                raise Fail('event %d: document of %s passed' % (i, e['sid']))
            # a document of a second sequence that was refused before may be dropped as a repeated one
            if 'UnexpectedSequenceIdentifierError' not in exc and not repeated:
                raise Fail('event %d: document of %s not refused: %s' % (i, e['sid'], o))
            seen.add((e['sid'], e['num']))
            continue
        if 'exc' in o:
            raise Fail('event %d: %s %s' % (i, o['exc']['msg'], o['exc']['tb']), sig='exc:' + o['exc']['type'])
        if repeated:
            kinds.add('repeated')
            if o['out']:
                raise Fail('event %d: repeated document passed' % i)
            continue
        seen.add((e['sid'], e['num']))
        if len(o['out']) != 1:
            raise Fail('event %d: emitted %d times' % (i, len(o['out'])))
        data = o['out'][0]['data']
        if (data['sid'], data['num']) != (OUT, e['num']):
            raise Fail('event %d: emitted as %s %s' % (i, data['sid'], data['num']))
        compare(x, data['text'], c['delay'])
    for k in kinds:
        rec.label(k)
    rec.nontrivial(bool(kinds))


def tests(tier):
    return [Test('retimed', retimed, run_retimed, quick=700, thorough=20000, weight=3, rule='a delay, times and more than one run of text'),
            Test('histories', histories, run_history, quick=250, thorough=6000, rule='a document of the own or a second sequence or a repeated one')]
