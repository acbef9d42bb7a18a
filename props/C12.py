"""Passive nodes: everything passes unaltered, once, in order; repeated documents are dropped; the buffer delay waits exactly."""
import re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from vlib.refusal import refused
from props import C07, C20

WORKER = ['pipe_ops', 'delay_ops', 'message_ops']
SEC = 1000000
SIDS = ['a', 'b', u's\u00e9q']


def key(sid, num):
    return '%s\n%d' % (sid, num)


@st.composite
def odd_text(draw, d):
    """the document as text, written in unusual but equivalent ways"""
    x = ttml.to_xml(d)
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 6))
        if k == 0:
            x = x.replace('?><tt:tt', '?>\n<!-- a comment -->\n<tt:tt')
        elif k == 1:
            x = x.replace('</tt:head>', '\n  </tt:head>\n\t<!-- - - -->')
        elif k == 2:
            x = x + '\n\n'
        elif k == 3:
            x = x.replace('ebuttp:sequenceNumber="', 'ebuttp:sequenceNumber="00', 1) if 'Number="00' not in x else x
        elif k == 4:
            x = x.replace('<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0'?>")
        elif k == 5:
            x = x.replace('<tt:body', '<tt:body  ').replace('/>', ' />')
        else:
            x = re.sub(r'xml:lang="(\w*)"', r"xml:lang='\1'", x, 1)
    return x


@st.composite
def passing(draw):
    evs = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 11))
        if k < 9:
            d = draw(present.styled_docs(sid=draw(st.sampled_from(SIDS)), num=draw(st.integers(1, 4)), nstyles=1, nregions=1,
                                         tree_kw=dict(max_div=1, max_p=2, hi=5)))
            if draw(st.integers(0, 7)) == 0:
                d['body'] = None
            if d['tb'] == 'clock':
                d['cm'] = draw(st.sampled_from(['local', 'utc', 'gps']))
            evs.append({'k': 'doc', 'xml': draw(odd_text(d)), 'sid': d['sid'], 'num': d['num'], 'tb': d['tb'],
                        'cm': d['cm'] if d['tb'] == 'clock' else None, 'avail': draw(st.one_of(st.none(), st.integers(0, 9 * SEC)))})
        elif k < 11:
            m = draw(C20.xmls())
            evs.append({'k': 'msg', 'xml': C20.message_xml(m), 'sid': m['sid'], 'avail': m['avail']})
        else:
            evs.append({'k': 'bad', 'xml': draw(st.sampled_from(['<tt:tt/>', 'hello', '<a/>', '']))})
        if len(evs) > 1 and draw(st.integers(0, 4)) == 0:
            evs.append(draw(st.sampled_from(evs)))
    return {'events': evs, 'feed': draw(st.sampled_from(['xml', 'xml', 'doc']))}


def run_pass(w, c, rec):
    evs = [e for e in c['events'] if c['feed'] == 'xml' or e['k'] != 'bad']
    out = w.call('pipe', stages=[['distributing', {}]], events=evs, feed=c['feed'])
    seen = set()
    dup = 0
    for i, (e, o) in enumerate(zip(evs, out)):
        if e['k'] == 'bad':
            if 'exc' not in o or o['out']:
                raise Fail('malformed input passed on: %s' % o)
            if not refused(o['exc']):
                rec.label('odd refusal ' + o['exc']['type'])
            continue
        if 'exc' in o:
            raise Fail('event %d: %s %s' % (i, o['exc']['msg'], o['exc']['tb']), sig='exc:' + o['exc']['type'])
        got = o['out']
        if e['k'] == 'doc':
            k = key(e['sid'], e['num'])
            if k in seen:
                dup += 1
                if got:
                    raise Fail('event %d: repeated document passed on' % i)
                continue
            seen.add(k)
        if len(got) != 1:
            raise Fail('event %d: emitted %d times' % (i, len(got)))
        text, kw = got[0]['data'].get('text'), got[0]['kw']
        want = {'sequence_identifier': e['sid'], 'availability_time': e['avail']}
        if e['k'] == 'doc':
            want.update(sequence_number=e['num'], time_base=e['tb'], clock_mode=e['cm'])
            if c['feed'] == 'xml':
                same = text == e['xml']
            else:
                same = C07.diff(C07.canon(ET.fromstring(e['xml'].encode('utf8'))), C07.canon(ET.fromstring(text.encode('utf8')))) is None
        else:
            same = C20.squeeze(C20.tree(ET.fromstring(e['xml'].encode('utf8')))) == C20.squeeze(C20.tree(ET.fromstring(text.encode('utf8'))))
        if not same:
            raise Fail('event %d: altered from %r to %r' % (i, e['xml'], text))
        for n, v in want.items():
            if kw.get(n) != v:
                raise Fail('event %d: %s is %r instead of %r' % (i, n, kw.get(n), v))
    rec.label('repeated', dup)
    rec.label('message', any(e['k'] == 'msg' for e in evs))
    rec.label('several sequences', len({e.get('sid') for e in evs}) > 1)
    rec.nontrivial(len(seen) > 1 and (dup or any(e['k'] == 'msg' for e in evs)))


# ---------------------------------------------------------------- long histories
@st.composite
def long_history(draw):
    evs = []
    nxt = {}
    for _ in range(draw(st.integers(3, 12))):
        s = draw(st.integers(0, 2))
        k = draw(st.integers(0, 3))
        if k < 2:
            n = draw(st.sampled_from([1, 2, 30, 50, 60, 98, 99, 100, 101]))
            a = nxt.get(s, 1)
            evs += [[s, a + j] for j in range(n)]
            nxt[s] = a + n
        elif s in nxt:
            back = draw(st.integers(0, 99))
            evs.append([s, max(1, nxt[s] - 1 - back)])
        else:
            evs.append([s, draw(st.sampled_from([10 ** 12, 5000]))])
    return {'events': evs, 'kind': draw(st.sampled_from(['distributing', 'retiming', 'base']))}


def run_long(w, c, rec):
    evs = c['events']
    if c['kind'] == 'retiming':
        evs = [e for e in evs if e[0] == evs[0][0]][:120]
    got = w.call('dup_history', kind=c['kind'], sids=SIDS, events=evs)
    mem = {}
    old = 0
    dups = 0
    for i, ((s, n), g) in enumerate(zip(evs, got)):
        m = mem.setdefault(s, [])
        if n in m[-100:]:
            dups += 1
            if g:
                raise Fail('event %d: number %d of %s passed again although among the last 100' % (i, n, SIDS[s]))
        elif n in m:
            old += 1
            if g:
                m.append(n)
            continue
        else:
            if g != 1:
                raise Fail('event %d: number %d of %s, never seen, emitted %d times' % (i, n, SIDS[s], g))
            m.append(n)
    rec.label('older than the memory', old)
    rec.label('repeated', dups)
    rec.nontrivial(dups and len(evs) > 100)


# ---------------------------------------------------------------- buffer delay
@st.composite
def buffered(draw):
    t = 0
    evs = []
    for _ in range(draw(st.integers(1, 8))):
        t += draw(st.sampled_from([0, 0, 1, 250, 500, 1000, 2500, 10 ** 5, 1])) 
        e = {'t': t, 'text': draw(st.one_of(st.sampled_from(['<a/>', u'\u00e9\u65e5', 'x', ' ', '\n', '<tt:tt>' * 50]), st.text(min_size=1, max_size=20))),
             'sid': draw(st.sampled_from(['s1', 's2']))}
        e['avail'] = draw(st.one_of(st.none(), st.integers(0, 10 ** 8)))
        evs.append(e)
    return {'delay': draw(st.sampled_from([0, 0.0, 1, 2.5, 0.25, 10, 0.001, 3600, 86400, 1.75])), 'events': evs,
            'conns': draw(st.lists(st.sampled_from(['s1', 's2']), min_size=1, max_size=3))}


def run_buffer(w, c, rec):
    r = w.call('buffer_run', **c)
    for i, (e, o) in enumerate(zip(c['events'], r['emits'])):
        if len(o) != 1 or o[0]['data'] != e['text']:
            raise Fail('event %d: emitted %s instead of %r' % (i, o, e['text']))
        if o[0]['kw'].get('delay') != c['delay'] or o[0]['kw'].get('sequence_identifier') != e['sid'] or o[0]['kw'].get('availability_time') != e['avail']:
            raise Fail('event %d: parameters %s' % (i, o[0]['kw']))
    want = [[e['t'] / 1000.0 + c['delay'], j, e['text']] for e in c['events'] for j, s in enumerate(c['conns']) if s == e['sid']]
    want.sort(key=lambda x: x[0])
    got = r['writes']
    if [x[1:] for x in got] != [x[1:] for x in want] and sorted(map(str, [x[1:] for x in got])) != sorted(map(str, [x[1:] for x in want])):
        raise Fail('written %s instead of %s' % (got, want))
    for j in range(len(c['conns'])):
        g, v = [x for x in got if x[1] == j], [x for x in want if x[1] == j]
        if [x[2] for x in g] != [x[2] for x in v]:
            raise Fail('connection %d received %s instead of %s' % (j, g, v))
        for x, y in zip(g, v):
            if abs(x[0] - y[0]) > 1e-5:
                raise Fail('connection %d received %r at %s instead of %s' % (j, x[2], x[0], y[0]))
    rec.nontrivial(len(got) > 1 and c['delay'])


@st.composite
def filed(draw):
    return {'delay': draw(st.sampled_from([0, 0.0, 1, 2.5, 0.25, 10, 0.001, 3600, 86400, 1.75])),
            'events': [{'text': draw(st.sampled_from(['<a/>', 'x y', '<b>1</b>', u'<a>\u00e9</a>'])), 'avail': draw(st.integers(0, 10 ** 8)) * 1000}
                       for _ in range(draw(st.integers(1, 4)))]}


def run_file(w, c, rec):
    r = w.call('buffer_file', **c)
    want = [ttml.clock_text(e['avail'] + int(c['delay'] * 1000) * 1000, 3) for e in c['events']]
    if [x[0] for x in r] != want:
        raise Fail('manifest times %s instead of %s' % ([x[0] for x in r], want))
    if [x[1] for x in r] != [e['text'] for e in c['events']]:
        raise Fail('files hold %s' % [x[1] for x in r])
    rec.nontrivial(c['delay'] and len(c['events']) > 1)


def tests(tier):
    return [Test('distribute', passing, run_pass, quick=400, thorough=12000, weight=3, rule='two or more documents and a repeated one or a message'),
            Test('long', long_history, run_long, quick=60, thorough=1500, weight=1.5, rule='over a hundred documents with repetitions'),
            Test('buffer', buffered, run_buffer, quick=400, thorough=8000, rule='a delay and more than one delivery'),
            Test('files', filed, run_file, quick=100, thorough=2000, rule='a delay and more than one file')]
