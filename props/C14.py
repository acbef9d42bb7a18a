"""Documents and messages written to the file system come back complete, in order and with their availability times."""
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from props import C07, C12, C20

WORKER = ['fs_ops']
SEC = 1000000
SIDS = ['s1', 'a b', u'\u00e9\u65e5', 'a/b', '../x', 'a,b', '100%', 'a%2Fb', u'\U0001F600', 'urn:x?y=1&z', "it's", '.', 'tail ', '{0}', '*']


@st.composite
def events(draw, sids, n=5, msgs=True, need_avail=False):
    evs = []
    num = {}
    for _ in range(draw(st.integers(1, n))):
        avail = draw(st.one_of(st.integers(0, 90000).map(lambda x: x * 1000), st.integers(0, 400 * 3600 * 1000).map(lambda x: x * 1000)))
        if not need_avail and draw(st.integers(0, 7)) == 0:
            avail = None
        sid = draw(st.sampled_from(sids))
        if msgs and draw(st.integers(0, 3)) == 0:
            m = draw(C20.xmls())
            m['sid'] = sid
            m['frag'] = ttml.esc(draw(C20.TEXT))
            evs.append({'k': 'msg', 'sid': sid, 'xml': C20.message_xml(m), 'avail': avail})
        else:
            num[sid] = num.get(sid, 0) + draw(st.sampled_from([1, 1, 1, 2, 10, 10 ** 9]))
            d = draw(present.styled_docs(sid=sid, num=num[sid], nstyles=1, nregions=1, tree_kw=dict(max_div=1, max_p=2, hi=4)))
            if draw(st.integers(0, 2)) == 0 and d['body']:
                for _, x in ttml.walk(d['body']):
                    if x['t'] == 'p' and not any(isinstance(q, str) for q in x['c']):
                        x['c'].append(draw(C07.texts))
            evs.append({'k': 'doc', 'sid': sid, 'num': num[sid], 'xml': draw(C12.odd_text(d)), 'avail': avail, 'tb': d['tb']})
    return evs


@st.composite
def trips(draw):
    sids = draw(st.lists(st.sampled_from(SIDS), min_size=1, max_size=2, unique=True))
    opts = {}
    if draw(st.integers(0, 3)) == 0:
        opts['file_name_pattern'] = draw(st.sampled_from(['d {sequence_identifier}-{counter:04d}.xml', '{counter}{sequence_identifier}', '{counter}-{sequence_identifier}.ttml']))
    if draw(st.integers(0, 5)) == 0:
        opts['message_file_name_pattern'] = 'm {sequence_identifier}-{counter}.xml'
    return {'events': draw(events(sids)), 'opts': opts}


def canon_any(text):
    e = ET.fromstring(text.encode('utf8'))
    return C20.squeeze(C20.tree(e)) if e.tag.endswith('message') else e


def run_trip(w, c, rec):
    r = w.call('fs_trip', stages=[['distributing', {}]], events=c['events'], opts=c['opts'])
    if r['files'] != ['out']:
        raise Fail('files outside of the folder: %s' % r['files'])
    got = [x for n in sorted(r['manifests']) for x in r['manifests'][n]]
    want = []
    timed = set()
    for e in c['events']:
        # a message without availability time is kept only once a clock is known for its sequence, as documented by the tests
        if e['avail'] is None:
            if e['k'] == 'doc':
                timed.add(e['sid'])
            elif e['sid'] not in timed:
                continue
        want.append(e)
    several = len(r['manifests']) > 1
    if several:
        order = lambda x: x['sid']
        got, want = sorted(got, key=order), sorted(want, key=order)
    if len(got) != len(want):
        raise Fail('%d written, %d read back' % (len(want), len(got)))
    if r['xml'] != len(c['events']):
        raise Fail('%d files for %d documents' % (r['xml'], len(c['events'])))
    for i, (g, e) in enumerate(zip(got, want)):
        if 'sid' not in g:
            raise Fail('item %d can not be read: %r' % (i, g))
        if g['sid'] != e['sid'] or g['num'] != e.get('num'):
            raise Fail('item %d is %r %r instead of %r %r' % (i, g['sid'], g['num'], e['sid'], e.get('num')))
        if e['k'] == 'doc':
            if g['text'] != e['xml']:
                raise Fail('item %d altered from %r to %r' % (i, e['xml'], g['text']))
        elif canon_any(g['text']) != canon_any(e['xml']):
            raise Fail('item %d altered from %r to %r' % (i, e['xml'], g['text']))
        if not g['unicode']:
            raise Fail('item %d is not text' % i)
        if e['avail'] is not None:
            if g['avail'] != e['avail'] or g['doc_avail'] != e['avail']:
                raise Fail('item %d has availability time %s instead of %s' % (i, g['avail'], e['avail']))
        elif g['avail'] is None:
            raise Fail('item %d has no availability time' % i)
    rec.label('odd identifier', any(e['sid'] not in ('s1',) for e in c['events']))
    rec.label('messages', any(e['k'] == 'msg' for e in c['events']))
    rec.label('two sequences', len({e['sid'] for e in c['events']}) > 1)
    rec.label('over a day', any(e['avail'] and e['avail'] > 86400 * SEC for e in c['events']))
    rec.nontrivial(len(want) > 1)


@st.composite
def tails(draw):
    evs = draw(events([draw(st.sampled_from(['s1', 'a b', 'a,b']))], n=4, need_avail=True))
    return {'events': evs, 'chunks': draw(st.lists(st.one_of(st.integers(0, 40), st.integers(1, 3)), max_size=8)),
            'tail': draw(st.integers(0, 3)) != 0, 'cut': draw(st.one_of(st.none(), st.none(), st.integers(1, 60)))}


def run_tail(w, c, rec):
    r = w.call('fs_tail', **c)
    n = r['lines']
    got = r['got']
    evs = c['events']
    if len(got) < n or len(got) > len(evs):
        raise Fail('%d complete lines, %d delivered (%s)' % (n, len(got), r['exc'] and r['exc']['msg']))
    if c['tail'] and len(got) != n:
        raise Fail('%d complete lines, %d delivered' % (n, len(got)))
    if r['exc'] and (r['whole'] or c['tail']):
        raise Fail('reading ended in %s %s' % (r['exc']['type'], r['exc']['msg']), sig='exc:' + r['exc']['type'])
    if c['tail'] and r['left']:
        raise Fail('stopped reading early')
    for i, (g, e) in enumerate(zip(got, evs)):
        if g.get('sid') != e['sid'] or g.get('num') != e.get('num') or canon_s(g['text']) != canon_s(e['xml']):
            raise Fail('item %d altered from %r to %r' % (i, e, g))
        if g['avail'] != e['avail']:
            raise Fail('item %d has availability time %s instead of %s' % (i, g['avail'], e['avail']))
    rec.label('cut off', c['cut'])
    rec.label('tail', c['tail'])
    rec.nontrivial(n > 1 and (c['tail'] and c['chunks'] or c['cut']))


def canon_s(t):
    e = canon_any(t)
    return C07.canon(e) if isinstance(e, ET.Element) else e


# ---------------------------------------------------------------- times
@st.composite
def stamps(draw):
    return {'us': (draw(st.integers(0, 400)) * 3600 + draw(st.integers(0, 3599))) * SEC + draw(st.integers(0, SEC - 1)), 'text': '%02d:%02d:%02d%s' % (
        draw(st.integers(0, 400)), draw(st.integers(0, 59)), draw(st.integers(0, 59)), draw(st.one_of(
            st.integers(0, 999).map(lambda x: '.%03d' % x), st.integers(0, 999999).map(lambda x: '.%06d' % x), st.integers(0, 9).map(lambda x: '.%d' % x))))}


def run_stamps(w, c, rec):
    t, back, read = w.call('fs_stamp', us_=c['us'], text=c['text'])
    if t != ttml.clock_text(c['us'], 3):
        raise Fail('%d us written as %s' % (c['us'], t))
    if back != c['us'] // 1000 * 1000:
        raise Fail('%s read as %d us' % (t, back))
    if read != ttml.time_us(c['text']):
        raise Fail('%s read as %d us' % (c['text'], read))
    rec.nontrivial(c['us'] > 86400 * SEC)


# ---------------------------------------------------------------- times of the writer's own clocks, limited number of files
EPOCH = 1479000000 // 86400 * 86400 * SEC
MODES = [('clock', 'local'), ('clock', 'utc'), ('media', None)]


@st.composite
def clocked(draw):
    sids = draw(st.lists(st.sampled_from(SIDS), min_size=1, max_size=3, unique=True))
    mode = {s: draw(st.sampled_from(MODES)) for s in sids}
    evs = []
    num = {}
    for _ in range(draw(st.integers(1, 7))):
        sid = draw(st.sampled_from(sids))
        e = {'sid': sid, 'adv': draw(st.one_of(st.integers(0, 5 * 10 ** 6), st.sampled_from([0, 43200 * SEC, 86400 * SEC]))),
             'avail': draw(st.one_of(st.none(), st.none(), st.sampled_from([0, 0, 86400 * SEC]), st.integers(0, 2 * 10 ** 11))), 'mode': mode[sid],
             'delay': draw(st.sampled_from([None, None, None, 0, 1.5, 20]))}
        if draw(st.integers(0, 3)) == 0:
            e['xml'] = C20.message_xml({'sid': sid, 'frag': 'x', 'sender': 'a', 'recipient': ['b'], 'ws': ''})
        else:
            e['num'] = num[sid] = num.get(sid, 0) + draw(st.integers(1, 3))
            tb, cm = mode[sid]
            e['xml'] = ttml.to_xml({'sid': sid, 'num': e['num'], 'tb': tb, 'cm': cm, 'styles': [], 'regions': None, 'body': None})
        evs.append(e)
    return {'events': evs, 'tz': draw(st.sampled_from([0, 330, -480, 765, -210])), 'start': EPOCH + draw(st.integers(0, 86400 * SEC - 1)),
            'limit': draw(st.sampled_from([0, 0, 1, 2, 3]))}


def run_clocked(w, c, rec):
    r = w.call('fs_times', **c)
    now = c['start']
    first = {}      # what the clock of a sequence is and the instant of its creation
    want = []
    defaults = 0
    for i, e in enumerate(c['events']):
        now += e['adv']
        t = e['avail']
        if t is None:
            if e['sid'] not in first:
                if 'num' not in e:
                    continue
                first[e['sid']] = now
            defaults += 1
            tb, cm = e['mode']
            t = now - first[e['sid']] if tb == 'media' else (now + (c['tz'] * 60 * SEC if cm == 'local' else 0)) % (86400 * SEC)
        want.append((i, t + int((e['delay'] or 0) * SEC)))
    if len(r['lines']) != len(want):
        raise Fail('%d lines in the manifest instead of %d' % (len(r['lines']), len(want)))
    for (i, t), (stamp, _) in zip(want, r['lines']):
        if stamp != ttml.clock_text(t, 3):
            raise Fail('item %d was available at %s but %s is written' % (i, ttml.clock_text(t, 3), stamp))
    keep = list(enumerate(c['events']))[-c['limit']:] if c['limit'] else list(enumerate(c['events']))
    if len(r['files']) != len(keep):
        raise Fail('%d files instead of %d' % (len(r['files']), len(keep)))
    line_of = {i: l[1] for (i, _), l in zip(want, r['lines'])}
    names = {n: t for n, t in r['files']}
    for i, e in keep:
        if i in line_of:
            if line_of[i] not in names:
                raise Fail('the file of item %d is missing' % i)
            t = names[line_of[i]]
            if ET.fromstring(t.encode('utf8')).get(ttml.q('ebuttp:sequenceIdentifier')) != e['sid']:
                raise Fail('the file of item %d has other content' % i)
    rec.label('own clock', defaults)
    rec.label('limited', c['limit'] and len(c['events']) > c['limit'])
    rec.label('several clocks', len({e['mode'] for e in c['events'] if e['sid'] in first}) > 1)
    rec.nontrivial(defaults > 1 or c['limit'] and len(c['events']) > c['limit'] + 1)


def tests(tier):
    return [Test('trip', trips, run_trip, quick=300, thorough=8000, weight=3, rule='more than one document or message'),
            Test('tail', tails, run_tail, quick=250, thorough=6000, weight=2, rule='more than one line, in pieces or cut off'),
            Test('clocks', clocked, run_clocked, quick=300, thorough=6000, weight=2, rule='times of the own clock or more files than the limit'),
            Test('stamps', stamps, run_stamps, quick=1000, thorough=20000, weight=0.5, rule='more than a day')]
