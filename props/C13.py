"""Handover: a state machine decides which documents of the competing sequences are emitted, and how they are labelled."""
import copy
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from props import C07, C20

WORKER = ['pipe_ops']
SEC = 1000000
SIDS = ['a', 'b', u'\u00e7']
OUT = 'out seq'
GROUP = [u'group', u'Gr\u00fcppe 1']
SEL = 'ebuttm:authorsGroupSelectedSequenceIdentifier'


@st.composite
def histories(draw):
    group = draw(st.sampled_from(GROUP))
    settings = {s: (draw(st.sampled_from(['clock', 'clock', 'media'])), draw(st.sampled_from(['local', 'utc']))) for s in SIDS + [OUT]}
    groups = {s: draw(st.sampled_from([group] * 7 + ['other'])) for s in SIDS + [OUT]}
    nxt = {s: 0 for s in SIDS + [OUT]}
    tok = st.sampled_from([None] + [1, 2, 3, 4, 5] * 2 + [10, 12345678901234567890])
    evs = []
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.integers(0, 13))
        if k == 13:
            evs.append({'k': 'msg', 'm': draw(C20.xmls())})
            continue
        if k == 12 and evs:
            evs.append(draw(st.sampled_from(evs)))
            continue
        sid = draw(st.sampled_from(SIDS * 5 + [OUT]))
        nxt[sid] += draw(st.sampled_from([1, 1, 1, 3]))
        tb, cm = settings[sid]
        g = draw(st.sampled_from([groups[sid]] * 8 + [None]))
        odd = draw(st.integers(0, 14))
        if odd == 0:
            tb = 'media' if tb == 'clock' else 'clock'
        elif odd == 1:
            cm = 'utc' if cm == 'local' else 'local'
        elif odd == 2:
            g = draw(st.sampled_from(['other', group]))
        evs.append({'k': 'doc', 'sid': sid, 'num': nxt[sid], 'tb': tb, 'cm': cm if tb == 'clock' else None, 'group': g,
                    'token': draw(tok), 'n': draw(st.integers(0, 5)), 'sel': draw(st.sampled_from([None, None, None, 'zz'])),
                    'avail': draw(st.one_of(st.none(), st.integers(0, 9 * SEC)))})
    if draw(st.integers(0, 2)) == 0:
        evs = draw(st.permutations(evs))
    return {'events': evs, 'group': group, 'feed': draw(st.sampled_from(['xml', 'doc'])), 'chain': draw(st.booleans()),
            'rich': draw(present.styled_docs(tree_kw=dict(max_div=1, max_p=2), nstyles=2)) if draw(st.booleans()) else None}


def doc_of(e, rich=None):
    d = copy.deepcopy(rich) if rich else {'body': {'t': 'body', 'a': {}, 'c': [{'t': 'div', 'a': {}, 'c': [
        {'t': 'p', 'a': {'xml:id': 'p', 'begin': '%ds' % e['n'], 'end': '%ds' % (e['n'] + 2)}, 'c': ['text %d' % e['n']]}]}]}}
    d.update(sid=e['sid'], num=e['num'], tb=e['tb'], cm=e['cm'])
    a = d['tta'] = {}
    if e['group'] is not None:
        a['ebuttp:authorsGroupIdentifier'] = e['group']
    if e['token'] is not None:
        a['ebuttp:authorsGroupControlToken'] = e['token']
    if e['sel'] is not None:
        a[SEL] = e['sel']
    return ttml.to_xml(d)


def run_history(w, c, rec):
    evs = c['events']
    xs = [doc_of(e, c['rich']) if e['k'] == 'doc' else C20.message_xml(e['m']) for e in evs]
    stages = [['handover', {'group': c['group'], 'seq': OUT}]] + ([['distributing', {}]] if c['chain'] else [])
    out = w.call('pipe', stages=stages, events=[{'xml': x, 'avail': e.get('avail')} for e, x in zip(evs, xs)], feed=c['feed'],
                 out='text' if c['chain'] else None)
    known, seen = {}, set()
    token = selected = None
    n = switches = lowered = 0
    for i, (e, x, o) in enumerate(zip(evs, xs, out)):
        if e['k'] == 'msg':
            if len(o['out']) != 1 or 'exc' in o:
                raise Fail('event %d: message: %s' % (i, o))
            ri, ro = [C20.squeeze(C20.tree(ET.fromstring(t.encode('utf8')))) for t in (
                C20.message_xml(dict(e['m'], sid=OUT)), o['out'][0]['data']['text'])]
            if ri != ro:
                raise Fail('event %d: message became %s instead of %s' % (i, ro, ri))
            continue
        k = known.setdefault(e['sid'], {'tb': e['tb'], 'cm': e['cm'], 'group': e['group']})
        wrong = 'timing' if (k['tb'], k['cm']) != (e['tb'], e['cm']) else None
        if not wrong and e['group'] is not None:
            if k['group'] is None:
                k['group'] = e['group']
            elif k['group'] != e['group']:
                wrong = 'group'
        repeated = (e['sid'], e['num']) in seen
        if wrong:
            rec.label('contradicts its sequence: ' + wrong)
            if o['out']:
                raise Fail('event %d: a document that contradicts its sequence (%s) was emitted' % (i, wrong))
            mro = o.get('exc', {}).get('mro', ())
            want = 'IncompatibleSequenceError' if wrong == 'timing' else 'UnexpectedAuthorsGroupError'
            if want not in mro and not repeated:
                raise Fail('event %d: a document that contradicts its sequence (%s): %s' % (i, wrong, o.get('exc')))
            continue
        if 'exc' in o:
            raise Fail('event %d: %s %s' % (i, o['exc']['msg'], o['exc']['tb']), sig='exc:' + o['exc']['type'])
        seen.add((e['sid'], e['num']))
        emit = False
        if not repeated and e['group'] == c['group'] and e['token'] is not None:
            if token is None or e['token'] > token:
                if selected is not None and selected != e['sid']:
                    switches += 1
                selected, emit = e['sid'], True
            elif selected == e['sid']:
                lowered += e['token'] < token
                emit = True
        if len(o['out']) != int(emit):
            raise Fail('event %d (%s %s, token %s, group %s; selected %s with %s): emitted %d times' % (
                i, e['sid'], e['num'], e['token'], e['group'], selected, token, len(o['out'])))
        if not emit:
            continue
        token = e['token']
        n += 1
        data, kw = o['out'][0]['data'], o['out'][0]['kw']
        got = ET.fromstring(data['text'].encode('utf8'))
        want = ET.fromstring(x.encode('utf8'))
        want.set(ttml.q('ebuttp:sequenceIdentifier'), OUT)
        want.set(ttml.q('ebuttp:sequenceNumber'), str(n))
        want.set(ttml.q(SEL), e['sid'])
        d = C07.diff(C07.canon(want), C07.canon(got))
        if d:
            raise Fail('event %d: emitted document: %s' % (i, d))
        if c['chain']:
            if (kw['sequence_identifier'], kw['sequence_number'], kw['availability_time'], kw['time_base'], kw['clock_mode']) != (
                    OUT, n, e['avail'], e['tb'], e['cm']):
                raise Fail('event %d: parameters %s' % (i, kw))
        elif (data['sid'], data['num'], data['avail']) != (OUT, n, e['avail']) or kw.get('raw_xml') not in (None, data['text']):
            raise Fail('event %d: emitted %s %s' % (i, data, kw))
    rec.label('switch', switches)
    rec.label('two switches', switches > 1)
    rec.label('token lowered', lowered)
    rec.label('message', any(e['k'] == 'msg' for e in evs))
    rec.nontrivial(switches and n > 2)


def tests(tier):
    return [Test('histories', histories, run_history, quick=600, thorough=20000, rule='control passes at least once, three or more documents emitted')]
