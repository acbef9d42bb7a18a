"""Which documents a sequence takes, and which documents it makes."""
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml
from vlib.ttml import SEC
from props import C03

WORKER = ['member_ops']
SIDS = ['s', u's\u00e9q', 's ']
GROUPS = ['g', 'h', u'gr\u00fc']
CLOCKS = [('clock', 'local'), ('clock', 'utc'), ('media', None)]


@st.composite
def histories(draw):
    sid = draw(st.sampled_from(SIDS))
    tb, cm = draw(st.sampled_from(CLOCKS))
    group = draw(st.sampled_from([None, None] + GROUPS))
    simple = draw(st.booleans())

    def doc(i):
        num = draw(st.integers(1, 8))
        s, t, c = sid, tb, cm
        k = draw(st.integers(0, 11))
        if k == 0:
            s = draw(st.sampled_from(SIDS))
        elif k == 1:
            t, c = draw(st.sampled_from(CLOCKS))
        elif k == 2:
            c = draw(st.sampled_from(['local', 'utc', 'gps'])) if t == 'clock' else None
        g = draw(st.sampled_from([group, group, group, None, draw(st.sampled_from(GROUPS))])) if group else \
            draw(st.sampled_from([None, None, None, draw(st.sampled_from(GROUPS))]))
        if simple:
            a = {'begin': C03.t(10 * num * SEC), 'end': C03.t((10 * num + 5) * SEC)}
            d = {'body': {'t': 'body', 'a': a, 'c': []}, 'avail': None}
        else:
            d = draw(C03.doc(num))
            d['avail'] = draw(st.sampled_from([None, None, SEC, 3 * SEC]))
        d.update(sid=s, num=num, tb=t, cm=c, tta={'ebuttp:authorsGroupIdentifier': g} if g else {}, lang=draw(st.sampled_from(['en', 'de'])))
        return d
    if draw(st.booleans()):
        new = {'doc': dict(doc(0), sid=sid, tb=tb, cm=cm, tta={'ebuttp:authorsGroupIdentifier': group} if group else {})}
    else:
        new = {'sid': sid, 'clock': cm or 'media', 'lang': draw(st.sampled_from(['en', 'fr-FR'])), 'group': group}
    evs = []
    for i in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 11))
        if k < 7:
            evs.append({'k': 'add', 'doc': doc(i)})
        elif k < 9:
            evs.append({'k': 'check', 'doc': doc(i)})
        elif k < 10:
            evs.append({'k': 'new'})
        else:
            evs.append({'k': 'get', 'num': draw(st.integers(0, 9))})
    return {'new': new, 'events': evs}


def run_history(w, c, rec):
    new = c['new']
    first = new.get('doc')
    if first:
        call = {'xml': ttml.to_xml(first)}
        st8 = {'sid': first['sid'], 'tb': first['tb'], 'cm': first['cm'], 'lang': first['lang'], 'group': first['tta'].get('ebuttp:authorsGroupIdentifier')}
    else:
        call = new
        st8 = {'sid': new['sid'], 'tb': 'media' if new['clock'] == 'media' else 'clock', 'cm': None if new['clock'] == 'media' else new['clock'],
               'lang': new['lang'], 'group': new['group']}
    evs = []
    for e in c['events']:
        v = {k: x for k, x in e.items() if k != 'doc'}
        if 'doc' in e:
            v.update(xml=ttml.to_xml(e['doc']), avail=e['doc']['avail'])
        evs.append(v)
    out = w.call('membership', new=call, events=evs)
    members = []       # accepted documents in order of arrival
    last = 0
    prev = None
    refused = accepted = 0
    for i, (e, o) in enumerate(zip(c['events'], out)):
        snap = o['snap']
        mro = o.get('exc', {}).get('mro', ())
        live = {d['num'] for d, (b, x) in zip(members, C03.model(members)) if x > b}
        empty = {d['num'] for d, (b, x) in zip(members, C03.model(members)) if x <= b}
        if e['k'] in ('add', 'check'):
            d = e['doc']
            g = d['tta'].get('ebuttp:authorsGroupIdentifier')
            why = None
            if d['sid'] != st8['sid'] or d['tb'] != st8['tb'] or (d['tb'] == 'clock' and d['cm'] != st8['cm']):
                why = ['IncompatibleSequenceError']
            elif d['num'] in live:
                why = ['SequenceNumberCollisionError', 'UnexpectedAuthorsGroupError'] if g and st8['group'] and g != st8['group'] else \
                    ['SequenceNumberCollisionError']
            elif g and st8['group'] and g != st8['group']:
                why = ['UnexpectedAuthorsGroupError'] + (['SequenceNumberCollisionError'] if d['num'] in empty else [])
            elif d['num'] in empty and 'SequenceNumberCollisionError' in mro:
                # a document that is never active may still occupy its number
                why = ['SequenceNumberCollisionError']
            if why:
                refused += 1
                rec.label(why[0])
                if not any(x in mro for x in why):
                    raise Fail('event %d: a document (%s %s %s %s, group %s, number %d) that does not belong to the sequence (%s, numbers %s): %s' % (
                        i, d['sid'], d['tb'], d['cm'], d['lang'], g, d['num'], st8, sorted(live), o.get('exc') or 'accepted'))
                if o.get('mine'):
                    raise Fail('event %d: the refused document claims to be in the sequence' % i)
                if prev is not None and snap != prev:
                    raise Fail('event %d: the refused document changed the sequence from %s to %s' % (i, prev, snap))
            else:
                if mro:
                    raise Fail('event %d: a document that belongs to the sequence (%s, numbers %s) was refused: %s %s' % (
                        i, st8, sorted(live), o['exc']['msg'], o['exc']['tb']))
                if e['k'] == 'add':
                    accepted += 1
                    if not o['mine']:
                        raise Fail('event %d: the accepted document does not know its sequence' % i)
                    members = [m for m in members if m['num'] != d['num']] + [d]
                    last = max(last, d['num'])
                if g and not st8['group']:
                    st8['group'] = g
                    rec.label('group picked up')
        elif mro and e['k'] == 'new':
            raise Fail('event %d: %s %s' % (i, o['exc']['msg'], o['exc']['tb']))
        elif e['k'] == 'new':
            last += 1
            rec.label('new document')
            d = ttml.from_xml(o['r']['xml'])
            got = {'sid': d['sid'], 'tb': d['tb'], 'cm': d['cm'], 'lang': d['lang'], 'group': d['tta'].get('ebuttp:authorsGroupIdentifier')}
            if got != st8 or d['num'] != last or o['r']['num'] != last:
                raise Fail('event %d: new document is %s number %s (%s), expected %s number %d' % (i, got, d['num'], o['r']['num'], st8, last))
        else:
            n = e['num']
            if n in live and o.get('r') != n:
                raise Fail('event %d: document %d looked up: %s' % (i, n, o.get('exc') or o))
            if n not in live and n not in empty and 'KeyError' not in mro:
                raise Fail('event %d: document %d, not in the sequence, looked up: %s' % (i, n, o.get('exc') or o))
        if snap['last'] != last or snap['group'] != st8['group']:
            raise Fail('event %d: last number %s, group %s instead of %s, %s' % (i, snap['last'], snap['group'], last, st8['group']))
        res = [(d['num'], b, x) for d, (b, x) in zip(members, C03.model(members))]
        nums = [x[0] for x in snap['docs']]
        want = sorted(n for n, b, x in res if x > b)
        zero = {n for n, b, x in res if x <= b}
        if nums != sorted(nums) or sorted(n for n in nums if n not in zero) != want:
            raise Fail('event %d: the sequence holds %s instead of %s' % (i, nums, want))
        prev = snap
    rec.nontrivial(refused and accepted > 1)


def tests(tier):
    return [Test('membership', histories, run_history, quick=900, thorough=30000, rule='two or more documents accepted and one refused')]
