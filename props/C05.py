"""Resegmenting a sequence: the produced documents together show what the sequence shows."""
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from vlib.ttml import SEC
from props import C03

WORKER = ['node_ops']
INF = float('inf')


@st.composite
def cases(draw, tree=None):
    tb = draw(st.sampled_from(['clock', 'clock', 'media']))
    cell = draw(st.sampled_from([None, '40 24']))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    nums = sorted(draw(st.lists(st.integers(1, 99), min_size=n, max_size=n, unique=True)))
    if draw(st.integers(0, 4)) == 0:
        nums = draw(st.permutations(nums))
    docs = []
    body_style = draw(st.integers(0, 2)) == 0
    for k in nums:
        d = draw(present.styled_docs(num=k, tb=tb, nregions=2, nstyles=3,
                                     tree_kw=dict(dict(hi=6, max_div=2, max_p=2, p_time=0.3, mixed=draw(st.integers(0, 9)) == 0), **(tree or {}))))
        if draw(st.integers(0, 4)) == 0:
            present.graph_of_styles(draw, d)
        d['cell'], d['ext'] = cell, '640px 480px'
        if draw(st.integers(0, 7)) == 0:
            d['body'] = None
        if d['body'] and not body_style:
            d['body']['a'].pop('style', None)
        pre = draw(st.sampled_from(['', '', '', 'SEQ1.', 'SEQ2.']))
        if pre:
            rename(d, pre)
        docs.append(d)
    length = draw(st.sampled_from([1, 2, 3, 2.5, 0.5, 7, 7, 20, 20, 20]))
    L = int(length * SEC)
    mode = draw(st.sampled_from(['all', 'live', 'live']))
    end = 14 * SEC
    ncut = max(1, -(-end // L))
    events = []
    if mode == 'all':
        now = 0
        for d in docs:
            now += draw(st.integers(0, 2)) * SEC
            d['avail'] = now if draw(st.booleans()) else 0
        events = [{'doc': i} for i in range(n)] + [{} for _ in range(ncut)]
    else:
        when = sorted(draw(st.lists(st.integers(0, 8), min_size=n, max_size=n)))
        i = 0
        for k in range(ncut):
            while i < n and when[i] * SEC < (k + 1) * L:
                docs[i]['avail'] = max(when[i] * SEC, k * L)
                events.append({'doc': i})
                i += 1
            events.append({})
        for j in range(i, n):
            docs[j]['avail'] = ncut * L
            events.append({'doc': j})
    # who tells when a document became available: the carriage, or the clock of the node
    told = draw(st.sampled_from(['carriage', 'carriage', 'clock', 'both']))
    for d in docs:
        if told == 'clock' or (told == 'both' and draw(st.booleans())):
            d['untold'] = True
    return {'docs': docs, 'events': events, 'length': length, 'discard': draw(st.booleans()), 'tb': tb}


def rename(d, pre):
    for s in list(d['styles']) + list(d['regions'] or ()):
        s['xml:id'] = pre + s['xml:id']
        if 'style' in s:
            s['style'] = ' '.join(pre + x for x in s['style'].split())
    if d['body']:
        for _, x in ttml.walk(d['body']):
            for k in ('style', 'region'):
                if k in x['a']:
                    x['a'][k] = ' '.join(pre + y for y in x['a'][k].split())


def active(docs, t):
    for d, (b, e) in zip(docs, C03.model(docs)):
        if b <= t < e:
            return d
    return None


def run(w, case, rec):
    docs = [dict(d) for d in case['docs']]
    L = int(case['length'] * SEC)
    evs = []
    for ev in case['events']:
        if 'doc' in ev:
            d = docs[ev['doc']]
            ev = {'xml': ttml.to_xml(d), 'avail': d['avail']}
            if d.get('untold'):
                ev = {'xml': ttml.to_xml(d), 'now': d['avail']}
            evs.append(ev)
        else:
            evs.append({})
    out = w.call('resequence', events=evs, length=case['length'], discard=case['discard'], sid='out', tb=case['tb'])
    for d in docs:
        d['norm'] = ttml.from_xml(ttml.to_xml(d))
        d['times'] = ttml.ref_times(d, d['avail'])
    got = []
    k = 0
    many = hit = 0
    for ev, o in zip(case['events'], out):
        if 'doc' in ev:
            if 'exc' in o:
                raise Fail('adding document: %s' % o['exc'])
            got.append(docs[ev['doc']])
            continue
        if not got:
            if 'exc' in o or o['r']['xml']:
                raise Fail('segment without any document: %s' % o)
            continue
        if 'exc' in o:
            raise Fail('cutting segment %d failed: %s %s' % (k, o['exc']['msg'], o['exc']['tb']), sig='exc:' + o['exc']['type'])
        if 'again' in o:
            raise Fail('segment %d can not be read: %s %s' % (k, o['again'], o['r']['xml']), sig='again:' + o['again']['type'])
        r = o['r']
        if len(r['xml']) != 1:
            raise Fail('%d documents for segment' % len(r['xml']))
        if r['e'] - r['b'] != L:
            raise Fail('segment is %s long instead of %s' % (r['e'] - r['b'], L))
        if k and r['b'] != last:
            raise Fail('segment starts at %s instead of %s' % (r['b'], last))
        last = r['e']
        k += 1
        d2 = ttml.from_xml(r['xml'][0])
        if d2['num'] != k or d2['sid'] != 'out':
            raise Fail('segment is %s number %s, expected %s' % (d2['sid'], d2['num'], k))
        for key in ('lang', 'tb', 'cm'):
            if d2[key] != docs[0]['norm'][key]:
                raise Fail('segment has %s=%r' % (key, d2[key]))
        ids = [x['xml:id'] for x in d2['styles'] + (d2['regions'] or [])]
        if d2['body']:
            ids += [x['a']['xml:id'] for _, x in ttml.walk(d2['body']) if 'xml:id' in x['a']]
        if len(ids) != len(set(ids)):
            raise Fail('segment has duplicate ids %s' % ids)
        t2 = ttml.ref_times(d2, 0)
        b, e = r['b'], r['e']
        extra = [b, e - 1, e]
        for x, (mb, me) in zip(got, C03.model(got)):
            extra += [mb] + ([me] if me != INF else [])
        seen = set()
        for t in present.instants(*([x['times'] for x in got] + [t2]), extra=extra):
            want = want0 = []
            a = active(got, t) if b <= t < e else None
            if a:
                seen.add(a['num'])
                want = screen(a['norm'], t, a['avail'], a['times'])
            res = screen(d2, t, 0, t2)
            if want != res:
                sig = None
                if a:
                    want0 = screen(a['norm'], t, a['avail'], a['times'], mixed=False)
                if screen(d2, t, 0, t2, mixed=False) == want0:
                    sig = 'mixed-text'
                msg = 'segment %d [%s, %s) at %s us presents %s instead of %s of document %s\n%s' % (
                    k, b, e, t, res, want, a and a['num'], r['xml'][0])
                if sig:
                    rec.soft(sig, msg)
                    break
                raise Fail(msg)
            if want:
                hit += 1
        if len(seen) > 1:
            many += 1
    rec.label('several documents in a segment', many)
    rec.label('something presented', hit)
    rec.label('discard', case['discard'])
    rec.label('the clock of the node tells the availability', any(d.get('untold') for d in docs))
    rec.label('same ids', sum(1 for d in docs if d['styles']) > 1)
    rec.nontrivial(many and hit)


def screen(*a, **k):
    """the screen; the attributes of a body may have moved to a div"""
    out = present.screen(*a, blank=False, **k)
    for _, look in out:
        look['loc'] = [['div' if t == 'body' else t, l] for t, l in look['loc']]
    return out


def tests(tier):
    return [Test('resequence', cases, run, quick=500, thorough=15000,
                 rule='histories with a segment made from several active documents, with something shown')]
