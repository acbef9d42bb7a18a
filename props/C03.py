"""Which document of a sequence is active when: resolved begin and end times."""
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml
from vlib.ttml import SEC

WORKER = ['seq_ops']
INF = float('inf')


def t(us):
    return ttml.clock_text(us)


@st.composite
def doc(draw, num, hi=10):
    grid = draw(st.sampled_from([SEC, SEC, SEC, 500000]))
    b = draw(st.one_of(st.none(), st.integers(0, hi).map(lambda x: x * grid)))
    ln = draw(st.one_of(st.none(), st.integers(1, 8).map(lambda x: x * grid)))
    shape = draw(st.integers(0, 9))
    a = {}
    c = []
    if shape == 0:
        body = None
    else:
        if shape <= 5:
            if b is not None:
                a['begin'] = t(b)
            if ln is not None:
                a['end'] = t((b or 0) + ln)
            if draw(st.booleans()):
                c = [{'t': 'div', 'a': {}, 'c': [{'t': 'p', 'a': {'xml:id': 'p'}, 'c': ['x']}]}]
        elif shape == 6:
            if b is not None:
                a['begin'] = t(b)
            if ln is not None:
                a['dur'] = t(ln)
        else:
            ps = []
            for i in range(draw(st.integers(1, 2))):
                pa = {'xml:id': 'p%d' % i}
                pb = draw(st.integers(0, hi)) * grid
                if draw(st.integers(0, 3)):
                    pa['begin'] = t(pb)
                    if draw(st.integers(0, 3)):
                        pa['end'] = t(pb + draw(st.integers(1, 5)) * grid)
                ps.append({'t': 'p', 'a': pa, 'c': ['x']})
            c = [{'t': 'div', 'a': {}, 'c': ps}]
        body = {'t': 'body', 'a': a, 'c': c}
    d = {'sid': 's', 'num': num, 'tb': 'clock', 'body': body, 'avail': None}
    return d


@st.composite
def cases(draw):
    n = draw(st.integers(2, 6))
    nums = draw(st.lists(st.integers(1, 9), min_size=n, max_size=n, unique=True))
    mode = draw(st.integers(0, 3))
    if mode == 0:
        nums.sort()
    docs = [draw(doc(k)) for k in nums]
    if draw(st.booleans()):
        now = 0
        for d in docs:
            now += draw(st.integers(0, 3)) * (SEC // 2)
            d['avail'] = now
    return docs


def model(docs):
    """resolved begin/end of each document: its computed times, cut off where a document with a higher number begins"""
    comp = [ttml.doc_times(d, d['avail'] or 0) for d in docs]
    out = []
    for i, d in enumerate(docs):
        b, e = comp[i]
        e = INF if e is None else e
        for j, o in enumerate(docs):
            if o['num'] > d['num']:
                e = min(e, comp[j][0])
        out.append((b, e))
    return out


def run(w, case, rec):
    probes = sorted(set(x + o for x in range(0, 14 * SEC, SEC) for o in (0, SEC // 2)))
    got = w.call('sequence', docs=[{'xml': ttml.to_xml(d), 'avail': d['avail']} for d in case], every=True, probes=probes)
    disc = trimmed = 0
    for i, step in enumerate(got['steps']):
        if 'exc' in step['add']:
            raise Fail('adding document %d failed: %s' % (case[i]['num'], step['add']['exc']))
        want = model(case[:i + 1])
        for d, (b, e), r in zip(case, want, step['res']):
            if 'exc' in r:
                raise Fail('resolved times of %d after step %d: %s' % (d['num'], i, r['exc']))
            gb, ge = r['r']
            if e == 0 and ge is None:
                rec.soft('end-zero-is-none', 'document %d ended at 0, but its resolved end time is none' % d['num'])
                continue
            ge = INF if ge is None else ge
            if e <= b:
                # never active
                if ge > gb or r['disc'].get('r') is not True:
                    raise Fail('document %d is never active but resolved to %s (discarded: %s)' % (d['num'], r['r'], r['disc']))
                disc += 1
            elif (gb, ge) != (b, e):
                raise Fail('after %d documents: document %d resolved to %s, expected %s' % (i + 1, d['num'], (gb, ge), (b, e)))
            elif r['disc'].get('r') is not False:
                raise Fail('document %d is active in %s but discarded: %s' % (d['num'], (b, e), r['disc']))
            elif ttml.doc_times(d, d['avail'] or 0)[1] != (None if e == INF else e):
                trimmed += 1
    for p, act in zip(probes, got['active']):
        want = [d['num'] for d, (b, e) in zip(case, model(case)) if b <= p < e]
        if act != want:
            raise Fail('active at %d us: %s, expected %s' % (p, act, want))
    if got['last'] != max(d['num'] for d in case):
        raise Fail('last sequence number %s' % got['last'])
    rec.label('discarded', disc)
    rec.label('trimmed', trimmed)
    rec.label('out of order', [d['num'] for d in case] != sorted(d['num'] for d in case))
    rec.label('availability', any(d['avail'] for d in case))
    rec.nontrivial(trimmed and len(case) > 2)


@st.composite
def talks(draw):
    """documents with content, for a sequence that logs what it does"""
    n = draw(st.integers(1, 4))
    nums = draw(st.permutations(range(1, n + 1)))
    docs = []
    for k in nums:
        body = draw(ttml.trees(mixed=draw(st.booleans()), hi=8)) if draw(st.integers(0, 9)) else None
        if body and draw(st.booleans()):
            for _, x in list(ttml.walk(body)):
                if draw(st.integers(0, 3)) == 0:
                    x['c'].insert(0, {'t': 'metadata', 'a': {}, 'c': []})
        docs.append({'sid': 's', 'num': k, 'tb': 'clock', 'body': body, 'avail': None})
    if draw(st.booleans()):
        now = 0
        for d in docs:
            now += draw(st.integers(0, 3)) * (SEC // 2)
            d['avail'] = now
    spans = [sorted(draw(st.tuples(st.integers(0, 20), st.integers(0, 20)))) for _ in range(2)]
    return {'docs': docs, 'node': all(d['avail'] is not None for d in docs) and draw(st.booleans()),
            'spans': [[b * SEC // 2, e * SEC // 2] for b, e in spans if b < e]}


def texts(n):
    """the texts in a p"""
    for c in n['c']:
        if isinstance(c, str):
            yield c
        else:
            yield from texts(c)


def paras(d):
    """the timed paragraphs: path and texts"""
    if not d['body']:
        return []
    dead = [path for path, x in ttml.walk(d['body']) if ttml.bad(x['a'])]
    return [(path, list(texts(x))) for path, x in ttml.walk(d['body'])
            if x['t'] == 'p' and not any(path[:len(k)] == k for k in dead)]


def run_talk(w, case, rec):
    docs = case['docs']
    got = w.call('verbose_sequence', docs=[{'xml': ttml.to_xml(d), 'avail': d['avail']} for d in docs], node=case['node'],
                 spans=case['spans'])
    shown = 0
    for i, step in enumerate(got['steps']):
        d = docs[i]
        if 'exc' in step['add']:
            raise Fail('adding document %d failed: %s' % (d['num'], step['add']['exc']), sig='exc:' + step['add']['exc']['type'])
        alive = set()
        for o, (b, e), r in zip(docs, model(docs[:i + 1]), step['res']):
            if 'exc' in r:
                raise Fail('resolved times of %d after step %d: %s' % (o['num'], i, r['exc']))
            gb, ge = r['r']
            ge = INF if ge is None else ge
            if e > b:
                alive.add(o['num'])
                if (gb, ge) != (b, e):
                    raise Fail('document %d resolved to %s, expected %s' % (o['num'], (gb, ge), (b, e)))
        if d['num'] not in alive:
            continue
        lines = set(x.strip() for m in step['log'] for x in m.splitlines())
        for path, ts in paras(d):
            for x in ts:
                shown += 1
                if x.strip() not in lines:
                    raise Fail('%r of document %d is not logged: %s' % (x, d['num'], step['log']))
    out = 0
    for d, (rb, re_), res in zip(docs, model(docs), got['spans']):
        if re_ <= rb:
            continue
        times = ttml.ref_times(d, d['avail'] or 0) if d['body'] else {}
        for (b, e), r in zip(case['spans'], res):
            if 'exc' in r:
                raise Fail('content of document %d from %s to %s: %s' % (d['num'], b, e, r['exc']))
            lines = set(x.strip() for x in r['r'].splitlines())
            for path, ts in paras(d):
                pb, pe = times[path]
                pe = INF if pe is None else pe
                if pe <= pb:
                    continue
                for x in ts:
                    if (pb < e and pe > b) != (x.strip() in lines):
                        raise Fail('%r active in %s is %s the content of document %d from %s to %s: %s' % (
                            x, (pb, pe), 'in' if x.strip() in lines else 'not in', d['num'], b, e, r['r']))
                    out += pe <= b or pb >= e
    rec.label('in the node', case['node'])
    rec.label('content outside of the asked span', out)
    rec.label('metadata', any(x['t'] == 'metadata' for d in docs if d['body'] for _, x in ttml.walk(d['body'])))
    rec.nontrivial(shown and len(docs) > 1)


def tests(tier):
    return [Test('resolve', cases, run, quick=1200, thorough=30000,
                 rule='histories of three or more documents in which some document is cut off by another'),
            Test('verbose', talks, run_talk, quick=200, thorough=6000,
                 rule='histories of several documents of which one with text is active')]
