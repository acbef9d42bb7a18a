"""A segment of a document presents, inside its interval, exactly what the document presents."""
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from vlib.ttml import SEC

WORKER = ['doc_ops']


@st.composite
def cases(draw):
    d = draw(present.styled_docs(nregions=3, tree_kw=dict(hi=10)))
    if draw(st.integers(0, 3)) == 0:
        present.graph_of_styles(draw, d)
    tta = {}
    if draw(st.integers(0, 5)) == 0:
        tta['xml:space'] = draw(st.sampled_from(['default', 'preserve']))
    if draw(st.integers(0, 5)) == 0:
        tta['ebuttm:authoringDelay'] = '5s'
    if draw(st.integers(0, 5)) == 0:
        tta['ebuttp:authorsGroupIdentifier'] = 'g'
        tta['ebuttp:authorsGroupControlToken'] = '7'
    d['tta'] = tta
    for _, n in list(ttml.walk(d['body'])):
        if n['t'] in ('p', 'span'):
            if draw(st.integers(0, 7)) == 0:
                n['a']['xml:space'] = draw(st.sampled_from(['default', 'preserve']))
            if draw(st.integers(0, 7)) == 0:
                n['a']['xml:lang'] = draw(st.sampled_from(['de', 'pt-BR']))
            if draw(st.integers(0, 7)) == 0:
                n['a']['ttm:role'] = draw(st.sampled_from(['dialog', 'caption']))
    if draw(st.integers(0, 19)) == 0:
        d['body'] = None
    d['avail'] = draw(st.sampled_from([None, None, 0, SEC, 3 * SEC, 7500000]))
    grid = st.one_of(st.none(), st.integers(0, 16).map(lambda x: x * SEC), st.integers(0, 16).map(lambda x: x * SEC),
                     st.integers(0, 24).map(lambda x: x * SEC), st.integers(0, 48).map(lambda x: x * SEC // 2),
                     st.integers(0, 24000).map(lambda x: x * 1000))
    cuts = []
    for _ in range(draw(st.integers(1, 3))):
        b, e = draw(grid), draw(grid)
        if b is not None and e is not None and e <= b:
            if e == b or draw(st.booleans()):
                e = b + draw(st.sampled_from([1000, SEC, 5 * SEC]))
            else:
                b, e = e, b
        cuts.append([b, e, draw(st.booleans())])
    return {'doc': d, 'cuts': cuts}


def check(d, avail, b, e, s, times, label=''):
    d2 = ttml.from_xml(s)
    t2 = ttml.ref_times(d2, 0)
    lo = -1 if b is None else b
    for t in present.instants(times, t2, extra=[x for x in (b, e) if x is not None] + ([e - 1] if e else [])):
        inside = t >= lo and (e is None or t < e)
        want = present.screen(d, t, avail, times, blank=False) if inside else []
        got = present.screen(d2, t, 0, t2, blank=False)
        if want != got:
            raise Fail('%ssegment [%s, %s) at %s us presents %s instead of %s' % (label, b, e, t, got, want),
                       sig=mixed_sig(d, t, avail, times, d2, t2, inside))
    return d2


def mixed_sig(d, t, avail, times, d2, t2, inside):
    """F02: only text beside a span of the same parent differs"""
    want = present.screen(d, t, avail, times, mixed=False, blank=False) if inside else []
    return 'mixed-text' if want == present.screen(d2, t, 0, t2, mixed=False, blank=False) else None


def refs(n, key):
    for _, x in ttml.walk(n):
        yield from x['a'].get(key, '').split()


def structure(d, d2, dec, num):
    pre = 'SEQ%d.' % num if dec else ''
    used = set(refs(d2['body'], 'region')) if d2['body'] else set()
    have = [r['xml:id'] for r in d2['regions'] or ()]
    if set(have) - used:
        raise Fail('segment keeps unused regions %s' % sorted(set(have) - used))
    st_used = set(refs(d2['body'], 'style')) if d2['body'] else set()
    for r in d2['regions'] or ():
        st_used |= set(r.get('style', '').split())
    table = {s['xml:id']: s for s in d2['styles']}
    todo = list(st_used)
    while todo:
        for j in table.get(todo.pop(), {}).get('style', '').split():
            if j not in st_used:
                st_used.add(j)
                todo.append(j)
    if set(table) - st_used:
        raise Fail('segment keeps unused styles %s' % sorted(set(table) - st_used), sig='unused-style')
    ids = set(x['a']['xml:id'] for _, x in ttml.walk(d['body']) if 'xml:id' in x['a']) if d['body'] else set()
    ids2 = set(x['a']['xml:id'] for _, x in ttml.walk(d2['body']) if 'xml:id' in x['a']) if d2['body'] else set()
    if not ids2 <= set(pre + i for i in ids):
        raise Fail('segment has identifiers %s' % sorted(ids2))
    for k in ('sid', 'num', 'tb', 'cm', 'lang', 'ext'):
        if (d.get(k) or None) != (d2.get(k) or None) and not (k == 'lang' and k not in d):
            raise Fail('segment has %s=%r' % (k, d2.get(k)))
    if (d.get('cell') or '32 15') != (d2.get('cell') or '32 15'):
        raise Fail('segment has another cell resolution')
    if dict(d['tta']) != dict(d2['tta']):
        raise Fail('segment has attributes %s instead of %s' % (d2['tta'], d['tta']))


def run(w, case, rec):
    d = case['doc']
    avail = d['avail'] or 0
    r = w.call('segment', xml=ttml.to_xml(d), avail=d['avail'], cuts=case['cuts'])
    if not r['same']:
        raise Fail('cutting segments changed the document')
    times = ttml.ref_times(d, avail)
    d0 = ttml.from_xml(ttml.to_xml(d))
    for (b, e, dec), o in zip(case['cuts'], r['segs']):
        if 'exc' in o:
            raise Fail('segment [%s, %s) could not be made: %s: %s %s' % (b, e, o['exc']['type'], o['exc']['msg'], o['exc']['tb']),
                       sig='exc:' + o['exc']['type'])
        o = o['r']
        try:
            d2 = check(d0, avail, b, e, o['xml'], times)
        except Fail as f:
            rec.soft(f.sig, str(f))
            d2 = ttml.from_xml(o['xml'])
        structure(d0, d2, dec, d['num'])
        cut = any(tb < (e if e is not None else 1 << 60) and (te is None or te > (b or 0)) for tb, te in times.values())
        rec.label('something presented', cut)
        rec.label('trimmed', cut and any((b is not None and tb < b < (te or 1 << 60)) or (e is not None and tb < e < (te or 1 << 60))
                                         for tb, te in times.values()))
        rec.label('empty segment', not cut)
        rec.label('open', b is None or e is None)
        rec.nontrivial(cut)


def tests(tier):
    return [Test('segment', cases, run, quick=1000, thorough=30000,
                 rule='documents with something active inside one of the intervals')]
