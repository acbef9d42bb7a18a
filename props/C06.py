"""Computed styles: reference order, inheritance, regions, defaults and relative sizes."""
from fractions import Fraction as F
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present

WORKER = ['style_ops']


@st.composite
def cases(draw):
    d = draw(present.styled_docs(nregions=3, nstyles=draw(st.sampled_from([4, 8])), tb='media',
                                 tree_kw=dict(timed=False, max_div=2, max_p=3)))
    shape = draw(st.sampled_from(['plain', 'sizes', 'graph', 'graph']))
    if shape == 'graph':
        present.graph_of_styles(draw, d)
    if shape == 'sizes':
        # dense in sizes
        table = present.style_attrs()
        d['styles'] = [dict(x) for x in d['styles']]
        for x in d['styles']:
            if draw(st.booleans()):
                x['tts:fontSize'] = draw(table['tts:fontSize'])
            if draw(st.booleans()):
                x['tts:lineHeight'] = draw(st.one_of(table['tts:lineHeight'], st.sampled_from(['50%', '150%', '125.5%'])))
        ids = [x['xml:id'] for x in d['styles']]
        for _, n in list(ttml.walk(d['body'])):
            if ids and n['t'] in ttml.TIMED and 'style' not in n['a'] and draw(st.booleans()):
                n['a']['style'] = draw(st.sampled_from(ids))
    if d['ext'] and draw(st.booleans()):
        d['ext'] = draw(st.sampled_from(['1280px 720px', '300px 150px']))
    return {'doc': d, 'again': draw(st.integers(0, 3)) == 0}


def pair(text, d):
    """size as cells or as a factor: (unit, (horizontal, vertical)) where one value stands for both"""
    v = text.split()
    unit = 'px' if v[0].endswith('px') else '%' if v[0].endswith('%') else 'c'
    n = [F(x[:-len(unit)] if not x.startswith('.') else '0' + x[:-len(unit)]) for x in v]
    if unit == '%':
        n = [x / 100 for x in n]
    if unit == 'px':
        ew, eh = [F(x[:-2]) for x in d['ext'].split()]
        cw, ch = [F(x) for x in (d.get('cell') or '32 15').split()]
        n = [n[0] * cw / ew, n[1] * ch / eh] if len(n) == 2 else [n[0] * ch / eh]
        unit = 'c'
    return unit, (n[0], n[-1])


def model(d):
    """{path: {property: value}} for the content elements, {id: ...} for regions"""
    spec_of = {}
    regs = {}
    for r in d['regions'] or ():
        regs[r['xml:id']] = present.specified(d, r.get('style', '').split(),
                                              {'tts:padding': r['tts:padding']} if 'tts:padding' in r else None)
    out = {'el': {}, 'reg': {}}

    def font(chain, regions):
        """chain: specified sets from the element outwards"""
        fac = (F(1), F(1))
        for s in chain:
            if 'tts:fontSize' in s:
                u, p = pair(s['tts:fontSize'], d)
                if u == 'c':
                    return (p[0] * fac[0], p[1] * fac[1])
                fac = (p[0] * fac[0], p[1] * fac[1])
        base = font([regions[0]], []) if regions else (F(1), F(1))
        return (base[0] * fac[0], base[1] * fac[1])

    def line(chain, regions):
        for i, s in enumerate(chain):
            if 'tts:lineHeight' in s:
                v = s['tts:lineHeight']
                if v == 'normal':
                    return v
                u, p = pair(v, d)
                return p[1] if u == 'c' else p[1] * font(chain[i:], regions)[1]
        for r in regions:
            if 'tts:lineHeight' in r:
                return line([r], [])
        return 'normal'

    def compute(chain, regions):
        c = {}
        for k, dv in present.LOCAL.items():
            c[k] = chain[0].get(k, dv)
        for k, dv in present.INHERITED.items():
            c[k] = dv
            for s in chain + regions:
                if k in s:
                    c[k] = s[k]
                    break
        c['tts:fontSize'] = font(chain, regions)
        c['tts:lineHeight'] = line(chain, regions)
        return c

    for i, s in regs.items():
        out['reg'][i] = compute([s], [])

    def go(n, path, chain, regions):
        a = n['a']
        reg = regions
        if 'region' in a:
            reg = regions + [regs[a['region']]]
        chain = [present.specified(d, a.get('style', '').split())] + chain
        out['el'][path] = compute(chain, reg), n['t']
        i = 0
        for c in n['c']:
            if not isinstance(c, str):
                if c['t'] in ttml.TIMED:
                    go(c, path + (i,), chain, reg)
                i += 1
    if d['body']:
        go(d['body'], (), [], [])
    return out


def close(text, val):
    if text is None:
        return False
    if val == 'normal' or text == 'normal':
        return val == text
    u, p = pair(text, {})
    val = val if isinstance(val, tuple) else (val, val)
    return u == 'c' and all(abs(x - y) <= F(1, 10 ** 9) * max(1, abs(y)) for x, y in zip(p, val))


def compare(where, got, want, sizes=True):
    for k, v in want.items():
        g = got[k.split(':')[1]]
        if k in present.SIZES:
            if sizes and not close(g, v):
                raise Fail('%s: computed %s is %s instead of %s' % (where, k, g, v))
        elif g != v:
            raise Fail('%s: computed %s is %s instead of %s' % (where, k, g, v))


def run(w, case, rec):
    d = case['doc']
    got = w.call('computed_styles', xml=ttml.to_xml(d), again=case['again'])
    if case['again'] and not got['same']:
        raise Fail('styles changed when validated again')
    want = model(d)
    for i, s in got['reg'].items():
        compare('region %s' % i, s, want['reg'][i])
    if set(got['reg']) != set(want['reg']):
        raise Fail('regions %s' % sorted(got['reg']))
    el = {tuple(p): s for p, s, _ in got['el']}
    if set(el) != set(want['el']):
        raise Fail('elements %s' % sorted(el))
    for p, (s, tag) in want['el'].items():
        compare('%s at %s' % (tag, p), el[p], s, tag in ('p', 'span'))
    styled = sum(1 for _, n in ttml.walk(d['body']) if 'style' in n['a'])
    rel = any('%' in s.get('tts:fontSize', '') or '%' in s.get('tts:lineHeight', '') for s in d['styles'])
    chained = any('style' in s for s in d['styles'])
    rec.label('relative sizes', rel and styled)
    rec.label('chained', chained and styled)
    rec.label('region styles', any('style' in r for r in d['regions'] or ()))
    rec.nontrivial(styled > 1 and chained)


# ---------------------------------------------------------------- broken references
@st.composite
def broken(draw):
    d = draw(present.styled_docs(nregions=2, tb='media', tree_kw=dict(timed=False)))
    d['styles'] = list(d['styles'])
    d['regions'] = list(d['regions'] or [])
    els = [n for _, n in ttml.walk(d['body']) if n['t'] in ttml.TIMED]
    kind = draw(st.sampled_from(['style', 'style', 'region', 'chain', 'circle', 'wrong-type', 'region-style', 'none']))
    ids = [s['xml:id'] for s in d['styles']]

    def add_style(n, i):
        v = n.get('style', '').split()
        v.insert(draw(st.integers(0, len(v))), i)
        n['style'] = ' '.join(v)
    e = draw(st.sampled_from(els))
    if kind == 'style':
        add_style(e['a'], 'nosuch')
    elif kind == 'region':
        c = [x for x in els if x['t'] in ('div', 'p')]
        if not c:
            kind = 'none'
        else:
            draw(st.sampled_from(c))['a']['region'] = 'nosuch'
    elif kind == 'wrong-type':
        d['regions'].append({'xml:id': 'rx', 'tts:origin': '1c 1c', 'tts:extent': '5c 5c'})
        add_style(e['a'], 'rx')
    elif kind == 'region-style':
        d['regions'].append({'xml:id': 'rx', 'tts:origin': '1c 1c', 'tts:extent': '5c 5c', 'style': 'nosuch'})
    elif kind == 'chain':
        n = draw(st.integers(1, 3))
        for i in range(n):
            d['styles'].insert(draw(st.integers(0, len(d['styles']))),
                               {'xml:id': 'c%d' % i, 'style': 'c%d' % (i + 1) if i < n - 1 else 'nosuch'})
        add_style(e['a'], 'c0')
    elif kind == 'circle':
        n = draw(st.integers(1, 4))
        for i in range(n):
            s = {'xml:id': 'c%d' % i, 'style': 'c%d' % ((i + 1) % n)}
            if ids and draw(st.booleans()):
                add_style(s, draw(st.sampled_from(ids)))
            d['styles'].insert(draw(st.integers(0, len(d['styles']))), s)
        if draw(st.booleans()) and d['regions']:
            add_style(draw(st.sampled_from(d['regions'])), 'c%d' % draw(st.integers(0, n - 1)))
        else:
            add_style(e['a'], 'c%d' % draw(st.integers(0, n - 1)))
    return {'doc': d, 'kind': kind}


def run_broken(w, case, rec):
    r = w.attempt('computed_styles', xml=ttml.to_xml(case['doc']))
    if case['kind'] == 'none':
        if 'exc' in r:
            raise Fail('valid references rejected: %s' % r['exc'])
        return
    if 'exc' not in r:
        raise Fail('document with broken reference (%s) was accepted' % case['kind'])
    if 'SemanticValidationError' not in r['exc']['mro']:
        raise Fail('broken reference (%s) ended in %s: %s %s' % (case['kind'], r['exc']['type'], r['exc']['msg'], r['exc']['tb']))
    rec.label(case['kind'])
    rec.nontrivial(True)


def tests(tier):
    return [Test('computed', cases, run, quick=1200, thorough=40000, weight=3,
                 rule='documents with several styled elements and chained styles'),
            Test('broken', broken, run_broken, quick=300, thorough=6000, rule='documents with a broken reference')]
