"""EBU-TT-D documents show what the live documents show."""
import re
import xml.etree.ElementTree as ET
from fractions import Fraction as F
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from vlib.ttml import SEC, time_us, clock_text
from props import C05, C06, C07

WORKER = ['encode_ops', 'node_ops']
NAMED = {"transparent": "00000000", "black": "000000ff", "silver": "c0c0c0ff", "gray": "808080ff", "white": "ffffffff",
         "maroon": "800000ff", "red": "ff0000ff", "purple": "800080ff", "fuchsia": "ff00ffff", "magenta": "ff00ffff",
         "green": "008000ff", "lime": "00ff00ff", "olive": "808000ff", "yellow": "ffff00ff", "navy": "000080ff",
         "blue": "0000ffff", "teal": "008080ff", "aqua": "00ffffff", "cyan": "00ffffff"}


def rgba(text):
    if text is None:
        return None
    if text.startswith('#'):
        t = text[1:].lower()
        t += 'ff' * (len(t) == 6)
        return tuple(int(t[i:i + 2], 16) for i in (0, 2, 4, 6))
    if text.startswith('rgb'):
        t = [int(x) for x in text[text.index('(') + 1:-1].split(',')]
        return tuple(t + [255] * (4 - len(t)))
    return rgba('#' + NAMED[text])


# ---------------------------------------------------------------- what EBU-TT-D allows
COMMON = {'xml:id', 'region', 'style', 'ttm:agent', 'ttm:role'}
ALLOWED = {
    'tt': ({'ttp:timeBase', 'ttp:cellResolution', 'xml:lang', 'xml:space'}, {'head', 'body'}),
    'head': (set(), {'ttm:copyright', 'metadata', 'styling', 'layout'}),
    'styling': (set(), {'metadata', 'style'}),
    'style': ({'xml:id', 'tts:direction', 'tts:fontFamily', 'tts:fontSize', 'tts:lineHeight', 'tts:textAlign', 'tts:color',
               'tts:backgroundColor', 'tts:fontStyle', 'tts:fontWeight', 'tts:textDecoration', 'tts:unicodeBidi',
               'tts:wrapOption', 'ebutts:multiRowAlign', 'ebutts:linePadding'}, {'metadata'}),
    'layout': (set(), {'metadata', 'region'}),
    'region': ({'xml:id', 'tts:origin', 'tts:extent', 'style', 'tts:displayAlign', 'tts:padding', 'tts:writingMode',
                'tts:showBackground', 'tts:overflow'}, {'metadata'}),
    'body': ({'style', 'ttm:agent', 'ttm:role'}, {'metadata', 'div'}),
    'div': (COMMON | {'xml:lang'}, {'metadata', 'p'}),
    'p': (COMMON | {'xml:space', 'xml:lang', 'begin', 'end'}, {'metadata', 'br', 'span'}),
    'span': (COMMON - {'region'} | {'xml:space', 'xml:lang', 'begin', 'end'}, {'metadata', 'br'}),
    'br': ({'ttm:role'}, {'metadata'}),
}
NUM = r'[+-]?(\d+\.?\d*|\.\d+)'
PCT2 = re.compile('^%s%% %s%%$' % (NUM, NUM))
PCT12 = re.compile('^%s%%( %s%%)?$' % (NUM, NUM))


def valid(root):
    """is this a valid EBU-TT-D document: structure, attributes, references, units"""
    ids = {}
    refs = []

    def go(e):
        tag = ttml.short(e.tag)
        tag = tag[3:] if tag.startswith('tt:') else tag
        if tag not in ALLOWED:
            if tag not in ('metadata', 'ttm:copyright'):
                raise Fail('element %s in EBU-TT-D' % tag)
            return
        attrs, kids = ALLOWED[tag]
        a = {ttml.short(k): v for k, v in e.attrib.items()}
        if set(a) - attrs:
            raise Fail('attributes %s of %s in EBU-TT-D' % (sorted(set(a) - attrs), tag))
        names = [ttml.short(c.tag)[3:] if ttml.short(c.tag).startswith('tt:') else ttml.short(c.tag) for c in e]
        if set(names) - kids:
            raise Fail('%s in %s in EBU-TT-D' % (sorted(set(names) - kids), tag))
        for need, where in (('styling', 'head'), ('layout', 'head'), ('style', 'styling'), ('region', 'layout'), ('div', 'body'),
                            ('p', 'div'), ('head', 'tt')):
            if tag == where and need not in names:
                raise Fail('%s without %s' % (where, need))
        if tag == 'p' and 'xml:id' not in a:
            raise Fail('p without id')
        if 'xml:id' in a:
            if a['xml:id'] in ids:
                raise Fail('id %s occurs twice' % a['xml:id'])
            ids[a['xml:id']] = tag
        refs.extend(('style', x) for x in a.get('style', '').split())
        if 'region' in a:
            refs.append(('region', a['region']))
        if tag == 'region':
            for k in ('tts:origin', 'tts:extent'):
                if not PCT2.match(a.get(k, '')):
                    raise Fail('%s of a region is %r' % (k, a.get(k)))
        if tag == 'style':
            if 'tts:fontSize' in a and not PCT12.match(a['tts:fontSize']):
                raise Fail('font size %r' % a['tts:fontSize'])
            if a.get('tts:lineHeight', 'normal') != 'normal' and not PCT12.match(a['tts:lineHeight']):
                raise Fail('line height %r' % a['tts:lineHeight'])
            for k in ('tts:color', 'tts:backgroundColor'):
                if a.get(k) in NAMED:
                    raise Fail('colour %r' % a[k])
        if tag == 'tt' and (a.get('ttp:timeBase') != 'media' or 'xml:lang' not in a):
            raise Fail('root attributes %s' % a)
        for k in ('begin', 'end'):
            if k in a:
                time_us(a[k])
        for c in e:
            go(c)
    go(root)
    for kind, i in refs:
        if ids.get(i) != kind:
            raise Fail('%s reference to %r' % (kind, i))


# ---------------------------------------------------------------- comparison
def norm_style(c):
    """comparable computed style; the size as far as it is carried over (the second value only)"""
    out = {}
    for k, v in c.items():
        if k == 'tts:padding':
            continue
        if k in ('tts:color', 'tts:backgroundColor'):
            v = rgba(v)
        if k == 'tts:fontSize':
            v = v[1]
        out[k] = v
    return out


def close(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return abs(x - y) <= F(1, 10 ** 6) * max(1, abs(y))


def pct(text, d, extent):
    v = text.split()
    n = [F(x.rstrip('cpx%')) for x in v]
    if v[0].endswith('c'):
        cw, ch = [F(x) for x in (d.get('cell') or '32 15').split()]
        n = [n[0] / cw * 100, n[1] / ch * 100]
    elif v[0].endswith('px'):
        ew, eh = [F(x[:-2]) for x in d['ext'].split()]
        n = [n[0] / ew * 100, n[1] / eh * 100]
    return n


INHERITED_ONLY = ('tts:backgroundColor', 'tts:unicodeBidi', 'tts:padding')


def flat(body):
    """the body without nested divs: nested ones stand for themselves, paragraphs between them get a div of their own;
    a list of (path, div, paths and nodes of paragraphs, nested)"""
    out = []

    def go(div, path, region):
        region = region or div['a'].get('region')
        inner = any(not isinstance(c, str) and c['t'] == 'div' for c in div['c'])     # (empty ones, too)
        run = None
        i = 0
        for c in div['c']:
            if isinstance(c, str):
                continue
            if c['t'] == 'div':
                n = len(out)
                go(c, path + (i,), region)
                if len(out) > n:
                    run = None
            elif c['t'] == 'p':
                if run is None:
                    run = []
                    out.append((path, div, region, run, inner or len(path) > 1))
                run.append((path + (i,), c))
            i += 1
    i = 0
    for c in body['c']:
        if not isinstance(c, str):
            if c['t'] == 'div':
                go(c, (i,), None)
            i += 1
    return out


def compare(a, b, zero):
    """a: live document, b: EBU-TT-D document, both as models"""
    ma, mb = C06.model(a), C06.model(b)
    for k, dflt in (('lang', None), ('cell', '32 15')):
        if (a[k] or dflt) != (b[k] or dflt):
            raise Fail('%s is %r instead of %r' % (k, b[k], a[k]))
    if a['tta'].get('xml:space') != b['tta'].get('xml:space'):
        raise Fail('xml:space of the document')

    def style(where, x, y, sizes=True):
        x, y = norm_style(x), norm_style(y)
        for k in x:
            if k in present.SIZES:
                if sizes and not close(y[k], x[k]):
                    raise Fail('%s: %s is %s instead of %s' % (where, k, y[k] if isinstance(y[k], str) else float(y[k]), x[k]
                               if isinstance(x[k], str) else float(x[k])))
            elif x[k] != y[k]:
                raise Fail('%s: %s is %s instead of %s' % (where, k, y[k], x[k]))
    ra, rb = {r['xml:id']: r for r in a['regions'] or ()}, {r['xml:id']: r for r in b['regions'] or ()}
    if ra and set(ra) != set(rb):
        raise Fail('regions %s instead of %s' % (sorted(rb), sorted(ra)))
    for i, r in ra.items():
        for k in ('tts:origin', 'tts:extent'):
            x, y = pct(r[k], a, k), pct(rb[i][k], b, k)
            if not all(close(p, q) for p, q in zip(x, y)):
                raise Fail('%s of region %s is %s instead of %s' % (k, i, rb[i][k], r[k]))
        for k in ('tts:displayAlign', 'tts:padding', 'tts:writingMode', 'tts:showBackground', 'tts:overflow'):
            if r.get(k) != rb[i].get(k):
                raise Fail('%s of region %s is %s instead of %s' % (k, i, rb[i].get(k), r.get(k)))
        style('region ' + i, ma['reg'][i], mb['reg'][i], False)
    if not ra and any('style' in r or 'tts:padding' in r for r in rb.values()):
        raise Fail('default region %s' % rb)

    def kids(n):
        i = 0
        out = []
        for c in n['c']:
            if isinstance(c, str):
                if out and isinstance(out[-1], str):
                    out[-1] += c
                elif c:
                    out.append(c)
            elif c['t'] in ('div', 'p', 'span', 'br'):
                out.append((i, c))
                i += 1
            else:
                i += 1
        return [x for x in out if isinstance(x, str) or x[1]['t'] != 'div' or any(not isinstance(y, str) for y in x[1]['c'])]

    def time(v):
        return None if v is None else F(time_us(v)) - (zero if a['tb'] == 'clock' else 0)

    def go(x, y, px, py):
        where = '%s at %s' % (x['t'], px)
        if x['t'] != y['t']:
            raise Fail('%s became %s' % (where, y['t']))
        for k in ('xml:id', 'xml:lang', 'xml:space', 'region') + (() if x['t'] == 'div' else ('ttm:role',)):
            if x['t'] == 'body' and k == 'xml:id':
                continue
            if x['a'].get(k) != y['a'].get(k):
                raise Fail('%s: %s is %r instead of %r' % (where, k, y['a'].get(k), x['a'].get(k)))
        if x['t'] in ('p', 'span'):
            for k in ('begin', 'end'):
                t = y['a'].get(k)
                if time(x['a'].get(k)) != (None if t is None else F(time_us(t))):
                    raise Fail('%s: %s %s became %s, the media starts at %s' % (where, k, x['a'].get(k), t, zero))
        if x['t'] == 'br':
            return
        style(where, ma['el'][px][0], mb['el'][py][0], x['t'] in ('p', 'span'))
        if x['t'] == 'body':
            fx, fy = flat(x), flat(y)
            if [len(f[3]) for f in fx] != [len(f[3]) for f in fy]:
                raise Fail('body: divs with %s paragraphs became divs with %s' % ([len(f[3]) for f in fx], [len(f[3]) for f in fy]))
            for (px, dx, rx, kx, nx), (py, dy, ry, ky, _) in zip(fx, fy):
                if not nx:
                    go(dx, dy, px, py)
                    continue
                if rx != ry:
                    raise Fail('div at %s: region is %r instead of %r' % (px, ry, rx))
                style('div at %s' % (px,), *[{k: v for k, v in m['el'][q][0].items() if k not in INHERITED_ONLY}
                                             for m, q in ((ma, px), (mb, py))], sizes=False)
                for c, e in zip(kx, ky):
                    go(c[1], e[1], c[0], e[0])
            return
        kx, ky = kids(x), kids(y)
        if [c if isinstance(c, str) else c[1]['t'] for c in kx] != [c if isinstance(c, str) else c[1]['t'] for c in ky]:
            raise Fail('%s: content %s became %s' % (where, x['c'], y['c']))
        for c, e in zip(kx, ky):
            if not isinstance(c, str):
                go(c[1], e[1], px + (c[0],), py + (e[0],))
    body = a['body'] if a['body'] and flat(a['body']) else None
    if (body is None) != (b['body'] is None):
        raise Fail('the body %s' % ('is lost' if body else 'is not empty'))
    if body:
        go(body, b['body'], (), ())


def check(src, r, zero, rec):
    """src: XML of the live document; r: what the worker reports"""
    if 'exc' in r:
        raise Fail('conversion failed: %s %s' % (r['exc']['msg'], r['exc']['tb']), sig='exc:' + r['exc']['type'])
    if not r['same']:
        raise Fail('conversion changed the original document')
    if 'again' in r:
        raise Fail('the EBU-TT-D document can not be read: %s\n%s' % (r['again']['msg'], r['r']['xml']))
    root = ET.fromstring(r['r']['xml'].encode('utf-8'))
    valid(root)
    if C07.canon(ET.fromstring(r['r']['dom'].encode('utf-8'))) != C07.canon(root):
        raise Fail('DOM and XML differ')
    a, b = ttml.from_xml(src), ttml.from_root(root)
    compare(a, b, zero)
    return a, b


@st.composite
def documents(draw, tb=None, num=1):
    d = draw(present.styled_docs(num=num, tb=tb, tree_kw=dict(timed=False, nested_div=True, nested_span=False, body_timing=False)))
    if draw(st.integers(0, 3)) == 0:
        present.graph_of_styles(draw, d)
    styles = [dict(s) for s in d['styles']]
    table = present.style_attrs()
    for s in styles:
        # dense in sizes
        if draw(st.integers(0, 2)) == 0:
            s['tts:fontSize'] = draw(table['tts:fontSize'])
        if draw(st.integers(0, 2)) == 0:
            s['tts:lineHeight'] = draw(table['tts:lineHeight'])
    d['styles'] = styles
    if d['ext'] and draw(st.booleans()):
        d['ext'] = draw(st.sampled_from(['1280px 720px', '300px 150px']))
    d['headmeta'] = draw(st.sampled_from(C07.HEADMETA))
    d['lang'] = draw(st.sampled_from(['en', 'en-GB', '']))
    if draw(st.integers(0, 3)) == 0:
        d['tta'] = {'xml:space': draw(st.sampled_from(['default', 'preserve']))}
    if d['tb'] == 'clock':
        d['cm'] = draw(st.sampled_from(['local', 'utc', 'gps']))
    base = draw(st.sampled_from([0, 0, 5 * SEC, 36000 * SEC, 86399 * SEC]))

    def tattrs():
        a = {}
        b = base + draw(st.integers(0, 12000)) * (SEC // 1000) if draw(st.booleans()) else base + draw(st.integers(0, 12)) * SEC
        if draw(st.integers(0, 5)):
            a['begin'] = ttml.time_text(b, draw(st.sampled_from(ttml.FORMS)))
        if draw(st.integers(0, 5)):
            a['end'] = ttml.time_text(b + draw(st.integers(1, 6000)) * (SEC // 1000), draw(st.sampled_from(ttml.FORMS)))
        return a
    for _, n in list(ttml.walk(d['body'])):
        spans = [c for c in n['c'] if not isinstance(c, str) and c['t'] == 'span']
        if n['t'] == 'p':
            # either the paragraph or its spans are timed
            for c in [n] if not spans or draw(st.booleans()) else spans:
                if draw(st.integers(0, 4)):
                    c['a'].update(tattrs())
        if n['t'] in ('p', 'span'):
            if draw(st.integers(0, 5)) == 0:
                n['a']['xml:space'] = draw(st.sampled_from(['default', 'preserve']))
            if draw(st.integers(0, 5)) == 0:
                n['a']['xml:lang'] = draw(st.sampled_from(['de', 'pt-BR']))
            for i in range(len(n['c']) + 1):
                if draw(st.integers(0, 4)) == 0 and (i == 0 or not isinstance(n['c'][i - 1], str)) \
                        and (i == len(n['c']) or not isinstance(n['c'][i], str)):
                    n['c'].insert(i, draw(C07.texts))
        if n['t'] in ('p', 'span', 'div', 'body') and draw(st.integers(0, 9)) == 0:
            n['a']['ttm:role'] = draw(st.sampled_from(['dialog', 'caption', 'x-custom']))
    if draw(st.integers(0, 14)) == 0:
        d['body'] = draw(st.sampled_from([None, {'t': 'body', 'a': {}, 'c': []}]))
    return d, base


@st.composite
def cases(draw):
    docs = []
    tb = draw(st.sampled_from(['clock', 'clock', 'media']))
    zero = None
    for k in range(draw(st.sampled_from([1, 1, 2, 3]))):
        d, base = draw(documents(tb=tb, num=k + 1))
        docs.append(d)
        zero = base if zero is None else min(zero, base)
    zero = draw(st.sampled_from([0, zero, max(0, zero - 1500000)]))
    return {'docs': docs, 'zero': zero, 'ns': draw(st.booleans()), 'via': draw(st.sampled_from(['node', 'node', 'function'])),
            'kw': draw(st.sampled_from([{}, {}, {'sequence_identifier': 's', 'time_base': 'clock', 'x': 1}]))}


def run(w, case, rec):
    xmls = [ttml.to_xml(d) for d in case['docs']]
    out = w.call('encode', docs=[{'xml': x, 'kw': case['kw']} for x in xmls], zero=case['zero'], ns=case['ns'], via=case['via'])
    for x, r in zip(xmls, out):
        a, b = check(x, r, case['zero'], rec)
        if case['via'] == 'node':
            if ('<tt:' in r['r']['xml']) == case['ns']:
                raise Fail('default namespace setting is not followed')
            want = {'sequence_identifier': 'default', 'time_base': 'media'}
            if 'x' in case['kw']:
                want['x'] = 1
            if r['r']['kw'] != want:
                raise Fail('passed on with %s' % r['r']['kw'])
        m = C06.model(a)
        p = [v for v, t in m['el'].values() if t in ('p', 'span')]
        rec.label('sizes', any(v['tts:fontSize'] != (1, 1) for v in p))
        rec.label('line heights', any(v['tts:lineHeight'] != 'normal' for v in p))
        rec.label('clock times moved', a['tb'] == 'clock' and case['zero'])
        rec.label('chained styles', any('style' in s for s in a['styles']))
        rec.label('pixel or cell regions', any('%' not in r['tts:origin'] for r in a['regions'] or ()))
        rec.label('no regions', not a['regions'])
        rec.label('no body', b['body'] is None)
        rec.nontrivial(b['body'] and len(p) > 1 and any('style' in n['a'] for _, n in ttml.walk(a['body'])))


# ---------------------------------------------------------------- segments
@st.composite
def segments(draw):
    c = draw(C05.cases(tree=dict(nested_div=True, nested_span=False)))
    c['zero'] = draw(st.sampled_from([0, 0, 36000 * SEC])) if c['tb'] == 'media' else 0
    return c


def run_segments(w, case, rec):
    evs = []
    for ev in case['events']:
        if 'doc' in ev:
            d = case['docs'][ev['doc']]
            evs.append({'xml': ttml.to_xml(d), 'avail': d['avail']})
        else:
            evs.append({})
    out = w.call('resequence', events=evs, length=case['length'], discard=case['discard'], sid='mid', tb=case['tb'])
    xmls = [o['r']['xml'][0] for o in out if 'r' in o and o['r'] and o['r']['xml'] and 'again' not in o][:6]
    if not xmls:
        return
    out = w.call('encode', docs=[{'xml': x} for x in xmls], zero=case['zero'])
    full = 0
    for x, r in zip(xmls, out):
        a, b = check(x, r, case['zero'], rec)
        # the times of a segment are those of its leaves
        if b['body']:
            full += 1
        rec.label('with content', b['body'])
    rec.nontrivial(full > 1)


def tests(tier):
    return [Test('documents', cases, run, quick=500, thorough=20000, weight=3,
                 rule='documents with a body that refers to styles and has several paragraphs or spans'),
            Test('segments', segments, run_segments, quick=150, thorough=5000,
                 rule='sequences of which at least two segments with content were converted')]
