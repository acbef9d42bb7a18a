"""Generators for styles and regions, and the reference presentation: what is on screen at an instant, and how it looks."""
import re
from fractions import Fraction
from hypothesis import strategies as st
from . import ttml
from .ttml import walk, ref_times

INHERITED = {'tts:color': None, 'tts:direction': 'ltr', 'tts:fontFamily': 'default', 'tts:fontStyle': 'normal',
             'tts:fontWeight': 'normal', 'ebutts:linePadding': '0c', 'ebutts:multiRowAlign': 'auto',
             'tts:textAlign': 'start', 'tts:textDecoration': 'none', 'tts:wrapOption': 'wrap'}
LOCAL = {'tts:backgroundColor': 'transparent', 'tts:padding': '0px', 'tts:unicodeBidi': 'normal'}
SIZES = ('tts:fontSize', 'tts:lineHeight')
NAMED = ['transparent', 'black', 'silver', 'gray', 'white', 'maroon', 'red', 'purple', 'fuchsia', 'magenta', 'green', 'lime',
         'olive', 'yellow', 'navy', 'blue', 'teal', 'aqua', 'cyan']

hexd = '0123456789abcdefABCDEF'
colors = st.one_of(st.sampled_from(NAMED), st.text(hexd, min_size=6, max_size=6).map(lambda s: '#' + s),
                   st.text(hexd, min_size=8, max_size=8).map(lambda s: '#' + s),
                   st.tuples(*[st.integers(0, 255)] * 3).map(lambda t: 'rgb(%d,%d,%d)' % t),
                   st.tuples(*[st.integers(0, 255)] * 4).map(lambda t: 'rgba(%d, %d,%d,%d)' % t))
num = st.sampled_from(['1', '2', '0.5', '1.5', '3', '.75', '10', '1.25'])
pcts = st.sampled_from(['50', '100', '150', '80', '120', '66.6', '200', '25'])


def sizes(units=('c', '%', 'px'), two=True):
    def one(u):
        n = pcts if u == '%' else st.sampled_from(['16', '20', '32', '8', '24.5']) if u == 'px' else num
        a = n.map(lambda x: x + u)
        if not two:
            return a
        return st.one_of(a, a, st.tuples(n, n).map(lambda t: '%s%s %s%s' % (t[0], u, t[1], u)))
    return st.sampled_from(units).flatmap(one)


def style_attrs(units=('c', '%', 'px'), two_d=True, line_two=False, padding=True):
    d = {
        'tts:direction': st.sampled_from(['ltr', 'rtl']),
        'tts:fontFamily': st.sampled_from(['Arial', 'sansSerif', 'Verdana, Arial', 'monospaceSerif']),
        'tts:fontSize': sizes(units, two_d),
        'tts:lineHeight': st.one_of(st.just('normal'), sizes(units, False)),
        'tts:textAlign': st.sampled_from(['left', 'center', 'right', 'start', 'end']),
        'tts:color': colors, 'tts:backgroundColor': colors,
        'tts:fontStyle': st.sampled_from(['normal', 'italic']),
        'tts:fontWeight': st.sampled_from(['normal', 'bold']),
        'tts:textDecoration': st.sampled_from(['none', 'underline']),
        'tts:unicodeBidi': st.sampled_from(['normal', 'embed', 'bidiOverride']),
        'tts:wrapOption': st.sampled_from(['wrap', 'noWrap']),
        'ebutts:multiRowAlign': st.sampled_from(['start', 'center', 'end', 'auto']),
        'ebutts:linePadding': st.sampled_from(['0c', '0.5c', '1c', '.25c']),
    }
    if padding:
        d['tts:padding'] = st.sampled_from(['1c', '2px 1px', '1c 0.5c 1c', '5%', '1c 2c 3c 4c'] if 'px' in units else
                                           ['1c', '1c 0.5c 1c', '5%', '1c 2c 3c 4c'])
    return d


@st.composite
def styles(draw, n=4, **kw):
    """style elements; references only go to styles of higher index in a random order of definition, so never in a circle"""
    k = draw(st.integers(0, n))
    table = style_attrs(**kw)
    out = []
    for i in range(k):
        s = {'xml:id': 's%d' % i}
        for a in draw(st.lists(st.sampled_from(sorted(table)), max_size=4, unique=True)):
            s[a] = draw(table[a])
        if i and draw(st.integers(0, 9)) < 4:
            s['style'] = ' '.join('s%d' % j for j in draw(st.lists(st.integers(0, i - 1), min_size=1, max_size=2, unique=True)))
        out.append(s)
    return draw(st.permutations(out)) if out else out


@st.composite
def regions(draw, n=2, style_ids=(), units=('c', '%', 'px')):
    out = []
    for i in range(draw(st.integers(0, n))):
        u = draw(st.sampled_from(units))
        if u == '%':
            o, e = draw(st.sampled_from([('10% 10%', '80% 80%'), ('0% 50%', '100% 50%'), ('12.5% 80%', '75% 15%')]))
        elif u == 'c':
            o, e = draw(st.sampled_from([('1c 2c', '20c 10c'), ('0c 0c', '30c 5c'), ('2.5c 1c', '10c 3c')]))
        else:
            o, e = draw(st.sampled_from([('10px 20px', '200px 100px'), ('0px 0px', '320px 240px')]))
        r = {'xml:id': 'r%d' % i, 'tts:origin': o, 'tts:extent': e}
        if draw(st.booleans()):
            r['tts:displayAlign'] = draw(st.sampled_from(['before', 'center', 'after']))
        if draw(st.integers(0, 2)) == 0:
            r['tts:padding'] = draw(st.sampled_from(['1c', '1c 2c', '5%']))
        if draw(st.integers(0, 2)) == 0:
            r['tts:writingMode'] = draw(st.sampled_from(['lrtb', 'rltb', 'tblr', 'tbrl', 'lr', 'rl', 'tb']))
        if draw(st.integers(0, 2)) == 0:
            r['tts:showBackground'] = draw(st.sampled_from(['always', 'whenActive']))
        if draw(st.integers(0, 2)) == 0:
            r['tts:overflow'] = draw(st.sampled_from(['visible', 'hidden']))
        if style_ids and draw(st.booleans()):
            r['style'] = ' '.join(draw(st.lists(st.sampled_from(list(style_ids)), min_size=1, max_size=2, unique=True)))
        out.append(r)
    return out


@st.composite
def styled_docs(draw, sid='s', num=1, tb=None, units=('c', '%', 'px'), style_kw=None, nregions=2, tree_kw=None, nstyles=4):
    style_kw = dict(style_kw or {})
    ss = draw(styles(nstyles, units=units, **style_kw))
    ids = [s['xml:id'] for s in ss]
    rs = draw(regions(nregions, ids, units=units))
    tb = tb or draw(st.sampled_from(['clock', 'media']))
    d = {'sid': sid, 'num': num, 'tb': tb, 'styles': ss,
         'regions': rs if rs or draw(st.booleans()) else None,
         'cell': draw(st.sampled_from([None, '40 24', '32 15'])),
         'ext': '640px 480px' if 'px' in units else draw(st.sampled_from([None, None, '640px 480px'])),
         'body': draw(ttml.trees(styles=ids, regions=[r['xml:id'] for r in rs], **(tree_kw or {}))), 'avail': None}
    return d


def graph_of_styles(draw, d, **kw):
    """gives the document an acyclic graph of styles that are reached in several ways, with few kinds of attributes"""
    table = style_attrs(**kw)
    few = draw(st.lists(st.sampled_from(sorted(table)), min_size=3, max_size=8, unique=True))
    out = []
    for i in range(draw(st.integers(4, 8))):
        x = {'xml:id': 's%d' % i}
        for a in draw(st.lists(st.sampled_from(few), max_size=2, unique=True)):
            x[a] = draw(table[a])
        refs = draw(st.permutations(range(i)))[:draw(st.sampled_from([0, 2, 2, 3]))]
        if refs:
            x['style'] = ' '.join('s%d' % j for j in refs)
        out.append(x)
    ids = [x['xml:id'] for x in out]
    d['styles'] = draw(st.permutations(out))
    d['regions'] = d['regions'] and [dict(r) for r in d['regions']]
    for r in d['regions'] or ():
        r.pop('style', None)
        if draw(st.booleans()):
            r['style'] = draw(st.sampled_from(ids[-3:]))
    for _, n in list(ttml.walk(d['body'])) if d['body'] else ():
        n['a'].pop('style', None)
        if n['t'] in ttml.TIMED and draw(st.booleans()):
            n['a']['style'] = ' '.join(draw(st.lists(st.sampled_from(ids + ids[-3:]), min_size=1, max_size=3, unique=True)))
    return d


# ---------------------------------------------------------------- reference styling
def style_chain(d, ids):
    """the styles an element with style="ids" gets, most significant first"""
    table = {s['xml:id']: s for s in d['styles']}
    out = []

    def expand(i):
        res = [i]
        for j in table[i].get('style', '').split():
            for k in expand(j):
                if k not in res:
                    res.append(k)
        return res
    for i in ids:
        for k in expand(i):
            if k not in out:
                out.append(k)
    return [table[i] for i in out]


def specified(d, ids, extra=None):
    spec = dict(extra or {})
    for s in style_chain(d, ids):
        for k, v in s.items():
            if k not in ('xml:id', 'style') and k not in spec:
                spec[k] = v
    return spec


def region_sig(d, rid):
    if rid is None:
        return None
    r = [r for r in d['regions'] if r['xml:id'] == rid][0]
    sig = {k: v for k, v in r.items() if k not in ('xml:id', 'style')}
    sig['style'] = sorted(specified(d, r.get('style', '').split(), {'tts:padding': r['tts:padding']} if 'tts:padding' in r else
                                    None).items())
    return sorted((k, str(v)) for k, v in sig.items())


def collapse(s):
    return re.sub(r'[ \t\r\n]+', ' ', s)


def present(d, t=None, avail=0, times=None, mixed=True):
    """what is presented at instant t (or, with t None, everything in the document), in document order:
    a list of [text, look, paragraph], where look has the region and what the content is subject to; without the text and br
    beside spans if mixed is false"""
    out = []
    if d['body'] is None:
        return out
    if times is None:
        times = ref_times(d, avail)

    def active(path):
        if t is None:
            return True
        b, e = times[path]
        return b <= t and (e is None or t < e)

    tta = d.get('tta', {})

    def go(n, path, ctx):
        if not active(path):
            return
        a = n['a']
        ctx = dict(ctx)
        spec = specified(d, a.get('style', '').split())
        inh = dict(ctx['inh'])
        for k in spec:
            if k in INHERITED:
                inh[k] = spec[k]
        if 'tts:lineHeight' in spec:
            inh['tts:lineHeight'] = spec['tts:lineHeight']
        if 'tts:fontSize' in spec:
            f = spec['tts:fontSize']
            inh['tts:fontSize'] = (inh.get('tts:fontSize', ()) if '%' in f else ()) + (f,)
        ctx['inh'] = inh
        loc = [(k, spec[k]) for k in sorted(LOCAL) if k in spec]
        if loc:
            ctx['loc'] = ctx['loc'] + [[n['t'] if n['t'] != 'div' else 'div', loc]]
        if 'region' in a:
            ctx['region'] = a['region']
        for k in ('xml:space', 'xml:lang'):
            if k in a:
                ctx[k] = a[k]
        if n['t'] in ('p', 'span'):
            for k in ('ttm:agent', 'ttm:role'):
                if k in a:
                    ctx[k] = a[k]
        if n['t'] == 'p':
            ctx['p'] = path
        ctx['mixed'] = any(not isinstance(c, str) and c['t'] == 'span' for c in n['c'])
        i = 0
        for c in n['c']:
            if isinstance(c, str):
                if n['t'] in ('p', 'span') and (c.strip() if ctx['xml:space'] != 'preserve' else c):
                    emit(c if ctx['xml:space'] == 'preserve' else collapse(c), ctx)
                continue
            if c['t'] == 'br':
                emit('\n', ctx)
            elif c['t'] in ('div', 'p', 'span'):
                go(c, path + (i,), ctx)
            i += 1

    def emit(text, ctx):
        look = {'region': region_sig(d, ctx['region']), 'inh': sorted((k, str(v)) for k, v in ctx['inh'].items()),
                'loc': ctx['loc'], 'lang': ctx['xml:lang'], 'meta': [ctx.get('ttm:agent'), ctx.get('ttm:role')],
                'space': ctx['xml:space']}
        if mixed or not ctx['mixed']:
            out.append([text, look, ctx['p']])

    go(d['body'], (), {'inh': {}, 'loc': [], 'region': None, 'xml:lang': d.get('lang'),
                       'xml:space': tta.get('xml:space', 'default')})
    return out


def screen(d, t, avail=0, times=None, mixed=True, blank=True):
    """presentation at t with adjoining text of the same p and look joined; without the paragraphs that have nothing but
    line breaks at t if blank is false"""
    res = []
    items = present(d, t, avail, times, mixed)
    seen = set(p for text, _, p in items if text.strip())
    for text, look, p in items:
        if not blank and p not in seen:
            continue
        if res and res[-1][2] == p and res[-1][1] == look and look['space'] == 'default':
            res[-1][0] += text
        else:
            res.append([text, look, p])
    out = []
    for text, look, p in res:
        if look['space'] == 'default':
            text = re.sub(r'[ \t\r]+', ' ', text)
            if not text.strip(' '):
                continue
        out.append([text, look])
    return out


def instants(*timesets, lo=0, extra=()):
    """every instant at which something may change, and the middles between them"""
    pts = set(extra)
    for ts in timesets:
        for b, e in ts.values():
            pts.add(b)
            if e is not None:
                pts.add(e)
    pts = sorted(p for p in pts if p >= 0)
    out = list(pts)
    for a, b in zip(pts, pts[1:]):
        out.append((a + b) // 2)
    if pts:
        out.append(pts[-1] + 1000000)
        if pts[0] > 0:
            out.append(pts[0] // 2)
    return sorted(set(out))
