"""Document model, generators and reference models (timing, presentation) for EBU-TT Part 3 documents.

A document is a JSON value:
  {"sid","num","lang","tb":"clock"|"media","cm":clockMode,"cell":"40 24","ext":"640px 480px","tta":{extra tt attributes},
   "styles":[{attr: value}],"regions":[{attr: value}]|None,"body":node|None,"avail":microseconds|None}
and a node is {"t": tag, "a": {attr: text}, "c": [children]}; a text node is a string.
Nothing here uses the toolkit.
"""
import re
from fractions import Fraction
import xml.etree.ElementTree as ET
from hypothesis import strategies as st

NS = {'tt': 'http://www.w3.org/ns/ttml', 'ttp': 'http://www.w3.org/ns/ttml#parameter',
      'tts': 'http://www.w3.org/ns/ttml#styling', 'ttm': 'http://www.w3.org/ns/ttml#metadata',
      'ebuttm': 'urn:ebu:tt:metadata', 'ebuttp': 'urn:ebu:tt:parameters', 'ebutts': 'urn:ebu:tt:style',
      'ebuttlm': 'urn:ebu:tt:livemessage', 'xml': 'http://www.w3.org/XML/1998/namespace'}
PFX = {v: k for k, v in NS.items()}
TIMED = ('body', 'div', 'p', 'span')
SEC = 1000000


# ---------------------------------------------------------------- XML
def esc(s):
    return ''.join(
        {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', '\n': '&#10;', '\t': '&#9;', '\r': '&#13;'}.get(c, c)
        for c in s)


def attrs_xml(a):
    return ''.join(' %s="%s"' % (k, esc(str(v))) for k, v in a.items() if v is not None)


def node_xml(n):
    if isinstance(n, str):
        return esc(n)
    c = n.get('c') or []
    if not c:
        return '<tt:%s%s/>' % (n['t'], attrs_xml(n.get('a', {})))
    return '<tt:%s%s>%s</tt:%s>' % (n['t'], attrs_xml(n.get('a', {})), ''.join(node_xml(x) for x in c), n['t'])


def to_xml(d):
    a = {'xml:lang': d.get('lang', 'en'), 'ttp:timeBase': d.get('tb', 'clock')}
    if d.get('tb', 'clock') == 'clock' and d.get('cm', 'local'):
        a['ttp:clockMode'] = d.get('cm', 'local')
    if d.get('cell'):
        a['ttp:cellResolution'] = d['cell']
    if d.get('ext'):
        a['tts:extent'] = d['ext']
    a['ebuttp:sequenceIdentifier'] = d['sid']
    a['ebuttp:sequenceNumber'] = d['num']
    a.update(d.get('tta', {}))
    out = ['<?xml version="1.0" encoding="UTF-8"?><tt:tt']
    out += [' xmlns:%s="%s"' % (p, NS[p]) for p in ('tt', 'ttp', 'tts', 'ttm', 'ebuttm', 'ebuttp', 'ebutts')]
    out.append(attrs_xml(a) + '>')
    out.append(d.get('headxml') or head_xml(d))
    if d.get('body') is not None:
        out.append(node_xml(d['body']))
    out.append('</tt:tt>')
    return ''.join(out)


def head_xml(d):
    styles = d.get('styles')
    if styles is None:
        styles = []
    out = ['<tt:head>', d.get('headmeta', '')]
    if styles:
        out.append('<tt:styling>' + ''.join('<tt:style%s/>' % attrs_xml(s) for s in styles) + '</tt:styling>')
    if d.get('regions') is not None:
        out.append('<tt:layout>' + ''.join('<tt:region%s/>' % attrs_xml(r) for r in d['regions']) + '</tt:layout>')
    out.append('</tt:head>')
    return ''.join(out)


def q(name):
    p, _, l = name.partition(':')
    return '{%s}%s' % (NS[p], l) if l else name


def short(qname):
    if qname[0] == '{':
        u, l = qname[1:].split('}')
        return '%s:%s' % (PFX.get(u, u), l)
    return qname


def from_xml(xml):
    """parse a serialised Part 3 document back into the model (presentation-relevant content only)"""
    root = ET.fromstring(xml.encode('utf-8') if isinstance(xml, str) else xml)
    return from_root(root)


def from_root(root):
    a = {short(k): v for k, v in root.attrib.items()}
    d = {'sid': a.get('ebuttp:sequenceIdentifier'),
         'num': int(a['ebuttp:sequenceNumber']) if 'ebuttp:sequenceNumber' in a else None,
         'lang': a.get('xml:lang'), 'tb': a.get('ttp:timeBase'), 'cm': a.get('ttp:clockMode'),
         'cell': a.get('ttp:cellResolution'), 'ext': a.get('tts:extent'), 'avail': None,
         'tta': {k: v for k, v in a.items() if k not in (
             'ebuttp:sequenceIdentifier', 'ebuttp:sequenceNumber', 'xml:lang', 'ttp:timeBase', 'ttp:clockMode',
             'ttp:cellResolution', 'tts:extent')},
         'styles': [], 'regions': None, 'body': None}
    for h in root:
        if h.tag == q('tt:head'):
            for s in h:
                if s.tag == q('tt:styling'):
                    d['styles'] = [{short(k): v for k, v in x.attrib.items()} for x in s if x.tag == q('tt:style')]
                elif s.tag == q('tt:layout'):
                    d['regions'] = [{short(k): v for k, v in x.attrib.items()} for x in s if x.tag == q('tt:region')]
        elif h.tag == q('tt:body'):
            d['body'] = from_node(h)
    return d


MIXED = ('p', 'span')


def from_node(e):
    tag = short(e.tag)
    tag = tag[3:] if tag.startswith('tt:') else tag
    c = []
    mixed = tag in MIXED
    if mixed and e.text:
        c.append(e.text)
    for x in e:
        c.append(from_node(x))
        if mixed and x.tail:
            c.append(x.tail)
    return {'t': tag, 'a': {short(k): v for k, v in e.attrib.items()}, 'c': c}


def walk(n, path=()):
    """(path of element-child indexes, node) in document order"""
    yield path, n
    i = 0
    for c in n.get('c') or []:
        if not isinstance(c, str):
            yield from walk(c, path + (i,))
            i += 1


# ---------------------------------------------------------------- time expressions
_TC = re.compile(r'^(\d+(?:\.\d+)?)(h|ms|s|m)$')
_CLK = re.compile(r'^(\d{2,}):([0-5]\d):([0-5]\d|60)(\.\d+)?$')
_UNIT = {'h': 3600 * SEC, 'm': 60 * SEC, 's': SEC, 'ms': 1000}


def time_us(text):
    """value of a time expression, in microseconds (exact Fraction reduced to int where whole)"""
    m = _TC.match(text)
    if m:
        v = Fraction(m.group(1)) * _UNIT[m.group(2)]
    else:
        m = _CLK.match(text)
        if not m:
            raise ValueError(text)
        v = (int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3))) * SEC
        if m.group(4):
            v += Fraction('0' + m.group(4)) * SEC
    v = Fraction(v)
    return v.numerator if v.denominator == 1 else v


def clock_text(us, digits=None):
    h, r = divmod(us, 3600 * SEC)
    m, r = divmod(r, 60 * SEC)
    s, f = divmod(r, SEC)
    out = '%02d:%02d:%02d' % (h, m, s)
    if digits is None:
        digits = 3 if f else 0
    if digits:
        out += '.' + ('%06d' % f)[:digits]
    return out


def dec(fr):
    """exact decimal text of a fraction that has one"""
    fr = Fraction(fr)
    s = ''
    n = 0
    while fr.denominator != 1 and n < 12:
        fr *= 10
        n += 1
    i = str(fr.numerator)
    if n:
        i = i.rjust(n + 1, '0')
        i = i[:-n] + '.' + i[-n:]
    return i


def time_text(us, form):
    """text of a whole-millisecond instant in one of several equivalent forms"""
    if form == 'clk':
        return clock_text(us)
    if form == 'clk3':
        return clock_text(us, 3)
    if form == 'clk6':
        return clock_text(us, 6)
    if form == 's':
        return dec(Fraction(us, SEC)) + 's'
    if form == 'ms':
        return dec(Fraction(us, 1000)) + 'ms'
    if form == 'm' and us % (60 * 1000) == 0:
        return dec(Fraction(us, 60 * SEC)) + 'm'
    if form == 'h' and us % (3600 * 1000) == 0:
        return dec(Fraction(us, 3600 * SEC)) + 'h'
    return clock_text(us)


FORMS = ['clk', 's', 'ms', 'clk3', 'm', 'h']


@st.composite
def times(draw, hi=12, fine=True):
    """a time expression, mostly on a coarse grid so that instants coincide"""
    k = draw(st.integers(0, 9))
    if k < 6 or not fine:
        us = draw(st.integers(0, hi)) * SEC
    elif k < 8:
        us = draw(st.integers(0, 2 * hi)) * (SEC // 2)
    else:
        us = draw(st.integers(0, hi * 1000)) * 1000
    return time_text(us, draw(st.sampled_from(FORMS)))


def opt(s, p=0.5):
    """None or s"""
    n = 10
    return st.integers(0, n - 1).flatmap(lambda i: s if i < int(p * n) else st.none())


# ---------------------------------------------------------------- text
SAFE = st.sampled_from(['Hello', 'world', 'a', 'B c', 'x y', 'q&a', '1 < 2', 'é', '日本', '"quoted"', "it's", '\U0001F600', '...'])


@st.composite
def trees(draw, timed=True, styles=(), regions=(), ids=None, max_div=2, max_p=3, nested_div=True, nested_span=True,
          mixed=True, hi=12, body_timing=True, empties=True, p_time=0.6, exotic=False):
    """a body node; every p has a unique xml:id and text is labelled so that runs are told apart"""
    counter = [0]

    def nid(prefix):
        counter[0] += 1
        return '%s%d' % (prefix, counter[0])

    def tattrs(prob):
        a = {}
        if not timed:
            return a
        b = draw(opt(times(hi), prob))
        if b is not None:
            a['begin'] = b
        e = draw(opt(times(hi), prob))
        if e is not None:
            if b is not None and draw(st.integers(0, 9)) < 9 and time_us(e) <= time_us(b):
                e = time_text(time_us(b) + draw(st.integers(1, 6)) * SEC, 'clk')
            a['end'] = e
        return a

    def sattrs(a, p=3):
        if styles and draw(st.integers(0, 9)) < p:
            a['style'] = ' '.join(draw(st.lists(st.sampled_from(styles), min_size=1, max_size=2, unique=True)))

    def rattrs(a, p=4):
        if regions and draw(st.integers(0, 9)) < p:
            a['region'] = draw(st.sampled_from(regions))

    def text():
        return draw(SAFE) + str(nid('.'))

    def inline(depth):
        k = draw(st.integers(0, 9))
        if k < 5:
            return [text()]
        n = draw(st.integers(1, 3))
        out = []
        for _ in range(n):
            kk = draw(st.integers(0, 9))
            if mixed and kk < 2:
                if not out or not isinstance(out[-1], str):
                    out.append(text())
            elif kk == 2:
                out.append({'t': 'br', 'a': {}, 'c': []})
            else:
                a = {}
                if draw(st.booleans()):
                    a['xml:id'] = nid('sp')
                a.update(tattrs(0.4))
                sattrs(a)
                c = inline(depth + 1) if nested_span and depth < 2 and draw(st.integers(0, 3)) == 0 else [text()]
                if empties and draw(st.integers(0, 19)) == 0:
                    c = []
                out.append({'t': 'span', 'a': a, 'c': c})
        return out

    def para():
        a = {'xml:id': nid('p')}
        a.update(tattrs(p_time))
        sattrs(a)
        rattrs(a)
        c = inline(0)
        if empties and draw(st.integers(0, 19)) == 0:
            c = []
        return {'t': 'p', 'a': a, 'c': c}

    def div(depth):
        a = {}
        if draw(st.booleans()):
            a['xml:id'] = nid('d')
        a.update(tattrs(0.25))
        sattrs(a)
        rattrs(a)
        c = []
        n = draw(st.integers(0 if empties and draw(st.integers(0, 9)) == 0 else 1, max_p))
        for _ in range(n):
            if nested_div and depth < 2 and draw(st.integers(0, 7)) == 0:
                c.append(div(depth + 1))
            else:
                c.append(para())
        return {'t': 'div', 'a': a, 'c': c}

    a = {}
    if body_timing:
        a.update(tattrs(0.3))
        if timed and draw(st.integers(0, 9)) < 2:
            d = draw(times(hi))
            a['dur'] = d if time_us(d) else '3s'
    sattrs(a)
    n = draw(st.integers(0 if empties and draw(st.integers(0, 9)) == 0 else 1, max_div))
    return {'t': 'body', 'a': a, 'c': [div(0) for _ in range(n)]}


# ---------------------------------------------------------------- reference timing model
def bad(a):
    return 'begin' in a and 'end' in a and time_us(a['end']) <= time_us(a['begin'])


def ref_times(d, avail=0):
    """{path: (begin, end)} in microseconds for the timed elements, by the timing rules of the Part 3 specification.

    Times of an element are relative to its parent's (unmoved) begin; nothing begins before the availability time; an
    unspecified begin follows the earliest child; an unspecified end is the latest child end, open if a child's is open;
    no element outlives the explicit end of an ancestor.
    """
    out = {}

    def go(n, path, sync, cap):
        a = n['a']
        tag = n['t']
        b = time_us(a['begin']) if 'begin' in a else None
        e = time_us(a['end']) if 'end' in a else None
        mine = sync + (b or 0)
        end = None
        if tag == 'body' and 'dur' in a:
            end = (b if b is not None else avail) + time_us(a['dur'])
            if e is not None:
                end = min(end, e)
        elif e is not None:
            end = sync + e
        if end is not None and cap is not None:
            end = min(end, cap)
        sub_cap = end if end is not None else cap
        kids = []
        i = 0
        for c in n['c']:
            if isinstance(c, str):
                continue
            if c['t'] in TIMED:
                t = go(c, path + (i,), mine, sub_cap)
                if not bad(c['a']):
                    kids.append(t)
            i += 1
        begin = max(mine, avail)
        explicit_end = end is not None
        if not explicit_end:
            if not kids:
                end = cap
            elif any(k[1] is None for k in kids):
                end = None
            else:
                end = max(k[1] for k in kids)
        if tag == 'body' and bad(a):
            begin, end = 0, None
        if b is None and kids:
            begin = max(begin, min(k[0] for k in kids))
        out[path] = (begin, end)
        return out[path]

    if d.get('body') is not None:
        go(d['body'], (), 0, None)
        return out
    return out


def doc_times(d, avail=0):
    if d.get('body') is None:
        return (avail, avail)
    return ref_times(d, avail)[()]
