"""Writing a document out and reading it back keeps all of its content."""
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present

WORKER = ['doc_ops']
MIXED = (ttml.q('tt:p'), ttml.q('tt:span'))
HEADMETA = [
    '',
    '<tt:metadata><ebuttm:documentMetadata><ebuttm:documentEbuttVersion>v1.0</ebuttm:documentEbuttVersion>'
    '</ebuttm:documentMetadata></tt:metadata>',
    '<tt:metadata><ebuttm:documentMetadata><ebuttm:documentIdentifier>id &amp; more</ebuttm:documentIdentifier>'
    '<ebuttm:documentOriginatingSystem>x &lt; y</ebuttm:documentOriginatingSystem>'
    '<ebuttm:documentCountryOfOrigin>gb</ebuttm:documentCountryOfOrigin></ebuttm:documentMetadata></tt:metadata>'
    '<ttm:copyright>\u00a9 someone</ttm:copyright>',
    '<ttm:copyright>me</ttm:copyright>',
]
texts = st.one_of(
    st.text(st.characters(min_codepoint=32, max_codepoint=0x2FFF, blacklist_categories=('Cs', 'Cc')), min_size=1, max_size=8),
    st.sampled_from(['  ', ' ', 'a', 'two  spaces', '\n', ' lead', 'trail ', '\t', ']]>', '&amp;', '\u00a0', '\U0001F600',
                     'a\nb', '<b>', '\u200b\u202e', '"\'', '  x  \n  y  ']))


@st.composite
def cases(draw):
    d = draw(present.styled_docs())
    d['headmeta'] = draw(st.sampled_from(HEADMETA))
    d['lang'] = draw(st.sampled_from(['en', 'en-GB', 'fr', '']))
    d['sid'] = draw(st.sampled_from(['s', 'seq 1', 'urn:x:\u00e9', 'a/b?c=d&e', '<seq>']))
    d['num'] = draw(st.integers(1, 10 ** 12))
    tta = {}
    for k, v in (('ebuttm:authoringDelay', st.sampled_from(['5s', '0s', '1.5m', '-3s'])),
                 ('ebuttp:authorsGroupIdentifier', st.sampled_from(['g', 'group 1'])),
                 ('ebuttp:authorsGroupControlToken', st.integers(1, 10 ** 6).map(str)),
                 ('ebuttm:authorsGroupSelectedSequenceIdentifier', st.sampled_from(['other', 'a&b'])),
                 ('ebuttp:referenceClockIdentifier', st.sampled_from(['http://clock.example/x'])),
                 ('xml:space', st.sampled_from(['default', 'preserve']))):
        if draw(st.integers(0, 3)) == 0:
            tta[k] = draw(v)
    d['tta'] = tta
    if d['tb'] == 'clock':
        d['cm'] = draw(st.sampled_from(['local', 'gps', 'utc']))
    for _, n in list(ttml.walk(d['body'])):
        if n['t'] in ('p', 'span'):
            if draw(st.integers(0, 5)) == 0:
                n['a']['xml:space'] = draw(st.sampled_from(['default', 'preserve']))
            if draw(st.integers(0, 5)) == 0:
                n['a']['xml:lang'] = draw(st.sampled_from(['de', 'pt-BR']))
            for i in range(len(n['c']) + 1):
                if draw(st.integers(0, 2)) == 0 and (i == 0 or not isinstance(n['c'][i - 1], str)) \
                        and (i == len(n['c']) or not isinstance(n['c'][i], str)):
                    n['c'].insert(i, draw(texts))
        if n['t'] in ('p', 'span', 'div', 'body'):
            if draw(st.integers(0, 9)) == 0:
                n['a']['ttm:role'] = draw(st.sampled_from(['dialog', 'caption', 'x-custom']))
    if draw(st.integers(0, 11)) == 0:
        d['body'] = None
    return d


def canon(e, top=True):
    a = dict(e.attrib)
    if e.tag == ttml.q('tt:tt') and ttml.q('ttp:cellResolution') not in a:
        a[ttml.q('ttp:cellResolution')] = '32 15'
    for k in (ttml.q('ebuttp:sequenceNumber'),):
        if k in a:
            a[k] = str(int(a[k]))
    mixed = e.tag in MIXED
    kids = []

    def text(s):
        if not s:
            return
        if mixed:
            kids.append(s)
        elif s.strip():
            kids.append(s)
    text(e.text)
    for c in e:
        kids.append(canon(c, False))
        text(c.tail)
    return [e.tag, sorted(a.items()), kids]


def diff(a, b, path=''):
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else '%s: %r became %r' % (path, a, b)
    if a[0] != b[0]:
        return '%s: %s became %s' % (path, a[0], b[0])
    if a[1] != b[1]:
        return '%s/%s: attributes %s became %s' % (path, a[0], a[1], b[1])
    if len(a[2]) != len(b[2]):
        return '%s/%s: children %s became %s' % (path, a[0], [x if isinstance(x, str) else x[0] for x in a[2]],
                                                 [x if isinstance(x, str) else x[0] for x in b[2]])
    for x, y in zip(a[2], b[2]):
        d = diff(x, y, path + '/' + a[0].split('}')[1])
        if d:
            return d
    return None


def run(w, case, rec):
    xml = ttml.to_xml(case)
    r = w.call('parse3', xml=xml, want=['xml', 'xml2'])
    want = canon(ET.fromstring(xml.encode('utf-8')))
    got = canon(ET.fromstring(r['xml'].encode('utf-8')))
    d = diff(want, got)
    if d:
        raise Fail('written out: ' + d)
    d = diff(got, canon(ET.fromstring(r['xml2'].encode('utf-8'))))
    if d:
        raise Fail('written out a second time: ' + d)
    if r['xml'] != r['xml2']:
        raise Fail('output is not stable over a second round')
    nodes = [n for _, n in ttml.walk(case['body'])] if case['body'] else []
    rec.label('mixed content', any(any(isinstance(c, str) for c in n['c']) and any(not isinstance(c, str) for c in n['c'])
                                   for n in nodes))
    rec.label('white space only text', any(isinstance(c, str) and not c.strip() for n in nodes for c in n['c']))
    rec.label('styles', bool(case['styles']))
    rec.label('regions', bool(case['regions']))
    rec.label('metadata', bool(case['headmeta']))
    rec.label('no body', case['body'] is None)
    rec.nontrivial(len(nodes) > 3)


def tests(tier):
    return [Test('roundtrip', cases, run, quick=1000, thorough=30000, rule='documents with more than three content elements')]
