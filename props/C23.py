"""Whatever arrives ends in a document or in a parsing or validation error, and the next valid document is not affected."""
import base64
import re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, rules
from vlib.refusal import refused
from props import C07, C17, C20

WORKER = ['refusal_ops']
JUNK = ['', ' ', '0', '-1', '1', 'x', 'é', '٣', '٣s', '९%', '1e400', '9' * 40, '9' * 40 + 's', '9' * 400 + '%', '99999999999h', '9999999999:00:00', 'NaN',
        'inf', '0px 0px', '0c 0c', '0% 0%', '0 0', '1px', '1px 1px', '00:00:00', '00:00:60.99999999999', '00:00:00:00', '%s', '{0}', '{', '\n', '\t', 's0',
        'r0', 's0 s0', 'p1', 'xs:string', 'tt:tt', '\u2028', '\U0001F600', '\ud7ff', 'clock', 'media', 'smpte', 'local', 'utc', 'gps', '0.' + '0' * 30 + '1c',
        '.5', '.', '1.', '--', '+', '+1s', '-1s', 'rgb(1,2,3)', '#fff', 'a' * 300, 'SEQ1.x', 'file:///', 'authorsGroupControlRequest', '0.0000000001c',
        '1c 0c', '0c', '0%', '0px', '-0px', '1m', '24:00:00', '99:59:60', '0s', '0ms']
TOKENS = ['<', '>', '&', '"', "'", '</', '/>', '<!--', '-->', '<![CDATA[', ']]>', '<?', '?>', '&amp;', '&#0;', '&#x41;', '&x;', '<!DOCTYPE a>', '\x00', '\x01',
          '\ufffe', ' xmlns=""', ' xmlns:tt="urn:x"', 'tt:', ':', '=', '<tt:p>', '<tt:p xml:id="q">', '</tt:p>', '<tt:span>', '</tt:span>', '<tt:br/>', '<br/>',
          ' xsi:nil="true"', ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:type="tt:p_type"',
          ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:nil="true"',
          ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="a b"',
          '\ufeff', '\r\n', 'begin="1s"', ' dur="1s"', ' style="s0"']
PROLOG = ['<!DOCTYPE tt [<!ENTITY x "y">]>', '<!DOCTYPE tt [<!ENTITY x "<a/>">]>', '<?xml version="1.1"?>', '<?xml version="1.0" encoding="%s"?>', '\ufeff', ' ', '\n',
          '<?pi?>', '<!-- c -->', '<!DOCTYPE tt [<!ENTITY a "b"><!ENTITY c "&a;&a;&a;">]>', '<!DOCTYPE tt SYSTEM "nothing.dtd">']
CODECS = ['utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'x-unknown', 'utf-16le', 'cp1252', 'utf-32']


def edit_text(draw, s):
    k = draw(st.integers(0, 8))
    if not s:
        return draw(st.sampled_from(TOKENS))
    i = draw(st.integers(0, len(s)))
    j = min(len(s), i + draw(st.integers(0, 30)))
    if k == 0:
        return s[:i]
    if k == 1:
        return s[:i] + s[j:]
    if k == 2:
        return s[:i] + draw(st.sampled_from(TOKENS)) + s[i:]
    if k == 3:
        return s[:i] + s[i:j] * draw(st.integers(2, 5)) + s[j:]
    if k == 4:
        return s[:i] + draw(st.text(max_size=3)) + s[j:]
    m = list(re.finditer(r'="([^"]*)"', s) if k < 8 else re.finditer(r'</?[\w:]+', s))
    if not m:
        return s[i:]
    m = m[draw(st.integers(0, len(m) - 1))]
    if k < 8:
        return s[:m.start(1)] + ttml.esc(draw(st.sampled_from(JUNK))) + s[m.end(1):]
    # after the name of an element
    return s[:m.end()] + draw(st.sampled_from([t for t in TOKENS if t.startswith(' ')])) + s[m.end():]


@st.composite
def seeds(draw):
    k = draw(st.integers(0, 5))
    if k < 4:
        return ttml.to_xml(draw(C07.cases()))
    if k == 4:
        return C20.message_xml(draw(C20.xmls()))
    return draw(st.sampled_from(TTDS))


TTDS = ['<?xml version="1.0"?><tt xmlns="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" xmlns:tts="http://www.w3.org/ns/ttml#styling" '
       'ttp:timeBase="media" xml:lang="en" ttp:cellResolution="32 15"><head><styling><style xml:id="s0" tts:color="#ffffff"/></styling><layout>'
       '<region xml:id="r0" tts:origin="10% 10%" tts:extent="80% 80%"/></layout></head><body><div style="s0"><p xml:id="p1" region="r0" begin="00:00:01" '
       'end="00:00:02.5">a<br/><span style="s0">b</span></p></div></body></tt>',
       '<tt:tt xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" xmlns:tts="http://www.w3.org/ns/ttml#styling" '
       'ttp:timeBase="media" xml:lang="en"><tt:head><tt:styling><tt:style xml:id="s0"/></tt:styling><tt:layout><tt:region xml:id="r0" tts:origin="0% 0%" '
       'tts:extent="100% 100%"/></tt:layout></tt:head></tt:tt>']
ROOTS = ['<ttm:%s xmlns:ttm="http://www.w3.org/ns/ttml#metadata">x</ttm:%s>' % (t, t) for t in ('title', 'copyright', 'desc', 'agent', 'name', 'actor')] + [
    '<tt:%s xmlns:tt="http://www.w3.org/ns/ttml"/>' % t for t in ('tt', 'ttd', 'head', 'p', 'foo')] + [
    '<ebuttlm:message xmlns:ebuttlm="urn:ebu:tt:livemessage"/>', '<x/>', '<a:b/>', '']


@st.composite
def inputs(draw):
    k = draw(st.integers(0, 13))
    if k == 0:
        return {'b64': base64.b64encode(draw(st.binary(max_size=60))).decode()}
    if k == 1:
        return {'text': draw(st.one_of(st.text(max_size=30), st.sampled_from(ROOTS), st.just('[' * 50)))}
    if k == 2:
        s = draw(seeds())
        codec, decl = draw(st.sampled_from(CODECS)), draw(st.sampled_from(CODECS))
        s = s[s.index('?>') + 2:] if s.startswith('<?xml') else s
        p = draw(st.sampled_from(PROLOG))
        s = (p % decl if '%s' in p else p) + s
        try:
            return {'b64': base64.b64encode(s.encode(codec, 'xmlcharrefreplace')).decode()}
        except LookupError:
            return {'b64': base64.b64encode(s.encode('utf-8')).decode()}
    if k < 7:
        d = draw(C07.cases())
        root = ET.fromstring(ttml.to_xml(d).encode('utf-8'))
        pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
        for _ in range(draw(st.integers(1, 3))):
            c = draw(st.integers(0, 6))
            if c == 0:
                try:
                    rules.BREAK[pick(sorted(rules.BREAK))](root, pick)
                except (IndexError, KeyError):
                    pass
            elif c == 1:
                e = pick(list(root.iter()))
                a = [(x, n) for x in root.iter() for n in x.attrib]
                if a:
                    e, n = pick(a)
                    e.set(n, ''.join(x for x in draw(st.sampled_from(JUNK))))
            elif c > 4:
                # a value that the grammar allows but that is extreme
                a = [(x, n) for x in root.iter() for n in x.attrib if ttml.short(n) in EXTREME] + \
                    [(x, n) for x in rules.els(root, 'body', 'div', 'p', 'span') for n in ('begin', 'end')] + [(root, ttml.q('tts:extent'))]
                e, n = pick(a)
                e.set(n, pick(EXTREME[ttml.short(n)]))
            elif c == 2:
                names = sorted({n for x in root.iter() for n in x.attrib} | {'begin', 'end', 'dur', 'region', 'style', ttml.q('xml:space')})
                pick(list(root.iter())).set(pick(names), draw(st.sampled_from(JUNK)))
            elif c == 3:
                x, y = pick(list(root.iter())), pick(list(root.iter()))
                par = rules.parent_of(root, y)
                if par is not None and all(z is not x for z in y.iter()):
                    par.remove(y)
                    x.insert(draw(st.integers(0, len(x))), y)
            else:
                x = pick(list(root.iter()))
                par = rules.parent_of(root, x)
                if par is not None:
                    par.remove(x)
        s = rules.text_of(root)
    else:
        s = draw(seeds())
        for _ in range(draw(st.integers(1, 4))):
            s = edit_text(draw, s)
    if draw(st.booleans()):
        return {'b64': base64.b64encode(s.encode('utf-8', 'surrogatepass')).decode()}
    return {'text': s}


DOC, TTD, MSG = ('EBUTT3Document', 'tt_type'), ('EBUTTDDocument', 'd_tt_type'), ('EBUTTAuthorsGroupControlRequest', 'NoneType')
# (the base class reads messages and has nothing to say about documents)
RESULTS = {'document': [DOC], 'adapter': [DOC, MSG], 'base': [MSG, ('NoneType', 'NoneType')], 'ttd': [TTD], 'ttdadapter': [TTD]}
HUGE = '9' * 40
TIMES = ['99999999999h', HUGE + 's', '9' * 400 + 'h', '0.' + '0' * 50 + '1s', '99:59:60.999999999', '999999999:00:00', HUGE + ':00:00', '86399999999999999ms', '0' * 60 + 's',
         '2147483648s', '999999999h', '24000000000h']
SIZES = [HUGE + u for u in ('c', '%', 'px')] + ['0c', '0%', '0px', '.0c', '0.' + '0' * 400 + '1c', '9' * 400 + 'px', '9' * 400 + '%']
PAIRS = [s + ' ' + s for s in SIZES]
EXTREME = {'begin': TIMES, 'end': TIMES, 'dur': TIMES, 'tts:fontSize': SIZES + PAIRS, 'tts:lineHeight': SIZES, 'tts:origin': PAIRS, 'tts:extent': PAIRS,
           'tts:padding': SIZES, 'ttp:cellResolution': ['1 1', HUGE + ' 1', '9' * 400 + ' ' + '9' * 400], 'ebuttp:sequenceNumber': [HUGE, '9' * 400],
           'ebuttp:authorsGroupControlToken': [HUGE, '9' * 4000], 'ebutts:linePadding': ['9' * 400 + 'c'], 'ebuttp:sequenceIdentifier': ['{}', '%s', 'x' * 5000],
           'xml:id': ['SEQ1.SEQ1.x', 'x' * 5000, '_'], 'ebuttm:authoringDelay': TIMES}
WAYS = ['document', 'document', 'adapter', 'adapter', 'base', 'ttd', 'ttdadapter']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    return {'in': [dict(draw(inputs()), via=draw(st.sampled_from(WAYS))) for _ in range(n)], 'good': ttml.to_xml(draw(C07.cases())),
            'thread': draw(st.integers(0, 7)) == 0, 'use': draw(st.integers(0, 3)) == 0}


def differ(a, b):
    a, b = a.get('r'), b.get('r') or b
    if not a or 'xml' not in b:
        return str(b)[:500]
    return ['%s: %.300s instead of %.300s' % (k, b[k], a[k]) for k in a if a[k] != b[k]]


def run(w, case, rec):
    r = w.call('swallow', inputs=case['in'], good=case['good'], thread=case['thread'], use=case.get('use', True))
    for i, o in zip(case['in'], r['out']):
        if 'exc' in o and not refused(o['exc']):
            raise Fail('%s: %s: %s %s' % (i['via'], o['exc']['type'], o['exc']['msg'], o['exc']['tb']),
                       sig='%s@%s' % (o['exc']['type'], ' '.join(re.findall(r'(\w+\.py):\d+ (\w+)', str(o['exc']['tb']))[-1:][0]
                                                                if re.findall(r'(\w+\.py):\d+ (\w+)', str(o['exc']['tb'])) else '')))
        if 'r' in o and 'use' in o['r'] and 'exc' in o['r']['use']:
            u = o['r']['use']['exc']
            raise Fail('%s: the document can not be written: %s: %s %s' % (i['via'], u['type'], u['msg'], u['tb']), sig='use:' + u['type'])
        if 'r' in o and (o['r']['kind'], o['r']['root']) not in RESULTS[i['via']]:
            raise Fail('%s: the result is a %s of a %s' % (i['via'], o['r']['kind'], o['r']['root']), sig='kind')
        rec.label('accepted' if 'r' in o else 'refused')
        if 'exc' in o:
            rec.label('refused as ' + o['exc']['type'])
    for what, after in zip(('a document read before', 'a valid document')[-len(r['after']):], r['after']):
        if r['before'] != after:
            raise Fail('%s is treated differently afterwards: %s' % (what, differ(r['before'], after)),
                       sig='after:%s' % what)
    if 'exc' in r['before']:
        raise Fail('a valid document is refused: %s' % r['before'])
    rec.label('used', case.get('use', True))
    for k in ('cut', 'converted', 'retimed'):
        rec.label(k + ' refused', k in r['before']['r'] and len(r['before']['r'][k]) == 2)
    rec.nontrivial(any('exc' in o for o in r['out']) and any(len(i.get('text') or i.get('b64') or '') > 300 for i in case['in']))


# ---------------------------------------------------------------- at the same time
@st.composite
def together(draw):
    return {'goods': [ttml.to_xml(draw(C07.cases())) for _ in range(draw(st.integers(2, 3)))], 'rounds': draw(st.integers(1, 2)),
            'bad': draw(st.lists(inputs().filter(lambda x: 'text' in x).map(lambda x: x['text']), max_size=2))}


def run_together(w, c, rec):
    r = w.call('parallel', **c)
    for a, many in zip(r['alone'], r['together']):
        if 'exc' in a:
            raise Fail('a valid document is refused: %s' % a)
        for b in many:
            if a != b:
                raise Fail('a document is treated differently next to others: %s' % differ(a, b), sig='together')
    for b in r['bad']:
        if 'exc' in b and not refused(b['exc']):
            raise Fail('%s: %s %s' % (b['exc']['type'], b['exc']['msg'], b['exc']['tb']), sig='bad together')
    rec.label('with refused input', any('exc' in b for b in r['bad']))
    rec.nontrivial(len(set(c['goods'])) > 1 and any(len(x) > 1500 for x in c['goods']))


def tests(tier):
    return [Test('inputs', cases, run, quick=850, thorough=40000, rule='histories with a refused input that is based on a document or message'),
            Test('together', together, run_together, quick=45, thorough=1500, rule='different documents at the same time, one of them long')]
