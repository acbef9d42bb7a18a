"""Live messages: fields and XML survive the trip, and invalid ones are refused."""
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml
from vlib.ttml import esc
from vlib.refusal import refused

WORKER = ['message_ops']
LM, PP = 'urn:ebu:tt:livemessage', 'urn:ebu:tt:parameters'
TYPE = 'authorsGroupControlRequest'

TEXT = st.one_of(st.sampled_from(['request', 'a b', ' padded ', 'line\nbreak', '<tt:tt/>', 'a & b', ']]>', '"q\'', u'\u00e9\u65e5\U0001F600',
                                  'tab\there', '&amp;', '-->', 'x' * 500]),
                 st.text(st.characters(blacklist_categories=['Cs', 'Cc'], blacklist_characters='\ufffe\uffff'), min_size=1, max_size=30))
IDS = st.sampled_from(['S1', 'seq_2', u's\u00e9q', 'A-b.c'])


def payloads():
    return st.one_of(TEXT, TEXT, st.just(''))


# ---------------------------------------------------------------- fields
@st.composite
def made(draw):
    return {'sid': draw(IDS), 'payload': draw(payloads()), 'sender': draw(st.one_of(st.none(), TEXT)),
            'recipient': draw(st.one_of(st.none(), st.lists(TEXT, min_size=1, max_size=3))),
            'avail': draw(st.one_of(st.none(), st.integers(0, 86399999999)))}


def want_fields(c, avail):
    return {'type': 'EBUTTAuthorsGroupControlRequest', 'sid': c['sid'], 'sender': c['sender'], 'recipient': c['recipient'] or [],
            'payload': c['payload'], 'avail': avail, 'header': TYPE, 'is_doc': False}


def check(what, got, want):
    for k in want:
        if got[k] != want[k]:
            raise Fail('%s: %s is %r instead of %r' % (what, k, got[k], want[k]))


def tree(e):
    """an element with its text, without the white space between elements of the header"""
    if e.tag == '{%s}payload' % LM:
        return canon(e)
    text = (e.text or '') if not len(e) else ''
    return [e.tag, sorted(e.attrib.items()), text, [tree(x) for x in e]]


def canon(e):
    return [e.tag, sorted(e.attrib.items()), e.text or '', [canon(x) + [x.tail or ''] for x in e]]


def run_made(w, c, rec):
    m = w.call('message_make', **c)
    check('created', m['f'], want_fields(c, c['avail']))
    xmls = [m['xml'], m['dom']]
    for via in ('base', 'adapter'):
        for x in xmls:
            r = w.call('message_read', xml=x, via=via, avail=c['avail'])
            check('read by %s' % via, r['f'], want_fields(c, c['avail']))
            if r['xml'] != m['xml']:
                raise Fail('XML changed from %r to %r' % (m['xml'], r['xml']))
    e = ET.fromstring(m['xml'].encode('utf8'))
    n = lambda l: '{%s}%s' % (LM, l)
    want = [n('message'), [('{%s}sequenceIdentifier' % PP, c['sid'])], '', [
        [n('header'), [], '', [[n('sender'), [], c['sender'], []]] * (c['sender'] is not None) +
         [[n('recipient'), [], x, []] for x in c['recipient'] or ()] + [[n('type'), [], TYPE, []]]],
        [n('payload'), [], c['payload'], []]]]
    if tree(e) != want:
        raise Fail('XML holds %s instead of %s' % (tree(e), want))
    rec.nontrivial(c['sender'] and c['recipient'])


# ---------------------------------------------------------------- XML
@st.composite
def frag(draw, depth=0):
    out = ''
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 5))
        if k < 3:
            out += esc(draw(TEXT))
        elif k == 3:
            out += '<![CDATA[%s]]>' % draw(TEXT).replace(']]>', '')
        elif depth < 2:
            out += '<x%s%s>%s</x>' % (draw(st.sampled_from(['', ' xmlns="urn:x"'])), draw(st.sampled_from(['', ' a="1"'])), draw(frag(depth + 1)))
    return out


def message_xml(c):
    h = ''
    if c['sender'] is not None:
        h += '<m:sender>%s</m:sender>' % esc(c['sender'])
    for r in c['recipient'] or ():
        h += '<m:recipient>%s</m:recipient>' % esc(r)
    h += '<m:type>%s</m:type>' % c.get('type', TYPE)
    return '<?xml version="1.0" encoding="UTF-8"?><m:message xmlns:m="%s" xmlns:p="%s" p:sequenceIdentifier="%s">%s<m:header>%s</m:header>%s<m:payload>%s</m:payload></m:message>' % (
        LM, PP, esc(c['sid']), c['ws'], h, c['ws'], c['frag'])


@st.composite
def xmls(draw):
    return {'sid': draw(IDS), 'frag': draw(frag()), 'sender': draw(st.one_of(st.none(), TEXT)),
            'recipient': draw(st.lists(TEXT, max_size=3)), 'ws': draw(st.sampled_from(['', '\n  '])),
            'avail': draw(st.one_of(st.none(), st.integers(0, 86399999999))), 'via': draw(st.sampled_from(['base', 'adapter']))}


def run_xml(w, c, rec):
    x = message_xml(c)
    r = w.attempt('message_read', xml=x, via=c['via'], avail=c['avail'], sid=c['sid'])
    if 'exc' in r:
        raise Fail('valid message refused: %s %s' % (r['exc']['type'], r['exc']['msg']))
    r = r['r']
    e = ET.fromstring(x.encode('utf8'))
    pe = e.find('{%s}payload' % LM)
    mixed = len(pe) > 0
    want = want_fields(dict(c, payload=None), c['avail'])
    if mixed:
        del want['payload']
    else:
        want['payload'] = pe.text or ''
    check('read', r['f'], want)
    for k in ('xml', 'dom'):
        g = ET.fromstring(r[k].encode('utf8'))
        a, b = tree(g), tree(e)
        if mixed:
            # elements may be indented in the output, text may not be lost
            a, b = squeeze(a), squeeze(b)
        if a != b:
            raise Fail('%s: content %s instead of %s' % (k, a, b), 'mixed-payload' if mixed else None)
    rec.label('payload with elements', mixed)
    rec.nontrivial(c['frag'].strip() and (mixed or c['recipient']))


def squeeze(t):
    if isinstance(t, str):
        return ' '.join(t.split())
    if isinstance(t, (list, tuple)):
        return [squeeze(x) for x in t]
    return t


# ---------------------------------------------------------------- refusal
MUT = {
    'no-sid': lambda x: x.replace(' p:sequenceIdentifier="S1"', ''),
    'no-type': lambda x: x.replace('<m:type>%s</m:type>' % TYPE, ''),
    'no-header': lambda x: x[:x.index('<m:header')] + x[x.index('</m:header>') + 11:],
    'no-payload': lambda x: x[:x.index('<m:payload')] + '</m:message>',
    'two-payloads': lambda x: x.replace('</m:message>', '<m:payload>x</m:payload></m:message>'),
    'unknown-attribute': lambda x: x.replace('<m:header>', '<m:header foo="1">'),
    'type-value': lambda x: x.replace('<m:type>%s' % TYPE, '<m:type>not an ncname'),
    'unknown-type': lambda x: x.replace('<m:type>%s' % TYPE, '<m:type>somethingElse'),
    'order': lambda x: x.replace('<m:header>', '<m:header><m:type>%s</m:type>' % TYPE, 1).replace('<m:type>%s</m:type></m:header>' % TYPE, '<m:sender>z</m:sender></m:header>'),
    'truncated': lambda x: x[:len(x) // 2],
    'root': lambda x: x.replace('m:message', 'm:massage'),
    'namespace': lambda x: x.replace(LM, LM + 'x'),
    'extra-element': lambda x: x.replace('</m:header>', '<m:foo/></m:header>'),
    'wrong-sid': None,
}


@st.composite
def bad(draw):
    c = draw(xmls())
    c['sid'] = 'S1'
    c['mut'] = draw(st.sampled_from(sorted(MUT)))
    if c['mut'] == 'wrong-sid':
        c['via'] = 'adapter'
    return c


def run_bad(w, c, rec):
    x = message_xml(c)
    sid = 'S1'
    if c['mut'] == 'wrong-sid':
        sid = 'S2'
    else:
        x = MUT[c['mut']](x)
    r = w.attempt('message_read', xml=x, via=c['via'], sid=sid)
    if 'exc' not in r:
        raise Fail('invalid message (%s) accepted' % c['mut'])
    if c['mut'] == 'wrong-sid':
        if 'UnexpectedSequenceIdentifierError' not in r['exc']['mro']:
            raise Fail('wrong sequence: %s' % r['exc']['type'])
    elif not refused(r['exc']):
        raise Fail('invalid message (%s) ended in %s: %s %s' % (c['mut'], r['exc']['type'], r['exc']['msg'], r['exc']['tb']))
    good = w.call('message_read', xml=message_xml(c), via=c['via'], sid='S1')
    if good['f']['sid'] != 'S1':
        raise Fail('next message misread')
    rec.label(c['mut'])
    rec.nontrivial(True)


# ---------------------------------------------------------------- told apart
@st.composite
def kinds(draw):
    return {'m': draw(xmls()), 'd': {'sid': draw(IDS), 'num': draw(st.integers(1, 9)), 'tb': 'media', 'body': None},
            'order': draw(st.lists(st.sampled_from('md'), min_size=2, max_size=5)), 'avail': draw(st.integers(0, 10 ** 10))}


def run_kinds(w, c, rec):
    for k in c['order']:
        x = message_xml(c['m']) if k == 'm' else ttml.to_xml(c['d'])
        r = w.call('message_read', xml=x, via='adapter', avail=c['avail'])
        sid = c[k]['sid']
        if r['f']['is_doc'] != (k == 'd') or r['f']['sid'] != sid or r['f']['avail'] != c['avail']:
            raise Fail('%s read as %s' % (k, r['f']))
    rec.nontrivial(len(set(c['order'])) == 2)


def tests(tier):
    return [Test('fields', made, run_made, quick=500, thorough=10000, weight=2, rule='sender and recipients'),
            Test('xml', xmls, run_xml, quick=600, thorough=12000, rule='payload with elements or recipients'),
            Test('refused', bad, run_bad, quick=400, thorough=6000, rule='all'),
            Test('kinds', kinds, run_kinds, quick=150, thorough=2000, weight=2, rule='documents and messages')]
