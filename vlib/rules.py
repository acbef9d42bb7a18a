"""Single-rule mutations of valid EBU-TT Part 3 documents: what breaks each rule at any place, and what must not matter.

Every mutation gets a fresh element tree of a valid document and a `pick` function that chooses from a list; it changes the tree in place
and returns true, or returns None if the document has no place for it. The rules are those of the XML schemas that come with the toolkit
and its documented semantic rules (time base, clock mode, unique ids, references, pixel lengths). Nothing here uses the toolkit.
"""
import copy
import xml.etree.ElementTree as ET
from . import ttml
from .ttml import q

for _p, _u in ttml.NS.items():
    if _p != 'xml':
        ET.register_namespace(_p, _u)

BREAK = {}
KEEP = {}


def breaks(*names):
    def deco(f):
        for n in names or (f.__name__,):
            BREAK[n] = f
        return f
    return deco


def keeps(f):
    KEEP[f.__name__] = f
    return f


def els(root, *tags):
    t = {q('tt:' + x) for x in tags}
    return [e for e in root.iter() if e.tag in t]


def parent_of(root, e):
    for x in root.iter():
        for c in x:
            if c is e:
                return x


def new(tag, **a):
    e = ET.Element(q('tt:' + tag))
    for k, v in a.items():
        e.set(k, v)
    return e


def table(where, values):
    """one mutation per attribute: set it to a value outside of its grammar at some element of the kind"""
    for attr, vals in values.items():
        def f(root, pick, attr=attr, vals=vals):
            e = els(root, *where)
            if not e:
                return None
            pick(e).set(q(attr), pick(vals))
            return True
        BREAK['%s of %s' % (attr, '/'.join(where))] = f


LANG = ['not a lang!', 'e_n', '-en', 'toolonglanguage']
table(['tt'], {
    'ttp:timeBase': ['', 'frames', 'CLOCK', 'clock media', 'none'],
    'ttp:clockMode': ['', 'lokal', 'LOCAL', 'auto'],
    'ttp:frameRate': ['0', '-25', 'x', '25.5', ''],
    'ttp:frameRateMultiplier': ['1.5 1', '-1 1', '10001001', '0 1', '1', ''],
    'ttp:cellResolution': ['32', '0 15', '32 0', '-1 5', '32.5 15', '32x15', 'x', '', '32 15 3'],
    'tts:extent': ['10% 10%', '10c 10c', '640px', 'auto', '640px 480', '-1px 5px', '640 480', ''],
    'xml:lang': LANG, 'xml:space': ['keep', '', 'Default'],
    'ebuttp:sequenceIdentifier': [''],
    'ebuttp:sequenceNumber': ['0', '-1', '', 'abc', '1.5', '1e3', '0x10'],
    'ebuttp:authorsGroupIdentifier': [''],
    'ebuttp:authorsGroupControlToken': ['0', '-2', 'x', '', '1.5'],
    'ebuttm:authorsGroupSelectedSequenceIdentifier': [''],
    'ebuttm:authoringDelay': ['5', 's', '1:00', '--5s', '5 s', '', '00:00:01', '5sec'],
})
table(['style'], {
    'tts:color': ['bluish', '#12345', '#1234567', 'rgb(256,0,0)', 'rgba(1,2,3)', 'rgb(1,2)', '', 'Red', '#gggggg', 'rgb(-1,0,0)', '#123'],
    'tts:backgroundColor': ['bluish', '#12345', 'rgb(256,0,0)', 'rgba(1,2,3)', '', 'rgba(1,2,3,256)'],
    'tts:fontSize': ['10', '10em', '1c 2px', '-1c', '1c 2c 3c', 'c', '', '1.c', '1c2c', '50 %', 'big'],
    'tts:lineHeight': ['1', 'none', '-10%', '1c 2c', '', '+1c', 'Normal', 'c'],
    'tts:textAlign': ['middle', '', 'Left', 'left right'], 'tts:fontStyle': ['slanted', '', 'oblique'],
    'tts:fontWeight': ['700', 'bolder', ''], 'tts:textDecoration': ['blink', '', 'underline none'],
    'tts:direction': ['up', '', 'lr'], 'tts:unicodeBidi': ['override', '', 'Embed'], 'tts:wrapOption': ['nowrap', '', 'no'],
    'tts:padding': ['1em', '1px 1px 1px 1px 1px', '1', '1c,2c', 'auto'],
    'ebutts:multiRowAlign': ['justify', '', 'left'], 'ebutts:linePadding': ['1px', '1', '-1c', '', '1c 1c'],
    'style': ['', '1x', 'a/b', '#s0'], 'xml:id': ['', '1a', 'a b', 'a:b', '#x'],
})
table(['region'], {
    'tts:origin': ['10', '10%', 'auto', '1c 2px', '', '10% 10', '1c 2c 3c'],
    'tts:extent': ['10', '10%', 'auto', '1c 2%', '', '-10% 10%', '10 10'],
    'tts:displayAlign': ['middle', '', 'top'], 'tts:padding': ['1em', '1', '1c 1c 1c 1c 1c'],
    'tts:writingMode': ['up', '', 'lrbt'], 'tts:showBackground': ['never', ''], 'tts:overflow': ['scroll', 'auto', ''],
    'style': ['', '1x', '#s0'], 'xml:id': ['', '1a', 'a b', 'a:b'],
})
table(['p', 'span'], {'xml:space': ['keep', ''], 'xml:lang': LANG})
table(['p', 'span', 'div'], {'xml:id': ['', '1a', 'a b', 'a:b', '<']})
table(['p', 'span', 'div', 'body'], {'style': ['', '1x', '#s0', 's0,s1']})
table(['p', 'div'], {'region': ['', '1x', '#r0', 'r0 r1']})
BADTIME = ['', 'abc', '1:00:00', '00:60:00', '00:00:61', '5', '-5s', '5 s', '1e3s', '10:00', '00:00:00.', '.5s', '5.s', '5d', '+5s', '\u0665s',
           '00:00:01,5', '00-00-01', 's', 'now', '00:00:00;', 'indefinite', '00:00:0\u0661']


def timed_attr(attr, tags):
    @breaks('%s of timed elements' % attr)
    def f(root, pick):
        e = pick(els(root, *tags) or [None])
        if e is None:
            return None
        vals = BADTIME + ['00:00:00:00', '10:00:00:24'] + (['100:00:00', '123:00:00.5'] if root.get(q('ttp:timeBase')) == 'clock' else [])
        e.set(attr, pick(vals))
        return True


timed_attr('begin', ['body', 'div', 'p', 'span'])
timed_attr('end', ['body', 'div', 'p', 'span'])
timed_attr('dur', ['body'])


@breaks('dur below body')
def _(root, pick):
    e = els(root, 'div', 'p', 'span')
    if e:
        pick(e).set('dur', '5s')
        return True


@breaks('required attribute missing')
def _(root, pick):
    sites = [(root, a) for a in ('xml:lang', 'ttp:timeBase', 'ebuttp:sequenceIdentifier', 'ebuttp:sequenceNumber')]
    sites += [(e, 'xml:id') for e in els(root, 'style', 'p', 'region')]
    sites += [(e, a) for e in els(root, 'region') for a in ('tts:origin', 'tts:extent')]
    e, a = pick(sites)
    # an id that something refers to may be missed there first: both are wrong
    del e.attrib[q(a)]
    return True


@breaks('clock mode missing or in the way')
def _(root, pick):
    if root.get(q('ttp:timeBase')) == 'clock':
        del root.attrib[q('ttp:clockMode')]
    else:
        root.set(q('ttp:clockMode'), pick(['local', 'utc', 'gps']))
    return True


@breaks('smpte attributes without smpte')
def _(root, pick):
    a, v = pick([('ttp:dropMode', 'nonDrop'), ('ttp:dropMode', 'dropNTSC'), ('ttp:markerMode', 'continuous'), ('ttp:markerMode', 'discontinuous')])
    root.set(q(a), v)
    return True


def make_smpte(root):
    root.set(q('ttp:timeBase'), 'smpte')
    root.attrib.pop(q('ttp:clockMode'), None)
    for a, v in (('ttp:frameRate', '25'), ('ttp:frameRateMultiplier', '1 1'), ('ttp:dropMode', 'nonDrop'), ('ttp:markerMode', 'continuous')):
        root.set(q(a), v)
    for e in els(root, 'body', 'div', 'p', 'span'):
        for a in ('begin', 'end', 'dur'):
            e.attrib.pop(a, None)


@breaks('smpte attributes missing or wrong')
def _(root, pick):
    make_smpte(root)
    a = q(pick(['ttp:frameRate', 'ttp:dropMode', 'ttp:markerMode']))
    if pick([True, False]):
        del root.attrib[a]
    else:
        root.set(a, pick(['', 'x', '-1']))
    return True


@breaks('times of another kind in smpte')
def _(root, pick):
    e = els(root, 'body', 'div', 'p', 'span')
    if not e:
        return None
    make_smpte(root)
    pick(e).set(pick(['begin', 'end']), pick(['5s', '00:00:01', '00:00:01.5', '24:00:00:00', '00:00:00:0', '100ms']))
    return True


@breaks('unknown attribute')
def _(root, pick):
    # (styles and regions take any attribute: the schema allows those of other namespaces, and PyXB counts no namespace as another one)
    e = pick(els(root, 'tt', 'head', 'styling', 'layout', 'body', 'div', 'p', 'span', 'br'))
    names = ['foo', 'id', 'lang', 'timeBase', '{http://www.w3.org/ns/ttml}region']
    names += ['{urn:x}foo', q('tts:opacity'), q('xml:base'), q('tts:zIndex')]
    if e.tag != q('tt:tt'):
        names += [q('ttp:timeBase'), q('tts:extent'), q('ebuttp:sequenceNumber')]
    if e.tag in (q('tt:tt'), q('tt:head'), q('tt:styling'), q('tt:layout'), q('tt:br')):
        names += ['begin', 'end', 'dur', 'style', 'region', q('xml:id')]
    if e.tag in (q('tt:body'), q('tt:span')):
        names += ['region']
    if e.tag in (q('tt:body'), q('tt:div')):
        names += [q('xml:lang'), q('xml:space'), q('tts:color')]
    e.set(pick(names), pick(['1', 'x']))
    return True


@breaks('element out of place')
def _(root, pick):
    allowed = {'tt': ['head', 'body'], 'head': ['metadata', 'styling', 'layout'], 'styling': ['metadata', 'style'], 'style': ['metadata'],
               'layout': ['metadata', 'region'], 'region': ['metadata'], 'body': ['metadata', 'div'], 'div': ['metadata', 'div', 'p'],
               'p': ['metadata', 'br', 'span'], 'span': ['metadata', 'br', 'span'], 'br': ['metadata']}
    e = pick(els(root, *allowed))
    kind = ttml.short(e.tag)[3:]
    tag = pick([t for t in list(allowed) + ['set', 'foo'] if t not in allowed[kind]])
    n = new(tag)
    if tag in ('p', 'style', 'region'):
        n.set(q('xml:id'), 'fresh')
    if tag == 'region':
        n.set(q('tts:origin'), '0% 0%')
        n.set(q('tts:extent'), '10% 10%')
    if pick([0, 0, 0, 1]):
        n.tag = pick(['{urn:x}p', 'p', '{urn:x}foo', '{http://www.w3.org/2006/10/ttaf1}p'])
    e.insert(pick(list(range(len(e) + 1))), n)
    return True


@breaks('text out of place')
def _(root, pick):
    e = pick(els(root, 'tt', 'head', 'styling', 'style', 'layout', 'region', 'body', 'div', 'br'))
    i = pick(list(range(len(e) + 1)))
    t = pick(['text', '.', '0'])
    if i == 0:
        e.text = (e.text or '') + t
    else:
        e[i - 1].tail = (e[i - 1].tail or '') + t
    return True


@breaks('order or number of elements')
def _(root, pick):
    head = els(root, 'head')[0]
    sites = ['no head', 'two heads']
    if els(root, 'body'):
        sites += ['body first', 'two bodies']
    if len([x for x in head if x.tag in (q('tt:styling'), q('tt:layout'))]) == 2:
        sites += ['layout first', 'layout first']
    if els(root, 'styling'):
        sites += ['two stylings', 'no styles']
    if els(root, 'layout'):
        sites += ['two layouts']
    k = pick(sites)
    if k == 'no head':
        root.remove(head)
    elif k == 'two heads':
        root.insert(0, new('head'))
    elif k == 'body first':
        b = els(root, 'body')[0]
        root.remove(b)
        root.insert(0, b)
    elif k == 'two bodies':
        root.append(new('body'))
    elif k == 'layout first':
        lay = els(root, 'layout')[0]
        head.remove(lay)
        head.insert(list(head).index(els(root, 'styling')[0]), lay)
    elif k == 'two stylings':
        head.insert(list(head).index(els(root, 'styling')[0]), copy.deepcopy(els(root, 'styling')[0]))
    elif k == 'two layouts':
        head.append(new('layout'))
    else:
        for s in els(root, 'style'):
            els(root, 'styling')[0].remove(s)
    return True


@breaks('metadata not first or twice')
def _(root, pick):
    e = pick(els(root, 'styling', 'layout', 'body', 'div', 'p', 'span'))
    kids = [c for c in e if c.tag != q('tt:metadata')]
    if not kids or pick([0, 1]):
        e.insert(0, new('metadata'))
        e.insert(0, new('metadata'))
    else:
        e.append(new('metadata'))
    return True


@breaks('id used twice')
def _(root, pick):
    have = [e for e in els(root, 'style', 'region', 'div', 'p', 'span') if q('xml:id') in e.attrib]
    other = els(root, 'style', 'region', 'div', 'p', 'span')
    pairs = [(a, b) for a in have for b in other if a is not b]
    if not pairs:
        return None
    a, b = pick(pairs)
    b.set(q('xml:id'), a.get(q('xml:id')))
    return True


def _ids(root, *tags):
    return [e.get(q('xml:id')) for e in els(root, *tags) if q('xml:id') in e.attrib]


@breaks('reference to nothing or to the wrong kind')
def _(root, pick):
    sites = [(e, 'style') for e in els(root, 'body', 'div', 'p', 'span', 'region')] + [(e, 'region') for e in els(root, 'div', 'p')]
    if not sites:
        return None
    e, a = pick(sites)
    wrong = ['missing', 'S0'] + _ids(root, 'div', 'p', 'span') + (_ids(root, 'region') if a == 'style' else _ids(root, 'style'))
    v = pick(wrong)
    if a == 'style' and e.get('style') and pick([0, 1]):
        v = pick(['%s %s', '%s %s']) % ((e.get('style'), v) if pick([0, 1]) else (v, e.get('style')))
    e.set(a, v)
    return True


@breaks('broken or circular style reference')
def _(root, pick):
    """on a chain that some element or region uses"""
    styles = {e.get(q('xml:id')): e for e in els(root, 'style')}
    users = els(root, 'body', 'div', 'p', 'span', 'region')
    if not styles or not users:
        return None
    u = pick(users)
    if not u.get('style'):
        u.set('style', pick(list(styles)))
    chain = [u.get('style').split()[0]]
    while styles[chain[-1]].get('style') and pick([0, 1]):
        chain.append(pick(styles[chain[-1]].get('style').split()))
    s = styles[chain[-1]]
    v = pick(['missing', pick(chain), pick(chain)])
    s.set('style', ('%s %s' % (s.get('style'), v)) if s.get('style') and pick([0, 1]) else v)
    return True


@breaks('pixel lengths without the extent of the document')
def _(root, pick):
    sites = [(e, a) for e in els(root, 'style') for a in ('tts:fontSize', 'tts:lineHeight')]
    sites += [(e, a) for e in els(root, 'region') for a in ('tts:origin', 'tts:extent')]
    if not sites:
        return None
    root.attrib.pop(q('tts:extent'), None)
    e, a = pick(sites)
    e.set(q(a), '20px' if e.tag == q('tt:style') else '20px 30px')
    return True


@breaks('document metadata')
def _(root, pick):
    head = els(root, 'head')[0]
    for m in [c for c in head if c.tag == q('tt:metadata')]:
        head.remove(m)
    k = pick(['order', 'version', 'facet', 'processing', 'unknown', 'speed', 'start', 'date'])
    body = {'order': '<ebuttm:documentIdentifier>x</ebuttm:documentIdentifier><ebuttm:documentEbuttVersion>v1.0</ebuttm:documentEbuttVersion>',
            'version': '<ebuttm:documentEbuttVersion>v%s</ebuttm:documentEbuttVersion>' % pick(['2', '1.1', '']),
            'facet': '<ebuttm:documentFacet summary="%s">x</ebuttm:documentFacet>' % pick(['has', 'all', '']),
            'processing': '<ebuttm:appliedProcessing %s/>' % pick(['process="x"', 'generatedBy="urn:x"', '']),
            'unknown': pick(['<ebuttm:documentFoo/>', '<tt:p xml:id="mm"/>', 'text']),
            'speed': '<ebuttm:documentReadingSpeed>%s</ebuttm:documentReadingSpeed>' % pick(['0', '-1', 'x', '']),
            'start': '<ebuttm:documentStartOfProgramme>%s</ebuttm:documentStartOfProgramme>' % pick(['x', '', '5', '24:00:00:00:00']),
            'date': '<ebuttm:documentCreationDate>%s</ebuttm:documentCreationDate>' % pick(['yesterday', '2017-13-01', '']),
            }[k]
    head.insert(0, ET.fromstring('<tt:metadata xmlns:tt="%s" xmlns:ebuttm="%s"><ebuttm:documentMetadata>%s</ebuttm:documentMetadata></tt:metadata>'
                                 % (ttml.NS['tt'], ttml.NS['ebuttm'], body)))
    return True


@breaks('root element')
def _(root, pick):
    root.tag = pick(['{http://www.w3.org/ns/ttml}body', '{http://www.w3.org/ns/ttml}head', '{http://www.w3.org/ns/ttml}foo', 'tt', '{urn:x}tt',
                     '{http://www.w3.org/2006/10/ttaf1}tt'])
    return True


# ---------------------------------------------------------------- what must not matter
@keeps
def nothing(root, pick):
    return True


@keeps
def comments(root, pick):
    for _ in range(pick([1, 2, 4])):
        e = pick(list(root.iter()))
        if not isinstance(e.tag, str):
            continue
        c = ET.Comment(' note ') if pick([0, 1]) else ET.ProcessingInstruction('pi', 'x="y"')
        e.insert(pick(list(range(len(e) + 1))), c)
    return True


@keeps
def indentation(root, pick):
    for e in els(root, 'tt', 'head', 'styling', 'layout', 'body', 'div'):
        if len(e):
            e.text = '\n  '
            for c in e:
                c.tail = '\n\t '
    return True


@keeps
def foreign_attributes_of_styles(root, pick):
    e = els(root, 'style', 'region')
    if e:
        pick(e).set(pick(['{urn:x}foo', q('tts:opacity'), q('xml:base'), q('tts:zIndex')]), pick(['', 'x', '1']))
        return True


@keeps
def smpte(root, pick):
    make_smpte(root)
    a = pick([('25', '1 1', 'nonDrop', 'continuous'), ('30', '1000 1001', 'dropNTSC', 'discontinuous'), ('30', '1000 1001', 'dropPAL', 'continuous')])
    for k, v in zip(('ttp:frameRate', 'ttp:frameRateMultiplier', 'ttp:dropMode', 'ttp:markerMode'), a):
        root.set(q(k), v)
    return True


@keeps
def frame_rate(root, pick):
    root.set(*pick([(q('ttp:frameRate'), '25'), (q('ttp:frameRateMultiplier'), '1000 1001')]))
    return True


@keeps
def boundary_times(root, pick):
    e = els(root, 'body', 'div', 'p', 'span')
    if not e:
        return None
    e = pick(e)
    e.attrib.pop('end', None)
    e.attrib.pop('dur', None)
    vals = ['00:00:60', '99:59:59', '00:59:59.999', '0s', '000.50ms', '99h', '0.000001s', '00:00:00.000000001', '12345678ms', '0m', '00:00:00']
    if root.get(q('ttp:timeBase')) == 'media':
        vals += ['100:00:00', '1000:59:60.5']
    e.set('begin', pick(vals))
    return True


@keeps
def boundary_values(root, pick):
    sites = [(root, a, v) for a, v in (('ttp:cellResolution', '1 1'), ('ttp:cellResolution', '007 0300'), ('ebuttp:sequenceNumber', '007'),
                                       ('ebuttp:sequenceNumber', '9' * 30), ('ebuttp:sequenceNumber', '+5'), ('xml:lang', ''),
                                       ('xml:lang', 'zh-Hant-TW'), ('ebuttm:authoringDelay', '+0.5h'), ('ebuttm:authoringDelay', '-0s'),
                                       ('ebuttp:authorsGroupControlToken', '1'), ('ebuttp:sequenceIdentifier', ' '))]
    for e in els(root, 'style'):
        sites += [(e, a, v) for a, v in (('tts:color', 'rgb(0,0,0)'), ('tts:color', 'rgba(255, 255, 255, 255)'), ('tts:color', 'rgb(007,09,1)'),
                                         ('tts:fontSize', '+1c'), ('tts:fontSize', '.5% 12.25%'), ('tts:lineHeight', '.5c'),
                                         ('tts:padding', '-1px +1c .5% 0c'), ('tts:fontFamily', ''), ('ebutts:linePadding', '.0c'))]
    for e in els(root, 'region'):
        sites += [(e, a, v) for a, v in (('tts:origin', '-10% +150.5%'), ('tts:extent', '+0% 200%'), ('tts:origin', '.5c .25c'))]
    e, a, v = pick(sites)
    e.set(q(a), v)
    return True


@keeps
def metadata(root, pick):
    e = pick(els(root, 'styling', 'style', 'layout', 'region', 'body', 'div', 'p', 'span', 'br') or [None])
    if e is None or (len(e) and e[0].tag == q('tt:metadata')):
        return None
    e.insert(0, new('metadata'))
    if e.text:
        # the text follows the metadata
        e[0].tail, e.text = e.text, None
    return True


@keeps
def unused_styles(root, pick):
    s = els(root, 'styling')
    if not s:
        return None
    s[0].append(ET.fromstring('<style xmlns="%s" xml:id="unused1"/>' % ttml.NS['tt']))
    return True


def text_of(root):
    return ET.tostring(root, encoding='unicode')
