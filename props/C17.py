"""Which nodes and carriages connect, and what arrives after conversion."""
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from vlib.refusal import refused
from props import C07, C20, C12

WORKER = ['link_ops', 'message_ops']
SEC = 1000000
KINDS = ['text', 'ebutt3', 'ebuttd', 'other', 'any']
AD = {'x3': ('text', 'ebutt3'), 'xd': ('text', 'ebuttd'), '3x': ('ebutt3', 'text'), 'dx': ('ebuttd', 'text'), '3d': ('ebutt3', 'ebuttd')}
KW = {'sequence_number': 7, 'x': 'y', 'delay': 2.5, 'clock_mode': 'q'}


def same(a, b):
    return a == b or 'any' in (a, b)


def bridged(src, dst, adapters):
    """does the chain (None: found automatically) lead from src to dst"""
    if adapters is None:
        return same(src, dst) or (src, dst) in AD.values()
    if not adapters:
        return same(src, dst)
    for a, b in zip(adapters, adapters[1:]):
        if AD[a][1] != AD[b][0]:
            return False
    return same(src, AD[adapters[0]][0]) and same(dst, AD[adapters[-1]][1])


@st.composite
def links(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        ad = None
    elif k == 1:
        ad = draw(st.lists(st.sampled_from(sorted(AD)), max_size=4))
    else:
        # a chain that fits, perhaps with one wrong link
        ad = [draw(st.sampled_from(sorted(AD)))]
        for _ in range(draw(st.integers(0, 4))):
            n = [a for a in AD if AD[a][0] == AD[ad[-1]][1]]
            ad.append(draw(st.sampled_from(sorted(n))))
        if draw(st.integers(0, 3)) == 0:
            ad[draw(st.integers(0, len(ad) - 1))] = draw(st.sampled_from(sorted(AD)))
    a, b = draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS))
    if ad and draw(st.booleans()):
        a, b = AD[ad[0]][0], AD[ad[-1]][1]
    return {'dir': draw(st.sampled_from(['in', 'out'])), 'src': a, 'dst': b, 'adapters': ad}


def run_link(w, c, rec):
    node, carriage = (c['dst'], c['src']) if c['dir'] == 'in' else (c['src'], c['dst'])
    r = w.call('connect', direction=c['dir'], node=node, carriage=carriage, adapters=c['adapters'])
    want = bridged(c['src'], c['dst'], c['adapters'])
    if want:
        if 'exc' in r:
            raise Fail('%s to %s through %s refused: %s' % (c['src'], c['dst'], c['adapters'], r['exc']['msg']))
        if not (r['node'] and r['carriage']):
            raise Fail('not connected on both sides: %s' % r)
        if c['dir'] == 'out' and r['pulled'] != 1:
            raise Fail('resume_producing reached the node %d times' % r['pulled'])
    else:
        if 'DataCompatError' not in r.get('exc', {}).get('mro', ()):
            raise Fail('%s to %s through %s: %s' % (c['src'], c['dst'], c['adapters'], r.get('exc') or 'connected'))
        if r['node'] or r['carriage']:
            raise Fail('refused but registered: %s' % r)
    n = len(c['adapters'] or ())
    rec.label('bridged by %s' % ('itself' if c['adapters'] is None else n), want)
    rec.label('refused', not want)
    rec.nontrivial(n > 1 or (c['adapters'] is None and c['src'] != c['dst']))


@st.composite
def plain(draw):
    return {'dir': draw(st.sampled_from(['in', 'out'])), 'node': draw(st.sampled_from(KINDS)), 'carriage': draw(st.sampled_from(KINDS)),
            'what': draw(st.sampled_from(['carriage'] * 4 + ['node', 'sink']))}


def run_plain(w, c, rec):
    r = w.call('connect_plain', direction=c['dir'], node=c['node'], carriage=c['carriage'], what=c['what'])
    mro = r.get('exc', {}).get('mro', ())
    if c['what'] != 'carriage':
        if 'ComponentCompatError' not in mro or r['node']:
            raise Fail('connected to something that is no carriage of this direction: %s' % r)
    elif same(c['node'], c['carriage']):
        if mro or not (r['node'] and r['carriage']):
            raise Fail('%s' % r)
    elif 'DataCompatError' not in mro or r['node'] or r['carriage']:
        raise Fail('%s and %s: %s' % (c['node'], c['carriage'], r))
    rec.label('refused', bool(mro))
    rec.nontrivial(mro)


# ---------------------------------------------------------------- data
CHAINS = [['x3'], ['3x'], ['x3', '3x'], ['3x', 'x3'], ['3x', 'x3', '3x'], ['x3', '3x', 'x3'], ['3d'], ['x3', '3d'], ['x3', '3d', 'dx'], ['3d', 'dx'],
          ['3d', 'dx', 'xd'], ['x3', '3d', 'dx', 'xd', 'dx'], ['3x', 'x3', '3d', 'dx', 'xd']]


@st.composite
def conveyed(draw):
    chain = draw(st.sampled_from(CHAINS))
    # without a media clock the time zero is the time at which the adapter is made: only media times are converted then
    zero = draw(st.sampled_from([None, 0, 3600 * SEC, 1500000]))
    auto = len(chain) == 1 and draw(st.booleans())
    d_ = 'd' in ''.join(chain)
    items = []
    for i in range(draw(st.integers(1, 3))):
        if d_:
            ps = []
            for j in range(draw(st.integers(1, 3))):
                b = draw(st.integers(0, 10 ** 5)) + (zero or 0) // 1000
                c = []
                for _ in range(draw(st.integers(1, 3))):
                    t = draw(ttml.texts) if hasattr(ttml, 'texts') else draw(st.sampled_from(['one', 'two & <', u'\u00e9\u65e5']))
                    c.append(draw(st.sampled_from([t, {'t': 'span', 'a': {}, 'c': [t]}, {'t': 'br', 'a': {}, 'c': []}])))
                ps.append({'t': 'p', 'a': {'xml:id': 'p%d' % j, 'begin': ttml.clock_text(b * 1000, 3), 'end': ttml.clock_text((b + 1500) * 1000, 3)}, 'c': c})
            d = {'sid': draw(st.sampled_from(C12.SIDS)), 'num': draw(st.integers(1, 9)), 'tb': draw(st.sampled_from(['clock', 'media'])) if zero is not None and not auto else 'media',
                 'body': {'t': 'body', 'a': {}, 'c': [{'t': 'div', 'a': {}, 'c': ps}]}}
        else:
            d = draw(present.styled_docs(sid=draw(st.sampled_from(C12.SIDS)), num=draw(st.integers(1, 9)), nstyles=2, tree_kw=dict(max_div=1, max_p=2)))
        it = {'k': 'doc', 'doc': d}
        if not d_ and draw(st.integers(0, 4)) == 0:
            it = {'k': 'msg', 'm': draw(C20.xmls())}
        it['avail'] = draw(st.one_of(st.none(), st.integers(0, 9 * SEC)))
        it['kw'] = {k: KW[k] for k in draw(st.lists(st.sampled_from(sorted(KW)), max_size=2, unique=True))}
        # the carriage may know the sequence the data should be of
        sid = d['sid'] if it['k'] == 'doc' else it['m']['sid']
        it['expect'] = draw(st.sampled_from([None, None, sid, sid, 'another']))
        items.append(it)
    return {'dir': draw(st.sampled_from(['in', 'out'])), 'chain': chain, 'auto': auto, 'items': items, 'zero': zero}


def ttd_texts(xml):
    root = ET.fromstring(xml.encode('utf8'))
    out = []
    for p in root.iter(ttml.q('tt:p')):
        def txt(e):
            s = e.text or ''
            for x in e:
                s += ('\n' if x.tag == ttml.q('tt:br') else txt(x)) + (x.tail or '')
            return s
        out.append([p.get(ttml.q('xml:id')), p.get('begin'), p.get('end'), txt(p)])
    return out


def run_convey(w, c, rec):
    chain = c['chain']
    src, dst = AD[chain[0]][0], AD[chain[-1]][1]
    zero = None
    ads = list(chain)
    if c['zero'] is not None and '3d' in ads and not c['auto']:
        zero = c['zero']
        ads[ads.index('3d')] = ['3d', zero]
    node, carriage = (dst, src) if c['dir'] == 'in' else (src, dst)
    items = []
    for it in c['items']:
        xml = ttml.to_xml(it['doc']) if it['k'] == 'doc' else C20.message_xml(it['m'])
        kw = dict(it['kw'])
        if src == 'text' and it['expect'] is not None:
            kw['sequence_identifier'] = it['expect']
        items.append({'xml': xml, 'avail': it['avail'], 'kw': kw})
    out = w.call('convey', direction=c['dir'], node=node, carriage=carriage, adapters=None if c['auto'] else ads, items=items)
    for i, (it, v, o) in enumerate(zip(c['items'], items, out)):
        sid = it['doc']['sid'] if it['k'] == 'doc' else it['m']['sid']
        if src == 'text' and chain[0] == 'x3' and it['expect'] == 'another' and sid != 'another':
            if 'UnexpectedSequenceIdentifierError' not in o.get('exc', {}).get('mro', ()) or o['got']:
                raise Fail('item %d: misdirected data: %s' % (i, o.get('exc') or o))
            rec.label('misdirected')
            continue
        if 'exc' in o:
            raise Fail('item %d: %s %s' % (i, o['exc']['msg'], o['exc']['tb']), sig='exc:' + o['exc']['type'])
        if len(o['got']) != 1:
            raise Fail('item %d: arrived %d times' % (i, len(o['got'])))
        g = o['got'][0]
        if 'exc' in g:
            raise Fail('item %d: arrived as something that cannot be written: %s %s' % (i, g['exc']['msg'], g['exc']['tb']), sig='exc:' + g['exc']['type'])
        kw, g = g['kw'], g['r']
        if dst == 'ebuttd' and g.get('type') != 'EBUTTDDocument' or dst == 'ebutt3' and g.get('type') not in (
                'EBUTT3Document', 'EBUTTAuthorsGroupControlRequest') or dst == 'text' and 'unicode' not in g:
            raise Fail('item %d: arrived as %s instead of %s' % (i, g, dst))
        if '3d' in chain:
            d = it['doc']
            want = []
            for _, n in ttml.walk(d['body']):
                if n['t'] == 'p':
                    t = []
                    for k in ('begin', 'end'):
                        x = ttml.time_us(n['a'][k])
                        t.append(x - (zero or 0) if d['tb'] == 'clock' else x)
                    want.append([n['a']['xml:id'], t[0], t[1], ''.join(
                        x if isinstance(x, str) else '\n' if x['t'] == 'br' else ''.join(x['c']) for x in n['c'])])
            got = [[x[0], ttml.time_us(x[1]), ttml.time_us(x[2]), x[3]] for x in ttd_texts(g['text'])]
            if got != want:
                raise Fail('item %d: arrived %s instead of %s' % (i, got, want))
        elif it['k'] == 'doc':
            a, b = C07.canon(ET.fromstring(v['xml'].encode('utf8'))), C07.canon(ET.fromstring(g['text'].encode('utf8')))
            df = C07.diff(a, b)
            if df:
                raise Fail('item %d: content changed: %s' % (i, df))
        else:
            a, b = [C20.squeeze(C20.tree(ET.fromstring(t.encode('utf8')))) for t in (v['xml'], g['text'])]
            if a != b:
                raise Fail('item %d: message changed from %s to %s' % (i, a, b))
        exp = {k: x for k, x in it['kw'].items()}
        if '3x' in chain:
            exp.update(sequence_identifier=sid, availability_time=it['avail'])
            if it['k'] == 'doc':
                exp.update(sequence_number=it['doc']['num'], time_base=it['doc']['tb'], clock_mode='local' if it['doc']['tb'] == 'clock' else None)
        if dst == 'ebutt3':
            exp.pop('availability_time', None)
            exp.pop('sequence_identifier', None)
            if (g['sid'], g['avail']) != (sid, it['avail']) or (it['k'] == 'doc' and g['num'] != it['doc']['num']):
                raise Fail('item %d: arrived as %s %s, available %s' % (i, g['sid'], g.get('num'), g['avail']))
        elif chain[-1] == '3d' or '3d' in chain:
            exp.pop('availability_time', None)
            exp.pop('sequence_identifier', None)
        for k, x in exp.items():
            if kw.get(k) != x:
                raise Fail('item %d: parameter %s arrived as %r instead of %r (%s)' % (i, k, kw.get(k), x, kw))
    rec.label('to ' + dst)
    rec.label('message', any(x['k'] == 'msg' for x in c['items']))
    rec.nontrivial(len(chain) > 1 or any(x['avail'] is not None for x in c['items']))


def tests(tier):
    return [Test('links', links, run_link, quick=1500, thorough=30000, rule='two or more adapters, or an automatic one'),
            Test('plain', plain, run_plain, quick=300, thorough=3000, weight=.5, rule='refused'),
            Test('data', conveyed, run_convey, quick=500, thorough=15000, weight=2, rule='two or more conversions or an availability time')]
