"""De-duplication: equal styles and regions are merged, nothing else changes."""
import copy
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from props import C05

WORKER = ['pipe_ops', 'node_ops']
REFS = ('style', 'region')


def tables(d):
    return {x['xml:id']: x for x in list(d['styles']) + list(d['regions'] or ())}


def cyclic(d):
    t = tables(d)
    state = {}

    def visit(i):
        if i not in t or state.get(i) == 2:
            return False
        if state.get(i) == 1:
            return True
        state[i] = 1
        r = any([visit(j) for j in t[i].get('style', '').split()])
        state[i] = 2
        return r
    return any([visit(i) for i in t])


def form(d, i, t=None):
    """what a style or region is apart from ids (references by what they lead to)"""
    t = t or tables(d)
    if i not in t:
        return 'missing ' + i
    refs = []
    for j in t[i].get('style', '').split():
        f = form(d, j, t)
        if f not in refs:
            refs.append(f)
    return (tuple(sorted((k, v) for k, v in t[i].items() if k not in ('xml:id', 'style'))), tuple(refs))


@st.composite
def duplicated(draw, num=1, sid='s', loose=True):
    d = draw(present.styled_docs(sid=sid, num=num, nstyles=4, nregions=2, tree_kw=dict(hi=6, max_div=2, max_p=2)))
    if draw(st.integers(0, 3)) == 0:
        present.graph_of_styles(draw, d)
    styles, regions = list(d['styles']), list(d['regions'] or ())
    if draw(st.integers(0, 3)) == 0 and styles:
        draw(st.sampled_from(styles))['tts:fontFamily'] = draw(st.sampled_from(['Ärial', '日本', 'Arial|', 'a%b', '|', 'None']))
    if draw(st.integers(0, 3)) == 0 and styles + regions:
        draw(st.sampled_from(styles + regions))['ebuttm:note'] = draw(st.sampled_from(['x', 'é', '', '|', '1%']))
    twins = {}
    n = 0
    for kind, pool in (('style', styles), ('region', regions)):
        for _ in range(draw(st.integers(0, 4 if kind == 'style' else 2)) if pool else 0):
            src = draw(st.sampled_from(pool))
            t = dict(src)
            n += 1
            t['xml:id'] = draw(st.sampled_from(['a%d', 'z%d', 'SEQ1.s%d', 'ü%d'])) % n
            twins.setdefault(src['xml:id'], []).append(t['xml:id'])
            if 'style' in t:
                t['style'] = ' '.join(draw(st.sampled_from([r] + twins.get(r, []))) for r in t['style'].split())
                if draw(st.integers(0, 5)) == 0:
                    t['style'] = ' '.join(reversed(t['style'].split()))
                elif draw(st.integers(0, 9)) == 0:
                    del t['style']
            k = draw(st.integers(0, 9))
            keys = [a for a in t if a not in ('xml:id', 'style', 'tts:origin', 'tts:extent')]
            if k == 0 and keys:
                del t[draw(st.sampled_from(keys))]
            elif k == 1 and kind == 'style':
                table = present.style_attrs()
                a = draw(st.sampled_from(sorted(table)))
                t[a] = draw(table[a])
            elif k == 2 and kind == 'region':
                a, v = draw(st.sampled_from([('tts:overflow', ['visible', 'hidden']), ('tts:origin', ['1% 1%', '10% 10%']),
                                             ('tts:displayAlign', ['before', 'center', 'after'])]))
                t[a] = draw(st.sampled_from(v))
            elif k == 3:
                t['ebuttm:note'] = draw(st.sampled_from(['x', 'é', '', '|']))
            elif k == 4 and len(keys) > 1:
                # the same values in other attributes
                a, b = draw(st.permutations(keys))[:2]
                swap = {a: t.get(b), b: t.get(a)}
                if all(str(v) in ('1c', '2c', '5%') for v in swap.values()):
                    t.update(swap)
            if draw(st.integers(0, 3)) == 0:
                t = dict(reversed(list(t.items())))
            pool.append(t)
    # a repeated pool entry may be referred to from any element
    ids = [s['xml:id'] for s in styles]
    for s in styles:
        # more references, never in a circle: only to styles without any
        leaves = [x['xml:id'] for x in styles if 'style' not in x and x is not s]
        if leaves and 'style' in s and draw(st.integers(0, 5)) == 0:
            s['style'] = ' '.join(draw(st.permutations(s['style'].split() + [draw(st.sampled_from(leaves))])))
    if loose and draw(st.integers(0, 14)) == 0:
        # styles that nothing refers to
        styles.append({'xml:id': 'loop', 'style': 'loop2', 'tts:color': 'red'})
        styles.append({'xml:id': 'loop2', 'style': 'loop'})
    if loose and draw(st.integers(0, 14)) == 0:
        styles.append({'xml:id': 'gone', 'style': 'nowhere'})
    d['styles'] = draw(st.permutations(styles)) if styles else styles
    if d['regions'] is not None:
        d['regions'] = draw(st.permutations(regions)) if regions else regions
    for _, x in ttml.walk(d['body'] or {'t': 'body', 'a': {}, 'c': []}):
        if x['t'] == 'br':
            continue
        a = x['a']
        if ids and draw(st.integers(0, 4)) == 0:
            a['style'] = ' '.join(draw(st.lists(st.sampled_from(ids), min_size=1, max_size=4)))
        if 'style' in a:
            a['style'] = ' '.join(draw(st.sampled_from([i] + twins.get(i, []))) for i in a['style'].split())
        if 'region' in a and a['region'] in twins:
            a['region'] = draw(st.sampled_from([a['region']] + twins[a['region']]))
    return d


def tree(d, n, refs):
    """an element with its references replaced by what they lead to"""
    a = {k: v for k, v in n['a'].items() if k not in REFS}
    if n['t'] in ttml.TIMED:
        a['style'] = present.specified(d, n['a'].get('style', '').split())
        a['region'] = present.region_sig(d, n['a']['region']) if 'region' in n['a'] else None
        if refs is not None:
            refs.update(n['a'].get('style', '').split())
            if 'region' in n['a']:
                refs.add(n['a']['region'])
    return [n['t'], a, [c if isinstance(c, str) else tree(d, c, refs) for c in n['c']]]


def check(src, xml, sid, rec):
    """the document `xml` is `src` without duplicates"""
    a, b = ttml.from_xml(ttml.to_xml(src) if isinstance(src, dict) else src), ttml.from_xml(xml)
    if b['sid'] != sid:
        raise Fail('sequence identifier %r' % b['sid'])
    for k in ('num', 'lang', 'tb', 'cm', 'cell', 'ext', 'tta'):
        if (a[k] or (k == 'cell' and '32 15')) != (b[k] or (k == 'cell' and '32 15')):
            raise Fail('%s changed from %r to %r' % (k, a[k], b[k]))
    ids = [x['xml:id'] for x in b['styles'] + (b['regions'] or [])]
    if len(ids) != len(set(ids)):
        raise Fail('ids occur twice: %s' % ids)
    merged = 0
    if not cyclic(a):
        for key in ('styles', 'regions'):
            fa, fb = [form(a, x['xml:id']) for x in a[key] or ()], [form(b, x['xml:id']) for x in b[key] or ()]
            if len(fb) != len(set(fb)):
                raise Fail('equal %s are left: %s' % (key, sorted(b[key], key=lambda x: str(form(b, x['xml:id'])))))
            if set(fa) != set(fb):
                raise Fail('%s changed\nfrom %s\nto %s' % (key, a[key], b[key]))
            merged += len(fa) - len(fb)
    refs = set()
    if (a['body'] is None) != (b['body'] is None):
        raise Fail('body appeared or vanished')
    if a['body'] is not None:
        ta = tree(a, a['body'], None)
        for _, n in ttml.walk(b['body']):
            for i in (n['a'].get('style', '').split() + ([n['a']['region']] if 'region' in n['a'] else [])):
                if i not in ids:
                    raise Fail('reference to %r which is not there' % i)
        tb = tree(b, b['body'], refs)
        if ta != tb:
            raise Fail('content differs: %s\n!= %s' % (ta, tb))
        pa, pb = present.present(a), present.present(b)
        if pa != pb:
            raise Fail('presentation differs: %s\n!= %s' % (pa, pb))
    rec.label('styles or regions merged', merged)
    rec.label('several merged', merged > 1)
    rec.label('nothing to merge', not merged)
    return merged, b


@st.composite
def histories(draw):
    nums = draw(st.lists(st.integers(1, 30), min_size=1, max_size=3, unique=True))
    docs = [draw(duplicated(num=k)) for k in nums]
    tb = docs[0]['tb']
    for d in docs:
        d['tb'] = tb
    order = []
    for i in range(len(docs)):
        order.append(['doc', i])
        k = draw(st.integers(0, 11))
        if k == 0:
            order.append(['doc', draw(st.integers(0, i))])
        elif k == 1:
            order.append(['own', i])
        elif k == 2:
            order.append(['other', i])
    return {'docs': docs, 'order': order, 'chain': draw(st.sampled_from([[], [], ['distributing'], ['dedup'], ['bufferdelay']])),
            'feed': draw(st.sampled_from(['xml', 'doc'])), 'out': draw(st.sampled_from([None, 'text', 'text'])),
            'sid': draw(st.sampled_from(['out', 'öut', 'a b']))}


def run(w, case, rec):
    stages = [['dedup', {'seq': case['sid']}]]
    sid = case['sid']
    for k in case['chain']:
        stages.append([k, {'seq': 'second', 'delay': 0}])
        if k == 'dedup':
            sid = 'second'
    evs = []
    for kind, i in case['order']:
        d = case['docs'][i]
        if kind != 'doc':
            d = dict(d, sid=case['sid'] if kind == 'own' else 'another', num=d['num'] + 50)
        evs.append({'xml': ttml.to_xml(d)})
    out = w.call('pipe', stages=stages, events=evs, feed=case['feed'], out=case['out'])
    seen = set()
    total = 0
    for (kind, i), ev, o in zip(case['order'], evs, out):
        if kind != 'doc':
            if 'UnexpectedSequenceIdentifierError' not in o.get('exc', {}).get('mro', ()) or o['out']:
                raise Fail('document of %s sequence: %s' % (kind, o))
            rec.label('refused')
            continue
        if 'exc' in o:
            raise Fail('document %d: %s %s' % (i, o['exc']['msg'], o['exc']['tb']), sig='exc:' + o['exc']['type'])
        if i in seen:
            if o['out']:
                raise Fail('repeated document was emitted again')
            rec.label('repeated')
            continue
        seen.add(i)
        if len(o['out']) != 1:
            raise Fail('%d documents for one' % len(o['out']))
        shown = o['out'][0]['data']
        if shown.get('revalidates') is False:
            raise Fail('the emitted document is not valid')
        m, _ = check(case['docs'][i], shown['text'], sid, rec)
        total += m
    rec.label('circular', any(cyclic(d) for d in case['docs']))
    rec.label('second in history', len(seen) > 1)
    rec.nontrivial(total)


@st.composite
def spliced(draw):
    """re-sequencing of documents that have the same styles and regions, under the same or other ids"""
    case = draw(C05.cases())
    first = case['docs'][0]
    if not first['styles']:
        first['styles'] = [{'xml:id': 's0', 'tts:color': 'red'}]
    if not first['regions']:
        first['regions'] = [{'xml:id': 'r0', 'tts:origin': '10% 10%', 'tts:extent': '80% 80%'}]
    case['length'] = draw(st.sampled_from([7, 20, 3]))
    styles, regions = first['styles'], first['regions']
    for d in case['docs']:
        pre = draw(st.sampled_from(['', '', 'X.', 'Y.']))
        d['styles'], d['regions'] = copy.deepcopy(styles), copy.deepcopy(regions)
        pool = {'style': [s['xml:id'] for s in d['styles']], 'region': [r['xml:id'] for r in d['regions'] or ()]}
        if d['body']:
            for _, x in ttml.walk(d['body']):
                for k in REFS:
                    if k in x['a']:
                        x['a'].pop(k)
                    if x['t'] == 'p' or (x['t'] == 'span' and k == 'style' and draw(st.booleans())):
                        if draw(st.integers(0, 2)):
                            x['a'][k] = draw(st.sampled_from(pool[k]))
        if pre:
            C05.rename(d, pre)
    return case


def run_spliced(w, case, rec):
    evs = []
    for ev in case['events']:
        if 'doc' in ev:
            d = case['docs'][ev['doc']]
            evs.append({'xml': ttml.to_xml(d), 'avail': d['avail']})
        else:
            evs.append({})
    out = w.call('resequence', events=evs, length=case['length'], discard=case['discard'], sid='mid', tb=case['tb'])
    xmls = [o['r']['xml'][0] for o in out if 'r' in o and o['r'] and o['r']['xml'] and 'again' not in o][:4]
    if not xmls:
        return
    out = w.call('pipe', stages=[['dedup', {'seq': 'out'}]], events=[{'xml': x} for x in xmls], feed='xml', out='text')
    total = 0
    for x, o in zip(xmls, out):
        if 'exc' in o or len(o['out']) != 1:
            raise Fail('%s for %s' % (o, x))
        m, _ = check(x, o['out'][0]['data']['text'], 'out', rec)
        total += m
    rec.nontrivial(total)


def tests(tier):
    return [Test('dedup', histories, run, quick=600, thorough=20000, weight=3,
                 rule='histories in which at least one style or region was merged'),
            Test('spliced', spliced, run_spliced, quick=150, thorough=4000,
                 rule='re-sequenced documents in which at least one style or region was merged')]
