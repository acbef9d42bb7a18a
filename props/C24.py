"""Documents made by program: the simple producer and the document classes."""
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, present
from vlib.ttml import SEC

WORKER = ['make_ops']

LINES = st.one_of(ttml.SAFE, st.text(st.characters(blacklist_categories=('Cs', 'Cc', 'Cn'), blacklist_characters='\ufffe\uffff'),
                                     min_size=1, max_size=30))


@st.composite
def producing(draw):
    tb, cm = 'clock', draw(st.sampled_from(['local', 'utc']))
    blocks = draw(st.one_of(st.none(), st.lists(st.lists(LINES, min_size=1, max_size=3), min_size=1, max_size=4)))
    n = draw(st.integers(1, 6))
    now, times = draw(st.integers(0, 30 * 3600)) * SEC, []
    for _ in range(n):
        now += draw(st.one_of(st.integers(0, 3).map(lambda x: x * SEC), st.integers(0, 5000).map(lambda x: x * 1000)))
        times.append(now)
    return {'blocks': blocks, 'times': times, 'tb': tb, 'cm': cm, 'sid': draw(st.sampled_from(['s', 'TestSequence1', 'é x'])),
            'lang': draw(st.sampled_from(['en-GB', 'fr', 'x'])), 'last': draw(st.sampled_from([0, 0, 0, 7])),
            'group': draw(st.sampled_from([None, None, 'g']))}


def spans(n):
    return [c for c in n['c'] if not isinstance(c, str)]


def run_produce(w, case, rec):
    out = w.call('produce', **case)
    blocks = case['blocks']
    done = 0
    for i, (o, now) in enumerate(zip(out, case['times'])):
        if 'exc' in o['docs']:
            raise Fail('document %d: %s' % (i, o['docs']['exc']), sig='exc:' + o['docs']['exc']['type'])
        docs = o['docs']['r']
        if blocks is not None and i >= len(blocks):
            if 'exc' not in o or o['exc']['type'] != 'EndOfData':
                raise Fail('no text left, but %s' % o)
            if docs:
                raise Fail('a document without text: %s' % docs)
            continue
        if 'exc' in o:
            raise Fail('document %d: %s' % (i, o['exc']), sig='exc:' + o['exc']['type'])
        if len(docs) != 1:
            raise Fail('%d documents for a block' % len(docs))
        d = docs[0]
        done += 1
        m = ttml.from_xml(d['xml'])
        want = (case['sid'], case['last'] + i + 1, case['lang'], case['tb'], case['cm'], case['group'])
        got = (m['sid'], m['num'], m['lang'], m['tb'], m['cm'], m['tta'].get('ebuttp:authorsGroupIdentifier'))
        if want != got:
            raise Fail('document has %s, expected %s' % (got, want))
        if o['last'] != m['num'] or d['num'] != m['num']:
            raise Fail('numbers %s %s %s' % (o['last'], d['num'], m['num']))
        b, e = now + SEC, now + 2 * SEC
        if (d['b'], d['e']) != (b, e) or (d['b2'], d['e2']) != (b, e):
            raise Fail('document active in %s, read again %s, expected %s' % ((d['b'], d['e']), (d['b2'], d['e2']), (b, e)))
        show = present.present(m, b)
        text = [x[0] for x in show]
        lines = blocks[i] if blocks is not None else None
        if lines is None:
            if len(text) != 1 or ttml.time_us(text[0]) != b:
                raise Fail('shows %s, expected the time %s' % (text, b))
        else:
            want = []
            for k, ln in enumerate(lines):
                want += (['\n'] if k else []) + ([present.collapse(ln)] if ln.strip() else [])
            if text != want:
                raise Fail('shows %r, expected %r' % (text, want))
        for x, look, _ in show:
            if look['region'] is None or x != '\n' and not look['loc']:
                raise Fail('%r has no region or style: %s' % (x, look))
        p = m['body']['c'][0]['c'][0]
        if len(m['body']['c']) != 1 or len(m['body']['c'][0]['c']) != 1 or p['t'] != 'p':
            raise Fail('more than one paragraph: %s' % d['xml'])
    rec.label('no text left', blocks is not None and len(case['times']) > len(blocks))
    rec.label('shows the time', blocks is None)
    rec.nontrivial(done > 1)


@st.composite
def built(draw):
    tb = draw(st.sampled_from(['clock', 'media']))
    d = draw(present.styled_docs(num=draw(st.integers(1, 1000)), tb=tb, nregions=2, nstyles=3, tree_kw=dict(exotic=False)))
    d['avail'] = draw(st.one_of(st.none(), st.integers(0, 12).map(lambda x: x * SEC)))
    d['cm'] = draw(st.sampled_from(['local', 'utc', None])) if tb == 'clock' else None
    d['lang'] = draw(st.sampled_from(['en', 'de-AT']))
    d['sid'] = draw(st.sampled_from(['s', 'T 1', 'é']))
    if d['body'] is None:
        d['body'] = {'t': 'body', 'a': {}, 'c': []}
    d['body']['a'].pop('style', None)
    d['ext'] = '640px 480px'
    late = draw(st.booleans())
    forms = {}
    for path, n in ttml.walk(d['body']):
        for k in ('begin', 'end', 'dur'):
            if k in n['a']:
                f = draw(st.sampled_from(['cnt', 'td', 'td']))
                forms['/'.join(map(str, path)) + k] = f
        if late and n['t'] != 'br' and draw(st.booleans()):
            n['late'] = True
    d['forms'] = forms
    d['set'] = draw(st.lists(st.sampled_from([['sequence_number', 77], ['sequence_identifier', 'other'], ['sequence_number', '5']]),
                             max_size=2))
    return d


def wire(d):
    import copy
    out = copy.deepcopy({k: d.get(k) for k in ('tb', 'cm', 'num', 'sid', 'lang', 'avail', 'styles', 'regions', 'body', 'set', 'ext')})
    for path, n in ttml.walk(out['body']):
        for k in ('begin', 'end', 'dur'):
            if k in n['a']:
                us = ttml.time_us(n['a'][k])
                f = d['forms']['/'.join(map(str, path)) + k]
                n['a'][k] = ['cnt', ttml.time_text(us, 'ms')] if f == 'cnt' else \
                    ['clk' if d['tb'] == 'clock' else 'full', us]
    return out


def run_build(w, case, rec):
    ids = [x['xml:id'] for x in case['styles'] + (case['regions'] or [])] + \
          [n['a']['xml:id'] for _, n in ttml.walk(case['body']) if 'xml:id' in n['a']] + ['missing']
    o = w.call('build', doc=wire(case), probe=ids)
    if 'exc' in o:
        raise Fail('building the document failed: %s' % o['exc'], sig='exc:' + o['exc']['type'])
    o = o['r']
    d = dict(case)
    for k, v in case['set']:
        d[{'sequence_number': 'num', 'sequence_identifier': 'sid'}[k]] = int(v) if k == 'sequence_number' else v
    times = ttml.ref_times(d, d['avail'] or 0)
    b, e = times[()]
    for what, x in (('built', o), ('read again', o['again'])):
        if (x['b'], x['e']) != (b, e):
            raise Fail('%s document has times %s, expected %s' % (what, (x['b'], x['e']), (b, e)))
        got = {tuple(y['path']): (y['b'], y['e']) for y in x['times']}
        for path in times:
            if got.get(path) != times[path]:
                raise Fail('%s: %s has times %s, expected %s' % (what, path, got.get(path), times[path]))
    cm = d['cm'] or ('local' if d['tb'] == 'clock' else None)
    want = [d['sid'], d['num'], d['lang'], d['tb'], cm, None, d['avail']]
    if o['attrs'] != want:
        raise Fail('document has %s, expected %s' % (o['attrs'], want))
    for key in ('xml', 'dom'):
        m = ttml.from_xml(o[key])
        if [m['sid'], m['num'], m['lang'], m['tb'], m['cm']] != want[:5]:
            raise Fail('%s has %s, expected %s' % (key, [m['sid'], m['num'], m['lang'], m['tb'], m['cm']], want[:5]))
        for a, c in ((m['styles'], d['styles']), (m['regions'] or [], d['regions'] or [])):
            if a != c:
                raise Fail('%s: %s instead of %s' % (key, a, c))
        if norm(m['body']) != norm(d['body']):
            raise Fail('%s: %s instead of %s' % (key, m['body'], d['body']))
    if o['again']['xml'] != o['xml']:
        raise Fail('%s became %s' % (o['xml'], o['again']['xml']))
    for i, (r, r2) in zip(ids, o['ids']):
        for x in (r, r2):
            if i == 'missing':
                if 'exc' not in x or 'LookupError' not in x['exc']['mro']:
                    raise Fail('looking up an unknown id: %s' % x)
            elif 'exc' in x or x['r'][0] != i:
                raise Fail('looking up %s: %s' % (i, x))
    rec.label('availability', d['avail'] is not None)
    rec.label('attributes set later', any(n.get('late') for _, n in ttml.walk(d['body'])))
    rec.nontrivial(len(times) > 3)


def norm(n):
    a = {k: (ttml.time_us(v) if k in ('begin', 'end', 'dur') else v) for k, v in n['a'].items()}
    c = []
    for x in n['c']:
        if isinstance(x, str):
            if n['t'] not in ttml.MIXED:
                continue
            if c and isinstance(c[-1], str):
                c[-1] += x
            else:
                c.append(x)
        else:
            c.append(norm(x))
    return [n['t'], a, c]


def tests(tier):
    return [Test('producer', producing, run_produce, quick=200, thorough=6000,
                 rule='runs of the producer that made several documents'),
            Test('built', built, run_build, quick=200, thorough=6000,
                 rule='documents of more than three timed elements')]
