"""Bounded buffers, the rotating file buffer, comparison and the tokenizer against list models."""
from hypothesis import strategies as st
from vlib.core import Test, Fail

WORKER = ['util_ops']


# ---------------------------------------------------------------- ring buffer
@st.composite
def ring_cases(draw):
    maxlen = draw(st.sampled_from([1, 2, 3, 5, None, 'default']))
    vals = st.integers(0, 6)
    op = st.one_of(st.tuples(st.just('append'), vals), st.tuples(st.just('append'), vals), st.tuples(st.just('append'), vals),
                   st.tuples(st.just('popleft')), st.tuples(st.just('pop')), st.tuples(st.just('remove'), vals),
                   st.tuples(st.just('in'), vals), st.tuples(st.just('clear')))
    return {'maxlen': maxlen, 'callback': draw(st.booleans()),
            'init': draw(st.one_of(st.none(), st.lists(vals, max_size=6))),
            'ops': [list(x) for x in draw(st.lists(op, min_size=1, max_size=25))]}


def run_ring(w, c, rec):
    got = w.call('ring', **c)
    m = c['maxlen'] if c['maxlen'] != 'default' else None
    cur = list(c['init'] or [])
    if m is not None:
        cur = cur[-m:]
    fell = 0
    for i, (o, g) in enumerate(zip(c['ops'], got)):
        cb, r, exc = [], None, None
        if o[0] == 'append':
            cur.append(o[1])
            if m is not None and len(cur) > m:
                cb = [cur.pop(0)]
        elif o[0] in ('popleft', 'pop'):
            if cur:
                r = cur.pop(0 if o[0] == 'popleft' else -1)
            else:
                exc = 'IndexError'
        elif o[0] == 'remove':
            if o[1] in cur:
                cur.remove(o[1])
            else:
                exc = 'ValueError'
        elif o[0] == 'clear':
            cur = []
        else:
            r = o[1] in cur
        fell += len(cb)
        if not c['callback']:
            cb = []
        if g['list'] != cur or g['cb'] != cb or g['exc'] != exc or g['r'] != r:
            raise Fail('step %d %s: %s instead of contents %s, call-backs %s, result %s, error %s' % (i, o, g, cur, cb, r, exc))
    rec.label('unbounded', m is None)
    rec.nontrivial(fell > 1 or m is None and c['callback'])


# ---------------------------------------------------------------- rotating file buffer
@st.composite
def file_cases(draw):
    n = draw(st.integers(1, 8))
    m = draw(st.integers(1, 4))
    names = ['f%d' % i for i in range(n)]
    faulty = draw(st.lists(st.sampled_from(names), max_size=2, unique=True))
    return {'maxlen': m, 'is_async': draw(st.integers(0, 2)) == 0, 'files': names,
            'faults': {f: draw(st.lists(st.sampled_from(['OSError', 'IOError']), min_size=1, max_size=3)) for f in faulty},
            'gone': [x for x in draw(st.lists(st.sampled_from(names), max_size=1)) if x not in faulty], 'late': draw(st.booleans()),
            'early': draw(st.booleans())}


def run_file(w, c, rec):
    g = w.call('filebuffer', **c)
    if g['strays']:
        raise Fail('deleted outside its files: %s' % g['strays'])
    if g['exc']:
        raise Fail('append failed: %s %s' % (g['exc']['type'], g['exc']['msg']))
    m = c['maxlen']
    want = [c['files'][max(0, i + 1 - m):i + 1] for i in range(len(c['files']))]
    if g['states'] != want:
        raise Fail('buffer held %s instead of %s' % (g['states'], want))
    left = [x for x in c['files'][-m:] if x not in c['gone']] + ['bystander']
    if c['is_async']:
        if g['alive']:
            raise Fail('deletion thread did not stop')
        if c['late']:
            left.append('late')
            if g['late'] != 'RotatingFileBufferStopped':
                raise Fail('append to a stopped buffer: %s' % g['late'])
    if g['left'] != sorted(left):
        raise Fail('files left %s instead of %s' % (g['left'], sorted(left)))
    rec.label('async', c['is_async'])
    rec.label('stopped early', c['is_async'] and c['early'])
    rec.label('failing deletions', g['failed'])
    rec.nontrivial(len(c['files']) > m)


# ---------------------------------------------------------------- comparison
def run_cmp(w, c, rec):
    a, b = c
    g = w.call('compare', a=a, b=b)
    want = {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b, 'ge': a >= b, 'gt': a > b}
    if g != want:
        raise Fail('%s and %s compare as %s' % (a, b, g))
    rec.nontrivial(a != b)


# ---------------------------------------------------------------- tokenizer
WORDS = st.one_of(st.text('abcdefgh', min_size=1, max_size=12), st.text('abc', min_size=30, max_size=60),
                  st.sampled_from(['Mr.', 'end.', 'why?', 'no!', 'x', u'\u00e9t\u00e9', '12.5', '-', '"quoted"']))


@st.composite
def text_cases(draw):
    out = []
    for w in draw(st.lists(WORDS, max_size=40)):
        out += [w, draw(st.sampled_from([' ', ' ', ' ', '\n', '\n\n', '  ', '\t', '\r\n', '\n \n']))]
    return ''.join(draw(st.sampled_from(['', ' ', '\n'])) + x for x in [''.join(out)])


def run_text(w, text, rec):
    subs = w.call('tokenize', text=text)
    words = [x for s in subs for l in s for x in l.split(' ')]
    if words != text.split():
        raise Fail('words %s became %s' % (text.split(), subs))
    for s in subs:
        if not 1 <= len(s) <= 2:
            raise Fail('a subtitle of %d lines: %s' % (len(s), s))
        for l in s:
            if not l or l != l.strip():
                raise Fail('line %r' % l)
            if len(l) > 38 and ' ' in l:    # only a single long word may exceed the limit
                raise Fail('line of %d characters: %r' % (len(l), l))
    rec.nontrivial(len(subs) > 1)


def tests(tier):
    return [Test('ring', ring_cases, run_ring, quick=1500, thorough=40000, rule='elements that fell out of the buffer'),
            Test('files', file_cases, run_file, quick=240, thorough=2500, weight=3, rule='more files than the limit'),
            Test('compare', lambda: st.tuples(st.integers(-3, 3), st.integers(-3, 3)), run_cmp, quick=100, thorough=100,
                 rule='different keys'),
            Test('tokenizer', text_cases, run_text, quick=600, thorough=15000, rule='texts of several subtitles')]
