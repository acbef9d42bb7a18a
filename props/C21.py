"""Lengths and colours against exact rational arithmetic."""
from fractions import Fraction as F
from hypothesis import strategies as st
from vlib.core import Test, Fail

WORKER = ['length_ops']

UNIT = {'Cell': 'c', 'Percentage': '%', 'Pixel': 'px'}
# kind: (number of dimensions, sign characters)
KIND = {'Origin': ((2,), ['', '+', '-']), 'Extent': ((2,), ['', '+']), 'FontSize': ((1, 2), ['', '+']), 'LineHeight': ((1,), [''])}


@st.composite
def numbers(draw, signs=('',), positive=False):
    k = draw(st.integers(0, 4))
    if k < 2:
        t = str(draw(st.integers(1 if positive else 0, 200)))
    elif k == 2:
        t = '%d.%s' % (draw(st.integers(1 if positive else 0, 99)), draw(st.text('0123456789', min_size=1, max_size=4)))
    elif k == 3:
        t = '.%s' % draw(st.integers(1, 999))
    elif draw(st.integers(0, 3)):
        t = '00%d.50' % draw(st.integers(1, 20))
    else:
        t = '0.000%d' % draw(st.integers(1, 99))
    return draw(st.sampled_from(list(signs))) + t


@st.composite
def values(draw, kind=None, unit=None, dims=None, positive=False):
    kind = kind or draw(st.sampled_from(sorted(KIND)))
    unit = unit or draw(st.sampled_from(sorted(UNIT)))
    n = dims or draw(st.sampled_from(KIND[kind][0]))
    signs = [s for s in KIND[kind][1] if not (positive and s == '-')]
    v = [draw(numbers(signs, positive)) for _ in range(n)]
    return ['%s%sType' % (unit, kind), draw(st.sampled_from([' ', ' '])).join(x + UNIT[unit] for x in v)]


def val(x):
    """(horizontal or None, vertical)"""
    if x[0] == 'CellResolutionType':
        p = [F(int(i)) for i in x[1].split()]
    elif isinstance(x[1], list):
        p = [F(i) for i in x[1]]
    else:
        u = [u for u in UNIT.values() if x[1].endswith(u)][0]
        p = []
        for i in x[1].split():
            i = i[:-len(u)]
            s = -1 if i[0] == '-' else 1
            p.append(s * F('0' + i.lstrip('+-')))
    return (p[0], p[1]) if len(p) == 2 else (None, p[0])


def near(a, b, tol=F(1, 10 ** 9)):
    if (a is None) != (b is None):
        return False
    return a is None or abs(F(a) - b) <= tol * max(1, abs(b))


def expect(what, g, h, v, typ=None, tol=F(1, 10 ** 9)):
    if typ and g['t'] != typ:
        raise Fail('%s: is a %s instead of a %s' % (what, g['t'], typ))
    if not near(g['h'], h, tol) or not near(g['v'], v, tol):
        raise Fail('%s: %s %s instead of %s %s' % (what, g['h'], g['v'], h, v))


def run_value(w, x, rec):
    g = w.call('length', f='value', args=[x])
    expect(str(x), g, *val(x), typ=x[0])
    if not isinstance(x[1], list):
        if g['x'] != x[1]:
            raise Fail('%s became %s' % (x, g['x']))
    # the text denotes the value
    elif val([x[0], g['x']]) is not None:
        expect(str(x), g, *val([x[0], g['x']]))
    rec.nontrivial(val(x)[0] is not None or '.' in str(x[1]))


@st.composite
def built(draw):
    kind = draw(st.sampled_from(sorted(KIND)))
    unit = draw(st.sampled_from(sorted(UNIT)))
    n = draw(st.sampled_from(KIND[kind][0]))
    num = st.one_of(st.integers(0, 2000), st.integers(0, 10 ** 7).map(lambda i: i / 1000.0), st.integers(1, 400).map(lambda i: i / 3.0),
                    st.integers(1, 99).map(lambda i: i / 1000000.0))
    if kind == 'Origin':
        num = st.one_of(num, num.map(lambda i: -i))
    return ['%s%sType' % (unit, kind), draw(st.lists(num, min_size=n, max_size=n))]


def wrong():
    """a number of dimensions the type does not have"""
    return st.sampled_from(sorted((k, d) for k in KIND for d in (1, 2) if d not in KIND[k][0])).flatmap(
        lambda kd: st.sampled_from(sorted(UNIT)).map(lambda u: ['%s%sType' % (u, kd[0]), [5] * kd[1]]))


def run_wrong(w, x, rec):
    r = w.attempt('length', f='value', args=[x])
    if 'exc' not in r:
        raise Fail('%s accepted: %s' % (x, r))
    if 'ValidationError' not in r['exc']['mro']:
        raise Fail('%s ended in %s' % (x, r['exc']['type']))
    rec.nontrivial(True)


# ---------------------------------------------------------------- arithmetic
@st.composite
def arith(draw):
    f = draw(st.sampled_from(['mul', 'mul', 'lmul', 'div', 'eq']))
    if f in ('mul', 'lmul'):
        a = draw(values(kind='FontSize' if f == 'mul' else 'LineHeight', unit='Percentage'))
        b = draw(values(kind='FontSize', unit=None if f == 'mul' else draw(st.sampled_from(['Cell', 'Percentage']))))
    elif f == 'div':
        a, b = draw(values(kind='FontSize', unit='Cell')), draw(values(kind='FontSize', unit='Cell', positive=True))
    else:
        a, b = draw(values(kind='FontSize', unit='Cell')), draw(values(kind='FontSize', unit='Cell'))
        k = draw(st.integers(0, 3))
        one = '%sc' % draw(numbers())
        if k == 0:
            b = list(a)
        elif k == 1:
            a, b = [a[0], one], [a[0], one + ' ' + one]
        elif k == 2:
            a, b = [a[0], one + ' ' + one], [a[0], one]
    return {'f': f, 'a': a, 'b': b, 'swap': draw(st.booleans())}


def run_arith(w, c, rec):
    a, b = val(c['a']), val(c['b'])
    args = [c['a'], c['b']]
    if c['f'] in ('mul', 'lmul'):
        if c['swap']:
            args = args[::-1]
        g = w.call('length', f='mul', args=args)
        if c['f'] == 'lmul':
            expect('%s of %s' % (c['a'][1], c['b'][1]), g, None, a[1] * b[1] / 100, c['b'][0].replace('FontSize', 'LineHeight'))
        else:
            h = None if a[0] is None and b[0] is None else (a[1] if a[0] is None else a[0]) * (b[1] if b[0] is None else b[0]) / 100
            expect('%s of %s' % (c['a'][1], c['b'][1]), g, h, a[1] * b[1] / 100, c['b'][0])
    elif c['f'] == 'div':
        g = w.call('length', f='div', args=args)
        h = None if a[0] is None and b[0] is None else (a[1] if a[0] is None else a[0]) / (b[1] if b[0] is None else b[0]) * 100
        expect('%s / %s' % (c['a'][1], c['b'][1]), g, h, a[1] / b[1] * 100, 'PercentageFontSizeType')
    else:
        g = w.call('length', f='eq', args=args)
        full = lambda p: tuple(float(x) for x in (p[1] if p[0] is None else p[0], p[1]))
        if g != (full(a) == full(b)):
            raise Fail('%s == %s is %s' % (c['a'][1], c['b'][1], g))
    rec.label(c['f'])
    rec.nontrivial(a[0] is not None or b[0] is not None)


# ---------------------------------------------------------------- units
@st.composite
def units(draw):
    f = draw(st.sampled_from(['px2c', 'c2px', 'region']))
    res = ['CellResolutionType', '%d %d' % (draw(st.integers(1, 100)), draw(st.integers(1, 60)))]
    if f == 'region':
        return {'f': f, 'args': [draw(values(kind=draw(st.sampled_from(['Origin', 'Extent'])), unit='Cell')), res]}
    ext = draw(values(kind='Extent', unit='Pixel', positive=True))
    return {'f': f, 'args': [draw(values(unit='Pixel' if f == 'px2c' else 'Cell')), ext, res]}


def run_units(w, c, rec):
    g = w.call('length', f=c['f'], args=c['args'])
    h, v = val(c['args'][0])
    if c['f'] == 'region':
        rh, rv = val(c['args'][1])
        gh, gv = val(['PercentageOriginType', g['x']])
        expect(str(c['args']), {'t': '', 'h': gh, 'v': gv}, h * 100 / rh, v * 100 / rv)
    else:
        (eh, ev), (rh, rv) = val(c['args'][1]), val(c['args'][2])
        kh, kv = (rh / eh, rv / ev) if c['f'] == 'px2c' else (eh / rh, ev / rv)
        want = [v * kv] if h is None else [h * kh, v * kv]
        if len(g['l']) != len(want) or not all(near(x, y) for x, y in zip(g['l'], want)):
            raise Fail('%s: %s instead of %s' % (c, g['l'], want))
    rec.label(c['f'])
    rec.nontrivial(h is not None)


def no_extent():
    return st.tuples(st.sampled_from(['px2c', 'c2px']), st.sampled_from(['Cell', 'Percentage']))


NAMED = dict(transparent='00000000', black='000000ff', silver='c0c0c0ff', gray='808080ff', white='ffffffff', maroon='800000ff', red='ff0000ff',
             purple='800080ff', fuchsia='ff00ffff', magenta='ff00ffff', green='008000ff', lime='00ff00ff', olive='808000ff', yellow='ffff00ff',
             navy='000080ff', blue='0000ffff', teal='008080ff', aqua='00ffffff', cyan='00ffffff')


def run_color(w, name, rec):
    g = w.call('named_color', name=name)
    if g.lower() != '#' + NAMED[name]:
        raise Fail('%s is %s' % (name, g))
    rec.nontrivial(True)


def tests(tier):
    return [Test('value', values, run_value, quick=1500, thorough=30000, rule='two dimensions or fractions'),
            Test('built', built, run_value, quick=1000, thorough=20000, rule='two dimensions or fractions'),
            Test('dimensions', wrong, run_wrong, quick=60, thorough=200, rule='all'),
            Test('arithmetic', arith, run_arith, quick=1500, thorough=30000, rule='two dimensions'),
            Test('units', units, run_units, quick=1000, thorough=20000, rule='two dimensions'),
            Test('colours', lambda: st.sampled_from(sorted(NAMED)), run_color, quick=150, thorough=300, rule='all')]
