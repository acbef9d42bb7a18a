"""Timing expressions: value, refusal, and the conversion to and from durations."""
import re
from fractions import Fraction
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib.ttml import time_us, SEC

WORKER = ['timing_ops']
PAT = {'timecount': re.compile(r'\d+(\.\d+)?(h|ms|s|m)', re.A),
       'full': re.compile(r'\d\d+:[0-5]\d:([0-5]\d|60)(\.\d+)?', re.A),
       'limited': re.compile(r'\d\d:[0-5]\d:([0-5]\d|60)(\.\d+)?', re.A)}
digits = lambda a, b: st.text('0123456789', min_size=a, max_size=b)
frac = st.one_of(st.just(''), digits(1, 9).map(lambda s: '.' + s), st.sampled_from(['.0', '.5', '.05', '.001', '.999', '.9999999']))
timecounts = st.builds(lambda n, f, u: n + f + u, st.one_of(digits(1, 7), st.integers(0, 200).map(str)), frac,
                       st.sampled_from(['h', 'm', 's', 'ms']))
two = st.integers(0, 59).map(lambda i: '%02d' % i)
clocks = st.builds(lambda h, m, s, f: '%s:%s:%s%s' % (h, m, s, f),
                   st.one_of(st.integers(0, 99).map(lambda i: '%02d' % i), st.integers(0, 99999).map(lambda i: '%03d' % i)),
                   two, st.one_of(two, st.just('60')), frac)


@st.composite
def broken(draw):
    s = draw(st.one_of(timecounts, clocks))
    k = draw(st.integers(0, 4))
    i = draw(st.integers(0, len(s)))
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + draw(st.sampled_from('0123456789:.hms -+,xT\u0665')) + s[i:]
    if k == 2:
        return s[:i] + draw(st.sampled_from('0123456789:.hms -+')) + s[i + 1:]
    if k == 3:
        return draw(st.sampled_from(['-', '+', ' ', '', '.'])) + s
    return s + draw(st.sampled_from(['', 's', '.', ':00', '.5', 'ms', ' ', 'h']))


exprs = st.one_of(timecounts, clocks, broken())


def close(got, exact):
    return abs(got - exact) <= Fraction(1, 2) + abs(exact) * Fraction(1, 2 ** 50) + Fraction(1, 1000)


def run_parse(w, case, rec):
    res = w.call('parse_times', items=case)
    nt = 0
    for (k, t), r in zip(case, res):
        ok = PAT[k].fullmatch(t) is not None
        if not ok:
            if 'exc' not in r:
                raise Fail('%s accepted %r' % (k, t))
            if 'SimpleTypeValueError' not in r['exc']['mro'] and 'SimpleFacetValueError' not in r['exc']['mro']:
                raise Fail('%s refused %r with %s' % (k, t, r['exc']['type']))
            rec.label('refused')
            continue
        if 'exc' in r:
            raise Fail('%s refused %r: %s' % (k, t, r['exc']))
        exact = Fraction(time_us(t))
        if not close(r['r']['us'], exact):
            raise Fail('%s %r means %s us, got %s' % (k, t, exact, r['r']['us']))
        rec.label(k)
        rec.label('fraction', '.' in t)
        rec.label('leap second', ':60' in t)
        nt += 1
    rec.nontrivial(nt >= 2)


US = st.one_of(st.integers(0, 400 * 3600 * 1000).map(lambda m: m * 1000), st.integers(0, 120 * 3600).map(lambda s: s * SEC),
               st.integers(0, 110 * 3600 * SEC), st.integers(0, 2000), st.integers(0, 6000).map(lambda m: m * 60 * SEC),
               st.integers(0, 300).map(lambda h: h * 3600 * SEC),
               st.sampled_from([0, 999, 1000, 999999, 59999999, 3599999000, 86399999000, 86400000000,
                                99 * 3600 * SEC + 3599999000, 100 * 3600 * SEC]))


def run_format(w, case, rec):
    res = w.call('format_times', items=case)
    for (k, u), r in zip(case, res):
        over = k == 'limited' and u >= 100 * 3600 * SEC
        if over:
            if r.get('exc', {}).get('type') != 'TimeFormatOverflowError':
                raise Fail('limited clock of %d us: %s' % (u, r))
            rec.label('overflow')
            continue
        if 'exc' in r:
            raise Fail('%s cannot express %d us: %s' % (k, u, r['exc']))
        r = r['r']
        if not PAT[k].fullmatch(r['text']):
            raise Fail('%s of %d us gives %r' % (k, u, r['text']))
        want = u - u % 1000
        if time_us(r['text']) != want or r['us'] != want:
            raise Fail('%s of %d us gives %r, read back as %d us' % (k, u, r['text'], r['us']))
        if r['again'] != r['text']:
            raise Fail('%s: %r became %r' % (k, r['text'], r['again']))
        rec.label('sub-millisecond', u % 1000 != 0)
        rec.nontrivial(u > 0)


@st.composite
def doc_cases(draw):
    tb = draw(st.sampled_from(['clock', 'media']))
    return {'tb': tb, 'cm': draw(st.sampled_from(['local', 'utc'])) if tb == 'clock' else None,
            'attr': draw(st.sampled_from(['begin', 'end', 'dur'])),
            'text': draw(st.one_of(timecounts, clocks, timecounts, clocks, broken().filter(
                lambda s: s == ' '.join(s.split()))))}


def run_doc(w, case, rec):
    r = w.call('doc_time', **case)
    t = case['text']
    kinds = ['timecount', 'limited' if case['tb'] == 'clock' else 'full']
    k = [k for k in kinds if PAT[k].fullmatch(t)]
    if not k:
        if 'exc' not in r:
            raise Fail('%s timeBase accepted %s="%s"' % (case['tb'], case['attr'], t))
        if 'ValidationError' not in r['exc']['mro'] and 'SemanticValidationError' not in r['exc']['mro']:
            raise Fail('%s="%s" refused with %s' % (case['attr'], t, r['exc']))
        rec.label('refused')
        rec.label('clock hours beyond two digits', bool(PAT['full'].fullmatch(t)))
        return
    exact = Fraction(time_us(t))
    if 'exc' in r:
        raise Fail('%s timeBase refused %s="%s": %s' % (case['tb'], case['attr'], t, r['exc']))
    r = r['r']
    if r['v']['text'] != t or r['v2']['text'] != t:
        raise Fail('attribute text changed: %r' % r)
    if k[0] not in r['v']['kind'] or not close(r['v']['us'], exact):
        raise Fail('%s="%s" in a %s document is %s' % (case['attr'], t, case['tb'], r['v']))
    want = r['v']['us'] - r['v']['us'] % 1000
    if kinds[1] not in r['canon']['kind'] or r['canon']['us'] != want:
        raise Fail('document timing type for %d us: %s' % (r['v']['us'], r['canon']))
    rec.label(k[0])
    rec.nontrivial()


def run_doc_checked(w, case, rec):
    t = case['text']
    if PAT['timecount'].fullmatch(t) and case['tb'] == 'clock' and time_us(t) >= 100 * 3600 * SEC:
        # beyond what a clock time can express: only the value of the attribute is looked at
        r = w.call('parse_times', items=[['timecount', t]])[0]
        if 'exc' in r or not close(r['r']['us'], Fraction(time_us(t))):
            raise Fail('%s: %s' % (t, r))
        return
    run_doc(w, case, rec)


def tests(tier):
    kinds = st.sampled_from(['timecount', 'full', 'limited'])
    return [
        Test('parse', st.lists(st.tuples(kinds, exprs).map(list), min_size=1, max_size=12), run_parse, quick=2500, thorough=100000,
             rule='batches of expressions with at least two well-formed ones'),
        Test('format', st.lists(st.tuples(kinds, US).map(list), min_size=1, max_size=12), run_format, quick=2500, thorough=100000,
             rule='batches of durations with one above zero'),
        Test('document', doc_cases, run_doc_checked, quick=1200, thorough=40000, weight=2,
             rule='well-formed attribute values that are accepted in a document'),
    ]
