"""Clocks: machine time, media time mapping, fixed time mode, and the clock a document names."""
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml

WORKER = ['clock_ops']
DAY = 86400 * 10 ** 6
EPOCH = 1479000000 * 10 ** 6        # a day in 2016


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['local', 'utc', 'media', 'media', 'media', 'get local', 'get utc', 'get media']))
    t = st.one_of(st.integers(0, DAY - 1), st.sampled_from([0, DAY - 1, DAY // 2]), st.integers(0, 200).map(lambda x: x * 10 ** 6))
    step = st.one_of(st.integers(0, 10 ** 7), st.sampled_from([0, 1000, DAY // 2, DAY, DAY - 1000, 3 * DAY]), st.integers(0, 2 * DAY))
    ops = [st.tuples(st.just('adv'), step), st.tuples(st.just('adv'), step), st.just(('get',)), st.just(('get',)), st.just(('real',)),
           st.tuples(st.just('fix'), t), st.tuples(st.just('mode'), st.sampled_from([True, False, False])), st.just(('is',)),
           st.tuples(st.just('bad-fix'), st.sampled_from([1, 'x', None])), st.tuples(st.just('mode'), st.sampled_from([1, 0, None, 'x']))]
    if 'media' in kind:
        ops += [st.tuples(st.just('adjust'), st.one_of(t, t.map(lambda x: -x)), st.one_of(st.none(), t)),
                st.tuples(st.just('adjust'), t, st.none()),
                st.tuples(st.just('map'), t), st.tuples(st.just('map'), t), st.just(('machine',)),
                st.tuples(st.just('bad-adjust'), st.sampled_from([[5], ['x'], [None]]))]
    return {'kind': kind, 'tz': draw(st.sampled_from([0, 0, 330, -480, 765, -210])),
            'start': EPOCH // DAY * DAY + draw(t),
            'ops': [list(o) for o in draw(st.lists(st.one_of(ops), min_size=2, max_size=16))] + [['get']]}


def run(w, c, rec):
    g = w.call('clock_history', **c)
    kind = c['kind'].split()[-1]
    if (g['tb'], g['cm']) != {'local': ('clock', 'local'), 'utc': ('clock', 'utc'), 'media': ('media', None)}[kind]:
        raise Fail('clock is for %s %s' % (g['tb'], g['cm']))
    now = c['start']
    off = 0 if kind == 'utc' else c['tz'] * 60 * 10 ** 6
    ref = (now, 0)              # machine instant, media time
    fixed, mode = None, False
    days = 0

    def real():
        return now - ref[0] + ref[1] if kind == 'media' else (now + off) % DAY
    for i, (o, (r, exc)) in enumerate(zip(c['ops'], g['out'])):
        want = wexc = None
        if o[0] == 'adv':
            days += (now + off) // DAY != (now + o[1] + off) // DAY
            now += o[1]
        elif o[0] == 'adjust':
            # a local time is one of the current day
            ref = (now if o[2] is None else (now + off) // DAY * DAY - off + o[2], o[1])
        elif o[0] == 'bad-adjust':
            wexc = 'TimeFormatError'
        elif o[0] == 'map':
            want = o[1] - (ref[0] + off) % DAY + ref[1]
        elif o[0] == 'machine':
            want = (now + off) % DAY
        elif o[0] == 'fix':
            fixed = o[1]
        elif o[0] == 'bad-fix':
            wexc = 'TypeError'
        elif o[0] == 'mode':
            if isinstance(o[1], bool):
                mode = o[1]
            else:
                wexc = 'TypeError'
        elif o[0] == 'is':
            want = mode
        elif o[0] == 'get':
            want = fixed if mode else real()
        elif o[0] == 'real':
            want = real()
        ok = r == want or (isinstance(want, int) and isinstance(r, int) and abs(r - want) <= 3) or \
            kind != 'media' and isinstance(want, int) and isinstance(r, int) and abs(r - want) % DAY in (0, 1, 2, 3, DAY - 1, DAY - 2, DAY - 3)
        if exc != wexc or not ok:
            raise Fail('step %d %s of a %s clock: %s, %s instead of %s, %s' % (i, o, kind, r, exc, want, wexc))
    rec.label(kind)
    rec.label('over midnight', days)
    rec.nontrivial(days or mode or kind == 'media')


@st.composite
def doc_cases(draw):
    tb, cm = draw(st.sampled_from([('media', None), ('clock', 'local'), ('clock', 'utc')]))
    d = {'sid': 'S', 'num': draw(st.integers(1, 99)), 'tb': tb, 'cm': cm, 'body': None, 'lang': 'en'}
    return {'doc': d, 'tz': draw(st.sampled_from([0, 330, -480])), 'now': EPOCH + draw(st.integers(0, DAY))}


def run_doc(w, c, rec):
    d = c['doc']
    r = w.call('clock_of_document', xml=ttml.to_xml(d), tz=c['tz'], now=c['now'])
    tb, cm = d['tb'], d.get('cm') or 'local'
    name = 'MediaClock' if tb == 'media' else {'local': 'LocalMachineClock', 'utc': 'UTCClock'}[cm]
    t = 0 if tb == 'media' else (c['now'] + (c['tz'] * 60 * 10 ** 6 if cm == 'local' else 0)) % DAY
    later = t + 1500000 if tb == 'media' else (t + 1500000) % DAY
    want = {'type': name, 'seq': name, 'new': [tb, cm if tb == 'clock' else None]}
    for k in want:
        if r[k] != want[k]:
            raise Fail('%s of a %s %s document: %s instead of %s' % (k, tb, cm, r[k], want[k]))
    if abs(r['time'] - t) > 3 or abs(r['later'] - later) > 3:
        raise Fail('times %s %s instead of %s %s' % (r['time'], r['later'], t, later))
    rec.label(name)
    rec.nontrivial(tb == 'clock')


def tests(tier):
    return [Test('history', cases, run, quick=3000, thorough=60000, rule='media clocks, midnights or fixed times'),
            Test('document', doc_cases, run_doc, quick=300, thorough=4000, weight=2, rule='clock time base')]
