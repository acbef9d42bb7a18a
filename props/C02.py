"""Computed begin and end times of every timed element and of the document."""
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml

WORKER = ['doc_ops']


@st.composite
def cases(draw):
    tb = draw(st.sampled_from(['clock', 'media', 'clock']))
    return {'sid': 's', 'num': 1, 'tb': tb, 'body': draw(ttml.trees()) if draw(st.integers(0, 29)) else None,
            'avail': draw(st.one_of(st.none(), st.integers(0, 14).map(lambda x: x * ttml.SEC),
                                    st.integers(0, 14000).map(lambda x: x * 1000)))}


def run(w, case, rec):
    got = w.call('parse3', xml=ttml.to_xml(case), avail=case['avail'], want=['times'])
    avail = case['avail'] or 0
    ref = ttml.ref_times(case, avail)
    doc = ttml.doc_times(case, avail)
    n = 0
    for t in got['times']:
        want = ref.pop(tuple(t['path']))
        if (t['b'], t['e']) != want:
            raise Fail('%s at %s: computed times %s, expected %s' % (t['tag'], t['path'], (t['b'], t['e']), want))
        n += 1
    if ref:
        raise Fail('elements without computed times: %s' % sorted(ref))
    if (got['b'], got['e']) != doc:
        raise Fail('document: computed times %s, expected %s' % ((got['b'], got['e']), doc))
    attrs = [x['a'] for _, x in ttml.walk(case['body'])] if case['body'] else []
    rec.label('availability time', bool(avail))
    rec.label('badly timed element', any(ttml.bad(a) for a in attrs))
    rec.label('dur', any('dur' in a for a in attrs))
    rec.label('nested timing', sum('begin' in a for a in attrs) >= 2)
    rec.label('open ended', doc[1] is None)
    rec.label('zero time', any(ttml.time_us(a[k]) == 0 for a in attrs for k in ('begin', 'end', 'dur') if k in a))
    rec.nontrivial(n >= 3 and sum('begin' in a or 'end' in a for a in attrs) >= 2)


def tests(tier):
    return [Test('times', cases, run, quick=2400, thorough=40000,
                 rule='documents with at least three timed elements of which two carry timing attributes')]
