"""Validation accepts exactly the valid documents, whatever was processed before."""
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml, rules
from vlib.refusal import refused
from props import C07

WORKER = ['doc_ops']


@st.composite
def cases(draw, breaking=1):
    d = draw(C07.cases())
    base = ET.fromstring(ttml.to_xml(d).encode('utf-8'))
    text = ttml.to_xml(d)
    pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
    docs = [{'ok': True, 'rule': 'base', 'xml': text}]
    for _ in range(draw(st.integers(2, 5))):
        ok = draw(st.integers(0, 3)) == 0
        rule = pick(sorted(rules.KEEP if ok else rules.BREAK))
        root = ET.fromstring(text.encode('utf-8'))
        if (rules.KEEP if ok else rules.BREAK)[rule](root, pick) is None:
            continue
        docs.append({'ok': ok, 'rule': rule, 'xml': rules.text_of(root)})
        if draw(st.integers(0, 3)) == 0:
            docs.append(docs[0])
    docs.append(docs[0])
    return {'docs': docs, 'bytes': draw(st.booleans())}


def run(w, case, rec):
    out = w.call('verdicts', xmls=[d['xml'] for d in case['docs']], encode=case['bytes'])
    first = None
    for d, r in zip(case['docs'], out):
        if 'exc' in r and not refused(r['exc']):
            raise Fail('%s: %s: %s %s' % (d['rule'], r['exc']['type'], r['exc']['msg'], r['exc']['tb']), sig='unclean:' + r['exc']['type'])
        if d['ok'] and 'exc' in r:
            raise Fail('a valid document (%s) is refused: %s\n%s' % (d['rule'], r['exc']['msg'], d['xml']), sig='refused')
        if not d['ok'] and 'r' in r:
            raise Fail('an invalid document (%s) is accepted\n%s' % (d['rule'], d['xml']), sig='accepted:' + d['rule'])
        if d['rule'] == 'base':
            if first is None:
                first = r['r']
            elif r['r'] != first:
                raise Fail('the same document is read differently after others')
        else:
            rec.label(('keeps ' if d['ok'] else 'breaks ') + d['rule'])
    rec.nontrivial(any(not d['ok'] for d in case['docs']))


def tests(tier):
    return [Test('verdicts', cases, run, quick=700, thorough=30000, rule='histories with at least one document that breaks a rule')]
