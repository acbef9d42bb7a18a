# -*- coding: utf-8 -*-
from common import *


def xml_of(x):
    return x.get_xml()


@op
def segment(xml, avail=None, cuts=()):
    """cut segments out of one document, one after another: their XML, times, and that each is a document itself"""
    d = mkdoc(xml, avail)
    before = d.get_xml()
    t0 = timed_dump(d)
    out = {'segs': []}
    for b, e, dec in cuts:
        def f():
            s = d.extract_segment(begin=td(b), end=td(e), deconflict_ids=dec)
            r = {'xml': s.get_xml(), 'b': us(s.computed_begin_time), 'e': us(s.computed_end_time), 'num': s.sequence_number,
                 'times': timed_dump(s)}
            again = EBUTT3Document.create_from_xml(r['xml'])
            r['again'] = [us(again.computed_begin_time), us(again.computed_end_time)]
            return r
        out['segs'].append(attempt(f))
    out['same'] = d.get_xml() == before and timed_dump(d) == t0
    return out


@op
def verdicts(xmls, encode=False):
    """parse documents one after another: a summary of each or the exception"""
    out = []
    for x in xmls:
        if encode:
            x = x.encode('utf-8')
        def f():
            d = EBUTT3Document.create_from_xml(x)
            return {'b': us(d.computed_begin_time), 'e': us(d.computed_end_time), 'sid': d.sequence_identifier,
                    'num': unicode(d.sequence_number), 'xml': d.get_xml(), 'times': timed_dump(d)}
        out.append(attempt(f))
    return out
