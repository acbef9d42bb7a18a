# -*- coding: utf-8 -*-
from common import *
from ebu_tt_live.bindings import ebuttdt

KINDS = {'timecount': ebuttdt.TimecountTimingType, 'full': ebuttdt.FullClockTimingType,
         'limited': ebuttdt.LimitedClockTimingType}


def _val(v):
    return {'text': unicode(v), 'us': us(v.timedelta), 'kind': [k for k, c in KINDS.items() if isinstance(v, c)]}


@op
def parse_times(items):
    return [attempt(lambda: _val(KINDS[k](t))) for k, t in items]


@op
def format_times(items):
    """timedelta -> text -> timedelta"""
    out = []
    for k, u in items:
        def f():
            v = KINDS[k](td(u))
            return {'text': unicode(v), 'us': us(v.timedelta), 'again': unicode(KINDS[k](v.timedelta))}
        out.append(attempt(f))
    return out


@op
def doc_time(tb, cm, attr, text):
    """the value a begin/end/dur attribute has in a parsed document, and after writing it out and back"""
    xml = (u'<tt:tt xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" '
           u'xmlns:ebuttp="urn:ebu:tt:parameters" xml:lang="en" ttp:timeBase="%s" %s '
           u'ebuttp:sequenceIdentifier="s" ebuttp:sequenceNumber="1"><tt:head/><tt:body %s="%s"/></tt:tt>' % (
               tb, cm and u'ttp:clockMode="%s"' % cm or u'', attr, text))

    def f():
        d = EBUTT3Document.create_from_xml(xml)
        v = getattr(d.binding.body, attr)
        d2 = EBUTT3Document.create_from_xml(d.get_xml())
        v2 = getattr(d2.binding.body, attr)
        return {'v': _val(v), 'v2': _val(v2), 'canon': _val(d.binding.get_timing_type(v.timedelta))}
    return attempt(f)
