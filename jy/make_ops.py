# -*- coding: utf-8 -*-
"""documents made by program: the simple producer, and the document and binding classes"""
from common import *
from node_ops import Sink, StubClock
from ebu_tt_live.bindings import (div_type, p_type, span_type, br_type, style_type, region_type, styling, layout, body_type,
                                  ebuttdt, tt_type)
from ebu_tt_live.documents.base import TimeBase
from ebu_tt_live.node import SimpleProducer
from ebu_tt_live.errors import EndOfData


@op
def produce(blocks, times, sid, lang, tb, cm, last=0, group=None, again=True):
    """run a simple producer; report every document made and whether its text can be read again"""
    clk = StubClock(tb, cm)
    seq = EBUTT3DocumentSequence(sequence_identifier=sid, reference_clock=clk, lang=lang, authors_group_identifier=group)
    if last:
        seq.last_sequence_number = last
    sink = Sink(EBUTT3Document)
    node = SimpleProducer(node_id='n', producer_carriage=sink, document_sequence=seq,
                          input_blocks=None if blocks is None else iter(blocks))
    out = []
    for t in times:
        clk.now = t
        n = len(sink.out)
        r = attempt(node.process_document)

        def f():
            docs = []
            for d, kw in sink.out[n:]:
                x = d.get_xml()
                docs.append({'xml': x, 'b': us(d.computed_begin_time), 'e': us(d.computed_end_time),
                             'num': d.sequence_number, 'kw': sorted(kw)})
                e = EBUTT3Document.create_from_xml(x)
                docs[-1]['b2'], docs[-1]['e2'] = us(e.computed_begin_time), us(e.computed_end_time)
            return docs
        r['docs'] = attempt(f)
        r['last'] = seq.last_sequence_number
        out.append(r)
    return out


TYPES = {'clk': 'LimitedClockTimingType', 'full': 'FullClockTimingType', 'cnt': 'TimecountTimingType'}


def _time(v):
    form, x = v
    cls = getattr(ebuttdt, TYPES[form])
    return cls(td(x)) if isinstance(x, (int, long)) else cls(x)


def _node(n):
    a = {}
    for k, v in n['a'].items():
        k = {'xml:id': 'id'}.get(k, k)
        if k in ('begin', 'end', 'dur'):
            v = _time(v)
        if k == 'style':
            v = v.split()
        a[str(k)] = v
    kids = [c if isinstance(c, basestring) else _node(c) for c in n['c']]
    if n['t'] == 'br':
        return br_type()
    cls = {'div': div_type, 'p': p_type, 'span': span_type}[n['t']]
    if n.get('late'):
        # the attributes and children are set afterwards
        x = cls()
        for k in a:
            setattr(x, k, a[k])
        for c in kids:
            x.append(c)
        return x
    return cls(*kids, _strict_keywords=False, **a)


@op
def build(doc, probe=()):
    """build a document with the classes of the toolkit"""
    return attempt(_build, doc, probe)


def _build(doc, probe):
    kw = {}
    if doc.get('avail') is not None:
        kw['availability_time'] = td(doc['avail'])
    d = EBUTT3Document(time_base={'clock': TimeBase.CLOCK, 'media': TimeBase.MEDIA}[doc['tb']], clock_mode=doc.get('cm'),
                       sequence_number=doc['num'], sequence_identifier=doc['sid'], lang=doc['lang'],
                       authors_group_identifier=doc.get('group'), **kw)
    def sty(s):
        s = dict((str({'xml:id': 'id'}.get(k, k.split(':')[-1])), v) for k, v in s.items())
        if 'style' in s:
            s['style'] = s['style'].split()
        return s
    if doc.get('ext'):
        d.binding.extent = doc['ext']
    if doc['styles']:
        d.binding.head.styling = styling(*[style_type(**sty(s)) for s in doc['styles']])
    if doc['regions']:
        d.binding.head.layout = layout(*[region_type(**sty(r)) for r in doc['regions']])
    for c in doc['body']['c']:
        d.add_div(_node(c))
    for k, f in (('begin', d.set_begin), ('end', d.set_end), ('dur', d.set_dur)):
        if k in doc['body']['a']:
            f(_time(doc['body']['a'][k]))
    for k, v in doc.get('set', []):
        setattr(d, str(k), v)
    d.validate()
    out = {'b': us(d.computed_begin_time), 'e': us(d.computed_end_time), 'times': timed_dump(d), 'xml': d.get_xml(),
           'attrs': [d.sequence_identifier, d.sequence_number, d.lang, unicode(d.time_base), d.clock_mode and unicode(d.clock_mode),
                     d.authors_group_identifier, us(d.availability_time)]}
    out['dom'] = d.get_dom().toxml('utf-8').decode('utf-8')
    e = EBUTT3Document.create_from_xml(out['xml'], **kw)
    out['again'] = {'b': us(e.computed_begin_time), 'e': us(e.computed_end_time), 'times': timed_dump(e), 'xml': e.get_xml()}
    out['ids'] = []
    for i in probe:
        def f(x):
            el = x.get_element_by_id(i)
            return [el.id, tagof(el) if tagof(el) != type(el).__name__ else type(el).__name__.replace('_type', '')]
        out['ids'].append([attempt(lambda: f(d)), attempt(lambda: f(e))])
    return out
