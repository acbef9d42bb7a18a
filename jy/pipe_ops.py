# -*- coding: utf-8 -*-
"""operations on chains of nodes, connected as the configuration connects them"""
from node_ops import *
from ebu_tt_live.carriage.direct import DirectCarriageImpl
from ebu_tt_live.carriage.base import AbstractCombinedCarriage
from ebu_tt_live.adapters.node_carriage import ProducerNodeCarriageAdapter, ConsumerNodeCarriageAdapter
from ebu_tt_live.adapters import document_data
from ebu_tt_live.documents import EBUTT3ObjectBase, EBUTTDDocument
from ebu_tt_live.node.switcher import SwitcherNode

TYPES = {'text': six.text_type, 'ebutt3': EBUTT3Document, 'ebuttd': EBUTTDDocument}


class Source(AbstractConsumerCarriage):
    """a consumer carriage that delivers what the test gives it"""
    def __init__(self, provides):
        self._p = provides

    def provides(self):
        return self._p

    def on_new_data(self, data, **kwargs):
        self.consumer_node.process_document(data, **kwargs)


def build(kind, p):
    if kind == 'distributing':
        return DistributingNode(node_id='n')
    if kind == 'bufferdelay':
        return BufferDelayNode(node_id='n', fixed_delay=p['delay'])
    if kind == 'retiming':
        return RetimingDelayNode(node_id=p.get('id', 'n'), fixed_delay=p['delay'], document_sequence=p['seq'])
    if kind == 'handover':
        return HandoverNode(node_id='n', authors_group_identifier=p['group'], sequence_identifier=p['seq'])
    if kind == 'dedup':
        return DeDuplicatorNode(node_id='n', sequence_identifier=p['seq'])
    if kind == 'encoder':
        return EBUTTDEncoder(node_id='n', media_time_zero=td(p.get('zero', 0)), default_ns=p.get('ns', False))
    raise KeyError(kind)


def shown(data):
    if isinstance(data, basestring):
        return {'text': data}
    out = {'type': type(data).__name__, 'text': data.get_xml()}
    if isinstance(data, EBUTT3ObjectBase):
        out['sid'] = data.sequence_identifier
        out['avail'] = us(data.availability_time)
    if isinstance(data, EBUTT3Document):
        out['num'] = data.sequence_number
        out['b'], out['e'] = us(data.computed_begin_time), us(data.computed_end_time)
        out['revalidates'] = 'exc' not in attempt(data.validate)
    return out


def make(ev):
    d, _ = document_data.XMLtoEBUTT3Adapter().convert_data(ev['xml'], availability_time=td(ev.get('avail')))
    return d


@op
def pipe(stages, events, feed='xml', out=None):
    """feed: xml (text through an adapter) or doc (objects); out: text or None (what the last node provides)"""
    nodes = [build(k, p) for k, p in stages]
    first = nodes[0]
    src = Source(six.text_type if feed == 'xml' else first.expects())
    ConsumerNodeCarriageAdapter(consumer_node=first, consumer_carriage=src)
    for a, b in zip(nodes, nodes[1:]):
        c = DirectCarriageImpl()
        ProducerNodeCarriageAdapter(producer_node=a, producer_carriage=c)
        ConsumerNodeCarriageAdapter(consumer_node=b, consumer_carriage=c)
    sink = Sink(TYPES[out] if out else nodes[-1].provides())
    ProducerNodeCarriageAdapter(producer_node=nodes[-1], producer_carriage=sink)
    res = []
    for ev in events:
        n = len(sink.out)
        kw = dict(ev.get('kw') or {})
        if feed == 'xml':
            data = ev['xml']
            if ev.get('avail') is not None:
                kw['availability_time'] = td(ev['avail'])
        else:
            data = make(ev) if first.expects() is EBUTT3Document else ev['xml']
        if ev.get('raw'):
            kw['raw_xml'] = ev['xml']
        r = attempt(src.on_new_data, data, **kw)
        item = {'out': [{'data': shown(d), 'kw': jkw(k)} for d, k in sink.out[n:]]}
        if 'exc' in r:
            item['exc'] = r['exc']
        res.append(item)
    return res
