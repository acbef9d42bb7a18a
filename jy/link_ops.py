# -*- coding: utf-8 -*-
"""operations on connections of nodes and carriages through data adapters"""
from pipe_ops import *
from ebu_tt_live.node.base import AbstractCombinedNode, AbstractConsumerNode, AbstractProducerNode
from ebu_tt_live.utils import ANY
from ebu_tt_live.clocks.media import MediaClock


class Other(object):
    pass


KINDS = {'text': six.text_type, 'ebutt3': EBUTT3Document, 'ebuttd': EBUTTDDocument, 'other': Other, 'any': ANY}
ADAPTERS = {'x3': document_data.XMLtoEBUTT3Adapter, 'xd': document_data.XMLtoEBUTTDAdapter, '3x': document_data.EBUTT3toXMLAdapter,
            'dx': document_data.EBUTTDtoXMLAdapter, '3d': document_data.EBUTT3toEBUTTDAdapter}


def consumer_node(kind):
    class N(AbstractConsumerNode):
        _expects = KINDS[kind]

        def __init__(self):
            super(N, self).__init__(node_id='n')
            self.got = []

        def process_document(self, document, **kw):
            self.got.append((document, kw))
    return N()


def producer_node(kind):
    class N(AbstractProducerNode):
        _provides = KINDS[kind]

        def process_document(self, document, **kw):
            self.producer_carriage.emit_data(document, **kw)

        pulled = 0

        def resume_producing(self):
            self.pulled += 1
    return N(node_id='n')


def mkadapter(a):
    if isinstance(a, list):
        clk = MediaClock()
        clk.adjust_time(timedelta(), td(a[1]))
        return ADAPTERS[a[0]](media_clock=clk)
    return ADAPTERS[a]()


def link(direction, node, carriage, adapters):
    ad = None if adapters is None else [mkadapter(a) for a in adapters]
    if direction == 'in':
        n, c = consumer_node(node), Source(KINDS[carriage])
        f = lambda: ConsumerNodeCarriageAdapter(consumer_node=n, consumer_carriage=c, data_adapters=ad)
    else:
        n, c = producer_node(node), Sink(KINDS[carriage])
        f = lambda: ProducerNodeCarriageAdapter(producer_node=n, producer_carriage=c, data_adapters=ad)
    return n, c, f


def view(d):
    if isinstance(d, EBUTT3ObjectBase):
        return shown(d)
    if isinstance(d, EBUTTDDocument):
        return {'type': 'EBUTTDDocument', 'text': d.get_xml()}
    return {'text': d, 'unicode': isinstance(d, unicode)} if isinstance(d, basestring) else {'repr': repr(d)}


@op
def connect(direction, node, carriage, adapters):
    n, c, f = link(direction, node, carriage, adapters)
    r = attempt(lambda: bool(f()))
    r['node'] = (n.consumer_carriage if direction == 'in' else n.producer_carriage) is not None
    r['carriage'] = (c.consumer_node if direction == 'in' else c.producer_node) is not None
    if 'r' in r and direction == 'out':
        # triggers travel the other way
        c.resume_producing()
        r['pulled'] = n.pulled
    return r


@op
def connect_plain(direction, node, carriage, what='carriage'):
    """without an adapter between them"""
    if direction == 'in':
        n, c = consumer_node(node), Source(KINDS[carriage])
        r = attempt(lambda: n.register_consumer_carriage({'carriage': c, 'node': consumer_node(node), 'sink': Sink(KINDS[carriage])}[what]))
        r['node'], r['carriage'] = n.consumer_carriage is not None, c.consumer_node is not None
    else:
        n, c = producer_node(node), Sink(KINDS[carriage])
        r = attempt(lambda: n.register_producer_carriage({'carriage': c, 'node': producer_node(node), 'sink': Source(KINDS[carriage])}[what]))
        r['node'], r['carriage'] = n.producer_carriage is not None, c.producer_node is not None
    return r


@op
def convey(direction, node, carriage, adapters, items):
    """send data through a connection; ebutt3 and ebuttd data are made from text first"""
    n, c, f = link(direction, node, carriage, adapters)
    f()
    start = carriage if direction == 'in' else node
    out = []
    for it in items:
        kw = dict(it.get('kw') or {})
        if it.get('avail') is not None:
            kw['availability_time'] = td(it['avail'])
        if start == 'ebutt3':
            data = make(it)
            kw.pop('availability_time', None)
            kw.pop('sequence_identifier', None)
        elif start == 'ebuttd':
            data = EBUTTDDocument.create_from_xml(it['xml'])
        else:
            data = it['xml']
        got = n.got if direction == 'in' else c.out
        k = len(got)
        send = (lambda: c.on_new_data(data, **kw)) if direction == 'in' else (lambda: n.process_document(data, **kw))
        r = attempt(lambda: send() and None)
        r['got'] = []
        for d, g in got[k:]:
            v = attempt(lambda: view(d))
            v['kw'] = jkw(g)
            r['got'].append(v)
        out.append(r)
    return out
