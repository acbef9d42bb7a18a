# -*- coding: utf-8 -*-
"""operations on the buffer delay and on duplicate detection over long histories"""
from pipe_ops import *
import tempfile, shutil, codecs
from twisted.internet import task
from ebu_tt_live.twisted import websocket as wsmod
from ebu_tt_live.carriage.websocket import WebsocketProducerCarriage
from ebu_tt_live.carriage.filesystem import FilesystemProducerImpl
from ebu_tt_live.node.base import AbstractConsumerNode

DOC = (u'<?xml version="1.0" encoding="UTF-8"?><tt:tt xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter"'
       u' xmlns:ebuttp="urn:ebu:tt:parameters" xml:lang="en" ttp:timeBase="media" ebuttp:sequenceIdentifier="x" ebuttp:sequenceNumber="1">'
       u'<tt:head/><tt:body><tt:div><tt:p xml:id="p" begin="1s" end="2s">x</tt:p></tt:div></tt:body></tt:tt>')


class Recorder(AbstractConsumerNode):
    """any other consumer: emits what is not seen before"""
    _expects = EBUTT3Document

    def __init__(self, sink):
        super(Recorder, self).__init__('n')
        self.sink = sink

    def process_document(self, document, **kwargs):
        if self.check_if_document_seen(document):
            self.sink.emit_data(document)


@op
def dup_history(kind, sids, events):
    sink = Sink(six.text_type if kind == 'distributing' else EBUTT3Document)
    if kind == 'base':
        node = Recorder(sink)
    else:
        node = build(kind, {'delay': 1, 'seq': 'out'})
        node.register_producer_carriage(sink)
    d = EBUTT3Document.create_from_xml(DOC)
    res = []
    for s, n in events:
        k = len(sink.out)
        if kind == 'retiming':
            d = EBUTT3Document.create_from_xml(DOC)
        d.sequence_identifier = sids[s]
        d.sequence_number = n
        if kind == 'distributing':
            node.process_document(d, raw_xml=u'%s %d' % (sids[s], n))
            for t, _ in sink.out[k:]:
                if t != u'%s %d' % (sids[s], n):
                    raise AssertionError('altered')
        else:
            node.process_document(d)
        res.append(len(sink.out) - k)
    return res


class Conn(object):
    def __init__(self, clock, log, number, sid):
        self.clock, self.log, self.number, self.sid = clock, log, number, sid

    def sendSequenceMessage(self, sequence_identifier, payload, *a, **k):
        if sequence_identifier == self.sid:
            self.log.append([self.clock.seconds(), self.number, payload.decode('utf-8')])


def go(clock, until):
    # from call to call, so that each one sees the time it was due at
    while clock.getDelayedCalls():
        t = min(c.getTime() for c in clock.getDelayedCalls())
        if until is not None and t > until:
            break
        clock.advance(max(0, t - clock.seconds()))
    if until is not None:
        clock.advance(until - clock.seconds())


@op
def buffer_run(delay, events, conns):
    clock = task.Clock()
    log = []
    saved = wsmod.reactor.__dict__.get('callLater')
    wsmod.reactor.callLater = clock.callLater
    try:
        node = BufferDelayNode(node_id='n', fixed_delay=delay)
        src = Source(six.text_type)
        ConsumerNodeCarriageAdapter(consumer_node=node, consumer_carriage=src)
        car = WebsocketProducerCarriage()
        ProducerNodeCarriageAdapter(producer_node=node, producer_carriage=car)
        push = wsmod.TwistedWSPushProducer(car)
        push._callLater = clock.callLater
        for i, s in enumerate(conns):
            push.register(Conn(clock, log, i, s))
        # a second node shows what the node itself hands over
        node2 = BufferDelayNode(node_id='n', fixed_delay=delay)
        sink = Sink(six.text_type)
        node2.register_producer_carriage(sink)
        emits = []
        for e in events:
            go(clock, e['t'] / 1000.0)
            kw = {'sequence_identifier': e['sid']}
            if e['avail'] is not None:
                kw['availability_time'] = td(e['avail'])
            src.on_new_data(e['text'], **kw)
            n = len(sink.out)
            node2.process_document(e['text'], **kw)
            emits.append([{'data': d, 'kw': jkw(dict({'availability_time': None}, **k))} for d, k in sink.out[n:]])
        go(clock, None)
        return {'emits': emits, 'writes': log}
    finally:
        if saved is None:
            del wsmod.reactor.callLater
        else:
            wsmod.reactor.callLater = saved


@op
def buffer_file(delay, events):
    dirn = tempfile.mkdtemp('bd')
    try:
        node = BufferDelayNode(node_id='n', fixed_delay=delay)
        out = FilesystemProducerImpl(dirpath=os.path.join(dirn, 'o'))
        node.register_producer_carriage(out)
        for e in events:
            node.process_document(e['text'], sequence_identifier='s', time_base='media', availability_time=td(e['avail']))
        res = []
        names = [x for x in os.listdir(os.path.join(dirn, 'o')) if x.startswith('manifest')]
        if len(names) != 1:
            raise AssertionError('manifests %r' % (names,))
        with codecs.open(os.path.join(dirn, 'o', names[0]), encoding='utf-8') as f:
            for line in f:
                t, n = line.strip().split(',')
                with codecs.open(os.path.join(dirn, 'o', n), encoding='utf-8') as g:
                    res.append([t, g.read()])
        return res
    finally:
        shutil.rmtree(dirn)
