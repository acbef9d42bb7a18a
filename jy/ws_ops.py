# -*- coding: utf-8 -*-
"""websocket servers and clients on a network that is a pair of byte queues per connection"""
from common import *
import json as _json
from twisted.internet import task
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.python.failure import Failure
from twisted.internet.address import IPv4Address
from ebu_tt_live.errors import UnexpectedSequenceIdentifierError
from ebu_tt_live.carriage.websocket import WebsocketProducerCarriage, WebsocketConsumerCarriage
from ebu_tt_live.node.base import AbstractConsumerNode, AbstractProducerNode
from ebu_tt_live.twisted import websocket as ws
from ebu_tt_live.twisted import TwistedConsumer

URL = 'ws://localhost:9005'


class Taker(AbstractConsumerNode):
    """what it is told to refuse, it refuses"""

    def __init__(self):
        super(Taker, self).__init__(node_id='taker')
        self.got = []

    _expects = unicode

    @classmethod
    def expects(cls):
        return unicode

    def process_document(self, document, **kwargs):
        self.got.append([document if isinstance(document, unicode) else repr(document)[:200], kwargs.get('sequence_identifier'), type(document).__name__,
                         sorted(kwargs)])
        if document[:5] == 'WRONG':
            raise UnexpectedSequenceIdentifierError()
        if document[:4] == 'FAIL':
            raise ValueError(u'no \xe9')


class Giver(AbstractProducerNode):
    def __init__(self):
        super(Giver, self).__init__(node_id='giver')
        self.resumed = 0

    @classmethod
    def provides(cls):
        return unicode

    def process_document(self, document, **kwargs):
        self.resumed += 1


class Transport(object):
    """one end of a connection: writes go to the queue; losing it takes effect after the running event, as with a reactor"""
    disconnecting = False

    def __init__(self, n):
        self.out, self.n = '', n
        self.lose = self.gone = None
        self.peer = None
        self.protocol = None
        self.fed = self.sent = 0

    def write(self, data):
        if not isinstance(data, str):
            raise TypeError('data must be bytes')
        if self.gone is None and self.lose != 'abort':
            self.out += data
            self.sent += len(data)

    def writeSequence(self, parts):
        for p in parts:
            self.write(p)

    def loseConnection(self, *a):
        self.lose = self.lose or 'close'

    def abortConnection(self):
        self.lose = 'abort'

    def getPeer(self):
        return IPv4Address('TCP', '127.0.0.1', 40000 + self.n)

    def getHost(self):
        return IPv4Address('TCP', '127.0.0.1', 9005)

    def setTcpNoDelay(self, on):
        pass

    def registerProducer(self, p, s):
        pass

    def unregisterProducer(self):
        pass


class Net(object):
    def __init__(self):
        self.links = {}
        self.errors = []

    def connect(self, n, client, server):
        """client, server: protocol factories"""
        a, b = Transport(n), Transport(n)
        a.peer, b.peer = b, a
        self.links[n] = (a, b)
        for t, f in ((a, client), (b, server)):
            t.protocol = f.buildProtocol(t.getPeer())
            t.protocol.transport = t
        for t in (a, b):
            self.guard(t, t.protocol.makeConnection, t)
        self.settle()

    def guard(self, t, f, *args):
        try:
            f(*args)
        except Exception:
            # what the reactor does with a failing protocol
            self.errors.append([t.n, 'client' if self.links[t.n][0] is t else 'server', describe_exc()])
            self.gone(t, Failure(ConnectionLost()))

    def gone(self, t, why):
        if t.gone is None:
            t.gone = True
            try:
                t.protocol.connectionLost(why)
            except Exception:
                self.errors.append([t.n, 'lost', describe_exc()])

    def settle(self):
        """what the reactor does between two events"""
        for n in sorted(self.links):
            a, b = self.links[n]
            for t in (a, b):
                if t.gone is None and t.lose == 'abort':
                    t.out = ''
                    self.gone(t, Failure(ConnectionLost()))
                elif t.gone is None and t.lose == 'close' and (not t.out or t.peer.gone):
                    self.gone(t, Failure(ConnectionDone()))

    def feed(self, t, n):
        """n bytes of what the other end sent arrive"""
        if t.gone is None:
            data, t.peer.out = t.peer.out[:n], t.peer.out[n:]
            if data:
                t.fed += len(data)
                if t.lose is None:
                    self.guard(t, t.protocol.dataReceived, data)
            if t.peer.gone and not t.peer.out and t.gone is None:
                self.gone(t, Failure(ConnectionDone()))
        else:
            t.peer.out = ''
        self.settle()

    def flush(self, n=None, size=1 << 20):
        for _ in range(200000):
            busy = False
            for k in ([n] if n is not None else sorted(self.links)):
                a, b = self.links[k]
                for t in (a, b):
                    if t.peer.out or (t.peer.gone and t.gone is None):
                        self.feed(t, size)
                        busy = True
            if not busy:
                return
        raise RuntimeError('the connections do not come to rest')


def quiet(f):
    f.setProtocolOptions(openHandshakeTimeout=0, closeHandshakeTimeout=0)
    return f


def quiet_client(f):
    f.setProtocolOptions(openHandshakeTimeout=0, closeHandshakeTimeout=0, serverConnectionDropTimeout=0)
    return f


class RawProtocol(ws.WebSocketClientProtocol):
    def onMessage(self, payload, isBinary):
        self.factory.got.append(payload.decode('utf-8', 'replace'))


class Raw(ws.WebSocketClientFactory):
    protocol = RawProtocol

    def __init__(self, path, url=URL):
        super(Raw, self).__init__(url=url + '/x/subscribe')
        self.resource = path
        self.got = []


def push(clock):
    c = WebsocketProducerCarriage()
    node = Giver()
    node.register_producer_carriage(c)
    p = ws.TwistedWSPushProducer(custom_producer=c)
    p._callLater = clock.callLater
    return c, p


def pull():
    c = WebsocketConsumerCarriage()
    node = Taker()
    node.register_consumer_carriage(c)
    return node, ws.TwistedWSConsumer(custom_consumer=c)


def states(net):
    r = {}
    for n, (a, b) in net.links.items():
        r[str(n)] = [a.gone is None and a.lose is None, b.gone is None and b.lose is None]
    return r


@op
def broadcast(events, producer=True, consumer=True):
    """events on one server; returns who got what"""
    clock = task.Clock()
    net = Net()
    scar, sprod = push(clock) if producer else (None, None)
    snode, scons = pull() if consumer else (None, None)
    server = quiet(ws.BroadcastServerFactory(URL, producer=sprod, consumer=scons))
    server.protocol = ws.BroadcastServerProtocol
    givers, takers, raws, req = {}, {}, {}, {}
    log = []

    def giver(g):
        if g not in givers:
            givers[g] = push(clock)
        return givers[g]

    def taker(g):
        if g not in takers:
            takers[g] = pull()
        return takers[g]
    for e in events:
        k = e[0]
        if k == 'open':
            n, group, path, action, kinds, size = e[1:]
            f = quiet_client(ws.BroadcastClientFactory(url=URL + path, producer=giver(group)[1] if 'p' in kinds else None,
                                                       consumer=taker(group)[1] if 'c' in kinds else None))
            f.protocol = ws.BroadcastClientProtocol
            net.connect(n, f, server)
            req[n] = net.links[n][0].sent
            if size:
                net.flush(n, size)
        elif k == 'raw':
            n, path, size = e[1:]
            f = quiet_client(Raw(path))
            raws[n] = f
            net.connect(n, f, server)
            req[n] = net.links[n][0].sent
            net.flush(n, size)
        elif k == 'junk':
            # something that is no websocket client
            n, data = e[1:]
            f = quiet_client(Raw('/x/subscribe'))
            net.connect(n, f, server)
            net.links[n][0].out = data.encode('utf-8')
            req[n] = 1 << 30
            net.flush(n)
            net.links[n][0].loseConnection()
            net.settle()
        elif k == 'pump':
            n, side, size = e[1:]
            if n in net.links:
                net.feed(net.links[n][side], size)
        elif k == 'pub':
            scar.emit_data(e[2], sequence_identifier=e[1], **({} if e[3] is None else {'delay': e[3]}))
        elif k == 'cpub':
            giver(e[1])[0].emit_data(e[3], sequence_identifier=e[2], **({} if e[4] is None else {'delay': e[4]}))
        elif k == 'advance':
            clock.advance(e[1])
        elif k in ('send', 'sendb'):
            # this end says something, whatever its role is
            n, side, text = e[1:]
            if n in net.links:
                net.links[n][side].protocol.sendMessage(text.encode('utf-8') if k == 'send' else text.encode('latin-1'), isBinary=k == 'sendb')
        elif k == 'close':
            n, side = e[1:]
            if n in net.links:
                try:
                    net.links[n][side].protocol.sendClose()
                except Exception as x:
                    if 'not yet connected' not in str(x):
                        raise
                    net.links[n][side].loseConnection()
        elif k == 'lost':
            n = e[1]
            if n in net.links:
                for t in net.links[n]:
                    t.out = ''
                    net.gone(t, Failure(ConnectionLost()))
        elif k == 'flush':
            net.flush(e[1] if e[1] in net.links else None, e[2])
        else:
            raise RuntimeError(k)
        net.settle()
        # who has asked for what is a fact of the network
        log.append(sorted(n for n, (a, b) in net.links.items() if b.fed >= req[n]))
    clock.advance(100000)
    net.flush()
    return {'server': snode.got if snode else None, 'takers': dict((str(g), t[0].got) for g, t in takers.items()), 'states': states(net),
            'errors': net.errors, 'asked': log, 'raws': dict((str(n), f.got) for n, f in raws.items())}


class Once(ws.WebSocketClientProtocol):
    def onMessage(self, payload, isBinary):
        self.factory.got.append(payload.decode('utf-8', 'replace'))


@op
def userinput(events):
    """the server of the user input page: every message is answered"""
    net = Net()
    c = WebsocketConsumerCarriage()
    node = Taker()
    node.register_consumer_carriage(c)
    server = quiet(ws.UserInputServerFactory(URL, consumer=TwistedConsumer(custom_consumer=c)))
    server.protocol = ws.UserInputServerProtocol
    raws = {}
    for e in events:
        if e[0] == 'open':
            raws[e[1]] = quiet_client(Raw('/'))
            net.connect(e[1], raws[e[1]], server)
            net.flush(e[1], e[2])
        elif e[0] == 'send':
            if e[1] in net.links:
                net.links[e[1]][0].protocol.sendMessage(e[2].encode('utf-8'))
        elif e[0] == 'close':
            if e[1] in net.links:
                net.links[e[1]][0].protocol.sendClose()
        elif e[0] == 'flush':
            net.flush(None, e[2])
        net.settle()
    net.flush()
    return {'got': node.got, 'replies': dict((str(n), f.got) for n, f in raws.items()), 'states': states(net), 'errors': net.errors}


class Gate(object):
    def __init__(self):
        self.got = []

    def on_new_data(self, data, **kw):
        self.got.append(data if isinstance(data, unicode) else data.decode('utf-8'))


@op
def legacy(events):
    """the older protocol: clients tell the server which channels they want"""
    net = Net()
    server = quiet(ws.LegacyBroadcastServerFactory(URL))
    server.protocol = ws.LegacyBroadcastServerProtocol
    gates = {}
    for e in events:
        k = e[0]
        if k == 'open':
            n, channels, size = e[1:]
            gates[n] = Gate()
            f = quiet_client(ws.LegacyBroadcastClientFactory(URL, consumer=TwistedConsumer(custom_consumer=gates[n]), channels=channels))
            f.protocol = ws.LegacyBroadcastClientProtocol
            net.connect(n, f, server)
            net.flush(n, size)
        elif k == 'pub':
            server.write(e[1], e[2])
        elif k == 'subscribe' and e[1] in net.links:
            net.links[e[1]][0].protocol.subscribeChannel(e[2])
            net.flush(e[1])
        elif k == 'unsubscribe' and e[1] in net.links:
            net.links[e[1]][0].protocol.unsubscribeChannel(e[2])
            net.flush(e[1])
        elif k == 'send' and e[1] in net.links:
            net.links[e[1]][0].protocol.sendMessage(e[2].encode('utf-8'))
            net.flush(e[1])
        elif k == 'close' and e[1] in net.links:
            net.links[e[1]][0].protocol.sendClose()
            net.flush(e[1])
        elif k == 'lost' and e[1] in net.links:
            for t in net.links[e[1]]:
                t.out = ''
                net.gone(t, Failure(ConnectionLost()))
        net.settle()
    net.flush()
    return {'got': dict((str(n), g.got) for n, g in gates.items()), 'states': states(net), 'errors': net.errors}
