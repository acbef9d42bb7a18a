# -*- coding: utf-8 -*-
"""operations on what a configuration builds, against the same nodes wired by hand"""
from ws_ops import *
from clock_ops import machine
import copy, heapq, shutil, tempfile
import time as _time
import json as _json
from itertools import cycle
from twisted.internet import reactor
from ebu_tt_live import config as configmod
from ebu_tt_live.config import common as configcommon, AppConfig
from ebu_tt_live.config.carriage import DirectCommon
from ebu_tt_live.config.common import ConfigurableComponent
from ebu_tt_live import node as nodes_, clocks, documents
from ebu_tt_live.bindings import _ebuttdt
from ebu_tt_live.examples import get_example_data
from ebu_tt_live.utils import tokenize_english_document
from ebu_tt_live.carriage.base import AbstractProducerCarriage, AbstractConsumerCarriage
from ebu_tt_live.utils import ANY
from ebu_tt_live.carriage.filesystem import FilesystemProducerImpl, FilesystemConsumerImpl, FilesystemReader
from ebu_tt_live.carriage import filesystem as fsmodule
from ebu_tt_live.adapters.node_carriage import ProducerNodeCarriageAdapter, ConsumerNodeCarriageAdapter
from ebu_tt_live.adapters import document_data
from ebu_tt_live.clocks.local import LocalMachineClock
from ebu_tt_live.clocks.utc import UTCClock

ADAPTERS = {'xml->ebutt3': document_data.XMLtoEBUTT3Adapter, 'xml->ebuttd': document_data.XMLtoEBUTTDAdapter,
            'ebutt3->xml': document_data.EBUTT3toXMLAdapter, 'ebuttd->xml': document_data.EBUTTDtoXMLAdapter}
CLOCKS = {'local': LocalMachineClock, 'utc': UTCClock}


def fresh():
    """forget the previous application"""
    ConfigurableComponent._backend = None
    if getattr(DirectCommon, '_components', None) is not None:
        DirectCommon._components.clear()


class Host(object):
    def __init__(self, port):
        self.port = port


class Port(object):
    def __init__(self, port):
        self.port = port

    def getHost(self):
        return Host(self.port)

    def stopListening(self):
        pass


class Sleepless(object):
    """stands in for the time module where a manifest is followed: there is nothing more to come"""
    slept = 0

    def sleep(self, seconds):
        Sleepless.slept += 1
        raise KeyboardInterrupt()

    def __getattr__(self, name):
        return getattr(_time, name)


class sim(object):
    """the reactor with the harness's clock and network"""

    def __init__(self, machine_, start):
        self.m, self.start, self.now = machine_, start, 0.0
        self.listening, self.wanted, self.calls = {}, [], []

    def seconds(self):
        return self.now

    def listen(self, port, factory, *a, **k):
        self.calls.append(['listen', port])
        if port in self.listening:
            raise RuntimeError('the port is taken')
        self.listening[port] = quiet(factory)
        return Port(port)

    def connect(self, host, port, factory, *a, **k):
        self.calls.append(['connect', host, port, factory.url, factory.resource])
        self.wanted.append((host, port, quiet_client(factory)))

    def __enter__(self):
        self.old = {}
        for name, f in (('seconds', self.seconds), ('run', lambda *a, **k: None), ('listenTCP', self.listen), ('connectTCP', self.connect)):
            self.old[name] = reactor.__dict__.get(name)
            setattr(reactor, name, f)
        fresh()
        for c in reactor.getDelayedCalls():
            c.cancel()
        Sleepless.slept = 0
        self.time = fsmodule.__dict__.get('time')
        fsmodule.time = Sleepless()
        self.set(0.0)
        return self

    def __exit__(self, *a):
        for c in reactor.getDelayedCalls():
            c.cancel()
        fsmodule.time = self.time
        for name, f in self.old.items():
            if f is None:
                delattr(reactor, name)
            else:
                setattr(reactor, name, f)
        fresh()

    def set(self, t):
        self.now = t
        self.m.now = self.start + int(round(t * 1000000))


def make_files(base, spec):
    for i, feed in enumerate(spec['feeds']):
        d = os.path.join(base, 'in%d' % i)
        os.makedirs(d)
        with open(os.path.join(d, 'manifest.txt'), 'wb') as m:
            for n, (when, xml) in enumerate(feed):
                with open(os.path.join(d, 'doc%d.xml' % n), 'wb') as f:
                    f.write(xml.encode('utf-8'))
                m.write('%s,doc%d.xml\n' % (when, n))


def placed(x, base):
    if isinstance(x, dict):
        return dict((str(k), placed(v, base)) for k, v in x.items())
    if isinstance(x, list):
        return [placed(v, base) for v in x]
    if isinstance(x, basestring):
        return x.replace('@DIR@', base)
    return x


def folder_contents(base, spec):
    out = {}
    for name in sorted(os.listdir(base)):
        if name.startswith('out'):
            d = os.path.join(base, name)
            keep = [(n['fs'] or {}).get('rotating_buf', 0) for n in spec['nodes'] if n.get('fs') and n['fs']['folder'] == '@DIR@/' + name]
            end = _time.time() + 6
            while keep and keep[0] and _time.time() < end and len([f for f in os.listdir(d) if not f.startswith('manifest')]) > keep[0]:
                _time.sleep(0.02)   # deletion goes on in the background
            out[name] = {}
            for f in sorted(os.listdir(d)):
                with open(os.path.join(d, f), 'rb') as h:
                    out[name][f] = h.read().decode('utf-8')
    return out


def held(seq):
    out = []
    for n in range(1, 40):
        try:
            out.append(seq.get_document(n))
        except KeyError:
            pass
    return out


def node_state(n):
    r = {'type': type(n).__name__, 'id': n.node_id}
    c = getattr(n, 'reference_clock', None)
    r['clock'] = None if c is None else [type(c).__name__, us(c.get_time())]
    if isinstance(n, nodes_.SimpleConsumer):
        s = getattr(n, '_sequence', None)
        r['sequence'] = None if s is None else [s.sequence_identifier, [[d.sequence_number, d.get_xml()] for d in held(s)]]
    return r


class OldProtocol(ws.WebSocketClientProtocol):
    def onOpen(self):
        self.sendMessage(_json.dumps({'subscribe': self.factory.channel}))

    def onMessage(self, payload, isBinary):
        self.factory.got.append(payload.decode('utf-8', 'replace'))


class Old(ws.WebSocketClientFactory):
    """a subscriber of the older protocol"""
    protocol = OldProtocol

    def __init__(self, channel, port):
        super(Old, self).__init__(url='ws://localhost:%d' % port)
        self.channel, self.got = channel, []


class Talker(ws.WebSocketServerFactory):
    """a server that just talks"""
    def __init__(self, port):
        super(Talker, self).__init__('ws://localhost:%d' % port)
        self.protocol = ws.WebSocketServerProtocol
        self.clients = []

    def buildProtocol(self, addr):
        p = super(Talker, self).buildProtocol(addr)
        self.clients.append(p)
        return p

    def say(self, text):
        for p in self.clients:
            if p.state == p.STATE_OPEN:
                p.sendMessage(text.encode('utf-8'))


@op
def config_run(spec, config):
    """the application the configuration describes, on simulated time and network"""
    base = tempfile.mkdtemp('conf')
    try:
        with machine(spec['tz']) as m:
            m.now = spec['start']
            with sim(m, spec['start']) as s:
                make_files(base, spec)
                app = AppConfig(values_source_list=[placed(config, base)])
                configcommon.install_app(app)
                return drive(app, s, spec, base)
    finally:
        shutil.rmtree(base, True)


def drive(app, s, spec, base):
    net, numbers = Net(), [0]
    raws, takers, got = [], [], []
    app.start()

    def connect(factory, server):
        numbers[0] += 1
        net.connect(numbers[0], factory, server)
        net.flush(numbers[0])
        return numbers[0]
    events = []
    outside = {}
    for k, e in enumerate(spec['servers']):
        car, prod = push(reactor)
        node, cons = pull()
        f = quiet(ws.BroadcastServerFactory('ws://localhost:%d' % e['port'], producer=prod, consumer=cons))
        f.protocol = ws.BroadcastServerProtocol
        s.listening[e['port']] = f
        takers.append((k, node))
        for t, sid, text in e['sends']:
            events.append((t, lambda c=car, sid=sid, text=text: c.emit_data(text, sequence_identifier=sid)))
    for k, e in enumerate(spec['talkers']):
        f = quiet(Talker(e['port']))
        s.listening[e['port']] = f
        for t, text in e['sends']:
            events.append((t, lambda f=f, text=text: f.say(text)))
    unreachable = 0
    for host, port, f in s.wanted:
        if port in s.listening:
            connect(f, s.listening[port])
        else:
            unreachable += 1
    for k, e in enumerate(spec['subs']):
        f = quiet_client(Old(e['sid'], e['port']) if e.get('old') else Raw('/%s/subscribe' % e['sid'], 'ws://localhost:%d' % e['port']))
        raws.append((k, f))
        events.append((e['at'], lambda f=f, p=e['port']: connect(f, s.listening[p])))
    for k, e in enumerate(spec['pubs']):
        box = []
        events.append((e['at'], lambda box=box, e=e: box.append(connect(quiet_client(Raw('/%s/publish' % e['sid'], 'ws://localhost:%d' % e['port'])), s.listening[e['port']]))))
        for t, text in e['sends']:
            def send(box=box, text=text):
                if not box:
                    return
                a, _ = net.links[box[0]]
                if a.gone is None and a.lose is None:
                    a.protocol.sendMessage(text.encode('utf-8'))
            events.append((t, send))
    events.sort(key=lambda x: x[0])
    seen = {}

    def collect():
        for k, f in raws:
            for text in f.got[seen.get(('s', k), 0):]:
                got.append(['sub', k, s.m.now - s.start, text])
            seen['s', k] = len(f.got)
        for k, node in takers:
            for text, sid, _, _ in node.got[seen.get(('t', k), 0):]:
                got.append(['server', k, s.m.now - s.start, text, sid])
            seen['t', k] = len(node.got)
    steps = 0
    while True:
        reactor._insertNewDelayedCalls() if hasattr(reactor, '_insertNewDelayedCalls') else None
        due = [c.getTime() for c in reactor.getDelayedCalls()]
        nxt = min([min(due) if due else 1e9, events[0][0] if events else 1e9])
        if nxt > spec['until'] or steps > 20000:
            break
        steps += 1
        s.set(max(nxt, s.now))
        if events and events[0][0] <= nxt:
            events.pop(0)[1]()
        else:
            reactor.runUntilCurrent()
        net.settle()
        net.flush()
        collect()
    s.set(float(spec['until']))
    return {'got': got, 'files': folder_contents(base, spec), 'nodes': [state_of(app, n) for n in spec['nodes']], 'steps': steps,
            'unreachable': unreachable, 'slept': Sleepless.slept, 'calls': sorted(s.calls), 'errors': [e[1:] for e in net.errors]}


def state_of(app, n):
    r = attempt(lambda: node_state(app.get_node(n['slot']).component))
    return r.get('r', r)


# ---------------------------------------------------------------------------------------------
class World(object):
    def __init__(self, m, start):
        self.m, self.start, self.t, self.n = m, start, 0, 0
        self.heap, self.queue, self.got = [], [], []
        self.tie = False
        self.beats = set()

    def at(self, t, f, *a):
        """t in microseconds since the start"""
        self.n += 1
        heapq.heappush(self.heap, (max(t, self.t), self.n, f, a))

    def every(self, period, f):
        begun = self.t

        def beat(k):
            self.tie = self.tie or self.t in self.beats
            self.beats.add(self.t)
            try:
                f()
            except Exception:
                return      # a periodic call that fails is not made again
            self.at(begun + us_of(period * (k + 1)), beat, k + 1)
        self.at(begun + us_of(period), beat, 1)

    def settle(self):
        while self.queue:
            f, a = self.queue.pop(0)
            f(*a)

    def run(self, until):
        while self.heap and self.heap[0][0] <= until:
            t, _, f, a = heapq.heappop(self.heap)
            self.t, self.m.now = t, self.start + t
            f(*a)
            self.settle()
        self.t, self.m.now = until, self.start + until


def us_of(seconds):
    return int(round(seconds * 1000000))


class Wire(object):
    """one connection for one sequence"""
    def __init__(self, sid, deliver):
        self.sid, self.deliver, self.up = sid, deliver, True

    def arrive(self, text):
        if self.up:
            try:
                self.deliver(text, self.sid)
            except Exception:
                self.up = False


class Out(AbstractProducerCarriage):
    _expects = unicode

    def __init__(self, w):
        self.w, self.wires = w, []

    def emit_data(self, data, sequence_identifier='default', delay=None, **kw):
        if delay is None:
            self.write(sequence_identifier, data)
        else:
            self.w.at(self.w.t + us_of(delay), self.write, sequence_identifier, data)

    def write(self, sid, data):
        for c in self.wires:
            if c.sid == sid and c.up:
                self.w.queue.append((c.arrive, (data,)))


class Pipe(AbstractProducerCarriage, AbstractConsumerCarriage):
    """from node to node in memory"""
    _expects = _provides = ANY

    def __init__(self, w):
        self.w = w

    def on_new_data(self, data, **kwargs):
        self.producer_node.emit_data(data, **kwargs)

    def resume_producing(self):
        self.producer_node.resume_producing()

    def hand_over(self, data, kwargs):
        self.consumer_node.process_document(data, **kwargs)

    def later(self, data, kwargs):
        try:
            self.hand_over(data, kwargs)
        except Exception:
            pass

    def emit_data(self, data, delay=None, **kwargs):
        if delay is None:
            self.hand_over(data, kwargs)
        else:
            self.w.at(self.w.t + us_of(delay), self.later, data, kwargs)


class In(AbstractConsumerCarriage):
    _provides = unicode

    def on_new_data(self, data, **kwargs):
        self.consumer_node.process_document(data, **kwargs)

    def arrive(self, text, sid):
        self.on_new_data(text, sequence_identifier=sid)


def by_hand(n, w):
    t, o = n['type'], n['opts']

    def clock():
        return CLOCKS[o['clock']]()
    if t == 'simple-producer':
        seq = documents.EBUTT3DocumentSequence(sequence_identifier=o['sequence_identifier'], lang='en-GB', reference_clock=clock())
        blocks = None if o['show_time'] else cycle(tokenize_english_document(get_example_data('simple_producer.txt')))
        return nodes_.SimpleProducer(node_id=n['id'], document_sequence=seq, producer_carriage=None, input_blocks=blocks)
    if t == 'simple-consumer':
        return nodes_.SimpleConsumer(node_id=n['id'], reference_clock=None if o['clock'] == 'auto' else clock(), verbose=False)
    if t == 'resequencer':
        return nodes_.ReSequencer(node_id=n['id'], reference_clock=clock(), init_document=None, discard=o['discard'],
                                  segment_length=o['segment_length'], sequence_identifier=o['sequence_identifier'])
    if t == 'deduplicator':
        return nodes_.DeDuplicatorNode(node_id=n['id'], sequence_identifier=o['sequence_identifier'])
    if t == 'buffer-delay':
        return nodes_.BufferDelayNode(node_id=n['id'], fixed_delay=o['delay'])
    if t == 'retiming-delay':
        return nodes_.RetimingDelayNode(node_id=n['id'], document_sequence=o['sequence_identifier'], fixed_delay=o['delay'])
    if t == 'handover':
        return nodes_.HandoverNode(node_id=n['id'], authors_group_identifier=o['authors_group_identifier'], sequence_identifier=o['sequence_identifier'])
    if t == 'distributor':
        return nodes_.DistributingNode(node_id=n['id'])
    if t == 'ebuttd-encoder':
        zero = clock().get_time() if o['media_time_zero'] == 'current' else hms(o['media_time_zero'])
        return nodes_.EBUTTDEncoder(node_id=n['id'], media_time_zero=zero, default_ns=o['default_namespace'])
    raise KeyError(t)


def hms(text):
    h, m, s = text.split(':')
    return timedelta(seconds=int(h) * 3600 + int(m) * 60 + float(s))


def listed(names):
    return [ADAPTERS[a]() for a in names] if names else None


@op
def config_model(spec):
    """the same nodes, made and connected by hand"""
    base = tempfile.mkdtemp('conf')
    try:
        with machine(spec['tz']) as m:
            m.now = spec['start']
            make_files(base, spec)
            w = World(m, spec['start'])
            return wire(w, spec, base)
    finally:
        shutil.rmtree(base, True)


def say(cars, text):
    for c in list(cars):
        try:
            c.on_new_data(text)
        except Exception:
            cars.remove(c)


def wire(w, spec, base):
    made, publishers, subscribers, starts = [], {}, {}, []
    pipes = {}
    wants = []
    talkers = dict((e['port'], []) for e in spec['talkers'])
    external = dict((e['port'], k) for k, e in enumerate(spec['servers']))
    ext_out = {}
    for n in spec['nodes']:
        c = by_hand(n, w)
        made.append(c)
        i, o = n.get('in'), n.get('out')
        if i is not None:
            if 'direct' in i:
                car = pipes.setdefault(i['direct'], Pipe(w))
            elif 'fs' in i:
                car = FilesystemConsumerImpl()
                r = FilesystemReader(manifest_path=os.path.join(base, 'in%d' % i['fs'], 'manifest.txt'), do_tail=False, custom_consumer=car)
                starts.append(r.resume_reading)
            else:
                car = In()
                if i.get('listen'):
                    publishers[i['listen']] = car
                for port, sid in i.get('connect', []):
                    wants.append(('sub', port, sid, car))
                if i.get('old'):
                    talkers[i['old']].append(car)
            ConsumerNodeCarriageAdapter(consumer_node=c, consumer_carriage=car, data_adapters=listed(i.get('adapters')))
        if o is not None:
            if 'direct' in o:
                car = pipes.setdefault(o['direct'], Pipe(w))
            elif 'fs' in o:
                f = n['fs']
                car = FilesystemProducerImpl(dirpath=f['folder'].replace('@DIR@', base), file_name_pattern=f['filename_pattern'],
                                             message_file_name_pattern=f['message_filename_pattern'], circular_buf_size=f['rotating_buf'],
                                             suppress_manifest=f['suppress_manifest'])
            else:
                car = Out(w)
                if o.get('listen'):
                    subscribers[o['listen']] = car
                if o.get('old'):
                    subscribers.setdefault(o['old'], car)
                for port, sid in o.get('connect', []):
                    wants.append(('pub', port, sid, car))
            ProducerNodeCarriageAdapter(producer_node=c, producer_carriage=car, data_adapters=listed(o.get('adapters')))
        if n['type'] == 'simple-producer':
            starts.append(lambda n=n, c=c: w.every(n['opts']['interval'], c.resume_producing))
        if n['type'] == 'resequencer':
            b = n['opts']['begin_output']
            delay = 0 if b == 'immediate' else us(hms(b)) - us(CLOCKS[n['opts']['clock']]().get_time())
            starts.append(lambda n=n, c=c, d=delay: w.at(d, w.every, n['opts']['segment_length'], c.convert_next_segment))
    for k, e in enumerate(spec['servers']):
        out = ext_out[e['port']] = Out(w)
        for t, sid, text in e['sends']:
            w.at(us_of(t), out.write, sid, text)
    for e in spec['talkers']:
        for t, text in e['sends']:
            w.at(us_of(t), say, talkers[e['port']], text)
    for f in starts:
        f()
    for kind, port, sid, car in wants:
        if kind == 'pub':
            if port in external:
                def there(text, sid, k=external[port]):
                    w.got.append(['server', k, w.t, text, sid])
                car.wires.append(Wire(sid, there))
            elif port in publishers:
                car.wires.append(Wire(sid, publishers[port].arrive))
        else:
            src = ext_out.get(port) or subscribers.get(port)
            if src is not None:
                src.wires.append(Wire(sid, car.arrive))
    for k, e in enumerate(spec['subs']):
        def join(k=k, e=e):
            if e['port'] in subscribers:
                subscribers[e['port']].wires.append(Wire(e['sid'], lambda text, sid: w.got.append(['sub', k, w.t, text])))
        w.at(us_of(e['at']), join)
    for e in spec['pubs']:
        box = []

        def begin(box=box, e=e):
            if e['port'] in publishers:
                box.append(Wire(e['sid'], publishers[e['port']].arrive))
        w.at(us_of(e['at']), begin)
        for t, text in e['sends']:
            w.at(us_of(t), lambda box=box, text=text: box and w.queue.append((box[0].arrive, (text,))))
    w.settle()
    w.run(us_of(spec['until']))
    return {'got': w.got, 'files': folder_contents(base, spec), 'nodes': [node_state(c) for c in made], 'tie': w.tie}


@op
def config_refused(config, start=True):
    """what comes of a configuration: nothing, or the error"""
    base = tempfile.mkdtemp('conf')
    try:
        with machine(0) as m:
            with sim(m, 0) as s:
                os.makedirs(os.path.join(base, 'in0'))
                open(os.path.join(base, 'in0', 'manifest.txt'), 'w').close()
                made = attempt(lambda: AppConfig(values_source_list=[placed(config, base)]))
                if 'exc' in made:
                    return {'at': 'configuration', 'exc': made['exc']}
                configcommon.install_app(made['r'])
                begun = attempt(made['r'].start) if start else {}
                if 'exc' in begun:
                    return {'at': 'start', 'exc': begun['exc'], 'calls': sorted(s.calls)}
                return {'at': None, 'calls': sorted(s.calls)}
    finally:
        shutil.rmtree(base, True)
