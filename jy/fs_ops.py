# -*- coding: utf-8 -*-
"""operations on the file system carriage"""
from pipe_ops import *
import tempfile, shutil, time
from ebu_tt_live.carriage import filesystem as fsmod
from ebu_tt_live.node.base import AbstractConsumerNode


class Receiver(AbstractConsumerNode):
    _expects = six.text_type

    def __init__(self):
        super(Receiver, self).__init__('r')
        self.got = []

    def process_document(self, document, availability_time=None, **kw):
        parsed = attempt(lambda: document_data.XMLtoEBUTT3Adapter().convert_data(document, availability_time=availability_time, **kw)[0])
        item = {'text': document if isinstance(document, unicode) else document.decode('latin-1'), 'unicode': isinstance(document, unicode),
                'avail': us(availability_time)}
        if 'exc' not in parsed:
            d = parsed['r']
            item['sid'] = d.sequence_identifier
            item['num'] = getattr(d, 'sequence_number', None)
            item['doc_avail'] = us(d.availability_time)
        self.got.append(item)


def feeds(stages, events, out):
    nodes = [build(k, p) for k, p in stages]
    src = Source(six.text_type)
    ConsumerNodeCarriageAdapter(consumer_node=nodes[0], consumer_carriage=src)
    for a, b in zip(nodes, nodes[1:]):
        c = DirectCarriageImpl()
        ProducerNodeCarriageAdapter(producer_node=a, producer_carriage=c)
        ConsumerNodeCarriageAdapter(consumer_node=b, consumer_carriage=c)
    ProducerNodeCarriageAdapter(producer_node=nodes[-1], producer_carriage=out)
    for ev in events:
        kw = {}
        if ev.get('avail') is not None:
            kw['availability_time'] = td(ev['avail'])
        src.on_new_data(ev['xml'], **kw)


def read(path, tail=False):
    rec = Receiver()
    con = fsmod.FilesystemConsumerImpl()
    ConsumerNodeCarriageAdapter(consumer_node=rec, consumer_carriage=con)
    r = fsmod.FilesystemReader(path, con, tail)
    return rec, r


@op
def fs_trip(stages, events, opts):
    dirn = tempfile.mkdtemp('fs')
    try:
        o = os.path.join(dirn, 'out')
        out = fsmod.FilesystemProducerImpl(dirpath=o, **opts)
        now = datetime_now()
        feeds(stages, events, out)
        then = datetime_now()
        res = {'files': sorted(os.listdir(dirn)), 'manifests': {}, 'now': [now, then]}
        for n in sorted(os.listdir(o)):
            if n.startswith('manifest_'):
                rec, r = read(os.path.join(o, n))
                r.resume_reading()
                res['manifests'][n] = rec.got
                with open(os.path.join(o, n), 'rb') as f:
                    res.setdefault('lines', []).extend(f.read().decode('latin-1').split('\n')[:-1])
        res['xml'] = len([n for n in os.listdir(o) if not n.startswith('manifest_')])
        return res
    finally:
        shutil.rmtree(dirn)


def datetime_now():
    import datetime
    n = datetime.datetime.now()
    return (n.hour * 3600 + n.minute * 60 + n.second) * 1000000 + n.microsecond


class FakeTime(object):
    def __init__(self, steps, real):
        self.steps, self.real, self.naps = steps, real, 0

    def sleep(self, s):
        self.naps += 1
        if not self.steps:
            raise KeyboardInterrupt()
        self.steps.pop(0)()

    def __getattr__(self, n):
        return getattr(self.real, n)


@op
def fs_tail(events, chunks, tail, cut=None):
    """write files and manifest as the output does, but put the manifest in place piece by piece while it is being read"""
    dirn = tempfile.mkdtemp('fs')
    try:
        o = os.path.join(dirn, 'out')
        out = fsmod.FilesystemProducerImpl(dirpath=o)
        feeds([['distributing', {}]], events, out)
        names = [n for n in os.listdir(o) if n.startswith('manifest_')]
        if len(names) != 1:
            raise AssertionError('manifests %r' % names)
        live = os.path.join(dirn, 'live')
        os.mkdir(live)
        m = os.path.join(live, names[0])
        with open(os.path.join(o, names[0]), 'rb') as f:
            text = f.read()
        if cut is not None:
            text = text[:max(0, len(text) - cut)]
        lines = text.split('\n')
        done = [0, 0]

        def upto(n):
            def go():
                n2 = min(n, len(text))
                # the files come before their lines
                started = text[:n2].count('\n') + (1 if n2 and text[n2 - 1] != '\n' else 0)
                for i in range(done[1], min(started, len(lines))):
                    name = lines[i].partition(',')[2]
                    if name and os.path.exists(os.path.join(o, name)):
                        shutil.copy(os.path.join(o, name), os.path.join(live, name))
                done[1] = max(done[1], started)
                with open(m, 'ab') as f:
                    f.write(text[done[0]:n2])
                done[0] = n2
            return go
        ends = []
        n = 0
        for c in chunks:
            n += c
            ends.append(n)
        ends.append(len(text))
        steps = [upto(e) for e in ends]
        if tail:
            steps.pop(0)()
        else:
            for s in steps:
                s()
        rec, r = read(m, tail)
        saved = fsmod.time
        fsmod.time = FakeTime(steps, saved)
        try:
            res = attempt(r.resume_reading)
        finally:
            fsmod.time = saved
        return {'got': rec.got, 'exc': res.get('exc'), 'left': len(steps), 'lines': text.count('\n'), 'whole': text.endswith('\n') or not text}
    finally:
        shutil.rmtree(dirn)


@op
def fs_stamp(us_, text):
    t = fsmod.timedelta_to_str_manifest(td(us_))
    return [t, us(fsmod.timestr_manifest_to_timedelta(t)), us(fsmod.timestr_manifest_to_timedelta(text))]


@op
def fs_times(tz, start, events, limit):
    """emit documents and messages while the machine's time advances; the manifests' times and what is left of the files"""
    from clock_ops import machine
    from ebu_tt_live.adapters.document_data import EBUTT3toXMLAdapter
    dirn = tempfile.mkdtemp('fs')
    out = None
    try:
        o = os.path.join(dirn, 'out')
        with machine(tz) as m:
            m.now = start
            out = fsmod.FilesystemProducerImpl(dirpath=o, circular_buf_size=limit)
            for ev in events:
                m.now += ev['adv']
                doc, _ = document_data.XMLtoEBUTT3Adapter().convert_data(ev['xml'], availability_time=td(ev.get('avail')))
                data, kw = EBUTT3toXMLAdapter().convert_data(doc, **({'delay': ev['delay']} if ev.get('delay') is not None else {}))
                out.emit_data(data, **kw)
        if limit:
            end = time.time() + 20
            while time.time() < end and len([n for n in os.listdir(o) if not n.startswith('manifest_')]) > limit:
                time.sleep(0.02)
            th = out._circular_buf._deletion_thread
            th.stop()
            th.join(20)
        lines = []
        for n in sorted(os.listdir(o)):
            if n.startswith('manifest_'):
                with open(os.path.join(o, n), 'rb') as f:
                    lines.extend(f.read().decode('utf-8').split('\n')[:-1])
        texts = []
        for n in os.listdir(o):
            if not n.startswith('manifest_'):
                with open(os.path.join(o, n), 'rb') as f:
                    texts.append([n, f.read().decode('utf-8')])
        return {'lines': [l.split(',', 1) for l in lines], 'files': texts, 'sids': [[e['sid'], e.get('num')] for e in events]}
    finally:
        if out is not None and out._circular_buf is not None:
            out._circular_buf._deletion_thread.stop()
        shutil.rmtree(dirn)
