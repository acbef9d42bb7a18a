# -*- coding: utf-8 -*-
"""operations on processing nodes: a node between a source and a recording sink"""
from common import *
import six
from ebu_tt_live.carriage.base import AbstractProducerCarriage, AbstractConsumerCarriage
from ebu_tt_live.node import *
from ebu_tt_live.node.consumer import ReSequencer, SimpleConsumer
from ebu_tt_live.documents.base import SubtitleDocument
from ebu_tt_live.documents.ebutt3 import EBUTTAuthorsGroupControlRequest
from ebu_tt_live.clocks.local import LocalMachineClock
from ebu_tt_live.clocks.media import MediaClock


class Sink(AbstractProducerCarriage):
    def __init__(self, expects):
        self._e = expects
        self.out = []

    def expects(self):
        return self._e

    def emit_data(self, data, **kwargs):
        self.out.append((data, kwargs))


class StubClock(object):
    """a clock that is moved by the test"""
    now = 0

    def __init__(self, tb='clock', cm='local'):
        self.time_base, self.clock_mode = tb, cm

    def get_time(self):
        return timedelta(microseconds=self.now)


def jkw(kw):
    out = {}
    for k, v in kw.items():
        if isinstance(v, timedelta):
            v = us(v)
        elif isinstance(v, SubtitleDocument):
            v = 'doc'
        elif not (v is None or isinstance(v, (int, long, float, bool, basestring))):
            v = repr(v)
        out[k] = v
    return out


@op
def resequence(events, length, discard, sid, tb='clock', direct=False):
    """run a ReSequencer: deliver documents, cut the next segments; the clock is at zero at the start"""
    clk = StubClock(tb)
    node = ReSequencer(node_id='n', reference_clock=clk, segment_length=length, discard=discard, sequence_identifier=sid)
    sink = Sink(EBUTT3Document)
    node.register_producer_carriage(sink)
    out = []
    for ev in events:
        if 'now' in ev:
            clk.now = ev['now']
        if 'xml' in ev:
            d = mkdoc(ev['xml'], ev.get('avail'))
            out.append(attempt(lambda: node.process_document(d)))
        elif 'cut' in ev:
            b, e = ev['cut']

            def g():
                s = node.get_segment(begin=td(b), end=td(e))
                return None if s is None else s.get_xml()
            r = attempt(g)
            out.append(r)
        else:
            n = len(sink.out)
            b = us(node.last_segment_end)
            r = attempt(node.convert_next_segment)
            if 'r' in r:
                r = attempt(lambda: {'b': b, 'e': us(node.last_segment_end),
                                     'xml': [x[0].get_xml() for x in sink.out[n:]]})
            if 'r' in r:
                def again():
                    for x in r['r']['xml']:
                        EBUTT3Document.create_from_xml(x)
                a = attempt(again)
                if 'exc' in a:
                    r['again'] = a['exc']
            out.append(r)
    return out
