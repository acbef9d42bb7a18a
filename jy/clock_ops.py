# -*- coding: utf-8 -*-
"""operations on clocks; the machine time is the harness's"""
from common import *
import datetime as dt
import time
import java.util.TimeZone as TZ
from ebu_tt_live import clocks
from ebu_tt_live.clocks.media import MediaClock
from ebu_tt_live.clocks.local import LocalMachineClock
from ebu_tt_live.clocks.utc import UTCClock
from ebu_tt_live.errors import TimeFormatError


class FakeTime(object):
    """stands in for the time module inside datetime"""
    now = 0     # microseconds since the epoch

    def time(self):
        return self.now / 1000000.0

    def __getattr__(self, name):
        return getattr(time, name)


class machine(object):
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = dt._time
        self.tzold = TZ.getDefault()
        fake = dt._time = FakeTime()
        TZ.setDefault(TZ.getTimeZone('GMT%s%02d:%02d' % ('-' if self.tz < 0 else '+', abs(self.tz) // 60, abs(self.tz) % 60)))
        return fake

    def __exit__(self, *a):
        dt._time = self.old
        TZ.setDefault(self.tzold)


MADE = {'local': LocalMachineClock, 'utc': UTCClock, 'media': MediaClock,
        'get local': lambda: clocks.get_clock('clock', clock_mode='local'), 'get utc': lambda: clocks.get_clock('clock', clock_mode='utc'),
        'get media': lambda: clocks.get_clock('media')}


@op
def clock_history(kind, tz, start, ops):
    with machine(tz) as m:
        m.now = start
        c = MADE[kind]()
        out = []
        for o in ops:
            def do():
                if o[0] == 'adv':
                    m.now += o[1]
                elif o[0] == 'adjust':
                    if o[2] is None:
                        c.adjust_time(td(o[1]))
                    else:
                        c.adjust_time(td(o[1]), td(o[2]))
                elif o[0] == 'bad-adjust':
                    c.adjust_time(*o[1])
                elif o[0] == 'map':
                    return us(c.get_media_time(td(o[1])))
                elif o[0] == 'machine':
                    return us(c.get_machine_time())
                elif o[0] == 'fix':
                    c.set_fixed_time(td(o[1]))
                elif o[0] == 'mode':
                    c.set_fixed_time_mode(o[1])
                elif o[0] == 'bad-fix':
                    c.set_fixed_time(o[1])
                elif o[0] == 'get':
                    return us(c.get_time())
                elif o[0] == 'real':
                    return us(c.get_real_clock_time())
                elif o[0] == 'is':
                    return c.is_fixed_time_mode()
            r = attempt(do)
            out.append([r.get('r'), r['exc']['type'] if 'exc' in r else None])
        return {'out': out, 'tb': c.time_base, 'cm': c.clock_mode}


@op
def clock_of_document(xml, tz, now):
    """the clock named by a document, the sequence made from it and a document of that sequence"""
    with machine(tz) as m:
        m.now = now
        d = mkdoc(xml)
        c = clocks.get_clock_from_document(d)
        s = EBUTT3DocumentSequence.create_from_document(d)
        n = s.new_document()
        r = {'type': type(c).__name__, 'time': us(c.get_time()), 'seq': type(s.reference_clock).__name__,
             'new': [n.time_base, n.clock_mode if n.time_base == 'clock' else None]}
        m.now += 1500000
        r['later'] = us(c.get_time())
        return r
