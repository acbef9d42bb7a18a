# -*- coding: utf-8 -*-
"""operations on the membership of documents in a sequence"""
from common import *
from ebu_tt_live.clocks.local import LocalMachineClock
from ebu_tt_live.clocks.utc import UTCClock
from ebu_tt_live.clocks.media import MediaClock

CLOCKS = {'local': LocalMachineClock, 'utc': UTCClock, 'media': MediaClock}


def _snap(seq):
    docs = []
    for d in seq._documents:
        docs.append([d.sequence_number, us(d.resolved_begin_time), us(d.resolved_end_time)])
    return {'docs': docs, 'last': seq.last_sequence_number, 'group': seq.authors_group_identifier,
            'timeline': [[us(e.when), e.element.sequence_number] for e in seq.timeline]}


@op
def membership(new, events):
    if 'xml' in new:
        seq = EBUTT3DocumentSequence.create_from_document(mkdoc(new['xml']))
    else:
        kw = {}
        if new.get('group') is not None:
            kw['authors_group_identifier'] = new['group']
        seq = EBUTT3DocumentSequence(sequence_identifier=new['sid'], reference_clock=CLOCKS[new['clock']](), lang=new['lang'], **kw)
    out = []
    for ev in events:
        k = ev['k']
        if k in ('add', 'check'):
            d = mkdoc(ev['xml'], ev.get('avail'))
            if k == 'add':
                r = attempt(lambda: seq.add_document(d))
                r['mine'] = 'exc' not in attempt(lambda: d.sequence)
            else:
                r = attempt(lambda: seq.is_compatible(d))
        elif k == 'new':
            def f():
                d = seq.new_document()
                return {'xml': d.get_xml(), 'num': d.sequence_number}
            r = attempt(f)
        else:
            r = attempt(lambda: seq[ev['num']].sequence_number if ev['num'] % 2 else seq.get_document(ev['num']).sequence_number)
        r['snap'] = _snap(seq)
        out.append(r)
    return out
