# -*- coding: utf-8 -*-
"""what the user input producer page sent, as the toolkit reads it"""
from common import *
from ebu_tt_live.bindings import p_type, br_type
from ebu_tt_live.adapters.document_data import XMLtoEBUTT3Adapter


@op
def page_read(xmls):
    return [attempt(_read, x) for x in xmls]


def _lines(e, out):
    for c in e.orderedContent():
        v = c.value
        if isinstance(v, basestring):
            out[-1] += v
        elif isinstance(v, br_type):
            out.append(u'')
        elif hasattr(v, 'orderedContent'):
            _lines(v, out)
    return out


def _read(xml):
    d, _ = XMLtoEBUTT3Adapter().convert_data(xml)
    if not isinstance(d, EBUTT3Document):
        return {'kind': 'message', 'type': d.message_type_id, 'sid': d.sequence_identifier, 'sender': d.sender,
                'recipient': [unicode(x) for x in d.recipient or []], 'payload': unicode(d.payload)}
    d.validate()
    b = d.binding.body
    p = [x for _, x in walk(d.binding) if isinstance(x, p_type)]
    c = p[0].computed_style
    t = d.binding
    return {'kind': 'document', 'sid': d.sequence_identifier, 'num': d.sequence_number, 'tb': unicode(d.time_base),
            'cm': d.clock_mode and unicode(d.clock_mode), 'group': d.authors_group_identifier,
            'token': t.authorsGroupControlToken and unicode(t.authorsGroupControlToken), 'lines': [_lines(x, [u'']) for x in p],
            'begin': b.begin is not None and us(b.begin.timedelta) or (None if b.begin is None else 0),
            'end': None if b.end is None else us(b.end.timedelta), 'dur': None if b.dur is None else us(b.dur.timedelta),
            'color': unicode(c.color)}
