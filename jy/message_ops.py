# -*- coding: utf-8 -*-
"""operations on live messages"""
from common import *
from ebu_tt_live.documents import EBUTT3ObjectBase, EBUTTAuthorsGroupControlRequest, EBUTTLiveMessage
from ebu_tt_live.adapters.document_data import XMLtoEBUTT3Adapter, EBUTT3toXMLAdapter


def fields(m):
    p = m.payload
    return {'type': type(m).__name__, 'sid': m.sequence_identifier, 'sender': m.sender,
            'recipient': [unicode(x) for x in m.recipient] if m.recipient else [],
            'payload': unicode(p) if isinstance(p, basestring) else None, 'avail': us(m.availability_time),
            'header': m.message_type_id, 'is_doc': isinstance(m, EBUTT3Document)}


@op
def message_make(sid, payload, sender=None, recipient=None, avail=None):
    kw = {}
    if sender is not None:
        kw['sender'] = sender
    if recipient is not None:
        kw['recipient'] = recipient
    if avail is not None:
        kw['availability_time'] = td(avail)
    m = EBUTTAuthorsGroupControlRequest(sid, payload, **kw)
    return {'f': fields(m), 'xml': m.get_xml(), 'dom': m.get_dom().toxml()}


@op
def message_read(xml, via='base', avail=None, sid=None):
    kw = {}
    if avail is not None:
        kw['availability_time'] = td(avail)
    if via == 'adapter':
        if sid is not None:
            kw['sequence_identifier'] = sid
        m, out_kw = XMLtoEBUTT3Adapter().convert_data(xml, extra=5, **kw)
        if out_kw != {'extra': 5, 'raw_xml': xml}:
            raise AssertionError('adapter parameters %r' % (out_kw,))
        if isinstance(m, EBUTT3Document):
            return {'f': {'is_doc': True, 'sid': m.sequence_identifier, 'avail': us(m.availability_time)}, 'xml': m.get_xml(), 'dom': m.get_xml()}
        x, k2 = EBUTT3toXMLAdapter().convert_data(m, extra=5)
        if k2 != {'extra': 5, 'sequence_identifier': m.sequence_identifier, 'availability_time': m.availability_time}:
            raise AssertionError('adapter parameters %r' % (k2,))
        return {'f': fields(m), 'xml': x, 'dom': m.get_dom().toxml()}
    m = EBUTT3ObjectBase.create_from_xml(xml, **kw)
    return {'f': fields(m), 'xml': m.get_xml(), 'dom': m.get_dom().toxml()}
