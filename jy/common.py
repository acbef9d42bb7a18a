# -*- coding: utf-8 -*-
import sys, traceback, os
from datetime import timedelta
from ebu_tt_live import bindings
from ebu_tt_live.documents import EBUTT3Document, EBUTT3DocumentSequence, EBUTTDDocument
from pyxb.binding.basis import ElementContent, NonElementContent

OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def describe_exc():
    et, ev, tb = sys.exc_info()
    try:
        mro = [c.__name__ for c in et.__mro__]
    except Exception:
        mro = [getattr(et, '__name__', str(et))]
    try:
        msg = unicode(ev)[:400]
    except BaseException:
        try:
            msg = repr(ev)[:400]
        except BaseException:
            msg = '?'
    frames = []
    try:
        for f in traceback.extract_tb(tb)[-4:]:
            frames.append('%s:%s %s' % (f[0], f[1], f[2]))
    except BaseException:
        pass
    return {'type': getattr(et, '__name__', str(et)), 'mro': mro, 'msg': msg, 'tb': frames}


def attempt(fn, *a, **k):
    try:
        return {'r': fn(*a, **k)}
    except:  # what Java throws is no BaseException
        return {'exc': describe_exc()}


def us(td):
    """timedelta -> integer microseconds (None stays None)"""
    if td is None:
        return None
    return (td.days * 86400 + td.seconds) * 1000000 + td.microseconds


def td(us_):
    return None if us_ is None else timedelta(microseconds=us_)


def children(binding):
    try:
        content = binding.orderedContent()
    except Exception:
        return []
    return [c.value for c in content if isinstance(c, ElementContent)]


TIMED = (bindings.body_type, bindings.div_type, bindings.p_type, bindings.span_type)


def tagof(v):
    en = getattr(v, '_element', lambda: None)()
    if en is not None:
        return en.name().localName()
    return type(v).__name__


def walk(binding, path=()):
    yield path, binding
    for i, c in enumerate(children(binding)):
        for x in walk(c, path + (i,)):
            yield x


def timed_dump(document):
    """computed times of every timed element in document order, by path of element-child indexes from body"""
    out = []
    body = document.binding.body
    if body is None:
        return out
    for path, b in walk(body):
        if isinstance(b, TIMED):
            out.append({'path': list(path), 'tag': tagof(b), 'id': getattr(b, 'id', None),
                        'b': us(b.computed_begin_time), 'e': us(b.computed_end_time)})
    return out


def mkdoc(xml, avail=None):
    if avail is None:
        return EBUTT3Document.create_from_xml(xml)
    return EBUTT3Document.create_from_xml(xml, availability_time=td(avail))


@op
def parse3(xml, avail=None, want=()):
    """parse a Part 3 document and report the requested observations"""
    d = mkdoc(xml, avail)
    out = {'seqid': d.sequence_identifier, 'seqnum': d.sequence_number,
           'b': us(d.computed_begin_time), 'e': us(d.computed_end_time)}
    if 'times' in want:
        out['times'] = timed_dump(d)
    if 'xml' in want:
        out['xml'] = d.get_xml()
    if 'xml2' in want:
        out['xml2'] = EBUTT3Document.create_from_xml(d.get_xml()).get_xml()
    return out
