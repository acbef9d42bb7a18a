# -*- coding: utf-8 -*-
"""feeding anything to everything that reads"""
from pipe_ops import *
import base64, re
import threading
from ebu_tt_live.documents import EBUTT3ObjectBase
from ebu_tt_live.documents.converters import ebutt3_to_ebuttd
from ebu_tt_live.adapters.document_data import XMLtoEBUTT3Adapter, XMLtoEBUTTDAdapter

WAYS = {'document': EBUTT3Document.create_from_xml, 'base': EBUTT3ObjectBase.create_from_xml, 'ttd': EBUTTDDocument.create_from_xml,
        'adapter': lambda x: XMLtoEBUTT3Adapter().convert_data(x)[0], 'ttdadapter': lambda x: XMLtoEBUTTDAdapter().convert_data(x)[0]}


def attempt_name(f, d):
    r = attempt(f, d)
    return r['r'] if 'exc' not in r else [r['exc']['type'], r['exc']['msg'][:80]]


def retimed(d):
    sink = Sink(EBUTT3Document)
    node = build('retiming', {'delay': 5, 'seq': 'late'})
    node.register_producer_carriage(sink)
    node.process_document(d)
    return [re.sub('appliedDateTime="[^"]*"', '', x.get_xml()) for x, _ in sink.out]


def cut(d):
    return d.extract_segment(begin=td(1500000), end=td(86400 * 1000000), deconflict_ids=True).get_xml()


def converted(d):
    clock = MediaClock()
    clock.adjust_time(td(0), td(0))
    return ebutt3_to_ebuttd(d, clock).get_xml()


@op
def swallow(inputs, good, thread=False, use=True):
    def parse():
        return EBUTT3Document.create_from_xml(good)

    def look(d):
        r = {'xml': d.get_xml(), 'times': timed_dump(d)}
        for f in (cut, converted, retimed) if use else ():     # the last one alters the document
            r[f.__name__] = attempt_name(f, d)
        return r

    def treat():
        return look(parse())
    held = attempt(parse).get('r') if use else None
    before = attempt(treat)
    out = []
    for i in inputs:
        def f():
            x = base64.b64decode(i['b64']) if 'b64' in i else i['text']
            d = WAYS[i['via']](x)
            r = {'kind': type(d).__name__}
            b = getattr(d, '_ebuttd_content', None) or getattr(d, 'binding', None)
            r['root'] = type(b).__name__
            if d is not None:
                r['use'] = attempt(lambda: len(d.get_xml()))
            return r
        out.append(attempt(f))
    res = []

    def again():
        if held is not None:
            # a document that was there before
            res.append(attempt(look, held))
        res.append(attempt(treat))
    if thread:
        t = threading.Thread(target=again)
        t.start()
        t.join()
    else:
        again()
    return {'before': before, 'after': res, 'out': out}


@op
def parallel(goods, rounds, bad):
    """treat documents (and refused inputs) one after another and then at the same time in several threads"""
    def treat(x):
        d = EBUTT3Document.create_from_xml(x)
        r = {'xml': d.get_xml(), 'times': timed_dump(d)}
        for f in (cut, converted, retimed):
            r[f.__name__] = attempt_name(f, d)
        return r

    def refused(x):
        return EBUTT3Document.create_from_xml(x).get_xml()
    alone = [attempt(treat, x) for x in goods]
    gate = threading.Event()
    res = [[] for _ in goods]
    bads = []

    def go(i):
        gate.wait()
        for _ in range(rounds):
            res[i].append(attempt(treat, goods[i]))

    def spoil():
        gate.wait()
        for _ in range(rounds):
            for x in bad:
                bads.append(attempt(refused, x))
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(goods))] + [threading.Thread(target=spoil)]
    for t in ths:
        t.start()
    gate.set()
    for t in ths:
        t.join()
    return {'alone': alone, 'together': res, 'bad': bads}
