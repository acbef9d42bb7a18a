# -*- coding: utf-8 -*-
from common import *
import logging
from ebu_tt_live.node.consumer import SimpleConsumer


def _state(docs):
    out = []
    for d in docs:
        def f():
            e = d.resolved_end_time
            return [us(d.resolved_begin_time), us(e)]
        out.append(attempt(f))
        out[-1]['disc'] = attempt(lambda: bool(d.discarded))
    return out


@op
def sequence(docs, every=False, probes=()):
    """add documents (in the given order) to a sequence made from the first; report what the sequence resolved"""
    ds = [mkdoc(x['xml'], x.get('avail')) for x in docs]
    seq = EBUTT3DocumentSequence.create_from_document(ds[0])
    steps = []
    for i, d in enumerate(ds):
        r = attempt(lambda: seq.add_document(d))
        st = {'add': r}
        if every or i == len(ds) - 1:
            st['res'] = _state(ds[:i + 1])
        steps.append(st)
    out = {'steps': steps, 'computed': [[us(d.computed_begin_time), us(d.computed_end_time)] for d in ds],
           'last': seq.last_sequence_number}
    if probes:
        out['active'] = []
        for p in probes:
            out['active'].append([d.sequence_number for d in seq.lookup_range_on_timeline(begin=td(p), end=td(p + 1))])
    return out


class _Lines(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


@op
def verbose_sequence(docs, node=False, spans=()):
    """add documents to a verbose sequence; report what it logged with each document, and the texts of the documents"""
    log = logging.getLogger('document_logger')
    h = _Lines()
    old, prop, off = log.level, log.propagate, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    log.addHandler(h)
    log.setLevel(logging.INFO)
    log.propagate = False
    try:
        ds = [mkdoc(x['xml'], x.get('avail')) for x in docs]
        out = {'steps': []}
        if node:
            n = SimpleConsumer('n', verbose=True)
            add = n.process_document
        else:
            add = EBUTT3DocumentSequence.create_from_document(ds[0], verbose=True).add_document
        for i, d in enumerate(ds):
            h.lines = []
            r = attempt(lambda: add(d))
            out['steps'].append({'add': r, 'log': h.lines, 'res': _state(ds[:i + 1])})
        out['spans'] = [[attempt(lambda: d.content_to_string(begin=td(b), end=td(e))) for b, e in spans] for d in ds]
        return out
    finally:
        logging.disable(off)
        log.removeHandler(h)
        log.setLevel(old)
        log.propagate = prop
