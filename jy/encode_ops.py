# -*- coding: utf-8 -*-
"""conversion to EBU-TT-D"""
from node_ops import *
from ebu_tt_live.documents.converters import ebutt3_to_ebuttd
from ebu_tt_live.clocks.media import MediaClock


@op
def encode(docs, zero=0, ns=False, via='node'):
    """the EBU-TT-D documents for XML documents, and what became of the originals"""
    if via == 'node':
        node = EBUTTDEncoder(node_id='n', media_time_zero=td(zero), default_ns=ns)
        sink = Sink(EBUTTDDocument)
        node.register_producer_carriage(sink)
    else:
        clock = MediaClock()
        clock.adjust_time(td(0), td(zero))
    out = []
    for x in docs:
        d = mkdoc(x['xml'], x.get('avail'))
        before = d.get_xml()

        def go():
            if via == 'node':
                n = len(sink.out)
                node.process_document(d, **(x.get('kw') or {}))
                new = sink.out[n:]
                assert len(new) == 1, len(new)
                doc, kw = new[0]
            else:
                doc, kw = ebutt3_to_ebuttd(d, clock), {}
            return doc, kw
        r = attempt(go)
        if 'exc' not in r:
            doc, kw = r['r']
            r = attempt(lambda: {'xml': doc.get_xml(), 'kw': jkw(kw), 'dom': doc.get_dom().toxml()})
            if 'exc' not in r:
                a = attempt(lambda: (EBUTTDDocument.create_from_xml(r['r']['xml']).validate(), doc.validate()))
                if 'exc' in a:
                    r['again'] = a['exc']
        r['same'] = d.get_xml() == before
        out.append(r)
    return out
