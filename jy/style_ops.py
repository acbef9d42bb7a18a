# -*- coding: utf-8 -*-
from common import *
import six

ATTRS = ['direction', 'fontFamily', 'fontSize', 'lineHeight', 'textAlign', 'color', 'backgroundColor', 'fontStyle', 'fontWeight',
         'textDecoration', 'unicodeBidi', 'wrapOption', 'padding', 'linePadding', 'multiRowAlign']


def attr_text(v):
    if v is None:
        return None
    if isinstance(v, (list, tuple)):
        return u' '.join(six.text_type(x) for x in v)
    return six.text_type(v)


def style_dump(s):
    return None if s is None else dict((a, attr_text(getattr(s, a))) for a in ATTRS)


def styles_of(d):
    out = {'el': [], 'reg': {}}
    lay = d.binding.head.layout
    if lay is not None:
        for r in lay.region:
            out['reg'][r.id] = style_dump(r.computed_style)
    if d.binding.body is not None:
        for path, b in walk(d.binding.body):
            if isinstance(b, TIMED):
                out['el'].append([list(path), style_dump(b.computed_style), b.inherited_region and b.inherited_region.id])
    return out


@op
def computed_styles(xml, again=False):
    d = mkdoc(xml)
    out = styles_of(d)
    if again:
        d.validate()
        out['same'] = styles_of(d) == out
    return out
