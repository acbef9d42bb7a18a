# -*- coding: utf-8 -*-
"""operations on lengths and colours"""
from common import *
from ebu_tt_live.bindings import _ebuttdt as dt


def mk(x):
    c = getattr(dt, x[0])
    return c(*x[1]) if isinstance(x[1], list) else c(x[1])


def show(v):
    if hasattr(v, 'vertical'):
        return {'t': type(v).__name__, 'h': v.horizontal, 'v': v.vertical, 'x': unicode(v)}
    if isinstance(v, tuple):
        return {'t': 'tuple', 'l': list(v)}
    return {'t': type(v).__name__, 'x': unicode(v)}


@op
def length(f, args):
    a = [mk(x) for x in args]
    if f == 'value':
        return show(a[0])
    if f == 'mul':
        return show(a[0] * a[1])
    if f == 'div':
        return show(a[0] / a[1])
    if f == 'eq':
        return bool(a[0] == a[1])
    if f == 'px2c':
        return show(dt.pixels_to_cells(*a))
    if f == 'c2px':
        return show(dt.cells_to_pixels(*a))
    if f == 'region':
        return show(dt.convert_cell_region_to_percentage(*a))
    raise ValueError(f)


@op
def named_color(name):
    return dt.named_color_to_rgba(name)
