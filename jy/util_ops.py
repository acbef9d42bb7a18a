# -*- coding: utf-8 -*-
"""operations on containers; files live in a scratch folder given by the harness"""
from common import *
import os, shutil, tempfile, time
from ebu_tt_live import utils


class Key(utils.ComparableMixin):
    def __init__(self, k):
        self.k = k

    def _cmp_key(self):
        return self.k


@op
def ring(maxlen, callback, init, ops):
    """run operations on a ring buffer; report the contents and the call-backs after each one"""
    dropped = []
    kw = {}
    if callback:
        kw['callback'] = dropped.append
    if maxlen != 'default':
        kw['maxlen'] = maxlen
    b = utils.RingBufferWithCallback(init, **kw) if init is not None else utils.RingBufferWithCallback(**kw)
    out = []
    for o in ops:
        def do():
            if o[0] == 'append':
                b.append(o[1])
            elif o[0] == 'popleft':
                return b.popleft()
            elif o[0] == 'pop':
                return b.pop()
            elif o[0] == 'remove':
                b.remove(o[1])
            elif o[0] == 'clear':
                b.clear()
            elif o[0] == 'in':
                return o[1] in b
        n = len(dropped)
        r = attempt(do)
        out.append({'r': r.get('r'), 'exc': r['exc']['type'] if 'exc' in r else None, 'list': list(b), 'cb': dropped[n:]})
    return out


@op
def ring_bad_callback(value):
    utils.RingBufferWithCallback(maxlen=2, callback=value)


@op
def filebuffer(maxlen, is_async, files, faults, gone, late, early=False):
    """append `files` (names, repeated names allowed) to a rotating file buffer in a scratch folder. `faults`: {name: [kind...]}
    makes the first deletions of a file fail; `gone`: names that somebody else deletes before they are appended"""
    root = tempfile.mkdtemp(prefix='verif-c19-')
    faults = dict((k, list(v)) for k, v in faults.items())
    real = os.remove
    strays = []
    failed = []

    def remove(path, *a, **k):
        p = os.path.abspath(path)
        if os.path.dirname(p) != root:
            strays.append(p)
            return
        name = os.path.basename(p)
        if faults.get(name):
            kind = faults[name].pop(0)
            failed.append(name)
            raise (OSError if kind == 'OSError' else IOError)(16, 'busy')
        real(p)
    os.remove = os.unlink = remove
    buf = None
    try:
        open(os.path.join(root, 'bystander'), 'w').close()
        buf = utils.RotatingFileBuffer(maxlen=maxlen, **({'async': is_async}))
        states = []
        exc = None
        for name in files:
            p = os.path.join(root, name)
            if name not in gone:
                open(p, 'w').close()
            r = attempt(buf.append, p)
            if 'exc' in r:
                exc = r['exc']
                break
            states.append([os.path.basename(x) for x in buf])
        alive = None
        if is_async:
            th = buf._deletion_thread
            end = time.time() + 20
            want = set(x for x in files if x not in [os.path.basename(y) for y in buf])
            # early: the thread is asked to stop while files wait for their deletion
            while not early and time.time() < end and th.isAlive() and [x for x in os.listdir(root) if x in want]:
                time.sleep(0.02)
            th.stop()
            th.join(20)
            alive = th.isAlive()
            if late:
                p = os.path.join(root, 'late')
                open(p, 'w').close()
                r = attempt(buf.append, p)
                late = r['exc']['type'] if 'exc' in r else 'accepted'
        return {'states': states, 'exc': exc, 'left': sorted(os.listdir(root)), 'alive': alive, 'late': late,
                'strays': strays, 'failed': failed}
    finally:
        os.remove = os.unlink = real
        if buf is not None and getattr(buf, '_deletion_thread', None) is not None:
            buf._deletion_thread.stop()
        shutil.rmtree(root, ignore_errors=True)


@op
def compare(a, b):
    x, y = Key(a), Key(b)
    return {'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y, 'ge': x >= y, 'gt': x > y}


@op
def tokenize(text):
    return utils.tokenize_english_document(text)
