# -*- coding: utf-8 -*-
"""Long-lived Jython worker: runs operations of the toolkit in /repo and reports what they did.

One JSON object per line on stdin: {"op": name, "a": {...}}; one per line on the real stdout.
Everything the code under test prints goes to stderr's place (/dev/null unless VERIF_WORKER_LOG is set).
"""
import sys, os, json, time, traceback
T0 = time.time()
_here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, _here)

_out = os.fdopen(os.dup(1), 'w') if hasattr(os, 'dup') else sys.__stdout__


class _Sink(object):
    encoding = 'utf-8'

    def write(self, data):
        pass

    def flush(self):
        pass

    def writelines(self, lines):
        pass

    def isatty(self):
        return False


def send(obj):
    data = json.dumps(obj)
    _out.write(data + '\n')
    _out.flush()


def install_import_cache():
    """Function-local imports in PyXB cost milliseconds each on Jython; remember what they resolved to."""
    import __builtin__
    orig = __builtin__.__import__
    cache = {}

    def cached_import(*args, **kw):
        if kw or len(args) < 2 or not args[1]:
            return orig(*args, **kw)
        try:
            key = (args[0], args[1].get('__name__')) + tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in args[3:])
            m = cache.get(key)
        except Exception:
            return orig(*args, **kw)
        if m is None:
            m = orig(*args, **kw)
            cache[key] = m
        return m
    __builtin__.__import__ = cached_import

    # copy.copy imports copy_reg from Java, which can not call a Python import function
    import copy
    import threading
    lock = threading.RLock()
    busy = [0]

    def plain(f):
        def g(*args, **kw):
            with lock:
                busy[0] += 1
                __builtin__.__import__ = orig
            try:
                return f(*args, **kw)
            finally:
                with lock:
                    busy[0] -= 1
                    if not busy[0]:
                        __builtin__.__import__ = cached_import
        return g
    copy.copy = plain(copy.copy)
    copy.deepcopy = plain(copy.deepcopy)


def main():
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger('pyxb').addHandler(logging.NullHandler())
    logging.disable(logging.CRITICAL)
    mods = sys.argv[1].split(',')
    try:
        import common
        ops = dict(common.OPS)
        for m in mods:
            __import__(m)
            ops.update(sys.modules[m].OPS)
    except BaseException:
        send({'fatal': traceback.format_exc()})
        return
    install_import_cache()
    sys.stdout = _Sink()
    send({'ready': time.time() - T0})
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = json.loads(line)
        try:
            fn = ops[req['op']]
        except KeyError:
            send({'fatal': 'unknown op %r' % req['op']})
            continue
        try:
            res = {'r': fn(**dict((str(k), v) for k, v in req['a'].items()))}
        except:  # what Java throws is no BaseException
            res = {'exc': common.describe_exc()}
        send(res)


main()
