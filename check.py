#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [quick|thorough] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from vlib import core

if __name__ == '__main__':
    a = sys.argv[1:]
    if a == ['--setup']:
        core.prepare_repo()
        sys.exit(0)
    prop = a[0]
    tier = a[1] if len(a) > 1 and not a[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    if '--shard' in a:
        i = a.index('--shard')
        sys.exit(core.shard_main(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1), int(a[i + 1]), int(a[i + 2]),
                                 float(a[i + 3]), a[i + 4]))
    replay = a[a.index('--replay') + 1] if '--replay' in a else None
    sys.exit(core.main(prop, tier, replay))
