#!/usr/bin/env python3
"""known.py ID PROPERTY TEST SIG CASE.json WHAT...: adds a known finding (by hand only; no check calls this)"""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = [x for x in json.load(open(F)) if x['id'] != sys.argv[1]]
c = json.load(open(sys.argv[5]))
d.insert(0, dict(property=sys.argv[2], id=sys.argv[1], status='known', test=sys.argv[3], sig=sys.argv[4],
                 what=' '.join(sys.argv[6:]), case=c.get('case', c) if isinstance(c, dict) else c))
json.dump(d, open(F, 'w'), indent=1)
