#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT FAILED...: records a repair in known_findings.json (suppresses nothing)"""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(F))
p, c, w = sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])
n = 1 + sum(1 for x in d if x['status'] == 'fixed')
d.append(dict(property=p, id='X%02d' % n, status='fixed', what='fixed: property=%s %s %s' % (p, c, w)))
json.dump(d, open(F, 'w'), indent=1)
