#!/usr/bin/env python3
"""setn.py FILE name=quick,thorough ...  (development aid: set case counts)"""
import re, sys
p = sys.argv[1]
s = open(p).read()
for a in sys.argv[2:]:
    n, v = a.split('=')
    q, t = v.split(',')
    s, k = re.subn(r'(FAMILY\(P\d+, %s, )\d+, \d+\)' % n, r'\g<1>%s, %s)' % (q, t), s)
    assert k, a
open(p, 'w').write(s)
