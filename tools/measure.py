#!/usr/bin/env python3
"""Measure the paths of every quick scenario not measured yet -> tools/cost.json (used by scenarios.py
to keep the quick tier within its budget).  usage: measure.py ENGINE LL [seconds]"""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
eng, ll = sys.argv[1:3]
T = sys.argv[3] if len(sys.argv) > 3 else '12'
path = here + '/cost.json'
cost = json.load(open(path)) if os.path.exists(path) else {}
out = tempfile.mktemp()
for x in json.load(open(here + '/scn.json')):
    key = ' '.join([x['entry'], x['mode'], x['spec']])
    if x['want'] != 'q' or key in cost:
        continue
    subprocess.run([eng, '--ll', ll, '--out', out, '--timeout', T, '--max-viol', '1', '--panic-bad', '--entry', '%s:%d' % (x['entry'], x['k'])], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = json.load(open(out))
    cost[key] = -1 if o['timed_out'] else o['paths']
json.dump(cost, open(path, 'w'), indent=0, sort_keys=True)
