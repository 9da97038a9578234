#!/usr/bin/env python3
"""record_fix.py PROPERTY COMMIT: adds a fix commit of /repo to KNOWN_FINDINGS.json (no check uses this)."""
import json
import os
import subprocess
import sys

pid, rev = sys.argv[1:3]
h, t = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%H %s', rev], capture_output=True,
                      text=True).stdout.strip().split(' ', 1)
t = t.replace('fix: ', '')
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.json')
k = json.load(open(p))
fixed = [f for f in k['findings'] if f['status'] == 'fixed']
rest = [f for f in k['findings'] if f['status'] != 'fixed']
fixed.append({'property': pid, 'status': 'fixed', 'commit': h, 'what': t,
              'record': 'fixed: property=%s %s %s' % (pid, h[:12], t)})
k['findings'] = fixed + rest
with open(p, 'w') as f:
    f.write(json.dumps(k, indent=1) + '\n')
