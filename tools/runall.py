#!/usr/bin/env python3
"""Run every registered check (for development): ids... or all of them."""
import concurrent.futures as cf
import os
import re
import subprocess
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/checks']
import registry
registry.load()
ids = sys.argv[1:] or sorted(registry.CHECKS)


def run(i):
    t = time.time()
    p = subprocess.run(['python3', V + '/check.py', i, 'quick'], capture_output=True, text=True, cwd=V)
    first = [l for l in p.stdout.splitlines() if re.match(i + ':', l)]
    return i, p.returncode, time.time() - t, (first or [''])[0][:160], [l[:150] for l in p.stdout.splitlines() if l.startswith(('VIOLATION', 'KNOWN', '  violated'))][:4]


with cf.ThreadPoolExecutor(6) as ex:
    for i, rc, s, l, v in ex.map(run, ids):
        print('rc=%d %5.1fs %s' % (rc, s, l), *(['\n      '.join([''] + v)] if v else []))
