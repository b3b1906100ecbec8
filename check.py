#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import threading
threading.stack_size(1 << 29)
RC = [2]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import oblig
    import registry
    if tier == 'thorough':
        oblig.SAMPLES *= 5
    oblig.TIER = tier
    ck = oblig.Check(pid)
    registry.run(pid, ck, tier)
    RC[0] = ck.finish(tier, VERIF)


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(RC[0])
