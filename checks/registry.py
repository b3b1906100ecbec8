"""Which check decides which property."""
import importlib
import os

MODULES = ('core',)
CHECKS = {}


def check(pid, *rules):
    def deco(f):
        CHECKS.setdefault(pid, []).append((f, rules))
        return f
    return deco


def load():
    for m in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if m.startswith('c_') and m.endswith('.py'):
            importlib.import_module(m[:-3])


def run(pid, ck, tier):
    load()
    if pid not in CHECKS:
        raise SystemExit('no check for ' + pid)
    for f, rules in CHECKS[pid]:
        ck.rules += [r for r in rules if r not in ck.rules]
        ck.guard(f.__name__, lambda: f(ck, tier))
