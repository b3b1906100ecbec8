"""Shared parts of the checks."""
import os
import re
import sys
import fnmatch
from terms import *
import terms
import absint
from absint import facts, REPO
import oblig
from oblig import Check, summarise, DISCHARGED, VIOLATED, UNDECIDED

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++20', '-fopenmp', '-I' + REPO]
_cache = {}


def ready(p):
    for r, R in enumerate(p.recs):
        if R.get('mine') and R.get('fields') is not None:
            try:
                p.recty(r)
            except Exception:
                pass
    return p


def harness(name, debug=False, apps=()):
    """facts of a harness translation unit over the current source"""
    k = (name, debug)
    if k not in _cache:
        a = FLAGS + ['-fno-access-control', '-I%s/apps' % REPO] + ([] if debug else ['-DNDEBUG']) + ['-I%s/apps/%s' % (REPO, x) for x in apps]
        _cache[k] = ready(facts(os.path.join(VERIF, 'harness', name + '.cpp'), a))
    return _cache[k]


def appfacts(name, debug=False):
    k = ('app', name, debug)
    if k not in _cache:
        _cache[k] = ready(facts('%s/apps/%s/%s.cpp' % (REPO, name, name),
                                FLAGS + ([] if debug else ['-DNDEBUG']) + ['-I%s/apps/%s' % (REPO, name)]))
    return _cache[k]


def one(prog, q):
    fs = prog.find(q)
    return fs[0] if fs else None


REC = 'spoc::point_record::point_record'
FILE = 'spoc::file::spoc_file'


def uniform(name, n=None, extra=None):
    """point records that all have the same number of extra fields"""
    n = n if n is not None else sym('size of ' + name, 'cnt')
    e = extra if extra is not None else sym('extra fields of ' + name, 'cnt')
    v, w = tmp('nat', 'n'), tmp('nat', 'k')
    vals = []
    for f in terms.RECORDS[REC]['fields']:
        if f[0] == 'extra':
            vals.append(mk_comp(e, w, app('el:%s.extra' % name, 'u64', v, w)))
        else:
            vals.append(app('el:%s.%s' % (name, f[0]), f[1], v))
    return mk_comp(n, v, mk_struct(REC, vals))


def uniform_file(name, **k):
    f = sym(name, FILE)
    for g in terms.RECORDS[FILE]['fields']:
        if g[1] == 'vec<%s>' % REC:
            f = set_fld(f, g[0], uniform(name, **k))
    return f


def inside(eng):
    """where: the repository function an adaptor reaches first"""
    for k, v in eng.funcs.items():
        if not k.startswith(('vi::', 'vs::')):
            return '%s (%s)' % (k, v)
    return ''


def pair(ck, prog, name, observe=('ret',), pre=None, label=None, rule='', throws=True, stubs=None, budget=None, seconds=20, tweak=None,
         refstubs=None, args=None):
    """compare the adaptor vi::name with the specification vs::name"""
    def go():
        fi, fr = one(prog, 'vi::' + name), one(prog, 'vs::' + name)
        if fi is None or fr is None:
            ck.anchor_missing(name)
            return
        p = pre() if callable(pre) else (pre if pre is not None else TRUE)
        i = summarise(prog, fi, pre=p, stubs=stubs, budget=budget, args=args() if callable(args) else args)
        r = summarise(prog, fr, pre=p, stubs=refstubs if refstubs is not None else stubs, budget=budget, args=args() if callable(args) else args)
        ck.same_outcome(label or name, i, r, observe, p, throws=throws, rule=rule, seconds=seconds, tweak=tweak)
        return i, r
    return ck.guard(label or name, go)


def describable(*names):
    """files that a header can describe"""
    c = TRUE
    for a in names:
        c = AND(c, AND(le(sym('extra fields of ' + a, 'cnt'), I(255)), le(length(fld(sym(a, FILE), 'wkt')), I(65535))))
    return c
