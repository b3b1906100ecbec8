"""Walking the syntax trees of the facts."""
from common import *


def nodes(x):
    """all nodes below x, in source order"""
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for k, v in x.items():
            if isinstance(v, (dict, list)) and k != 't':
                yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from nodes(v)


def mine(P):
    """functions of the repository that have a body"""
    return [f for f in P.fns if f and f.get('mine') and f.get('body')]


def callee(P, n):
    """the declaration a call or construction reaches, if it is known"""
    i = n.get('fn')
    return P.fns[i] if isinstance(i, int) and n['k'] in ('call', 'ctor') else None


def calls(P, x):
    for n in nodes(x):
        if n['k'] in ('call', 'ctor', 'fnref', 'memfn'):
            f = P.fns[n['fn']] if isinstance(n.get('fn'), int) else None
            if f:
                yield n, f


def at(P, n):
    l = n.get('l')
    return '%s:%d' % (os.path.relpath(P.files[l[0]], REPO) if P.files[l[0]].startswith(REPO) else P.files[l[0]], l[1]) if l else ''


def bodies(f):
    """the initialisers and the body of a function"""
    return [f.get('inits') or [], f['body']]


def decide(ck, name, bad, good, rule='', where=''):
    """an obligation over sites: bad sites violate it, good ones were looked at"""
    if bad:
        ck.add(name, VIOLATED, '; '.join(bad[:6]), bad[0], {'sites': bad[:40]}, rule)
    else:
        ck.add(name, DISCHARGED, '%d sites' % len(good), where, None, rule)
    ck.extra.setdefault('sites', {})[name] = list(good)[:200]
