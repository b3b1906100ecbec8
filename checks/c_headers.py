"""Headers: self-contained, repeatable, and free of definitions that clash when two files of a program include them."""
import concurrent.futures
import glob
import shutil
import subprocess
import tempfile
from syntax import *
from registry import check

R27 = ('Every header is type-checked alone and twice in one file; a function or variable that a header defines with external linkage is inline, '
       'a template, constexpr or a member defined in its class, and no such function uses a modifiable variable of internal linkage.')


def headers():
    return sorted(glob.glob(REPO + '/spoc/*.h') + glob.glob(REPO + '/apps/*/*.h'))


def includes(h):
    return ['-I' + REPO, '-I%s/apps' % REPO] + (['-I' + os.path.dirname(h)] if '/apps/' in h else [])


def compiles(d, h, n):
    """the first error when header h is included n times in a file of its own"""
    f = os.path.join(d, '%s_%d.cpp' % (re.sub(r'\W', '_', h), n))
    with open(f, 'w') as o:
        o.write('#include "%s"\n' % h * n)
    p = subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-fopenmp', '-w'] + includes(h) + [f], capture_output=True, text=True)
    return None if p.returncode == 0 else next((l for l in p.stderr.splitlines() if 'error' in l), p.stderr[:200] or 'error')


def internal(P, v):
    """a modifiable variable that every file has its own copy of"""
    return v.get('kind') == 'global' and v.get('isdef') and not v.get('external') and not v.get('constexpr') and not P.types[v['t']].get('c')


def defined(h):
    """the facts of one header"""
    d = tempfile.mkdtemp(prefix='hdr')
    try:
        f = os.path.join(d, 'one.cpp')
        with open(f, 'w') as o:
            o.write('#include "%s"\n' % h)
        return facts(f, ['-std=c++20', '-fopenmp', '-DNDEBUG'] + includes(h))
    finally:
        shutil.rmtree(d)


@check('C27', R27)
def includable(ck, tier):
    hs = headers()
    if not [h for h in hs if '/spoc/' in h]:
        ck.anchor_missing('headers')
        return
    rel = lambda h: os.path.relpath(h, REPO)
    d = tempfile.mkdtemp(prefix='hdr')
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            once = list(ex.map(lambda h: compiles(d, h, 1), hs))
            twice = list(ex.map(lambda h: compiles(d, h, 2), hs))
    finally:
        shutil.rmtree(d)
    decide(ck, 'every header compiles alone', ['%s: %s' % (rel(h), e) for h, e in zip(hs, once) if e], [rel(h) for h, e in zip(hs, once) if not e], R27)
    decide(ck, 'every header can be included twice', ['%s: %s' % (rel(h), e) for h, e, o in zip(hs, twice, once) if e and not o],
           [rel(h) for h, e in zip(hs, twice) if not e], R27)
    fb, fg, vb, vg, ib, ig = [], [], [], [], [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        ps = list(ex.map(lambda h, e: None if e else defined(h), hs, once))
    seen = set()
    for h, P in zip(hs, ps):
        if P is None:
            continue
        for f in P.fns:
            if not (f and f.get('mine') and f.get('body')):
                continue
            k = (at(P, f), f['q'])
            if k in seen or not P.files[f['l'][0]].endswith('.h'):
                continue
            seen.add(k)
            ck.funcs[f['q']] = at(P, f)
            s = '%s: %s' % (at(P, f), f['q'])
            free = f.get('external') and not f.get('inline') and not f.get('constexpr') and f.get('tsk') in (0, 2, None) and '(lambda' not in f['q']
            if free:
                fb.append((f['q'], s + ' is defined with external linkage and is not inline'))
            else:
                fg.append(s)
            if f.get('external'):
                # a static local of an inline function is shared, a global of internal linkage is not
                w = next((n for n in nodes(bodies(f)) if n['k'] == 'ref' and isinstance(n.get('v'), int) and P.vars[n['v']] and P.vars[n['v']].get('mine')
                          and internal(P, P.vars[n['v']])), None)
                (ib if w else ig).append('%s: %s uses %s, of which every file has its own copy' % (at(P, w), f['q'], w.get('n')) if w else s)
        for v in P.vars:
            if not (v and v.get('mine') and v.get('kind') == 'global' and v.get('isdef') and v.get('l')) or not P.files[v['l'][0]].endswith('.h'):
                continue
            k = (at(P, v), v['q'])
            if k in seen:
                continue
            seen.add(k)
            s = '%s: %s' % (at(P, v), v['q'])
            free = v.get('external') and not v.get('inline') and not v.get('constexpr') and not v.get('tmpl')
            (vb if free else vg).append(s + ' is defined with external linkage and is not inline' if free else s)
    for q, s in fb:
        decide(ck, 'functions of headers may be defined in many files: ' + q, [s], [], R27)
    decide(ck, 'functions of headers may be defined in many files', [], fg, R27)
    decide(ck, 'variables of headers may be defined in many files', vb, vg, R27)
    decide(ck, 'functions of headers mean the same in every file', ib, ig, R27)
