"""The Python module: the table of bindings, and the functions that it binds."""
import ast
import glob
from syntax import *
from registry import check
from c_main import IO
from c_struct import type_of
import terms

R34 = ('Every entry of the binding table binds a name to the member, accessor or function of that name in the class it belongs to, every documented name is '
       'bound, nothing bound hands out a modifiable reference into a file, and the functions equal their specification in normal form.')
MODULE = {'getmajorversion', 'getminorversion', 'readheader', 'readspocfile', 'writespocfile'}


def includes():
    r = []
    for d in sorted(glob.glob('/usr/include/python3*')):
        if os.path.exists(d + '/Python.h'):
            r.append('-I' + d)
    return r[-1:]


def norm(s):
    return s.replace('_', '').lower()


def strip(e):
    while isinstance(e, dict) and (e['k'] in ('cast', 'mat', 'paren', 'temps') and isinstance(e.get('e'), dict) or
                                   e['k'] == 'ctor' and len(e.get('args') or []) == 1):
        e = e['e'] if e['k'] != 'ctor' else e['args'][0]
    return e


def bound(P, e):
    """what an expression binds: ('field', name, class), ('fn', function) or None"""
    e = strip(e)
    if e['k'] == 'un' and e.get('op') in ('&', '+'):
        e = strip(e['e'])
    if e['k'] in ('fnref', 'memfn') and isinstance(e.get('fn'), int):
        return ('fn', P.fns[e['fn']])
    if e['k'] == 'lambda':
        return ('lambda', P.fns[e['fn']])
    if e['k'] in ('ref', 'mem'):
        return ('field', e.get('n') or e.get('f'), e)
    if e['k'] == 'call':
        g = callee(P, e)
        if g and g['n'] in ('overload_cast', 'operator()', 'cpp_function', 'static_cast', 'const_') and e.get('args'):
            return bound(P, e['args'][0])
    return None


def class_of(P, n):
    """the class that a chain of definitions belongs to"""
    o = n.get('obj')
    while o is not None:
        t = P.types[o['t']] if isinstance(o.get('t'), int) else None
        m = re.search(r'class_<\s*([\w:]+)', t['s']) if t else None
        if m:
            return m.group(1).split('::')[-1]
        if t and 'module_' in t['s']:
            return ''
        o = o.get('obj') or o.get('e')
    return None


def table(P):
    """(class or '', how, Python name, target, node)"""
    for f in mine(P):
        if not P.files[f['l'][0]].endswith('spocpy.cpp'):
            continue
        for n in nodes(f['body']):
            g = callee(P, n) if n['k'] == 'call' else None
            if not g or 'pybind11' not in g['q'] or not g['n'].startswith('def'):
                continue
            s = strip(n['args'][0]) if n.get('args') else None
            if s is None or s['k'] != 'str':
                continue
            yield class_of(P, n), g['n'], s['s'], [bound(P, a) for a in n['args'][1:]], n


@check('C34', R34)
def python(ck, tier):
    if not includes() or not glob.glob('/usr/include/pybind11/pybind11.h'):
        ck.add('the module can be parsed', UNDECIDED, 'no pybind11 headers')
        return
    P = facts(os.path.join(VERIF, 'harness', 'python.cpp'), FLAGS + ['-DNDEBUG', '-w', '-fno-access-control'] + includes())
    from common import ready
    ready(P)
    bad, good, have, fns, refs = [], [], {}, {}, []
    for cls, how, name, targets, n in table(P):
        where = at(P, n)
        site = '%s: %s.%s' % (where, cls or 'module', name)
        if (cls, name) in have:
            bad.append(site + ' is bound twice')
        have[(cls, name)] = how
        t = targets[0] if targets else None
        ck.funcs[('%s.%s' % (cls, name)) if cls else name] = where
        if cls == '':
            if t and t[0] in ('fn', 'lambda'):
                fns[name] = t[1]
            continue
        for t in targets:
            if t is None:
                continue
            if t[0] == 'field':
                want, got = norm(name), norm(t[1])
                v = P.vars[t[2]['v']] if isinstance(t[2].get('v'), int) else None
                if want != got:
                    bad.append('%s is bound to the member %s' % (site, t[1]))
                elif how not in ('def_readwrite', 'def_readonly'):
                    bad.append('%s is a member bound with %s' % (site, how))
                else:
                    good.append(site)
            elif t[0] == 'fn':
                g = t[1]
                own = P.recs[g['rec']]['name'].split('::')[-1] if g.get('rec') is not None else ''
                if norm(g['n']) not in (norm(name), 'get' + norm(name), 'set' + norm(name)):
                    bad.append('%s is bound to %s' % (site, g['q']))
                elif own and own != cls:
                    bad.append('%s is bound to %s of another class' % (site, g['q']))
                else:
                    good.append(site)
                T = P.types[g['ret']]
                if T['k'] in ('ref', 'ptr') and not P.types[T['e']].get('c'):
                    refs.append('%s hands out a modifiable reference (%s)' % (site, g['q']))
            elif t[0] == 'lambda':
                qs = {norm(c['n']) for _, c in calls(P, bodies(t[1])) if c.get('mine')} | {norm(x['f']) for x in nodes(bodies(t[1])) if x['k'] == 'mem'}
                if norm(name) in qs:
                    good.append(site)
                else:
                    ck.add('binding of %s' % name, UNDECIDED, 'a lambda', where)
    for f in mine(P):
        if P.files[f['l'][0]].endswith('spocpy.cpp'):
            for n in nodes(f['body']):
                m = re.search(r'class_<\s*([\w:]+)', type_of(P, n)) if n['k'] == 'ctor' and len(n.get('args') or []) > 1 else None
                s = strip(n['args'][1]) if m else None
                if s is not None and s['k'] == 'str':
                    site = '%s: the class %s' % (at(P, n), s['s'])
                    (good if norm(s['s']) == norm(m.group(1).split('::')[-1]) else bad).append(site + ' is bound to ' + m.group(1))
    if not have:
        return ck.anchor_missing('the table of bindings')
    decide(ck, 'every name is bound to the item of that name', bad, good, R34)
    decide(ck, 'nothing bound hands out a modifiable reference', refs, good, R34)
    # completeness
    want = {('', n) for n in MODULE}
    for cls, rec in (('header', 'spoc::header::header'), ('point_record', 'spoc::point_record::point_record')):
        if rec in terms.RECORDS:
            want |= {(cls, g[0]) for g in terms.RECORDS[rec]['fields'] if g[0] not in ('signature',)}
    for f in P.fns:
        if f and f.get('rec') is not None and P.recs[f['rec']]['name'] == 'spoc::file::spoc_file' and f['q'].startswith('spoc::file::spoc_file::') and \
                (f['n'] in ('get_x', 'get_y', 'get_z', 'get_c', 'get_p', 'get_i', 'get_r', 'get_g', 'get_b', 'get_extra', 'get_wkt', 'set_wkt', 'get_compressed',
                            'set_compressed', 'get_point_record', 'set_point_record', 'get_point_records', 'set_point_records', 'get_major_version', 'get_minor_version')):
            want.add(('spoc_file', f['n']))
    hv = {(c, norm(n)) for c, n in have}
    lost = ['%s.%s is not bound' % (c or 'module', n) for c, n in sorted(want) if (c, norm(n)) not in hv]
    decide(ck, 'every item of the interface is bound', lost, ['%s.%s' % w for w in sorted(want)], R34)
    ro = ['%s.%s can not be assigned' % (c, n) for (c, n), h in sorted(have.items()) if c == 'point_record' and h == 'def_readonly']
    decide(ck, 'the members of a record can be assigned', ro, [n for (c, n), h in have.items() if c == 'point_record'], R34)
    # the package re-exports the module's names
    init = REPO + '/spocpy/spocpy/__init__.py'
    cppname = {'header': 'Header', 'point_record': 'PointRecord', 'spoc_file': 'SpocFile'}
    try:
        exported = {a.asname or a.name: a.name for x in ast.walk(ast.parse(open(init).read())) if isinstance(x, ast.ImportFrom) for a in x.names}
        b2 = ['spocpy/__init__.py: %s is exported as %s' % (v, k) for k, v in exported.items() if k != v and v != '*']
        if '*' not in exported:
            b2 += ['spocpy/__init__.py: %s is not exported' % n for n in sorted(MODULE | {'PointRecord', 'SpocFile'}) if n not in exported]
        decide(ck, 'the package exports the module under the same names', b2, sorted(exported), R34)
    except (OSError, SyntaxError) as e:
        ck.add('the package exports the module under the same names', UNDECIDED, str(e))
    for n in sorted(MODULE):
        f, s = fns.get(n), one(P, 'vs::' + n)

        def go(n=n, f=f, s=s):
            if f is None or s is None:
                return ck.anchor_missing(n)
            i = summarise(P, f, stubs=IO)
            r = summarise(P, s, stubs=IO)
            ck.same_outcome(n, i, r, ('ret', '@trace'), TRUE, throws=True, rule=R34)
        ck.guard(n, go)
