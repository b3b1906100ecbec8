"""Command line options: tables, handlers, manual pages."""
import glob
import re
import zlib as _z
from common import *
from syntax import *
from registry import check
import stubs
from c_io import VG
from c_struct import APPS
from c_main import event

R16 = ('Table rule: every entry of a getopt table has a distinct code; its letter, if it has one, is in the short option string with the same '
       'argument requirement and the other way around; the manual page lists exactly these options, letters and argument requirements; '
       'command names that the parser stores are compared with in the code that executes them.')


def code(name):
    """the number that stands for an option name in terms"""
    return 1000 + _z.crc32(name.encode()) % (1 << 30)


def strip(n):
    while n and n['k'] in ('cast', 'paren') and n.get('e') and n.get('cv') is None:
        n = n['e']
    return n


def literal(P, n):
    n = strip(n)
    if n is None:
        return None
    if n['k'] == 'str':
        return n['s']
    if n.get('cv') is not None:
        return int(n['cv'])
    if n['k'] == 'ref' and isinstance(n.get('v'), int):
        v = P.vars[n['v']]
        if v and v.get('kind') == 'enumc':
            return int(v['v'])
        i = var_init(P, n['v'])
        return literal(P, i) if i is not None else None
    if n['k'] in ('nullptr', 'valueinit', 'zeroinit') or n['k'] == 'lit':
        return 0
    return None


def var_init(P, v):
    V = P.vars[v]
    if V and V.get('init') is not None:
        return V['init']
    for f in mine(P):
        for n in nodes(f['body']):
            if n['k'] == 'decl':
                for d in n['d']:
                    if isinstance(d, dict) and d.get('v') == v and d.get('init') is not None:
                        return d['init']
    return None


def table(P, n):
    """entries (name, argument, flag, code) of the option table that an expression names, without the terminator"""
    n = strip(n)
    if n is None:
        return None
    if n['k'] == 'call' and n.get('obj') is not None and (callee(P, n) or {}).get('n') in ('data', 'begin'):
        n = strip(n['obj'])
    if n['k'] == 'un' and n.get('op') == '&':
        n = strip(n['e'])
        if n['k'] == 'idx':
            n = strip(n['a'])
    if n['k'] == 'ref' and isinstance(n.get('v'), int):
        n = var_init(P, n['v'])
    while n is not None and n['k'] in ('cast', 'paren', 'ctor') and n['k'] != 'init':
        n = n.get('e') or (n['args'][0] if n.get('args') else None)
    rows = []
    if n is None or n['k'] != 'init':
        return None
    rowsn = n['args']
    while len(rowsn) == 1 and rowsn[0]['k'] == 'init' and rowsn[0]['args'] and rowsn[0]['args'][0]['k'] == 'init':
        rowsn = rowsn[0]['args']
    for r in rowsn:
        if r['k'] != 'init' or len(r['args']) != 4:
            if r['k'] in ('valueinit', 'zeroinit', 'filler'):
                continue
            return None
        v = [literal(P, a) for a in r['args']]
        if v[0] in (0, None) and not isinstance(v[0], str):
            if v[0] is None:
                return None
            break
        if any(x is None for x in v):
            return None
        rows.append(tuple(v))
    return rows


def short_options(s):
    """letter -> argument requirement"""
    d, i = {}, 0
    s = s.lstrip('+-:')
    while i < len(s):
        c = s[i]
        i += 1
        k = 0
        while i < len(s) and s[i] == ':':
            k += 1
            i += 1
        d[c] = k
    return d


def next_option(eng, st, t, s):
    """one step of the option parser; t: names to returned codes"""
    root = ('g', 'getopt')
    now = app('options.next', 'u64', st.store[root])
    st.store[root] = now
    which = app('options.which', 'i32', now)
    for g, ty in GLOBALS:
        st.store[('g', g)] = app('options.' + g, ty, now)
    return which


GLOBALS = (('optarg', 'str'), ('optind', 'i32'))


def begin(eng, st, fr, fn, this, args, node):
    st.store[('g', 'getopt')] = app('options.first', 'u64')
    eng.rootty[('g', 'getopt')] = 'u64'
    for g, ty in GLOBALS:
        st.store[('g', g)] = app('options.' + g, ty)
        eng.rootty[('g', g)] = ty
    return UNDEF


def getopt(P):
    def go(eng, st, fr, fn, this, args, node):
        rows = table(fr.prog, node['args'][3]) if fn['n'] == 'getopt_long' else []
        s = literal(fr.prog, node['args'][2])
        if rows is None or not isinstance(s, str) or any(r[2] for r in rows):
            eng.note('option table', node, fr.prog)
            return bad('option table')
        which = next_option(eng, st, None, None)
        r = I(63)
        for n, has, flag, val in rows:
            r = ite(equal(which, I(code(n))), I(val), r)
        vals = {chr(v[3]) for v in rows if v[3] < 256}
        for c in short_options(s):
            if c not in vals:
                r = ite(equal(which, I(code('-' + c))), I(ord(c)), r)
        return ite(equal(which, ZERO), I(-1), r)
    return go


def spec_next(eng, st, fr, fn, this, args, node):
    return next_option(eng, st, None, None)


def spec_named(eng, st, fr, fn, this, args, node):
    s = literal(fr.prog, node['args'][0])
    return I(code(s)) if isinstance(s, str) else NotImplemented


def spec_help(eng, st, fr, fn, this, args, node):
    event(st, 'help', eng.read(st, args[0]), TRUE)
    return UNDEF


def print_help(eng, st, fr, fn, this, args, node):
    rows = table(fr.prog, node['args'][3])
    n = args[2]
    n = eng.read(st, n) if n.op == 'ptr' else n
    event(st, 'help', eng.read(st, args[1]), equal(n, I(len(rows) + 1)) if rows is not None else bad('option table'))
    return UNDEF


def parse_stubs(P):
    return {'vs::begin': begin, 'getopt_long': getopt(P), 'vs::next': spec_next, 'vs::named': spec_named, 'vs::help': spec_help, 'spoc::cmd::print_help': print_help}


def fields_of(P, a):
    f = one(P, 'vi::' + a)
    return P.ty(f['ret'])


@check('C16', VG, 'The option parser of the C library is an unknown sequence of option names, arguments and an index of the first operand.')
def handlers(ck, tier):
    P = harness('args')
    for a in APPS:
        pair(ck, P, a, ('ret', '@trace'), stubs=parse_stubs(P), rule=VG, label='options of ' + a)


# -------------------------------------------------------------- manual pages
def manual(path):
    """option name -> (letter or None, takes an argument), for all 'long, -l' headings of a manual page"""
    d = {}
    for l in open(path, encoding='utf-8'):
        l = l.replace('\\', '')
        m = re.match(r'^--([A-Za-z0-9-]+)(=\S+)?(?:\s*,\s*-(\w)(\s*\S+)?)?\s*$', l)
        if m:
            d.setdefault(m.group(1), []).append((m.group(3), bool(m.group(2)), bool(m.group(4)) if m.group(3) else None))
    return d


@check('C16', R16)
def tables(ck, tier):
    for a in APPS:
        P = appfacts(a)
        sites = [(f, n) for f in mine(P) for n, g in calls(P, bodies(f)) if n['k'] == 'call' and g['q'] == 'getopt_long']
        if not sites:
            ck.add('options of %s' % a, UNDECIDED, 'no call of getopt_long', '')
            continue
        for f, n in sites:
            looked(ck, P, f)
            rows, s = table(P, n['args'][3]), literal(P, n['args'][2])
            w = at(P, n)
            if rows is None or not isinstance(s, str):
                ck.add('option table of %s' % a, UNDECIDED, 'the table is not a constant', w)
                continue
            bad, good = [], []
            sh = short_options(s)
            for i, (name, has, flag, val) in enumerate(rows):
                at_ = '%s: --%s' % (w, name)
                if any(r[0] == name for r in rows[:i]):
                    bad.append(at_ + ' is declared twice')
                if any(r[3] == val for r in rows[:i]):
                    bad.append(at_ + ' has the code of another option')
                if val < 256:
                    c = chr(val)
                    if c not in sh:
                        bad.append('%s: -%s is not in the short option string' % (at_, c))
                    elif sh[c] != has:
                        bad.append('%s and -%s differ in whether they take an argument' % (at_, c))
                good.append('--%s %s' % (name, chr(val) if val < 256 else ''))
            for c in sh:
                if not any(r[3] == ord(c) for r in rows):
                    bad.append('%s: -%s has no long form' % (w, c))
            decide(ck, 'option table and short options of %s' % a, bad, good, R16, w)
            commands(ck, a, P, f, rows)
            pages = glob.glob('%s/apps/%s/*.md' % (REPO, a))
            if len(pages) != 1:
                ck.add('manual page of %s' % a, UNDECIDED, '%d pages' % len(pages))
                continue
            man = manual(pages[0])
            rel = os.path.relpath(pages[0], REPO)
            bad, good = [], []
            for name, has, flag, val in rows:
                if name not in man:
                    bad.append('%s does not list --%s (%s)' % (rel, name, w))
                    continue
                letter, arg, sarg = man[name][0]
                c = chr(val) if val < 256 else None
                if letter != c:
                    bad.append('%s gives --%s the letter %s, the table %s (%s)' % (rel, name, letter, c, w))
                elif arg != bool(has) or sarg is not None and sarg != bool(has):
                    bad.append('%s and the table differ in whether --%s takes an argument (%s)' % (rel, name, w))
                else:
                    good.append('--' + name)
            for name in man:
                if not any(r[0] == name for r in rows):
                    bad.append('%s lists --%s, which the table (%s) does not have' % (rel, name, w))
                elif len(man[name]) > 1:
                    bad.append('%s lists --%s twice' % (rel, name))
            decide(ck, 'manual page of %s' % a, bad, good, R16, rel)


def commands(ck, a, P, f, rows):
    """the command names that the parser stores are ones that another function of the program compares with"""
    names = {r[0] for r in rows}
    entries = [id(x) for n in nodes(f['body']) if n['k'] == 'init' for x in nodes(n)]
    made = {}
    for n in nodes(f['body']):
        if n['k'] == 'str' and n['s'] in names and id(n) not in entries:
            made.setdefault(n['s'], n)
    if not made:
        return
    used = set()
    for g in mine(P):
        if g is f or not P.files[g['l'][0]].startswith('%s/apps/%s/' % (REPO, a)):
            continue
        for n in nodes(g['body']):
            h = callee(P, n)
            if h and h['n'] in ('operator==', 'operator!=', 'compare', 'find', 'at', 'operator[]', 'contains', 'count'):
                used |= {x['s'] for x in nodes(n) if x['k'] == 'str'}
            elif n['k'] == 'init':
                used |= {x['s'] for x in nodes(n) if x['k'] == 'str'}
    decide(ck, 'the program executes every command of %s' % a, ['%s: the command %s is parsed but never executed' % (at(P, n), s) for s, n in sorted(made.items()) if s not in used],
           sorted(made), R16, at(P, f))


def looked(ck, P, f):
    ck.funcs[f['q']] = at(P, f)
