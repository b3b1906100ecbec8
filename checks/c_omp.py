"""Parallel regions: which memory every iteration or section reads and writes.

Memory is named by an access path: a variable followed by members and indexes.  An index is followed as
(multiple of the loop variable, constant, other loop invariant terms), or not known.  Calls into functions of the
repository are followed with their parameters bound to the paths of the arguments.
"""
import copy
from syntax import *
from registry import check
from c_struct import APPS, HARNESSES, everywhere, is_source, type_of, base_of, declared

R21 = ('Per parallel region: every path that an iteration (or section) writes is compared with every path that another one accesses; an index made of the loop '
       'variable and constants names a different element in every iteration. Nothing shared is resized, no exception is thrown out of the region, '
       'and what is updated under a lock or by a reduction does not depend on the order.')
ACCESS = {'operator[]', 'at', 'front', 'back', 'data', 'begin', 'end', 'rbegin', 'rend', 'operator*', 'operator->', 'cbegin', 'cend', 'get', 'value'}
SHAPE = {'size', 'empty', 'length', 'capacity'}
NOWRITE = {'operator==', 'operator!=', 'operator<'}
UNSAFE = {'strtok', 'localtime', 'gmtime', 'ctime', 'asctime', 'strerror', 'setlocale', 'std::setlocale', 'std::strtok', 'std::localtime', 'tmpnam', 'getopt_long', 'getopt'}
SEQ = ('vector<', 'array<', 'basic_string<', 'deque<', 'span<')


class Region:
    """accesses of one loop body or section"""

    def __init__(self, P, fn, loopvars, private):
        self.P, self.fn = P, fn
        self.loop = loopvars
        self.private = set(private)
        self.acc = []          # (write, path, node, how)
        self.env = {}
        self.notes = []
        self.bad = []
        self.stack = []
        self.lock = None
        self.tries = 0

    # -------------------------------------------------------------- indexes
    def index(self, e):
        """(multiple, constant, terms) or None"""
        if e is None:
            return None
        if e.get('cv') is not None and e['k'] in ('lit', 'cast', 'ref', 'sizeof', 'un', 'bin'):
            try:
                return (0, int(e['cv']), ())
            except ValueError:
                return None
        k = e['k']
        if k in ('cast', 'mat', 'paren', 'temps'):
            return self.index(e.get('e'))
        if k == 'ctor' and len(e.get('args') or []) == 1:
            return self.index(e['args'][0])
        if k == 'ref':
            v = e.get('v')
            if v in self.loop:
                return (1, 0, ())
            b = self.env.get(v)
            if b is not None:
                return b[1] if b[0] == 'num' else None
            if v in self.private or not isinstance(v, int):
                return None
            return (0, 0, (('v%d' % v, 1),))
        if k == 'bin' and e['op'] in ('+', '-'):
            a, b = self.index(e['a']), self.index(e['b'])
            if a is None or b is None:
                return None
            s = 1 if e['op'] == '+' else -1
            t = dict(a[2])
            for n, c in b[2]:
                t[n] = t.get(n, 0) + s * c
            return (a[0] + s * b[0], a[1] + s * b[1], tuple(sorted((n, c) for n, c in t.items() if c)))
        if k == 'bin' and e['op'] == '*':
            a, b = self.index(e['a']), self.index(e['b'])
            if a and b and a[0] == 0 and not a[2]:
                a, b = b, a
            if a and b and b[0] == 0 and not b[2]:
                return (a[0] * b[1], a[1] * b[1], tuple((n, c * b[1]) for n, c in a[2] if b[1]))
            return None
        if k == 'call' and (callee(self.P, e) or {}).get('n') in SHAPE and e.get('obj'):
            p = self.path(e['obj'], False)
            if p and all(s[0] == 'f' for s in p[1]) and not self.mine_only(p):
                return (0, 0, (('size of %s' % (p,), 1),))
        return None

    def mine_only(self, p):
        return p[0][0] == 'v' and p[0][1] in self.private

    # ---------------------------------------------------------------- paths
    def path(self, e, rec=True):
        """(root, steps) of an lvalue; what is needed to compute it is recorded"""
        P = self.P
        k = e['k']
        if k == 'ref':
            v = e.get('v')
            b = self.env.get(v)
            if b is not None and b[0] == 'path':
                return b[1]
            return (('v', v), ()) if isinstance(v, int) else None
        if k == 'this':
            b = self.env.get('this')
            return b[1] if b else (('this',), ())
        if k == 'mem':
            b = self.path(e['b'], rec) if not e.get('arrow') else self.pointee(e['b'], rec)
            return (b[0], b[1] + (('f', e['f']),)) if b else None
        if k in ('cast', 'mat', 'paren', 'temps'):
            if e.get('ck') == 'LValueToRValue' and P.types[e['t']]['k'] == 'ptr':
                return self.pointee(e, rec)
            return self.path(e['e'], rec) if isinstance(e.get('e'), dict) else None
        if k == 'idx':
            if rec:
                self.value(e['b'])
            b = self.pointer(e['a'], rec)
            if b is None:
                return None
            i = self.index(e['b'])
            if b[1] is None or i is None:
                return (b[0][0], b[0][1] + (('i', None),))
            return (b[0][0], b[0][1] + (('i', add(b[1], i)),))
        if k == 'un' and e.get('op') == '*':
            return self.pointee(e['e'], rec)
        if k == 'cond':
            if rec:
                self.value(e['c'])
            a, b = self.path(e['a'], rec), self.path(e['b'], rec)
            return a if a == b else None
        if k in ('asgn', 'casgn') or k == 'un':
            if rec:
                self.value(e)
            return self.path(e.get('a') or e.get('e'), False)
        if k == 'call':
            g = callee(P, e)
            o = e.get('obj')
            if g and o is not None and not (g.get('mine') and g.get('body')):
                if g['n'] in ('operator[]', 'at', 'front', 'back', 'data') and P.recs[g['rec']]['name'].startswith('std::'):
                    if g['n'] in ('operator[]', 'at') and 'map' in P.recs[g['rec']]['name']:
                        if rec:
                            self.value(e)
                        b = self.path(o, False)
                        return (b[0], b[1] + (('i', None),)) if b else None
                    b = self.path(o, rec)
                    if rec:
                        for a in e.get('args') or []:
                            self.value(a)
                        if g['n'] == 'at':
                            self.throws(e, g['q'])
                    if b is None:
                        return None
                    if 'vector' in P.recs[g['rec']]['name'] and 'vector<bool' in P.recs[g['rec']].get('s', ''):
                        return (b[0], b[1] + (('bits', None),))
                    if g['n'] in ('operator[]', 'at'):
                        return (b[0], b[1] + (('i', self.index(e['args'][0]) if e.get('args') else None),))
                    if g['n'] == 'front':
                        return (b[0], b[1] + (('i', (0, 0, ())),))
                    return (b[0], b[1] + (('i', None),))
                if g['n'] in ('operator*', 'operator->'):
                    return self.pointee(o, rec)
            if g and g['n'] in ('get', 'forward', 'move', 'ref', 'as_const') and g['q'].startswith('std::') and e.get('args'):
                return self.path(e['args'][0], rec)
            if rec:
                return self.value(e)
            return None
        if rec:
            self.value(e)
        return None

    def pointer(self, e, rec=True):
        """(path of a sequence, position in it) that a pointer or iterator points to"""
        P = self.P
        k = e['k']
        if k == 'ref':
            b = self.env.get(e.get('v'))
            if b is not None and b[0] == 'ptr':
                return b[1]
            v = e.get('v')
            return ((('*', v), ()), None) if isinstance(v, int) else None
        if k in ('cast', 'mat', 'paren', 'temps'):
            if e.get('ck') == 'ArrayToPointerDecay':
                p = self.path(e['e'], rec)
                return (p, (0, 0, ())) if p else None
            return self.pointer(e['e'], rec) if isinstance(e.get('e'), dict) else None
        if k == 'un' and e.get('op') == '&':
            p = self.path(e['e'], rec)
            if p and p[1] and p[1][-1][0] == 'i':
                return ((p[0], p[1][:-1]), p[1][-1][1])
            return (p, 'exact') if p else None
        if k == 'this':
            b = self.env.get('this')
            return (b[1] if b else (('this',), ()), 'exact')
        if k == 'ctor' and len(e.get('args') or []) == 1:
            return self.pointer(e['args'][0], rec)
        if k == 'bin' and e['op'] in ('+', '-'):
            if rec:
                self.value(e['b'])
            a, i = self.pointer(e['a'], rec), self.index(e['b'])
            if a is None or a[1] == 'exact':
                return a
            return (a[0], add(a[1], i, 1 if e['op'] == '+' else -1) if i and a[1] else None)
        if k == 'call':
            g = callee(P, e)
            o = e.get('obj')
            if g and o is not None:
                if g['n'] in ('begin', 'cbegin', 'data'):
                    p = self.path(o, rec)
                    return (p, (0, 0, ())) if p else None
                if g['n'] in ('end', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound'):
                    if rec:
                        for a in e.get('args') or []:
                            self.value(a)
                    p = self.path(o, rec)
                    return (p, None) if p else None
                if g['n'] in ('operator+', 'operator-', 'operator++', 'operator--', 'operator+='):
                    if rec:
                        for a in e.get('args') or []:
                            self.value(a)
                    a = self.pointer(o, rec)
                    i = self.index(e['args'][0]) if e.get('args') and g['n'] in ('operator+', 'operator-') else None
                    if a is None or a[1] == 'exact':
                        return a
                    return (a[0], add(a[1], i, 1 if g['n'] == 'operator+' else -1) if i and a[1] else None)
            if g and g['q'] in ('std::begin', 'std::cbegin') and e.get('args'):
                p = self.path(e['args'][0], rec)
                return (p, (0, 0, ())) if p else None
            if rec:
                self.value(e)
        return None

    def pointee(self, e, rec=True):
        p = self.pointer(e, rec)
        if p is None:
            return None
        if p[1] == 'exact':
            return p[0]
        return (p[0][0], p[0][1] + (('i', p[1]),))

    # ------------------------------------------------------------- accesses
    def note(self, w, p, n, how):
        if p is None or self.mine_only(p):
            return
        if p[0] == ('v', None):
            return
        if p[0][0] == 'v' and p[0][1] in self.loop:
            return
        self.acc.append((w, p, n, self.lock, how, tuple(self.stack)))

    def read(self, p, n, how='reads'):
        self.note(False, p, n, how)

    def write(self, p, n, how='writes'):
        self.note(True, p, n, how)

    def throws(self, n, what):
        if not self.tries:
            self.bad.append((n, 'may leave the region by an exception (%s)' % what))

    # ----------------------------------------------------------- expressions
    def value(self, e):
        P = self.P
        if e is None:
            return None
        k = e['k']
        if k in ('lit', 'str', 'fnref', 'memfn', 'zero', 'sizeof', 'typeid', 'null', 'this'):
            return None
        if k == 'cast':
            if e.get('ck') == 'LValueToRValue':
                p = self.path(e['e'])
                self.read(p, e)
                return None
            return self.value(e['e'])
        if k in ('mat', 'paren', 'temps'):
            return self.value(e['e'])
        if k in ('ref', 'mem', 'idx'):
            return self.path(e)
        if k == 'asgn':
            self.value(e['b'])
            p = self.path(e['a'])
            self.write(p, e)
            self.forget(e['a'])
            return p
        if k == 'casgn':
            self.value(e['b'])
            p = self.path(e['a'])
            self.read(p, e)
            self.write(p, e, 'updates')
            self.forget(e['a'])
            return p
        if k == 'un':
            if e.get('op') in ('++', '--'):
                p = self.path(e['e'])
                self.read(p, e)
                self.write(p, e, 'updates')
                self.forget(e['e'])
                return p
            if e.get('op') == '*':
                return self.path(e)
            if e.get('op') == '&':
                self.path(e['e'])
                return None
            return self.value(e['e'])
        if k == 'bin':
            self.value(e['a'])
            return self.value(e['b'])
        if k == 'cond':
            self.value(e['c'])
            self.value(e['a'])
            return self.value(e['b'])
        if k == 'throw':
            self.value(e.get('e'))
            self.throws(e, 'throw')
            return None
        if k == 'lambda':
            return None
        if k in ('call', 'ctor'):
            return self.call(e)
        for x in kids(e):
            self.value(x)
        return None

    def forget(self, e):
        if e['k'] == 'ref':
            b = self.env.get(e.get('v'))
            if b is not None and b[0] in ('num', 'ptr'):
                self.env[e['v']] = ('num', None) if b[0] == 'num' else ('ptr', (b[1][0], None) if b[1] else None)

    def kind(self, t):
        """how a parameter of this type uses its argument"""
        T = self.P.types[t]
        if T['k'] == 'ref':
            return 'cref' if self.P.types[T['e']].get('c') else 'ref'
        if T['k'] == 'ptr':
            return 'cptr' if self.P.types[T['e']].get('c') else 'ptr'
        if T['k'] == 'rec' and 'iterator' in self.P.recs[T['r']]['name']:
            return 'citer' if 'const ' in T['s'] or 'const_iterator' in T['s'] else 'iter'
        return 'val'

    def call(self, e):
        P = self.P
        g = callee(P, e)
        args, o = e.get('args') or [], e.get('obj')
        if g is None:
            for a in args:
                self.value(a)
            if o is not None:
                self.value(o)
            self.notes.append('%s: unknown callee' % at(P, e))
            return None
        q = g['q']
        if q in CONTRACT_FAIL:
            return None
        if is_source(q) or q in UNSAFE:
            self.bad.append((e, 'calls %s' % q))
        if g.get('body') and g.get('mine'):
            return self.inside(e, g, args, o)
        if e['k'] == 'ctor':
            for a, t in zip(args, [p['t'] for p in g.get('params') or []] + [None] * len(args)):
                p = self.arg(a)
                self.read(p, a)
            return None
        rec = P.recs[g['rec']]['name'] if g.get('rec') is not None else ''
        if rec and o is not None and not g.get('static'):
            if g['n'] in SHAPE:
                p = self.path(o)
                self.read(p and (p[0], p[1] + (('f', '#size'),)), e)
                return None
            if g['n'] in ACCESS and not ('map' in rec and g['n'] == 'operator[]'):
                return self.path(e)
            p = self.path(o)
            for a in args:
                self.read(self.arg(a), a)
            if g['n'] in ('operator=',):
                self.write(p, e)
            elif g.get('const') or g['n'] in ('end', 'find', 'count'):
                self.read(p, e)
            elif 'iterator' in rec:
                self.forget(o)
            elif 'stream' in rec or 'ostream' in type_of(P, o):
                v = base_of(o)
                if not (isinstance(v, int) and P.vars[v] and P.vars[v].get('q') in ('std::clog', 'std::cerr')):
                    self.write(p, e, 'writes to a stream')
            else:
                self.write(p, e, 'resizes' if g['n'] in ('push_back', 'emplace_back', 'resize', 'insert', 'emplace', 'erase', 'clear', 'pop_back',
                                                         'operator[]', 'append', 'reserve', 'assign', 'shrink_to_fit', 'try_emplace') else 'modifies')
            return p if g['n'] == 'operator=' else None
        ps = [p['t'] for p in g.get('params') or []]
        if g['n'] in ('operator<<', 'operator>>') and args and 'stream' in type_of(P, args[0]):
            v = base_of(args[0])
            for a in args:
                p = self.arg(a)
                if a is args[0]:
                    if not (isinstance(v, int) and P.vars[v] and P.vars[v].get('q') in ('std::clog', 'std::cerr')):
                        self.write(p, e, 'uses a stream')
                else:
                    self.read(p, a)
            return self.path(args[0], False)
        for i, a in enumerate(args):
            p = self.arg(a)
            kd = self.kind(ps[i]) if i < len(ps) else 'val'
            if p is None:
                continue
            if kd in ('ref',) and q not in ('std::move', 'std::forward', 'std::get', 'std::min', 'std::max', 'std::begin', 'std::end', 'std::size'):
                self.write(p, a, 'passes to ' + q + ', which changes')
            elif kd in ('ptr', 'iter') and (q in STDW or not q.startswith('std::')):
                self.write(p, a, 'passes to ' + q + ', which changes')
            else:
                self.read(p, a)
        return self.path(e['args'][0], False) if q in ('std::move', 'std::forward', 'std::min', 'std::max') and args else None

    def arg(self, a):
        """the memory that an argument names, if it does"""
        t = self.P.types[a['t']] if isinstance(a.get('t'), int) else {}
        if t.get('k') == 'ptr' or t.get('k') == 'rec' and 'iterator' in self.P.recs[t['r']]['name']:
            x = self.pointer(a)
            return x and (x[0] if x[1] != 'exact' else x[0])
        if a.get('lv') or a['k'] in ('ref', 'mem', 'idx'):
            return self.path(a)
        if a['k'] in ('cast', 'mat') and a.get('ck') != 'LValueToRValue' and isinstance(a.get('e'), dict) and (a['e'].get('lv') == 1):
            return self.path(a['e'])
        self.value(a)
        return None

    # ---------------------------------------------------------------- callee
    def inside(self, e, g, args, o):
        P = self.P
        if g['id'] in [i for i, _ in self.stack] or len(self.stack) > 12:
            self.notes.append('%s: recursion' % at(P, e))
            for a in args:
                self.read(self.arg(a), a)
            return None
        new = {}
        lam = g.get('rec') is not None and P.recs[g['rec']].get('lambda')
        for i, p in enumerate(g['params']):
            if i >= len(args):
                break
            kd = self.kind(p['t'])
            if kd in ('cref', 'ref'):
                x = self.arg(args[i])
                new[p['v']] = ('path', x if x is not None else (('tmp', id(args[i])), ()))
                if x is None:
                    new[p['v']] = ('path', (('v', p['v']), ()))
                    self.private.add(p['v'])
            elif kd in ('cptr', 'ptr', 'iter', 'citer'):
                new[p['v']] = ('ptr', self.pointer(args[i]))
                self.private.add(p['v'])
            else:
                self.read(self.arg(args[i]), args[i])
                self.private.add(p['v'])
                new[p['v']] = ('num', self.index(args[i]))
        if o is not None and not lam:
            x = self.path(o)
            T = P.types[o['t']] if isinstance(o.get('t'), int) else {}
            if T.get('k') == 'ptr':
                x = self.pointee(o)
            new['this'] = ('path', x if x is not None else (('v', None), ()))
        elif e['k'] == 'ctor':
            new['this'] = ('path', (('v', None), ()))
        old = dict(self.env)
        oldtries = self.tries
        if g['q'].startswith('spoc::compression::'):
            self.tries += 1         # these fail for lack of memory only
        self.env.update(new)
        self.stack.append((g['id'], at(P, e)))
        for i in g.get('inits') or []:
            for n in kids(i):
                self.value(n)
        r = self.stmt(g['body'])
        self.stack.pop()
        self.tries = oldtries
        ret = None
        if P.types[g['ret']]['k'] == 'ref':
            rs = [n for n in nodes(g['body']) if n['k'] == 'ret' and n.get('e')]
            if rs:
                ps = [self.path(n['e'], False) for n in rs]
                ret = ps[0] if all(p == ps[0] for p in ps) else None
        keep = self.env
        self.env = old
        return ret

    # ------------------------------------------------------------- statements
    def stmt(self, s):
        P = self.P
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.stmt(x)
            return
        k = s['k']
        if k == 'block':
            return self.stmt(s['s'])
        if k == 'decl':
            for d in s['d']:
                if isinstance(d, dict) and isinstance(d.get('v'), int):
                    self.declare(d)
            return
        if k == 'for':
            changed = self.changed(s)
            self.stmt(s.get('init'))
            for v in changed:
                if v in self.env and self.env[v][0] in ('num', 'ptr'):
                    self.env[v] = ('num', None) if self.env[v][0] == 'num' else ('ptr', self.env[v][1] and (self.env[v][1][0], None))
            self.value(s.get('c'))
            self.stmt(s['body'])
            self.value(s.get('inc'))
            return
        if k in ('while', 'do'):
            for v in self.changed(s):
                if v in self.env and self.env[v][0] in ('num', 'ptr'):
                    self.env[v] = ('num', None) if self.env[v][0] == 'num' else ('ptr', self.env[v][1] and (self.env[v][1][0], None))
            self.value(s['c'])
            self.stmt(s['body'])
            return
        if k == 'rfor':
            p = self.path(s['range'])
            self.read(p and (p[0], p[1] + (('f', '#size'),)), s)
            for d in s['var']['d']:
                if self.P.types[P.vars[d['v']]['t']]['k'] == 'ref' and p is not None:
                    self.env[d['v']] = ('path', (p[0], p[1] + (('i', None),)))
                else:
                    self.private.add(d['v'])
                    self.env[d['v']] = ('num', None)
                    self.read(p and (p[0], p[1] + (('i', None),)), s)
            self.stmt(s['body'])
            return
        if k == 'try':
            every = any(h.get('v') is None and h.get('var') is None for h in s.get('h') or [] if isinstance(h, dict))
            self.tries += 1 if s.get('h') else 0
            self.stmt(s['body'])
            self.tries -= 1 if s.get('h') else 0
            for h in s.get('h') or []:
                self.stmt(h.get('body') if isinstance(h, dict) else h)
            return
        if k == 'omp':
            d = s['d']
            if d in ('critical', 'atomic', 'atomic update', 'single', 'master', 'masked'):
                old = self.lock
                self.lock = d
                self.stmt(s.get('s'))
                self.lock = old
            elif d == 'barrier':
                self.notes.append('%s: barrier' % at(P, s))
            else:
                self.notes.append('%s: nested %s' % (at(P, s), d))
                self.stmt(s.get('s'))
            return
        if k == 'ret':
            return self.value(s.get('e')) and None
        for x in kids(s):
            if is_stmt(x):
                self.stmt(x)
            else:
                self.value(x)

    def changed(self, s):
        return {n['a' if n['k'] in ('asgn', 'casgn') else 'e'].get('v') for n in nodes(s)
                if (n['k'] in ('asgn', 'casgn') and n['a']['k'] == 'ref' or n['k'] == 'un' and n.get('op') in ('++', '--') and n['e']['k'] == 'ref')}

    def declare(self, d):
        P = self.P
        v = d['v']
        V = P.vars[v]
        T = P.types[V['t']]
        if d.get('static') and not d.get('ext'):
            if not T.get('c') and not V.get('tls'):
                return                  # shared: stays out of the private variables
            self.private.add(v)
            return
        init = d.get('init')
        if T['k'] == 'ref':
            p = self.arg(init) if init else None
            self.env[v] = ('path', p) if p is not None else ('num', None)
            if p is None:
                self.private.add(v)
                self.env.pop(v)
            return
        self.private.add(v)
        self.env.pop(v, None)
        if init is None:
            return
        if T['k'] == 'ptr' or T['k'] == 'rec' and 'iterator' in P.recs[T['r']]['name']:
            self.env[v] = ('ptr', self.pointer(init))
            return
        p = self.arg(init)
        self.read(p, init)
        if T['k'] not in ('rec',):
            self.env[v] = ('num', self.index(init))


STDW = {'std::' + x for x in ('sort', 'stable_sort', 'shuffle', 'reverse', 'rotate', 'unique', 'remove', 'remove_if', 'copy', 'copy_n', 'copy_if', 'fill', 'fill_n',
                              'iota', 'transform', 'generate', 'partition', 'nth_element', 'partial_sort', 'swap_ranges', 'replace', 'memcpy', 'memset',
                              'generate_n', 'move', 'move_backward', 'copy_backward', 'memmove')} | {'memcpy', 'memset', 'memmove'}
CONTRACT_FAIL = ('__assert_fail',)
STMT = {'block', 'decl', 'for', 'while', 'do', 'rfor', 'try', 'omp', 'ret', 'if', 'switch', 'case', 'default', 'expr', 'label', 'break', 'continue', 'null'}


def is_stmt(x):
    return x['k'] in STMT and not (x['k'] == 'null')


def kids(x):
    for k, v in x.items():
        if k in ('t', 'l'):
            continue
        if isinstance(v, dict) and 'k' in v:
            yield v
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, dict) and 'k' in y:
                    yield y


def add(a, b, s=1):
    if a is None or b is None:
        return None
    t = dict(a[2])
    for n, c in b[2]:
        t[n] = t.get(n, 0) + s * c
    return (a[0] + s * b[0], a[1] + s * b[1], tuple(sorted((n, c) for n, c in t.items() if c)))


def overlap(p, q, iterations):
    """'no', 'maybe' or 'yes': can the two paths name the same memory in two different iterations (or in two sections)"""
    if p[0] != q[0]:
        return 'no'
    sure = 'yes'
    for a, b in zip(p[1], q[1]):
        if a[0] == 'bits' or b[0] == 'bits':
            return 'yes'
        if a[0] != b[0]:
            if ('f', '#size') in (a, b):
                return 'no'         # elements against size
            sure = 'maybe'
            continue
        if a[0] == 'f':
            if a[1] != b[1]:
                return 'no'
            continue
        x, y = a[1], b[1]
        if x is None or y is None:
            sure = 'data' if sure == 'yes' and (x is None) != (y is None) and (x or y)[0] else 'maybe'
            continue
        if x[0] == 0 and y[0] == 0:
            if x[2] == y[2]:
                if x[1] != y[1]:
                    return 'no'
                continue
            sure = 'maybe'
            continue
        if x == y:
            return 'no'             # the same multiple of different values of the loop variable
        if x[0] == y[0] and x[2] == y[2] and (x[1] - y[1]) % x[0]:
            return 'no'
        if x[0] and y[0] and x[0] != y[0] and not (x[2] == y[2] == () and {abs(x[0]), abs(y[0])} == {1}):
            sure = 'maybe'
        continue
    return sure


def describe(P, p):
    r = p[0]
    s = {'v': lambda: (P.vars[r[1]] or {}).get('n', '?'), '*': lambda: '*' + (P.vars[r[1]] or {}).get('n', '?'), 'this': lambda: 'this', 'tmp': lambda: 'temporary'}[r[0]]()
    for k, v in p[1]:
        if k == 'f':
            s += '.' + str(v)
        elif v is None:
            s += '[?]'
        else:
            s += '[%s]' % (('i' if v[0] == 1 else '%d*i' % v[0] if v[0] else '') + ('%+d' % v[1] if v[1] or not (v[0] or v[2]) else '') + ''.join('+..' for _ in v[2]))
    return s


def private_clauses(P, n):
    pr, red = set(), []
    for c in n.get('cl') or []:
        vs = [x['v'] for x in nodes(c['e']) if x['k'] == 'ref' and isinstance(x.get('v'), int)]
        if c['c'] in ('private', 'firstprivate', 'lastprivate', 'linear'):
            pr |= set(vs)
        elif c['c'] == 'reduction':
            pr |= set(vs)
            red.append((c.get('op'), vs))
    return pr, red


def floating(P, t):
    s = P.types[t]
    while s['k'] == 'ref':
        s = P.types[s['e']]
    return s['s'] in ('double', 'float', 'long double', 'const double', 'const float')


def conflicts(P, regions, iterations):
    """(definite, possible) conflicts between two iterations of one body, or between sections"""
    yes, maybe = [], []
    pairs = [(regions[0], regions[0])] if iterations else [(a, b) for i, a in enumerate(regions) for b in regions[i + 1:]]
    for A, B in pairs:
        for x, y in ((A, B),) if A is B else ((A, B), (B, A)):
            for w, p, n, lock, how, stack in x.acc:
                if not w:
                    continue
                for w2, p2, n2, lock2, how2, stack2 in y.acc:
                    if lock and lock2:
                        continue
                    o = overlap(p, p2, iterations)
                    if o == 'no':
                        continue
                    first = stack[0][1] if stack else at(P, n)
                    s = '%s: %s %s' % (at(P, n), how, describe(P, p))
                    if (w2, p2) == (w, p) and n2 is n:
                        s += ', as every other iteration may' if iterations else ''
                    else:
                        s += ', which another %s %s at %s as %s' % ('iteration' if iterations else 'section', how2, at(P, n2), describe(P, p2))
                    (yes if o == 'yes' or o == 'data' and not (w and w2) else maybe).append(s)
    return yes, maybe


def analyse(P, f, n):
    """(definite, possible) violations of one region"""
    pr, red = private_clauses(P, n)
    yes, maybe = [], []
    d = n['d']
    for op, vs in red:
        for v in vs:
            V = P.vars[v]
            if V and floating(P, V['t']) and op not in ('min', 'max'):
                yes.append('%s: the floating point reduction of %s depends on the number of threads' % (at(P, n), V['n']))
    body = n.get('s')
    if 'sections' in d:
        regs = []
        for s in [x for x in (body or {}).get('s', []) if isinstance(x, dict)]:
            r = Region(P, f, set(), pr)
            r.stmt(s.get('s') if s['k'] == 'omp' else s)
            regs.append(r)
        y, m = conflicts(P, regs, False)
    elif d.split()[-1] in ('for', 'simd') or d.endswith('loop'):
        loop = body
        while loop and loop['k'] == 'block' and len(loop['s']) == 1:
            loop = loop['s'][0]
        if not loop or loop['k'] not in ('for', 'rfor'):
            return [], ['%s: the loop is not understood' % at(P, n)], []
        if any(c['c'] == 'collapse' for c in n.get('cl') or []):
            return [], ['%s: collapsed loops' % at(P, n)], []
        r = Region(P, f, set(), pr)
        if loop['k'] == 'for':
            vs = declared(loop.get('init') or {}) or {x['a'].get('v') for x in nodes(loop.get('init')) if x['k'] == 'asgn' and x['a']['k'] == 'ref'}
            its = {v for v in vs if P.types[P.vars[v]['t']]['k'] in ('int',) or 'iterator' not in P.types[P.vars[v]['t']]['s']}
            r.loop = set(its) if len(vs) == 1 and not any('iterator' in P.types[P.vars[v]['t']]['s'] or P.types[P.vars[v]['t']]['k'] == 'ptr' for v in vs) else set()
            if not r.loop:
                # an iterator or a pointer: follow what it points to as the element of this iteration
                for x in nodes(loop.get('init')):
                    if x['k'] == 'decl':
                        for dd in x['d']:
                            if dd.get('v') in vs and dd.get('init'):
                                p = r.pointer(dd['init'], False)
                                r.env[dd['v']] = ('ptr', (p[0], (1, 0, ())) if p and p[1] != 'exact' else None)
                                r.private.add(dd['v'])
            r.value(loop.get('c'))
            r.stmt(loop['body'])
        else:
            p = r.path(loop['range'])
            for dd in loop['var']['d']:
                if p is not None and P.types[P.vars[dd['v']]['t']]['k'] == 'ref':
                    r.env[dd['v']] = ('path', (p[0], p[1] + (('i', (1, 0, ())),)))
                else:
                    r.private.add(dd['v'])
            r.stmt(loop['body'])
        regs = [r]
        y, m = conflicts(P, regs, True)
    elif d == 'parallel':
        inner = [x for x in nodes(body) if x['k'] == 'omp' and x['d'] in ('for', 'sections')]
        r = Region(P, f, set(), pr)
        skip = copy.copy(body)
        for x in inner:
            a, b, c = analyse(P, f, x)
            own = declared(body) | pr
            yes += a
            maybe += b
        return yes, maybe + ['%s: a parallel region without a loop' % at(P, n)], ['%d inner' % len(inner)]
    else:
        return [], ['%s: %s is not understood' % (at(P, n), d)], []
    yes += y
    maybe += m
    for r in regs:
        yes += ['%s: %s' % (at(P, x), w) for x, w in r.bad]
        maybe += r.notes
        for w, p, x, lock, how, stack in r.acc:
            if not (w and lock):
                continue
            s = '%s: %s %s under a lock' % (at(P, x), how, describe(P, p))
            if x['k'] == 'casgn' and floating(P, x['t']) or how == 'resizes':
                (maybe if how == 'resizes' else yes).append(s + ', in the order of the threads')
            elif x['k'] not in ('casgn', 'un'):
                maybe.append(s)
    return yes, maybe, sorted({describe(P, p) for r in regs for w, p, *_ in r.acc if w})


def repo_pragmas():
    out = set()
    for h in sorted(os.listdir(REPO + '/spoc')) + []:
        fn = REPO + '/spoc/' + h
        out |= lines_of(fn)
    for a in APPS:
        for fn in ('%s/apps/%s/%s.h' % (REPO, a, a), '%s/apps/%s/%s.cpp' % (REPO, a, a)):
            out |= lines_of(fn)
    return {x for x in out if not x[0].endswith(('test_utils.h', 'benchmark_utils.h'))}


def lines_of(fn):
    try:
        return {(fn, i + 1) for i, l in enumerate(open(fn)) if re.match(r'\s*#\s*pragma\s+omp\s+(parallel|for|sections|task)', l)}
    except OSError:
        return set()


@check('C21', R21)
def races(ck, tier):
    found = {}
    for P, f in everywhere():
        top = set()
        for n in nodes(f['body']):
            if n['k'] != 'omp' or id(n) in top:
                continue
            top |= {id(x) for x in nodes(n.get('s'))}
            k = (P.files[n['l'][0]], n['l'][1])
            y, m, w = analyse(P, f, n)
            e = found.setdefault(k, (f['q'], set(), set(), set()))
            e[1].update(y)
            e[2].update(m)
            e[3].update(w)
            ck.funcs[f['q']] = at(P, f)
    for (fn, line), (q, yes, maybe, w) in sorted(found.items()):
        s = '%s:%d' % (os.path.relpath(fn, REPO), line)
        name = 'parallel region of %s (%s)' % (q, s)
        if yes:
            ck.add(name, VIOLATED, '; '.join(sorted(yes)[:4]), sorted(yes)[0], {'sites': sorted(yes)[:40]}, R21)
        elif maybe:
            ck.add(name, UNDECIDED, '; '.join(sorted(maybe)[:4]), s, None, R21)
        else:
            ck.add(name, DISCHARGED, 'writes ' + ', '.join(sorted(w)), s, None, R21)
            ck.extra.setdefault('written', {})[name] = sorted(w)
    missing = [x for x in repo_pragmas() if x not in found]
    inner = [x for x in missing]
    if missing:
        ck.add('every parallel region was analysed', UNDECIDED, ', '.join('%s:%d' % x for x in sorted(missing)))
    else:
        ck.add('every parallel region was analysed', DISCHARGED, '%d regions' % len(found))
