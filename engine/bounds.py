"""Abstract interpretation of one function over linear forms: which bytes and elements it accesses.

A state maps integer variables, pointers and container sizes to linear forms over symbols with a conjunction of linear
constraints.  Branches split the state.  A loop is summarised by the affine equations that its body preserves (a null
space over the changes along every path back to the loop head) and by inequalities that survive going round; the
program is never run and the number of rounds is a symbol.
"""
from linear import Lin, lin, sym, feasible, entails, witness, null_space

MAXSTATES = 300


class Stop(Exception):
    pass


class Ptr:
    """offset `off` in bytes inside element `idx` of the records `obj`, or inside the bytes of `obj`"""
    __slots__ = ('obj', 'idx', 'off')

    def __init__(self, obj, idx, off):
        self.obj, self.idx, self.off = obj, idx, off

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.obj, self.idx, self.off)


class Obj:
    __slots__ = ('id', 'idx')

    def __init__(self, id, idx=None):
        self.id, self.idx = id, idx

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.id, self.idx)


class Var:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Val:
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


class State:
    def __init__(self):
        self.env, self.heap, self.ghost = {}, {}, {}
        self.eqs, self.ges = [], []
        self.exact = True
        self.fuzzy = set()     # symbols that stand for more values than the program can have

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.ghost = dict(self.ghost)
        s.eqs, s.ges = list(self.eqs), list(self.ges)
        s.exact = self.exact
        s.fuzzy = set(self.fuzzy)
        return s

    def ok(self):
        return feasible(self.eqs, self.ges)

    def vague(self, l):
        return any(a in self.fuzzy for a in l.c)

    def ent(self, l):
        return entails(self.eqs, self.ges, lin(l))

    def enteq(self, l):
        l = lin(l)
        return l == lin(0) or (self.ent(l) and self.ent(-l))


class Interp:
    def __init__(self, P, plain=None):
        self.P = P
        self.n = 0
        self.obs = {}          # (rule, node id) -> [status, detail, where, witness]
        self.record = True
        self.notes = set()
        self.depth = 0
        self.plain = plain or {}
        self.inputs = set()
        self.events = []
        self.nstates = 0

    # ----------------------------------------------------------- utilities
    def fresh(self, hint='u'):
        self.n += 1
        return '%s#%d' % (hint, self.n)

    def note(self, s):
        self.notes.add(s)

    def ty(self, t):
        return self.P.types[t] if isinstance(t, int) else {'k': 'other'}

    def strip(self, t):
        x = self.ty(t)
        while x['k'] == 'ref':
            x = self.ty(x['e'])
        return x

    def where(self, n):
        l = n.get('l')
        if not l:
            return ''
        return '%s:%d' % (self.P.files[l[0]], l[1])

    def size(self, x):
        k = x['k']
        if k == 'int' or k == 'float':
            return x['bits'] // 8
        if k == 'bool':
            return 1
        if k == 'ptr':
            return 8
        if k == 'rec':
            return self.P.recs[x['r']].get('size')
        if k == 'enum':
            return 4
        if k == 'void':
            return 1
        return None

    def name(self, x):
        return x.get('s', '') if x['k'] == 'rec' else ''

    def is_vec(self, x):
        s = x.get('s', '')
        return x['k'] == 'rec' and s.replace('const ', '').startswith(('std::vector<', 'std::basic_string<', 'std::array<'))

    def elem(self, x):
        """element type of a vector type, by its operator[] or value_type name"""
        s = x.get('s', '').replace('const ', '', 1) if x.get('s', '').startswith('const ') else x.get('s', '')
        inner = s[s.index('<') + 1:s.rindex('>')] if '<' in s else ''
        if s.startswith('std::basic_string'):
            inner = 'char'
        inner = inner.split(', std::')[0]
        for y in self.P.types:
            if y.get('s') == inner and not y.get('c'):
                return y
        return {'k': 'other', 's': inner}

    def oblige(self, st, rule, n, goals, text):
        """every goal >= 0"""
        if not self.record:
            return
        key = (rule, self.where(n), text)
        for g in goals:
            if g is None:
                self.put(key, 'undecided', 'an operand is not known', n, None)
                continue
            g = lin(g)
            if st.ent(g):
                self.put(key, 'ok', '', n, None)
                continue
            w = witness(st.eqs, st.ges + [lin(-1) - g]) if st.exact and not st.vague(g) else None
            if w is not None:
                self.put(key, 'bad', '%s is negative' % g, n, {k: v for k, v in w.items() if k in self.inputs or True})
            else:
                self.put(key, 'undecided', 'not shown: %s >= 0' % g, n, None)

    def oblige_eq(self, st, rule, n, l, text):
        if not self.record:
            return
        key = (rule, self.where(n) if n else '', text)
        if l is None:
            self.put(key, 'undecided', 'an operand is not known', n, None)
            return
        l = lin(l)
        if st.enteq(l):
            self.put(key, 'ok', '', n, None)
            return
        w = None
        if st.exact and not st.vague(l):
            w = witness(st.eqs, st.ges + [l - 1]) or witness(st.eqs, st.ges + [-l - 1])
        self.put(key, 'bad' if w is not None else 'undecided', '%s differs from 0' % l, n, w)

    def put(self, key, status, detail, n, w):
        rank = {'ok': 0, 'undecided': 1, 'bad': 2}
        old = self.obs.get(key)
        if old is None or rank[status] > rank[old[0]]:
            self.obs[key] = [status, detail, self.where(n) if n else '', w]

    # ---------------------------------------------------------- memory
    def region(self, st, p):
        """(checks that the element exists, bytes from the pointer to the end of what may be touched)"""
        o = st.heap.get(p.obj) if not isinstance(p.obj, tuple) else None
        if isinstance(p.obj, tuple) and p.obj[0] == 'extra':
            r = st.heap.get(p.obj[1])
            if r is None:
                return None
            n = self.extra_of(st, p.obj[1], p.idx)
            if n is None:
                return None
            return [p.idx, r['size'] - p.idx - 1, p.off], n.scale(8) - p.off
        if o is None or o.get('size') is None or o.get('esz') is None:
            return None
        if p.idx is not None:
            lim = o.get('plain', o['esz'])
            return [p.idx, o['size'] - p.idx - 1, p.off], lin(lim) - p.off
        return [p.off], o['size'].scale(o['esz']) - p.off

    def extra_of(self, st, rid, idx):
        o = st.heap.get(rid)
        if o is None:
            return None
        ov = o.get('over')
        if ov is not None and st.enteq(ov[0] - idx):
            return ov[1]
        return o.get('extra')

    def touch(self, st, p, count, n, what):
        """bytes [p, p + count) are accessed"""
        if not isinstance(p, Ptr) or count is None:
            self.oblige(st, 'access', n, [None], what)
            return False
        r = self.region(st, p)
        if r is None:
            self.oblige(st, 'access', n, [None], what)
            return False
        pre, left = r
        if lin(count).const() == 0:
            return True
        s2 = st
        if not st.ent(lin(count) - 1):
            s2 = st.copy()
            s2.ges.append(lin(count) - 1)
            if not s2.ok():
                return True
        self.oblige(s2, 'access', n, list(pre) + [left - count], what)
        return True

    # ---------------------------------------------------------- lvalues
    def lval(self, n, st):
        """list of (location, state)"""
        k = n['k']
        if k == 'ref':
            v = n.get('v')
            x = st.env.get(v)
            if isinstance(x, (Val, Var)) or isinstance(x, tuple):
                return [(x, st)]
            if isinstance(x, Ptr) and self.ty(n['t'])['k'] != 'ptr' and v in self.alias:
                return [(('at', x), st)]
            return [(Var(v), st)]
        if k == 'mat':
            return [(Val(v), s) for v, s in self.ev(n['e'], st)]
        if k in ('paren', 'temps', 'cast'):
            return self.lval(n['e'], st)
        if k == 'un' and n['op'] == '*':
            return [(('at', v) if isinstance(v, Ptr) else Val(None), s) for v, s in self.ev(n['e'], st)]
        if k == 'un' and n['op'] in ('++', '--'):
            return self.incdec(n, st, True)
        if k in ('casgn', 'asgn'):
            return [(l, s) for l, s in self.assign(n, st)]
        if k == 'mem':
            out = []
            base = self.ev(n['b'], st) if n.get('arrow') else self.lval(n['b'], st)
            for b, s in base:
                if n.get('arrow'):
                    b = ('at', b) if isinstance(b, Ptr) else Val(None)
                out.append((self.member(n, b, s), s))
            return out
        if k == 'call':
            return self.call(n, st, True)
        if k == 'idx':
            out = []
            for p, s in self.ev(n['a'], st):
                for i, s2 in self.ev(n['b'], s):
                    q = self.add(s2, p, i, self.ty(n['a']['t']), 1)
                    out.append((('at', q) if isinstance(q, Ptr) else Val(None), s2))
            return out
        if k == 'cond':
            return [x for s, c in self.branches(n['c'], st) for x in self.lval(n['a'] if c else n['b'], s)]
        if k == 'this':
            return [(Val(None), st)]
        return [(Val(v), s) for v, s in self.ev(n, st)]

    def member(self, n, b, st):
        f = n.get('f')
        if isinstance(b, tuple) and b[0] == 'at' and isinstance(b[1], Ptr) and b[1].idx is not None and not isinstance(b[1].obj, tuple):
            o = st.heap.get(b[1].obj) or {}
            if f == 'extra' and o.get('rec') is not None:
                self.touch_elem(st, b[1], n)
                return Val(Obj(('extra', b[1].obj), b[1].idx))
            for fl in (self.P.recs[o['rec']].get('fields') or ()) if o.get('rec') is not None else ():
                if fl['n'] == f and fl.get('off') is not None:
                    return ('at', Ptr(b[1].obj, b[1].idx, b[1].off + fl['off']))
        if isinstance(b, Val) and isinstance(b.x, Obj) and f == 'extra':
            return Val(Obj(('extra', b.x.id), lin(0)))
        return Val(None)

    def touch_elem(self, st, p, n):
        r = self.region(st, p)
        if r is None:
            self.oblige(st, 'access', n, [None], 'element access')
        else:
            self.oblige(st, 'access', n, r[0], 'element access')

    def load(self, loc, st, n=None):
        if isinstance(loc, Var):
            x = st.env.get(loc.v)
            return x.x if isinstance(x, Val) else x
        if isinstance(loc, Val):
            return loc.x
        if isinstance(loc, tuple) and loc[0] == 'at':
            t = self.strip(n['t']) if n else {'k': 'other'}
            if isinstance(loc[1], Ptr) and self.size(t) and t['k'] in ('int', 'float', 'bool'):
                self.touch(st, loc[1], lin(self.size(t)), n, 'read of %d bytes' % self.size(t))
            if t['k'] == 'int':
                return self.havoc(st, t, False)
        return None

    def havoc(self, st, t, exact=False):
        x = sym(self.fresh('m'))
        if t['k'] == 'int':
            if not t.get('sg'):
                st.ges.append(x)
            if t['bits'] < 64:
                lo, hi = (0, 2 ** t['bits'] - 1) if not t.get('sg') else (-2 ** (t['bits'] - 1), 2 ** (t['bits'] - 1) - 1)
                st.ges += [x - lo, lin(hi) - x]
        if not exact:
            st.fuzzy |= set(x.c)
        return x

    def store(self, loc, val, st, n):
        if isinstance(loc, Var):
            st.env[loc.v] = val
        elif isinstance(loc, tuple) and loc[0] == 'at' and isinstance(loc[1], Ptr):
            t = self.strip(n['t'])
            if self.size(t) and t['k'] in ('int', 'float', 'bool'):
                self.touch(st, loc[1], lin(self.size(t)), n, 'write of %d bytes' % self.size(t))
                self.copied(st, None, loc[1], lin(self.size(t)), n)
            else:
                self.touch_elem(st, loc[1], n)
        elif isinstance(loc, Val) and isinstance(loc.x, Obj) and isinstance(val, Obj):
            self.assign_obj(loc.x, val, st)

    def assign_obj(self, a, b, st):
        if isinstance(a.id, tuple) or isinstance(b.id, tuple):
            self.note('assignment of extra fields')
            if isinstance(a.id, tuple) and a.id[1] in st.heap:
                st.heap[a.id[1]]['over'] = None
                st.heap[a.id[1]]['extra'] = None
            return
        st.heap[a.id] = dict(st.heap[b.id])

    # ---------------------------------------------------------- arithmetic
    def wrap(self, l, t, st):
        """the value of a mathematical integer in a type"""
        if l is None or not isinstance(l, Lin):
            return l
        if t['k'] == 'bool':
            return l
        if t['k'] != 'int':
            return None
        bits, sg = t['bits'], t.get('sg')
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
        c = l.const()
        if c is not None:
            c = (c - lo) % 2 ** bits + lo
            return lin(c)
        if bits == 64:
            # sizes and counts do not come near 2^63
            if sg or st.ent(l):
                return l
            # below zero: wraps round
            x, q = sym(self.fresh('w')), sym(self.fresh('q'))
            st.eqs.append(l - x + q.scale(2 ** 64))
            st.ges += [x, lin(2 ** 64 - 1) - x, q, lin(1) - q]
            self.derived(st, l, x, q)
            return x
        if st.ent(l - lo) and st.ent(lin(hi) - l):
            return l
        x, q = sym(self.fresh('w')), sym(self.fresh('q'))
        st.eqs.append(l - x - q.scale(2 ** bits))
        st.ges += [x - lo, lin(hi) - x]
        self.derived(st, l, x, q)
        return x

    def derived(self, st, l, *xs):
        if st.vague(l):
            for x in xs:
                st.fuzzy |= set(x.c)

    def esize(self, t):
        x = self.ty(t['e']) if t.get('e') is not None else None
        return self.size(x) if x else None

    def add(self, st, p, i, t, sign):
        if isinstance(p, Ptr) and isinstance(i, Lin):
            i = i if sign > 0 else -i
            es = self.esize(t) if t['k'] == 'ptr' else None
            o = st.heap.get(p.obj) if not isinstance(p.obj, tuple) else {'esz': 8}
            if es is None:
                es = o.get('esz') if o else None
            if es is None:
                return None
            if p.idx is not None and not isinstance(p.obj, tuple):
                if o and es == o.get('esz'):
                    return Ptr(p.obj, p.idx + i, p.off)
                return Ptr(p.obj, p.idx, p.off + i.scale(es))
            return Ptr(p.obj, p.idx, p.off + i.scale(es))
        return None

    def mul(self, a, b):
        if a is None or b is None or not isinstance(a, Lin) or not isinstance(b, Lin):
            return None
        if a.const() is not None:
            return b.scale(a.const())
        if b.const() is not None:
            return a.scale(b.const())
        return None

    def divmod(self, a, b, n, st):
        if not isinstance(b, Lin):
            return None, None
        self.oblige(st, 'division', n, [b - 1] if not self.neg(b, st) else [lin(0)], 'the divisor is not zero')
        d = b.const()
        if d is None or not isinstance(a, Lin) or d <= 0:
            return None, None
        if a.const() is not None and a.const() >= 0:
            return lin(a.const() // d), lin(a.const() % d)
        if not st.ent(a):
            return None, None
        q, r = sym(self.fresh('q')), sym(self.fresh('r'))
        st.eqs.append(a - q.scale(d) - r)
        st.ges += [q, r, lin(d - 1) - r]
        self.derived(st, a, q, r)
        return q, r

    def neg(self, b, st):
        return st.ent(-b - 1)

    # ---------------------------------------------------------- conditions
    def branches(self, n, st):
        """list of (state, truth)"""
        k = n['k']
        if k == 'un' and n['op'] == '!':
            return [(s, not c) for s, c in self.branches(n['e'], st)]
        if n.get('cv') is not None and k in ('lit', 'cast', 'bin', 'sizeof', 'ref'):
            return [(st, int(n['cv']) != 0)]
        if k in ('paren', 'temps', 'mat') or (k == 'cast' and n.get('ck') in ('LValueToRValue', 'NoOp', 'IntegralToBoolean', 'PointerToBoolean', 'UserDefinedConversion') and n['e']['k'] in ('bin', 'un', 'call', 'cast', 'paren', 'temps', 'mat')):
            if k == 'cast' and n.get('ck') == 'IntegralToBoolean':
                return self.nonzero(n['e'], st)
            return self.branches(n['e'], st)
        if k == 'bin' and n['op'] == '&&':
            out = []
            for s, c in self.branches(n['a'], st):
                out += self.branches(n['b'], s) if c else [(s, False)]
            return out
        if k == 'bin' and n['op'] == '||':
            out = []
            for s, c in self.branches(n['a'], st):
                out += [(s, True)] if c else self.branches(n['b'], s)
            return out
        if k == 'bin' and n['op'] in ('<', '<=', '>', '>=', '==', '!='):
            out = []
            for a, s in self.ev(n['a'], st):
                for b, s2 in self.ev(n['b'], s):
                    out += self.compare(n['op'], a, b, s2)
            return out
        if k == 'call' and (n.get('op') or self.fname(n)) in ('operator==', 'operator!=', 'operator<'):
            args = ([n['obj']] if n.get('obj') else []) + n['args']
            if len(args) == 2:
                out = []
                for a, s in self.ev(args[0], st):
                    for b, s2 in self.ev(args[1], s):
                        out += self.compare(self.fname(n)[8:], a, b, s2)
                return out
        if k == 'call' and self.fname(n) in ('operator!', 'operator bool', 'fail', 'good', 'bad', 'eof'):
            return self.split(st)
        if k == 'cast' and n.get('ck') in ('IntegralToBoolean', 'LValueToRValue'):
            return self.nonzero(n['e'], st)
        return self.nonzero(n, st)

    def nonzero(self, n, st):
        out = []
        for v, s in self.ev(n, st):
            if isinstance(v, Lin):
                out += self.compare('!=', v, lin(0), s)
            else:
                out += self.split(s, n)
        return out

    def split(self, st, n=None):
        if n is not None:
            st.exact = False
        return [(st.copy(), True), (st, False)]

    def compare(self, op, a, b, st):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if a.idx is not None and b.idx is not None and a.off == b.off:
                a, b = a.idx, b.idx
            elif a.idx is None and b.idx is None:
                a, b = a.off, b.off
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return self.split(st, {})
        d = a - b
        if st.vague(d):
            st = st.copy()
            st.exact = False
        op, d, flip = {'<': ('<', d, False), '>': ('<', -d, False), '<=': ('<', -d, True), '>=': ('<', d, True),
                       '==': ('==', d, False), '!=': ('==', d, True)}[op]
        out = []
        if op == '<':
            cases = [([], [-d - 1], True), ([], [d], False)]
        else:
            cases = [([d], [], True), ([], [d - 1], False), ([], [-d - 1], False)]
        for eqs, ges, truth in cases:
            s = st.copy()
            s.eqs += eqs
            s.ges += ges
            if s.ok():
                out.append((s, truth != flip))
        return out

    # ---------------------------------------------------------- expressions
    def fname(self, n):
        f = self.P.fns[n['fn']] if isinstance(n.get('fn'), int) else None
        return f['n'] if f else ''

    def ev(self, n, st):
        """list of (value, state)"""
        k = n['k']
        t = self.ty(n.get('t'))
        if n.get('cv') is not None and t['k'] in ('int', 'bool', 'enum') and k != 'call':
            try:
                return [(lin(int(n['cv'])), st)]
            except ValueError:
                return [(None, st)]
        if n.get('lv') == 1 and k not in ('mat', 'init'):
            return [(self.load(l, s, n), s) for l, s in self.lval(n, st)]
        if k == 'cast':
            ck = n.get('ck')
            out = []
            if ck == 'LValueToRValue':
                for l, s in self.lval(n['e'], st):
                    out.append((self.load(l, s, n), s))
                return out
            if ck in ('ArrayToPointerDecay', 'ToVoid', 'FunctionToPointerDecay'):
                return [(None, s) for _, s in (self.ev(n['e'], st) if ck == 'ToVoid' else [(None, st)])]
            for v, s in self.ev(n['e'], st):
                if ck == 'IntegralCast':
                    v = self.wrap(v, t, s) if isinstance(v, Lin) else v
                elif ck == 'IntegralToBoolean' and isinstance(v, Lin):
                    out += [(lin(1 if c else 0), s2) for s2, c in self.compare('!=', v, lin(0), s)]
                    continue
                elif ck in ('FloatingToIntegral',):
                    v = self.havoc(s, t)
                elif ck in ('IntegralToFloating', 'FloatingCast'):
                    v = None
                out.append((v, s))
            return out
        if k in ('mat', 'paren', 'temps'):
            return self.ev(n['e'], st)
        if k == 'bin':
            op = n['op']
            if op in ('<', '<=', '>', '>=', '==', '!=', '&&', '||'):
                return [(lin(1 if c else 0), s) for s, c in self.branches(n, st)]
            out = []
            for a, s in self.ev(n['a'], st):
                for b, s2 in self.ev(n['b'], s):
                    out.append((self.binop(op, a, b, n, t, s2), s2))
            return out
        if k == 'un':
            op = n['op']
            if op == '!':
                return [(lin(1 if c else 0), s) for s, c in self.branches(n, st)]
            if op == '&':
                out = []
                for l, s in self.lval(n['e'], st):
                    v = None
                    if isinstance(l, tuple) and l[0] == 'at':
                        v = l[1]
                    elif isinstance(l, Val) and isinstance(l.x, Obj):
                        v = ('addr', l.x)
                    elif isinstance(l, Var):
                        x = st.env.get(l.v)
                        v = Ptr(x.id, lin(0), lin(0)) if isinstance(x, Obj) and not isinstance(x.id, tuple) and (st.heap.get(x.id) or {}).get('kind') == 'record' else None
                        if v is None and isinstance(x, Lin):
                            s.env[l.v] = None      # may change behind our back
                            self.note('address of a variable')
                    out.append((v if not isinstance(v, tuple) else None, s))
                return out
            if op in ('++', '--'):
                return [(self.load(l, s, n) if isinstance(l, (Var, tuple)) else getattr(l, 'x', None), s) for l, s in self.incdec(n, st, False)]
            out = []
            for v, s in self.ev(n['e'], st):
                if op == '-' and isinstance(v, Lin):
                    v = self.wrap(-v, t, s)
                elif op == '+':
                    pass
                elif op == '*':
                    pass
                else:
                    v = None
                out.append((v, s))
            return out
        if k in ('asgn', 'casgn'):
            return [(self.load(l, s, n) if not isinstance(l, tuple) else None, s) for l, s in self.assign(n, st)]
        if k == 'cond':
            return [x for s, c in self.branches(n['c'], st) for x in self.ev(n['a'] if c else n['b'], s)]
        if k == 'call':
            return self.call(n, st, False)
        if k == 'ctor':
            return self.ctor(n, st)
        if k == 'idx':
            return [(self.load(l, s, n), s) for l, s in self.lval(n, st)]
        if k == 'sizeof':
            return [(None, st)]
        if k in ('lit', 'str', 'null', 'zero', 'fnref', 'memfn', 'typeid', 'this'):
            if k == 'zero' and t['k'] == 'int':
                return [(lin(0), st)]
            return [(None, st)]
        if k == 'throw':
            raise Stop('throw inside an expression')
        if k in ('ref', 'mem'):
            return [(self.load(l, s, n), s) for l, s in self.lval(n, st)]
        self.note('expression ' + k)
        for x in self.below(n):
            pass
        return [(None, st)]

    def below(self, n):
        return ()

    def binop(self, op, a, b, n, t, st):
        if isinstance(a, Ptr) and isinstance(b, Lin) and op in '+-':
            return self.add(st, a, b, self.ty(n['a']['t']), 1 if op == '+' else -1)
        if isinstance(b, Ptr) and isinstance(a, Lin) and op == '+':
            return self.add(st, b, a, self.ty(n['b']['t']), 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-' and a.obj == b.obj and a.idx is None and b.idx is None:
            es = self.esize(self.ty(n['a']['t']))
            d = a.off - b.off
            if es == 1:
                return d
            return None
        if op == '*':
            return self.wrap(self.mul(a, b), t, st)
        if op in '/%':
            q, r = self.divmod(a, b, n, st)
            return q if op == '/' else r
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return None
        if op == '+':
            return self.wrap(a + b, t, st)
        if op == '-':
            return self.wrap(a - b, t, st)
        if a.const() is not None and b.const() is not None and a.const() >= 0 and 0 <= b.const() < 64:
            x, y = a.const(), b.const()
            r = {'<<': x << y, '>>': x >> y, '&': x & y, '|': x | y, '^': x ^ y}.get(op)
            return self.wrap(lin(r), t, st) if r is not None else None
        if op == '<<' and b.const() is not None and 0 <= b.const() < 32:
            return self.wrap(a.scale(1 << b.const()), t, st)
        return None

    def incdec(self, n, st, lv):
        out = []
        sign = 1 if n['op'] == '++' else -1
        for l, s in self.lval(n['e'], st):
            old = self.load(l, s, n['e'])
            t = self.strip(n['e']['t'])
            new = self.add(s, old, lin(1), t, sign) if isinstance(old, Ptr) else self.wrap(old + sign, t, s) if isinstance(old, Lin) else None
            self.store(l, new, s, n['e'])
            if n.get('post'):
                out.append((Val(old), s))
            else:
                out.append((l if isinstance(l, Var) else Val(new), s))
        return out

    def assign(self, n, st):
        out = []
        t = self.strip(n['a']['t'])
        for v, s in self.ev(n['b'], st):
            for l, s2 in self.lval(n['a'], s):
                x = v
                if n['k'] == 'casgn':
                    old = self.load(l, s2, n['a'])
                    fake = {'k': 'bin', 'op': n['op'], 'a': n['a'], 'b': n['b'], 'l': n.get('l')}
                    x = self.binop(n['op'], old, v, fake, self.ty(n.get('ct')), s2)
                    if isinstance(x, Lin):
                        x = self.wrap(x, t, s2)
                self.store(l, x, s2, n['a'])
                out.append((l, s2))
        return out

    # ---------------------------------------------------------- objects
    def newvec(self, st, t, size, init=None):
        i = self.fresh('o')
        e = self.elem(t)
        o = {'kind': 'vec', 'size': size if isinstance(size, Lin) else None, 'esz': self.size(e), 'src': None}
        if e['k'] == 'rec':
            o['rec'] = e['r']
            o['extra'] = lin(0)
            for f in self.P.recs[e['r']].get('fields') or ():
                if self.ty(f['t'])['k'] == 'rec':
                    o['plain'] = f['off']
                    break
            if isinstance(init, Obj) and not isinstance(init.id, tuple):
                o['extra'] = st.heap[init.id].get('extra')
            elif init is not None:
                o['extra'] = None
        st.heap[i] = o
        return Obj(i)

    def newrec(self, st, t, extra):
        i = self.fresh('o')
        o = {'kind': 'record', 'size': lin(1), 'esz': self.size(t), 'rec': t['r'], 'extra': extra, 'src': None}
        for f in self.P.recs[t['r']].get('fields') or ():
            if self.ty(f['t'])['k'] == 'rec':
                o['plain'] = f['off']
                break
        st.heap[i] = o
        return Obj(i)

    def ctor(self, n, st):
        t = self.ty(n['t'])
        f = self.P.fns[n['fn']]
        args = [a for a in n.get('args') or [] if 'allocator' not in self.strip(a['t']).get('s', '')]
        if self.is_vec(t):
            if f.get('special') in ('copy', 'move') or (len(args) == 1 and self.strip(args[0]['t']).get('s', '').replace('const ', '') == t.get('s', '').replace('const ', '')):
                out = []
                for l, s in self.lval(args[0], st):
                    v = self.load(l, s, args[0])
                    if isinstance(v, Obj) and not isinstance(v.id, tuple) and v.id in s.heap:
                        i = self.fresh('o')
                        s.heap[i] = dict(s.heap[v.id])
                        s.heap[i]['of'] = s.heap[v.id].get('of', v.id)
                        out.append((Obj(i), s))
                    else:
                        out.append((self.newvec(s, t, self.havoc(s, {'k': 'int', 'bits': 64, 'sg': False})), s))
                return out
            if not args:
                return [(self.newvec(st, t, lin(0)), st)]
            out = []
            if len(args) <= 2 and self.strip(args[0]['t'])['k'] == 'int':
                for v, s in self.ev(args[0], st):
                    if len(args) == 2:
                        for w, s2 in self.ev(args[1], s):
                            out.append((self.newvec(s2, t, v, w if isinstance(w, Obj) else None if self.elem(t)['k'] != 'rec' else w), s2))
                    else:
                        out.append((self.newvec(s, t, v), s))
                return out
            return [(self.newvec(st, t, self.havoc(st, {'k': 'int', 'bits': 64, 'sg': False})), st)]
        if t['k'] == 'rec' and any(x['n'] == 'extra' for x in self.P.recs[t['r']].get('fields') or ()):
            if f.get('special') in ('copy', 'move'):
                out = []
                for l, s in self.lval(args[0], st):
                    v = self.load(l, s, args[0])
                    e = None
                    if isinstance(v, Obj):
                        e = s.heap.get(v.id, {}).get('extra') if not isinstance(v.id, tuple) else None
                    elif isinstance(l, tuple) and l[0] == 'at':
                        self.touch_elem(s, l[1], n)
                        e = self.extra_of(s, l[1].obj, l[1].idx)
                    out.append((self.newrec(s, t, e), s))
                return out
            init = next((i for i in f.get('inits') or () if i.get('f') == 'extra'), None)
            outs = [st]
            if args:
                nxt = []
                for s in outs:
                    cur = [s]
                    for p, a in zip(f.get('params') or (), args):
                        c2 = []
                        for s1 in cur:
                            for v, s2 in self.ev(a, s1):
                                s2.env[p['v']] = v
                                c2.append(s2)
                        cur = c2
                    nxt += cur
                outs = nxt
            res = []
            for s in outs:
                if init is None or not init.get('e'):
                    res.append((self.newrec(s, t, lin(0) if init is None else None), s))
                    continue
                for v, s2 in self.ev(init['e'], s):
                    e = s2.heap[v.id]['size'] if isinstance(v, Obj) and not isinstance(v.id, tuple) else None
                    res.append((self.newrec(s2, t, e), s2))
            return res
        outs = [st]
        for a in args:
            outs = [s2 for s in outs for _, s2 in self.ev(a, s)]
        return [(None, s) for s in outs]

    # ---------------------------------------------------------- calls
    def objof(self, n, st):
        out = []
        if n.get('objarrow'):
            for v, s in self.ev(n['obj'], st):
                out.append((('at', v) if isinstance(v, Ptr) else Val(v), s))
            return out
        return self.lval(n['obj'], st)

    def vecof(self, loc, st, n):
        v = self.load(loc, st, None) if not (isinstance(loc, tuple)) else None
        return v if isinstance(v, Obj) else None

    def vsize(self, st, v):
        if isinstance(v.id, tuple):
            return self.extra_of(st, v.id[1], v.idx)
        return (st.heap.get(v.id) or {}).get('size')

    def velem(self, st, v, i, n, check):
        """location of element i"""
        size = self.vsize(st, v)
        if check:
            if isinstance(size, Lin) and isinstance(i, Lin):
                self.oblige(st, 'access', n, [i, size - i - 1], 'index below the size')
            else:
                self.oblige(st, 'access', n, [None], 'index below the size')
        if not isinstance(i, Lin):
            return Val(None)
        if isinstance(v.id, tuple):
            return ('at', Ptr(v.id, v.idx, i.scale(8)))
        o = st.heap.get(v.id) or {}
        if o.get('rec') is not None:
            return ('at', Ptr(v.id, i, lin(0)))
        if o.get('esz') is None:
            return Val(None)
        return ('at', Ptr(v.id, None, i.scale(o['esz'])))

    def call(self, n, st, lv):
        f = self.P.fns[n['fn']] if isinstance(n.get('fn'), int) else None
        q = f['q'] if f else ''
        name = f['n'] if f else ''
        args = n.get('args') or []

        def ret(v, s):
            """a value, as an lvalue if that is what is asked for"""
            return (v if isinstance(v, (Var, Val)) or isinstance(v, tuple) else Val(v), s) if lv else (v, s)

        def retloc(l, s):
            return (l, s) if lv else (self.load(l, s, n), s)

        if q in ('std::max', 'std::min') and len(args) == 2:
            out = []
            for a, s in self.ev(args[0], st):
                for b, s2 in self.ev(args[1], s):
                    for s3, c in self.compare('<', a, b, s2) if isinstance(a, Lin) and isinstance(b, Lin) else [(s2, None)]:
                        out.append(ret(None if c is None else (b if c else a) if q == 'std::max' else (a if c else b), s3))
            return out
        if q in ('std::move', 'std::forward', 'std::as_const') and len(args) == 1:
            return self.lval(args[0], st) if lv else self.ev(args[0], st)
        if q == 'std::addressof':
            return [ret(l[1] if isinstance(l, tuple) else None, s) for l, s in self.lval(args[0], st)]
        if q in ('std::copy', 'std::copy_n', 'memcpy', 'std::memcpy', 'memmove', 'std::memmove'):
            out = []
            for a, s in self.ev(args[0], st):
                for b, s2 in self.ev(args[1], s):
                    for c, s3 in self.ev(args[2], s2):
                        if q == 'std::copy':
                            src, dst = a, c
                            cnt = b.off - a.off if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.idx == b.idx else None
                        elif q == 'std::copy_n':
                            src, dst = a, c
                            es = self.esize(self.ty(args[0]['t'])) if self.ty(args[0]['t'])['k'] == 'ptr' else 1
                            cnt = b.scale(es) if isinstance(b, Lin) and es else None
                        else:
                            dst, src, cnt = a, b, c if isinstance(c, Lin) else None
                        if isinstance(cnt, Lin):
                            self.oblige(s3, 'access', n, [cnt], 'the copied range is not reversed')
                        self.touch(s3, src, cnt, n, 'source of a copy')
                        self.touch(s3, dst, cnt, n, 'destination of a copy')
                        self.copied(s3, src, dst, cnt, n)
                        out.append(ret(None, s3))
            return out
        if q in ('std::fill', 'std::fill_n', 'std::distance', 'std::size'):
            self.note(q)
        if q.endswith('istream::read') and q.startswith('std::'):
            out = []
            for p, s in self.ev(args[0], st):
                for c, s2 in self.ev(args[1], s):
                    self.read(n, p, c, s2)
                    for l, s3 in self.objof(n, s2):
                        out.append((l, s3) if lv else (None, s3))
            return out
        if n.get('obj') and f and f.get('rec') is not None and not f.get('mine'):
            out = []
            for l, s in self.objof(n, st):
                v = self.vecof(l, s, n)
                if v is not None and (isinstance(v.id, tuple) or (s.heap.get(v.id) or {}).get('kind') in ('vec', 'record')):
                    out += self.method(n, name, v, args, s, lv, ret, retloc)
                    continue
                if name in ('operator*', 'operator->', 'operator++', 'operator--', 'operator+=', 'operator+', 'operator-', 'operator[]'):
                    out += self.iterator(n, name, l, args, s, lv, ret, retloc)
                    continue
                ss = [s]
                for a in args:
                    ss = [s2 for s1 in ss for _, s2 in self.ev(a, s1)]
                for s2 in ss:
                    r = None
                    if self.strip(n['t'])['k'] == 'int':
                        r = self.havoc(s2, self.strip(n['t']))
                    out.append(ret(r, s2))
            return out
        if f and f.get('mine') and f.get('body') and self.depth < 6:
            return self.inline(f, n, args, st, lv, ret)
        if name in ('operator+', 'operator-') and len(args) == 2:
            out = []
            for a, s in self.ev(args[0], st):
                for b, s2 in self.ev(args[1], s):
                    v = None
                    if isinstance(a, Ptr) and isinstance(b, Lin):
                        v = self.add(s2, a, b, {'k': 'other'}, 1 if name[-1] == '+' else -1)
                    elif isinstance(a, Ptr) and isinstance(b, Ptr) and name[-1] == '-' and a.obj == b.obj and a.idx is not None and b.idx is not None:
                        v = a.idx - b.idx
                    out.append(ret(v, s2))
            return out
        # a call that is not modelled: evaluates its arguments, may change objects passed by reference
        ss = [st]
        changed = []
        for a in args:
            nxt = []
            for s in ss:
                if a.get('lv') == 1:
                    for l, s2 in self.lval(a, s):
                        if not self.strip(a['t']).get('c'):
                            changed.append(l)
                            self.note('call of %s' % q)
                            if isinstance(l, Var) and isinstance(s2.env.get(l.v), Lin):
                                s2.env[l.v] = None
                            v = self.load(l, s2, None)
                            if isinstance(v, Obj) and not isinstance(v.id, tuple) and v.id in s2.heap and s2.heap[v.id].get('kind') == 'vec':
                                s2.heap[v.id]['size'] = None
                        nxt.append(s2)
                else:
                    for v, s2 in self.ev(a, s):
                        if isinstance(v, Ptr):
                            self.note('call of %s' % q)
                        nxt.append(s2)
            ss = nxt
        out = []
        for s in ss:
            r = self.havoc(s, self.strip(n['t'])) if self.strip(n['t'])['k'] == 'int' else None
            if f and f.get('noreturn'):
                continue
            if self.is_vec(self.strip(n['t'])) and not n.get('lv'):
                r = self.newvec(s, self.strip(n['t']), self.havoc(s, {'k': 'int', 'bits': 64, 'sg': False}))
            out.append(ret(r, s))
        return out

    def method(self, n, name, v, args, st, lv, ret, retloc):
        if name in ('size', 'length'):
            return [ret(self.vsize(st, v), st)]
        if name == 'empty':
            z = self.vsize(st, v)
            if not isinstance(z, Lin):
                return [ret(None, st)]
            return [ret(lin(1 if c else 0), s) for s, c in self.compare('==', z, lin(0), st)]
        if name in ('data', 'begin', 'cbegin', 'end', 'cend'):
            i = self.vsize(st, v) if name.endswith('end') else lin(0)
            l = self.velem(st, v, i, n, False)
            return [ret(l[1] if isinstance(l, tuple) else None, st)]
        if name in ('operator[]', 'at'):
            out = []
            for i, s in self.ev(args[0], st):
                if name == 'at':
                    z = self.vsize(s, v)
                    if isinstance(i, Lin) and isinstance(z, Lin):
                        for s2, c in self.compare('<', i, z, s):
                            if c:
                                out.append(retloc(self.velem(s2, v, i, n, False), s2))
                            else:
                                self.outs.append(('throw', s2, None))
                        continue
                out.append(retloc(self.velem(s, v, i, n, name != 'at'), s))
            return out
        if name in ('front', 'back'):
            z = self.vsize(st, v)
            i = lin(0) if name == 'front' else z - 1 if isinstance(z, Lin) else None
            return [retloc(self.velem(st, v, i, n, True), st)]
        if name in ('resize', 'assign') and args and self.strip(args[0]['t'])['k'] == 'int':
            out = []
            for z, s in self.ev(args[0], st):
                w = None
                ss = [(None, s)]
                if len(args) > 1:
                    ss = self.ev(args[1], s)
                for w, s2 in ss:
                    if isinstance(v.id, tuple):
                        if v.id[1] in s2.heap:
                            s2.heap[v.id[1]]['over'] = (v.idx, z) if isinstance(z, Lin) else None
                            if not isinstance(z, Lin) or s2.heap[v.id[1]].get('extra') != z:
                                self.note('resize of extra fields')
                    elif v.id in s2.heap:
                        o = s2.heap[v.id]
                        o['size'] = z if isinstance(z, Lin) else None
                        if o.get('rec') is not None:
                            o['extra'] = s2.heap[w.id].get('extra') if isinstance(w, Obj) and not isinstance(w.id, tuple) else lin(0) if len(args) == 1 else None
                    out.append(ret(None, s2))
            return out
        if name in ('push_back', 'emplace_back'):
            ss = [(None, st)]
            for a in args:
                ss = [(w, s2) for _, s in ss for w, s2 in self.ev(a, s)]
            out = []
            for w, s in ss:
                if isinstance(v.id, tuple):
                    self.note('push_back on extra fields')
                elif v.id in s.heap and isinstance(s.heap[v.id].get('size'), Lin):
                    s.heap[v.id]['size'] = s.heap[v.id]['size'] + 1
                    if s.heap[v.id].get('rec') is not None:
                        e = s.heap[w.id].get('extra') if isinstance(w, Obj) and not isinstance(w.id, tuple) else None
                        if not isinstance(e, Lin) or s.heap[v.id].get('extra') != e:
                            s.heap[v.id]['extra'] = e if s.heap[v.id]['size'] == lin(1) else None
                out.append(ret(None, s))
            return out
        if name == 'pop_back' and not isinstance(v.id, tuple):
            z = self.vsize(st, v)
            self.oblige(st, 'access', n, [z - 1 if isinstance(z, Lin) else None], 'pop_back on a container that is not empty')
            if isinstance(z, Lin):
                st.heap[v.id]['size'] = z - 1
            return [ret(None, st)]
        if name == 'clear' and not isinstance(v.id, tuple):
            st.heap[v.id]['size'] = lin(0)
            return [ret(None, st)]
        ss = [st]
        for a in args:
            ss = [s2 for s in ss for _, s2 in self.ev(a, s)]
        if name not in ('reserve', 'shrink_to_fit', 'capacity', 'c_str'):
            self.note('method ' + name)
            for s in ss:
                if not isinstance(v.id, tuple):
                    s.heap[v.id]['size'] = None
        if name == 'operator=':
            for s in ss:
                pass
        return [ret(None, s) for s in ss]

    def iterator(self, n, name, l, args, st, lv, ret, retloc):
        p = self.load(l, st, None) if not isinstance(l, tuple) else None
        if not isinstance(p, Ptr):
            return [ret(None, st)]
        if name in ('operator*',):
            self.touch_elem(st, p, n) if p.idx is not None else None
            return [retloc(('at', p), st)]
        if name == 'operator->':
            return [ret(p, st)]
        if name in ('operator++', 'operator--'):
            q = self.add(st, p, lin(1), {'k': 'other'}, 1 if name.endswith('++') else -1)
            self.store(l, q, st, n)
            return [ret(p if args else q, st)]
        out = []
        for i, s in self.ev(args[0], st):
            if name == 'operator[]':
                q = self.add(s, p, i, {'k': 'other'}, 1)
                out.append(retloc(('at', q) if q else Val(None), s))
                continue
            q = self.add(s, p, i, {'k': 'other'}, -1 if '-' in name else 1)
            if isinstance(i, Ptr) and name == 'operator-':
                q = p.idx - i.idx if p.idx is not None and i.idx is not None and p.obj == i.obj else None
            if name == 'operator+=':
                self.store(l, q, s, n)
            out.append(ret(q, s))
        return out

    def inline(self, f, n, args, st, lv, ret):
        self.depth += 1
        try:
            ss = [st]
            for p, a in zip(f.get('params') or (), args):
                nxt = []
                pt = self.ty(p['t'])
                for s in ss:
                    if pt['k'] == 'ref' and (a.get('lv') or a['k'] == 'mat'):
                        for l, s2 in self.lval(a, s):
                            if isinstance(l, tuple):
                                self.alias.add(p['v'])
                            s2.env[p['v']] = l
                            nxt.append(s2)
                    else:
                        for v, s2 in self.ev(a, s):
                            s2.env[p['v']] = v
                            nxt.append(s2)
                ss = nxt
            out = []
            for s in ss:
                for kind, s2, v in self.exec(f['body'], s):
                    if kind == 'throw':
                        self.outs.append(('throw', s2, None))
                    elif kind in ('ret', 'next'):
                        out.append(ret(v, s2))
            return out
        finally:
            self.depth -= 1

    # hooks of the particular analysis
    def read(self, n, p, count, st):
        self.touch(st, p, count if isinstance(count, Lin) else None, n, 'destination of a read')

    def copied(self, st, src, dst, count, n):
        pass

    # ---------------------------------------------------------- statements
    def exec(self, n, st):
        """list of (kind, state, value)"""
        if n is None:
            return [('next', st, None)]
        self.nstates += 1
        if self.nstates > 400000:
            raise Stop('too many states')
        k = n['k']
        if k == 'block':
            cur, done = [st], []
            for x in n['s']:
                nxt = []
                for s in cur:
                    for kind, s2, v in self.exec(x, s):
                        (nxt.append(s2) if kind == 'next' else done.append((kind, s2, v)))
                cur = nxt
                if len(cur) > MAXSTATES:
                    raise Stop('too many paths')
            return done + [('next', s, None) for s in cur]
        if k == 'decl':
            cur = [st]
            for d in n['d']:
                nxt = []
                t = self.ty(d['t'])
                for s in cur:
                    if not d.get('init'):
                        s.env[d['v']] = None
                        if self.is_vec(t):
                            s.env[d['v']] = self.newvec(s, t, lin(0))
                        nxt.append(s)
                    elif t['k'] == 'ref':
                        for l, s2 in self.lval(d['init'], s):
                            if isinstance(l, tuple):
                                self.alias.add(d['v'])
                            s2.env[d['v']] = l
                            nxt.append(s2)
                    else:
                        for v, s2 in self.ev(d['init'], s):
                            s2.env[d['v']] = v
                            nxt.append(s2)
                cur = nxt
            return self.flush([('next', s, None) for s in cur])
        if k == 'expr':
            e = n['e']
            while e['k'] in ('temps', 'paren') or (e['k'] == 'cast' and e.get('ck') == 'ToVoid'):
                e = e['e']
            if e['k'] == 'throw':
                return [('throw', st, None)]
            if e['k'] in ('call', 'asgn', 'casgn', 'un') and e.get('lv') == 1:
                return self.flush([('next', s, None) for _, s in self.lval(e, st)])
            return self.flush([('next', s, None) for _, s in self.ev(e, st)])
        if k == 'ret':
            if not n.get('e'):
                return [('ret', st, None)]
            return self.flush([('ret', s, v) for v, s in self.ev(n['e'], st)])
        if k == 'if':
            pre = [('next', st, None)]
            if n.get('init'):
                pre = self.exec(n['init'], st)
            if n.get('cv'):
                self.note('condition variable')
            out = []
            for kind, s0, v in pre:
                if kind != 'next':
                    out.append((kind, s0, v))
                    continue
                for s, c in self.branches(n['c'], s0):
                    out += self.exec(n['then'] if c else n.get('else'), s)
            return self.flush(out)
        if k in ('for', 'while', 'do'):
            pre = [('next', st, None)]
            if n.get('init'):
                pre = self.exec(n['init'], st)
            out = []
            for kind, s, v in pre:
                out += self.loop(n, s) if kind == 'next' else [(kind, s, v)]
            return self.flush(out)
        if k == 'rfor':
            return self.flush(self.rangefor(n, st))
        if k == 'break':
            return [('break', st, None)]
        if k == 'continue':
            return [('cont', st, None)]
        if k in ('null', 'label', 'other'):
            return [('next', st, None)]
        if k == 'omp':
            return self.exec(n.get('s'), st) if n.get('s') else [('next', st, None)]
        raise Stop('statement ' + k)

    outs = None
    alias = None

    def flush(self, res):
        if self.outs:
            res = res + self.outs
            self.outs = []
        return res

    def rangefor(self, n, st):
        out = []
        for l, s in (self.lval(n['range'], st) if n['range'].get('lv') else [(Val(v), s1) for v, s1 in self.ev(n['range'], st)]):
            v = self.load(l, s, None) if not isinstance(l, tuple) else None
            d = n['var']['d'][0]
            h = ('rng', id(n))
            if not isinstance(v, Obj) or not isinstance(self.vsize(s, v), Lin):
                raise Stop('range of a loop is not known')
            s.env[h] = lin(0)

            def cond(s1, v=v):
                return self.compare('<', s1.env[h], self.vsize(s1, v), s1)

            def body(s1, v=v):
                e = self.velem(s1, v, s1.env[h], n, False)
                if self.ty(d['t'])['k'] == 'ref':
                    if isinstance(e, tuple):
                        self.alias.add(d['v'])
                    s1.env[d['v']] = e
                else:
                    s1.env[d['v']] = None
                return self.exec(n['body'], s1)

            def inc(s1):
                s1.env[h] = s1.env[h] + 1
                return [s1]
            out += self.summarise_loop(n, s, cond, body, inc, False)
        return out

    def loop(self, n, st):
        def cond(s):
            if n.get('c') is None:
                return [(s, True)]
            return self.branches(n['c'], s)

        def body(s):
            return self.exec(n['body'], s)

        def inc(s):
            if n['k'] != 'for' or not n.get('inc'):
                return [s]
            e = n['inc']
            return [s2 for _, s2 in (self.lval(e, s) if e.get('lv') == 1 and e['k'] in ('un', 'casgn', 'asgn', 'call') else self.ev(e, s))]
        return self.summarise_loop(n, st, cond, body, inc, n['k'] == 'do')

    def parts(self, st):
        d = {}
        for v, x in st.env.items():
            if isinstance(x, Lin):
                d[('v', v)] = x
            elif isinstance(x, Ptr):
                d[('po', v)] = x.off
                if x.idx is not None:
                    d[('pi', v)] = x.idx
        for i, o in st.heap.items():
            for c in ('size', 'extra', 'src', 'hi'):
                if isinstance(o.get(c), Lin):
                    d[('h', i, c)] = o[c]
        for g, x in st.ghost.items():
            if isinstance(x, Lin):
                d[('g', g)] = x
        return d

    def put_part(self, st, key, x):
        if key[0] == 'v':
            st.env[key[1]] = x
        elif key[0] == 'po':
            p = st.env[key[1]]
            st.env[key[1]] = Ptr(p.obj, p.idx, x)
        elif key[0] == 'pi':
            p = st.env[key[1]]
            st.env[key[1]] = Ptr(p.obj, x, p.off)
        elif key[0] == 'h':
            st.heap[key[1]][key[2]] = x
        else:
            st.ghost[key[1]] = x

    def shape(self, st, st0):
        """things that are not linear parts and differ from the start"""
        bad = []
        for v, x in st0.env.items():
            y = st.env.get(v)
            if isinstance(x, Lin):
                if not isinstance(y, Lin):
                    bad.append(('v', v))
            elif isinstance(x, Ptr):
                if not (isinstance(y, Ptr) and y.obj == x.obj and (y.idx is None) == (x.idx is None)):
                    bad.append(('v', v))
            elif isinstance(x, Obj):
                if not (isinstance(y, Obj) and y.id == x.id):
                    bad.append(('v', v))
        for i, o in st0.heap.items():
            for c in ('size', 'extra', 'src', 'hi'):
                a, b = o.get(c), st.heap[i].get(c)
                if (isinstance(a, Lin)) != (isinstance(b, Lin)):
                    bad.append(('h', i, c))
        for g, x in st0.ghost.items():
            if isinstance(x, Lin) != isinstance(st.ghost.get(g), Lin):
                bad.append(('g', g))
        return bad

    peel = 0

    def summarise_loop(self, n, st0, cond, body, inc, dowhile):
        """the first rounds one by one if asked for, then all others together"""
        out, cur = [], [st0]
        for i in range(self.peel):
            nxt = []
            for s in cur:
                for s1, c in ([(s, True)] if dowhile and i == 0 else cond(s)):
                    if not c:
                        out.append(('next', s1, None))
                        continue
                    for kind, s2, v in body(s1):
                        if kind in ('next', 'cont'):
                            nxt += inc(s2)
                        elif kind == 'break':
                            out.append(('next', s2, None))
                        else:
                            out.append((kind, s2, v))
                    self.outs_to(out)
            cur = nxt
        for s in cur:
            out += self.rest_of_loop(n, s, cond, body, inc, dowhile and not self.peel)
        return out

    def rest_of_loop(self, n, st0, cond, body, inc, dowhile):
        for o in st0.heap.values():
            o.pop('over', None)
        rec = self.record
        drop = set()          # parts given up
        mod = []
        eqs = []              # coefficient vectors over mod + t
        cands = None
        start = self.parts(st0)

        def head(final=False):
            s = st0.copy()
            for key in drop:
                if key[0] == 'v':
                    s.env[key[1]] = None
                elif key[0] == 'h':
                    s.heap[key[1]][key[2]] = None
                else:
                    s.ghost[key[1]] = None
            syms = {}
            t = sym(self.fresh('t'))
            s.ges.append(t)
            for key in mod:
                x = sym(self.fresh('x'))
                syms[key] = x
                self.put_part(s, key, x)
            det = set()
            for co in eqs:
                e = t.scale(co[-1])
                used = []
                for key, a in zip(mod, co):
                    if a:
                        used.append(key)
                        e = e + (syms[key] - start[key]).scale(a)
                s.eqs.append(e)
                if len(used) == 1 and co[-1]:
                    det.add(used[0])
            # what a chain of equations determines
            grow = True
            while grow:
                grow = False
                for co in eqs:
                    un = [k for k, a in zip(mod, co) if a and k not in det]
                    if len(un) == 1:
                        det.add(un[0])
                        grow = True
            for key in mod:
                if key not in det:
                    s.fuzzy |= set(syms[key].c)
            for c in cands or ():
                s.ges.append(c(syms))
            return s, t, syms

        def go():
            """one symbolic round: (t, syms, states that re-enter, states that leave)"""
            s, t, syms = head()
            again, leave = [], []
            entry = [(s, True)] if dowhile else cond(s)
            for s1, c in entry:
                if not c:
                    continue
                for kind, s2, v in body(s1):
                    if kind in ('next', 'cont'):
                        for s3 in inc(s2):
                            self.outs_to(leave)
                            for s4, c2 in cond(s3):
                                (again if c2 else leave).append(s4 if c2 else ('next', s4, None))
                    elif kind == 'break':
                        leave.append(('next', s2, None))
                    else:
                        leave.append((kind, s2, v))
            self.outs_to(leave)
            return t, syms, again, leave

        self.record = False
        try:
            stable = 0
            for rnd in range(24):
                t, syms, again, leave = go()
                grown = False
                for s in again:
                    for key in self.shape(s, st0):
                        if key not in drop:
                            drop.add(key)
                            for j, m in enumerate(list(mod)):
                                if m == key or (key[0] == 'v' and m[0] in ('po', 'pi') and m[1] == key[1]):
                                    pass
                            mod[:] = [m for m in mod if m != key and not (key[0] == 'v' and m[0] in ('po', 'pi') and m[1] == key[1])]
                            grown = True
                    now = self.parts(s)
                    for key, x in start.items():
                        if key in mod or key not in now or key in drop:
                            continue
                        if not (now[key] == x or s.enteq(now[key] - x)):
                            mod.append(key)
                            grown = True
                if grown:
                    eqs = []
                    cands = None
                    continue
                # equations that every way back to the head preserves
                rows = []
                for s in again:
                    now = self.parts(s)
                    per = {}
                    for j, key in enumerate(mod):
                        d = self.reduce(now[key] - syms[key], s)
                        for a, c in list(d.c.items()) + [(None, d.k)]:
                            per.setdefault(a, [0] * (len(mod) + 1))[j] = c
                    per.setdefault(None, [0] * (len(mod) + 1))[-1] = 1
                    rows += list(per.values())
                new = null_space(rows, len(mod) + 1) if again else []
                if not again:
                    new = []
                if sorted(map(tuple, new)) != sorted(map(tuple, eqs)):
                    eqs = new
                    continue
                # inequalities
                if cands is None:
                    cands = []
                    for key in mod:
                        cands.append(lambda sy, key=key: sy[key] - start[key])
                        cands.append(lambda sy, key=key: start[key] - sy[key])
                        if not st0.ent(-start[key]) and st0.ent(start[key]):
                            cands.append(lambda sy, key=key: sy[key])
                    continue
                keep = []
                for c in cands:
                    ok = True
                    for s in again:
                        now = self.parts(s)
                        if not s.ent(c({key: now[key] for key in mod})):
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                if len(keep) != len(cands):
                    cands = keep
                    continue
                stable = 1
                break
            if not stable:
                raise Stop('loop invariants did not settle')
        finally:
            self.record = rec
        # the final round, with obligations
        t, syms, again, leave = go()
        self.progress(n, st0, syms, again, cond, mod)
        if not dowhile:
            for s, c in cond(st0.copy()):
                if not c:
                    leave.append(('next', s, None))
        self.outs_to(leave)
        return leave

    def outs_to(self, leave):
        if self.outs:
            leave += self.outs
            self.outs = []

    def reduce(self, d, s):
        """a change as a constant if the path fixes it"""
        if not d.c:
            return d
        w = witness(s.eqs, s.ges, 60)
        if w is None:
            return d
        v = d.k + sum(c * w.get(a, 0) for a, c in d.c.items())
        return lin(v) if s.enteq(d - v) else d

    def progress(self, n, st0, syms, again, cond, mod):
        """a linear measure that falls in every round and is bounded by the loop condition"""
        if not self.record:
            return
        key = ('termination', self.where(n), 'the loop makes progress')
        if not again:
            self.put(key, 'ok', '', n, None)
            return
        atoms = self.measures(n, again)
        for m in atoms:
            good = True
            for s in again:
                old = m(syms, None)
                new = m(None, self.parts(s))
                if old is None or new is None or not s.ent(old - new - 1) or not s.ent(old):
                    good = False
                    break
            if good:
                self.put(key, 'ok', '', n, None)
                return
        for s in again:
            now = self.parts(s)
            if s.exact and all(k[0] == 'g' or s.enteq(now[k] - syms[k]) for k in mod):
                w = witness(s.eqs, s.ges)
                if w is not None:
                    self.put(key, 'bad', 'a round of the loop changes nothing', n, w)
                    return
        self.put(key, 'undecided', 'no measure was found that falls in every round', n, None)

    def measures(self, n, again):
        """candidate measures from the comparisons of the loop condition"""
        out = []
        start = None

        def make(key, sign, const):
            def m(syms, parts):
                x = (parts if syms is None else syms).get(key)
                if x is None:
                    return None
                return x.scale(sign) + const
            return m
        # any changed part that moves one way, against a bound that stays the same
        keys = set()
        for s in again:
            keys |= set(self.parts(s))
        fixed = []
        parts0 = self.parts(again[0])
        for k in keys:
            if k[0] != 'g':
                out.append(make(k, 1, lin(0)))
        for k in keys:
            if k[0] == 'g':
                continue
            for k2, x in parts0.items():
                if k2 != k and all(self.parts(s).get(k2) == x for s in again):
                    fixed.append((k, x))
        seen = set()
        for k, x in fixed:
            if (k, x) in seen:
                continue
            seen.add((k, x))
            out.append(make(k, -1, x))
        return out
