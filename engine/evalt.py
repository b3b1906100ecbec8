"""Random interpretation of terms.

A term is interpreted under a valuation that is derived from a seed: symbols,
stream contents and uninterpreted functions get values that are functions of
(seed, name, arguments).  Two terms with different values under one valuation
are different functions of the program's inputs.  The interpretation is used
for one purpose only: to keep an obligation whose two normal forms differ
syntactically, but not semantically, from being reported.

Values: int, float, bool, Seq (lazy sequence), Rec (lazy record), and tuples
for everything else.  BAD stands for 'not known to the analysis' and agrees
with every value; UB for an access outside of a sequence.
"""
import math
import random
import struct
from terms import *
import terms as T_


class Skip(Exception):
    pass


class _Mark:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BAD = _Mark('BAD')
UB = _Mark('UB')
CAP = 6000
SMALL = 300


class Seq:
    __slots__ = ('n', 'get', 'memo', 'text')

    def __init__(self, n, get, text=False):
        self.n = n
        self.get = get
        self.memo = {}
        self.text = text

    def at(self, i):
        if i is BAD or i is UB:
            return i
        if not isinstance(i, int):
            return BAD
        if i < 0 or i >= self.n:
            return 0 if i == self.n and self.text else UB
        r = self.memo.get(i)
        if r is None:
            r = self.get(i)
            self.memo[i] = r
        return r

    def all(self):
        if self.n > CAP:
            raise Skip('long sequence')
        return [self.at(i) for i in range(self.n)]


class Rec:
    __slots__ = ('rec', 'get', 'memo')

    def __init__(self, rec, get):
        self.rec = rec
        self.get = get
        self.memo = {}

    def at(self, f):
        r = self.memo.get(f)
        if r is None:
            r = self.get(f)
            self.memo[f] = r
        return r


def seqof(xs):
    xs = list(xs)
    return Seq(len(xs), lambda i: xs[i])


EMPTY = seqof([])


def strseq(s):
    r = seqof([ord(c) if isinstance(c, str) else c for c in s])
    r.text = True
    return r


def seqstr(s):
    return ''.join(chr(c & 255) for c in s.all())


def isq(v):
    return v is BAD or v is UB


def key(v):
    """hashable form of a value"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if v != v:
            return ('nan',)
        return ('f', '%.9g' % (v + 0.0))
    if isinstance(v, Seq):
        return ('s',) + tuple(key(x) for x in v.all())
    if isinstance(v, Rec):
        fs = RECORDS.get(v.rec, {}).get('fields')
        if fs is None:
            return ('r', v.rec)
        return ('r', v.rec) + tuple(key(v.at(f[0])) for f in fs)
    if isinstance(v, tuple):
        return tuple(key(x) for x in v)
    if isinstance(v, (frozenset,)):
        return ('set',) + tuple(sorted(map(repr, v)))
    return v


def has_mark(v, mark):
    if v is mark:
        return True
    if isinstance(v, tuple):
        return any(has_mark(x, mark) for x in v)
    return False


def trunc_to(ty, v):
    lo, hi = INTS[ty]
    if lo <= v <= hi:
        return v
    b = SIZES[ty] * 8
    v &= (1 << b) - 1
    if lo < 0 and v > hi:
        v -= 1 << b
    return v


class Valuation:
    def __init__(self, seed, hints=None, salt=None, forced=None):
        self.seed = seed
        self.forced = forced or {}
        self.trail = None
        self.salt = salt or {}
        self.keys = None
        self.rnd = random.Random(seed)
        self.hints = hints or {}
        self.memo = {}
        r = self.rnd
        self.consts = self.hints.get('ints') or [0, 1]
        self.fconsts = self.hints.get('floats') or []
        self.prefer = self.hints.get('prefer') or {}
        self.modes = {}
        self.narrow = frozenset()
        self.chars = self.hints.get('chars') or []
        self.samelen = r.random() < 0.75
        self.lens = {}
        self.small = r.random() < 0.6
        self.steps = 0
        self.okmode = r.random()
        self.overrides = {}
        self.prefer_p = r.choice((0.9, 0.75, 0.5))
        # constants that only one of the two sides mentions
        self.hot = self.hints.get('hot') or []
        self.hotlens = [v for v in self.hot if 0 <= v < 200000]
        self.hotfloats = self.hints.get('hotfloats') or []
        self.hot_p = r.choice((0.0, 0.3, 0.6)) if self.hot or self.hotfloats else 0.0
        # nearly constant sequences: one element differs from all others
        self.odd = None
        if r.random() < (0.25 if self.hot else 0.12):
            self.odd = r.choice([0, 1, 2, 3] + [v + d for v in self.hotlens for d in (-1, 0, 1, 2)] * 2)
        self.exact = r.random() < 0.4
        self.fav = r.choice(self.hotfloats) if self.hotfloats else 0.0

    # -------------------------------------------------------------- values
    def hash(self, *k):
        s = hash_str(self.seed, k)
        if self.keys is not None:
            self.keys.append(s)
        n = self.salt.get(s)
        return random.Random(s if n is None else '%s#%d' % (s, n))

    def gen(self, ty, k, term=None):
        if ty in INTS:
            return self.gen_int(ty, k, term)
        if ty == 'int':
            return self.gen_int('i64', k, term)
        if ty == 'bool':
            r = self.hash('b', k)
            return r.random() < 0.5
        if ty in ('f64', 'f32'):
            return self.gen_float(k, term)
        if ty == 'str':
            return self.gen_str(k, term)
        if is_vec(ty):
            e = elem_ty(ty)
            if ty.startswith('arr<'):
                n = int(ty[ty.rindex(',') + 1:-1])
            else:
                n = self.gen_len(ty, k)
            return Seq(n, lambda i: self.gen(e, (k, 'i', self.near(i))))
        if ty in RECORDS and RECORDS[ty].get('fields') is not None:
            fs = {f[0]: f[1] for f in RECORDS[ty]['fields']}
            return Rec(ty, lambda f: self.gen(fs[f], (k, 'f', f)) if f in fs else BAD)
        if ty.startswith('pair<'):
            return BAD
        if ty.startswith(('set<', 'map<')):
            e, _, w = ty[4:-1].partition('|')
            if e in INTS or e in ('f64', 'str', 'int'):
                m, seen = ('map0',), set()
                for j in range(self.hash('set', k).choice((0, 0, 1, 2, 3))):
                    x = self.gen(e, (k, 'key', j))
                    if key(x) not in seen:
                        seen.add(key(x))
                        m = ('put', m, x, True if ty[0] == 's' else self.gen(w, (k, 'val', j)))
                return m
        return ('opaque', ty, k)

    def near(self, i):
        return i if self.odd is None or i == self.odd else -1

    def liked(self, k, term):
        """values that the conditions of the program compare this input with"""
        p = self.prefer.get(term)
        if p:
            return p
        pp = self.hints.get('pat')
        if not pp:
            return None
        return pp.get(k) or pp.get(wild(k))

    def gen_len(self, ty, k):
        r = self.hash('len', k)
        if self.samelen and 'u64' in ty and 'vec<vec' not in ty:
            # vectors of extra fields tend to have the same size
            b = self.lens.get(ty)
            if b is None:
                b = self.lens[ty] = self.hash('len', ty).choice((0, 1, 2, 3))
            if r.random() < (1.0 if self.exact and self.odd is None else 0.93):
                return b
        if self.narrow and r.random() < 0.6:
            return SMALL + r.choice((1, 2, 5))
        if self.hotlens and r.random() < self.hot_p:
            v = r.choice(self.hotlens)
            return max(0, v + r.choice((0, 0, 1, -1, 2, 9, 40)))
        cs = self.hints.get('lens') or []
        if cs and r.random() < 0.25:
            return r.choice(cs)
        return r.choice((0, 1, 2, 3, 4))

    def gen_int(self, ty, k, term=None):
        lo, hi = INTS[ty]
        if self.trail is not None:
            self.trail.append((k, ty))
        v = self.forced.get(k)
        if isinstance(v, int) and lo <= v <= hi:
            return v
        r = self.hash('int', k)
        if self.hot and r.random() < self.hot_p / 2:
            v = r.choice(self.hot) + r.choice((0, 0, 1, -1, 2, 9))
            if lo <= v <= hi:
                return v
        if ty == 'cnt':
            cs = self.hints.get('lens') or []
            if cs and r.random() < 0.25:
                return r.choice(cs)
            return r.choice((0, 1, 2, 3, 4))
        p = self.liked(k, term)
        if p and r.random() < self.prefer_p:
            v = r.choice(p)
            if lo <= v <= hi:
                return v
        x = r.random()
        if x < 0.5:
            return r.choice((0, 0, 1, 1, 2, 3, 4))
        if x < 0.85:
            c = [v for v in self.consts if lo <= v <= hi]
            if c:
                return r.choice(c)
            return 0
        if self.small:
            return r.randrange(0, 10)
        if x < 0.93:
            return r.choice((lo, hi, hi - 1, hi // 2))
        return r.randrange(lo, hi + 1)

    def gen_float(self, k, term=None):
        if self.trail is not None:
            self.trail.append((k, 'f64'))
        v = self.forced.get(k)
        if isinstance(v, float):
            return v
        r = self.hash('flt', k)
        p = self.liked(k, term)
        if p and r.random() < self.prefer_p:
            return float(r.choice(p))
        if self.hotfloats and r.random() < self.hot_p:
            v = self.fav if r.random() < 0.6 else r.choice(self.hotfloats)
            return r.choice((v, v, v * 0.5, v * 2, -v, v + 1, v - 1))
        x = r.random()
        if x < 0.45:
            return r.choice((0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -2.5, 10.0))
        if x < 0.6 and self.fconsts:
            return r.choice(self.fconsts)
        if x < 0.95:
            return r.choice((r.uniform(-10, 10), r.uniform(-1000, 1000), r.uniform(0, 1)))
        return r.choice((1e10, -1e10, 4e9, 1e-5))

    def gen_str(self, k, term=None):
        r = self.hash('str', k)
        p = self.liked(k, term)
        if p and r.random() < self.prefer_p:
            return strseq(r.choice(p))
        ss = self.hints.get('strs') or []
        if ss and r.random() < 0.6:
            return strseq(r.choice(ss))
        ch = self.chars
        if ch and r.random() < 0.4:
            return strseq(chr(r.choice(ch)) + r.choice(('', '', '', '0', '1', '2')))
        n = None
        cs = self.hints.get('lens') or []
        if cs and r.random() < 0.3:
            n = r.choice(cs)
        else:
            n = r.choice((0, 1, 2, 3))
        ab = [ord(c) for c in 'ab19xe.,']
        return Seq(n, lambda i: self.hash('ch', k, i).choice(ab), True)

    def byte(self, nm, pos):
        """contents of an input"""
        return self.hash('byte', nm, pos).choice((0, 0, 0, 0, 1, 1, 2, 3, 65, 255))

    # ---------------------------------------------------------- evaluation
    def ev(self, t, env=None):
        if env is None:
            env = {}
        op = t.op
        if op == 'i':
            return t.a[0]
        if op == 'b':
            return t is TRUE
        memo = None
        if not env or not bvs(t):
            memo = self.memo
            r = memo.get(t)
            if r is not None:
                return r
        self.steps += 1
        if self.steps > 400000:
            raise Skip('steps')
        f = EV.get(op)
        if f is None:
            r = BAD
        else:
            r = f(self, t, env)
        if memo is not None:
            memo[t] = r
        return r

    def num(self, v):
        return v


def balance(V, a, rnd):
    """(path, value) of an input for which the two sides of a comparison are equal"""
    if a.op in ('feq', 'flt', 'fle'):
        sides = [(x, y) for x, y in (a.a, a.a[::-1]) if x.op in ('sym', 'fld', 'idx')]
        if not sides:
            return None
        x, y = rnd.choice(sides)
        v = V.ev(y)
        if not isinstance(v, float) or v != v:
            return None
        V.trail = []
        V.ev(x)
        v = rnd.choice((v, v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf)))
        return (V.trail[-1][0], v) if V.trail and V.trail[-1][1] == 'f64' else None
    if a.op in ('eq0', 'pos'):
        p = a.a[0]
        if p.op != 'poly':
            return None
        lin = [(m[0], c) for m, c in p.a[1] if len(m) == 1 and c in (1, -1) and m[0].op in ('sym', 'fld', 'idx')]
        v = V.ev(p)
        if not lin or not isinstance(v, int):
            return None
        x, c = rnd.choice(lin)
        w = V.ev(x)
        V.trail = []
        V.memo.clear()
        V.ev(x)
        if not V.trail or not isinstance(w, int):
            return None
        return V.trail[-1][0], w - v * c + (rnd.choice((0, 0, 1, -1)) if a.op == 'pos' else 0)
    return None


def repaired(seed, hints, care, tweak=None, rounds=40):
    """a valuation that is drawn again in part until it satisfies the condition"""
    rnd = random.Random('repair%s' % seed)
    salt, forced = {}, {}
    V = None
    for n in range(rounds):
        V = Valuation(seed, hints, salt, forced)
        if tweak:
            tweak(V)
        try:
            t, path = care, []
            while t.op == 'ite':
                v = V.ev(t.a[0])
                if v is not True and v is not False:
                    if v is UB:
                        path.append((t.a[0], TRUE))
                    break
                path.append((t.a[0], t.a[2] if v else t.a[1]))
                t = t.a[1] if v else t.a[2]
            else:
                if t.op != 'ite' and t is not FALSE:
                    if V.ev(t) is True:
                        return V
                    path.append((t, TRUE))
            # the last decision that could have gone the other way
            path = [a for a, o in path if o is not FALSE]
            if not path:
                return V
            a = path[-1] if rnd.random() < 0.8 else rnd.choice(path)
            W = Valuation(seed, hints, salt, forced)
            if tweak:
                tweak(W)
            if rnd.random() < 0.35:
                k = balance(W, a, rnd)
                if k and k not in forced.items():
                    forced[k[0]] = k[1]
                    continue
                W = Valuation(seed, hints, salt, forced)
                if tweak:
                    tweak(W)
            W.keys = []
            W.ev(a)
            if not W.keys:
                return V
        except (Skip, RecursionError, TypeError, ValueError, OverflowError, AttributeError, KeyError, IndexError):
            return V
        for x in set(W.keys) if rnd.random() < 0.3 else [rnd.choice(W.keys)]:
            salt[x] = salt.get(x, 0) + 1
    return V


def counters(a, b):
    """wraps of 16 bits around loop counters and sizes, in a but not in b"""
    def find(t):
        r, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'wrap' and x.a[0] in ('u16', 'i16') and countlike(x.a[1]):
                r.add(x)
            st.extend(T_._flat(x.a))
        return r

    def countlike(t):
        if t.op == 'i':
            return True
        if t.op == 'bv':
            return t.a[2] in ('nat', 'u64', 'u16', 'i16')
        if t.op == 'len':
            return True
        if t.op in ('poly', 'wrap'):
            return all(countlike(x) for x in T_._flat(t.a))
        return False
    r = find(a) if isinstance(a, T) else set()
    return frozenset(x for x in r - find(b) if x.a[1].op != 'i') if r else frozenset()


def partings(a, b, walks=40):
    """conditions under which the two terms are different terms"""
    rnd = random.Random(1)
    out = []

    def step(a, b, c):
        """what may be looked at next"""
        r = []
        if a.op == 'ite' and b.op == 'ite':
            p, q = a.a[0], b.a[0]
            if p is q:
                return [(a.a[1], b.a[1], AND(c, p)), (a.a[2], b.a[2], AND(c, NOT(p)))]
            if rnd.random() < 0.3:
                r += [(TRUE, FALSE, AND(c, AND(p, NOT(q)))), (TRUE, FALSE, AND(c, AND(q, NOT(p))))]
        if a.op == 'ite':
            r += [(a.a[1], b, AND(c, a.a[0])), (a.a[2], b, AND(c, NOT(a.a[0])))]
        if b.op == 'ite':
            r += [(a, b.a[1], AND(c, b.a[0])), (a, b.a[2], AND(c, NOT(b.a[0])))]
        if not r and a.op == b.op and a.op in T_.BINDERS and max(a.sz, b.sz) < 20000:
            r += rounds(a, b, c)
        if not r and a.op == b.op and len(a.a) == len(b.a):
            for x, y in zip(a.a, b.a):
                if isinstance(x, T) and isinstance(y, T):
                    r.append((x, y, c))
        return r

    def at(t, bodies, k, vals):
        """the bodies of a binder for the given values of its variables"""
        m = {v: vals[v.a[1]] for b in bodies for v in bvs(b) if v.a[0] == t.h and v.a[1] < len(vals)}
        return [T_.bsub(b, m) if m else b for b in bodies]

    def first(t, k):
        """(what a loop looks at in its round k, whether it gets there)"""
        if t.op == 'fold':
            j, n, inits, nexts = t.a
            acc, i = list(inits), 0
            while i < k:
                acc, i = at(t, nexts, 0, [I(i)] + acc), i + 1
            return at(t, nexts, 0, [I(k)] + acc), lt(I(k), n), [acc[j]]
        if t.op == 'mu':
            j, inits, cond, nexts = t.a
            acc, c = list(inits), TRUE
            for _ in range(k):
                c = AND(c, at(t, [cond], 0, acc)[0])
                acc = at(t, nexts, 0, acc)
            q = at(t, [cond], 0, acc)[0]
            return at(t, nexts, 0, acc), AND(c, q), [q]
        return [T_.inst(t, I(k))], lt(I(k), t.a[0]), []

    seen = {}

    def rounds(a, b, c):
        """the loops differ in their number of rounds or in what one round does"""
        k = 0 if rnd.random() < 0.6 else 1
        try:
            if (a, k) not in seen:
                seen[a, k] = first(a, k)
            if (b, k) not in seen:
                seen[b, k] = first(b, k)
        except (IndexError, TypeError, KeyError, ValueError):
            return []
        x, p, u = seen[a, k]
        y, q, w = seen[b, k]
        r = [(s, t, AND(c, AND(p, q))) for s, t in zip(x, y)]
        if p is not q:
            r.append((p, q, c))
        r += [(s, t, c) for s, t in zip(u, w)]
        return r

    for _ in range(walks):
        x, y, c = a, b, TRUE
        try:
            for _ in range(200):
                if rnd.random() < 0.03:
                    break
                n = [k for k in step(x, y, c) if k[0] is not k[1] and k[2] is not FALSE and not bvs(k[2])]
                if not n:
                    break
                x, y, c = rnd.choice(n)
            if is_bool(x) and is_bool(y) and x is not y and not bvs(x) and not bvs(y):
                x, y = (x, y) if rnd.random() < 0.5 else (y, x)
                d = AND(c, AND(x, NOT(y)))
                c = c if d is FALSE else d
        except RecursionError:
            continue
        if c is not TRUE and c not in out:
            out.append(c)
    return out


def wild(k):
    """pattern of a value path: element indexes do not matter"""
    if isinstance(k, tuple) and len(k) == 3 and k[1] in ('i', 'f') and isinstance(k[0], tuple):
        return (wild(k[0]), k[1], '*' if k[1] == 'i' else k[2])
    if isinstance(k, tuple) and k and k[0] in ('in', 'app'):
        return ('app', k[3] if k[0] == 'in' else k[1])
    return k


def patkey(t):
    """pattern of the term of a leaf"""
    if t.op == 'sym':
        return ('sym', t.a[0])
    if t.op == 'fld':
        b = patkey(t.a[0])
        return b and (b, 'f', t.a[1])
    if t.op == 'idx':
        b = patkey(t.a[0])
        return b and (b, 'i', t.a[1].a[0] if t.a[1].op == 'i' else '*')
    if t.op == 'app' and not t.a[0].startswith('in:'):
        return ('app', t.a[0])
    return None


def hash_str(*k):
    return repr(k)


EV = {}


def ev(*ops):
    def d(f):
        for o in ops:
            EV[o] = f
        return f
    return d


@ev('f')
def _(V, t, e):
    return fval(t)


@ev('undef', 'bad')
def _(V, t, e):
    return UB if t.op == 'bad' and t.a and t.a[0] in OUTSIDE else BAD


OUTSIDE = ('index out of range', 'index into an empty sequence', 'write out of range')


@ev('strc')
def _(V, t, e):
    return strseq(t.a[0])


@ev('lit')
def _(V, t, e):
    a = t.a
    return Seq(len(a), lambda i: V.ev(a[i], e), not a)


@ev('sym')
def _(V, t, e):
    if t.a[0] in V.overrides:
        return V.overrides[t.a[0]]
    return V.gen(t.a[1], ('sym', t.a[0]), t)


@ev('tmp')
def _(V, t, e):
    return BAD


@ev('bv')
def _(V, t, e):
    return e.get((t.a[0], t.a[1]), BAD)


@ev('null', 'map0', 'nofn', 'noany', 'none', 'enum', 'typeid', 'refl', 'fmt')
def _(V, t, e):
    return (t.op,) + tuple(t.a)


@ev('manip')
def _(V, t, e):
    return (t.op,) + tuple(V.ev(x, e) if isinstance(x, T_.T) else x for x in t.a)


@ev('some', 'exc', 'any', 'exit')
def _(V, t, e):
    return (t.op,) + tuple(V.ev(x, e) if isinstance(x, T_.T) else x for x in t.a)


@ev('ptr')
def _(V, t, e):
    return ('ptr', t.a[0], tuple((s[0], V.ev(s[1], e) if isinstance(s[1], T_.T) else s[1]) for s in t.a[1]))


@ev('poly')
def _(V, t, e):
    s = t.a[0]
    ub = False
    for mono, c in t.a[1]:
        p = c
        for x in mono:
            v = V.ev(x, e)
            if v is BAD:
                return BAD
            if v is UB:
                ub = True
                v = 0
            if isinstance(v, (tuple, Seq, Rec)):
                return BAD
            p *= int(v)
        s += p
    return UB if ub else s


def ints(V, ts, e):
    out = []
    for t in ts:
        v = V.ev(t, e)
        if isq(v):
            return v
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            return BAD
        out.append(v)
    return out


@ev('idiv', 'imod')
def _(V, t, e):
    r = ints(V, t.a, e)
    if isq(r):
        return r
    a, b = r
    if b == 0:
        return UB
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q if t.op == 'idiv' else a - q * b


@ev('wrap')
def _(V, t, e):
    v = V.ev(t.a[1], e)
    if isq(v):
        return v
    if isinstance(v, float):
        return BAD
    if not isinstance(v, int):
        return BAD
    if t in V.narrow:
        # a counter of 16 bits, in the small
        v %= SMALL
    return trunc_to(t.a[0], v)


@ev('iop')
def _(V, t, e):
    r = ints(V, t.a[1:], e)
    if isq(r):
        return r
    n = t.a[0]
    a, b = r
    if n == '&':
        return a & b
    if n == '|':
        return a | b
    if n == '^':
        return a ^ b
    if n == '<<':
        return a << b if 0 <= b < 64 else BAD
    if n == '>>':
        return a >> b if 0 <= b < 64 else BAD
    return BAD


@ev('eq0')
def _(V, t, e):
    v = V.ev(t.a[0], e)
    return v if isq(v) else (v == 0)


@ev('pos')
def _(V, t, e):
    v = V.ev(t.a[0], e)
    return v if isq(v) else (v >= 1)


@ev('feq', 'flt', 'fle')
def _(V, t, e):
    a, b = V.ev(t.a[0], e), V.ev(t.a[1], e)
    if isq(a):
        return a
    if isq(b):
        return b
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return BAD
    return a == b if t.op == 'feq' else (a < b if t.op == 'flt' else a <= b)


@ev('same', 'seq=')
def _(V, t, e):
    a, b = V.ev(t.a[0], e), V.ev(t.a[1], e)
    return same_value(a, b)


def same_value(a, b):
    """exact comparison: True, False, BAD"""
    if isq(a):
        return a
    if isq(b):
        return b
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.n != b.n:
            return False
        res = True
        idxs = range(a.n) if a.n <= 200 else list(range(60)) + list(range(a.n - 20, a.n))
        for i in idxs:
            r = same_value(a.at(i), b.at(i))
            if r is False:
                return False
            if isq(r):
                res = r
        return res
    if isinstance(a, Rec) and isinstance(b, Rec):
        fs = RECORDS.get(a.rec, {}).get('fields')
        if fs is None:
            return BAD
        res = True
        for f in fs:
            r = same_value(a.at(f[0]), b.at(f[0]))
            if r is False:
                return False
            if isq(r):
                res = r
        return res
    if isinstance(a, (Seq, Rec)) or isinstance(b, (Seq, Rec)):
        return BAD
    if isinstance(a, tuple) or isinstance(b, tuple):
        return key(a) == key(b)
    return a == b


@ev('ite')
def _(V, t, e):
    c = V.ev(t.a[0], e)
    if isq(c):
        return c
    return V.ev(t.a[1] if c else t.a[2], e)


@ev('i2f')
def _(V, t, e):
    v = V.ev(t.a[0], e)
    return v if isq(v) else float(v)


@ev('f2i')
def _(V, t, e):
    v = V.ev(t.a[1], e)
    if isq(v):
        return v
    if v != v or abs(v) > 9e18:
        return BAD
    r = int(v)
    lo, hi = INTS.get(t.a[0], (None, None))
    if lo is None or not lo <= r <= hi:
        return BAD
    return r


@ev('fop')
def _(V, t, e):
    vs = []
    for x in t.a[1:]:
        v = V.ev(x, e)
        if isq(v):
            return v
        if not isinstance(v, (int, float)):
            return BAD
        vs.append(float(v))
    try:
        r = evalf(t.a[0], vs)
    except (ValueError, OverflowError, ZeroDivisionError):
        return BAD
    if r is None:
        h = V.hash('fop', t.a[0], tuple(key(v) for v in vs))
        return h.uniform(-5, 5)
    return r


@ev('struct')
def _(V, t, e):
    fs = RECORDS.get(t.a[0], {}).get('fields') or []
    m = {f[0]: j for j, f in enumerate(fs)}
    return Rec(t.a[0], lambda f: V.ev(t.a[1 + m[f]], e) if f in m else BAD)


@ev('fld')
def _(V, t, e):
    b = V.ev(t.a[0], e)
    if isq(b):
        return b
    if isinstance(b, Rec):
        return b.at(t.a[1])
    return BAD


@ev('len')
def _(V, t, e):
    s = V.ev(t.a[0], e)
    if isq(s):
        return s
    return s.n if isinstance(s, Seq) else BAD


@ev('idx')
def _(V, t, e):
    s = V.ev(t.a[0], e)
    if isq(s):
        return s
    i = V.ev(t.a[1], e)
    if isq(i):
        return i
    if not isinstance(s, Seq):
        return BAD
    return s.at(i)


def count(V, n):
    if isq(n):
        return n
    if not isinstance(n, int):
        return BAD
    return max(n, 0)


@ev('rep')
def _(V, t, e):
    n = count(V, V.ev(t.a[0], e))
    if isq(n):
        return n
    return Seq(n, lambda i: V.ev(t.a[1], e))


@ev('comp')
def _(V, t, e):
    n = count(V, V.ev(t.a[0], e))
    if isq(n):
        return n
    h = t.h

    def get(i):
        e2 = dict(e)
        e2[(h, 0)] = i
        return V.ev(t.a[1], e2)
    return Seq(n, get)


@ev('flat')
def _(V, t, e):
    n = count(V, V.ev(t.a[0], e))
    if isq(n):
        return n
    if n > CAP:
        raise Skip('flat')
    parts = []
    for i in range(n):
        e2 = dict(e)
        e2[(t.h, 0)] = i
        p = V.ev(t.a[1], e2)
        if isq(p):
            return p
        if not isinstance(p, Seq):
            return BAD
        parts.append(p)
    return concat(parts)


def concat(parts):
    text = any(p.text for p in parts)
    parts = [p for p in parts if p.n]
    if len(parts) == 1:
        return parts[0]
    n = sum(p.n for p in parts)
    starts = []
    o = 0
    for p in parts:
        starts.append(o)
        o += p.n
    import bisect

    def get(i):
        j = bisect.bisect_right(starts, i) - 1
        return parts[j].at(i - starts[j])
    return Seq(n, get, text)


@ev('cat')
def _(V, t, e):
    parts = []
    for x in t.a:
        p = V.ev(x, e)
        if isq(p):
            return p
        if not isinstance(p, Seq):
            return BAD
        parts.append(p)
    return concat(parts)


@ev('slice')
def _(V, t, e):
    s = V.ev(t.a[0], e)
    r = ints(V, t.a[1:], e)
    if isq(s):
        return s
    if isq(r):
        return r
    if not isinstance(s, Seq):
        return BAD
    lo, hi = r
    if lo < 0 or hi > s.n or lo > hi:
        return UB
    return Seq(hi - lo, lambda i: s.at(i + lo), s.text)


@ev('upd')
def _(V, t, e):
    s = V.ev(t.a[0], e)
    i = V.ev(t.a[1], e)
    if isq(s):
        return s
    if isq(i):
        return i
    if not isinstance(s, Seq):
        return BAD
    if i < 0 or i >= s.n:
        return s if V.ev(t.a[2], e) is UB else UB
    return Seq(s.n, lambda j: V.ev(t.a[2], e) if i == j else s.at(j))


@ev('resize')
def _(V, t, e):
    s = V.ev(t.a[0], e)
    n = count(V, V.ev(t.a[1], e))
    if isq(s):
        return s
    if isq(n):
        return n
    if not isinstance(s, Seq):
        return BAD
    return Seq(n, lambda j: s.at(j) if j < s.n else V.ev(t.a[2], e))


def steps(V, t, e):
    n = count(V, V.ev(t.a[0], e))
    if isq(n):
        return n
    if n > CAP:
        raise Skip('long loop')
    return n


@ev('sum')
def _(V, t, e):
    n = steps(V, t, e)
    if isq(n):
        return n
    s = 0
    for i in range(n):
        e2 = dict(e)
        e2[(t.h, 0)] = i
        v = V.ev(t.a[1], e2)
        if isq(v):
            return v
        s += v
    return s


@ev('exists')
def _(V, t, e):
    n = steps(V, t, e)
    if isq(n):
        return n
    res = False
    for i in range(n):
        e2 = dict(e)
        e2[(t.h, 0)] = i
        v = V.ev(t.a[1], e2)
        if v is BAD:
            res = BAD
        elif v is UB:
            return UB
        elif v:
            return True
    return res


@ev('first')
def _(V, t, e):
    n = steps(V, t, e)
    if isq(n):
        return n
    for i in range(n):
        e2 = dict(e)
        e2[(t.h, 0)] = i
        v = V.ev(t.a[1], e2)
        if isq(v):
            return v
        if v:
            return i
    return n


@ev('fold')
def _(V, t, e):
    j, n, inits, nexts = t.a
    k = ('fold', t.a[1], inits, nexts)
    memo = not bvs(t)
    if memo and k in V.memo:
        return V.memo[k][j]
    n = count(V, V.ev(n, e))
    if isq(n):
        return n
    if n > CAP:
        raise Skip('long fold')
    acc = [V.ev(x, e) for x in inits]
    for i in range(n):
        e2 = dict(e)
        e2[(t.h, 0)] = i
        for q, a in enumerate(acc):
            e2[(t.h, q + 1)] = a
        acc = [freeze(V.ev(x, e2)) for x in nexts]
    if memo:
        V.memo[k] = acc
    return acc[j]


def freeze(v):
    """evaluate lazily represented values one level so that loops do not nest"""
    if isinstance(v, Seq) and v.n <= 64:
        r = seqof(v.all())
        r.text = v.text
        return r
    return v


@ev('mu')
def _(V, t, e):
    j, inits, cond, nexts = t.a
    k = ('mu', inits, cond, nexts)
    memo = not bvs(t)
    if memo and k in V.memo:
        return V.memo[k][j]
    acc = [V.ev(x, e) for x in inits]
    n = 0
    while True:
        e2 = dict(e)
        for q, a in enumerate(acc):
            e2[(t.h, q)] = a
        c = V.ev(cond, e2)
        if isq(c):
            acc = [c] * len(acc)
            break
        if not c:
            break
        n += 1
        if n > 100 and V.memo.get('streams'):
            # the few bytes of input are long used up: it never ends
            acc = [UB] * len(acc)
            break
        if n > 2 * SMALL + 100 and V.narrow:
            acc = [UB] * len(acc)
            break
        if n > 400 and not V.narrow:
            raise Skip('long loop')
        acc = [freeze(V.ev(x, e2)) for x in nexts]
    if memo:
        V.memo[k] = acc
    return acc[j]


@ev('lam', 'closure')
def _(V, t, e):
    return BAD


@ev('put')
def _(V, t, e):
    m, k, v = (V.ev(x, e) for x in t.a)
    return ('put', m, k, v)


# ---------------------------------------------------------------- functions
OPAQUE = {'cannot_open_r', 'cannot_open_w', 'hash', 'draw', 'default_seed', 'eof', 'exists', 'path', 'rng', 'rngval',
          'shuffle', 'ftoa', 'ftoa6', 'hypot3', 'what', 'callback', 'result', 'lex<', 'getenv', 'stem', 'extension',
          'typename', 'entries', 'capacity', 'deflated', 'inflated', 'bot', 'spec', 'stub'}


@ev('app')
def _(V, t, e):
    name, ty = t.a[0], t.a[1]
    if name in ('unknown', 'unspecified', 'hwrandom', 'now', 'random_device'):
        return BAD
    args = []
    for x in t.a[2:]:
        v = V.ev(x, e) if isinstance(x, T_.T) else x
        if isq(v):
            return v
        args.append(v)
    f = APP.get(name.split(':')[0])
    if f:
        return f(V, name, ty, args, t)
    return opaque(V, name, ty, args, t)


def opaque(V, name, ty, args, t):
    ks = tuple(key(a) for a in args)
    if has_mark(ks, BAD):
        return BAD
    if has_mark(ks, UB):
        return UB
    k = ('app', name, ks)
    v = V.memo.get(k)
    if v is None:
        v = V.memo[k] = V.gen(ty if ty not in ('item', 'any') else '?' + ty, k, t if not bvs(t) else None)
    return v


APP = {}


def apply_(*names):
    def d(f):
        for n in names:
            APP[n] = f
        return f
    return d


@apply_('isalnum', 'isalpha', 'isdigit', 'isspace', 'toupper', 'tolower', 'isupper', 'islower')
def _(V, name, ty, args, t):
    x = args[0]
    if not isinstance(x, int):
        return BAD
    ch = chr(x & 255) if 0 <= (x & 255) < 128 else '\0'
    if name in ('toupper', 'tolower'):
        return ord(ch.upper() if name == 'toupper' else ch.lower()) if ch.isalpha() else x
    return 1 if getattr(ch, name)() else 0


def turns(V, x):
    """(name, number left) of an abstract supply: a few items are left"""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'supply':
        return x
    return None


@apply_('selector')
def _(V, name, ty, args, t):
    k = ('selector',) + tuple(key(a) for a in args)
    if has_mark(k, BAD):
        return BAD
    return ('supply', k, random.Random(repr((V.seed, k))).randrange(5))


@apply_('selector.left')
def _(V, name, ty, args, t):
    x = turns(V, args[0])
    return x[2] if x else opaque(V, name, ty, args, t)


@apply_('selector.rest')
def _(V, name, ty, args, t):
    x = turns(V, args[0])
    if not x:
        return opaque(V, name, ty, args, t)
    return ('supply', x[1], x[2] - 1) if x[2] else UB


@apply_('selector.next')
def _(V, name, ty, args, t):
    x = turns(V, args[0])
    if not x:
        return opaque(V, name, ty, args, t)
    return random.Random(repr((V.seed,) + x)).choice((0, 0, 1, 1, 2, 3)) if x[2] else UB


def stream_key(nm):
    return key(nm)


@apply_('in')
def _(V, name, ty, args, t):
    nm, pos = args
    if not isinstance(pos, int):
        return BAD
    w = name.split(':')[1]
    nk = stream_key(nm)
    k = ('in', nk, pos, w)
    if k in V.memo:
        return V.memo[k]
    n = SIZES.get(w, 1)
    bs = V.memo.get(('bytes', nk))
    if bs is None:
        bs = V.memo[('bytes', nk)] = {}
    if not any(pos + i in bs for i in range(n)):
        # choose a whole value, then remember its bytes
        if w in INTS:
            v = V.gen_int(w, k, t)
            if t not in V.prefer and V.hash('inb', k).random() < 0.75 and n > 1:
                v = V.hash('inv', k).choice((0, 0, 1, 2, 3, 4))
            raw = (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
        elif w == 'f64':
            raw = struct.pack('<d', V.gen_float(k, t))
        elif w == 'f32':
            raw = struct.pack('<f', 1.5)
        elif w == 'bool':
            raw = bytes([1 if V.hash('bb', k).random() < 0.5 else 0])
        else:
            raw = bytes([0] * n)
        for i in range(n):
            bs[pos + i] = raw[i]
    for i in range(n):
        if pos + i not in bs:
            bs[pos + i] = V.byte(nk, pos + i)
    raw = bytes(bs[pos + i] for i in range(n))
    v = unpack(w, raw)
    V.memo[k] = v
    return v


def unpack(w, raw):
    if w in INTS:
        return int.from_bytes(raw, 'little', signed=INTS[w][0] < 0)
    if w == 'f64':
        return struct.unpack('<d', raw)[0]
    if w == 'f32':
        return struct.unpack('<f', raw)[0]
    if w == 'bool':
        return raw[0] != 0
    return BAD


@apply_('byte')
def _(V, name, ty, args, t):
    v, j = args
    w = name.split(':')[1]
    try:
        if w in INTS:
            raw = (int(v) & ((1 << 8 * SIZES[w]) - 1)).to_bytes(SIZES[w], 'little')
        elif w in ('f64', 'f32'):
            raw = struct.pack('<d' if w == 'f64' else '<f', v)
        else:
            return BAD
    except (TypeError, struct.error):
        return BAD
    return raw[j]


@apply_('asm')
def _(V, name, ty, args, t):
    w = name.split(':')[1]
    try:
        raw = bytes(int(a) & 255 for a in args)
    except TypeError:
        return BAD
    return unpack(w, raw)


def limit(V, what, nm):
    """length of an input, capacity of an output"""
    k = (what, stream_key(nm))
    r = V.memo.get(k)
    if r is None:
        h = V.hash(k)
        if h.random() < (0.75 if what == 'short' else 0.7):
            r = 1 << 62
        else:
            r = h.choice((0, 3, 4, 6, 7, 10, 17, 18, 19, 30, 40, 57, 58, 66, 80, 100, 110, 150, h.randrange(0, 300)))
        V.memo[k] = r
    return r


@apply_('short')
def _(V, name, ty, args, t):
    return args[1] > limit(V, 'short', args[0])


@apply_('wfail')
def _(V, name, ty, args, t):
    lim = limit(V, 'wfail', args[0])
    if lim == 1 << 62:
        return False
    return nbytes(args[1]) > lim


def nbytes(items):
    if items.n > CAP:
        return 1 << 40
    return sum(isize(x) for x in items.all())


def isize(x):
    if isinstance(x, tuple) and x and x[0] == 'B':
        return x[1]
    if isinstance(x, tuple) and x and x[0] == 'T':
        return len(x[1])
    return 1


@apply_('B1', 'B2', 'B4', 'B8', 'B1f', 'B2f', 'B4f', 'B8f')
def _(V, name, ty, args, t):
    n = int(name[1])
    v = args[0]
    return ('B', n, v)


@apply_('dec')
def _(V, name, ty, args, t):
    return strseq(str(int(args[0])))


@apply_('ftoa6')
def _(V, name, ty, args, t):
    return strseq('%f' % args[0])


@apply_('sort')
def _(V, name, ty, args, t):
    s = args[0]
    if len(args) > 1 or not isinstance(s, Seq):
        return opaque(V, name, ty, args, t)
    xs = s.all()
    if any(not isinstance(x, (int, float)) for x in xs):
        return BAD
    return seqof(sorted(xs))


@apply_('argmin', 'argmax')
def _(V, name, ty, args, t):
    if len(args) > 1:
        return BAD
    xs = args[0].all()
    if any(not isinstance(x, (int, float)) for x in xs):
        return BAD
    if not xs:
        return 0
    m = (min if name == 'argmin' else max)(xs)
    return xs.index(m)


def mapkey(k):
    return key(k)


@apply_('mapget', 'maphas')
def _(V, name, ty, args, t):
    m, k = args
    kk = mapkey(k)
    while isinstance(m, tuple) and m and m[0] == 'put':
        if mapkey(m[2]) == kk:
            return True if name == 'maphas' else m[3]
        m = m[1]
    if isinstance(m, tuple) and m and m[0] == 'map0':
        return False if name == 'maphas' else BAD
    if isinstance(m, tuple) and m and m[0] == 'setof':
        if name == 'maphas':
            return kk in m[1]
        return BAD
    return opaque(V, name, ty, [m, k], t)


@apply_('setof')
def _(V, name, ty, args, t):
    if not isinstance(args[0], Seq):
        return BAD
    m, seen = ('map0',), set()
    for x in args[0].all():
        if mapkey(x) not in seen:
            seen.add(mapkey(x))
            m = ('put', m, x, True)
    return m


@apply_('mapsize')
def _(V, name, ty, args, t):
    m = args[0]
    ks = set()
    while isinstance(m, tuple) and m and m[0] == 'put':
        ks.add(mapkey(m[2]))
        m = m[1]
    if isinstance(m, tuple) and m and m[0] == 'map0':
        return len(ks)
    if isinstance(m, tuple) and m and m[0] == 'setof':
        return len(ks | m[1])
    return BAD


# ------------------------------------------------------------------- hints
def constants(t):
    """the numbers that a term mentions"""
    ints, floats, seen, st = set(), set(), set(), [t]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'i':
            ints.add(t.a[0])
        elif t.op == 'f':
            floats.add(fval(t))
        elif t.op == 'fop' and t.a[0] == 'f32':
            floats.update((1e-60, 16777217.0, 0.1))
        elif t.op == 'wrap' and t.a[0] in SIZES:
            ints.add(1 << (8 * SIZES[t.a[0]] - (1 if t.a[0][0] == 'i' else 0)))
        elif t.op in ('eq0', 'pos'):
            c, d = to_poly(t.a[0])
            ints.add(abs(c))
        if len(seen) > 100000:
            break
        st.extend(T_._flat(t.a))
    return ints, floats


def hot(pairs):
    ints, floats = set(), set()
    for a, b in pairs:
        i, f = constants(a)
        j, g = constants(b)
        ints |= i ^ j
        floats |= f ^ g
    return (sorted(v for v in ints if 2 < v < 1 << 63)[:40], sorted(f for f in floats if f == f and abs(f) < 1e305)[:40])


def hints_for(terms):
    ints, floats, strs, lens, chars = set(), set(), set(), set(), set()
    prefer = {}
    seen = set()
    st = list(terms)
    n = 0
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        n += 1
        if n > 200000:
            break
        if t.op == 'i':
            ints.update((t.a[0], t.a[0] - 1, t.a[0] + 1))
        elif t.op == 'f':
            floats.add(fval(t))
        elif t.op == 'fop' and t.a[0] in ('f32', 'fround'):
            floats.update((1e-60, 16777217.0, 0.1, 1e300))
        elif t.op == 'wrap' and t.a[0] in SIZES:
            b = 8 * SIZES[t.a[0]] - (1 if t.a[0][0] == 'i' else 0)
            ints.update((1 << b, (1 << b) - 1, (1 << b) + 3))
            if b <= 17:
                lens.add((1 << b) + 3)
            c, d = to_poly(t.a[1])
            for m, k in d.items():
                if len(m) == 1 and abs(k) == 1:
                    prefer.setdefault(m[0], []).extend([1, (1 << b) - c * k, (1 << b) + 3])
        elif t.op == 'strc' and len(t.a[0]) < 40:
            strs.add(t.a[0])
        elif t.op in ('eq0', 'pos'):
            c, d = to_poly(t.a[0])
            for m, k in d.items():
                if len(m) == 1 and abs(k) == 1 and len(d) == 1:
                    v = -c * k
                    if m[0].op == 'idx' and 32 < v < 127:
                        chars.add(v)
                    vs = [v] if t.op == 'eq0' and v else [v, v + 1]
                    if m[0].op == 'len':
                        lens.update(x for x in vs + [v] if 0 <= x < 200000)
                    else:
                        prefer.setdefault(m[0], []).extend(vs)
                elif len(m) == 1 and m[0].op == 'len' and abs(c) > 4:
                    lens.update(x for x in (c, -c, c + 1, -c + 1) if 0 <= x < 200000)
        elif t.op in ('comp', 'flat', 'sum', 'exists', 'first', 'fold'):
            c, d = to_poly(next(x for x in t.a if isinstance(x, T)))
            for m, k in d.items():
                if len(m) == 1 and len(d) == 1 and k == 1 and m[0].op == 'app':
                    prefer.setdefault(m[0], []).extend([1 - c, 2 - c, 3 - c])
        elif t.op in ('seq=', 'same'):
            for x, y in (t.a, t.a[::-1]):
                if y.op == 'strc':
                    prefer.setdefault(x, []).append(y.a[0])
        elif t.op in ('feq', 'flt', 'fle'):
            for x, y in (t.a, t.a[::-1]):
                if y.op == 'f':
                    prefer.setdefault(x, []).append(fval(y))
        st.extend(T_._flat(t.a))
    ints = [v for v in ints if abs(v) < 1 << 63]
    pat = {}
    for t, vs in prefer.items():
        k = patkey(t)
        if k:
            pat.setdefault(k, []).extend(vs)
    return dict(ints=sorted(ints), floats=sorted(f for f in floats if f == f and abs(f) < 1e300), strs=sorted(strs), chars=sorted(chars), prefer=prefer, pat=pat,
                lens=sorted(lens))


# -------------------------------------------------------------- comparison
def differ(a, b, path=''):
    """None when the values agree (or are not known), else a description"""
    if a is BAD or b is BAD:
        return None
    if a is UB and b is UB:
        return None
    if a is UB:
        return (path, 'an access out of bounds or an endless loop', show_value(b))
    if b is UB:
        return None
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.n != b.n:
            x, y = as_bytes(a), as_bytes(b)
            if x is not None and y is not None and x == y:
                return None
            return (path, 'length %d' % a.n, 'length %d' % b.n)
        idxs = range(a.n) if a.n <= 300 else list(range(100)) + list(range(a.n - 40, a.n))
        for i in idxs:
            d = differ(a.at(i), b.at(i), path + '[%d]' % i)
            if d:
                x, y = as_bytes(a), as_bytes(b)
                if x is not None and y is not None and x == y:
                    return None
                return d
        return None
    if isinstance(a, Rec) and isinstance(b, Rec):
        fs = RECORDS.get(a.rec, {}).get('fields') or []
        for f in fs:
            d = differ(a.at(f[0]), b.at(f[0]), path + '.' + f[0])
            if d:
                return d
        return None
    if isinstance(a, (Seq, Rec)) or isinstance(b, (Seq, Rec)):
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and (a[0] == 'put' or b[0] == 'put'):
            x, y = mapdict(a), mapdict(b)
            if x is None or y is None:
                return None
            if set(x) != set(y):
                return (path, 'keys %r' % sorted(map(str, x))[:6], 'keys %r' % sorted(map(str, y))[:6])
            for k in x:
                d = differ(x[k], y[k], path + '{%s}' % (k,))
                if d:
                    return d
            return None
        if len(a) == len(b) and a[:1] == b[:1]:
            for x, y in zip(a, b):
                d = differ(x, y, path)
                if d:
                    return d
            return None
        if a[:1] == ('opaque',) or b[:1] == ('opaque',):
            return None
        return (path, show_value(a), show_value(b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and (isinstance(a, float) or isinstance(b, float)):
        if a == b or (a != a and b != b):
            return None
        if math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)):
            return None
        return (path, repr(a), repr(b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None
    if a == b:
        return None
    return (path, repr(a), repr(b))


def mapdict(m):
    d = {}
    while isinstance(m, tuple) and m and m[0] == 'put':
        d.setdefault(mapkey(m[2]), m[3])
        m = m[1]
    if isinstance(m, tuple) and m and m[0] == 'map0':
        return d
    return None


def as_bytes(s):
    """concatenated bytes of output items"""
    if s.n > CAP:
        return None
    out = bytearray()
    for x in s.all():
        if isinstance(x, tuple) and x and x[0] == 'B':
            n, v = x[1], x[2]
            if isinstance(v, float):
                out += struct.pack('<d' if n == 8 else '<f', v)
            elif isinstance(v, int):
                out += (int(v) & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
            else:
                return None
        else:
            return None
    return bytes(out)


def show_value(v, n=6):
    if isinstance(v, Seq):
        try:
            return '[' + ', '.join(show_value(v.at(i), n - 1) for i in range(min(v.n, 6))) + (', ... (%d)' % v.n if v.n > 6 else '') + ']'
        except Skip:
            return '[...]'
    if isinstance(v, Rec):
        fs = RECORDS.get(v.rec, {}).get('fields') or []
        return '{' + ', '.join('%s=%s' % (f[0], show_value(v.at(f[0]), n - 1)) for f in fs) + '}' if n > 0 else '{...}'
    return repr(v)


# ------------------------------------------------------------------- zlib
# A small codec with the interface rules of zlib: calls use input while there is room, report Z_STREAM_END once, Z_BUF_ERROR without
# progress, and errors where the data ask for them.
def _zbytes(b):
    if not isinstance(b, Seq):
        return None
    r = b.all()
    return None if any(not isinstance(x, int) for x in r) else [x & 255 for x in r]


def _zstep(V, args):
    kind, state, b, room, flush = args
    b = _zbytes(b)
    if b is None or not isinstance(room, int) or not isinstance(state, tuple) or state[:1] != ('z',) or not isinstance(flush, int):
        return None
    k = ('zstep', key(kind), state, tuple(b), room, flush)
    if k in V.memo:
        return V.memo[k]
    _, knd, used, queue, ended, calls = state
    queue = list(queue)
    out, n, ret = [], 0, 0
    mode = V.memo.get('zmode')
    if mode is None:
        mode = V.memo['zmode'] = V.hash('zmode').choice((0, 0, 1, 2, 3))
    if room > 1 << 16:
        raise Skip('large buffer')
    if knd == 'deflate':
        if mode == 3 and used + len(b) > V.hash('zfail').randrange(0, 6):
            ret = -2
        else:
            hold = mode == 1
            while True:
                while queue and len(out) < room and not (hold and flush != 4):
                    out.append(queue.pop(0))
                if n < len(b) and (hold or len(out) < room):
                    if used == 0 and n == 0:
                        queue.append(0x78)
                    queue.append(b[n] ^ 0x55)
                    if mode == 2:
                        queue.extend((b[n], b[n]))
                    n += 1
                    continue
                break
            if flush == 4 and n == len(b) and not ended and len(out) < room:
                queue.append(0xEE)
                ended = 1
                while queue and len(out) < room:
                    out.append(queue.pop(0))
            if ended and not queue:
                ret = 1
            elif n == 0 and not out:
                ret = -5
    else:
        if ended:
            ret = 1
        while not ended and ret == 0:
            while queue and len(out) < room:
                out.append(queue.pop(0))
            if queue or n == len(b):
                break
            if len(out) >= room:
                break
            x = b[n]
            n += 1
            if x % 3 == 0:
                ended = 1
                ret = 1
            elif x % 16 == 1 and mode:
                ret = (-3, 2, -4, -2)[x // 16 % 4]
            elif x % 16 == 5:
                queue.extend([x] * (x // 16 + 3))
            else:
                queue.append(x)
        if ret == 0 and n == 0 and not out:
            ret = -5
    new = ('z', knd, used + n, tuple(queue), ended, 0)
    r = V.memo[k] = (new, n, out, ret)
    return r


def _zname(x):
    return ''.join(map(chr, x.all())) if isinstance(x, Seq) else str(x)


@apply_('z.ready')
def _(V, name, ty, args, t):
    return ('z', 'deflate' if 'd' == _zname(args[0])[:1] else 'inflate', 0, (), 0, 0)


@apply_('z.init')
def _(V, name, ty, args, t):
    h = V.hash(('zinit', key(args[0]), tuple(key(x) for x in args[1:])))
    return h.choice((-4, -6)) if h.random() < 0.1 else 0


@apply_('z.state', 'z.used', 'z.out', 'z.ret')
def _(V, name, ty, args, t):
    r = _zstep(V, args)
    if r is None:
        return BAD
    v = r[('z.state', 'z.used', 'z.out', 'z.ret').index(name)]
    return Seq(len(v), lambda i: v[i]) if name == 'z.out' else v


@apply_('gcount', 'eof')
def _(V, name, ty, args, t):
    if not V.memo.get('streams'):
        return BAD if name == 'gcount' else opaque(V, name, ty, args, t)
    lim, p = limit(V, 'short', args[0]), args[1]
    if not isinstance(p, int):
        return BAD
    if name == 'eof':
        # else reading failed
        return p > lim and V.hash('readerror').random() < 0.85
    c, _ = T_.to_poly(t.a[3])
    return max(0, min(c, lim - (p - c))) if c > 0 else BAD
