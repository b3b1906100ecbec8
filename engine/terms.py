"""Hash-consed value terms with a normal form.

Every value that the abstract interpreter computes is a term.  Two terms that
are the same object are equal for every input; the constructors below
normalise (polynomials over integers, ordered decision trees over boolean
atoms, closed forms of sequences), so that most ways of writing the same
computation end up as the same object.
"""
import struct as _struct
import math

MASK = {8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: 0xffffffffffffffff}


class T:
    __slots__ = ('op', 'a', 'id', 'fv', 'h', 'sz', '_ty', '_rng')

    def __repr__(self):
        return show(self)


_table = {}
_sub_memo = {}
STATS = {'terms': 0}


class Budget(Exception):
    pass


LIMIT = [3000000]


def mk(op, *a):
    k = (op,) + a
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.id = len(_table)
    if t.id > LIMIT[0]:
        raise Budget('term budget')
    h = 0
    fv = None
    sz = 1
    for x in _flat(a):
        if x.h > h:
            h = x.h
        sz += x.sz
        if x.fv:
            fv = x.fv if not fv else (fv if fv is x.fv else fv | x.fv)
    if op in BINDERS:
        h += 1
    if op in ('tmp', 'sym'):
        fv = frozenset((t,)) if op == 'tmp' else None
    t.h = h
    t.fv = fv or frozenset()
    t.sz = min(sz, 1 << 60)
    t._ty = None
    t._rng = None
    _table[k] = t
    return t


def _flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


# binders: the bound variables of a binder of height h are ('bv', h, j, ty)
BINDERS = ('comp', 'flat', 'exists', 'first', 'fold', 'mu', 'sum', 'lam')

TRUE = mk('b', 1)
FALSE = mk('b', 0)
UNDEF = mk('undef')
SEQ0 = mk('lit')


def I(v):
    return mk('i', int(v))


ZERO = I(0)
ONE = I(1)


def F(v):
    return mk('f', _struct.unpack('<Q', _struct.pack('<d', v))[0])


def Fbits(bits):
    return mk('f', bits)


def fval(t):
    return _struct.unpack('<d', _struct.pack('<Q', t.a[0]))[0]


def B(v):
    return TRUE if v else FALSE


def S(s):
    return SEQ0 if s == '' else mk('strc', s)


def sym(name, ty):
    return mk('sym', name, ty)


_tmp = [0]


def tmp(ty, base='t'):
    _tmp[0] += 1
    return mk('tmp', _tmp[0], ty, base)


def bad(why):
    return mk('bad', why)


def app(name, ty, *args):
    return mk('app', name, ty, *args)


# ------------------------------------------------------------------- types
RECORDS = {}   # name -> dict(fields=[(name, ty, off)], size)
INTS = {'u8': (0, 255), 'i8': (-128, 127), 'u16': (0, 65535), 'i16': (-32768, 32767),
        'u32': (0, 2**32 - 1), 'i32': (-2**31, 2**31 - 1), 'u64': (0, 2**64 - 1), 'i64': (-2**63, 2**63 - 1),
        'nat': (0, 2**63 - 1), 'cnt': (0, 2**56)}
SCALARS = frozenset(INTS) | {'f64', 'f32', 'bool'}
SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}


def is_vec(ty):
    return isinstance(ty, str) and (ty.startswith('vec<') or ty == 'str' or ty.startswith('arr<'))


def elem_ty(ty):
    if ty == 'str':
        return 'i8'
    if ty.startswith('vec<'):
        return ty[4:-1]
    if ty.startswith('arr<'):
        return ty[4:ty.rindex(',')]
    return None


SEQOPS = ('lit', 'strc', 'rep', 'comp', 'flat', 'cat', 'upd', 'slice', 'resize', 'sort')


def tyof(t):
    if t._ty is None:
        t._ty = _tyof(t)
    return t._ty


def _tyof(t):
    op = t.op
    if op in ('sym', 'tmp'):
        return t.a[1]
    if op == 'bv':
        return t.a[2]
    if op in ('fld', 'idx'):
        return t.a[2]
    if op == 'struct':
        return t.a[0]
    if op in ('i', 'poly', 'len', 'idiv', 'imod', 'f2i', 'wrap', 'first', 'sum', 'iop'):
        return 'int'
    if op in ('b', 'eq0', 'pos', 'feq', 'flt', 'fle', 'seq=', 'exists', 'same'):
        return 'bool'
    if op in ('f', 'fop', 'i2f'):
        return 'f64'
    if op == 'strc':
        return 'str'
    if op == 'app':
        return t.a[1]
    if op == 'ite':
        y = tyof(t.a[1])
        return y if y not in ('undef', 'bad') else tyof(t.a[2])
    if op in ('upd', 'resize', 'slice'):
        return tyof(t.a[0])
    if op == 'sort':
        return tyof(t.a[0])
    if op in SEQOPS:
        return 'seq'
    if op == 'fold':
        return tyof(t.a[2][t.a[0]])
    if op == 'mu':
        return tyof(t.a[1][t.a[0]])
    if op in ('undef', 'bad'):
        return op
    if op in ('ptr',):
        return 'ptr'
    return op


def is_seq(t):
    y = tyof(t)
    return y == 'seq' or is_vec(y)


def is_bool(t):
    return tyof(t) == 'bool'


def is_int(t):
    y = tyof(t)
    return y == 'int' or y in INTS


def is_float(t):
    return tyof(t) in ('f64', 'f32')


# ---------------------------------------------------------------- integers
BIG = 2**70


def rng(t):
    if t._rng is None:
        t._rng = _rng(t)
    return t._rng


def _rng(t):
    op = t.op
    if op == 'i':
        return (t.a[0], t.a[0])
    if op == 'poly':
        lo = hi = t.a[0]
        for mono, c in t.a[1]:
            l, h = 1, 1
            for f in mono:
                a, b = rng(f)
                p = (l * a, l * b, h * a, h * b)
                l, h = max(-BIG * BIG, min(p)), min(BIG * BIG, max(p))
            if c >= 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return (lo, hi)
    if op == 'len' and t.a[0].op == 'app' and t.a[0].a[0] == 'deflated':
        return 1, (1 << 63) - 1
    if op == 'len' and t.a[0].op == 'app' and t.a[0].a[0] == 'z.out':
        # no more than the space given
        return 0, max(0, min(2**60, rng(t.a[0].a[5])[1]))
    if op == 'len':
        return (0, 2**60)
    if op in ('first', 'sum'):
        if op == 'first':
            return (0, max(0, rng(t.a[0])[1]))
        return (0, 2**60) if rng(t.a[1])[0] >= 0 else (-BIG, BIG)
    if op == 'wrap':
        return INTS[t.a[0]]
    if op == 'f2i':
        return INTS[t.a[0]]
    if op == 'ite':
        if is_int(t.a[1]) and is_int(t.a[2]):
            a, b = rng(t.a[1]), rng(t.a[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        return (-BIG, BIG)
    if op == 'imod':
        a, b = rng(t.a[0]), rng(t.a[1])
        if a[0] >= 0 and b[0] >= 0:
            return (0, max(0, min(a[1], b[1] - 1)))
        return (-BIG, BIG)
    if op == 'idiv':
        a, b = rng(t.a[0]), rng(t.a[1])
        if a[0] >= 0 and b[0] >= 0:
            return (a[0] // b[1] if b[1] > 0 else 0, a[1] // max(1, b[0]))
        return (-BIG, BIG)
    if op == 'fold':
        y = tyof(t)
        if y in INTS:
            return INTS[y]
    y = tyof(t)
    if y in INTS:
        return INTS[y]
    return (-BIG, BIG)


def to_poly(t):
    if t.op == 'i':
        return t.a[0], {}
    if t.op == 'poly':
        return t.a[0], dict(t.a[1])
    return 0, {(t,): 1}


def _mk_poly(c, d):
    items = [(m, k) for m, k in d.items() if k]
    if not items:
        return I(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda x: tuple(f.id for f in x[0]))
    return mk('poly', c, tuple(items))


def leaves(t):
    if t.op != 'ite':
        return 1
    n = _leaves.get(t)
    if n is None:
        n = leaves(t.a[1]) + leaves(t.a[2])
        _leaves[t] = n
    return n


_leaves = {}
LIFT_CAP = 400


def lift_dag(fn, t, memo):
    """fn below a large decision tree with much sharing; None if there is too little"""
    if t.op != 'ite':
        return fn(t)
    r = memo.get(t)
    if r is None:
        if len(memo) > LIFT_CAP:
            return None
        memo[t] = UNDEF
        x = lift_dag(fn, t.a[1], memo)
        y = lift_dag(fn, t.a[2], memo) if x is not None else None
        if y is None:
            return None
        r = memo[t] = ite(t.a[0], x, y)
    return r


def lift(fn, args):
    """apply fn below the decision trees of the arguments"""
    top = None
    prod = 1
    if len(args) == 1 and args[0].op == 'ite' and leaves(args[0]) > LIFT_CAP:
        r = lift_dag(fn, args[0], {})
        if r is not None:
            return r
    for x in args:
        if x.op == 'ite':
            prod *= leaves(x)
            c = x.a[0]
            if top is None or c.id < top.id:
                top = c
    if top is None or prod > LIFT_CAP:
        return fn(*args)
    hi = lift(fn, [assume(x, top, True) for x in args])
    lo = lift(fn, [assume(x, top, False) for x in args])
    return ite(top, hi, lo)


def _num(t):
    if is_bool(t):
        return ite(t, ONE, ZERO)
    return t


def add(a, b):
    return lift(_add, [_num(a), _num(b)])


def _add(a, b):
    if a.op in ('undef', 'bad'):
        return a
    if b.op in ('undef', 'bad'):
        return b
    c1, d1 = to_poly(a)
    c2, d2 = to_poly(b)
    d = dict(d1)
    for m, k in d2.items():
        d[m] = d.get(m, 0) + k
    return _mk_poly(c1 + c2, d)


def mul(a, b):
    return lift(_mul, [_num(a), _num(b)])


def _mul(a, b):
    if a.op in ('undef', 'bad'):
        return a
    if b.op in ('undef', 'bad'):
        return b
    c1, d1 = to_poly(a)
    c2, d2 = to_poly(b)
    d1[()] = c1
    d2[()] = c2
    d = {}
    for m1, k1 in d1.items():
        for m2, k2 in d2.items():
            if k1 and k2:
                m = tuple(sorted(m1 + m2, key=lambda f: f.id))
                d[m] = d.get(m, 0) + k1 * k2
    c = d.pop((), 0)
    return _mk_poly(c, d)


def neg(a):
    return mul(I(-1), a)


def sub(a, b):
    return add(a, neg(b))


def idiv(a, b):
    return lift(_idiv, [_num(a), _num(b)])


def _idiv(a, b):
    if a.op == 'i' and b.op == 'i' and b.a[0]:
        q = abs(a.a[0]) // abs(b.a[0])
        return I(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if a is b and rng(a)[0] >= 1:
        return ONE
    return mk('idiv', a, b)


def imod(a, b):
    return lift(_imod, [_num(a), _num(b)])


def _imod(a, b):
    if a.op == 'i' and b.op == 'i' and b.a[0]:
        return I(math.fmod(a.a[0], b.a[0]))
    if b is ONE:
        return ZERO
    return mk('imod', a, b)


def wrap(ty, a):
    """conversion of an integer to the integer type ty"""
    return lift(lambda x: _wrap(ty, x), [_num(a)])


def wrapval(ty, v):
    lo, hi = INTS[ty]
    if ty == 'nat':
        return v
    m = hi - lo + 1
    return (v - lo) % m + lo


def _wrap(ty, a):
    if a.op == 'i':
        return I(wrapval(ty, a.a[0]))
    if a.op in ('undef', 'bad'):
        return a
    lo, hi = INTS[ty]
    l, h = rng(a)
    if ty in ('u64', 'i64', 'nat'):
        # sums of sizes are taken not to reach 2^63
        h = min(h, hi) if h > hi else h
        if ty == 'i64' or ty == 'nat':
            l = max(l, lo)
            if ty == 'i64' and tyof(a) == 'u64':
                l, h = rng(a)
                h = min(h, hi)  # sizes
    if lo <= l and h <= hi:
        return a
    if a.op == 'wrap' and SIZES[a.a[0]] >= SIZES.get(ty, 8):
        return _wrap(ty, a.a[1])
    return mk('wrap', ty, a)


def iop(name, a, b):
    return lift(lambda x, y: _iop(name, x, y), [_num(a), _num(b)])


def _iop(name, a, b):
    if a.op == 'i' and b.op == 'i':
        x, y = a.a[0], b.a[0]
        if name == '&':
            return I(x & y)
        if name == '|':
            return I(x | y)
        if name == '^':
            return I(x ^ y)
        if name == '<<' and 0 <= y < 128:
            return I(x << y)
        if name == '>>' and 0 <= y < 128:
            return I(x >> y)
    if name == '<<' and b.op == 'i' and 0 <= b.a[0] < 64:
        return mul(a, I(1 << b.a[0]))
    if name in '&|^' and a.id > b.id:
        a, b = b, a
    return mk('iop', name, a, b)


# ---------------------------------------------------------------- booleans
def _lead_sign(d):
    m = min(d, key=lambda m: tuple(f.id for f in m))
    return 1 if d[m] > 0 else -1


def eq0(p):
    return lift(_eq0, [p])


def _eq0(p):
    if p.op in ('undef', 'bad'):
        return bad('eq')
    l, h = rng(p)
    if l == h == 0:
        return TRUE
    if l > 0 or h < 0:
        return FALSE
    c, d = to_poly(p)
    if not d:
        return B(c == 0)
    if _lead_sign(d) < 0:
        c, d = -c, {m: -k for m, k in d.items()}
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if g > 1:
        if c % g:
            return FALSE
        c, d = c // g, {m: k // g for m, k in d.items()}
    return mk('eq0', _mk_poly(c, d))


def pos(p):
    """p >= 1"""
    return lift(_pos, [p])


def _pos(p):
    if p.op in ('undef', 'bad'):
        return bad('lt')
    l, h = rng(p)
    if l >= 1:
        return TRUE
    if h <= 0:
        return FALSE
    c, d = to_poly(p)
    g = 0
    for k in d.values():
        g = math.gcd(g, k)
    if g > 1:
        # g*q + c >= 1  <=>  q >= ceil((1-c)/g)
        r = -((c - 1) // g)
        c, d = 1 - r, {m: k // g for m, k in d.items()}
    if _lead_sign(d) < 0:
        # not (-p + 1 >= 1)
        return NOT(mk('pos', _mk_poly(1 - c, {m: -k for m, k in d.items()})))
    # x >= 1 over the naturals is x != 0
    q = _mk_poly(c, d)
    ql, qh = rng(q)
    if ql == 0 and False:
        return NOT(_eq0(q))
    if ql == 0:
        return NOT(_eq0(q))
    if qh == 1:
        return _eq0(sub(q, ONE))
    return mk('pos', q)


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return NOT(lt(b, a))


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def ALL(xs):
    r = TRUE
    for x in xs:
        r = AND(r, x)
    return r


def ANY(xs):
    r = FALSE
    for x in xs:
        r = OR(r, x)
    return r


def feq(a, b):
    return lift(_feq, [a, b])


def _feq(a, b):
    if a.op == 'f' and b.op == 'f':
        return B(fval(a) == fval(b))
    if a.id > b.id:
        a, b = b, a
    # comparing integers that were converted exactly
    for x, y in ((a, b), (b, a)):
        if x.op == 'i2f' and y.op == 'i2f' and max(map(abs, rng(x.a[0]) + rng(y.a[0]))) < 2**53:
            return eq0(sub(x.a[0], y.a[0]))
        if x.op == 'i2f' and y.op == 'f' and fval(y) == math.floor(fval(y)) and abs(fval(y)) < 2**53:
            return eq0(sub(x.a[0], I(int(fval(y)))))
    return mk('feq', a, b)


def flt(a, b):
    return lift(_flt, [a, b])


def _flt(a, b):
    if a.op == 'f' and b.op == 'f':
        return B(fval(a) < fval(b))
    if a is b:
        return FALSE
    if a.op == 'i2f' and b.op == 'i2f' and max(map(abs, rng(a.a[0]) + rng(b.a[0]))) < 2**53:
        return lt(a.a[0], b.a[0])
    return mk('flt', a, b)


def fle(a, b):
    return lift(_fle, [a, b])


def _fle(a, b):
    if a.op == 'f' and b.op == 'f':
        return B(fval(a) <= fval(b))
    if a.op == 'i2f' and b.op == 'i2f' and max(map(abs, rng(a.a[0]) + rng(b.a[0]))) < 2**53:
        return le(a.a[0], b.a[0])
    return mk('fle', a, b)


def equal(a, b):
    if a.op == 'typeid' and b.op == 'typeid':
        return TRUE if a is b else FALSE
    """C++ == on values of the same kind"""
    if a.op in ('undef', 'bad') or b.op in ('undef', 'bad'):
        return bad('==')
    if is_float(a) or is_float(b):
        return feq(tof(a), tof(b))
    if is_seq(a) or is_seq(b):
        return seqeq(a, b)
    if is_bool(a) and is_bool(b):
        return ite(a, b, NOT(b))
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        return eq0(sub(a, b))
    if a is b:
        return TRUE
    if a.op == 'ite' or b.op == 'ite':
        if leaves(a) * leaves(b) <= LIFT_CAP:
            return lift(equal, [a, b])
    if a.id > b.id:
        a, b = b, a
    return mk('same', a, b)


def seqeq(a, b):
    return lift(_seqeq, [a, b])


def _seqeq(a, b):
    if a is b and elem_exact(a):
        return TRUE
    if a.op in ('strc', 'lit') and b.op in ('strc', 'lit'):
        if a.op == 'strc' and b.op == 'strc':
            return B(a is b)
        if a is SEQ0 or b is SEQ0:
            return B(a is b)
        la, lb = lits(a), lits(b)
        if len(la) != len(lb):
            return FALSE
        return ALL([equal(x, y) for x, y in zip(la, lb)])
    if a is SEQ0:
        return eq0(length(b))
    if b is SEQ0:
        return eq0(length(a))
    if a.id > b.id:
        a, b = b, a
    r = mk('seq=', a, b)
    if a.op == 'comp' and b.op == 'comp':
        return AND(eq0(sub(length(a), length(b))), r)
    return r


def elem_exact(a):
    y = tyof(a)
    return 'f64' not in y and 'f32' not in y and y != 'seq' or a.op in ('strc', 'lit')


def lits(a):
    if a.op == 'strc':
        return [I(ord(c)) for c in a.a[0]]
    return list(a.a)


_as_memo = {}


def assume(t, atom, val):
    """simplify the decision tree t under the assumption that atom is val"""
    if t.op != 'ite':
        if t is atom:
            return B(val)
        if is_bool(t) and t.op != 'b':
            r = implied(atom, val, t)
            if r is not None:
                return B(r)
        return t
    k = (t.id, atom.id, val)
    r = _as_memo.get(k)
    if r is None:
        c = t.a[0]
        if c is atom:
            v = val
        else:
            v = implied(atom, val, c)
        if v is True:
            r = assume(t.a[1], atom, val)
        elif v is False:
            r = assume(t.a[2], atom, val)
        else:
            r = _mk_ite(c, assume(t.a[1], atom, val), assume(t.a[2], atom, val))
        _as_memo[k] = r
    return r


def implied(a, v, b):
    """truth of atom b when atom a has value v, or None"""
    ao, bo = a.op, b.op
    if bo == 'exists' and ao in ('eq0', 'pos') and (ao == 'eq0') == v:
        # nothing exists among none
        N = b.a[0]
        if a.a[0] is N or N.op != 'i' and implied(a, v, pos(N)) is False:
            return False
        return None
    if ao == 'exists' and v and bo in ('eq0', 'pos') and a.a[0].op != 'i':
        p = pos(a.a[0])
        if p.op == 'pos':
            return True if p is b else implied(p, True, b)
        return None
    if ao in ('eq0', 'pos') and bo in ('eq0', 'pos'):
        c1, d1 = to_poly(a.a[0])
        c2, d2 = to_poly(b.a[0])
        if d1 == d2:
            s = 1
        elif len(d1) == len(d2) and all(d2.get(m) == -k for m, k in d1.items()):
            s = -1
        else:
            if len(d1) + len(d2) > 8 or (ao == 'eq0' and not v):
                return None
            if not any(m in d2 for m in d1):
                return None
            P, Q = a.a[0], b.a[0]
            # P >= L (or P <= U)
            if ao == 'eq0':
                L = U = 0
            elif v:
                L, U = 1, None
            else:
                L, U = None, 0
            lo, hi = rng(Q)
            for k, D in ((1, sub(Q, P)), (-1, add(Q, P))):
                l2, h2 = rng(D)
                # Q = D + k * P
                pl, ph = (L, U) if k == 1 else (None if U is None else -U, None if L is None else -L)
                if l2 is not None and pl is not None and (lo is None or l2 + pl > lo):
                    lo = l2 + pl
                if h2 is not None and ph is not None and (hi is None or h2 + ph < hi):
                    hi = h2 + ph
            if bo == 'pos':
                if lo is not None and lo >= 1:
                    return True
                if hi is not None and hi <= 0:
                    return False
            elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            return None
        # q = common part; a: q + c1 ; b: s*q + c2
        if ao == 'eq0':
            if v:
                x = s * (-c1) + c2
                return (x == 0) if bo == 'eq0' else (x >= 1)
            if bo == 'eq0':
                return False if s * (-c1) + c2 == 0 else None
            return None
        # q + c1 >= 1
        lo, hi = (1 - c1, None) if v else (None, -c1)
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        lo = None if lo is None else lo + c2
        hi = None if hi is None else hi + c2
        if bo == 'pos':
            if lo is not None and lo >= 1:
                return True
            if hi is not None and hi <= 0:
                return False
        else:
            if lo is not None and lo > 0:
                return False
            if hi is not None and hi < 0:
                return False
        return None
    if ao in ('feq', 'flt', 'fle') and bo in ('feq', 'flt', 'fle'):
        x, y = a.a
        p, q = b.a
        same = x is p and y is q
        flip = x is q and y is p
        if not (same or flip):
            if v and ao == 'feq' and bo == 'feq':
                # equal to one constant: not to another
                for s, c in ((x, y), (y, x)):
                    for s2, c2 in ((p, q), (q, p)):
                        if s is s2 and c.op == 'f' and c2.op == 'f' and fval(c) != fval(c2):
                            return False
            return None
        if v:
            if ao == 'feq':
                return bo != 'flt'
            if ao == 'flt':
                if bo == 'feq':
                    return False
                return same
            if ao == 'fle' and bo == 'flt' and flip:
                return False
            return None
        if ao == 'fle' and same and bo == 'flt':
            return False
        if ao == 'fle' and bo == 'feq':
            return False
        return None
    if ao == 'seq=' and bo == 'seq=' and v:
        for s, c in (a.a, a.a[::-1]):
            for s2, c2 in (b.a, b.a[::-1]):
                if s is s2 and c.op == 'strc' and c2.op == 'strc':
                    return c is c2
        return None
    if ao == 'seq=' and v and bo in ('eq0', 'pos'):
        for s, c in (a.a, a.a[::-1]):
            if c.op == 'strc':
                p = b.a[0]
                if p.op == 'len' and p.a[0] is s:
                    n = len(c.a[0])
                    return (n == 0) if bo == 'eq0' else n >= 1
    if bo == 'seq=' and ao == 'eq0' and v:
        for s, c in (b.a, b.a[::-1]):
            if c.op == 'strc' and a.a[0].op == 'len' and a.a[0].a[0] is s:
                return False
    if ao == 'seq=' and bo == 'seq=':
        return None
    if ao == 'same' and bo == 'same' and v:
        for s, c in (a.a, a.a[::-1]):
            for s2, c2 in (b.a, b.a[::-1]):
                if s is s2 and c.op in CONSTS and c2.op in CONSTS:
                    return c is c2
    if ao == 'exists' and bo == 'exists' and a.a[1] is b.a[1] and a.h == b.h:
        l, h = rng(sub(b.a[0], a.a[0]))
        if v and l >= 0:
            return True
        if not v and h <= 0:
            return False
    if ao == 'app' and bo == 'app' and a.a[0] == 'short' and b.a[0] == 'short' and a.a[2] is b.a[2]:
        # a stream that is too short for p bytes is too short for more
        l, h = rng(sub(b.a[3], a.a[3]))
        if v and l >= 0:
            return True
        if not v and h <= 0:
            return False
    return None


CONSTS = ('enum', 'i', 'strc', 'null')


_red_memo = {}


def _mk_ite(c, t, e):
    if t is e:
        return t
    if t is TRUE and e is FALSE:
        return c
    if c.op in ('app', 'pos', 'eq0', 'exists') and t.op != 'bad' and e.op != 'bad' and t.sz < 3000 and e.sz < 3000:
        # the test is implied by what follows
        k = (c, t, e)
        r = _red_memo.get(k)
        if r is None:
            _red_memo[k] = r = 0
            if e.op == 'ite' or is_bool(e):
                if assume(e, c, True) is t:
                    r = 1
            if not r and (t.op == 'ite' or is_bool(t)):
                if assume(t, c, False) is e:
                    r = 2
            _red_memo[k] = r
        if r == 1:
            return e
        if r == 2:
            return t
    if c.op == 'eq0' and t.op != 'bad' and e.op != 'bad' and (not is_bool(e) or (t.op == 'b' and e.sz < 400)):
        r = _collapse(c, t, e)
        if r is not None:
            return r
    return mk('ite', c, t, e)


_col_memo = {}


def _collapse(c, t, e):
    """(p == 0 ? t : e) is e when e at p == 0 is t"""
    if t.sz > 4000 or e.sz > 4000:
        return None
    k = (c, t, e)
    if k in _col_memo:
        return _col_memo[k]
    _col_memo[k] = None
    r = None
    c0, d = to_poly(c.a[0])
    best = None
    for m, co in d.items():
        if len(m) == 1 and co in (1, -1) and m[0].op != 'i':
            # solve for the leaf that was made last
            x = m[0]
            if any(x in mm for mm in d if mm != m):
                continue
            if best is None or x.sz > best[0].sz:
                best = (x, co)
    if best is not None:
        x, co = best
        if contains(e, lambda y: y is x) or contains(t, lambda y: y is x):
            rest = _mk_poly(c0, {m: k2 for m, k2 in d.items() if m != (x,)})
            v = rest if co == -1 else neg(rest)
            if not contains(v, lambda y: y is x):
                e0 = subst(e, {x: v})
                if e0 is t or e0 is subst(t, {x: v}):
                    r = e
    _col_memo[k] = r
    return r


_rs_memo = {}


def _restrict_upd(f, g):
    """an update with the old value is none at all, wherever it is"""
    s, i, v = f.a
    i, v = restrict(i, g), restrict(v, g)
    n = 0
    while i.op == 'ite' and n < 20:
        n += 1
        a = i.a[0]
        for val in (True, False):
            h = AND(g, a if val else NOT(a))
            if h is FALSE:
                i, v = assume(i, a, not val), assume(v, a, not val)
                break
            j = restrict(assume(i, a, val), h)
            if restrict(assume(v, a, val), h) is restrict(idx(s, j), h):
                i = assume(i, a, not val)
                v = ite(a, idx(s, i), v) if val else ite(a, v, idx(s, i))
                break
        else:
            break
    return upd(s, i, restrict(v, g) if n else v)


def restrict(f, g):
    """a simpler term that agrees with f wherever g is true"""
    if g is TRUE or g is FALSE or f.op in ('b', 'i', 'f', 'strc', 'undef', 'bad'):
        return f
    if g.op in ('bad', 'undef'):
        return f
    if g is f:
        return TRUE
    if f.op == 'struct':
        xs = [restrict(x, g) for x in f.a[1:]]
        return f if all(x is y for x, y in zip(xs, f.a[1:])) else mk_struct(f.a[0], xs)
    if f.op != 'ite' and not is_bool(f):
        if f.op == 'upd' and f.a[1].op == 'ite':
            return _restrict_upd(f, g)
        return f
    k = (f.id, g.id)
    r = _rs_memo.get(k)
    if r is not None:
        return r
    gt = g.a[0] if g.op == 'ite' else g
    top = gt
    ft = f.a[0] if f.op == 'ite' else f
    if ft.id < top.id:
        top = ft
    g1 = assume(g, top, True)
    g0 = assume(g, top, False)
    f1 = assume(f, top, True)
    f0 = assume(f, top, False)
    if g1 is FALSE:
        r = restrict(f0, g0)
    elif g0 is FALSE:
        r = restrict(f1, g1)
    elif f1 is f0:
        r = restrict(f1, OR(g1, g0))
    else:
        r = _mk_ite(top, restrict(f1, g1), restrict(f0, g0))
    _rs_memo[k] = r
    return r


_ite_memo = {}


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if c.op in ('undef', 'bad'):
        return c if c.op == 'bad' else bad('condition')
    k = (c.id, t.id, e.id)
    r = _ite_memo.get(k)
    if r is None:
        r = _ite(c, t, e)
        _ite_memo[k] = r
    return r


def is_rec(y):
    return y in RECORDS and RECORDS[y].get('fields') is not None


def _ite(c, t, e):
    # structures: per field
    yt, ye = tyof(t), tyof(e)
    if (t.op == 'struct' or e.op == 'struct') and (yt == ye) and is_rec(yt):
        return mk_struct(yt, [ite(c, fld(t, f[0]), fld(e, f[0])) for f in RECORDS[yt]['fields']])
    # a branch without a defined value can not matter
    if t.op == 'undef' and e.op not in ('undef',):
        return e
    if e.op == 'undef':
        return t
    if t.op == 'lit' and e.op == 'lit' and len(t.a) == len(e.a):
        return lit(*[ite(c, x, y) for x, y in zip(t.a, e.a)])
    if (is_seq(t) or is_seq(e)) and t.op != 'ite' and e.op != 'ite' or (t.op in SEQOPS and e.op in SEQOPS):
        r = _ite_seq(c, t, e)
        if r is not None:
            return r
    top = c.a[0] if c.op == 'ite' else c
    for x in (t, e):
        if x.op == 'ite':
            if x.a[0].id < top.id:
                top = x.a[0]
        elif is_bool(x) and x.op != 'b' and x.id < top.id and x.op != 'bad':
            top = x
    hi = ite(assume(c, top, True), assume(t, top, True), assume(e, top, True))
    lo = ite(assume(c, top, False), assume(t, top, False), assume(e, top, False))
    return _mk_ite(top, hi, lo)


def _parts(s):
    return list(s.a) if s.op == 'cat' else ([] if s is SEQ0 else [s])


def _ite_seq(c, t, e):
    if t.op == 'upd' and t.a[0] is e:
        return upd(e, t.a[1], ite(c, t.a[2], idx(e, t.a[1])))
    if e.op == 'upd' and e.a[0] is t:
        return upd(t, e.a[1], ite(c, idx(t, e.a[1]), e.a[2]))
    if t.op == 'upd' and e.op == 'upd' and t.a[0] is e.a[0] and t.a[1] is e.a[1]:
        return upd(t.a[0], t.a[1], ite(c, t.a[2], e.a[2]))
    if t.op == 'cat' or e.op == 'cat' or t is SEQ0 or e is SEQ0:
        p, q = _parts(t), _parts(e)
        i = 0
        while i < len(p) and i < len(q) and p[i] is q[i]:
            i += 1
        j = 0
        while j < len(p) - i and j < len(q) - i and p[-1 - j] is q[-1 - j]:
            j += 1
        if i or j:
            mid = ite(c, cat(*p[i:len(p) - j]), cat(*q[i:len(q) - j]))
            return cat(*p[:i], mid, *(p[len(p) - j:] if j else []))
    if t.op == 'comp' and e.op == 'comp' and t.a[0] is e.a[0] and not c.fv_bound():
        pass
    return None


T.fv_bound = lambda self: False


# ------------------------------------------------------------------ floats
COMM = ('+', '*')


def tof(t):
    if is_float(t):
        return t
    return i2f(t)


def i2f(a):
    return lift(_i2f, [_num(a)])


def _i2f(a):
    if a.op == 'i':
        return F(float(a.a[0]))
    if a.op in ('undef', 'bad'):
        return a
    return mk('i2f', a)


def f2i(ty, a):
    return lift(lambda x: _f2i(ty, x), [a])


def _f2i(ty, a):
    if a.op == 'f':
        v = fval(a)
        if math.isfinite(v) and INTS[ty][0] <= int(v) <= INTS[ty][1]:
            return I(int(v))
    if a.op == 'i2f' and max(map(abs, rng(a.a[0]))) < 2**53 and INTS[ty][0] <= rng(a.a[0])[0] and rng(a.a[0])[1] <= INTS[ty][1]:
        return a.a[0]
    if a.op in ('undef', 'bad'):
        return a
    return mk('f2i', ty, a)


def fop(name, *args):
    return lift(lambda *x: _fop(name, *x), [tof(x) for x in args])


def _fop(name, *args):
    for x in args:
        if x.op in ('undef', 'bad'):
            return x
    if all(x.op == 'f' for x in args):
        v = evalf(name, [fval(x) for x in args])
        if v is not None:
            return F(v)
    if name in COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    if name == 'neg' and args[0].op == 'fop' and args[0].a[0] == 'neg':
        return args[0].a[1]
    if name == '*' and F(1.0) in args:
        return args[0] if args[1] is F(1.0) else args[1]
    if name == '/' and args[1] is F(1.0):
        return args[0]
    if name == 'pow' and args[1] is F(2.0):
        return _fop('*', args[0], args[0])
    if name == '-' and args[1].op == 'fop' and args[1].a[0] == 'neg':
        return _fop('+', args[0], args[1].a[1])
    if name == '+' :
        for x, y in ((args[0], args[1]), (args[1], args[0])):
            if y.op == 'fop' and y.a[0] == 'neg':
                return _fop('-', x, y.a[1])
    return mk('fop', name, *args)


def evalf(name, v):
    try:
        if name == '+':
            return v[0] + v[1]
        if name == '-':
            return v[0] - v[1]
        if name == '*':
            return v[0] * v[1]
        if name == '/':
            if v[1] == 0:
                if v[0] == 0 or v[0] != v[0]:
                    return math.nan
                s = math.copysign(1, v[0]) * math.copysign(1, v[1])
                return s * math.inf
            return v[0] / v[1]
        if name == 'neg':
            return -v[0]
        if name == 'sqrt':
            return math.sqrt(v[0]) if v[0] >= 0 else math.nan
        if name == 'abs':
            return abs(v[0])
        if name in ('floor', 'ceil', 'trunc', 'round'):
            if not math.isfinite(v[0]):
                return v[0]
            if name == 'round':
                r = math.floor(abs(v[0]) + 0.5)
                return math.copysign(float(r), v[0])
            return math.copysign(float(getattr(math, name)(v[0])), v[0])
        if name in ('sin', 'cos', 'tan', 'exp', 'log', 'atan2', 'pow', 'fmod', 'hypot'):
            return getattr(math, name)(*v)
        if name == 'f32':
            return _struct.unpack('<f', _struct.pack('<f', v[0]))[0]
        if name == 'isnan':
            return float(v[0] != v[0])
    except (ValueError, OverflowError, ZeroDivisionError):
        return math.nan
    return None


# --------------------------------------------------------------- structures
def mk_struct(rec, vals):
    fs = RECORDS[rec]['fields']
    b = vals[0] if vals else None
    if b is not None and b.op == 'fld':
        base = b.a[0]
        if tyof(base) == rec and all(v is _fld_raw(base, f[0], f[1]) for v, f in zip(vals, fs)):
            return base
    return mk('struct', rec, *vals)


def _fld_raw(base, name, ty):
    return mk('fld', base, name, ty)


def field_index(rec, name):
    for i, f in enumerate(RECORDS[rec]['fields']):
        if f[0] == name:
            return i
    return None


def fld(t, name):
    if t.op == 'struct':
        i = field_index(t.a[0], name)
        if i is None:
            return bad('no field %s' % name)
        return t.a[1 + i]
    if t.op == 'ite':
        return ite(t.a[0], fld(t.a[1], name), fld(t.a[2], name))
    if t.op in ('undef', 'bad'):
        return t
    y = tyof(t)
    if y not in RECORDS:
        return bad('field %s of %s' % (name, y))
    i = field_index(y, name)
    if i is None:
        return bad('no field %s in %s' % (name, y))
    return _fld_raw(t, name, RECORDS[y]['fields'][i][1])


def set_fld(t, name, v):
    y = tyof(t)
    if t.op in ('bad',):
        return t
    if y not in RECORDS:
        return bad('set field %s of %s' % (name, y))
    return mk_struct(y, [v if f[0] == name else fld(t, f[0]) for f in RECORDS[y]['fields']])


# ---------------------------------------------------------------- sequences
def lit(*es):
    return mk('lit', *es)


def length(s):
    op = s.op
    if op == 'lit':
        return I(len(s.a))
    if op == 'strc':
        return I(len(s.a[0]))
    if op == 'ite':
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if op in ('rep', 'comp'):
        return s.a[0]
    if op == 'cat':
        r = ZERO
        for p in s.a:
            r = add(r, length(p))
        return r
    if op in ('upd', 'sort'):
        return length(s.a[0])
    if op == 'resize':
        return s.a[1]
    if op == 'slice':
        return sub(s.a[2], s.a[1])
    if op == 'flat':
        v, body = open_binder(s, ('nat',))
        return mk_sum(s.a[0], v[0], length(body))
    if op in ('undef', 'bad'):
        return s
    y = tyof(s)
    if y.startswith('arr<'):
        return I(int(y[y.rindex(',') + 1:-1]))
    if op == 'app' and s.a[0] in LENRULES:
        return LENRULES[s.a[0]](s)
    return mk('len', s)


LENRULES = {}


def rep(n, e):
    return lift(lambda m: _rep(m, e), [n])


def _rep(n, e):
    if n.op == 'i' and n.a[0] <= 0:
        return SEQ0
    if n.op == 'i' and n.a[0] <= 64:
        return lit(*([e] * n.a[0]))
    return mk('rep', n, e)


def cat(*ps):
    out = []
    for p in ps:
        if p.op == 'cat':
            qs = p.a
        else:
            qs = (p,)
        for q in qs:
            if q is SEQ0:
                continue
            if q.op == 'bad':
                return q
            if out and q.op == 'strc' and out[-1].op == 'strc':
                out[-1] = mk('strc', out[-1].a[0] + q.a[0])
            elif out and q.op == 'lit' and out[-1].op == 'lit':
                out[-1] = mk('lit', *(out[-1].a + q.a))
            else:
                out.append(q)
    if not out:
        return SEQ0
    if len(out) == 1:
        return out[0]
    # everything conditional in the same way stays where it is
    return mk('cat', *out)


def ety(s):
    """element type of a sequence term, or None"""
    y = tyof(s)
    if is_vec(y):
        return elem_ty(y)
    if s.op in ('lit',) and s.a:
        return tyof(s.a[0])
    if s.op == 'rep':
        return tyof(s.a[1])
    if s.op == 'comp':
        return tyof(s.a[1])
    if s.op in ('upd', 'slice', 'resize', 'sort'):
        r = ety(s.a[0])
        if r in (None, 'undef', 'bad') and s.op == 'upd':
            return tyof(s.a[2])
        return r
    if s.op == 'cat':
        for p in s.a:
            r = ety(p)
            if r and r != 'undef':
                return r
    if s.op == 'ite':
        return ety(s.a[1]) or ety(s.a[2])
    if s.op == 'flat':
        return ety(s.a[1])
    if s.op == 'strc':
        return 'i8'
    if s.op == 'fold':
        return ety(s.a[2][s.a[0]])
    if s.op == 'mu':
        return ety(s.a[1][s.a[0]])
    return None


_idx_memo = {}


def idx(s, i):
    if s.op not in ('ite', 'upd', 'cat'):
        return idx_(s, i)
    k = (s, i)
    r = _idx_memo.get(k)
    if r is None:
        r = _idx_memo[k] = idx_(s, i)
    return r


def idx_(s, i):
    if s.op == 'ite':
        return ite(s.a[0], idx(s.a[1], i), idx(s.a[2], i))
    if i.op == 'ite' and leaves(i) < 64:
        return ite(i.a[0], idx(s, i.a[1]), idx(s, i.a[2]))
    op = s.op
    if op in ('undef', 'bad'):
        return s
    if op == 'lit':
        if i.op == 'i':
            if 0 <= i.a[0] < len(s.a):
                return s.a[i.a[0]]
            return bad('index out of range')
        if not s.a:
            return bad('index into an empty sequence')
        if all(x is s.a[0] for x in s.a):
            return s.a[0]
    if op == 'strc' and i.op == 'i':
        if 0 <= i.a[0] < len(s.a[0]):
            return I(ord(s.a[0][i.a[0]]))
        if i.a[0] == len(s.a[0]):
            return ZERO
        return bad('index out of range')
    if op == 'rep':
        return s.a[1]
    if op == 'comp':
        return inst(s, i)
    if op == 'upd':
        return ite(equal(i, s.a[1]), s.a[2], idx(s.a[0], i))
    if op == 'resize':
        return ite(lt(i, length(s.a[0])), idx(s.a[0], i), s.a[2])
    if op == 'slice':
        return idx(s.a[0], add(s.a[1], i))
    if op == 'cat':
        n = length(s.a[0])
        c = lt(i, n)
        return ite(c, idx(s.a[0], i), idx(cat(*s.a[1:]), sub(i, n)))
    return mk('idx', s, i, ety(s) or 'any')


def upd(s, i, v):
    if s.op == 'ite' and leaves(s) < 40:
        return ite(s.a[0], upd(s.a[1], i, v), upd(s.a[2], i, v))
    if s.op == 'bad':
        return s
    if v is idx(s, i):
        return s
    if s.op == 'rep' and i.op == 'i' and s.a[0].op == 'i' and 0 <= i.a[0] < s.a[0].a[0] <= 64:
        s = lit(*([s.a[1]] * s.a[0].a[0]))
    if s.op == 'lit' and i.op == 'i':
        if 0 <= i.a[0] < len(s.a):
            a = list(s.a)
            a[i.a[0]] = v
            return lit(*a)
        return bad('write out of range')
    if s.op == 'strc' and i.op == 'i' and v.op == 'i':
        if 0 <= i.a[0] < len(s.a[0]):
            return S(s.a[0][:i.a[0]] + chr(v.a[0] & 255) + s.a[0][i.a[0] + 1:])
    if i.op == 'ite' and v.op == 'ite':
        # an update with the old value is none at all, wherever it is
        w, j, known = v, i, []
        while w.op == 'ite':
            for val in (True, False):
                if w.a[1 if val else 2] is idx(s, assume(j, w.a[0], val)):
                    known.append((w.a[0], val))
                    j = assume(j, w.a[0], not val)
                    w = w.a[2 if val else 1]
                    break
            else:
                break
        if j is not i:
            old = idx(s, j)
            for c, val in reversed(known):
                w = ite(c, old, w) if val else ite(c, w, old)
            return upd(s, j, w)
    if s.op == 'upd' and s.a[1] is i:
        return upd(s.a[0], i, v)
    if s.op == 'upd' and s.a[1].op == 'i' and i.op == 'i' and i.a[0] < s.a[1].a[0]:
        return mk('upd', upd(s.a[0], i, v), s.a[1], s.a[2])
    if s.op == 'cat' and i.op == 'i' and s.a[0].op in ('lit', 'strc'):
        n = length(s.a[0]).a[0]
        if i.a[0] < n:
            return cat(upd(s.a[0], i, v), *s.a[1:])
    return mk('upd', s, i, v)


def resize(s, n, fill):
    if s is SEQ0:
        return rep(n, fill)
    if n is ZERO:
        return SEQ0
    if n is length(s):
        return s
    if s.op == 'lit' and n.op == 'i':
        k = n.a[0]
        return lit(*(s.a[:k] + (fill,) * (k - len(s.a))))
    if s.op == 'rep' and s.a[1] is fill:
        return rep(n, fill)
    if s.op == 'resize' and s.a[2] is fill and s.a[1] is n:
        return s
    if n.op == 'ite' and leaves(n) < 40:
        return ite(n.a[0], resize(s, n.a[1], fill), resize(s, n.a[2], fill))
    if s.op == 'ite' and leaves(s) < 40:
        return ite(s.a[0], resize(s.a[1], n, fill), resize(s.a[2], n, fill))
    return mk('resize', s, n, fill)


def slc(s, lo, hi):
    if lo is hi:
        return SEQ0
    if lo is ZERO and hi is length(s):
        return s
    if s.op == 'strc' and lo.op == 'i' and hi.op == 'i':
        return S(s.a[0][lo.a[0]:hi.a[0]])
    if s.op == 'lit' and lo.op == 'i' and hi.op == 'i':
        return lit(*s.a[lo.a[0]:hi.a[0]])
    if s.op == 'slice':
        return slc(s.a[0], add(s.a[1], lo), add(s.a[1], hi))
    if s.op == 'cat':
        n = length(s.a[0])
        if lo is n or (lo.op == 'i' and n.op == 'i' and lo.a[0] >= n.a[0]):
            return slc(cat(*s.a[1:]), sub(lo, n), sub(hi, n))
    if s.op == 'comp':
        k = tmp('nat', 'k')
        return mk_comp(sub(hi, lo), k, inst(s, add(k, lo)))
    return mk('slice', s, lo, hi)


# ------------------------------------------------------------------ binders
def subst(t, m):
    """replace temporaries (and any other subterm listed in m)"""
    keys = frozenset(m)
    memo = {}
    allt = all(k.op == 'tmp' for k in m)

    def go(t):
        if t in m:
            return m[t]
        if allt and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def _map(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map(x, f) for x in a)
    return a


def open_binder(t, tys=None):
    """replace the bound variables by fresh temporaries -> (vars, body...)"""
    h = t.h
    if t.op in ('comp', 'flat', 'exists', 'first', 'sum'):
        v = tmp('nat', 'k')
        m = {mk('bv', h, 0, 'nat'): v}
        return (v,), bsub(t.a[1], m)
    raise ValueError(t.op)


def bsub(t, m):
    """replace bound variables of an opened binder"""
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None:
            if not t.a or t.op in ('sym', 'tmp', 'i', 'f', 'b', 'strc', 'bv'):
                r = t
            elif not has_bv(t, m):
                r = t
            else:
                r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


_hasbv = {}


def bvs(t):
    r = _hasbv.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t,))
        else:
            r = frozenset()
            for x in _flat(t.a):
                b = bvs(x)
                if b:
                    r = r | b if r else b
            if t.op in BINDERS and r:
                r = frozenset(x for x in r if x.a[0] != t.h)
        _hasbv[t] = r
    return r


def has_bv(t, m):
    b = bvs(t)
    return any(k in b for k in m)


def inst(t, i):
    """body of a one variable binder at i"""
    return bsub(t.a[1], {mk('bv', t.h, 0, 'nat'): i})


def close(vs, bodies, others=()):
    """abstract temporaries -> (bodies with bound variables); others are the other parts of the binder"""
    h0 = max((b.h for b in others), default=0)
    h = 1 + max([b.h for b in bodies] + [h0])
    while True:
        m = {v: mk('bv', h, j, tyof(v)) for j, v in enumerate(vs)}
        r = [subst(b, m) for b in bodies]
        h2 = 1 + max([b.h for b in r] + [h0])
        if h2 == h:
            return r
        h = h2


_atoms_memo = {}


def deep_atoms(t):
    """the conditions that occur anywhere in t"""
    r = _atoms_memo.get(t.id)
    if r is None:
        out = set()
        for x in _flat(t.a):
            out |= deep_atoms(x)
        if t.op in ('pos', 'eq0', 'exists'):
            out.add(t)
        r = _atoms_memo[t.id] = frozenset(out)
    return r


def under(t, facts):
    """t simplified everywhere inside under facts about free variables"""
    for a, val in facts:
        if a.op not in ('pos', 'eq0'):
            continue
        if not any(x is a or implied(a, val, x) is not None for x in deep_atoms(t)):
            continue
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is None:
                r = t
                if deep_atoms(t):
                    r = assume(t, a, val)
                    if deep_atoms(r):
                        r = rebuild(r, go)
                memo[t] = r
            return r
        t = go(t)
    return t


class TooDeep(Exception):
    pass


def solved(c):
    """{x: value} when the equation c determines an atom x"""
    if c.op != 'eq0':
        return None
    k, d = to_poly(c.a[0])
    best = None
    for mono, q in d.items():
        if len(mono) == 1 and q in (1, -1) and mono[0].op != 'ite':
            x = mono[0]
            if sum(1 for m in d if x in m) == 1 and (best is None or x.id > best[0].id):
                best = (x, q)
    if best is None:
        return None
    x, q = best
    r = sub(x, c.a[0]) if q == 1 else add(x, c.a[0])
    if contains(r, lambda y: y is x) is not None:
        return None
    return {x: r}


def ordered(t, cap=6000):
    """the decision tree t with its tests in one fixed order"""
    memo, conds = {}, {}

    def first(t):
        r = conds.get(t)
        if r is None:
            r = t.a[0].id if t.a[0].op != 'ite' else first(t.a[0])
            for x in t.a[1:]:
                if x.op == 'ite':
                    r = min(r, first(x))
                elif is_bool(x) and x.op != 'b':
                    r = min(r, x.id)
            conds[t] = r
        return r

    def find(t, i, seen):
        st = [t]
        while st:
            x = st.pop()
            if x.id == i:
                return x
            if x.op == 'ite' and x not in seen:
                seen.add(x)
                st.extend(x.a)

    def go(t):
        if t.op != 'ite':
            return t
        r = memo.get(t)
        if r is None:
            if len(memo) > cap:
                raise Budget('order')
            i = first(t)
            c = find(t, i, set())
            x, y = go(assume(t, c, True)), go(assume(t, c, False))
            r = memo[t] = x if x is y else y if (c.op == 'b' and c is FALSE) else x if c.op == 'b' else c if x is TRUE and y is FALSE else mk('ite', c, x, y)
        return r
    return go(t)


def deepen(t, facts=(), budget=60000, solve=False):
    """t with every condition pushed into all that it guards"""
    memo = {}
    left = [budget]

    def go(t, facts):
        da = deep_atoms(t)
        if not da:
            return t
        fs = tuple(f for f in facts if any(x is f[0] or implied(f[0], f[1], x) is not None for x in da))
        k = (t.id, fs)
        r = memo.get(k)
        if r is not None:
            return r
        left[0] -= 1
        if left[0] < 0:
            raise TooDeep()
        r = t
        for a, v in fs:
            r = assume(r, a, v)
        if r.op == 'ite':
            c, x, y = r.a
            c2 = c if c.op in ('pos', 'eq0') else go1(c, fs)
            if c2.op == 'b':
                r = go(x if c2 is TRUE else y, fs)
            else:
                if solve:
                    m = solved(c)
                    if m:
                        x = subst(x, m)
                r = ite(c2, go(x, fs + ((c, True),)), go(y, fs + ((c, False),)))
        elif deep_atoms(r):
            r = go1(r, fs)
        memo[k] = r
        return r

    def go1(t, fs):
        return rebuild(t, lambda x: go(x, fs))
    try:
        return go(t, facts)
    except TooDeep:
        return t


_ub = []


def bounded(n, v, body):
    """the body of a binder over v < n"""
    if not deep_atoms(body) or len(_ub) > 3:
        return body
    c = pos(sub(n, v))
    facts = []
    if c.op == 'pos':
        facts.append((c, True))
    p = pos(n)
    if p.op == 'pos':
        facts.append((p, True))
        z = eq0(n)
        if z.op == 'eq0':
            facts.append((z, False))
    if not facts:
        return body
    _ub.append(1)
    try:
        return under(body, facts)
    finally:
        _ub.pop()


def mk_comp(n, v, body):
    if n.op == 'ite' and leaves(n) < 30:
        return ite(n.a[0], mk_comp(n.a[1], v, body), mk_comp(n.a[2], v, body))
    if n.op == 'i' and n.a[0] <= 0:
        return SEQ0
    if body.op == 'bad':
        return body
    body = bounded(n, v, body)
    if v not in body.fv:
        return rep(n, body)
    if n.op == 'i' and n.a[0] <= 40:
        return lit(*[subst(body, {v: I(j)}) for j in range(n.a[0])])
    if body.op == 'idx' and v not in body.a[0].fv:
        s = body.a[0]
        if body.a[1] is v:
            if length(s) is n:
                return s
            return slc(s, ZERO, n)
        d = sub(body.a[1], v)
        if v not in d.fv:
            return slc(s, d, add(d, n))
    (b,) = close([v], [body], (n,))
    return mk('comp', n, b)


def mk_flat(n, v, body):
    """concatenation of body(k) for k < n"""
    if n.op == 'ite' and leaves(n) < 30:
        return ite(n.a[0], mk_flat(n.a[1], v, body), mk_flat(n.a[2], v, body))
    if n.op == 'i' and n.a[0] <= 0:
        return SEQ0
    if body.op == 'bad':
        return body
    body = bounded(n, v, body)
    if body is SEQ0:
        return SEQ0
    if body.op == 'lit' and len(body.a) == 1:
        return mk_comp(n, v, body.a[0])
    if n.op == 'i' and n.a[0] <= 40:
        return cat(*[subst(body, {v: I(j)}) for j in range(n.a[0])])
    if body.op == 'ite' and v not in body.a[0].fv:
        return ite(body.a[0], mk_flat(n, v, body.a[1]), mk_flat(n, v, body.a[2]))
    (b,) = close([v], [body], (n,))
    return mk('flat', n, b)


def mk_sum(n, v, body):
    if n.op == 'i' and n.a[0] <= 0:
        return ZERO
    body = bounded(n, v, body)
    if v not in body.fv:
        return mul(n, body)
    if n.op == 'i' and n.a[0] <= 40:
        r = ZERO
        for j in range(n.a[0]):
            r = add(r, subst(body, {v: I(j)}))
        return r
    (b,) = close([v], [body], (n,))
    return mk('sum', n, b)


def mk_exists(n, v, body):
    if n.op == 'ite' and leaves(n) < 30:
        return ite(n.a[0], mk_exists(n.a[1], v, body), mk_exists(n.a[2], v, body))
    if n.op == 'i' and n.a[0] <= 0:
        return FALSE
    if body.op == 'bad':
        return body
    body = bounded(n, v, body)
    if body is FALSE:
        return FALSE
    if v not in body.fv:
        return AND(body, lt(ZERO, n))
    if n.op == 'i' and n.a[0] <= 40:
        return ANY([subst(body, {v: I(j)}) for j in range(n.a[0])])
    if body.op == 'ite':
        c, t, e = body.a
        # disjunctions distribute, and conditions that do not depend on the
        # variable are taken out
        if v not in c.fv:
            return ite(c, mk_exists(n, v, t), mk_exists(n, v, e))
        if t is TRUE:
            return OR(mk_exists(n, v, c), mk_exists(n, v, e))
        if e is TRUE and False:
            pass
    if body.op == 'exists' and body.a[0] is v:
        w = tmp('nat', 'w')
        b2 = inst(body, w)
        if v not in b2.fv:
            return AND(lt(ZERO, n), mk_exists(sub(n, ONE), w, b2))
    if body.op == 'app' and body.a[0] == 'short' and v not in body.a[2].fv:
        # an input that is too short for something is too short for more
        c0, d = to_poly(body.a[3])
        dv = [(m, k) for m, k in d.items() if any(v in x.fv for x in m)]
        if all(k >= 0 and all(rng(x)[0] >= 0 for x in m) and all(x is v or v not in x.fv for x in m) for m, k in dv):
            return AND(lt(ZERO, n), subst(body, {v: sub(n, ONE)}))
    # eq0(v - e): membership
    (b,) = close([v], [body], (n,))
    return mk('exists', n, b)


def mk_first(n, v, body):
    """least k < n with body(k), n if there is none"""
    body = bounded(n, v, body)
    if body is FALSE:
        return n
    if body is TRUE:
        return ZERO if rng(n)[0] >= 1 else ite(lt(ZERO, n), ZERO, n)
    if v not in body.fv:
        return ite(body, ite(lt(ZERO, n), ZERO, n), n)
    (b,) = close([v], [body], (n,))
    return mk('first', n, b)


def mk_fold(n, k, accs, inits, nexts, j):
    """accs := nexts(k, accs) for k = 0 .. n-1, starting with inits; value of the j-th"""
    if n.op == 'i' and n.a[0] <= 0:
        return inits[j]
    for x in nexts:
        if x.op == 'ite' and k not in x.a[0].fv and not any(a in x.a[0].fv for a in accs):
            c = x.a[0]
            return ite(c, mk_fold(n, k, accs, inits, [assume(y, c, True) for y in nexts], j),
                       mk_fold(n, k, accs, inits, [assume(y, c, False) for y in nexts], j))
    if nexts[j] is accs[j]:
        return inits[j]
    if len(accs) == 1 and inits[0].op in ('put', 'map0') and n.op == 'i' and n.a[0] <= 300:
        # a table
        r = inits[0]
        for i in range(n.a[0]):
            r = subst(nexts[0], {k: I(i), accs[0]: r})
        return r
    bodies = close([k] + list(accs), list(nexts), [n] + list(inits))
    return mk('fold', j, n, tuple(inits), tuple(bodies))


def rebuild(t, f):
    """t with f applied to its children, renormalised"""
    op = t.op
    a = t.a
    if op in BINDERS:
        return rebuild_binder(t, f)
    b = _map(a, f)
    if b == a and all(x is y for x, y in zip(_flat(b), _flat(a))):
        return t
    if op == 'poly':
        r = I(b[0])
        for mono, c in b[1]:
            p = I(c)
            for x in mono:
                p = mul(p, x)
            r = add(r, p)
        return r
    fn = REB.get(op)
    if fn:
        return fn(*b)
    return mk(op, *b)


def _reb_struct(rec, *v):
    return mk_struct(rec, list(v))


def _reb_fld(base, name, ty):
    if base.op == 'struct' or base.op == 'ite' or is_rec(tyof(base)):
        return fld(base, name)
    return mk('fld', base, name, ty)


def _reb_idx(s, i, ty):
    r = idx(s, i)
    if r.op == 'idx' and r.a[2] == 'any' and ty != 'any':
        return mk('idx', r.a[0], r.a[1], ty)
    return r


APPRULES = {}


def asm(ty, bs):
    """the value of type ty with the given bytes"""
    if ty in ('u8', 'i8'):
        return bs[0]
    b0 = bs[0]
    if b0.op == 'app' and b0.a[0] in ('in:i8', 'in:u8'):
        nm, p0 = b0.a[2], b0.a[3]
        if all(b.op == 'app' and b.a[0] == b0.a[0] and b.a[2] is nm and b.a[3] is add(p0, I(j)) for j, b in enumerate(bs)):
            return app('in:' + ty, ty, nm, p0)
    if b0.op == 'app' and b0.a[0] == 'byte:' + ty:
        v = b0.a[2]
        if all(b.op == 'app' and b.a[0] == b0.a[0] and b.a[2] is v and b.a[3] is I(j) for j, b in enumerate(bs)):
            return v
    return mk('app', 'asm:' + ty, ty, *bs)


for _t in SIZES:
    APPRULES['asm:' + _t] = lambda ty, *bs: asm(ty, bs)


def _reb_app(name, ty, *args):
    r = APPRULES.get(name)
    if r:
        v = r(ty, *args)
        if v is not None:
            return v
    return mk('app', name, ty, *args)


REB = {
    'struct': _reb_struct, 'fld': _reb_fld, 'idx': _reb_idx, 'len': length,
    'idiv': idiv, 'imod': imod, 'wrap': wrap, 'iop': iop,
    'eq0': eq0, 'pos': pos, 'feq': feq, 'flt': flt, 'fle': fle, 'seq=': seqeq, 'same': equal,
    'ite': ite, 'i2f': i2f, 'f2i': f2i, 'fop': fop,
    'lit': lit, 'rep': rep, 'cat': cat, 'upd': upd, 'resize': resize, 'slice': slc,
    'app': _reb_app,
}


def rebuild_binder(t, f):
    op = t.op
    h = t.h
    if op in ('comp', 'flat', 'exists', 'first', 'sum'):
        v = tmp('nat', 'k')
        body = f(bsub(t.a[1], {mk('bv', h, 0, 'nat'): v}))
        n = f(t.a[0])
        return {'comp': mk_comp, 'flat': mk_flat, 'exists': mk_exists, 'first': mk_first, 'sum': mk_sum}[op](n, v, body)
    if op == 'fold':
        j, n, inits, bodies = t.a
        bvars = [mk('bv', h, 0, 'nat')] + [None] * len(inits)
        found = {}
        for b in bodies:
            for x in bvs(b):
                if x.a[0] == h:
                    found[x.a[1]] = x
        m = {}
        k = tmp('nat', 'k')
        m[mk('bv', h, 0, 'nat')] = k
        accs = []
        for q, i in enumerate(inits):
            x = found.get(q + 1)
            v = tmp(x.a[2] if x else tyof(i), 'a')
            if x:
                m[x] = v
            accs.append(v)
        nb = [f(bsub(b, m)) for b in bodies]
        return mk_fold(f(n), k, accs, [f(i) for i in inits], nb, j)
    if op == 'lam':
        bvv = sorted((x for b in t.a[1:] for x in bvs(b) if x.a[0] == h), key=lambda x: x.a[1])
        tys = t.a[0]
        vs = [tmp(y, 'v') for y in tys]
        m = {x: vs[x.a[1]] for x in bvv}
        nb = [f(bsub(b, m)) for b in t.a[1:]]
        return mk_lam(tys, vs, nb)
    if op == 'mu':
        return rebuild_mu(t, f)
    raise ValueError(op)


def mk_lam(tys, vs, bodies):
    r = close(vs, bodies)
    return mk('lam', tuple(tys), *r)


def apply_lam(t, args):
    m = {}
    for b in t.a[1:]:
        for x in bvs(b):
            if x.a[0] == t.h:
                m[x] = args[x.a[1]]
    return [bsub(b, m) for b in t.a[1:]]


# mu: state := next(state) while cond(state);  value of component j afterwards
#   ('mu', j, inits, cond, nexts)
def mk_mu(vs, inits, cond, nexts, j):
    r = close(list(vs), [cond] + list(nexts), list(inits))
    return mk('mu', j, tuple(inits), r[0], tuple(r[1:]))


def rebuild_mu(t, f):
    j, inits, cond, nexts = t.a
    h = t.h
    found = {}
    for b in (cond,) + nexts:
        for x in bvs(b):
            if x.a[0] == h:
                found[x.a[1]] = x
    m = {}
    vs = []
    for q, i in enumerate(inits):
        x = found.get(q)
        v = tmp(x.a[2] if x else tyof(i), 'm')
        if x:
            m[x] = v
        vs.append(v)
    return mk_mu(vs, [f(i) for i in inits], f(bsub(cond, m)), [f(bsub(b, m)) for b in nexts], j)


# ------------------------------------------------------------------ display
def show(t, d=6):
    op, a = t.op, t.a
    if d < 0:
        return '...'
    s = lambda x: show(x, d - 1) if isinstance(x, T) else ('(' + ','.join(s(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
    if op == 'i':
        return str(a[0])
    if op == 'f':
        return repr(fval(t))
    if op == 'b':
        return 'true' if a[0] else 'false'
    if op == 'strc':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op == 'tmp':
        return '%s#%d' % (a[2], a[0])
    if op == 'bv':
        return 'v%d.%d' % (a[0], a[1])
    if op == 'poly':
        ps = []
        for m, c in a[1]:
            ps.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + '*'.join(s(x) for x in m))
        if a[0]:
            ps.append(str(a[0]))
        return '(' + ' + '.join(ps) + ')'
    if op == 'fld':
        return s(a[0]) + '.' + a[1]
    if op == 'idx':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'len':
        return '|' + s(a[0]) + '|'
    if op == 'ite':
        return '(' + s(a[0]) + ' ? ' + s(a[1]) + ' : ' + s(a[2]) + ')'
    if op == 'eq0':
        return s(a[0]) + '==0'
    if op == 'pos':
        return s(a[0]) + '>0'
    if op in ('feq', 'flt', 'fle', 'seq=', 'same'):
        o = {'feq': '==', 'flt': '<', 'fle': '<=', 'seq=': '==', 'same': '=='}[op]
        return '(' + s(a[0]) + o + s(a[1]) + ')'
    if op == 'fop' and len(a) == 3:
        return '(' + s(a[1]) + ' ' + a[0] + ' ' + s(a[2]) + ')'
    if op == 'struct':
        return a[0].split('::')[-1] + '{' + ', '.join(f[0] + '=' + s(v) for f, v in zip(RECORDS[a[0]]['fields'], a[1:])) + '}'
    if op == 'comp':
        return '[' + s(a[1]) + ' | v%d<' % t.h + s(a[0]) + ']'
    if op == 'app':
        return a[0] + '(' + ', '.join(s(x) for x in a[2:]) + ')'
    return op + '(' + ', '.join(s(x) for x in a) + ')'


def contains(t, pred, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return x
        st.extend(_flat(x.a))
    return None
