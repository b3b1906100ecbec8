"""Linear integer forms and conjunctions of linear constraints.

Entailment is decided by eliminating equalities with a unit coefficient and then Fourier-Motzkin elimination with integer
tightening: a conjunction found empty has no integer point, so an entailment found is one.
"""
from math import gcd

CAP = 4000


class Lin:
    __slots__ = ('c', 'k')

    def __init__(self, c=None, k=0):
        self.c = {s: v for s, v in (c or {}).items() if v}
        self.k = k

    def __add__(self, o):
        o = lin(o)
        c = dict(self.c)
        for s, v in o.c.items():
            c[s] = c.get(s, 0) + v
        return Lin(c, self.k + o.k)

    __radd__ = __add__

    def __neg__(self):
        return Lin({s: -v for s, v in self.c.items()}, -self.k)

    def __sub__(self, o):
        return self + (-lin(o))

    def __rsub__(self, o):
        return lin(o) - self

    def scale(self, f):
        return Lin({s: v * f for s, v in self.c.items()}, self.k * f)

    def const(self):
        return None if self.c else self.k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.k == o.k

    def __hash__(self):
        return hash((frozenset(self.c.items()), self.k))

    def subst(self, m):
        r = Lin({}, self.k)
        for s, v in self.c.items():
            r = r + (m[s].scale(v) if s in m else Lin({s: v}))
        return r

    def __repr__(self):
        if not self.c:
            return str(self.k)
        t = ' + '.join(('%s' % s if v == 1 else '%d*%s' % (v, s)) for s, v in sorted(self.c.items()))
        return t + (' + %d' % self.k if self.k > 0 else ' - %d' % -self.k if self.k < 0 else '')


def lin(x):
    return x if isinstance(x, Lin) else Lin({}, x)


def sym(s):
    return Lin({s: 1})


def norm(l):
    """tightened constraint l >= 0; None if trivial, False if impossible"""
    if not l.c:
        return None if l.k >= 0 else False
    g = 0
    for v in l.c.values():
        g = gcd(g, abs(v))
    if g > 1:
        return Lin({s: v // g for s, v in l.c.items()}, l.k // g)
    return l


def eliminate_eqs(eqs, ges):
    """substitution of equalities; returns (substitutions in order, remaining ges) or None if impossible"""
    subs = []
    todo = list(eqs)
    ges = list(ges)
    while todo:
        pick = None
        for e in todo:
            if not e.c:
                if e.k:
                    return None
                continue
            g = 0
            for v in e.c.values():
                g = gcd(g, abs(v))
            if e.k % g:
                return None
            if g > 1:
                e2 = Lin({s: v // g for s, v in e.c.items()}, e.k // g)
            else:
                e2 = e
            for s, v in sorted(e2.c.items()):
                if abs(v) == 1:
                    pick = (e, e2, s, v)
                    break
            if pick:
                break
        todo = [e for e in todo if e.c]
        if not todo:
            break
        if not pick:
            for e in todo:
                ges += [e, -e]
            break
        e, e2, s, v = pick
        r = (Lin({s: v}) - e2).scale(v)      # s = r
        m = {s: r}
        todo = [x.subst(m) for x in todo if x is not e]
        ges = [x.subst(m) for x in ges]
        subs.append((s, r))
    return subs, ges


def prune(cs):
    best = {}
    for c in cs:
        key = frozenset(c.c.items())
        if key not in best or c.k < best[key].k:
            best[key] = c
    return list(best.values())


def fm(ges):
    """list of eliminated (symbol, lower, upper) or None if there is no point"""
    cur = []
    for g in ges:
        n = norm(g)
        if n is False:
            return None
        if n is not None:
            cur.append(n)
    cur = prune(cur)
    steps = []
    while cur:
        syms = {}
        for c in cur:
            for s, v in c.c.items():
                lo, up = syms.get(s, (0, 0))
                syms[s] = (lo + (v > 0), up + (v < 0))
        s = min(sorted(syms), key=lambda x: syms[x][0] * syms[x][1])
        lo = [c for c in cur if c.c.get(s, 0) > 0]
        up = [c for c in cur if c.c.get(s, 0) < 0]
        rest = [c for c in cur if s not in c.c]
        steps.append((s, lo, up))
        for a in lo:
            for b in up:
                n = norm(a.scale(-b.c[s]) + b.scale(a.c[s]))
                if n is False:
                    return None
                if n is not None:
                    rest.append(n)
        cur = prune(rest)
        if len(cur) > CAP:
            return steps + [(None, [], [])]
    return steps


def feasible(eqs, ges):
    r = eliminate_eqs(eqs, ges)
    if r is None:
        return False
    return fm(r[1]) is not None


def entails(eqs, ges, goal):
    """goal >= 0 follows"""
    if not goal.c and goal.k >= 0:
        return True
    return not feasible(eqs, list(ges) + [lin(-1) - goal])


def witness(eqs, ges, budget=20000):
    """an integer point, or None if none was found"""
    r = eliminate_eqs(eqs, ges)
    if r is None:
        return None
    subs, ges = r
    steps = fm(ges)
    if steps is None or any(s is None for s, _, _ in steps):
        return None
    val = {}
    left = [budget]

    def back(i):
        left[0] -= 1
        if left[0] < 0:
            return False
        if i < 0:
            return all(value(g) >= 0 for g in ges)
        s, lo, up = steps[i]
        low = None
        for c in lo:
            v = -(value(Lin({x: y for x, y in c.c.items() if x != s}, c.k)) // c.c[s])
            low = v if low is None else max(low, v)
        high = None
        for c in up:
            v = value(Lin({x: y for x, y in c.c.items() if x != s}, c.k)) // -c.c[s]
            high = v if high is None else min(high, v)
        if low is None:
            low = min(0, high) if high is not None else 0
        if high is None:
            high = max(0, low) + 70
        for v in range(low, min(high, low + 70) + 1):
            val[s] = v
            if back(i - 1):
                return True
        val.pop(s, None)
        return False

    def value(l):
        return l.k + sum(v * val.get(s, 0) for s, v in l.c.items())

    if not back(len(steps) - 1):
        return None
    for s, r in reversed(subs):
        val[s] = value(r)
    return val


def null_space(rows, n):
    """integer basis of {a : row . a = 0 for every row}"""
    from fractions import Fraction
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        f = m[r][c]
        m[r] = [x / f for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c]:
                g = m[i][c]
                m[i] = [x - g * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    out = []
    for free in (c for c in range(n) if c not in piv):
        v = [Fraction(0)] * n
        v[free] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][free]
        d = 1
        for x in v:
            d = d * x.denominator // gcd(d, x.denominator)
        v = [int(x * d) for x in v]
        g = 0
        for x in v:
            g = gcd(g, abs(x))
        out.append([x // g for x in v])
    return out
