"""Closed forms of loops from one symbolic iteration."""
from terms import *
import terms
import absint as A


def order_of(t, vs):
    """the temporaries of vs in t, in order of occurrence"""
    out = []
    seen = set()
    vset = frozenset(vs)

    def go(t):
        if t in seen or not (t.fv & vset):
            return
        seen.add(t)
        if t in vset:
            out.append(t)
            return
        for x in terms._flat(t.a):
            go(x)
    go(t)
    return out


def leaf_set(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            todo += x.a[1:3]
        else:
            out.add(x)
            if len(out) > 2:
                break
    return out


def leaf_cond(t, leaf):
    """when the decision tree ends in this leaf"""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return TRUE if x is leaf else FALSE
        if x not in memo:
            memo[x] = ite(x.a[0], go(x.a[1]), go(x.a[2]))
        return memo[x]
    return go(t)


class LoopSolver:
    def __init__(self, eng, keys, vs, inits, nexts, c, exits, live, node, fr, st):
        self.e = eng
        self.keys, self.vs, self.inits, self.nexts = keys, vs, inits, nexts
        self.c, self.exits, self.live = c, exits, live
        self.node, self.fr, self.st = node, fr, st
        self.V = frozenset(vs)

    # values of the changed locations when exit e is taken
    def exit_vals(self, e):
        return [self.e.get_at(e.store, r, p) for r, p in self.keys]

    def extra_locs(self, e):
        """locations that only this exit changes"""
        out = []
        start = self.st.store
        for root, v in start.items():
            w = e.store.get(root)
            if w is None or w is v:
                continue
            ps = []
            base = dict(start)
            for (r, p), t in zip(self.keys, self.vs):
                if r == root:
                    self.e.set_at(base, r, p, t)
            self.e.diff_paths(base[root], w, (), ps, root)
            for p in ps:
                if not any(r == root and p[:len(q)] == q for r, q in self.keys):
                    out.append((root, p, self.e.get_at(e.store, root, p)))
        return out

    def run(self):
        st = self.st
        if self.live is FALSE:
            return self.once()
        k = tmp('nat', 'k')
        sub_len = {}
        # sequences that keep their length
        for v, i, n in zip(self.vs, self.inits, self.nexts):
            if is_vec(tyof(v)) or tyof(v) == 'seq':
                lv = length(v)
                if lv.op == 'len' and length(n) is lv:
                    sub_len[lv] = length(i)
        if sub_len:
            f = lambda t: subst(t, sub_len)
            self.nexts = [f(x) for x in self.nexts]
            self.c = f(self.c)
        else:
            f = lambda t: t
        at = {}
        fin = {}
        # induction variables
        for v, i, n in zip(self.vs, self.inits, self.nexts):
            if is_int(v) and is_int(n):
                d = sub(n, v)
                if not (d.fv & self.V):
                    at[v] = add(i, mul(d, k))
        g = lambda t: subst(t, at) if at else t
        c = g(self.c)
        trip, atomk = self.trip(c, k)
        if trip is None:
            return self.general(f)
        self.trip_ = trip
        facts = [(atomk[0], atomk[1])]
        rest = c
        for a, v in facts:
            rest = assume(rest, a, v)
        self.facts = facts
        self.extra_pc = self.trip_facts(trip)

        def simp(t):
            for a, v in facts:
                t = assume(t, a, v)
            return t
        self.simp = simp
        for v in at:
            fin[v] = subst(at[v], {k: trip})
        todo = [(v, i, g(n)) for v, i, n in zip(self.vs, self.inits, self.nexts) if v not in at]
        todo = [(v, i, simp(n)) for v, i, n in todo]
        while todo:
            progress = False
            nxt = []
            for v, i, n in todo:
                others = n.fv & (self.V - {v})
                if any(o not in at for o in others):
                    nxt.append((v, i, n))
                    continue
                if others:
                    n = simp(subst(n, {o: at[o] for o in others}))
                r = self.solve(v, i, n, k, trip)
                if r is None:
                    nxt.append((v, i, n))
                    continue
                at[v], fin[v] = r
                progress = True
            todo = nxt
            if not progress and todo:
                # mutually dependent: a joint fold
                N = {v: simp(subst(n, {o: at[o] for o in (n.fv & self.V) if o in at})) for v, i, n in todo}
                In = {v: i for v, i, n in todo}
                res = {}
                for v in N:
                    order = [v]
                    j = 0
                    while j < len(order):
                        for o in order_of(N[order[j]], N.keys()):
                            if o not in order:
                                order.append(o)
                        j += 1
                    res[v] = order
                best = min(len(o) for o in res.values())
                for v, order in res.items():
                    if len(order) == best or True:
                        ins = [In[o] for o in order]
                        nx = [N[o] for o in order]
                        if any(x.op == 'bad' for x in nx):
                            b = next(x for x in nx if x.op == 'bad')
                            at[v] = fin[v] = b
                            continue
                        at[v] = self.fold(k, k, order, ins, nx)
                        fin[v] = self.fold(trip, k, order, ins, nx)
                todo = []
        self.finish(k, trip, at, fin, rest, f)

    def fold(self, n, k, order, ins, nx):
        k2 = tmp('nat', 'k')
        m = {k: k2}
        accs = []
        for o in order:
            a = tmp(tyof(o), 'a')
            m[o] = a
            accs.append(a)
        return mk_fold(n, k2, accs, ins, [subst(x, m) for x in nx], 0)

    def no_trip(self):
        """is the number of rounds unknown?"""
        k = tmp('nat', 'k')
        at = {}
        for v, i, n in zip(self.vs, self.inits, self.nexts):
            if is_int(v) and is_int(n):
                d = sub(n, v)
                if not (d.fv & self.V):
                    at[v] = add(i, mul(d, k))
        return self.trip(subst(self.c, at) if at else self.c, k)[0] is None

    # ------------------------------------------------------------ trip count
    def trip(self, c, k):
        best = None
        for a, v in A.conj(c):
            if a.fv & self.V:
                continue
            if k not in a.fv:
                continue
            t = self.trip_of(a, v, k)
            if t is not None:
                return t, (a, v)
        return None, None

    def trip_of(self, a, v, k):
        if a.op == 'pos':
            p = a.a[0] if v else sub(ONE, a.a[0])
            s = split(p, k)
            if s is None:
                return None
            A_, b = s
            A_ = neg(A_)
            if rng(A_)[0] < 1 and not A.prove_nonneg(sub(A_, ONE), self.st.pc):
                return None
            t = b if A_ is ONE else idiv(add(b, sub(A_, ONE)), A_)
            if A.prove_nonneg(b, self.st.pc):
                return t
            return ite(self.st.simp(pos(b)), t, ZERO)
        if a.op == 'eq0' and not v:
            s = split(a.a[0], k)
            if s is None:
                return None
            A_, b = s
            if A_ is ONE:
                return neg(b)
            if A_ is I(-1):
                return b
        return None

    def trip_facts(self, trip):
        out = []
        if trip.op == 'idiv':
            num, den = trip.a
            tot = add(sub(num, den), ONE)
            r = pos(sub(tot, mul(den, trip)))
            for a, v in A.conj(NOT(r)):
                out.append((a, v))
        return out

    # -------------------------------------------------------------- patterns
    def solve(self, v, init, n, k, trip):
        sm = self.simp
        if n.op == 'bad':
            return n, n
        if n is v:
            return init, init
        if v not in n.fv:
            if n is init:
                return init, init
            prev = subst(n, {k: sub(k, ONE)})
            last = subst(n, {k: sub(trip, ONE)})
            a = ite(eq0(k), init, prev)
            return a, ite(lt(ZERO, trip), last, init)
        if is_int(v) and is_int(n):
            d = sub(n, v)
            if v not in d.fv:
                r = self.strided(v, init, d, k, trip)
                if r is not None:
                    return r
                k2 = tmp('nat', 'k')
                b = subst(d, {k: k2})
                return add(init, mk_sum(k, k2, b)), add(init, mk_sum(trip, k2, b))
        if is_bool(v):
            t = sm(assume(n, v, True))
            e = sm(assume(n, v, False))
            if v not in t.fv and v not in e.fv:
                k2 = tmp('nat', 'k')
                if t is TRUE:
                    b = subst(e, {k: k2})
                    return OR(init, mk_exists(k, k2, b)), OR(init, mk_exists(trip, k2, b))
                if e is FALSE:
                    b = subst(NOT(t), {k: k2})
                    return AND(init, NOT(mk_exists(k, k2, b))), AND(init, NOT(mk_exists(trip, k2, b)))
        if n.op == 'ite' and not is_bool(v):
            # a value that is set to the same constant by some rounds
            ls = leaf_set(n)
            if len(ls) == 2 and v in ls:
                K = next(x for x in ls if x is not v)
                if v not in K.fv and k not in K.fv:
                    hit = leaf_cond(n, K)
                    if v not in hit.fv:
                        k2 = tmp('nat', 'k')
                        hit = subst(hit, {k: k2})
                        return ite(mk_exists(k, k2, hit), K, init), ite(mk_exists(trip, k2, hit), K, init)
        if is_seq(n) or is_seq(v):
            r = self.solve_seq(v, init, n, k, trip)
            if r is not None:
                return r
        if n.op == 'ite' and init.op == 'map0':
            # a set to which one item is added per round
            c, a, b = n.a
            if a is v and b.op == 'put' and b.a[0] is v and b.a[2] is TRUE and v not in b.a[1].fv and c is self.e.models.map_has(v, b.a[1]):
                k2 = tmp('nat', 'k')
                e = subst(b.a[1], {k: k2})
                y = tyof(v)
                return app('setof', y, mk_comp(k, k2, e)), app('setof', y, mk_comp(trip, k2, e))
        order = [v]
        return self.fold(k, k, order, [init], [n]), self.fold(trip, k, order, [init], [n])

    def strided(self, v, init, d, k, trip):
        """every round but the last adds the same amount"""
        if d.op != 'ite' and 'ite' not in d.op:
            return None
        a, val = self.facts[0]
        nxt = subst(a, {k: add(k, ONE)})
        m = nxt
        dd = d
        for x, y in A.conj(m if val else NOT(m)):
            dd = assume(dd, x, y)
        if k in dd.fv or v in dd.fv:
            return None
        atk = add(init, mul(dd, k))
        last = subst(d, {k: sub(trip, ONE)})
        for x, y in self.extra_pc:
            last = assume(last, x, y)
        fin = add(add(init, mul(dd, sub(trip, ONE))), last)
        if A.prove_nonneg(sub(trip, ONE), self.st.pc):
            return atk, fin
        # a sum over no rounds is nothing
        if subst_zero(fin, trip) is init:
            return atk, fin
        return atk, ite(lt(ZERO, trip), fin, init)

    def solve_seq(self, v, init, n, k, trip):
        sm = self.simp
        if n.op == 'cat' and n.a[0] is v:
            x = cat(*n.a[1:])
            if v not in x.fv:
                k2 = tmp('nat', 'k')
                b = subst(x, {k: k2})
                return cat(init, mk_flat(k, k2, b)), cat(init, mk_flat(trip, k2, b))
            # only the length is looked at
        if n.op == 'upd' and n.a[0] is v:
            i, e = n.a[1], n.a[2]
            c0 = sub(i, k)
            if k not in c0.fv and v not in c0.fv:
                old = idx(v, i)
                w = tmp(tyof(old), 'w')
                e2 = subst(e, {old: w})
                if v not in e2.fv:
                    def closed(m):
                        x = tmp('nat', 'x')
                        o = idx(init, x)
                        val = subst(e2, {k: sub(x, c0), w: o})
                        N = length(init)
                        cnd = AND(le(c0, x), lt(sub(x, c0), m))
                        cnd = assume_all(cnd, A.conj(lt(x, N)))
                        body = ite(cnd, val, o)
                        body = assume_all(body, A.conj(lt(x, N)))
                        return mk_comp(N, x, body)
                    return closed(k), closed(trip)
        if n.op == 'comp':
            m = n.a[0]
            if v in m.fv:
                return None
            x = tmp('nat', 'x')
            body = inst(n, x)
            old = idx(v, x)
            w = tmp(tyof(old), 'w')
            b2 = subst(body, {old: w})
            if v not in b2.fv and k not in m.fv:
                # what init is when there is a round at all
                some = A.conj(lt(ZERO, trip))
                ini = assume_all(init, some)
                li = length(ini)
                if li is not m and not (is_vec(tyof(v)) is False and li.op != 'i'):
                    return None
                r = self.solve(w, idx(ini, x), self.simp(b2), k, trip)
                if r is not None:
                    fin = mk_comp(m, x, r[1])
                    if ini is not init or li is not m:
                        fin = ite(lt(ZERO, trip), fin, init)
                    return mk_comp(m, x, r[0]), fin
        return None

    # ---------------------------------------------------------------- results
    def base_store(self):
        return dict(self.st.store)

    def put(self, store, vals, extra=()):
        for (r, p), v in zip(self.keys, vals):
            self.e.set_at(store, r, p, v)
        for r, p, v in extra:
            self.e.set_at(store, r, p, v)

    def finish(self, k, trip, at, fin, rest, f):
        st, e = self.st, self.e
        simp = self.simp

        def inst_at(t, kk):
            t = simp(subst(f(t), at))
            return t if kk is k else subst(t, {k: kk})
        ex_list = []
        if rest is not TRUE:
            # a second loop condition is a break at the head of the iteration
            rest = simp(subst(rest, at))
            ex_list.append(('head', NOT(rest), None))
        for x in self.exits:
            ex_list.append((x.kind, inst_at(x.cond, k), x))
        ex_list = [y for y in ex_list if y[1] is not FALSE]
        finals = [fin[v] for v in self.vs]
        if not ex_list:
            store = self.base_store()
            self.put(store, finals)
            st.store = store
            return
        E = ANY([y[1] for y in ex_list])
        k2 = tmp('nat', 'k')
        Eb = subst(E, {k: k2})
        ex = st.simp(mk_exists(trip, k2, Eb))
        if k not in E.fv:
            fi = ZERO
        else:
            fi = mk_first(trip, k2, Eb)
        outs = []
        left = ex
        for j, (kind, cnd, x) in enumerate(ex_list):
            if len(ex_list) == 1:
                ci = ex
            elif j == len(ex_list) - 1:
                ci = left
            else:
                one = subst(cnd, {k: fi})
                ci = AND(left, one)
                left = AND(left, NOT(one))
            if ci is FALSE:
                continue
            store = self.base_store()
            if kind == 'head':
                self.put(store, [subst(at[v], {k: fi}) for v in self.vs])
                outs.append(('break', ci, UNDEF, store, None))
            else:
                q = subst(cnd, {k: fi})
                vals = [restrict(inst_at(t, fi), q) for t in self.exit_vals(x)]
                extra = [(r, p, restrict(inst_at(t, fi), q)) for r, p, t in self.extra_locs(x)]
                self.put(store, vals, extra)
                outs.append((kind, ci, inst_at(x.val, fi), store, x.where))
        norm = self.base_store()
        self.put(norm, finals)
        self.emit(outs, norm, NOT(ex))

    def emit(self, outs, norm, cnd):
        st, e = self.st, self.e
        cur = St_(norm, AND(st.cond, cnd), st.pc + tuple(A.conj(cnd)))
        for kind, ci, val, store, where in outs:
            c = AND(st.cond, ci)
            if kind == 'break':
                b = St_(store, c, st.pc + tuple(A.conj(ci)))
                if cur.dead:
                    cur = b
                else:
                    cur = A.merge(b, cur, ci)
            else:
                e.add_exit(self.fr, A.Exit(kind, c, val, store, st.pc + tuple(A.conj(ci)), where))
        st.set(cur)

    def once(self):
        """the body never completes: at most one iteration"""
        m = dict(zip(self.vs, self.inits))
        g = lambda t: subst(t, m) if m else t
        c = self.st.simp(g(self.c))
        outs = []
        for x in self.exits:
            ci = self.st.simp(g(x.cond))
            if ci is FALSE:
                continue
            store = self.base_store()
            vals = [g(t) for t in self.exit_vals(x)]
            self.put(store, vals, [(r, p, g(t)) for r, p, t in self.extra_locs(x)])
            outs.append((x.kind, ci, g(x.val), store, x.where))
        self.emit(outs, self.base_store(), NOT(c))

    def general(self, f):
        """no trip count: the least fixed point itself"""
        e, st = self.e, self.st
        vs, inits = list(self.vs), list(self.inits)
        nexts = [f(x) for x in self.nexts]
        c = f(self.c)
        c = f(c)
        exits = [x for x in self.exits if x.cond is not FALSE]
        code = rv = None
        extra = {}
        groups = []
        # exits taken before anything has changed are part of the loop condition
        pure = bool(exits) and all(not self.extra_locs(x) and all(f(e.get_at(x.store, r, p)) is v for (r, p), v in zip(self.keys, self.vs)) for x in exits)
        if pure:
            keys = self.keys
            cm = c
            for x in exits:
                cm = AND(cm, NOT(f(x.cond)))
        elif exits:
            for x in exits:
                for r, p, t in self.extra_locs(x):
                    if (r, p) not in extra:
                        extra[(r, p)] = tmp(e.loc_ty(r, p, t), 'x')
            for (r, p), v in extra.items():
                vs.append(v)
                inits.append(e.get_at(st.store, r, p))
                nexts.append(v)
            keys = self.keys + list(extra)
            code = tmp('nat', 'code')
            # exits of one kind share a code
            for x in exits:
                v = f(x.val)
                for gr in groups:
                    w = f(gr[0].val)
                    if gr[0].kind == x.kind and (v is w or x.kind == 'ret' and tyof(v) == tyof(w)):
                        gr.append(x)
                        break
                else:
                    groups.append([x])
            groups.sort(key=lambda gr: (KINDS.get(gr[0].kind, 9), terms.show(f(gr[0].val), 6) if gr[0].kind == 'throw' else ''))
            number = {id(x): j + 1 for j, gr in enumerate(groups) for x in gr}
            needrv = any(f(x.val).fv & frozenset(vs) for x in exits) or any(f(x.val) is not f(gr[0].val) for gr in groups for x in gr)
            rv = tmp(tyof(exits[0].val), 'rv') if needrv else None
            for x in reversed(exits):
                xc = f(x.cond)
                for q, (r, p) in enumerate(keys):
                    t = e.get_at(x.store, r, p)
                    if t is UNDEF and q >= len(self.keys):
                        t = vs[q]
                    nexts[q] = ite(xc, f(t), nexts[q])
            vs.append(code)
            inits.append(ZERO)
            n = ZERO
            for x in reversed(exits):
                n = ite(f(x.cond), I(number[id(x)]), n)
            nexts.append(n)
            if needrv:
                vs.append(rv)
                inits.append(UNDEF)
                n = rv
                for x in reversed(exits):
                    n = ite(f(x.cond), f(x.val), n)
                nexts.append(n)
            cm = AND(eq0(code), c)
        else:
            keys = self.keys
            cm = c
        N = dict(zip(vs, nexts))
        In = dict(zip(vs, inits))

        def mu(v):
            order = [v]
            for o in order_of(cm, vs):
                if o not in order:
                    order.append(o)
            j = 0
            while j < len(order):
                for o in order_of(N[order[j]], vs):
                    if o not in order:
                        order.append(o)
                j += 1
            order[1:] = sorted(order[1:], key=lambda o: (str(tyof(o)), terms.show(In[o], 3)))
            m = {o: tmp(tyof(o), 'm') for o in order}
            nx = [subst(N[o], m) for o in order]
            for b in nx:
                if b.op == 'bad':
                    return b
            return mk_mu([m[o] for o in order], [In[o] for o in order], subst(cm, m), nx, 0)
        fins = [mu(v) for v in vs]
        byv = dict(zip(vs, fins))
        norm = self.base_store()
        for (r, p), v in zip(keys, vs):
            e.set_at(norm, r, p, byv[v])
        if not exits:
            st.store = norm
            return
        outs = []
        if pure:
            left = TRUE
            for j, x in enumerate(exits):
                xc = AND(left, subst(f(x.cond), byv))
                left = AND(left, NOT(subst(f(x.cond), byv)))
                if c is TRUE and j == len(exits) - 1:
                    xc, left = OR(xc, left), FALSE
                outs.append((x.kind, xc, subst(f(x.val), byv), dict(norm), x.where))
            self.emit(outs, norm, left)
            return
        cv = byv[code]
        for j, gr in enumerate(groups):
            x = gr[0]
            store = dict(norm)
            val = f(x.val)
            if val.fv & frozenset(vs) or any(f(y.val) is not val for y in gr):
                val = byv[rv] if rv is not None else bad('loop value')
            outs.append((x.kind, equal(cv, I(j + 1)), val, store, x.where))
        # a loop without a condition only ends through its exits
        if c is TRUE:
            left = TRUE
            outs2 = []
            for j, o in enumerate(outs):
                if j == len(outs) - 1:
                    outs2.append((o[0], left) + o[2:])
                else:
                    outs2.append((o[0], AND(left, o[1])) + o[2:])
                    left = AND(left, NOT(o[1]))
            self.emit(outs2, norm, FALSE)
        else:
            self.emit(outs, norm, eq0(cv))


KINDS = {'break': 0, 'continue': 1, 'ret': 2, 'throw': 3}


def St_(store, cond, pc):
    return A.St(store, cond, pc)


def assume_all(t, facts):
    for a, v in facts:
        t = assume(t, a, v)
    return t


def split(p, k):
    """p = A*k + b with A, b free of k"""
    c, d = to_poly(p)
    A_ = ZERO
    b = I(c)
    for m, co in d.items():
        n = sum(1 for x in m if x is k)
        if n > 1:
            return None
        rest = [x for x in m if x is not k]
        if any(k in x.fv for x in rest):
            return None
        t = I(co)
        for x in rest:
            t = mul(t, x)
        if n:
            A_ = add(A_, t)
        else:
            b = add(b, t)
    if A_ is ZERO:
        return None
    return A_, b


def subst_zero(t, trip):
    if trip.op in ('i',):
        return t
    return subst(t, {trip: ZERO})
