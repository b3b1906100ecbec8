"""Obligations: summaries of functions and their comparison."""
import json
import os
import sys
import time
import traceback
from terms import *
import terms
import absint
from absint import Engine, St, Frame, ptr, facts, Unmodelled, conj
import models
import evalt
from evalt import Valuation, Skip, differ, BAD, UB

sys.setrecursionlimit(100000)

DISCHARGED, VIOLATED, UNDECIDED = 'discharged', 'violated', 'undecided'


class Outcome:
    def __init__(self):
        self.ret = UNDEF
        self.store = {}
        self.cond = TRUE
        self.throws = []
        self.notes = {}
        self.fn = None
        self.eng = None
        self.roots = {}

    def thrown(self):
        return ANY([e.cond for e in self.throws])

    def obs(self, what):
        """'ret', 'self', 'a0', 'a0.items', '@trace' ..."""
        if what == 'ret':
            return self.ret
        if what.startswith('@'):
            return self.store.get(('g', what[1:]), SEQ0)
        parts = what.split('.')
        v = self.store.get(self.roots.get(parts[0]), UNDEF)
        for p in parts[1:]:
            v = fld(v, p)
        return v


def arg_value(ty, name):
    if ty == 'stream':
        return models.new_stream(name)
    return sym(name, ty)


def summarise(prog, fn, member_self=False, pre=None, stubs=None, args=None, names=None, budget=None, const=None):
    """summary of a function for symbolic arguments self, a0, a1, ..."""
    e = Engine(prog)
    if budget:
        e.max_steps = budget
    if stubs:
        e.stubs.update(stubs)
    o = Outcome()
    o.eng = e
    o.fn = fn
    st = St({}, TRUE, ())
    fr = Frame(prog, fn, 0)
    for g in ('trace', 'calls'):
        st.store[('g', g)] = SEQ0
    for g in ('std::cout', 'std::cerr', 'std::clog', 'std::cin'):
        st.store[('g', g)] = models.global_object(g)
        e.rootty[('g', g)] = tyof(st.store[('g', g)])
    vals = []
    this = None
    if fn.get('rec') is not None and not fn.get('static'):
        ty = prog.recty(fn['rec'])
        root = ('arg', 'self')
        e.rootty[root] = ty
        st.store[root] = (args or {}).get('self') or sym('self', ty)
        this = ptr(root)
        o.roots['self'] = root
        o.selfval = st.store[root]
    k = 0
    for j, prm in enumerate(fn['params']):
        ty = prog.ty(prm['t'])
        if member_self and j == 0:
            name = 'self'
        else:
            name = 'a%d' % k
            k += 1
        v = (args or {}).get(name)
        if v is None:
            v = arg_value(ty, name)
        if prog.types[prm['t']]['k'] == 'ref':
            root = ('arg', name)
            e.rootty[root] = ty
            st.store[root] = v
            o.roots[name] = root
            vals.append(ptr(root))
        else:
            vals.append(v)
    if pre is not None and pre is not TRUE:
        st.pc = tuple(conj(pre))
    r = e.call_fn(prog, fn, this, vals, st, fr)
    if r.op == 'ptr' and fn.get('ret') is not None and prog.types[fn['ret']]['k'] == 'ref':
        o.retptr = r
        r = e.read(st, r)
    o.ret = st.simp(r)
    o.store = st.store
    o.cond = st.cond
    o.throws = [x for x in fr.exits if x.kind == 'throw' and x.val.op != 'exit']
    o.exits = [x for x in fr.exits if x.val.op == 'exit']
    o.notes = dict(e.notes)
    o.funcs = e.funcs
    return o


class Ob:
    def __init__(self, name, status, detail='', where='', witness=None, rule=''):
        self.name, self.status, self.detail, self.where, self.witness, self.rule = name, status, detail, where, witness, rule

    def json(self):
        d = dict(obligation=self.name, status=self.status)
        for k in ('detail', 'where', 'witness', 'rule'):
            v = getattr(self, k)
            if v:
                d[k] = v
        return d


SAMPLES = 400


def simp_under(t, care):
    m = {}
    for a, v in conj(care):
        t = assume(t, a, v)
        if v and a.op == 'eq0':
            c, d = to_poly(a.a[0])
            if len(d) == 1:
                (mono, k), = d.items()
                if len(mono) == 1 and k in (1, -1):
                    m[mono[0]] = I(-c * k)
    if m:
        t = subst(t, m)
    return restrict(t, care)


def decide_equal(pairs, pre=TRUE, samples=None, seconds=20, tweak=None):
    """pairs: [(name, implementation term, reference term, care)]
    -> list of (name, status, detail, witness)"""
    out = []
    todo = []
    for name, a, b, care in pairs:
        if care is FALSE:
            out.append((name, DISCHARGED, 'never reached', None))
            continue
        x, y = a, b
        if x is not y and care is not TRUE:
            x, y = simp_under(a, care), simp_under(b, care)
        if x is not y or unknown_parts(x):
            t0 = time.time()
            fs = tuple(conj(care))
            x, y = terms.deepen(x, fs), terms.deepen(y, fs)
            if os.environ.get('VERIF_DEBUG') and time.time() - t0 > 1:
                print('deepen', name, '%.1f' % (time.time() - t0))
            if x is not y:
                try:
                    x, y = terms.deepen(x, fs, 20000, True), terms.deepen(y, fs, 20000, True)
                    if x is not y and (x.op == 'ite' or y.op == 'ite'):
                        u, v = terms.ordered(x), terms.ordered(y)
                        if u is v:
                            x, y = u, v
                except Budget:
                    pass
        if x is y and not unknown_parts(x):
            out.append((name, DISCHARGED, '', None))
        else:
            todo.append((name, a, b, care))
    if todo:
        out += sample(todo, pre, samples or SAMPLES, seconds, tweak)
    return out


def unknown_parts(t):
    return terms.contains(t, lambda x: x.op == 'bad' or (x.op == 'app' and x.a[0] in ('unknown', 'unspecified'))) is not None


def sample(todo, pre, n, seconds, tweak=None):
    t0 = time.time()
    hints = evalt.hints_for([x for t in todo for x in t[1:4]] + [pre])
    hints['hot'], hints['hotfloats'] = evalt.hot([t[1:3] for t in todo])
    ways = {t[0]: evalt.partings(terms.AND(t[3], t[1]) if terms.is_bool(t[1]) else t[1], terms.AND(t[3], t[2]) if terms.is_bool(t[2]) else t[2]) for t in todo}
    small = {t[0]: evalt.counters(t[1], t[2]) for t in todo}
    found = {}
    hits = {t[0]: 0 for t in todo}
    good = {t[0]: 0 for t in todo}
    recipe = {}

    def attempt(V, live, how=None):
        """compare the two sides of the open obligations under one valuation"""
        try:
            p = V.ev(pre)
            if p is not True:
                return
        except (Skip, RecursionError):
            return
        for name, a, b, care in live:
            try:
                c = V.ev(care)
                if c is not True:
                    continue
                x = V.ev(a)
                y = V.ev(b)
                d = differ(x, y)
            except (Skip, RecursionError):
                continue
            except (TypeError, ValueError, OverflowError, AttributeError, KeyError, IndexError) as ex:
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                continue
            if x is not BAD and y is not BAD:
                good[name] += 1
            if d:
                hits[name] += 1
                if how is not None:
                    recipe.setdefault(name, how)
                if name not in found:
                    found[name] = (d, witness(V))

    def plain(sd):
        V = Valuation(sd, hints)
        if tweak:
            tweak(V)
        return V

    first = 1000 * int(os.environ.get('VERIF_SEED', '1') or 1)
    for s in range(n):
        if time.time() - t0 > seconds:
            break
        live = [t for t in todo if hits[t[0]] < 2]
        if not live:
            break
        sd = s + first
        how = None
        if s % 2:
            _, a, b, how = live[s // 2 % len(live)]
            if how is TRUE and terms.is_bool(b):
                how = (b, NOT(b))[s // 2 // len(live) % 2]
            V = evalt.repaired(sd, hints, how, tweak)
        elif s % 4 == 2 and ways[live[s // 4 % len(live)][0]]:
            w = ways[live[s // 4 % len(live)][0]]
            how = w[s // 4 // len(live) % len(w)]
            V = evalt.repaired(sd, hints, how, tweak)
        elif s % 16 == 0 and small[live[s // 16 % len(live)][0]]:
            V = Valuation(sd, hints)
            V.narrow = small[live[s // 16 % len(live)][0]]
            if tweak:
                tweak(V)
        else:
            V = plain(sd)
        attempt(V, live, how)
    # look again, longer, at what parts the two sides, and where they were once seen to differ
    for s in range(n // 2):
        live = [t for t in todo if hits[t[0]] < 2 and (ways[t[0]] or hits[t[0]])]
        if not live or time.time() - t0 > seconds:
            break
        t = live[s % len(live)]
        w = ways[t[0]]
        how = recipe.get(t[0]) if t[0] in recipe and (s // len(live) % 2 or not w) else w[s // len(live) % len(w)] if w else TRUE
        attempt(evalt.repaired(first + n + s, hints, how, tweak, 120), live, how)
    out = []
    for name, a, b, care in todo:
        if hits[name] >= 2:
            d, w = found[name]
            out.append((name, VIOLATED, 'at %s: the code yields %s, the specification %s' % (d[0] or 'value', d[1], d[2]), w))
        else:
            out.append((name, UNDECIDED, 'normal forms differ, no difference under %d valuations%s' % (
                good[name], ', 1 unconfirmed' if hits[name] else ''), None))
    return out


def witness(V):
    w = {}
    for k, v in list(V.memo.items()):
        if isinstance(k, terms.T):
            if k.op in ('sym', 'len', 'fld') or (k.op == 'app' and k.a[0] not in ('short', 'wfail')) or (k.op == 'idx'):
                if isinstance(v, (int, float, bool)):
                    w[show(k, 4)] = v
                elif k.op == 'sym':
                    w[show(k, 4)] = evalt.show_value(v, 4)[:160]
        if len(w) > 24:
            break
    return w


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.funcs = {}
        self.t0 = time.time()
        self.rules = []
        self.missing = []
        self.extra = {}

    def add(self, name, status, detail='', where='', witness=None, rule=''):
        self.obs.append(Ob(name, status, detail, where, witness, rule))

    def anchor_missing(self, what):
        self.missing.append(what)
        self.add('anchor: ' + what, UNDECIDED, 'not found in the current source')

    def guard(self, name, f, where=''):
        """run f; an analysis problem makes the obligation undecided"""
        try:
            return f()
        except (Unmodelled, Budget, RecursionError, Skip) as e:
            self.add(name, UNDECIDED, '%s: %s' % (type(e).__name__, e), where)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.add(name, UNDECIDED, 'analysis error %s: %s' % (type(e).__name__, e), where)
        return None

    def use(self, o):
        self.funcs.update(o.funcs)

    def same_outcome(self, name, impl, ref, observe=('ret',), pre=TRUE, throws=True, rule='', tweak=None, seconds=20):
        """the implementation's summary equals the reference's"""
        self.use(impl)
        where = impl.eng.prog.where(impl.fn) if impl.fn else ''
        pairs = []
        ti, tr = impl.thrown(), ref.thrown()
        ti2, tr2 = AND(pre, ti), AND(pre, tr)
        if throws:
            pairs.append((name + ': refused exactly when specified', ti2, tr2, pre))
        care = AND(pre, AND(impl.cond, ref.cond))
        for ob in observe:
            if callable(ob):
                a, b, label = ob(impl), ob(ref), ob.__name__
            else:
                a, b, label = impl.obs(ob), ref.obs(ob), ob
            pairs.append((name + ': ' + label, a, b, care))
        for nm, stt, det, w in decide_equal(pairs, pre, tweak=tweak, seconds=seconds):
            if stt == VIOLATED and (impl.notes or ref.notes):
                stt = UNDECIDED
            if impl.notes and stt != VIOLATED and stt != DISCHARGED:
                det += '; not modelled: ' + ', '.join(list(impl.notes)[:3])
            self.add(nm, stt, det, where, w, rule)

    def equal(self, name, a, b, pre=TRUE, where='', rule='', notes=()):
        for nm, stt, det, w in decide_equal([(name, a, b, pre)], pre):
            if stt == VIOLATED and notes:
                stt = UNDECIDED
            self.add(nm, stt, det, where, w, rule)

    def is_false(self, name, cond, where='', rule='', pre=TRUE, detail='', tweak=None):
        """the condition can never hold"""
        c = AND(pre, cond)
        if c is FALSE:
            self.add(name, DISCHARGED, '', where, None, rule)
            return
        for nm, stt, det, w in sample([(name, c, FALSE, TRUE)], pre, SAMPLES, 20, tweak):
            if stt == VIOLATED:
                det = detail or 'a path exists: ' + show(c, 4)[:200]
            self.add(name, stt, det, where, w, rule)

    # ------------------------------------------------------------- results
    def finish(self, tier='quick', verif='/verif'):
        viol = [o for o in self.obs if o.status == VIOLATED]
        und = [o for o in self.obs if o.status == UNDECIDED]
        dis = [o for o in self.obs if o.status == DISCHARGED]
        known = known_findings(self.pid, verif)
        real, listed = [], []
        for o in viol:
            k = [x for x in known if x == o.name]
            (listed if k else real).append(o)
        out = os.environ.get('VERIF_EVIDENCE') or os.path.join(verif, 'evidence')
        os.makedirs(out, exist_ok=True)
        replay = os.path.join(out, self.pid + '.violation.txt')
        ev = dict(property=self.pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(
                      explanation='Static analysis of the current source: %d obligations over %d functions; %d discharged, '
                      '%d violated, %d undecided.' % (len(self.obs), len(self.funcs), len(dis), len(viol), len(und)),
                      rules=self.rules,
                      obligations=len(self.obs), discharged=len(dis), undecided=[o.json() for o in und],
                      violations=[o.json() for o in viol],
                      items=[o.name for o in dis],
                      functions=sorted('%s (%s)' % (k, v) for k, v in self.funcs.items()), **self.extra),
                  wall_s=round(time.time() - self.t0, 2))
        with open(os.path.join(out, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d violated, %d undecided, %d functions, %.1f s' % (
            self.pid, len(self.obs), len(dis), len(viol), len(und), len(self.funcs), time.time() - self.t0))
        if os.environ.get('VERIF_VERBOSE'):
            for o in und + dis:
                print('  %s %s [%s] %s' % (o.status, o.name, o.where, o.detail))
        for o in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, o.name))
        if real:
            with open(replay, 'w') as f:
                for o in real:
                    f.write('%s\n  where: %s\n  rule: %s\n  %s\n  inputs: %s\n\n' % (o.name, o.where, o.rule, o.detail, json.dumps(
                        o.witness, default=str)))
            for o in real[:8]:
                print('  violated: %s [%s] %s' % (o.name, o.where, o.detail))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        if not dis:
            print('%s: nothing could be decided' % self.pid)
        return 0


def known_findings(pid, verif):
    out = []
    try:
        for l in open(os.path.join(verif, 'KNOWN_FINDINGS.txt')):
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split('|', 1)[1].strip())
    except OSError:
        pass
    return out
