"""How zlib is driven."""
from common import *
from registry import check
import stubs
import evalt
import models
from c_io import VG
from syntax import *

Z = 'z_stream_s'


def init(kind):
    def go(eng, st, fr, fn, this, args, node):
        s = eng.read(st, args[0])
        level = args[1] if kind == 'deflate' else ZERO
        a = [fld(s, f) for f in ('zalloc', 'zfree', 'opaque', 'avail_in')] + [level]
        eng.write(st, args[0], set_fld(s, 'state', app('z.ready', 'item', mk('strc', kind), *a)))
        return app('z.init', 'i32', mk('strc', kind), *a)
    return go


def step(kind):
    def go(eng, st, fr, fn, this, args, node):
        s = eng.read(st, args[0])
        n, m = fld(s, 'avail_in'), fld(s, 'avail_out')
        b = SEQ0
        if n is not ZERO:
            p = fld(s, 'next_in')
            r = models.region(eng, st, p, n) if p.op == 'ptr' else None
            if r is None:
                eng.note('input of zlib', node, fr.prog)
                return bad('input')
            b = models.as_bytes(eng, st, r)
        x = (mk('strc', kind), fld(s, 'state'), b, m, args[1])
        u, o = app('z.used', 'u32', *x), app('z.out', 'vec<u8>', *x)
        q = fld(s, 'next_out')
        r = models.region(eng, st, q, length(o)) if q.op == 'ptr' else None
        if r is None or len(r) != 1 or r[0][0] != 'r':
            eng.note('output of zlib', node, fr.prog)
            return bad('output')
        _, base, lo, k, ty, off = r[0]
        old = eng.read(st, base)
        if k is not length(o):
            eng.note('output of zlib', node, fr.prog)
            return bad('output')
        # what lies behind the output is never defined
        rest = models.rep(sub(sub(length(old), lo), length(o)), app('z.rest', 'u8'))
        eng.write(st, base, cat(o, rest) if lo is ZERO else cat(slc(old, ZERO, lo), o, rest))
        s = set_fld(s, 'state', app('z.state', 'item', *x))
        s = set_fld(s, 'avail_in', sub(n, u))
        s = set_fld(s, 'avail_out', sub(m, length(o)))
        s = set_fld(s, 'next_in', absint.ptr_add(fld(s, 'next_in'), u) if n is not ZERO else fld(s, 'next_in'))
        eng.write(st, args[0], s)
        return app('z.ret', 'i32', *x)
    return go


DRIVE = {'deflateInit_': init('deflate'), 'inflateInit_': init('inflate'), 'deflate': step('deflate'), 'inflate': step('inflate')}


SCALE = {'1048576': '8', '4294967295': '5'}


def largest(eng, st, fr, fn, this, args, node):
    ty = fr.prog.ty(fn['ret'])
    return I(int(SCALE['4294967295'])) if ty == 'u32' else NotImplemented


def scaled(prog):
    """the program with other buffer and block sizes, so that small inputs fill the buffers"""
    todo = [prog.d]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get('cv') in SCALE:
                x['cv'] = SCALE[x['cv']]
            todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
        else:
            todo.extend(v for v in x if isinstance(v, (dict, list)))
    return prog


LENGTHS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 24)


def short_input(V):
    V.memo['streams'] = True
    V.memo[('short', evalt.stream_key('a0'))] = V.hash('input').choice(LENGTHS)
    n = V.hash('length').choice(LENGTHS)
    V.overrides['a0'] = evalt.Seq(n, lambda i: V.hash('byte', i).choice((1, 2, 4, 5, 0x15, 0x55, V.hash('any', i).randrange(256))))


def drive(ck, name, observe=('ret',)):
    def go():
        P = harness('zlib')
        for Q in (P, None):
            if Q is None:
                Q = scaled(ready(facts(os.path.join(VERIF, 'harness', 'zlib.cpp'), FLAGS + ['-DNDEBUG'])))
            fi, fr = one(Q, 'vi::' + name), one(Q, 'vs::' + name)
            if fi is None or fr is None:
                ck.anchor_missing(name)
                return
            st = DRIVE if Q is P else dict(DRIVE, **{'std::numeric_limits::max': largest})
            i, r = summarise(Q, fi, stubs=st), summarise(Q, fr, stubs=st)
            if Q is P:
                same = Check(ck.pid)
                same.same_outcome(name, i, r, observe, seconds=0.01)
                if all(o.status == DISCHARGED for o in same.obs):
                    break
        ck.same_outcome(name, i, r, observe, rule=VG, tweak=short_input)
    ck.guard(name, go)


@check('C07', VG, 'deflate and inflate are unknown functions of their state, the input and the space given to them.')
def zlib(ck, tier):
    for n in ('pack', 'pack_block', 'unpack'):
        drive(ck, n)
    drive(ck, 'unpack_block', ('a1',))
    for n in ('pack_stream', 'unpack_stream'):
        drive(ck, n, ('a1.items',))


FED = ('Definite assignment: every entry that reaches deflate or inflate sets next_in and next_out of the stream to something that is not null '
       '(in its own body or in a function that it reaches).')
ENTRIES = ('deflate', 'inflate')


@check('C07', FED)
def fed(ck, tier):
    P = harness('zlib')
    fs = {f['q'] + str(k): f for k, f in enumerate(mine(P)) if not f['q'].startswith(('vi::', 'vs::'))}
    names = {id(f): n for n, f in fs.items()}
    reach = {n: set(names[id(g)] for _, g in calls(P, bodies(f)) if id(g) in names) for n, f in fs.items()}
    uses = {n: [x for x, g in calls(P, bodies(f)) if g['q'] in ENTRIES and x['k'] == 'call'] for n, f in fs.items()}

    def closure(n):
        r, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x not in r:
                r.add(x)
                todo += reach[x]
        return r
    cl = {n: closure(n) for n in fs}
    top = [n for n in fs if any(uses[m] for m in cl[n])]
    called = {m for n in top for m in cl[n] if m != n}
    bad, good = [], []
    for n in top:
        if n in called:
            continue
        for field in ('next_in', 'next_out'):
            sets = [x for m in cl[n] for x in nodes(bodies(fs[m])) if sets_field(P, x, field)]
            w = '%s %s: %s' % (P.where(fs[n]), fs[n]['q'], field)
            (good if sets else bad).append(w if sets else w + ' is never given anything')
    if not good and not bad:
        return ck.anchor_missing('a caller of deflate or inflate')
    decide(ck, 'zlib is given its input and its output', bad, good, FED)


def bare(x):
    while x['k'] in ('cast', 'paren'):
        x = x['e']
    return x


def sets_field(P, x, field):
    if x['k'] == 'asgn' and x.get('op') == '=':
        a, b = bare(x['a']), bare(x['b'])
        return a['k'] == 'mem' and a['f'] == field and b.get('cv') != '0' and b['k'] != 'nullptr'
    return False


ENDS = {'deflateInit_': 'deflateEnd', 'deflateInit2_': 'deflateEnd', 'inflateInit_': 'inflateEnd', 'inflateInit2_': 'inflateEnd'}
RAII = ('Ownership: a zlib stream is initialised in the constructor of a class whose destructor ends it once on every path, or it is ended on '
        'every path of the function; objects of such a class are not copied.')


def stream_of(n):
    """the member or variable whose address a call gets"""
    for x in nodes(n['args'][0]):
        if x['k'] in ('mem', 'ref'):
            return x.get('f') or x.get('v')
    return None


def statements(b):
    return b['s'] if b and b['k'] == 'block' else [b]


@check('C07', RAII)
def owned(ck, tier):
    P = harness('zlib')
    fs = [f for f in mine(P) if not f['q'].startswith(('vi::', 'vs::'))]
    owners, bad, good = {}, [], []
    for f in fs:
        for n, c in calls(P, bodies(f)):
            if c['q'] not in ENDS or n['k'] != 'call':
                continue
            if f.get('kind') == 'ctor':
                owners.setdefault(f['rec'], []).append((f, n, c))
                continue
            # a plain function: it has to end the stream itself
            seen, ended, why = False, False, None
            for x in nodes(f['body']):
                if x is n:
                    seen = True
                elif seen and not ended:
                    g = callee(P, x)
                    if g and g['q'] == ENDS[c['q']]:
                        ended = True
                    elif x['k'] in ('throw', 'ret') and why is None:
                        why = x
            if not ended:
                bad.append('%s %s: %s without %s' % (at(P, n), f['q'], c['q'], ENDS[c['q']]))
            else:
                good.append('%s %s' % (at(P, n), c['q']))
                if why is not None:
                    ck.add('%s ends its zlib stream on every path' % f['q'], UNDECIDED, 'leaves at %s' % at(P, why), at(P, n))
    for r, l in owners.items():
        R = P.recs[r]
        d = [f for f in fs if f.get('rec') == r and f.get('kind') == 'dtor']
        for f, n, c in l:
            end = ENDS[c['q']]
            es = [(x, g) for x, g in calls(P, d[0]['body']) if g['q'] == end] if d else []
            # once, unconditionally, on the same stream
            top = [s for s in statements(d[0]['body']) if any(callee(P, x) and callee(P, x)['q'] == end for x in nodes(s))] if d else []
            if not es:
                bad.append('%s: %s has no destructor that calls %s' % (at(P, n), R['name'], end))
            elif len(es) > 1:
                bad.append('%s: %s is called %d times' % (at(P, es[1][0]), end, len(es)))
            elif top[0]['k'] != 'expr':
                ck.add('%s always ends its stream' % R['name'], UNDECIDED, 'conditional', at(P, es[0][0]))
            elif stream_of(es[0][0]) != stream_of(n):
                bad.append('%s: %s ends another stream' % (at(P, es[0][0]), end))
            else:
                good.append('%s: %s ends it at %s' % (at(P, n), R['name'], at(P, es[0][0])))
    for f in fs:
        for n, g in calls(P, bodies(f)):
            if g['q'] in ENDS.values() and f.get('kind') != 'dtor' and f.get('rec') in owners:
                bad.append('%s: %s outside the destructor' % (at(P, n), g['q']))
            if n['k'] == 'ctor' and g.get('rec') in owners and g.get('special') in ('copy', 'move'):
                bad.append('%s: %s is copied' % (at(P, n), P.recs[g['rec']]['name']))
            elif n['k'] == 'ctor' and g.get('rec') in owners:
                good.append('%s: constructs %s' % (at(P, n), P.recs[g['rec']]['name']))
    decide(ck, 'every zlib stream is ended exactly once and not shared', bad, good, RAII)
