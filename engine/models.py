"""Models of the standard library (and zlib as an opaque device)."""
from terms import *
import terms
from absint import *
from absint import St, Exit, Frame
import absint

OVERRIDE = set()


# ------------------------------------------------------------------ streams
def new_stream(name, fail=FALSE):
    return mk_struct(STREAM, [SEQ0, fail, FALSE, ZERO, name if isinstance(name, T) else S(name), TRUE, mk('fmt', ())])


def global_object(q):
    if q in ('std::cout', 'std::cerr', 'std::clog', 'std::cin'):
        return new_stream(q)
    return None


def input_stream(name):
    """an input stream at position 0 that has not failed"""
    return new_stream(name)


def may_alias(a, b):
    return False


# ------------------------------------------------------------------- values
def moved(v, ty):
    if ty == 'str' or ty.startswith(('vec<',)):
        return SEQ0
    if ty.startswith(('map<', 'set<')):
        return mk('map0')
    if is_rec(ty):
        return mk_struct(ty, [moved(fld(v, f[0]), f[1]) for f in RECORDS[ty]['fields']])
    return v


def struct_eq(a, b):
    y = tyof(a)
    if is_rec(y):
        return ALL([struct_eq(fld(a, f[0]), fld(b, f[0])) for f in RECORDS[y]['fields']])
    return equal(a, b)


HIER = {
    'std::exception': None,
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception',
    'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
    'std::domain_error': 'std::logic_error', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::ios_base::failure': 'std::runtime_error', 'std::bad_function_call': 'std::exception', 'std::bad_any_cast': 'std::exception',
    'std::filesystem::filesystem_error': 'std::runtime_error',
}


def exc_matches(val, want):
    w = want[7:] if want.startswith('opaque:') else want
    if val.op != 'exc':
        return w == 'std::exception'
    t = val.a[0]
    while t:
        if t == w:
            return True
        t = HIER.get(t)
    return False


def make_exc(ty, msg):
    return mk('exc', ty, msg)


# --------------------------------------------------------------------- maps
def map_get(m, k):
    if m.op == 'ite':
        return ite(m.a[0], map_get(m.a[1], k), map_get(m.a[2], k))
    if m.op == 'put':
        return ite(equal(k, m.a[1]), m.a[2], map_get(m.a[0], k))
    if m.op == 'map0':
        return UNDEF
    if m.op in ('bad', 'undef'):
        return m
    y = tyof(m)
    vt = y[4:-1].split('|', 1)[1] if y.startswith('map<') else 'any'
    return app('mapget', vt, m, k)


def map_has(m, k):
    if m.op == 'ite':
        return ite(m.a[0], map_has(m.a[1], k), map_has(m.a[2], k))
    if m.op == 'put':
        return OR(equal(k, m.a[1]), map_has(m.a[0], k))
    if m.op == 'map0':
        return FALSE
    if m.op in ('bad', 'undef'):
        return m
    return app('maphas', 'bool', m, k)


def map_put(m, k, v):
    if m.op == 'ite':
        return ite(m.a[0], map_put(m.a[1], k, v), map_put(m.a[2], k, v))
    if m.op == 'put' and m.a[1] is k:
        return map_put(m.a[0], k, v)
    # keys that certainly differ are kept in order
    if m.op == 'put' and equal(m.a[1], k) is FALSE and k.id < m.a[1].id:
        return mk('put', map_put(m.a[0], k, v), m.a[1], m.a[2])
    if m.op == 'put' and equal(m.a[1], k) is FALSE:
        # replace an older entry for the same key
        inner = map_drop(m.a[0], k)
        if inner is not m.a[0]:
            return mk('put', mk('put', inner, m.a[1], m.a[2]), k, v)
    return mk('put', m, k, v)


def map_drop(m, k):
    if m.op != 'put':
        return m
    if m.a[1] is k:
        return map_drop(m.a[0], k)
    i = map_drop(m.a[0], k)
    return m if i is m.a[0] else mk('put', i, m.a[1], m.a[2])


def _reb_put(m, k, v):
    return map_put(m, k, v)


REB['put'] = _reb_put
APPRULES['mapget'] = lambda ty, m, k: map_get(m, k) if m.op in ('put', 'ite', 'map0') else None
APPRULES['maphas'] = lambda ty, m, k: map_has(m, k) if m.op in ('put', 'ite', 'map0') else None


def map_entries(m, ty):
    """entries of a map in iteration order (sorted), as a sequence of pairs"""
    items = []
    t = m
    while t.op == 'put':
        items.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t.op != 'map0':
        pt = 'opaque:entry'
        if ty.startswith('map<'):
            a, b = ty[4:-1].split('|', 1)
            for r in RECORDS:
                if r.startswith('std::pair<') and r[10:-1] in ('%s,%s' % (a, b),):
                    pt = r
            if pt == 'opaque:entry':
                pt = 'std::pair<%s,%s>' % (a, b)
                RECORDS[pt] = dict(fields=[('first', a, 0), ('second', b, 0)], size=0)
        elif ty.startswith('set<'):
            pt = ty[4:-1]
        return app('entries', 'vec<%s>' % pt, m)
    return None


# -------------------------------------------------------------- call helper
class C:
    def __init__(self, eng, st, fr, fn, this, a, isref, n, prog):
        self.eng, self.st, self.fr, self.fn, self.this, self.a, self.isref, self.n, self.prog = eng, st, fr, fn, this, a, isref, n, prog

    def v(self, i):
        x = self.a[i]
        return self.eng.read(self.st, x) if self.isref[i] else x

    def p(self, i):
        if self.isref[i]:
            return self.a[i]
        root = self.eng.newroot(tyof(self.a[i]))
        self.st.store[root] = self.a[i]
        return ptr(root)

    def self(self):
        return self.eng.read(self.st, self.this)

    def setself(self, v):
        self.eng.write(self.st, self.this, v)

    def ty(self, i):
        return self.prog.ty(self.fn['params'][i]['t'])

    def nargs(self):
        return len(self.a)

    def throw(self, cond, ty, msg=None):
        """throw when cond"""
        st, fr = self.st, self.fr
        cond = st.simp(cond)
        if cond is FALSE or st.dead:
            return
        self.eng.add_exit(fr, Exit('throw', AND(st.cond, cond), make_exc(ty, msg or SEQ0), dict(st.store), st.pc, self.prog.where(self.n) if self.n else None))
        st.restrict(NOT(cond))
        if cond is TRUE:
            st.cond = FALSE


M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def call(eng, n, fn, this, st, fr):
    prog = fr.prog
    q = fn['q']
    f = M.get(q)
    if f is None:
        f = M.get(q.replace('std::', '').replace('__cxx11::', ''))
    if f is None:
        if fn.get('kind') == 'conv' or fn['n'].startswith('operator '):
            f = M.get('(conversion)')
    if f is None:
        for a in n['args']:
            eng.ev(a, st, fr)
        return eng.note('library function ' + q, n, prog)
    a = eng.args_for(fn, n['args'], st, fr, prog)
    if st.dead:
        return UNDEF
    isref = [i < len(fn['params']) and prog.types[fn['params'][i]['t']]['k'] == 'ref' for i in range(len(a))]
    c = C(eng, st, fr, fn, this, a, isref, n, prog)
    r = f(c)
    retref = prog.types[fn['ret']]['k'] == 'ref'
    if retref and not n.get('lv'):
        return eng.read(st, r)
    if n.get('lv') and not retref:
        return c.p_of(r)
    return r


def call_values(eng, fn, this, vals, st, fr, n, prog):
    q = fn['q']
    f = M.get(q) or M.get(q.replace('std::', ''))
    if q in eng.stubs:
        return eng.stubs[q](eng, st, fr, fn, this, vals, n)
    if f is None:
        return eng.note('library function ' + q, n, prog)
    isref = [i < len(fn['params']) and prog.types[fn['params'][i]['t']]['k'] == 'ref' for i in range(len(vals))]
    r = f(C(eng, st, fr, fn, this, vals, isref, n, prog))
    if prog.types[fn['ret']]['k'] == 'ref' and isptr(r):
        return r
    return r


def call_builtin_functor(eng, c, argps, st, fr, n):
    k = c.a[0]
    vals = [eng.read(st, p) for p in argps]
    if k in ('less', 'greater', 'equal_to', 'plus', 'minus', 'multiplies', 'not_equal_to', 'less_equal', 'greater_equal'):
        op = {'less': '<', 'greater': '>', 'equal_to': '==', 'not_equal_to': '!=', 'less_equal': '<=', 'greater_equal': '>='}.get(k)
        if op:
            return eng.compare(op, vals[0], vals[1])
        op = {'plus': '+', 'minus': '-', 'multiplies': '*'}[k]
        return eng.arith(op, vals[0], vals[1], 'f64' if is_float(vals[0]) else 'i64', st)
    return eng.note('functor ' + k, n, fr.prog)


def call_unknown_fn(eng, c, argps, st, fr, n):
    """a function value that is an input of the analysed function: its effect
    is one event, in order, with the values of its arguments"""
    vals = [eng.read(st, p) for p in argps]
    tr = st.store.get(('g', 'calls'), SEQ0)
    ev = app('callback', 'item', c, *vals)
    st.store[('g', 'calls')] = cat(tr, lit(ev))
    ty = 'any'
    if isinstance(n, dict) and n.get('t') is not None:
        ty = fr.prog.ty(n['t'])
    return app('result', ty, c, *vals)


# ------------------------------------------------------------ constructors
def construct(eng, n, fn, ty, st, fr):
    prog = fr.prog
    a = eng.args_for(fn, n['args'], st, fr, prog)
    if st.dead:
        return UNDEF
    isref = [i < len(fn['params']) and prog.types[fn['params'][i]['t']]['k'] == 'ref' for i in range(len(a))]
    c = C(eng, st, fr, fn, None, a, isref, n, prog)
    q = fn['q']
    # allocators
    while c.nargs() and c.ty(c.nargs() - 1).startswith('opaque:std::allocator'):
        c.a.pop()
    if fn.get('special') == 'move' and c.nargs() == 1:
        v = c.v(0)
        if isref[0] and n['args'][0].get('lv') and a[0].op == 'ptr':
            eng.write(st, a[0], moved(v, ty))
        return v
    if fn.get('special') == 'copy' and c.nargs() == 1:
        return c.v(0)
    if ty.startswith('vec<') or ty == 'str' or ty.startswith('arr<'):
        return ctor_seq(c, ty)
    if ty.startswith(('map<', 'set<')):
        if c.nargs() == 0 or not is_seq(c.v(0)) and not isptr(c.v(0)):
            return mk('map0')
        s = c.v(0)
        if is_seq(s) and s.op == 'lit':
            m = mk('map0')
            for e in s.a:
                if ty.startswith('set<'):
                    if map_has(m, e) is not TRUE:
                        m = map_put(m, e, TRUE)
                else:
                    m = map_put(m, fld(e, 'first'), fld(e, 'second'))
            return m
        if isptr(s):
            rng_ = seq_range(c, 0)
            if rng_ and ty.startswith('set<'):
                return app('setof', ty, slice_of(c, rng_))
        if is_seq(s) and ty.startswith('set<'):
            return app('setof', ty, s)
        return eng.note('map constructor', n, prog)
    if ty == STREAM:
        if c.nargs() == 0:
            return new_stream('?')
        name = tostr(c, 0)
        if 'stringstream' in q or 'istringstream' in q:
            s = new_stream('?')
            return set_fld(s, 'items', name)
        mode = 'w' if 'ofstream' in q else 'r'
        return open_stream(c, name, mode)
    if q.startswith('std::pair::'):
        if c.nargs() == 0:
            return eng.zero(ty)
        if c.nargs() == 2:
            fs = RECORDS[ty]['fields']
            return mk_struct(ty, [eng.convert(c.v(0), tyof(c.v(0)), fs[0][1]), eng.convert(c.v(1), tyof(c.v(1)), fs[1][1])])
        if c.nargs() == 1:
            v = c.v(0)
            return mk_struct(ty, [fld(v, 'first'), fld(v, 'second')]) if is_rec(tyof(v)) else v
    if q.startswith('std::tuple::'):
        return mk_struct(ty, [c.v(i) for i in range(c.nargs())])
    base = q.rsplit('::', 1)[0]
    if base in HIER:
        return make_exc(base, tostr(c, 0) if c.nargs() else SEQ0)
    if ty == 'fn':
        if c.nargs() == 0:
            return mk('nofn')
        v = c.v(0)
        return v
    if ty == 'any':
        if c.nargs() == 0:
            return mk('noany')
        v = c.v(0)
        if tyof(v) == 'any' or v.op in ('any', 'noany'):
            return v
        aty = c.ty(0)
        return mk('any', aty, v)
    if ty.startswith('optional<'):
        if c.nargs() == 0:
            return mk('none')
        v = c.v(0)
        return mk('none') if tyof(v) == 'opaque:std::nullopt_t' else mk('some', v)
    if ty == 'ptr':
        return c.v(0) if c.nargs() else NULL
    t = ty[7:] if ty.startswith('opaque:') else ty
    if t.startswith('std::linear_congruential_engine') or t.startswith('std::mersenne_twister_engine'):
        return app('rng', ty, c.v(0) if c.nargs() else app('default_seed', 'u64'))
    if 'distribution' in t:
        kind = t.split('<')[0].replace('std::', '')
        d = {'std::normal_distribution': [F(0.0), F(1.0)], 'std::uniform_real_distribution': [F(0.0), F(1.0)]}.get('std::' + kind, [])
        args = [c.v(i) for i in range(c.nargs())]
        args = args + d[len(args):]
        return app(kind, ty, *args)
    if t.startswith('std::hash') or t.startswith('std::less') or t.startswith('std::greater') or t.startswith('std::equal_to') or t.startswith('std::plus') or t.startswith('std::minus'):
        return mk('refl', t[5:].split('<')[0])
    if t.startswith('std::filesystem::') and t.endswith('path'):
        return app('path', ty, tostr(c, 0))
    if 'random_device' in t:
        return app('random_device', ty)
    if t == 'z_stream_s':
        return eng.zero(ty)
    if t.startswith('std::allocator'):
        return UNDEF
    if not c.nargs():
        return eng.zero(ty)
    return eng.note('constructor ' + q, n, prog)


def ctor_seq(c, ty):
    eng = c.eng
    k = c.nargs()
    if ty == 'str':
        if k == 0:
            return SEQ0
        if k == 1:
            return tostr(c, 0)
        if c.ty(0) == 'ptr' and c.ty(1) in INTS:
            v = c.v(0)
            return slc(cstr(c, v), ZERO, c.v(1))
        if c.ty(0) in INTS:
            return rep(c.v(0), c.v(1))
        if c.ty(0) == 'ptr':
            r = seq_range(c, 0)
            if r:
                return slice_of(c, r)
        if c.ty(0) == 'str' and k == 2:
            return slc(c.v(0), c.v(1), length(c.v(0)))
        if c.ty(0) == 'str' and k == 3:
            return substr(c, c.v(0), c.v(1), c.v(2))
        return eng.note('string constructor', c.n, c.prog)
    et = elem_ty(ty)
    if k == 0:
        return SEQ0
    if k == 1:
        if is_vec(c.ty(0)):
            return c.v(0)
        return rep(c.v(0), eng.zero(et) if not is_rec(et) else default_value(c, et))
    if k >= 2 and c.ty(0) in INTS and not c.ty(0) == 'ptr':
        v = c.v(1)
        return rep(c.v(0), eng.convert(v, tyof(v), et))
    r = seq_range(c, 0)
    if r:
        s = slice_of(c, r)
        return conv_seq(eng, s, et)
    return eng.note('vector constructor', c.n, c.prog)


def conv_seq(eng, s, et):
    """elements converted to type et"""
    f = ety(s)
    if f == et or f is None or f not in INTS and f not in ('f64', 'f32', 'bool', 'int'):
        return s
    if s.op == 'lit':
        return lit(*[eng.convert(x, f, et) for x in s.a])
    k = tmp('nat', 'k')
    return mk_comp(length(s), k, eng.convert(idx(s, k), f, et))


def default_value(c, et):
    """a value-initialised element of record type et"""
    eng, prog = c.eng, c.prog
    for f in prog.fns:
        if f and f.get('kind') == 'ctor' and f.get('special') == 'default' and 'body' in f and prog.recty(f['rec']) == et:
            root = eng.newroot(et, hint='o')
            c.st.store[root] = mk_struct(et, [UNDEF] * len(RECORDS[et]['fields']))
            eng.call_fn(prog, f, ptr(root), [], c.st, c.fr, c.n)
            return c.st.store[root]
    return eng.zero(et)


# ------------------------------------------------------------------ strings
def cstr(c, p):
    """string that a char pointer designates"""
    if p.op == 'ite':
        return ite(p.a[0], cstr(c, p.a[1]), cstr(c, p.a[2]))
    if is_seq(p):
        return p
    if p.op == 'ptr':
        root, path = p.a
        if path and path[-1][0] == 'i':
            base = mk('ptr', root, path[:-1])
            s = c.eng.read(c.st, base)
            if is_seq(s):
                if path[-1][1] is ZERO:
                    return s
                return slc(s, path[-1][1], length(s))
        v = c.eng.read(c.st, p)
        if is_seq(v):
            return v
    return app('cstr', 'str', p)


def tostr(c, i):
    v = c.v(i)
    if is_seq(v):
        return v
    if isptr(v):
        return cstr(c, v)
    y = tyof(v)
    if is_int(v):
        return lit(v) if v.op != 'i' else S(chr(v.a[0] & 255))
    if v.op == 'app' and v.a[0] == 'path':
        return v.a[2]
    return app('str', 'str', v)


def substr(c, s, lo, n):
    hi = add(lo, n)
    L = length(s)
    if n.op == 'i' and n.a[0] >= 2**63:
        return slc(s, lo, L)
    cond = c.st.simp(lt(hi, L))
    hi2 = ite(cond, hi, L)
    if c.st.simp(equal(hi, L)) is TRUE:
        hi2 = L
    if s.op == 'strc' and lo.op == 'i' and hi2.op == 'i':
        return slc(s, lo, hi2)
    return slc(s, lo, hi2)


@model('basic_string::substr')
def _(c):
    s = c.self()
    lo = c.v(0) if c.nargs() > 0 else ZERO
    n = c.v(1) if c.nargs() > 1 else I(2**64 - 1)
    c.throw(lt(length(s), lo), 'std::out_of_range')
    return substr(c, s, lo, n)


@model('basic_string::find', 'basic_string::rfind', 'basic_string::find_first_of', 'basic_string::find_last_of', 'basic_string::find_first_not_of')
def _(c):
    s = c.self()
    x = tostr(c, 0)
    p = c.v(1) if c.nargs() > 1 else ZERO
    if s.op == 'strc' and x.op == 'strc' and p.op == 'i' and c.fn['n'] == 'find':
        r = s.a[0].find(x.a[0], p.a[0])
        return I(r if r >= 0 else 2**64 - 1)
    return app('str' + c.fn['n'], 'u64', s, x, p)


@model('basic_string::starts_with')
def _(c):
    s, x = c.self(), tostr(c, 0)
    n = length(x)
    return AND(le(n, length(s)), seqeq(slc(s, ZERO, n), x))


@model('basic_string::ends_with')
def _(c):
    s, x = c.self(), tostr(c, 0)
    n, m = length(x), length(s)
    return AND(le(n, m), seqeq(slc(s, sub(m, n), m), x))


@model('basic_string::compare')
def _(c):
    return app('strcmp', 'i32', c.self(), tostr(c, 0))


@model('basic_string::c_str', 'basic_string::data', 'vector::data', 'array::data')
def _(c):
    return ptr_index(c.this, ZERO)


@model('basic_string::append', 'basic_string::operator+=')
def _(c):
    c.setself(cat(c.self(), tostr(c, 0)))
    return c.this


@model('operator+')
def _(c):
    if c.ty(0) in ('str', 'ptr', 'i8') and c.ty(1) in ('str', 'ptr', 'i8') and 'str' in (c.ty(0), c.ty(1)):
        return cat(tostr(c, 0), tostr(c, 1))
    return c.eng.binop('+', c.v(0), c.v(1), c.prog.ty(c.fn['ret']), c.st, c.fr, dict(a=c.n['args'][0], b=c.n['args'][1]))


@model('basic_string::erase')
def _(c):
    s = c.self()
    if c.nargs() and isptr(c.v(0)):
        return seq_erase(c)
    lo = c.v(0) if c.nargs() else ZERO
    n = c.v(1) if c.nargs() > 1 else I(2**64 - 1)
    c.throw(lt(length(s), lo), 'std::out_of_range')
    L = length(s)
    if n.op == 'i' and n.a[0] >= 2**63:
        hi = L
    else:
        hi = add(lo, n)
        hi = ite(c.st.simp(lt(hi, L)), hi, L)
    c.setself(cat(slc(s, ZERO, lo), slc(s, hi, L)))
    return c.this


@model('to_string')
def _(c):
    v = c.v(0)
    if is_float(v):
        return app('ftoa6', 'str', v)
    return app('dec', 'str', v)


NUM = {'stoi': 'i32', 'stol': 'i64', 'stoul': 'u64', 'stoull': 'u64', 'stoll': 'i64', 'stod': 'f64', 'stof': 'f32'}


@model(*NUM)
def _(c):
    s = tostr(c, 0)
    k = c.fn['n']
    c.throw(app('not_' + k, 'bool', s), 'std::invalid_argument', S(k))
    if c.nargs() > 1:
        q = c.v(1)
        if q is not NULL and isptr(q):
            c.eng.write(c.st, q, app('len_' + k, 'u64', s))
    return app(k, NUM[k], s)


@model('atoi', 'atol', 'atoll', 'atof')
def _(c):
    k = c.fn['n']
    return app(k, {'atoi': 'i32', 'atof': 'f64'}.get(k, 'i64'), tostr(c, 0))


@model('isalnum', 'isalpha', 'isdigit', 'isspace', 'toupper', 'tolower', 'isupper', 'islower')
def _(c):
    return app(c.fn['n'], 'i32', c.v(0))


@model('strcmp')
def _(c):
    return app('strcmp', 'i32', tostr(c, 0), tostr(c, 1))


@model('strlen')
def _(c):
    return length(tostr(c, 0))


# ---------------------------------------------------------------- sequences
@model('vector::size', 'basic_string::size', 'basic_string::length', 'initializer_list::size', 'array::size', 'size')
def _(c):
    s = c.self() if c.this is not None else c.v(0)
    return length(s)


@model('vector::empty', 'basic_string::empty', 'array::empty', 'empty')
def _(c):
    s = c.self() if c.this is not None else c.v(0)
    return equal(length(s), ZERO)


@model('vector::capacity', 'vector::max_size')
def _(c):
    return app('capacity', 'u64', c.self())


@model('vector::operator[]', 'basic_string::operator[]', 'array::operator[]')
def _(c):
    return ptr_index(c.this, c.v(0))


@model('vector::at', 'basic_string::at', 'array::at')
def _(c):
    c.throw(NOT(lt(c.v(0), length(c.self()))), 'std::out_of_range')
    return ptr_index(c.this, c.v(0))


@model('vector::front', 'basic_string::front', 'array::front')
def _(c):
    return ptr_index(c.this, ZERO)


@model('vector::back', 'basic_string::back', 'array::back')
def _(c):
    return ptr_index(c.this, sub(length(c.self()), ONE))


@model('begin', 'cbegin')
def _(c):
    return begin_of(c, c.p(0))


@model('end', 'cend')
def _(c):
    return end_of(c, c.p(0))


@model('vector::begin', 'vector::cbegin', 'basic_string::begin', 'basic_string::cbegin', 'initializer_list::begin', 'array::begin', 'array::cbegin',
       'map::begin', 'unordered_map::begin', 'unordered_set::begin', 'set::begin', 'map::cbegin')
def _(c):
    return begin_of(c, c.this)


@model('vector::end', 'vector::cend', 'basic_string::end', 'basic_string::cend', 'initializer_list::end', 'array::end', 'array::cend',
       'map::end', 'unordered_map::end', 'unordered_set::end', 'set::end', 'map::cend')
def _(c):
    return end_of(c, c.this)


def ismap(v):
    if v.op in ('fold', 'mu'):
        return ismap(v.a[2][v.a[0]] if v.op == 'fold' else v.a[1][v.a[0]])
    return v.op in ('map0', 'put') or tyof(v).startswith(('map<', 'set<')) or (v.op == 'ite' and (ismap(v.a[1]) or ismap(v.a[2])))


def begin_of(c, p):
    v = c.eng.read(c.st, p)
    if ismap(v):
        ents = map_entries(v, c.eng.pathty(*p.a)) if p.op == 'ptr' else None
        if ents is not None:
            root = ('entries', p.a, ents)
            c.st.store[root] = ents
            c.eng.rootty[root] = tyof(ents)
            return ptr_index(ptr(root), ZERO)
        return mk('mapit', p, 'begin')
    return ptr_index(p, ZERO)


def end_of(c, p):
    v = c.eng.read(c.st, p)
    if ismap(v):
        return mk('mapit', p, 'end')
    return ptr_index(p, length(v))


def entry_of(a, b):
    """a iterates over the entries of the map whose end b is"""
    return a.op == 'ptr' and a.a[0][0] == 'entries' and b.op == 'mapit' and b.a[1] == 'end' and b.a[0].a == a.a[0][1]


def mapit_eq(a, b):
    if b.op == 'ptr':
        a, b = b, a
    if entry_of(a, b):
        return eq0(sub(a.a[1][-1][1], length(a.a[0][2])))
    if a.op == 'mapit' and b.op == 'mapit' and a.a[0] is b.a[0]:
        x, y = a.a[1], b.a[1]
        if x == 'end' or y == 'end':
            o = y if x == 'end' else x
            if o == 'end':
                return TRUE
            if o == 'begin':
                return bad('map iteration')
            return FALSE
    return bad('map iterators')


def mapit_deref(eng, st, p):
    k = p.a[1]
    if not isinstance(k, T):
        return bad('map iteration')
    m = eng.read(st, p.a[0])
    y = tyof(m)
    root = eng.newroot('any')
    v = map_get(m, k)
    pt = None
    for r in RECORDS:
        if r.startswith('std::pair<') and is_rec(r):
            f = RECORDS[r]['fields']
            if f[1][1] == tyof(v) or (v.op in ('closure', 'ite', 'nofn') and f[1][1] == 'fn'):
                if f[0][1] == tyof(k) or (is_seq(k) and f[0][1] == 'str'):
                    pt = r
    if pt is None:
        kt, vt = tyof(k), tyof(v)
        my = tyof(m)
        if my.startswith('map<'):
            kt, vt = my[4:-1].split('|', 1)
        pt = 'std::pair<%s,%s>' % (kt, vt)
        RECORDS[pt] = dict(fields=[('first', kt, 0), ('second', vt, 0)], size=0)
    st.store[root] = mk_struct(pt, [k, v])
    eng.rootty[root] = pt
    return ptr(root)


@model('unordered_map::find', 'map::find', 'unordered_set::find', 'set::find')
def _(c):
    m, k = c.self(), c.v(0)
    h = map_has(m, k)
    return ite(h, mk('mapit', c.this, k), mk('mapit', c.this, 'end'))


@model('unordered_map::count', 'map::count', 'unordered_set::count', 'set::count', 'unordered_map::contains', 'map::contains', 'unordered_set::contains', 'set::contains')
def _(c):
    h = map_has(c.self(), c.v(0))
    return h if c.fn['n'] == 'contains' else ite(h, ONE, ZERO)


@model('unordered_map::at', 'map::at')
def _(c):
    c.throw(NOT(map_has(c.self(), c.v(0))), 'std::out_of_range')
    return mk('ptr', c.this.a[0], c.this.a[1] + (('v', c.v(0)),)) if c.this.op == 'ptr' else bad('map')


@model('unordered_map::operator[]', 'map::operator[]')
def _(c):
    m, k = c.self(), c.v(0)
    h = map_has(m, k)
    y = c.prog.ty(c.fn['ret'])
    z = c.eng.zero(y)
    if h is not TRUE:
        m2 = ite(h, m, map_put(m, k, z))
        c.setself(m2)
    return mk('ptr', c.this.a[0], c.this.a[1] + (('v', k),)) if c.this.op == 'ptr' else bad('map')


@model('unordered_set::insert', 'set::insert', 'unordered_set::emplace', 'set::emplace')
def _(c):
    m = c.self()
    if c.nargs() == 1:
        k = c.v(0)
        h = map_has(m, k)
        c.setself(ite(h, m, map_put(m, k, TRUE)))
        rt = c.prog.ty(c.fn['ret'])
        if is_rec(rt):
            return mk_struct(rt, [mk('mapit', c.this, k), NOT(h)])
        return UNDEF
    r = seq_range(c, 0)
    if r and m.op == 'map0':
        c.setself(app('setof', tyof_root(c), slice_of(c, r)))
        return UNDEF
    return c.eng.note('set insert', c.n, c.prog)


def tyof_root(c):
    return c.eng.pathty(*c.this.a) if c.this.op == 'ptr' else 'set<any>'


@model('unordered_map::insert', 'map::insert', 'unordered_map::emplace', 'map::emplace')
def _(c):
    m = c.self()
    if c.nargs() == 2:
        k, v = c.v(0), c.v(1)
    else:
        k, v = fld(c.v(0), 'first'), fld(c.v(0), 'second')
    h = map_has(m, k)
    c.setself(ite(h, m, map_put(m, k, v)))
    rt = c.prog.ty(c.fn['ret'])
    if is_rec(rt):
        return mk_struct(rt, [mk('mapit', c.this, k), NOT(h)])
    return UNDEF


@model('unordered_map::size', 'map::size', 'unordered_set::size', 'set::size')
def _(c):
    m = c.self()
    n = 0
    while m.op == 'put':
        n += 1
        m = m.a[0]
    if m.op == 'map0':
        return I(n)
    return app('mapsize', 'u64', c.self())


@model('unordered_map::empty', 'map::empty', 'unordered_set::empty', 'set::empty')
def _(c):
    m = c.self()
    if m.op == 'map0':
        return TRUE
    if m.op == 'put':
        return FALSE
    return equal(app('mapsize', 'u64', m), ZERO)


@model('_Rb_tree_const_iterator::operator->', '_Rb_tree_iterator::operator->', '_Rb_tree_const_iterator::operator*', '_Rb_tree_iterator::operator*',
       '__detail::_Node_const_iterator::operator->', '__detail::_Node_iterator::operator->', '__detail::_Node_const_iterator::operator*', '__detail::_Node_iterator::operator*')
def _(c):
    it = c.self()

    def go(x):
        if x.op == 'ite':
            k = c.st.simp(x.a[0])
            # the end of a map has no entry
            if k is TRUE or x.a[2].op == 'mapit' and x.a[2].a[1] == 'end':
                return go(x.a[1])
            if k is FALSE or x.a[1].op == 'mapit' and x.a[1].a[1] == 'end':
                return go(x.a[2])
            return ite(k, go(x.a[1]), go(x.a[2]))
        if x.op == 'mapit':
            return mapit_deref(c.eng, c.st, x)
        if x.op == 'ptr' and x.a[0][0] == 'entries':
            return x
        return c.eng.note('map iterator', c.n, c.prog)
    return go(it)


@model('_Rb_tree_const_iterator::operator++', '_Rb_tree_iterator::operator++', '__detail::_Node_const_iterator::operator++', '__detail::_Node_iterator::operator++',
       '_Rb_tree_const_iterator::operator--', '_Rb_tree_iterator::operator--')
def _(c):
    old = c.self()
    if old.op != 'ptr':
        return c.eng.note('map iterator', c.n, c.prog)
    c.setself(ptr_add(old, ONE if c.fn['n'] == 'operator++' else I(-1)))
    return c.this if c.nargs() == 0 else old


@model('vector::push_back', 'vector::emplace_back', 'basic_string::push_back')
def _(c):
    s = c.self()
    ty = c.eng.pathty(*c.this.a) if c.this.op == 'ptr' else 'any'
    et = elem_ty(ty) or 'any'
    if c.fn['n'] == 'emplace_back' and (c.nargs() != 1 or (is_rec(et) and tyof(c.v(0)) != et)):
        if not is_rec(et):
            return c.eng.note('emplace_back', c.n, c.prog)
        v = emplace(c, et)
    else:
        v = c.v(0)
        if not is_rec(et):
            v = c.eng.convert(v, tyof(v), et)
        if c.isref[0] and c.prog.types[c.fn['params'][0]['t']].get('rv') and c.a[0].op == 'ptr' and c.n['args'][0].get('lv') == 2 and c.n['args'][0]['k'] != 'mat':
            c.eng.write(c.st, c.a[0], moved(v, et))
    c.setself(cat(s, lit(v)))
    return ptr_index(c.this, length(s))


def emplace(c, et):
    """construct an element of record type et from the arguments"""
    n = c.nargs()
    cands = []
    for f in c.prog.fns:
        if f and f.get('kind') == 'ctor' and 'body' in f and c.prog.recty(f['rec']) == et and len(f['params']) == n:
            cands.append(f)
    if is_rec(et) and et.startswith('std::pair'):
        return mk_struct(et, [c.v(0), c.v(1)])
    if len(cands) != 1:
        return c.eng.note('emplace_back', c.n, c.prog)
    f = cands[0]
    args = []
    for i, p in enumerate(f['params']):
        if c.prog.types[p['t']]['k'] == 'ref':
            args.append(c.p(i))
        else:
            v = c.v(i)
            args.append(c.eng.convert(v, tyof(v), c.prog.ty(p['t'])))
    root = c.eng.newroot(et, hint='o')
    c.st.store[root] = mk_struct(et, [UNDEF] * len(RECORDS[et]['fields']))
    c.eng.call_fn(c.prog, f, ptr(root), args, c.st, c.fr, c.n)
    return c.st.store[root]


@model('vector::pop_back', 'basic_string::pop_back')
def _(c):
    s = c.self()
    if s.op == 'lit':
        c.setself(lit(*s.a[:-1]))
    elif s.op == 'cat' and s.a[-1].op == 'lit':
        c.setself(cat(*s.a[:-1], lit(*s.a[-1].a[:-1])))
    else:
        c.setself(slc(s, ZERO, sub(length(s), ONE)))
    return UNDEF


@model('vector::resize', 'basic_string::resize')
def _(c):
    s = c.self()
    ty = c.eng.pathty(*c.this.a) if c.this.op == 'ptr' else tyof(s)
    et = elem_ty(ty) or ety(s) or 'any'
    if c.nargs() > 1:
        z = c.v(1)
    else:
        z = default_value(c, et) if is_rec(et) else c.eng.zero(et)
    c.setself(resize(s, c.v(0), z))
    return UNDEF


@model('vector::reserve', 'vector::shrink_to_fit', 'basic_string::reserve', 'unordered_map::reserve', 'unordered_set::reserve', 'basic_string::shrink_to_fit')
def _(c):
    return UNDEF


@model('vector::clear', 'basic_string::clear')
def _(c):
    c.setself(SEQ0)
    return UNDEF


@model('map::clear', 'unordered_map::clear', 'unordered_set::clear', 'set::clear')
def _(c):
    c.setself(mk('map0'))
    return UNDEF


@model('vector::operator=', 'basic_string::operator=', 'map::operator=', 'unordered_map::operator=', 'unordered_set::operator=', 'pair::operator=',
       'function::operator=', 'array::operator=', 'set::operator=', 'optional::operator=')
def _(c):
    ty = c.eng.pathty(*c.this.a) if c.this.op == 'ptr' else 'any'
    v = c.v(0)
    if ty == 'str' and not is_seq(v):
        v = tostr(c, 0)
    if ty.startswith('optional') and v.op not in ('some', 'none', 'ite'):
        v = mk('some', v)
    mv = c.isref[0] and c.prog.types[c.fn['params'][0]['t']].get('rv')
    if mv and c.a[0].op == 'ptr' and c.n['args'] and c.n['args'][-1].get('lv') == 2 and c.n['args'][-1]['k'] != 'mat':
        c.eng.write(c.st, c.a[0], moved(v, ty))
    c.setself(v)
    return c.this


@model('vector::assign', 'basic_string::assign')
def _(c):
    if c.nargs() == 2 and isptr(c.v(0)):
        r = seq_range(c, 0)
        if r:
            c.setself(slice_of(c, r))
            return UNDEF
    if c.nargs() == 2:
        c.setself(rep(c.v(0), c.v(1)))
        return UNDEF
    c.setself(c.v(0) if is_seq(c.v(0)) else tostr(c, 0))
    return UNDEF


@model('vector::insert', 'basic_string::insert')
def _(c):
    s = c.self()
    p = c.v(0)
    if p.op != 'ptr' or p.a[1][-1][0] != 'i':
        return c.eng.note('insert', c.n, c.prog)
    i = p.a[1][-1][1]
    if c.nargs() == 3 and isptr(c.v(1)):
        r = seq_range(c, 1)
        x = slice_of(c, r) if r is not None else byte_range(c, c.v(1), c.v(2))
        if x is None:
            c.setself(bad('insert'))
            return c.eng.note('insert', c.n, c.prog)
    elif c.nargs() == 3:
        x = rep(c.v(1), c.v(2))
    else:
        x = c.v(1)
        x = x if is_seq(x) and is_vec(c.ty(1)) and not is_vec(ety(s) or '') else lit(x)
    L = length(s)
    if i is L:
        c.setself(cat(s, x))
    elif i is ZERO:
        c.setself(cat(x, s))
    else:
        c.setself(cat(slc(s, ZERO, i), x, slc(s, i, L)))
    return p


@model('vector::erase')
def seq_erase(c):
    s = c.self()
    p = c.v(0)
    L = length(s)

    def at(q):
        if q.op == 'ite':
            return ite(q.a[0], at(q.a[1]), at(q.a[2]))
        return q.a[1][-1][1] if q.op == 'ptr' and q.a[1] and q.a[1][-1][0] == 'i' else bad('erase')
    lo = at(p)
    hi = at(c.v(1)) if c.nargs() > 1 else add(lo, ONE)
    if lo.op == 'bad' or hi.op == 'bad':
        return c.eng.note('erase', c.n, c.prog)
    # the tail that remove_if left behind
    c.setself(cat(slc(s, ZERO, lo), slc(s, hi, L)))
    return p


@model('vector::swap', 'basic_string::swap', 'swap', 'map::swap')
def _(c):
    if c.this is not None:
        p, q = c.this, c.a[0]
    else:
        p, q = c.a[0], c.a[1]
    a, b = c.eng.read(c.st, p), c.eng.read(c.st, q)
    c.eng.write(c.st, p, b)
    c.eng.write(c.st, q, a)
    return UNDEF


@model('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', '__addressof', 'move_if_noexcept')
def _(c):
    if c.fn['n'] == 'move' and c.nargs() == 3:
        return alg_copy(c)
    return c.a[0]


@model('exchange')
def _(c):
    old = c.v(0)
    c.eng.write(c.st, c.a[0], c.v(1))
    return old


# iterators
@model('__gnu_cxx::__normal_iterator::operator*')
def _(c):
    return c.self()


@model('__gnu_cxx::__normal_iterator::operator->')
def _(c):
    return c.self()


@model('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--')
def _(c):
    old = c.self()
    c.setself(ptr_add(old, ONE if c.fn['n'] == 'operator++' else I(-1)))
    return c.this if c.nargs() == 0 else old


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def _(c):
    return ptr_add(c.self(), c.v(0) if c.fn['n'] == 'operator+' else neg(c.v(0)))


@model('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def _(c):
    c.setself(ptr_add(c.self(), c.v(0) if c.fn['n'] == 'operator+=' else neg(c.v(0))))
    return c.this


@model('__gnu_cxx::__normal_iterator::operator[]')
def _(c):
    return ptr_add(c.self(), c.v(0))


@model('__gnu_cxx::__normal_iterator::base')
def _(c):
    return c.self()


@model('__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<', '__detail::operator==', '__detail::operator!=',
       'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'type_info::operator==', 'type_info::operator!=',
       '__gnu_cxx::operator<=', '__gnu_cxx::operator>', '_Rb_tree_const_iterator::operator==', '_Rb_tree_const_iterator::operator!=')
def _(c):
    op = c.fn['n'][8:]
    if c.this is not None:
        a, b = c.self(), c.v(0)
    else:
        a, b = c.v(0), c.v(1)
        if 'str' in (c.ty(0), c.ty(1)):
            a, b = tostr(c, 0), tostr(c, 1)
    if op in ('==', '!='):
        if is_rec(tyof(a)) and not isptr(a):
            r = user_eq(c, a, b)
        elif is_seq(a) and is_seq(b) and is_rec(ety(a) or ety(b) or ''):
            r = seq_rec_eq(c, a, b)
        else:
            r = c.eng.compare('==', a, b)
        return r if op == '==' else NOT(r)
    if is_seq(a):
        sw = op in ('>', '<=')
        r = app('lex<', 'bool', b, a) if sw else app('lex<', 'bool', a, b)
        return NOT(r) if op in ('<=', '>=') else r
    if is_rec(tyof(a)):
        fs = RECORDS[tyof(a)]['fields']
        r = FALSE
        x, y = (a, b) if op in ('<', '>=') else (b, a)
        for f in reversed(fs):
            u, v = fld(x, f[0]), fld(y, f[0])
            l1 = c.eng.compare('<', u, v)
            l2 = c.eng.compare('<', v, u)
            r = OR(l1, AND(NOT(l2), r))
        return r if op in ('<', '>') else NOT(r)
    return c.eng.compare(op, a, b)


def user_eq(c, a, b):
    """operator== of the element type"""
    y = tyof(a)
    for f in c.prog.fns:
        if f and f['n'] == 'operator==' and f['mine'] and 'body' in f:
            if f.get('rec') is not None and c.prog.recty(f['rec']) == y and len(f['params']) == 1:
                r1, r2 = c.eng.newroot(y), c.eng.newroot(y)
                c.st.store[r1], c.st.store[r2] = a, b
                return c.eng.call_fn(c.prog, f, ptr(r1), [ptr(r2)], c.st, c.fr, c.n)
            if f.get('rec') is None and len(f['params']) == 2 and c.prog.ty(f['params'][0]['t']) == y:
                r1, r2 = c.eng.newroot(y), c.eng.newroot(y)
                c.st.store[r1], c.st.store[r2] = a, b
                return c.eng.call_fn(c.prog, f, None, [ptr(r1), ptr(r2)], c.st, c.fr, c.n)
    return struct_eq(a, b)


def seq_rec_eq(c, a, b):
    k = tmp('nat', 'k')
    s = c.st.copy()
    f = Frame(c.prog, c.fr.fn, c.fr.fid)
    c2 = C(c.eng, s, f, c.fn, None, [], [], c.n, c.prog)
    r = user_eq(c2, idx(a, k), idx(b, k))
    n = length(a)
    return AND(equal(n, length(b)), NOT(mk_exists(n, k, NOT(r))))


# ---------------------------------------------------------------- algorithms
def seq_range(c, i):
    """(base pointer, lo, n) of the range in arguments i, i+1"""
    a, b = c.v(i), c.v(i + 1)
    return range_of(c, a, b)


def one_pointer(p):
    """a choice of positions in one sequence as a chosen position"""
    if p.op != 'ite':
        return p
    x, y = one_pointer(p.a[1]), one_pointer(p.a[2])
    if x.op == y.op == 'ptr' and x.a[0] == y.a[0] and x.a[1] and y.a[1] and x.a[1][:-1] == y.a[1][:-1] and x.a[1][-1][0] == 'i' == y.a[1][-1][0]:
        return mk('ptr', x.a[0], x.a[1][:-1] + (('i', ite(p.a[0], x.a[1][-1][1], y.a[1][-1][1])),))
    return p


def range_of(c, a, b):
    a, b = one_pointer(a), one_pointer(b)
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0] and a.a[1] and b.a[1] and a.a[1][:-1] == b.a[1][:-1] and a.a[1][-1][0] == 'i' == b.a[1][-1][0]:
        lo = a.a[1][-1][1]
        return mk('ptr', a.a[0], a.a[1][:-1]), lo, sub(b.a[1][-1][1], lo)
    if entry_of(a, b):
        lo = a.a[1][-1][1]
        return ptr(a.a[0]), lo, sub(length(a.a[0][2]), lo)
    if a.op == 'mapit' and b.op == 'mapit' and a.a[1] == 'begin' and b.a[1] == 'end' and a.a[0] is b.a[0]:
        m = c.eng.read(c.st, a.a[0])
        ents = map_entries(m, c.eng.pathty(*a.a[0].a))
        if ents is not None:
            root = c.eng.newroot(tyof(ents))
            c.st.store[root] = ents
            return ptr(root), ZERO, length(ents)
    return None


def slice_of(c, r):
    base, lo, n = r
    return slc(c.eng.read(c.st, base), lo, add(lo, n))


def byte_range(c, a, b):
    """a range between two pointers that look at memory as raw bytes, or at raw bytes as values"""
    if a.op != 'ptr' or b.op != 'ptr' or a.a[0] != b.a[0]:
        return None
    pa, pb = a.a[1], b.a[1]
    if pa and pb and pa[-1][0] == 'as' == pb[-1][0] and pa[:-1] == pb[:-1] and pa[-1][1] == pb[-1][1]:
        n = sub(pb[-1][2], pa[-1][2])
        k = tmp('nat', 'k')
        return mk_comp(n, k, c.eng.read(c.st, ptr_add(a, k)))
    if pb and pb[-1][0] == '+':
        lo, base = ZERO, pa
        if pa and pa[-1][0] == '+':
            lo, base = pa[-1][1], pa[:-1]
        if pb[:-1] != base or lo is not ZERO:
            return None
        rs = region(c.eng, c.st, a, pb[-1][1])
        if rs is not None:
            return as_bytes(c.eng, c.st, rs)
    return None


def apply1(c, f, ptrs, s, fr):
    return c.eng.call_closure(f, ptrs, s, fr, c.n)


@model('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'find', 'count_if', 'count', 'for_each', 'ranges::any_of', 'ranges::all_of', 'ranges::none_of')
def _(c):
    name = c.fn['n']
    r = seq_range(c, 0)
    if r is None:
        return c.eng.note('range of ' + name, c.n, c.prog)
    base, lo, n = r
    eng, st = c.eng, c.st
    f = c.v(2)
    byval = name in ('find', 'count')
    ty = {'count_if': 'i64', 'count': 'i64', 'find': 'nat', 'find_if': 'nat', 'find_if_not': 'nat'}.get(name, 'bool')
    res = eng.newroot(ty, hint='r')
    st.store[res] = {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE, 'count_if': ZERO, 'count': ZERO, 'for_each': FALSE}.get(name, add(lo, n))

    def body(s, fr, k):
        p = ptr_index(base, add(lo, k))
        if byval:
            v = eng.compare('==', eng.read(s, p), f)
        else:
            v = apply1(c, f, [p], s, fr)
        if name == 'for_each' or s.dead:
            return
        v = s.simp(eng.as_bool(v))
        if name in ('count', 'count_if'):
            s.store[res] = add(s.store[res], ite(v, ONE, ZERO))
            return
        hit = NOT(v) if name in ('all_of', 'find_if_not') else v
        val = {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}.get(name, add(lo, k))
        h = s.fork(hit)
        if not h.dead:
            h.store[res] = val
            eng.add_exit(fr, Exit('break', h.cond, UNDEF, h.store, h.pc))
        s.restrict(NOT(hit))
    eng.loop_n(st, c.fr, n, body, c.n)
    v = st.store.pop(res, UNDEF)
    if ty == 'nat':
        return ptr_index(base, v)
    return v


def out_writer(c, i):
    """function that stores the k-th output at the iterator argument i, and the end"""
    p = c.v(i)
    eng = c.eng

    def go(p):
        if p.op == 'backins':
            def w(s, k, v):
                q = p.a[0]
                eng.write(s, q, cat(eng.read(s, q), lit(v)))
            return w, None
        if p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i':
            base = mk('ptr', p.a[0], p.a[1][:-1])
            lo = p.a[1][-1][1]

            def w(s, k, v):
                q = ptr_index(base, add(lo, k))
                et = elem_ty(eng.pathty(*base.a)) or 'any'
                if not is_rec(et):
                    v = eng.convert(v, tyof(v), et)
                eng.write(s, q, v)
            return w, lambda k: ptr_index(base, add(lo, k))
        return None, None
    return go(p)


@model('back_inserter')
def _(c):
    return mk('backins', c.p(0))


@model('transform')
def _(c):
    eng = c.eng
    r = seq_range(c, 0)
    two = c.nargs() == 5
    w, end = out_writer(c, 3 if two else 2)
    if r is None or w is None:
        return eng.note('range of transform', c.n, c.prog)
    base, lo, n = r
    f = c.v(4 if two else 3)
    b2 = c.v(2) if two else None

    def body(s, fr, k):
        ps = [ptr_index(base, add(lo, k))]
        if two:
            ps.append(ptr_add(b2, k))
        v = apply1(c, f, ps, s, fr)
        if isptr(v):
            v = eng.read(s, v)
        if not s.dead:
            w(s, k, v)
    eng.loop_n(c.st, c.fr, n, body, c.n)
    return end(n) if end else c.v(2)


@model('copy', 'copy_n', 'copy_if', 'remove_copy_if', 'memcpy', 'memmove', '__builtin_memcpy')
def alg_copy(c):
    eng = c.eng
    name = c.fn['n']
    if name in ('memcpy', 'memmove', '__builtin_memcpy'):
        mem_copy(c, c.v(1), c.v(2), c.v(0))
        return c.v(0)
    if name == 'copy_n':
        p = c.v(0)
        b = ptr_add(p, c.v(1))
        r = range_of(c, p, b)
        oi = 2
    else:
        r = seq_range(c, 0)
        oi = 2
    out = c.v(oi)
    if r is None:
        a, b = c.v(0), c.v(1)
        d = ptr_bytes_diff(a, b)
        if d is not None:
            mem_copy(c, a, d, out)
            return ptr_add(out, d)
        return eng.note('range of copy', c.n, c.prog)
    base, lo, n = r
    src_et = elem_ty(eng.pathty(*base.a))
    if out.op == 'ptr' and name in ('copy', 'copy_n'):
        # byte-wise copy into something that is not a sequence of bytes
        oreal = eng.pathty(*out.a)
        t = c.prog.types[c.fn['params'][oi]['t']]
        if t['k'] == 'ptr' and c.prog.ty(t['e']) in ('u8', 'i8') and oreal not in ('u8', 'i8'):
            mem_copy(c, c.v(0), n, out)
            return mk('ptr', out.a[0], out.a[1] + (('+', n),))
        t = c.prog.types[c.fn['params'][0]['t']]
        if t['k'] == 'ptr' and c.prog.ty(t['e']) in ('u8', 'i8') and src_et not in ('u8', 'i8'):
            return eng.note('byte copy', c.n, c.prog)
    w, end = out_writer(c, oi)
    if w is None:
        return eng.note('output of copy', c.n, c.prog)
    pred = c.v(3) if name in ('copy_if', 'remove_copy_if') else None
    cnt = None
    if pred is not None and end is not None:
        cnt = eng.newroot('nat', hint='r')
        c.st.store[cnt] = ZERO

    def body(s, fr, k):
        p = ptr_index(base, add(lo, k))
        if pred is None:
            return w(s, k, eng.read(s, p))
        v = s.simp(eng.as_bool(apply1(c, pred, [p], s, fr)))
        if name == 'remove_copy_if':
            v = NOT(v)
        if s.dead:
            return
        h = s.fork(v)
        if not h.dead:
            w(h, h.store[cnt] if cnt else k, eng.read(h, p))
            if cnt:
                h.store[cnt] = add(h.store[cnt], ONE)
        o = s.fork(NOT(v))
        s.set(merge(h, o, v))
    eng.loop_n(c.st, c.fr, n, body, c.n)
    if cnt:
        return end(c.st.store.pop(cnt))
    return end(n) if end else out


def ptr_bytes_diff(a, b):
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0]:
        pa, pb = a.a[1], b.a[1]
        oa = ZERO
        ob = ZERO
        if pa and pa[-1][0] == '+':
            oa, pa = pa[-1][1], pa[:-1]
        if pb and pb[-1][0] == '+':
            ob, pb = pb[-1][1], pb[:-1]
        if pa == pb:
            return sub(ob, oa)
    return None


@model('fill', 'fill_n', 'generate', 'iota')
def _(c):
    eng = c.eng
    name = c.fn['n']
    if name == 'fill_n':
        r = range_of(c, c.v(0), ptr_add(c.v(0), c.v(1)))
    else:
        r = seq_range(c, 0)
    if r is None:
        return eng.note('range of ' + name, c.n, c.prog)
    base, lo, n = r
    v = c.v(2)
    et = elem_ty(eng.pathty(*base.a)) or 'any'

    def body(s, fr, k):
        if name == 'iota':
            x = add(v, k)
            x = eng.convert(x, tyof(v), et) if et in INTS else x
        elif name == 'generate':
            x = apply1(c, v, [], s, fr)
        else:
            x = eng.convert(v, tyof(v), et) if not is_rec(et) else v
        eng.write(s, ptr_index(base, add(lo, k)), x)
    eng.loop_n(c.st, c.fr, n, body, c.n)
    return UNDEF


@model('accumulate', 'reduce')
def _(c):
    eng = c.eng
    r = seq_range(c, 0)
    if r is None:
        return eng.note('range of accumulate', c.n, c.prog)
    base, lo, n = r
    init = c.v(2)
    rt = c.prog.ty(c.fn['ret'])
    acc = eng.newroot(rt, hint='acc')
    c.st.store[acc] = init
    f = c.v(3) if c.nargs() > 3 else None

    def body(s, fr, k):
        p = ptr_index(base, add(lo, k))
        if f is None:
            x = eng.read(s, p)
            if is_rec(rt):
                s.store[acc] = eng.note('accumulate of records', c.n, c.prog)
                return
            if rt == 'str':
                s.store[acc] = cat(s.store[acc], x)
                return
            s.store[acc] = eng.arith('+', eng.convert(s.store[acc], tyof(init), rt), eng.convert(x, tyof(x), rt), rt, s)
        else:
            v = apply1(c, f, [ptr(acc), p], s, fr)
            if isptr(v):
                v = eng.read(s, v)
            if not s.dead:
                s.store[acc] = eng.convert(v, tyof(v), rt)
    eng.loop_n(c.st, c.fr, n, body, c.n)
    return c.st.store.pop(acc)


@model('equal')
def _(c):
    r = seq_range(c, 0)
    if r is None or c.nargs() not in (3, 4):
        return c.eng.note('equal', c.n, c.prog)
    s1 = slice_of(c, r)
    if c.nargs() == 4 and isptr(c.v(3)):
        r2 = seq_range(c, 2)
        if r2:
            return seqeq(s1, slice_of(c, r2))
    r2 = range_of(c, c.v(2), ptr_add(c.v(2), r[2]))
    if r2 and c.nargs() == 3:
        return seqeq(s1, slice_of(c, r2))
    return c.eng.note('equal', c.n, c.prog)


@model('min_element', 'max_element', 'minmax_element')
def _(c):
    eng = c.eng
    r = seq_range(c, 0)
    if r is None:
        return eng.note('range of ' + c.fn['n'], c.n, c.prog)
    base, lo, n = r
    if c.nargs() == 3:
        f = c.v(2)
        lam = cmp_lam(c, f, r)
        if lam is None:
            return eng.note('comparison', c.n, c.prog)
        extra = (lam,)
    else:
        extra = ()
    s = slice_of(c, r)
    if c.fn['n'] == 'minmax_element':
        rt = c.prog.ty(c.fn['ret'])
        return mk_struct(rt, [ptr_index(base, add(lo, app('argmin', 'nat', s, *extra))), ptr_index(base, add(lo, app('argmax', 'nat', s, *extra)))])
    kind = 'argmin' if c.fn['n'] == 'min_element' else 'argmax'
    return ptr_index(base, add(lo, app(kind, 'nat', s, *extra)))


def cmp_lam(c, f, r):
    """comparison function as a term"""
    eng = c.eng
    base = r[0]
    et = elem_ty(eng.pathty(*base.a)) or ety(eng.read(c.st, base)) or 'any'
    a, b = tmp(et, 'p'), tmp(et, 'q')
    s = c.st.copy()
    ra, rb = eng.newroot(et), eng.newroot(et)
    s.store[ra], s.store[rb] = a, b
    fr = Frame(c.prog, c.fr.fn, c.fr.fid)
    s.cond = TRUE
    v = eng.call_closure(f, [ptr(ra), ptr(rb)], s, fr, c.n)
    if fr.exits or v.op == 'bad':
        return None
    v = eng.as_bool(v)
    if v is eng.compare('<', a, b):
        return mk('refl', 'less')
    if v is eng.compare('<', b, a):
        return mk('refl', 'greater')
    return mk_lam((et, et), [a, b], [v])


@model('sort', 'stable_sort')
def _(c):
    eng = c.eng
    r = seq_range(c, 0)
    if r is None:
        return eng.note('range of sort', c.n, c.prog)
    extra = ()
    if c.nargs() == 3:
        lam = cmp_lam(c, c.v(2), r)
        if lam is None:
            return eng.note('comparison', c.n, c.prog)
        if lam is not mk('refl', 'less'):
            extra = (lam,)
    replace_range(c, r, lambda s: app('sort', tyof_seq(s), s, *extra))
    return UNDEF


def tyof_seq(s):
    y = tyof(s)
    return y if y != 'seq' else 'vec<%s>' % (ety(s) or 'any')


LENRULES['sort'] = lambda t: length(t.a[2])
LENRULES['shuffle'] = lambda t: length(t.a[2])
LENRULES['reverse'] = lambda t: length(t.a[2])


def replace_range(c, r, f):
    base, lo, n = r
    s = c.eng.read(c.st, base)
    if lo is ZERO and n is length(s):
        c.eng.write(c.st, base, f(s))
    else:
        x = f(slc(s, lo, add(lo, n)))
        c.eng.write(c.st, base, cat(slc(s, ZERO, lo), x, slc(s, add(lo, n), length(s))))


@model('reverse')
def _(c):
    r = seq_range(c, 0)
    if r is None:
        return c.eng.note('reverse', c.n, c.prog)

    def rev(s):
        k = tmp('nat', 'k')
        n = length(s)
        return mk_comp(n, k, idx(s, sub(sub(n, ONE), k)))
    replace_range(c, r, rev)
    return UNDEF


@model('shuffle')
def _(c):
    r = seq_range(c, 0)
    if r is None:
        return c.eng.note('shuffle', c.n, c.prog)
    g = c.v(2)
    replace_range(c, r, lambda s: app('shuffle', tyof_seq(s), s, g))
    c.eng.write(c.st, c.p(2), app('rng+', tyof(g), g, length(slice_of(c, r)) if False else S('shuffle')))
    return UNDEF


@model('remove_if', 'remove', 'unique')
def _(c):
    """the kept elements, then a rest that is to be erased"""
    eng = c.eng
    r = seq_range(c, 0)
    if r is None:
        return eng.note('range of ' + c.fn['n'], c.n, c.prog)
    base, lo, n = r
    s0 = slice_of(c, r)
    if c.fn['n'] == 'unique':
        et = ety(s0)
        u = app('unique', tyof_seq(s0), s0)
        kept = u
    else:
        acc = eng.newroot(tyof_seq(s0), hint='acc')
        c.st.store[acc] = SEQ0
        f = c.v(2)

        def body(s, fr, k):
            p = ptr_index(base, add(lo, k))
            v = eng.compare('==', eng.read(s, p), f) if c.fn['n'] == 'remove' else apply1(c, f, [p], s, fr)
            v = s.simp(eng.as_bool(v))
            s.store[acc] = cat(s.store[acc], ite(v, SEQ0, lit(eng.read(s, p))))
        eng.loop_n(c.st, c.fr, n, body, c.n)
        kept = c.st.store.pop(acc)
    s = eng.read(c.st, base)
    m = length(kept)
    # elements after the kept ones are unspecified
    rest = app('unspecified', tyof_seq(s0), s0, m)
    eng.write(c.st, base, cat(slc(s, ZERO, lo), kept, rest, slc(s, add(lo, n), length(s))))
    return ptr_index(base, add(lo, m))


LENRULES['unspecified'] = lambda t: sub(length(t.a[2]), t.a[3])


@model('min', 'max', 'minmax', 'clamp', 'fmin', 'fmax')
def _(c):
    eng = c.eng
    name = c.fn['n']
    if name in ('fmin', 'fmax'):
        return app(name, 'f64', c.v(0), c.v(1))
    if c.nargs() == 1:
        s = c.v(0)
        if s.op == 'lit':
            r = s.a[0]
            for x in s.a[1:]:
                cnd = eng.compare('<', x, r) if name == 'min' else eng.compare('<', r, x)
                r = ite(cnd, x, r)
            return r
        return eng.note(name, c.n, c.prog)
    a, b = c.v(0), c.v(1)
    if name == 'clamp':
        v, lo, hi = c.v(0), c.v(1), c.v(2)
        p = ite(eng.compare('<', v, lo), c.p(1), ite(eng.compare('<', hi, v), c.p(2), c.p(0)))
        return p
    # min (a, b): b < a ? b : a;  max (a, b): a < b ? b : a
    cnd = eng.compare('<', b, a) if name == 'min' else eng.compare('<', a, b)
    cnd = c.st.simp(cnd)
    root = eng.newroot(tyof(a))
    c.st.store[root] = ite(cnd, b, a)
    return ptr(root) if c.prog.types[c.fn['ret']]['k'] == 'ref' else ite(cnd, b, a)


@model('distance')
def _(c):
    return c.eng.ptr_diff(c.v(1), c.v(0))


@model('next', 'prev')
def _(c):
    n = c.v(1) if c.nargs() > 1 else ONE
    return ptr_add(c.v(0), n if c.fn['n'] == 'next' else neg(n))


@model('advance')
def _(c):
    c.eng.write(c.st, c.p(0), ptr_add(c.v(0), c.v(1)))
    return UNDEF


@model('make_pair')
def _(c):
    rt = c.prog.ty(c.fn['ret'])
    return mk_struct(rt, [c.v(0), c.v(1)])


@model('make_tuple', 'tie', 'forward_as_tuple')
def _(c):
    rt = c.prog.ty(c.fn['ret'])
    return mk_struct(rt, [c.v(i) for i in range(c.nargs())])


@model('get')
def _(c):
    rt = c.fn.get('targs') or []
    p = c.p(0)
    i = int(rt[0]['int']) if rt and isinstance(rt[0], dict) and 'int' in rt[0] else None
    if i is None:
        return c.eng.note('get', c.n, c.prog)
    y = tyof(c.v(0))
    if is_rec(y):
        return ptr_field(p, RECORDS[y]['fields'][i][0])
    return ptr_index(p, I(i))


# ---------------------------------------------------------------- functions
@model('function::operator()')
def _(c):
    ps = []
    for i in range(c.nargs()):
        ps.append(c.p(i))
    v = c.eng.call_closure(c.self(), ps, c.st, c.fr, c.n, c.this)
    # the callable's result becomes one of the type in the signature
    to = c.prog.ty(c.fn['ret']) if c.prog.types[c.fn['ret']]['k'] != 'ref' else None
    y = tyof(v)
    return c.eng.convert(v, y, to) if to in SCALARS and (y in SCALARS or y == 'int') and y != to else v


@model('function::operator bool')
def _(c):
    v = c.self()

    def go(v):
        if v.op == 'ite':
            return ite(v.a[0], go(v.a[1]), go(v.a[2]))
        return B(v.op != 'nofn')
    return go(v)


@model('(conversion)')
def _(c):
    v = c.self()
    y = tyof(v)
    if y == STREAM:
        return NOT(fld(v, 'fail'))
    if v.op == 'app' and v.a[0] == 'path':
        return v.a[2]
    if c.fn['n'].startswith('operator basic_string') or 'string' in c.fn['n']:
        if is_seq(v):
            return v
        return app('str', 'str', v)
    if y == 'fn':
        return M['function::operator bool'](c)
    return c.eng.note('conversion ' + c.fn['q'], c.n, c.prog)


@model('hash::operator()')
def _(c):
    return app('hash', 'u64', c.v(0))


@model('less::operator()', 'greater::operator()', 'equal_to::operator()')
def _(c):
    op = {'less': '<', 'greater': '>', 'equal_to': '=='}[c.fn['q'].split('::')[-2]]
    return c.eng.compare(op, c.v(0), c.v(1))


# ----------------------------------------------------------------------- any
@model('any::operator=')
def _(c):
    v = c.v(0)
    if v.op not in ('any', 'noany') and tyof(v) != 'any':
        v = mk('any', c.ty(0), v)
    c.setself(v)
    return c.this


@model('any::type')
def _(c):
    v = c.self()
    t = mk('typeid', v.a[0]) if v.op == 'any' else app('anytype', 'any', v)
    root = c.eng.newroot('any')
    c.st.store[root] = t
    return ptr(root)


@model('any::has_value')
def _(c):
    return B(c.self().op != 'noany')


@model('any_cast')
def _(c):
    v = c.v(0)
    ty = c.prog.targ((c.fn.get('targs') or [-1])[0])
    if v.op == 'any':
        if v.a[0] == ty:
            return v.a[1]
        c.throw(TRUE, 'std::bad_any_cast')
        return UNDEF
    return app('any_cast<%s>' % ty, ty, v)


@model('type_info::name')
def _(c):
    v = c.self()
    return app('typename', 'str', v)


# -------------------------------------------------------------------- math
FN1 = ('sqrt', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'tan', 'exp', 'log', 'fabs', 'rint', 'nearbyint', 'lround', 'llround')


@model('sqrt', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'tan', 'exp', 'log', 'fabs', 'asin', 'acos', 'atan', 'rint', 'nearbyint', 'cbrt')
def _(c):
    k = {'fabs': 'abs'}.get(c.fn['n'], c.fn['n'])
    return fop(k, c.v(0))


@model('abs', 'labs', 'llabs')
def _(c):
    v = c.v(0)
    if is_float(v):
        return fop('abs', v)
    return ite(lt(v, ZERO), neg(v), v)


@model('lround', 'llround', 'lrint')
def _(c):
    return f2i('i64', fop('round' if 'round' in c.fn['n'] else 'rint', c.v(0)))


@model('pow', 'atan2', 'fmod', 'hypot')
def _(c):
    if c.fn['n'] == 'hypot' and c.nargs() == 3:
        return app('hypot3', 'f64', c.v(0), c.v(1), c.v(2))
    return fop(c.fn['n'], c.v(0), c.v(1))


@model('isnan', 'isinf', 'isfinite', 'signbit')
def _(c):
    v = tof(c.v(0))
    if c.fn['n'] == 'isnan':
        return NOT(feq(v, v))
    return app(c.fn['n'], 'bool', v)


# -------------------------------------------------------------------- random
@model('linear_congruential_engine::operator()', 'mersenne_twister_engine::operator()')
def _(c):
    g = c.self()
    c.setself(app('rng+', tyof(g), g, S('draw')))
    return app('rngval', 'u64', g)


@model('linear_congruential_engine::seed', 'mersenne_twister_engine::seed')
def _(c):
    g = c.self()
    c.setself(app('rng', tyof(g), c.v(0) if c.nargs() else app('default_seed', 'u64')))
    return UNDEF


@model('normal_distribution::operator()', 'uniform_real_distribution::operator()', 'uniform_int_distribution::operator()', 'bernoulli_distribution::operator()')
def _(c):
    d = c.self()
    p = c.p(0)
    g = c.eng.read(c.st, p)
    y = c.prog.ty(c.fn['ret'])
    v = app('draw', y, d, g)
    c.eng.write(c.st, p, app('rng+', tyof(g), g, d))
    if d.a[0] in ('normal_distribution', 'dist+'):
        # it keeps the second value of a pair for the next call
        c.setself(app('dist+', tyof(d), d, g))
    return v


@model('random_device::operator()')
def _(c):
    return app('hwrandom', 'u32', I(c.eng.fresh()))


@model('time', 'clock', 'chrono::_V2::system_clock::now', 'chrono::_V2::steady_clock::now', 'chrono::_V2::high_resolution_clock::now')
def _(c):
    return app('now', 'i64', I(c.eng.fresh()))


# ------------------------------------------------------------- text output
CHARS = ('i8', 'u8')


def fmt_set(f, name, val):
    if f.op == 'ite':
        return ite(f.a[0], fmt_set(f.a[1], name, val), fmt_set(f.a[2], name, val))
    d = dict(f.a[0]) if f.op == 'fmt' else {}
    if val is None:
        d.pop(name, None)
    else:
        d[name] = val
    return mk('fmt', tuple(sorted(d.items(), key=lambda x: x[0])))


def fmt_get(f, name):
    if f.op != 'fmt':
        return None
    return dict(f.a[0]).get(name)


def text_of(c, v, ty, f):
    if f.op == 'ite' and (is_bool(v) or is_float(v)):
        return ite(f.a[0], text_of(c, v, ty, f.a[1]), text_of(c, v, ty, f.a[2]))
    if is_seq(v):
        return v
    if isptr(v):
        return cstr(c, v)
    if ty == 'bool' or is_bool(v):
        if fmt_get(f, 'boolalpha') is TRUE:
            return ite(v, S('true'), S('false'))
        return app('dec', 'str', ite(v, ONE, ZERO))
    if ty in CHARS:
        return S(chr(v.a[0] & 255)) if v.op == 'i' else lit(v)
    if is_float(v):
        return app('ftoa', 'str', v, fmt_set(fmt_set(fmt_set(f, 'w', None), 'fill', None), 'boolalpha', None))
    if is_int(v):
        return app('dec', 'str', v)
    if v.op in ('bad', 'undef'):
        return v
    if v.op == 'app' and v.a[0] == 'path':
        return v.a[2]
    return app('text', 'str', v)


APPRULES['dec'] = lambda ty, v: S(str(v.a[0])) if v.op == 'i' else None


def emit_text(c, p, t):
    eng, st = c.eng, c.st
    s = eng.read(st, p)
    if tyof(s) != STREAM:
        eng.note('stream', c.n, c.prog)
        return
    f = fld(s, 'fmt')
    def padded(f):
        if f.op == 'ite':
            return ite(f.a[0], padded(f.a[1]), padded(f.a[2]))
        w = fmt_get(f, 'w')
        return t if w is None else app('pad', 'str', w, fmt_get(f, 'fill') or I(32), t)
    u = padded(f)
    if u is not t:
        t = u
        s = set_fld(s, 'fmt', fmt_set(f, 'w', None))
    if t.op == 'bad':
        eng.note('text ' + t.a[0], c.n, c.prog)
    s = set_fld(s, 'items', cat(fld(s, 'items'), t))
    s = set_fld(s, 'dirty', TRUE)
    eng.write(st, p, s)


@model('basic_ostream::operator<<', 'operator<<', 'basic_ostream::put')
def _(c):
    eng = c.eng
    if c.this is not None:
        p, i = c.this, 0
    else:
        p, i = c.p(0), 1
    v = c.v(i)
    ty = c.ty(i)
    if c.fn['n'] == 'put':
        ty = 'i8'
    if v.op == 'manip':
        apply_manip(c, p, v)
        return p
    if v.op == 'closure':
        fn = PROGS[v.a[0]].fns[v.a[1]]
        name = fn['n']
        apply_manip(c, p, mk('manip', name))
        return p
    s = eng.read(c.st, p)
    f = fld(s, 'fmt') if tyof(s) == STREAM else mk('fmt', ())
    emit_text(c, p, text_of(c, v, ty, f))
    return p


def apply_manip(c, p, m):
    eng, st = c.eng, c.st
    s = eng.read(st, p)
    name = m.a[0]
    if name == 'endl':
        emit_text(c, p, S('\n'))
        do_flush(c, p)
        return
    if name == 'flush':
        do_flush(c, p)
        return
    if tyof(s) != STREAM:
        return
    f = fld(s, 'fmt')
    if name == 'setw':
        f = fmt_set(f, 'w', m.a[1])
    elif name == 'setfill':
        f = fmt_set(f, 'fill', m.a[1])
    elif name == 'setprecision':
        f = fmt_set(f, 'prec', m.a[1])
    elif name in ('fixed', 'scientific', 'defaultfloat'):
        f = fmt_set(f, 'float', None if name == 'defaultfloat' else S(name))
    elif name == 'boolalpha':
        f = fmt_set(f, 'boolalpha', TRUE)
    elif name == 'noboolalpha':
        f = fmt_set(f, 'boolalpha', None)
    else:
        f = fmt_set(f, name, TRUE)
    eng.write(st, p, set_fld(s, 'fmt', f))


@model('setw', 'setfill', 'setprecision')
def _(c):
    return mk('manip', c.fn['n'], c.v(0))


@model('endl', 'flush')
def _(c):
    apply_manip(c, c.p(0), mk('manip', c.fn['n']))
    return c.p(0)


@model('fixed', 'boolalpha')
def _(c):
    apply_manip(c, c.p(0), mk('manip', c.fn['n']))
    return c.p(0)


@model('ios_base::precision')
def _(c):
    s = c.self()
    old = fmt_get(fld(s, 'fmt'), 'prec') or I(6)
    if fld(s, 'fmt').op == 'ite':
        old = bad('precision')
    if c.nargs():
        c.setself(set_fld(s, 'fmt', fmt_set(fld(s, 'fmt'), 'prec', c.v(0))))
    return old


@model('basic_stringstream::str', 'basic_ostringstream::str')
def _(c):
    if c.nargs():
        c.setself(set_fld(c.self(), 'items', tostr(c, 0)))
        return UNDEF
    return fld(c.self(), 'items')


# ------------------------------------------------------------ stream state
def do_flush(c, p):
    s = c.eng.read(c.st, p)
    if tyof(s) != STREAM:
        c.eng.note('flush of an unknown stream', c.n, c.prog)
        return
    s = set_fld(s, 'fail', OR(fld(s, 'fail'), terms.lift(lambda x: app('wfail', 'bool', fld(s, 'name'), x), [fld(s, 'items')])))
    s = set_fld(s, 'dirty', FALSE)
    c.eng.write(c.st, p, s)


@model('basic_ostream::flush')
def _(c):
    do_flush(c, c.this)
    return c.this


def open_stream(c, name, mode):
    event(c, 'open-' + mode, name)
    return new_stream(name, app('cannot_open_' + mode, 'bool', name))


def event(c, kind, *args):
    t = c.st.store.get(('g', 'trace'), SEQ0)
    c.st.store[('g', 'trace')] = cat(t, lit(app(kind, 'item', *args)))


@model('basic_ifstream::open', 'basic_ofstream::open')
def _(c):
    mode = 'w' if 'ofstream' in c.fn['q'] else 'r'
    c.setself(open_stream(c, tostr(c, 0), mode))
    return UNDEF


@model('basic_ifstream::close', 'basic_ofstream::close')
def _(c):
    if 'ofstream' in c.fn['q']:
        do_flush(c, c.this)
    return UNDEF


@model('basic_ifstream::is_open', 'basic_ofstream::is_open')
def _(c):
    s = c.self()
    return NOT(app('cannot_open_' + ('w' if 'ofstream' in c.fn['q'] else 'r'), 'bool', fld(s, 'name')))


@model('basic_ios::operator!', 'basic_ios::fail', 'basic_ios::bad')
def _(c):
    return fld(c.self(), 'fail')


@model('basic_ios::operator bool')
def _(c):
    return NOT(fld(c.self(), 'fail'))


@model('basic_ios::good')
def _(c):
    s = c.self()
    return AND(NOT(fld(s, 'fail')), NOT(app('eof', 'bool', fld(s, 'name'), fld(s, 'pos'))))


@model('basic_ios::eof')
def _(c):
    s = c.self()
    return app('eof', 'bool', fld(s, 'name'), fld(s, 'pos'))


@model('basic_ios::clear', 'basic_ios::setstate', 'basic_ios::exceptions')
def _(c):
    return c.eng.note('stream state', c.n, c.prog)


@model('basic_istream::gcount')
def _(c):
    s = c.self()
    return app('gcount', 'i64', fld(s, 'name'), fld(s, 'pos'))


@model('basic_istream::peek', 'basic_istream::get')
def _(c):
    return c.eng.note('istream::' + c.fn['n'], c.n, c.prog)


@model('basic_istream::operator>>')
def _(c):
    """formatted input: one token"""
    eng, st = c.eng, c.st
    p = c.this
    s = eng.read(st, p)
    nm, pos = fld(s, 'name'), fld(s, 'pos')
    ty = c.ty(0)
    eng.write(st, c.a[0], app('token:' + ty, ty, nm, pos))
    s = set_fld(s, 'fail', OR(fld(s, 'fail'), app('notoken:' + ty, 'bool', nm, pos)))
    s = set_fld(s, 'pos', add(pos, ONE))
    eng.write(st, p, s)
    return p


@model('getline')
def _(c):
    eng, st = c.eng, c.st
    p = c.p(0)
    s = eng.read(st, p)
    nm, pos = fld(s, 'name'), fld(s, 'pos')
    eng.write(st, c.a[1], app('token:line', 'str', nm, pos))
    s = set_fld(s, 'fail', OR(fld(s, 'fail'), app('notoken:line', 'bool', nm, pos)))
    s = set_fld(s, 'pos', add(pos, ONE))
    eng.write(st, p, s)
    return p


# ------------------------------------------------------------- binary access
def region(eng, st, p, n, part=False):
    """n bytes from p as [('s', ptr, ty, off)] and [('r', base, lo, m, ety, off)], or None"""
    out = []
    if n.op == 'ite' and st is not None:
        n = st.simp(n)
    root, path = p.a
    off0 = ZERO
    if path and path[-1][0] == '+':
        off0 = path[-1][1]
        path = path[:-1]
    ty = eng.pathty(root, path)
    v = mk('ptr', root, path)
    if off0 is not ZERO:
        # whole elements only
        if path and path[-1][0] == 'i' and ty in SIZES:
            q = exact_div(off0, SIZES[ty])
            if q is not None:
                return region(eng, st, mk('ptr', root, path[:-1] + (('i', add(path[-1][1], q)),)), n, part)
        return None
    if path and path[-1][0] == 'i':
        # an element of a sequence
        if ty in SIZES:
            m = exact_div(n, SIZES[ty])
            if m is None:
                return some(v, ty, n) if part else None
            base = mk('ptr', root, path[:-1])
            if m is ONE:
                return [('s', v, ty, ZERO)]
            return [('r', base, path[-1][1], m, ty, ZERO)]
        if packed(ty):
            m = exact_div(n, RECORDS[ty]['size'])
            if m is not None and m is not ONE:
                return [('r', mk('ptr', root, path[:-1]), path[-1][1], m, ty, ZERO)]
    if ty.startswith('arr<') or ty.startswith('vec<') or ty == 'str':
        if ty.startswith('arr<'):
            return region(eng, st, mk('ptr', root, path + (('i', ZERO),)), n)
        return None
    if n.op != 'i':
        return None
    n = n.a[0]
    # scalars in a record, in layout order
    if is_rec(ty):
        items = scalars(ty, 0)
        if items is None:
            items = scalars(ty, 0, True)
        start = 0
        pre = path
    elif path and path[-1][0] == 'f':
        pre = path[:-1]
        rec = eng.pathty(root, pre)
        if ty in SIZES and SIZES[ty] == n:
            return [('s', v, ty, ZERO)]
        if part and ty in SIZES and SIZES[ty] > n:
            return [('q', v, ty, ZERO, n)]
        if not is_rec(rec):
            return None
        start = RECORDS[rec]['fields'][field_index(rec, path[-1][1])][2]
        items = scalars(rec, 0, True)
    elif ty in SIZES and SIZES[ty] == n:
        return [('s', v, ty, ZERO)]
    elif part and ty in SIZES and SIZES[ty] > n:
        return [('q', v, ty, ZERO, n)]
    else:
        return None
    at = start
    for sub_path, t, o in items:
        if o < start:
            continue
        if at - start >= n:
            break
        if o != at or t not in SIZES or o - start + SIZES[t] > n:
            return None
        out.append(('s', mk('ptr', root, pre + sub_path), t, I(o - start)))
        at = o + SIZES[t]
    if at - start != n:
        return None
    return out


def some(v, ty, n):
    """the first bytes of a scalar"""
    if n.op == 'i' and 0 < n.a[0] < SIZES[ty]:
        return [('q', v, ty, ZERO, n.a[0])]


def byte_of(ty, v, j):
    return app('byte:' + ty, 'u8', v, I(j)) if ty not in ('u8', 'i8') else v


def scalars(rec, base, partial=False):
    out = []
    for f, t, o in RECORDS[rec]['fields']:
        if is_rec(t):
            r = scalars(t, base + o, partial)
            if r is None:
                return None
            out += [((('f', f),) + a, b, c) for a, b, c in r]
        else:
            if t not in SIZES and not partial:
                return None
            out.append(((('f', f),), t, base + o))
    return out


def exact_div(n, z):
    if z == 1:
        return n
    c, d = to_poly(n)
    if c % z or any(k % z for k in d.values()):
        return None
    r = I(c // z)
    for m, k in d.items():
        t = I(k // z)
        for x in m:
            t = mul(t, x)
        r = add(r, t)
    return r


def byte_item(ty, v):
    return app('B%d%s' % (SIZES[ty], 'f' if ty[0] == 'f' else ''), 'item', v)


@model('basic_ostream::write')
def _(c):
    eng, st = c.eng, c.st
    p = c.v(0)
    n = c.v(1)
    items = out_items(c, p, n)
    s = eng.read(st, c.this)
    if items is None:
        eng.note('bytes written', c.n, c.prog)
        items = bad('bytes')
    if items.op == 'bad':
        s = set_fld(s, 'items', items)
    else:
        s = set_fld(s, 'items', cat(fld(s, 'items'), items))
    s = set_fld(s, 'dirty', ite(equal(n, ZERO), fld(s, 'dirty'), TRUE))
    eng.write(st, c.this, s)
    return c.this


def out_items(c, p, n):
    eng, st = c.eng, c.st
    if p.op == 'ite':
        a, b = out_items(c, p.a[1], n), out_items(c, p.a[2], n)
        return None if a is None or b is None else ite(p.a[0], a, b)
    if p.op != 'ptr':
        return None
    v = eng.read(st, mk('ptr', p.a[0], ())) if not p.a[1] else None
    if p.a[0][0] == 'g' and isinstance(p.a[0][1], str) and p.a[0][1].startswith('str:') and n.op == 'i':
        s = p.a[0][1][4:]
        o = p.a[1][-1][1].a[0] if p.a[1] else 0
        s = (s + '\0')[o:o + n.a[0]]
        return lit(*[byte_item('i8', I(ord(ch))) for ch in s])
    r = region(eng, st, p, n, True)
    if r is None:
        return None
    parts = []
    for x in r:
        if x[0] == 'q':
            v = eng.read(st, x[1])
            parts += [lit(byte_item('u8', byte_of(x[2], v, j))) for j in range(x[4])]
        elif x[0] == 's':
            v = eng.read(st, x[1])
            if x[2] == 'bool':
                v = ite(v, ONE, ZERO) if is_bool(v) else v
            parts.append(lit(byte_item(x[2], v)))
        else:
            _, base, lo, m, ty, off = x
            s = eng.read(st, base)
            k = tmp('nat', 'k')
            e = idx(s, add(lo, k))
            if is_rec(ty):
                parts.append(mk_flat(m, k, lit(*[byte_item(t, path_of(e, p)) for p, t, o in scalars(ty, 0)])))
            else:
                parts.append(mk_comp(m, k, byte_item(ty, e)))
    return cat(*parts)


def in_val(ty, nm, pos):
    if ty == 'bool':
        return NOT(eq0(app('in:u8', 'u8', nm, pos)))
    return app('in:' + ty, ty, nm, pos)


@model('basic_istream::read')
def _(c):
    eng, st = c.eng, c.st
    p, n = c.v(0), c.v(1)
    s = eng.read(st, c.this)
    nm, pos = fld(s, 'name'), fld(s, 'pos')
    r = region(eng, st, p, n, True) if p.op == 'ptr' else None
    if r is None:
        eng.note('bytes read', c.n, c.prog)
        if p.op == 'ptr':
            eng.write(st, mk('ptr', p.a[0], ()), bad('bytes read'))
    else:
        for x in r:
            if x[0] == 'q':
                v = eng.read(st, x[1])
                eng.write(st, x[1], asm(x[2], [app('in:u8', 'u8', nm, add(pos, I(j))) if j < x[4] else byte_of(x[2], v, j) for j in range(SIZES[x[2]])]))
            elif x[0] == 's':
                eng.write(st, x[1], in_val(x[2], nm, add(pos, x[3])))
            else:
                _, base, lo, m, ty, off = x
                put_range(eng, st, base, lo, m, lambda k: in_val(ty, nm, add(add(pos, off), mul(I(SIZES[ty]), k))))
    end = add(pos, n)
    s = eng.read(st, c.this)
    s = set_fld(s, 'pos', end)
    s = set_fld(s, 'fail', OR(fld(s, 'fail'), app('short', 'bool', nm, end)))
    eng.write(st, c.this, s)
    return c.this


def put_range(eng, st, base, lo, m, f):
    """elements lo .. lo+m of the sequence at base become f(k)"""
    s = eng.read(st, base)
    N = length(s)
    x = tmp('nat', 'x')
    i = sub(x, lo)
    cnd = AND(le(lo, x), lt(i, m))
    for a, v in conj(lt(x, N)):
        cnd = assume(cnd, a, v)
    if cnd is not TRUE and st is not None:
        # all of it, under the conditions known here
        full = AND(equal(lo, ZERO), le(N, m))
        if st.simp(full) is TRUE:
            cnd = TRUE
    body = ite(cnd, f(i), idx(s, x))
    eng.write(st, base, mk_comp(N, x, body))


def mem_copy(c, src, n, dst):
    """copy n bytes"""
    eng, st = c.eng, c.st
    if src.op != 'ptr' or dst.op != 'ptr':
        return eng.note('copy of bytes', c.n, c.prog)
    rd = region(eng, st, dst, n)
    if rd is None:
        return eng.note('target of a byte copy', c.n, c.prog)
    rs = region(eng, st, src, n)
    if rs is None:
        return eng.note('source of a byte copy', c.n, c.prog)
    get = None
    if len(rs) == 1 and rs[0][0] == 'r' and rs[0][4] in ('u8', 'i8'):
        _, base, lo, m, ty, off = rs[0]
        s = eng.read(st, base)
        get = lambda o: idx(s, add(lo, o))
    elif len(rd) == 1 and rd[0][0] == 'r' and rd[0][4] in ('u8', 'i8'):
        s = as_bytes(eng, st, rs)
        get = lambda o: idx(s, o)
    if get is not None:
        for x in rd:
            if x[0] == 's':
                eng.write(st, x[1], assemble(st, x[2], lambda j: get(add(x[3], I(j)))))
            else:
                _, b2, lo2, m2, ty2, off2 = x
                put_range(eng, st, b2, lo2, m2, lambda k: assemble(st, ty2, lambda j: get(add(add(off2, mul(I(SIZES[ty2]), k)), I(j))), k, m2))
        return
    if len(rs) == len(rd) and all(a[0] == b[0] for a, b in zip(rs, rd)):
        for a, b in zip(rs, rd):
            if a[0] == 's':
                eng.write(st, b[1], eng.read(st, a[1]))
            else:
                s = eng.read(st, a[1])
                put_range(eng, st, b[1], b[2], b[3], lambda k: idx(s, add(a[2], k)))
        return
    eng.note('byte copy between different layouts', c.n, c.prog)


def as_bytes(eng, st, rs):
    """the bytes of a region"""
    parts = []
    for x in rs:
        if x[0] == 's':
            parts.append(bytes_of(x[2], eng.read(st, x[1])))
        else:
            _, base, lo, m, ty, off = x
            s = eng.read(st, base)
            k = tmp('nat', 'k')
            e = idx(s, add(lo, k))
            parts.append(mk_comp(m, k, e) if ty in ('u8', 'i8') else mk_flat(m, k, bytes_of(ty, e)))
    return cat(*parts)


def bytes_of(ty, v):
    if is_rec(ty):
        return cat(*[bytes_of(t, path_of(v, p)) for p, t, o in scalars(ty, 0)])
    if ty in ('u8', 'i8'):
        return lit(v)
    if ty == 'bool':
        v = ite(v, ONE, ZERO) if is_bool(v) else v
        return lit(v)
    return lit(*[app('byte:' + ty, 'u8', v, I(j)) for j in range(SIZES[ty])])


def path_of(v, p):
    for s in p:
        v = fld(v, s[1])
    return v


def packed(ty):
    """a record without padding"""
    if not is_rec(ty) or RECORDS[ty].get('fields') is None:
        return False
    sc = scalars(ty, 0)
    return sc is not None and all(t in SIZES for _, t, _ in sc) and sum(SIZES[t] for _, t, _ in sc) == RECORDS[ty].get('size')


def assemble(st, ty, byte, k=None, m=None):
    n = SIZES[ty]
    bs = []
    pc = st.pc
    if k is not None:
        pc = pc + tuple(conj(lt(k, m)))
    for j in range(n):
        bs.append(decide(byte(j), pc))
    if ty in ('u8', 'i8'):
        return bs[0]
    return asm(ty, bs)


def decide(t, pc):
    """resolve the conditions of a decision tree with the known facts"""
    while t.op == 'ite':
        c = t.a[0]
        v = known(c, pc)
        if v is None:
            return t
        t = t.a[1] if v else t.a[2]
    return t


def known(c, pc):
    if c.op == 'pos':
        if prove_nonneg(sub(c.a[0], ONE), pc):
            return True
        if prove_nonneg(neg(c.a[0]), pc):
            return False
    return None


# --------------------------------------------------------------- filesystem
@model('filesystem::path::stem', 'filesystem::path::extension', 'filesystem::path::filename', 'filesystem::path::parent_path')
def _(c):
    v = c.self()
    s = v.a[2] if v.op == 'app' and v.a[0] == 'path' else app('str', 'str', v)
    return app('path', c.prog.ty(c.fn['ret']), app(c.fn['n'], 'str', s))


@model('filesystem::path::string', 'filesystem::path::operator basic_string', 'filesystem::path::native', 'filesystem::path::c_str')
def _(c):
    v = c.self()
    return v.a[2] if v.op == 'app' and v.a[0] == 'path' else app('str', 'str', v)


@model('filesystem::exists')
def _(c):
    return app('exists', 'bool', tostr(c, 0))


# --------------------------------------------------------------- exceptions
@model('exception::what', 'runtime_error::what', 'logic_error::what')
def _(c):
    v = c.self()
    return v.a[1] if v.op == 'exc' else app('what', 'str', v)


@model('__assert_fail', 'abort', 'terminate', '__assert')
def _(c):
    c.st.cond = FALSE
    return UNDEF


@model('exit', '_Exit', 'quick_exit')
def _(c):
    c.eng.add_exit(c.fr, Exit('throw', c.st.cond, mk('exit', c.v(0)), dict(c.st.store), c.st.pc, None))
    c.st.cond = FALSE
    return UNDEF


@model('optional::has_value', 'optional::operator bool')
def _(c):
    v = c.self()

    def go(v):
        if v.op == 'ite':
            return ite(v.a[0], go(v.a[1]), go(v.a[2]))
        return B(v.op == 'some') if v.op in ('some', 'none') else app('has_value', 'bool', v)
    return go(v)


@model('optional::value', 'optional::operator*', 'optional::operator->')
def _(c):
    v = c.self()

    def go(v):
        if v.op == 'ite':
            a, b = go(v.a[1]), go(v.a[2])
            return ite(v.a[0], a, b)
        return v.a[0] if v.op == 'some' else UNDEF
    root = c.eng.newroot('any')
    c.st.store[root] = go(v)
    return ptr(root)


C.p_of = lambda self, v: self._mk(v)


def _mkroot(self, v):
    root = self.eng.newroot(tyof(v))
    self.st.store[root] = v
    return ptr(root)


C._mk = _mkroot
