"""Abstract interpreter: type-checked program (spocfacts JSON) -> value terms.

Control flow is merged, not enumerated: a state maps storage roots to terms,
branches are joined with decision trees, and loops are replaced by closed
forms (maps, filters, folds, first exits) of one symbolic iteration.
"""
import json
import subprocess
import os
import hashlib
from terms import *
import terms

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SPOC_REPO', '/repo')


class Unmodelled(Exception):
    pass


# ------------------------------------------------------------------ programs
_NEXT = [0]
PROGS = {}


class Prog:
    def __init__(self, data, name):
        self.__dict__.update(data)
        self.d = data
        self.name = name
        _NEXT[0] += 1
        self.pid = _NEXT[0]
        PROGS[self.pid] = self
        self.fns = data['fns']
        self.vars = data['vars']
        self.recs = data['recs']
        self.enums = data['enums']
        self.types = data['types']
        self.files = data['files']
        self._ty = {}
        self.byq = {}
        for i, f in enumerate(self.fns):
            if f:
                f['id'] = i
                self.byq.setdefault(f['q'], []).append(i)
        self.lambda_fn = {}

    def find(self, q, nparams=None, pred=None):
        r = []
        for i in self.byq.get(q, []):
            f = self.fns[i]
            if 'body' not in f:
                continue
            if nparams is not None and len(f['params']) != nparams:
                continue
            if pred and not pred(f):
                continue
            r.append(f)
        return r

    def where(self, node):
        l = node.get('l') if isinstance(node, dict) else None
        if not l:
            return '?'
        return '%s:%d' % (os.path.relpath(self.files[l[0]], REPO) if self.files[l[0]].startswith(REPO) else self.files[l[0]], l[1])

    def ty(self, i):
        r = self._ty.get(i)
        if r is None:
            self._ty[i] = 'rec?'
            r = self._mkty(i)
            self._ty[i] = r
        return r

    def targ(self, a):
        if isinstance(a, int):
            return self.ty(a)
        if isinstance(a, dict) and 'int' in a:
            return a['int']
        if isinstance(a, dict) and 'pack' in a:
            return ','.join(self.targ(x) for x in a['pack'])
        return '?'

    def _mkty(self, i):
        if i is None or i < 0:
            return 'void'
        t = self.types[i]
        k = t['k']
        if k == 'bool':
            return 'bool'
        if k == 'int':
            return ('i' if t['sg'] else 'u') + str(min(t['bits'], 64))
        if k == 'enum':
            return ('i' if t.get('sg', True) else 'u') + str(t.get('bits', 32))
        if k == 'float':
            return 'f32' if t['bits'] == 32 else 'f64'
        if k == 'ref':
            return self.ty(t['e'])
        if k == 'ptr':
            return 'ptr'
        if k == 'arr':
            return 'arr<%s,%d>' % (self.ty(t['e']), t['n'])
        if k == 'void':
            return 'void'
        if k == 'rec':
            return self.recty(t['r'])
        return 'opaque:' + t['s']

    def recty(self, r):
        R = self.recs[r]
        n = R['name']
        ta = R.get('targs') or []
        if n == 'std::vector' or n == 'std::initializer_list' or n == 'std::deque' or n == 'std::list' or n == 'std::span':
            return 'vec<%s>' % self.targ(ta[0])
        if n in ('std::basic_string', 'std::basic_string_view'):
            return 'str'
        if n == 'std::array':
            return 'arr<%s,%s>' % (self.targ(ta[0]), self.targ(ta[1]))
        if n in ('std::map', 'std::unordered_map', 'std::multimap'):
            return 'map<%s|%s>' % (self.targ(ta[0]), self.targ(ta[1]))
        if n in ('std::set', 'std::unordered_set'):
            return 'set<%s>' % self.targ(ta[0])
        if n == 'std::function':
            return 'fn'
        if n == 'std::any':
            return 'any'
        if n == 'std::optional':
            return 'optional<%s>' % self.targ(ta[0])
        if n in ('std::basic_ostream', 'std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_iostream',
                 'std::basic_stringstream', 'std::basic_fstream', 'std::basic_istream', 'std::basic_ifstream',
                 'std::basic_istringstream', 'std::basic_ios', 'std::ios_base'):
            return 'stream'
        if n in ('__gnu_cxx::__normal_iterator',):
            return 'ptr'
        if n in ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
            return 'mapiter'
        if R.get('lambda'):
            return 'fn'
        if n == 'std::tuple':
            full = 'std::tuple<%s>' % ','.join(self.targ(x) for x in ta)
            parts = ta[0].get('pack', []) if ta and isinstance(ta[0], dict) else ta
            RECORDS[full] = dict(fields=[('_%d' % j, self.targ(x), 0) for j, x in enumerate(parts)], size=0)
            return full
        full = n + ('<%s>' % ','.join(self.targ(x) for x in ta) if ta else '')
        fs = R.get('fields')
        if fs is not None and (R.get('mine') or n in ('std::pair', 'z_stream_s')):
            if full not in RECORDS:
                RECORDS[full] = dict(fields=None, size=R.get('size', 0))
                out = []
                for b in R.get('bases') or []:
                    bt = self.ty(b)
                    if is_rec(bt):
                        out += RECORDS[bt]['fields']
                    elif n != 'std::pair':
                        out.append(('(base)' + bt, bt, 0))
                for f in fs:
                    out.append((f['n'], self.ty(f['t']), f['off']))
                RECORDS[full]['fields'] = out
            return full
        return 'opaque:' + full


STREAM = 'stream'
RECORDS[STREAM] = dict(fields=[
    ('items', 'vec<item>', 0),     # everything written so far
    ('fail', 'bool', 0),           # an output or input operation has failed
    ('dirty', 'bool', 0),          # something was written since the last flush
    ('pos', 'nat', 0),             # bytes read so far
    ('name', 'any', 0),            # which stream (path it was opened with)
    ('open', 'any', 0),
    ('fmt', 'any', 0),             # formatting state
], size=0)


def facts(file, args, roots=None, extra=None):
    roots = roots or [REPO, os.path.join(os.path.dirname(HERE), 'spec'), os.path.join(os.path.dirname(HERE), 'harness')]
    tool = os.path.join(os.path.dirname(HERE), 'build', 'spocfacts')
    p = subprocess.run([tool, ':'.join(roots), file, '--'] + args, capture_output=True)
    if not p.stdout:
        raise RuntimeError('cannot analyse %s: %s' % (file, p.stderr.decode(errors='replace')[-2000:]))
    d = json.loads(p.stdout)
    # errors inside a function leave only that function out; errors
    # elsewhere leave the whole translation unit out
    bad = [f for f in d['fns'] if f and f.get('errors')]
    if d.get('errors') and len(bad) == 0:
        raise RuntimeError('cannot analyse %s: %s' % (file, d['errors'][:3]))
    q = Prog(d, file)
    q.errors = d.get('errors') or []
    return q


# -------------------------------------------------------------------- state
class St:
    __slots__ = ('store', 'cond', 'pc')

    def __init__(self, store, cond, pc):
        self.store = store
        self.cond = cond
        self.pc = pc

    @property
    def dead(self):
        return self.cond is FALSE

    def copy(self):
        return St(dict(self.store), self.cond, self.pc)

    def fork(self, c):
        s = St(dict(self.store), AND(self.cond, c), self.pc)
        s.add(c)
        return s

    def add(self, c):
        self.pc = self.pc + tuple(conj(c))

    def restrict(self, c):
        self.cond = AND(self.cond, c)
        self.add(c)

    def simp(self, t):
        if t.op in ('b', 'i', 'f', 'strc'):
            return t
        for a, v in self.pc:
            t = assume(t, a, v)
        return t

    def set(self, o):
        self.store, self.cond, self.pc = o.store, o.cond, o.pc


def conj(c, v=True):
    out = []
    while c.op == 'ite':
        a, t, e = c.a
        if v:
            if e is FALSE:
                out.append((a, True))
                c = t
                continue
            if t is FALSE:
                out.append((a, False))
                c = e
                continue
            return out
        return out
    if c.op != 'b' and c.op != 'bad':
        out.append((c, True))
    return out


def merge_store(c, a, b):
    if a is b:
        return a
    r = dict(b)
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            r[k] = v
        elif w is not v:
            r[k] = ite(c, v, w)
    return r


def merge(a, b, c=None):
    if a.dead:
        return b
    if b.dead:
        return a
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
        n += 1
    pc = a.pc[:n]
    care = OR(a.cond, b.cond)
    if c is None:
        c = restrict(a.cond, care)
    for x, v in pc:
        c = assume(c, x, v)
    s = St(merge_store(c, a.store, b.store), care, pc)
    # the condition may be stronger than the common facts
    cc = s.cond
    for x, v in pc:
        cc = assume(cc, x, v)
    if cc is not TRUE:
        s.pc = pc + tuple(conj(cc))
    return s


class Exit:
    __slots__ = ('kind', 'cond', 'val', 'store', 'pc', 'where')

    def __init__(self, kind, cond, val, store, pc, where=None):
        self.kind, self.cond, self.val, self.store, self.pc, self.where = kind, cond, val, store, pc, where


class Frame:
    def __init__(self, prog, fn, fid):
        self.prog = prog
        self.fn = fn
        self.fid = fid
        self.env = {}
        self.this = None
        self.exits = []


def ptr(root, *path):
    return mk('ptr', root, tuple(path))


NULL = mk('null')


def ptr_field(p, name):
    if p.op == 'ite':
        return ite(p.a[0], ptr_field(p.a[1], name), ptr_field(p.a[2], name))
    if p.op == 'ptr':
        return mk('ptr', p.a[0], p.a[1] + (('f', name),))
    return bad('field of %s' % p.op)


def ptr_index(p, i):
    """element i of the sequence that p designates"""
    if p.op == 'ite':
        return ite(p.a[0], ptr_index(p.a[1], i), ptr_index(p.a[2], i))
    if p.op == 'ptr':
        return mk('ptr', p.a[0], p.a[1] + (('i', i),))
    return bad('element of %s' % p.op)


def ptr_add(p, n):
    if p.op == 'ite':
        return ite(p.a[0], ptr_add(p.a[1], n), ptr_add(p.a[2], n))
    if n.op == 'ite' and leaves(n) < 20:
        return ite(n.a[0], ptr_add(p, n.a[1]), ptr_add(p, n.a[2]))
    if p.op == 'ptr':
        if n is ZERO:
            return p
        if p.a[1] and p.a[1][-1][0] == 'i':
            return mk('ptr', p.a[0], p.a[1][:-1] + (('i', add(p.a[1][-1][1], n)),))
        if p.a[1] and p.a[1][-1][0] == 'as':
            return mk('ptr', p.a[0], p.a[1][:-1] + (('as', p.a[1][-1][1], add(p.a[1][-1][2], n)),))
        return mk('ptr', p.a[0], p.a[1] + (('+', n),))
    return bad('arithmetic on %s' % p.op)


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.frames = 0
        self.rootty = {}
        self.stubs = {}
        self.funcs = {}
        self.notes = {}
        self.depth = 0
        self.stack = []
        self.tmproot = 0
        self.loops = 0
        self.unrolled = 0
        self.steps = 0
        self.max_steps = 400000
        import models
        self.models = models

    # ------------------------------------------------------------- utilities
    def note(self, why, node=None, prog=None):
        w = (prog or self.prog).where(node) if node is not None else ''
        self.notes.setdefault(why, w)
        return bad(why)

    def newroot(self, ty, fr=None, hint='m'):
        self.tmproot += 1
        r = (hint, self.tmproot)
        self.rootty[r] = ty
        return r

    # --------------------------------------------------------------- memory
    def view_as(self, p, ty):
        """a pointer into raw bytes seen as a pointer to something else"""
        if p.op == 'ite':
            return ite(p.a[0], self.view_as(p.a[1], ty), self.view_as(p.a[2], ty))
        if p.op != 'ptr' or not p.a[1]:
            return p
        root, path = p.a
        raw = ty in ('u8', 'i8', 'void', 'any')
        if path[-1][0] == 'as':
            _, t, off = path[-1]
            if raw:
                return mk('ptr', root, path[:-2] + (('i', add(path[-2][1], mul(off, I(self.sizeof(t))))),))
            if off is ZERO:
                return mk('ptr', root, path[:-1] + (('as', ty, ZERO),))
            return p
        if raw or path[-1][0] != 'i' or self.pathty(root, path) not in ('u8', 'i8'):
            return p
        if self.sizeof(ty) in (None, 1):
            return p
        return mk('ptr', root, path + (('as', ty, ZERO),))

    def sizeof(self, ty):
        if ty in SIZES:
            return SIZES[ty]
        if is_rec(ty):
            return RECORDS[ty].get('size')
        return None

    def from_bytes(self, ty, byte):
        """the value of type ty whose j-th byte is byte(j)"""
        if ty in SIZES:
            if ty == 'bool':
                return NOT(eq0(byte(0)))
            return asm(ty, [byte(j) for j in range(SIZES[ty])])
        if is_rec(ty) and RECORDS[ty]['fields']:
            return mk_struct(ty, [self.from_bytes(f[1], lambda j, o=f[2]: byte(o + j)) for f in RECORDS[ty]['fields']])
        return bad('bytes as ' + ty)

    def pathty(self, root, path):
        ty = self.rootty.get(root, 'any')
        for s in path:
            if s[0] == 'f':
                if ty in RECORDS and RECORDS[ty]['fields']:
                    i = field_index(ty, s[1])
                    ty = RECORDS[ty]['fields'][i][1] if i is not None else 'any'
                else:
                    return 'any'
            elif s[0] == 'i':
                ty = elem_ty(ty) or 'any'
            elif s[0] == 'as':
                ty = s[1]
            elif s[0] == 'v':
                ty = ty[4:-1].split('|', 1)[1] if ty.startswith('map<') else 'any'
        return ty

    def read(self, st, p):
        if p.op == 'ite':
            return ite(p.a[0], self.read(st, p.a[1]), self.read(st, p.a[2]))
        if p.op != 'ptr':
            return bad('read through %s' % p.op)
        v = st.store.get(p.a[0])
        if v is None:
            v = self.initial(p.a[0])
            st.store[p.a[0]] = v
        prev = None
        for j, s in enumerate(p.a[1]):
            if s[0] == 'as':
                k = add(p.a[1][j - 1][1], mul(s[2], I(self.sizeof(s[1]))))
                v = self.from_bytes(s[1], lambda o: idx(prev, add(k, I(o))))
                continue
            prev = v
            v = self.step(v, s)
        return v

    def step(self, v, s):
        if s[0] == 'f':
            return fld(v, s[1])
        if s[0] == 'i':
            r = idx(v, s[1])
            return r
        if s[0] == 'v':
            return self.models.map_get(v, s[1])
        if s[0] == 'c':
            return self.cap(v, s[1])
        return bad('unaligned access')

    def cap(self, v, j):
        """the j-th captured value of a closure"""
        if v.op == 'ite':
            return ite(v.a[0], self.cap(v.a[1], j), self.cap(v.a[2], j))
        if v.op != 'closure' or j >= len(v.a[2]):
            return bad('captured value')
        return v.a[2][j][2]

    def initial(self, root):
        if root[0] == 'g':
            return sym('global:' + root[1], self.rootty.get(root, 'any'))
        return UNDEF

    def write(self, st, p, v):
        if p.op == 'ite':
            c = p.a[0]
            o1 = self.read(st, p.a[1])
            self.write(st, p.a[1], ite(c, v, o1))
            o2 = self.read(st, p.a[2])
            self.write(st, p.a[2], ite(c, o2, v))
            return
        if p.op != 'ptr':
            self.note('write through ' + p.op)
            return
        root, path = p.a
        if not path:
            st.store[root] = v
            return
        old = st.store.get(root)
        if old is None:
            old = self.initial(root)
        if any(x[0] == 'as' for x in path):
            self.note('write through a cast pointer')
            v, path = bad('write through a cast pointer'), ()
            st.store[root] = v
            return
        st.store[root] = self.wr(old, path, 0, v, self.rootty.get(root, 'any'))

    def wr(self, old, path, i, v, ty):
        if i == len(path):
            return v
        s = path[i]
        if s[0] == 'f':
            if old.op == 'undef' and is_rec(ty):
                old = mk_struct(ty, [UNDEF for _ in RECORDS[ty]['fields']])
            fty = 'any'
            y = tyof(old)
            if y in RECORDS and RECORDS[y]['fields']:
                j = field_index(y, s[1])
                if j is not None:
                    fty = RECORDS[y]['fields'][j][1]
            return set_fld(old, s[1], self.wr(fld(old, s[1]), path, i + 1, v, fty))
        if s[0] == 'i':
            ety_ = elem_ty(ty) or 'any'
            if old.op == 'undef' and ty.startswith('arr<'):
                n = int(ty[ty.rindex(',') + 1:-1])
                old = lit(*([UNDEF] * n)) if n <= 64 else rep(I(n), UNDEF)
            return upd(old, s[1], self.wr(idx(old, s[1]), path, i + 1, v, ety_))
        if s[0] == 'c':
            if old.op != 'closure':
                return bad('captured value')
            caps = list(old.a[2])
            caps[s[1]] = caps[s[1]][:2] + (self.wr(caps[s[1]][2], path, i + 1, v, 'any'),)
            return mk('closure', old.a[0], old.a[1], tuple(caps))
        if s[0] == 'v':
            return self.models.map_put(old, s[1], self.wr(self.models.map_get(old, s[1]), path, i + 1, v, 'any'))
        self.note('unaligned write')
        return old

    def zero(self, ty):
        if ty in INTS:
            return ZERO
        if ty == 'bool':
            return FALSE
        if ty in ('f64', 'f32'):
            return F(0.0)
        if ty == 'ptr':
            return NULL
        if ty == 'str' or ty.startswith('vec<'):
            return SEQ0
        if ty.startswith('arr<'):
            n = int(ty[ty.rindex(',') + 1:-1])
            return rep(I(n), self.zero(elem_ty(ty)))
        if ty.startswith('map<') or ty.startswith('set<'):
            return mk('map0')
        if ty == 'fn':
            return mk('nofn')
        if ty == 'any':
            return mk('noany')
        if ty.startswith('optional<'):
            return mk('none')
        if ty == STREAM:
            return self.models.new_stream('?')
        if is_rec(ty):
            return mk_struct(ty, [self.zero(f[1]) for f in RECORDS[ty]['fields']])
        return UNDEF

    # ------------------------------------------------------------ functions
    def call_fn(self, prog, fn, this, args, st, fr, node=None):
        """args: pointer terms for reference parameters, values otherwise"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unmodelled('step budget')
        stub = self.stubs.get(fn['q'])
        if stub:
            r = stub(self, st, fr, fn, this, args, node)
            if r is not NotImplemented:
                return r
        if fn.get('errors'):
            return self.note('not compiled: ' + fn['q'], node, prog)
        if 'body' not in fn:
            return self.note('no body: ' + fn['q'], node, prog)
        key = (prog.pid, fn['id'])
        if self.stack.count(key) > 0 and len(self.stack) > 60 or self.stack.count(key) > 3:
            return self.note('recursion: ' + fn['q'], node, prog)
        self.funcs[fn['q']] = prog.where(fn)
        self.frames += 1
        f = Frame(prog, fn, self.frames)
        f.this = this
        for p, a in zip(fn['params'], args):
            pty = prog.types[p['t']]
            if pty['k'] == 'ref':
                f.env[p['v']] = a
            else:
                root = ('v', f.fid, p['v'])
                self.rootty[root] = prog.ty(p['t'])
                f.env[p['v']] = ptr(root)
                st.store[root] = a
        s = St(st.store, TRUE, st.pc)
        s.store = dict(st.store)
        self.stack.append(key)
        try:
            for ini in fn.get('inits') or []:
                self.ctor_init(ini, this, s, f)
            if not s.dead:
                self.exec(fn['body'], s, f)
        finally:
            self.stack.pop()
        rets = []
        for e in f.exits:
            if e.kind == 'ret':
                rets.append(e)
            elif e.kind == 'throw':
                self.add_exit(fr, Exit('throw', AND(st.cond, e.cond), e.val, e.store, e.pc, e.where))
            else:
                self.note('stray exit ' + e.kind)
        if not s.dead:
            rets.append(Exit('ret', s.cond, UNDEF, s.store, s.pc))
        if not rets:
            st.cond = FALSE
            return UNDEF
        v = rets[-1].val
        store = rets[-1].store
        cond = rets[-1].cond
        for e in reversed(rets[:-1]):
            cond = OR(cond, e.cond)
            c = restrict(e.cond, cond)
            v = ite(c, e.val, v)
            store = merge_store(c, e.store, store)
        cond = st.simp(cond)
        if len(rets) == 1:
            for k, r in enumerate(st.pc):
                pass
        store = {k: x for k, x in store.items() if not (k[0] == 'v' and k[1] == f.fid)}
        st.store = store
        if cond is not TRUE:
            st.restrict(cond)
        return v

    def add_exit(self, fr, e):
        if e.cond is not FALSE:
            fr.exits.append(e)

    def ctor_init(self, ini, this, s, f):
        e = ini['e']
        if ini.get('deleg'):
            v = self.ev(e, s, f)
            self.write(s, this, v)
        elif 'f' in ini:
            target = ptr_field(this, ini['f'])
            if e is None:
                return
            p = self.prog_of(f)
            v = self.ev_init(e, s, f)
            self.write(s, target, v)
        elif 'base' in ini:
            bt = f.prog.ty(ini['base'])
            if is_rec(bt):
                v = self.ev(e, s, f)
                for fl in RECORDS[bt]['fields']:
                    self.write(s, ptr_field(this, fl[0]), fld(v, fl[0]))

    def prog_of(self, f):
        return f.prog

    def throw(self, st, fr, val, node):
        self.add_exit(fr, Exit('throw', st.cond, val, st.store, st.pc, fr.prog.where(node) if node else None))
        st.cond = FALSE

    # ----------------------------------------------------------- statements
    def exec(self, n, st, fr):
        if n is None or st.dead:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unmodelled('step budget')
        getattr(self, 'x_' + n['k'], self.x_other)(n, st, fr)

    def x_other(self, n, st, fr):
        self.note('statement ' + n['k'] + ':' + n.get('n', ''), n, fr.prog)

    def x_null(self, n, st, fr):
        pass

    def x_block(self, n, st, fr):
        for s in n['s']:
            if st.dead:
                break
            self.exec(s, st, fr)

    def x_expr(self, n, st, fr):
        self.ev(n['e'], st, fr, discard=True)

    def x_label(self, n, st, fr):
        self.exec(n['s'], st, fr)

    def x_decl(self, n, st, fr):
        for d in n['d']:
            self.declare(d, st, fr)

    def declare(self, d, st, fr):
        p = fr.prog
        t = p.types[d['t']]
        if d.get('bindings') is not None:
            ini = d.get('init')
            if t['k'] == 'ref':
                base = self.lv(ini, st, fr)
            else:
                root = ('v', fr.fid, d['v'])
                self.rootty[root] = p.ty(d['t'])
                st.store[root] = self.ev_init(ini, st, fr)
                base = ptr(root)
            fr.env[d['v']] = base
            ty = p.ty(d['t'])
            for i, b in enumerate(d['bindings']):
                if is_rec(ty):
                    fr.env[b['v']] = ptr_field(base, RECORDS[ty]['fields'][i][0])
                else:
                    fr.env[b['v']] = ptr_index(base, I(i))
                if 'hv' in b:
                    fr.env[b['hv']] = fr.env[b['v']]
            return
        if d.get('static') or d.get('ext'):
            root = ('g', p.vars[d['v']].get('q') or d['n'])
            self.rootty[root] = p.ty(d['t'])
            fr.env[d['v']] = ptr(root)
            if root not in st.store:
                if p.types[d['t']].get('c') and d.get('init') is not None:
                    st.store[root] = self.ev_init(d['init'], st, fr)
                else:
                    st.store[root] = sym('static:' + root[1], p.ty(d['t']))
                    if p.types[d['t']]['s'].replace('struct ', '').replace('const ', '').split('[')[0].strip() != 'option':
                        self.note('static local %s' % d['n'], None)
            return
        if t['k'] == 'ref':
            fr.env[d['v']] = self.lv(d['init'], st, fr)
            return
        ty = p.ty(d['t'])
        root = ('v', fr.fid, d['v'])
        self.rootty[root] = ty
        st.store[root] = UNDEF
        fr.env[d['v']] = ptr(root)
        if d.get('init') is not None:
            v = self.ev_init(d['init'], st, fr)
            st.store[root] = v
        elif ty == STREAM:
            st.store[root] = self.models.new_stream('?')

    def ev_init(self, n, st, fr):
        return self.ev(n, st, fr)

    def x_if(self, n, st, fr):
        if n.get('init'):
            self.exec(n['init'], st, fr)
        if n.get('cv'):
            self.exec(n['cv'], st, fr)
        if n.get('cx'):
            self.exec(n['then'] or n['else'], st, fr)
            return
        c = st.simp(self.cond(n['c'], st, fr))
        if st.dead:
            return
        if c.op == 'bad' or (c.op == 'ite' and c.a[0].op == 'bad'):
            c = app('unknown', 'bool', I(self.fresh()))
        if c is TRUE:
            return self.exec(n['then'], st, fr)
        if c is FALSE:
            return self.exec(n['else'], st, fr)
        s1 = st.fork(c)
        s2 = st.fork(NOT(c))
        self.exec(n['then'], s1, fr)
        self.exec(n['else'], s2, fr)
        st.set(merge(s1, s2, c))

    def fresh(self):
        _NEXT[0] += 1
        return _NEXT[0]

    def x_ret(self, n, st, fr):
        v = UNDEF
        if n['e'] is not None:
            fn = fr.fn
            if fr.prog.types[fn['ret']]['k'] == 'ref':
                v = self.lv(n['e'], st, fr)
            else:
                v = self.ev(n['e'], st, fr)
        if st.dead:
            return
        self.add_exit(fr, Exit('ret', st.cond, v, st.store, st.pc))
        st.cond = FALSE

    def x_break(self, n, st, fr):
        self.add_exit(fr, Exit('break', st.cond, UNDEF, st.store, st.pc))
        st.cond = FALSE

    def x_continue(self, n, st, fr):
        self.add_exit(fr, Exit('continue', st.cond, UNDEF, st.store, st.pc))
        st.cond = FALSE

    def x_try(self, n, st, fr):
        mark = len(fr.exits)
        s = st.copy()
        self.exec(n['body'], s, fr)
        new = fr.exits[mark:]
        del fr.exits[mark:]
        res = s
        for e in new:
            if e.kind != 'throw':
                fr.exits.append(e)
                continue
            h = self.handler(n['h'], e, fr)
            if h is None:
                fr.exits.append(e)
                continue
            hs = St(dict(e.store), e.cond, e.pc)
            if h.get('v') is not None:
                root = ('v', fr.fid, h['v'])
                self.rootty[root] = fr.prog.ty(h['t'])
                hs.store[root] = e.val
                fr.env[h['v']] = ptr(root)
            fr.cur_exc = e.val
            self.exec(h['body'], hs, fr)
            res = merge(res, hs) if not res.dead else hs
        st.set(res)

    def handler(self, hs, e, fr):
        for h in hs:
            if h.get('t') is None:
                return h
            want = fr.prog.ty(h['t'])
            if self.models.exc_matches(e.val, want):
                return h
        return None

    def x_omp(self, n, st, fr):
        if n.get('s') is not None:
            self.exec(n['s'], st, fr)

    def x_switch(self, n, st, fr):
        if n.get('init'):
            self.exec(n['init'], st, fr)
        if n.get('cv'):
            self.exec(n['cv'], st, fr)
        v = self.ev(n['c'], st, fr)
        if is_bool(v):
            v = ite(v, ONE, ZERO)
        items = []

        def flatten(s):
            if s is None:
                return
            if s['k'] == 'case':
                if 'v2' in s:
                    items.append(('case2', s['v'], s['v2']))
                else:
                    items.append(('case', s['v'], None))
                flatten(s['s'])
            elif s['k'] == 'default':
                items.append(('default', None, None))
                flatten(s['s'])
            else:
                items.append(('stmt', s, None))
        body = n['body']
        for s in (body['s'] if body['k'] == 'block' else [body]):
            flatten(s)
        conds = []
        for it in items:
            if it[0] == 'case':
                conds.append(equal(v, self.ev(it[1], st, fr)))
            elif it[0] == 'case2':
                conds.append(AND(le(self.ev(it[1], st, fr), v), le(v, self.ev(it[2], st, fr))))
        other = ALL([NOT(c) for c in conds])
        ci = 0
        cur = St({}, FALSE, ())
        mark = len(fr.exits)
        hasdef = False
        for it in items:
            if it[0] == 'stmt':
                if not cur.dead:
                    self.exec(it[1], cur, fr)
                continue
            if it[0] == 'default':
                c = other
                hasdef = True
            else:
                c = conds[ci]
                ci += 1
            c = st.simp(c)
            e = st.fork(c)
            if e.dead:
                continue
            cur = merge(e, cur, None) if not cur.dead else e
        outs = []
        if not cur.dead:
            outs.append(cur)
        if not hasdef:
            e = st.fork(st.simp(other))
            if not e.dead:
                outs.append(e)
        keep = []
        for e in fr.exits[mark:]:
            if e.kind == 'break':
                outs.append(St(e.store, e.cond, e.pc))
            else:
                keep.append(e)
        fr.exits[mark:] = keep
        if not outs:
            st.cond = FALSE
            return
        r = outs[0]
        for o in outs[1:]:
            r = merge(r, o)
        st.set(r)

    # ---------------------------------------------------------------- loops
    def x_while(self, n, st, fr):
        def cond(s, f):
            if n.get('cv'):
                self.exec(n['cv'], s, f)
            return self.cond(n['c'], s, f)
        self.loop(st, fr, cond, lambda s, f: self.exec(n['body'], s, f), None, n)

    def x_do(self, n, st, fr):
        go = self.newroot('bool', hint='go')
        st.store[go] = TRUE

        def inc(s, f):
            c = s.simp(self.cond(n['c'], s, f))
            if c is TRUE or c is FALSE or c.op == 'bad' or (c.op == 'ite' and c.a[0].op == 'bad'):
                s.store[go] = c
            else:
                # as if the body ended with a conditional break
                self.add_exit(f, Exit('break', AND(s.cond, NOT(c)), UNDEF, dict(s.store), s.pc + ((c, False),)))
                s.restrict(c)
        self.loop(st, fr, lambda s, f: s.store[go], lambda s, f: self.exec(n['body'], s, f), inc, n)
        st.store.pop(go, None)

    def x_for(self, n, st, fr):
        if n.get('init'):
            self.exec(n['init'], st, fr)

        def cond(s, f):
            return TRUE if n['c'] is None else self.cond(n['c'], s, f)

        def inc(s, f):
            if n['inc'] is not None:
                self.ev(n['inc'], s, f, discard=True)
        self.loop(st, fr, cond, lambda s, f: self.exec(n['body'], s, f), inc, n)

    def x_rfor(self, n, st, fr):
        if n.get('init'):
            self.exec(n['init'], st, fr)
        p = fr.prog
        base = self.lv(n['range'], st, fr) if p.types[n['rt']]['k'] == 'ref' else None
        if base is None:
            root = self.newroot(p.ty(n['rt']))
            st.store[root] = self.ev(n['range'], st, fr)
            base = ptr(root)
        seq = self.read(st, base)
        d = n['var']['d'][0]
        var = d['v']
        isref = p.types[d['t']]['k'] == 'ref'
        vty = p.ty(d['t'])
        sty = p.ty(n['rt'])
        if seq.op in ('map0', 'put') or tyof(seq).startswith(('map<', 'set<')) or sty.startswith(('map<', 'set<')):
            ents = self.models.map_entries(seq, sty if sty.startswith(('map<', 'set<')) else tyof(seq))
            if ents is None:
                self.note('iteration over a map', n, p)
                return
            root0 = self.newroot('vec<%s>' % vty)
            st.store[root0] = ents
            base = ptr(root0)
            seq = ents

        def body_at(s, f, i):
            if d.get('bindings') is not None:
                q = ptr_index(base, i)
                et = ety(self.read(s, base)) or 'any'
                if not isref:
                    root = ('v', f.fid, var)
                    self.rootty[root] = vty
                    s.store[root] = self.read(s, q)
                    q = ptr(root)
                    et = vty
                for j, b in enumerate(d['bindings']):
                    f.env[b['v']] = ptr_field(q, RECORDS[et]['fields'][j][0]) if is_rec(et) else ptr_index(q, I(j))
                    if 'hv' in b:
                        f.env[b['hv']] = f.env[b['v']]
            elif isref:
                f.env[var] = ptr_index(base, i)
            else:
                root = ('v', f.fid, var)
                self.rootty[root] = vty
                v = self.read(s, ptr_index(base, i))
                s.store[root] = self.convert(v, ety(seq) or 'any', vty)
                f.env[var] = ptr(root)
            self.exec(n['body'], s, f)
        self.loop_n(st, fr, length(seq), body_at, n)

    def loop_n(self, st, fr, n, body_at, node=None):
        """for (k = 0; k < n; ++k) body_at(k)"""
        kr = self.newroot('nat', hint='k')
        st.store[kr] = ZERO
        st.simp(n)

        def inc(s, f):
            s.store[kr] = add(s.store[kr], ONE)
        self.loop(st, fr, lambda s, f: lt(s.store[kr], n), lambda s, f: body_at(s, f, s.store[kr]), inc, node)
        st.store.pop(kr, None)

    UNROLL = 48

    def loop(self, st, fr, cond, body, inc, node, split=0):
        """while (cond) { body; inc; }"""
        self.loops += 1
        # constant trip counts are unrolled
        save = st.copy()
        mark = len(fr.exits)
        breaks = []
        s = st.copy()
        ok = False
        most = self.UNROLL
        if node is not None and (node.get('k') == 'do' or (node.get('k') in ('for', 'while') and
                                                           (not node.get('c') or node['c'].get('k') == 'lit' or node['c'].get('cv')))):
            most = 2    # only its exits end it
        for it in range(most + 1):
            pre = s.copy()
            c = s.simp(cond(s, fr))
            if s.dead:
                ok = True
                break
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                s = pre
                break
            if it == most:
                break
            m2 = len(fr.exits)
            body(s, fr)
            s = self.join_exits(s, fr, m2, breaks)
            if s.dead:
                ok = True
                break
            if inc:
                m2 = len(fr.exits)
                inc(s, fr)
                if any(e.kind == 'break' for e in fr.exits[m2:]):
                    s = pre
                    break
        if ok:
            self.unrolled += 1
            r = s
            if s.dead and not breaks:
                st.set(St(s.store, FALSE, s.pc))
                return
            for b in breaks:
                r = merge(St(b.store, b.cond, b.pc), r) if not r.dead else St(b.store, b.cond, b.pc)
            st.set(r)
            return
        # start again, symbolically
        del fr.exits[mark:]
        st.set(save)
        self.sym_loop(st, fr, cond, body, inc, node, split)

    def join_exits(self, s, fr, mark, breaks):
        """continue exits rejoin s, break exits are collected"""
        keep = []
        r = s
        for e in fr.exits[mark:]:
            if e.kind == 'continue':
                x = St(e.store, e.cond, e.pc)
                r = merge(x, r) if not r.dead else x
            elif e.kind == 'break':
                breaks.append(e)
            else:
                keep.append(e)
        fr.exits[mark:] = keep
        return r

    def diff_paths(self, a, b, path, out, root, lv=None):
        if a is b:
            return
        if lv is not None and a is not None and b is not None and b.op == 'upd' and not (b.a[1].fv & lv):
            i = b.a[1]
            if a.op == 'upd' and a.a[0] is b.a[0] and a.a[1] is i:
                return self.diff_paths(a.a[2], b.a[2], path + (('i', i),), out, root, lv)
            if b.a[0] is a:
                return self.diff_paths(idx(a, i), b.a[2], path + (('i', i),), out, root, lv)
        if a is None or b is None:
            out.append(path)
            return
        ya, yb = tyof(a), tyof(b)
        if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and a.a[1] and \
                a.a[1][:-1] == b.a[1][:-1] and a.a[1][-1][0] == 'i' and b.a[1][-1][0] == 'i':
            out.append(path + (('p',),))
            return
        if (a.op == 'struct' or b.op == 'struct') and ya == yb and is_rec(ya):
            for f in RECORDS[ya]['fields']:
                self.diff_paths(fld(a, f[0]), fld(b, f[0]), path + (('f', f[0]),), out, root, lv)
            return
        if a.op == 'closure' and b.op == 'closure' and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
            if all(x[0] == 'c' and y[0] == 'c' or x == y for x, y in zip(a.a[2], b.a[2])):
                for j, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                    if x[0] == 'c':
                        self.diff_paths(x[2], y[2], path + (('c', j),), out, root, lv)
                return
        if a.op == 'lit' and b.op == 'lit' and len(a.a) == len(b.a) and any(x.op == 'closure' for x in a.a):
            for j, (x, y) in enumerate(zip(a.a, b.a)):
                self.diff_paths(x, y, path + (('i', I(j)),), out, root, lv)
            return
        out.append(path)

    def disjoint(self, locs):
        """locations of which no two can overlap without being the same"""
        while True:
            for x in locs:
                for y in locs:
                    if x[0] != y[0] or x[1] is y[1] or x[1] == y[1]:
                        continue
                    for j, (p, q) in enumerate(zip(x[1], y[1])):
                        if p != q:
                            break
                    else:
                        continue
                    if p[0] == 'i' and q[0] == 'i':
                        locs = (locs - {x, y}) | {(x[0], x[1][:j])}
                        break
                else:
                    continue
                break
            else:
                return locs

    def get_at(self, store, root, path):
        v = store.get(root)
        if v is None:
            return UNDEF
        for s in path:
            if s[0] == 'f':
                v = fld(v, s[1])
            elif s[0] == 'i':
                v = idx(v, s[1])
            elif s[0] == 'c':
                v = self.cap(v, s[1])
            elif s[0] == 'p':
                if v.op != 'ptr':
                    return bad('pointer merge in a loop')
                v = v.a[1][-1][1]
        return v

    def set_at(self, store, root, path, v):
        if path and path[-1][0] == 'p':
            old = self.get_at(store, root, path[:-1])
            if old.op != 'ptr':
                v = bad('pointer')
            else:
                v = mk('ptr', old.a[0], old.a[1][:-1] + (('i', v),))
            path = path[:-1]
        if not path:
            store[root] = v
            return
        store[root] = self.wr(store.get(root, UNDEF), path, 0, v, self.rootty.get(root, 'any'))

    def loc_ty(self, root, path, v):
        if path and path[-1][0] == 'p':
            return 'nat'
        y = self.pathty(root, path)
        if y in ('any', 'rec?'):
            y = tyof(v)
            if y == 'int':
                y = 'i64'
        return y

    def split_loop(self, C, st, fr, cond, body, inc, node, split, notes0=None):
        """one loop for each value of a condition that does not change"""
        if notes0 is not None:
            self.notes.clear()
            self.notes.update(notes0)
        a, b = st.fork(C), st.fork(NOT(C))
        for x, val in ((a, True), (b, False)):
            if not x.dead:
                for at, v in conj(C if val else NOT(C)):
                    for r, t in list(x.store.items()):
                        if t.op == 'ite':
                            x.store[r] = assume(t, at, v)
                self.loop(x, fr, cond, body, inc, node, split + 1)
        if a.dead:
            st.set(b)
        elif b.dead:
            st.set(a)
        else:
            st.set(merge(a, b, C))

    def sym_loop(self, st, fr, cond, body, inc, node, split=0):
        locs = {}       # (root, path) -> havoc variable
        known_len = {}          # (root, path) -> length that every round keeps, or None
        keep = {}               # (root, path) -> truth value that every round keeps, or None
        notes0 = dict(self.notes)
        for rnd in range(16):
            self.notes.clear()
            self.notes.update(notes0)
            h = St(dict(st.store), TRUE, st.pc + tuple((eq0(sub(length(locs[y]), z)), True) for y, z in known_len.items() if z is not None and y in locs))
            for y, v in locs.items():
                self.set_at(h.store, y[0], y[1], v if keep.get(y) is None else keep[y])
            start = dict(h.store)
            lvars = frozenset(locs.values())
            mark = len(fr.exits)
            breaks = []
            c = h.simp(cond(h, fr))
            if c.op == 'bad' or (c.op == 'ite' and c.a[0].op == 'bad'):
                c = app('unknown', 'bool', I(self.fresh()))
            headexits = fr.exits[mark:]
            h.restrict(c)
            pcbody = h.pc
            body(h, fr)
            h = self.join_exits(h, fr, mark, breaks)
            if inc and not h.dead:
                inc(h, fr)
            exits = fr.exits[mark:] + breaks
            del fr.exits[mark:]
            out = set()
            stores = ([] if h.dead else [h.store]) + [e.store for e in exits]
            for sto in ([] if h.dead else [h.store]):
                for root, v in start.items():
                    ps = []
                    w = sto.get(root)
                    if w is not None:
                        self.diff_paths(v, w, (), ps, root, lvars)
                    for p in ps:
                        out.add((root, p))
            out = self.disjoint(out | set(locs))
            new = [x for x in out if x not in locs and not any(x[0] == y[0] and x[1][:len(y[1])] == y[1] for y in locs)]
            if not new:
                again = False
                for (root, p), v in locs.items():
                    y = (root, p)
                    if not h.dead and tyof(v) == 'bool':
                        if y not in keep:
                            i = terms.restrict(st.simp(self.get_at(st.store, root, p)), st.cond)
                            keep[y] = i if i is TRUE or i is FALSE else None
                            again = again or keep[y] is not None
                        elif keep[y] is not None:
                            w = self.get_at(h.store, root, p)
                            if w is not keep[y] and h.simp(w) is not keep[y] and terms.restrict(h.simp(w), h.cond) is not keep[y]:
                                keep[y] = None
                                again = True
                    if h.dead or not is_vec(tyof(v)):
                        continue
                    ln = length(self.get_at(h.store, root, p))
                    lv = length(v)
                    if y not in known_len:
                        li = length(self.get_at(st.store, root, p))
                        known_len[y] = None
                        if lv.op == 'len' and li.op == 'ite' and split < 2 and li.a[0].op in ('pos', 'eq0') and not (li.a[0].fv & lvars):
                            return self.split_loop(li.a[0], st, fr, cond, body, inc, node, split, notes0)
                        if lv.op == 'len' and li.op not in ('bad', 'ite') and (ln is lv or terms.contains(ln, lambda q: q.op in ('mu', 'fold'))):
                            known_len[y] = li
                            if li.op != 'i' or ln is not lv:
                                again = True
                    elif known_len[y] is not None and ln is not lv and ln is not known_len[y]:
                        known_len[y] = None
                        again = True
                if again:
                    continue
                break
            for root, p in new:
                # a coarser location replaces finer ones
                for y in list(locs):
                    if y[0] == root and y[1][:len(p)] == p:
                        del locs[y]
                v0 = self.get_at(st.store, root, p)
                ty = self.loc_ty(root, p, v0)
                locs[(root, p)] = tmp(ty, 'st')
        else:
            raise Unmodelled('loop state does not stabilise')
        keys = [y for y in locs if keep.get(y) is None]
        vs = [locs[k] for k in keys]
        inits = [self.get_at(st.store, r, p) for r, p in keys]
        if h.dead:
            nexts = list(vs)
        else:
            nexts = [self.get_at(h.store, r, p) for r, p in keys]
        live = h.cond           # the iteration completes
        if c.op == 'ite' and split < 2:
            # a loop-invariant part of the condition: one loop for each of its values
            V = frozenset(vs)
            inv = [a for a in atoms_of(c) if not (a.fv & V) and a.op in ('pos', 'eq0')]
            if inv and LoopSolver(self, keys, vs, inits, nexts, c, exits, live, node, fr, st).no_trip():
                return self.split_loop(inv[0], st, fr, cond, body, inc, node, split, notes0)
        L = LoopSolver(self, keys, vs, inits, nexts, c, exits, live, node, fr, st)
        L.run()

    # ----------------------------------------------------------- expressions
    def cond(self, n, st, fr):
        v = self.ev(n, st, fr)
        if v.op in ('bad',):
            return v
        if is_bool(v):
            return v
        if is_int(v):
            return NOT(eq0(v))
        if v.op == 'undef':
            return bad('undefined condition')
        return v

    def ev(self, n, st, fr, discard=False):
        """value of an expression (lvalues are loaded)"""
        if 'cv' in n and n.get('k') not in ('call',) or ('cv' in n and n['k'] == 'call'):
            v = int(n['cv'])
            if fr.prog.types[n['t']]['k'] == 'bool':
                return B(v)
            return I(v)
        if 'cf' in n:
            return Fbits(int(n['cf'], 16))
        k = n['k']
        if n.get('lv') and k not in ('call',):
            p = self.lv(n, st, fr)
            return UNDEF if discard else self.read(st, p)
        if k == 'call' and n.get('lv'):
            p = self.call(n, st, fr)
            return UNDEF if discard else (self.read(st, p) if not st.dead else UNDEF)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.note('expression ' + k + ':' + str(n.get('n', '')), n, fr.prog)
        return m(n, st, fr)

    def lv(self, n, st, fr):
        """pointer to the object that a glvalue designates; prvalues are materialised"""
        k = n['k']
        if not n.get('lv'):
            ty = fr.prog.ty(n['t'])
            root = self.newroot(ty)
            v = self.ev(n, st, fr)
            st.store[root] = v
            return ptr(root)
        if k == 'ref':
            v = n['v']
            p = fr.env.get(v)
            if p is not None:
                return p
            return self.outer(v, st, fr, n)
        if k == 'mem':
            if n.get('arrow'):
                b = self.ev(n['b'], st, fr)
            else:
                b = self.lv(n['b'], st, fr)
            if b.op == 'ptr' or b.op == 'ite':
                return ptr_field(b, n['f'])
            return self.note('member of ' + b.op, n, fr.prog)
        if k == 'this':
            return fr.this
        if k == 'un':
            if n['op'] == '*':
                return self.deref(self.ev(n['e'], st, fr), st, fr, n)
            if n['op'] in ('++', '--'):
                p = self.lv(n['e'], st, fr)
                self.incdec(n, p, st, fr)
                return p
        if k == 'asgn':
            v = self.ev(n['b'], st, fr)
            p = self.lv(n['a'], st, fr)
            self.write(st, p, v)
            return p
        if k == 'casgn':
            v = self.ev(n['b'], st, fr)
            p = self.lv(n['a'], st, fr)
            aty = fr.prog.ty(n['a']['t'])
            old = self.read(st, p)
            if aty == 'ptr':
                self.write(st, p, self.ptr_arith(old, v if n['op'] == '+' else neg(v), n['a'], fr))
                return p
            lty = fr.prog.ty(n['clt'])
            rty = fr.prog.ty(n['ct'])
            r = self.arith(n['op'], self.convert(old, aty, lty), v, rty, st)
            self.write(st, p, self.convert(r, rty, aty))
            return p
        if k == 'cond':
            c = st.simp(self.cond(n['c'], st, fr))
            if c is TRUE:
                return self.lv(n['a'], st, fr)
            if c is FALSE:
                return self.lv(n['b'], st, fr)
            return self.branch(c, st, fr, lambda s: self.lv(n['a'], s, fr), lambda s: self.lv(n['b'], s, fr))
        if k == 'idx':
            a = n['a']
            i = self.ev(n['b'], st, fr)
            if fr.prog.types[a['t']]['k'] == 'arr':
                return ptr_index(self.lv(a, st, fr), i)
            b = self.ev(a, st, fr)
            return self.deref(self.ptr_arith(b, i, a, fr), st, fr, n)
        if k == 'call':
            return self.call(n, st, fr)
        if k == 'cast':
            ck = n['ck']
            if ck in ('NoOp', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'UserDefinedConversion', 'LValueBitCast'):
                return self.lv(n['e'], st, fr)
            return self.note('lvalue cast ' + ck, n, fr.prog)
        if k == 'mat':
            ty = fr.prog.ty(n['t'])
            e = n['e']
            v = self.ev(e, st, fr)
            root = self.newroot(ty)
            st.store[root] = v
            return ptr(root)
        if k == 'bin' and n['op'] == ',':
            self.ev(n['a'], st, fr, discard=True)
            return self.lv(n['b'], st, fr)
        if k == 'str':
            root = ('g', 'str:' + n['s'])
            self.rootty[root] = 'str'
            st.store[root] = S(n['s'])
            return ptr(root)
        if k == 'init' and len(n['args']) == 1:
            return self.lv(n['args'][0], st, fr)
        if k == 'typeid':
            root = self.newroot('any')
            st.store[root] = self.ev_typeid(n, st, fr)
            return ptr(root)
        if k == 'fnref':
            root = self.newroot('fn')
            st.store[root] = self.e_fnref(n, st, fr)
            return ptr(root)
        return self.note('lvalue ' + k, n, fr.prog)

    def ev_typeid(self, n, st, fr):
        if 'ty' in n:
            return mk('typeid', fr.prog.ty(n['ty']))
        return mk('typeid', fr.prog.ty(n['e']['t']))

    def deref(self, p, st, fr, n):
        if p.op in ('ptr', 'ite', 'mapit'):
            if p.op == 'mapit':
                return self.models.mapit_deref(self, st, p)
            return p
        return self.note('dereference of ' + p.op, n, fr.prog)

    def outer(self, v, st, fr, n):
        V = fr.prog.vars[v]
        if V.get('kind') in ('global', 'slocal'):
            root = ('g', V.get('q') or V['n'])
            if root not in self.rootty:
                self.rootty[root] = fr.prog.ty(V['t'])
            if root not in st.store:
                m = self.models.global_object(root[1])
                if m is not None:
                    st.store[root] = m
                elif V.get('init') is not None and fr.prog.types[V['t']].get('c'):
                    f2 = Frame(fr.prog, fr.fn, fr.fid)
                    st.store[root] = self.ev(V['init'], st, f2)
                else:
                    st.store[root] = sym('global:' + root[1], fr.prog.ty(V['t']))
            return ptr(root)
        if V.get('kind') == 'binding' and V.get('e') is not None:
            return self.lv(V['e'], st, fr)
        if V.get('kind') == 'enumc':
            root = self.newroot('i32')
            st.store[root] = I(int(V['v']))
            return ptr(root)
        return self.note('unbound variable ' + V['n'], n, fr.prog)

    def branch(self, c, st, fr, f1, f2):
        s1 = st.fork(c)
        s2 = st.fork(NOT(c))
        a = f1(s1)
        b = f2(s2)
        m = merge(s1, s2, c)
        if s1.dead:
            r = b
        elif s2.dead:
            r = a
        else:
            r = ite(c, a, b)
        st.set(m)
        return r

    # values
    def e_ref(self, n, st, fr):
        V = fr.prog.vars[n['v']]
        if V.get('kind') == 'enumc':
            return I(int(V['v']))
        return self.read(st, self.lv(dict(n, lv=1), st, fr))

    def e_lit(self, n, st, fr):
        return self.note('literal', n, fr.prog)

    def e_str(self, n, st, fr):
        return S(n['s'])

    def e_null(self, n, st, fr):
        return NULL

    def e_sizeof(self, n, st, fr):
        return self.note('sizeof', n, fr.prog)

    def e_zero(self, n, st, fr):
        return self.zero(fr.prog.ty(n['t']))

    def e_this(self, n, st, fr):
        return fr.this

    def e_mat(self, n, st, fr):
        return self.ev(n['e'], st, fr)

    def e_ilist(self, n, st, fr):
        return self.ev(n['e'], st, fr)

    def e_arrcopy(self, n, st, fr):
        return self.ev(n['e'], st, fr)

    def e_typeid(self, n, st, fr):
        return self.ev_typeid(n, st, fr)

    def e_fnref(self, n, st, fr):
        return mk('closure', fr.prog.pid, n['fn'], ())

    def e_memfn(self, n, st, fr):
        return self.note('member function value', n, fr.prog)

    def e_new(self, n, st, fr):
        return self.note('new', n, fr.prog)

    def e_delete(self, n, st, fr):
        return self.note('delete', n, fr.prog)

    def e_unsup(self, n, st, fr):
        if n.get('n') == 'sourceloc':
            return UNDEF
        return self.note('unsupported ' + str(n.get('n')), n, fr.prog)

    def e_throw(self, n, st, fr):
        if n['e'] is None:
            v = getattr(fr, 'cur_exc', bad('rethrow'))
        else:
            v = self.ev(n['e'], st, fr)
        if not st.dead:
            self.throw(st, fr, v, n)
        return UNDEF

    def e_lambda(self, n, st, fr):
        caps = []
        for c in n['caps']:
            if c.get('this'):
                caps.append(('this', fr.this))
            elif c.get('ref'):
                caps.append(('r', c['v'], self.lv(dict(c['e'], lv=1), st, fr) if c['e'] else None))
            else:
                caps.append(('c', c['v'], self.ev(c['e'], st, fr)))
        return mk('closure', fr.prog.pid, n['fn'], tuple(caps))

    def e_init(self, n, st, fr):
        ty = fr.prog.ty(n['t'])
        if is_rec(ty):
            fs = n.get('fields') or []
            vals = {f: None for f in fs}
            nb = n.get('nbases', 0)
            if nb:
                return self.note('aggregate with bases', n, fr.prog)
            out = []
            for f, a in zip(fs, n['args']):
                vals[f] = self.ev(a, st, fr)
            return mk_struct(ty, [vals.get(f[0]) if vals.get(f[0]) is not None else self.zero(f[1]) for f in RECORDS[ty]['fields']])
        if is_vec(ty):
            es = [self.ev(a, st, fr) for a in n['args']]
            if ty.startswith('arr<'):
                cnt = int(ty[ty.rindex(',') + 1:-1])
                if len(es) == 1 and is_seq(es[0]) and cnt != 1 and not is_vec(elem_ty(ty)):
                    s = es[0]
                    if s.op == 'strc':
                        es = [I(ord(c)) for c in s.a[0]]
                    else:
                        return s
                while len(es) < cnt and cnt <= 4096:
                    es.append(self.ev(n['filler'], st, fr) if n.get('filler') else self.zero(elem_ty(ty)))
            return lit(*es)
        if len(n['args']) == 1:
            return self.ev(n['args'][0], st, fr)
        if not n['args']:
            return self.zero(ty)
        return self.note('initialiser for ' + ty, n, fr.prog)

    def e_un(self, n, st, fr):
        op = n['op']
        if op == '&':
            return self.lv(dict(n['e'], lv=1) if n['e']['k'] != 'fnref' else n['e'], st, fr)
        if op in ('++', '--'):
            p = self.lv(n['e'], st, fr)
            old = self.read(st, p)
            self.incdec(n, p, st, fr)
            return old if n.get('post') else self.read(st, p)
        v = self.ev(n['e'], st, fr)
        if op == '!':
            return NOT(self.as_bool(v))
        if op == '-':
            if is_float(v):
                return fop('neg', v)
            return self.fit(neg(v), fr.prog.ty(n['t']), st)
        if op == '+':
            return v
        if op == '~':
            return wrap(fr.prog.ty(n['t']), sub(I(-1), v))
        if op in ('__extension__',):
            return v
        return self.note('operator ' + op, n, fr.prog)

    def incdec(self, n, p, st, fr):
        old = self.read(st, p)
        one = ONE if n['op'] == '++' else I(-1)
        ty = fr.prog.ty(n['e']['t'])
        if ty == 'ptr':
            self.write(st, p, self.ptr_arith(old, one, n['e'], fr))
        elif ty in ('f64', 'f32'):
            self.write(st, p, fop('+', old, F(1.0 if n['op'] == '++' else -1.0)))
        elif ty in ('u64', 'i64') and n['op'] == '++':
            self.write(st, p, add(old, one))
        else:
            self.write(st, p, self.fit(add(old, one), ty, st))

    def as_bool(self, v):
        if is_bool(v) or v.op in ('bad', 'undef'):
            return v if v.op != 'undef' else bad('undefined condition')
        if is_int(v):
            return NOT(eq0(v))
        if is_float(v):
            return NOT(feq(v, F(0.0)))
        if v.op in ('ptr',):
            return TRUE
        if v is NULL:
            return FALSE
        if v.op == 'ite':
            return ite(v.a[0], self.as_bool(v.a[1]), self.as_bool(v.a[2]))
        return bad('condition of ' + v.op)

    def e_bin(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||'):
            a = st.simp(self.as_bool(self.ev(n['a'], st, fr)))
            if st.dead:
                return UNDEF
            if op == '&&' and a is FALSE or op == '||' and a is TRUE:
                return a
            if a is TRUE or a is FALSE:
                return self.as_bool(self.ev(n['b'], st, fr))
            if op == '&&':
                return self.branch(a, st, fr, lambda s: s.simp(self.as_bool(self.ev(n['b'], s, fr))), lambda s: FALSE)
            return self.branch(a, st, fr, lambda s: TRUE, lambda s: s.simp(self.as_bool(self.ev(n['b'], s, fr))))
        if op == ',':
            self.ev(n['a'], st, fr, discard=True)
            return self.ev(n['b'], st, fr)
        a = self.ev(n['a'], st, fr)
        b = self.ev(n['b'], st, fr)
        return self.binop(op, a, b, fr.prog.ty(n['t']), st, fr, n)

    def binop(self, op, a, b, ty, st, fr, n):
        if a.op == 'bad':
            return a
        if b.op == 'bad':
            return b
        if op in ('==', '!=', '<', '<=', '>', '>=', '<=>'):
            return self.compare(op, a, b, n, fr)
        if isptr(a) or isptr(b):
            if op == '+':
                return self.ptr_arith(a, b, n['a'], fr) if isptr(a) else self.ptr_arith(b, a, n['b'], fr)
            if op == '-' and isptr(a) and isptr(b):
                return self.ptr_diff(a, b)
            if op == '-':
                return self.ptr_arith(a, neg(b), n['a'], fr)
        return self.arith(op, a, b, ty, st)

    def ptr_diff(self, a, b):
        if a.op == 'ite':
            return ite(a.a[0], self.ptr_diff(a.a[1], b), self.ptr_diff(a.a[2], b))
        if b.op == 'ite':
            return ite(b.a[0], self.ptr_diff(a, b.a[1]), self.ptr_diff(a, b.a[2]))
        if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0]:
            pa, pb = a.a[1], b.a[1]
            if pa and pb and pa[:-1] == pb[:-1] and pa[-1][0] == 'i' and pb[-1][0] == 'i':
                return sub(pa[-1][1], pb[-1][1])
            if pa == pb:
                return ZERO
        return bad('pointer difference')

    def ptr_arith(self, p, i, pnode, fr):
        if p.op == 'ite' and leaves(p) < 20:
            return ite(p.a[0], self.ptr_arith(p.a[1], i, pnode, fr), self.ptr_arith(p.a[2], i, pnode, fr))
        if p.op == 'ptr' and pnode is not None:
            t = fr.prog.types[pnode['t']]
            if t['k'] == 'ptr':
                et = fr.prog.ty(t['e'])
                real = self.pathty(p.a[0], p.a[1])
                if et in ('u8', 'i8', 'void') and real not in ('u8', 'i8', 'any'):
                    if p.a[1] and p.a[1][-1][0] == '+':
                        return mk('ptr', p.a[0], p.a[1][:-1] + (('+', add(p.a[1][-1][1], i)),))
                    if i is ZERO:
                        return p
                    return mk('ptr', p.a[0], p.a[1] + (('+', i),))
        return ptr_add(p, i)

    def compare(self, op, a, b, n=None, fr=None):
        if a.op in ('bad', 'undef') or b.op in ('bad', 'undef'):
            return bad('comparison with an undefined value')
        if op == '!=':
            return NOT(self.compare('==', a, b, n, fr))
        if isptr(a) or isptr(b):
            if op == '==':
                return self.ptr_eq(a, b)
            d = self.ptr_diff(a, b)
            if d.op == 'bad':
                return d
            return {'<': pos(neg(d)), '>': pos(d), '<=': NOT(pos(d)), '>=': NOT(pos(neg(d)))}[op]
        if op == '==':
            return equal(a, b)
        if is_float(a) or is_float(b):
            a, b = tof(a), tof(b)
            return {'<': lambda: flt(a, b), '<=': lambda: fle(a, b), '>': lambda: flt(b, a), '>=': lambda: fle(b, a)}[op]()
        a, b = terms._num(a), terms._num(b)
        if is_int(a) and is_int(b):
            return {'<': lambda: lt(a, b), '<=': lambda: le(a, b), '>': lambda: lt(b, a), '>=': lambda: le(b, a)}[op]()
        return app('cmp' + op, 'bool', a, b)

    def ptr_eq(self, a, b):
        if a.op == 'ite':
            return ite(a.a[0], self.ptr_eq(a.a[1], b), self.ptr_eq(a.a[2], b))
        if b.op == 'ite':
            return ite(b.a[0], self.ptr_eq(a, b.a[1]), self.ptr_eq(a, b.a[2]))
        if a is b:
            return TRUE
        if a.op == 'mapit' or b.op == 'mapit':
            return self.models.mapit_eq(a, b)
        if a.op == 'ptr' and b.op == 'ptr':
            if a.a[0] != b.a[0]:
                if self.models.may_alias(a, b):
                    return app('alias', 'bool', a, b)
                return FALSE
            d = self.ptr_diff(a, b)
            if d.op != 'bad':
                return eq0(d)
            if len(a.a[1]) != len(b.a[1]):
                return FALSE
            return app('alias', 'bool', a, b)
        if NULL in (a, b):
            o = a if b is NULL else b
            if o.op == 'ptr':
                return FALSE
            return equal(a, b)
        return equal(a, b)

    def fit(self, v, ty, st):
        """result of integer arithmetic in type ty"""
        if ty in ('u64', 'u32', 'u8', 'u16', 'i8', 'i16'):
            l, h = rng(v)
            if ty == 'u64':
                if l >= 0:
                    return v
                if v.op == 'i':
                    return wrap(ty, v)
                if self.nonneg(v, st):
                    return v
                return wrap(ty, v)
            return wrap(ty, v)
        return v

    def nonneg(self, p, st):
        return prove_nonneg(p, st.pc)

    def arith(self, op, a, b, ty, st):
        if ty in ('f64', 'f32'):
            a, b = tof(a), tof(b)
            r = fop(op, a, b)
            return fop('f32', r) if ty == 'f32' else r
        a, b = terms._num(a), terms._num(b)
        if a.op in ('undef', 'bad') or b.op in ('undef', 'bad'):
            return bad('arithmetic on an undefined value')
        if op == '+':
            r = add(a, b)
        elif op == '-':
            r = sub(a, b)
        elif op == '*':
            r = mul(a, b)
            if ty == 'u64' and rng(r)[0] < 0 and 'wrap' not in (a.op, b.op) and self.nonneg(a, st) and self.nonneg(b, st):
                return r
        elif op == '/':
            r = idiv(a, b)
        elif op == '%':
            r = imod(a, b)
        elif op in ('<<', '>>', '&', '|', '^'):
            if is_bool(a) and is_bool(b):
                pass
            r = iop(op, a, b)
        else:
            return bad('operator ' + op)
        return self.fit(r, ty, st)

    def e_cond(self, n, st, fr):
        c = st.simp(self.cond(n['c'], st, fr))
        if c is TRUE:
            return self.ev(n['a'], st, fr)
        if c is FALSE:
            return self.ev(n['b'], st, fr)
        return self.branch(c, st, fr, lambda s: self.ev(n['a'], s, fr), lambda s: self.ev(n['b'], s, fr))

    def e_asgn(self, n, st, fr):
        return self.read(st, self.lv(dict(n, lv=1), st, fr))

    e_casgn = e_asgn

    def e_idx(self, n, st, fr):
        return self.read(st, self.lv(dict(n, lv=1), st, fr))

    def e_mem(self, n, st, fr):
        b = self.ev(n['b'], st, fr)
        return fld(b, n['f'])

    def convert(self, v, frm, to):
        if frm == to or v.op in ('bad', 'undef'):
            return v
        if to == 'bool':
            return self.as_bool(v)
        if to in INTS:
            if is_float(v):
                return f2i(to, v)
            if is_bool(v) or is_int(v):
                return wrap(to, v)
        if to in ('f64', 'f32'):
            if is_int(v) or is_bool(v):
                v = i2f(v)
            if to == 'f32' and frm != 'f32':
                return fop('f32', v)
        return v

    def e_cast(self, n, st, fr):
        ck = n['ck']
        e = n['e']
        P = fr.prog
        if ck in ('LValueToRValue',):
            return self.read(st, self.lv(e, st, fr))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return self.ev(e, st, fr)
        if ck == 'ArrayToPointerDecay':
            return ptr_index(self.lv(e, st, fr), ZERO)
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return self.e_fnref(e, st, fr) if e['k'] == 'fnref' else self.ev(e, st, fr)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral', 'IntegralToBoolean', 'FloatingToBoolean'):
            return self.convert(self.ev(e, st, fr), P.ty(e['t']), P.ty(n['t']))
        if ck == 'PointerToBoolean':
            v = self.ev(e, st, fr)
            return self.as_bool(v)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'BitCast':
            v = self.ev(e, st, fr)
            t = fr.prog.types[n['t']]
            if t['k'] == 'ptr':
                return self.view_as(v, fr.prog.ty(t['e']))
            return v
        if ck == 'ToVoid':
            self.ev(e, st, fr, discard=True)
            return UNDEF
        return self.note('cast ' + ck, n, fr.prog)

    # -------------------------------------------------------------- calls
    def args_for(self, fn, argn, st, fr, prog):
        """evaluate arguments: pointers for reference parameters"""
        out = []
        for i, a in enumerate(argn):
            if i < len(fn['params']):
                pt = prog.types[fn['params'][i]['t']]
                if pt['k'] == 'ref':
                    out.append(self.lv(a, st, fr))
                else:
                    out.append(self.ev(a, st, fr))
            else:
                out.append(self.ev(a, st, fr))
        return out

    def e_call(self, n, st, fr):
        return self.call(n, st, fr)

    def call(self, n, st, fr):
        """value of a call; a pointer when the call is a glvalue"""
        P = fr.prog
        if 'fn' not in n:
            c = self.ev(n['callee'], st, fr)
            args = [self.lv(a, st, fr) for a in n['args']]
            return self.call_closure(c, args, st, fr, n)
        fn = P.fns[n['fn']]
        # a closure's own operator()
        if fn.get('rec') is not None and P.recs[fn['rec']].get('lambda') and fn['n'] == 'operator()':
            loc = self.ev(n['obj'], st, fr) if n.get('objarrow') else self.lv(n['obj'], st, fr)
            c = self.read(st, loc)
            args = [self.lv(a, st, fr) for a in n['args']]
            return self.call_closure(c, args, st, fr, n, loc)
        this = None
        if 'obj' in n:
            if n.get('objarrow'):
                this = self.ev(n['obj'], st, fr)
            else:
                this = self.lv(n['obj'], st, fr)
            if st.dead:
                return UNDEF
        if not fn['mine'] or fn['q'] in self.models.OVERRIDE:
            if fn['q'] in self.stubs:
                args = self.args_for(fn, n['args'], st, fr, P)
                r = self.stubs[fn['q']](self, st, fr, fn, this, args, n)
                if r is not NotImplemented:
                    return r
            return self.models.call(self, n, fn, this, st, fr)
        args = self.args_for(fn, n['args'], st, fr, P)
        if st.dead:
            return UNDEF
        if fn.get('special') in ('copyassign', 'moveassign') and 'body' not in fn:
            v = self.read(st, args[0])
            if fn['special'] == 'moveassign' and args[0].op == 'ptr':
                self.write(st, args[0], self.models.moved(v, P.ty(n['t'])))
            self.write(st, this, v)
            return this
        if fn.get('defaulted') and 'body' not in fn and fn['n'] in ('operator==', 'operator!='):
            a = self.read(st, this if this is not None else args[0])
            b = self.read(st, args[-1])
            r = self.models.struct_eq(a, b)
            return r if fn['n'] == 'operator==' else NOT(r)
        if fn.get('virtual') and not fn.get('static'):
            self.note('virtual call ' + fn['q'], n, P)
        return self.call_fn(P, fn, this, args, st, fr, n)

    def scalar_at(self, st, p):
        """the type of the scalar a pointer leads to, if it is known"""
        if p.op != 'ptr':
            return None
        y = self.pathty(*p.a)
        if y not in SCALARS:
            y = tyof(self.read(st, p))
        return y if y in SCALARS else None

    def call_closure(self, c, argps, st, fr, n, loc=None):
        """call a closure, which is at loc, with pointers to its arguments"""
        if c.op == 'ite':
            k = st.simp(c.a[0])
            if k is TRUE:
                return self.call_closure(c.a[1], argps, st, fr, n, loc)
            if k is FALSE:
                return self.call_closure(c.a[2], argps, st, fr, n, loc)
            return self.branch(k, st, fr, lambda s: self.call_closure(c.a[1], argps, s, fr, n, loc),
                               lambda s: self.call_closure(c.a[2], argps, s, fr, n, loc))
        if c.op == 'nofn':
            self.throw(st, fr, mk('exc', 'std::bad_function_call', SEQ0), n)
            return UNDEF
        if c.op == 'refl':
            return self.models.call_builtin_functor(self, c, argps, st, fr, n)
        if c.op != 'closure':
            if c.op in ('sym', 'fld', 'idx'):
                return self.models.call_unknown_fn(self, c, argps, st, fr, n)
            return self.note('call of ' + c.op, n, fr.prog)
        pid, fnid, caps = c.a
        prog = PROGS[pid]
        fn = prog.fns[fnid]
        if 'body' not in fn:
            if fn['q'] in self.stubs or not fn['mine']:
                vals = []
                for i, p in enumerate(fn['params'][:len(argps)]):
                    vals.append(argps[i] if prog.types[p['t']]['k'] == 'ref' else self.read(st, argps[i]))
                return self.models.call_values(self, fn, None, vals, st, fr, n, prog)
            return self.note('closure without a body', n, fr.prog)
        self.frames += 1
        self.funcs[fn['q'] + '@' + prog.where(fn)] = prog.where(fn)
        f = Frame(prog, fn, self.frames)
        for cp in caps:
            if cp[0] == 'this':
                f.this = cp[1]
            elif cp[0] == 'r':
                f.env[cp[1]] = cp[2]
            else:
                root = ('v', f.fid, cp[1])
                self.rootty[root] = prog.ty(prog.vars[cp[1]]['t'])
                st.store[root] = cp[2]
                f.env[cp[1]] = ptr(root)
        for p, a in zip(fn['params'], argps):
            pt = prog.types[p['t']]
            to = prog.ty(pt['e'] if pt['k'] == 'ref' else p['t'])
            y = self.scalar_at(st, a) if pt['k'] == 'ref' and to in SCALARS else None
            if pt['k'] == 'ref' and (y is None or y == to):
                f.env[p['v']] = a
            else:
                # a parameter of another type is bound to a converted copy
                root = ('v', f.fid, p['v'])
                self.rootty[root] = to
                v = self.read(st, a)
                y = tyof(v)
                st.store[root] = self.convert(v, y, to) if y in SCALARS or y == 'int' else v
                f.env[p['v']] = ptr(root)
        key = (pid, fnid)
        if self.stack.count(key) > 3:
            return self.note('recursion in a closure', n, fr.prog)
        s = St(dict(st.store), TRUE, st.pc)
        self.stack.append(key)
        try:
            self.exec(fn['body'], s, f)
        finally:
            self.stack.pop()
        rets = []
        for e in f.exits:
            if e.kind == 'ret':
                rets.append(e)
            elif e.kind == 'throw':
                self.add_exit(fr, Exit('throw', AND(st.cond, e.cond), e.val, e.store, e.pc, e.where))
        if not s.dead:
            rets.append(Exit('ret', s.cond, UNDEF, s.store, s.pc))
        if not rets:
            st.cond = FALSE
            return UNDEF
        v, store, cond = rets[-1].val, rets[-1].store, rets[-1].cond
        for e in reversed(rets[:-1]):
            v = ite(e.cond, e.val, v)
            store = merge_store(e.cond, e.store, store)
            cond = OR(cond, e.cond)
        own = [(cp[0], cp[1], store.get(('v', f.fid, cp[1]), cp[2])) if cp[0] == 'c' else cp for cp in caps]
        st.store = {k: x for k, x in store.items() if not (k[0] == 'v' and k[1] == f.fid)}
        cond = st.simp(cond)
        if cond is not TRUE:
            st.restrict(cond)
        if any(x[0] == 'c' and x[2] is not y[2] for x, y in zip(own, caps)):
            # the state of a mutable lambda stays in the object that was called
            if loc is None:
                self.note('state of a mutable lambda', n, fr.prog)
            else:
                self.write(st, loc, mk('closure', pid, fnid, tuple(own)))
        return v

    def e_ctor(self, n, st, fr):
        P = fr.prog
        fn = P.fns[n['fn']]
        ty = P.ty(n['t'])
        if not fn['mine']:
            return self.models.construct(self, n, fn, ty, st, fr)
        if fn.get('special') in ('copy', 'move') and 'body' not in fn:
            a = n['args'][0]
            p = self.lv(a, st, fr)
            v = self.read(st, p)
            if fn['special'] == 'move' and p.op == 'ptr' and a.get('lv'):
                self.write(st, p, self.models.moved(v, ty))
            return v
        if 'body' not in fn:
            if fn.get('special') == 'default' or not n['args']:
                return self.zero(ty)
            return self.note('constructor ' + fn['q'], n, P)
        args = self.args_for(fn, n['args'], st, fr, P)
        if st.dead:
            return UNDEF
        root = self.newroot(ty, hint='o')
        if is_rec(ty):
            st.store[root] = mk_struct(ty, [UNDEF] * len(RECORDS[ty]['fields']))
        else:
            st.store[root] = UNDEF
        self.call_fn(P, fn, ptr(root), args, st, fr, n)
        return st.store.get(root, UNDEF)


def isptr(v):
    seen, todo = set(), [v]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.op in ('ptr', 'null', 'mapit'):
            return True
        if v.op == 'ite':
            todo += v.a[1:3]
        elif tyof(v) == 'ptr':
            return True
    return False


def atoms_of(c):
    """the tests of a decision tree"""
    out, seen, st = [], set(), [c]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'ite':
            if t.a[0] not in out:
                out.append(t.a[0])
            st += [t.a[2], t.a[1]]
        elif t.op not in ('b',) and t not in out:
            out.append(t)
    return out


def prove_nonneg(p, pc, depth=2):
    """p >= 0 follows from the facts in pc"""
    l, _ = rng(p)
    if l >= 0:
        return True
    if depth == 0:
        return False
    if p.op == 'ite':
        return prove_nonneg(p.a[1], pc + tuple(conj(p.a[0])), depth) and prove_nonneg(p.a[2], pc + ((p.a[0], False),), depth)
    cands = []
    for a, v in pc:
        if a.op == 'pos':
            cands.append(sub(a.a[0], ONE) if v else neg(a.a[0]))
        elif a.op == 'eq0' and v:
            cands.append(a.a[0])
            cands.append(neg(a.a[0]))
        elif a.op == 'eq0' and not v and rng(a.a[0])[0] >= 0:
            cands.append(sub(a.a[0], ONE))
    pk = set(f for m in to_poly(p)[1] for f in m)
    for q in pk:
        if q.op == 'idiv' and depth == 2:
            n, d = q.a
            if rng(n)[0] >= 0 and rng(d)[0] >= 1:
                cands.append(sub(n, mul(d, q)))
                cands.append(sub(add(mul(d, q), d), add(n, ONE)))
                if prove_nonneg(sub(n, d), pc, 1):
                    cands.append(sub(q, ONE))
                    if p.op == 'poly' and prove_nonneg(sub(p, sub(q, ONE)), pc, 0):
                        return True
    monos = [m for m in to_poly(p)[1] if len(m) >= 2]
    for q in cands:
        qk = set(f for m in to_poly(q)[1] for f in m)
        if not (qk & pk):
            continue
        if prove_nonneg(sub(p, q), pc, depth - 1 if q.op == 'poly' else 0):
            return True
        if q.op == 'poly':
            dp, dq = to_poly(p)[1], to_poly(q)[1]
            for m, k in dq.items():
                kp = dp.get(m, 0)
                if kp % k == 0 and kp // k > 1:
                    if prove_nonneg(sub(p, mul(q, I(kp // k))), pc, depth - 1):
                        return True
                    break
        # scaled by a non-negative factor
        for m in monos:
            for f in m:
                if f not in qk and rng(f)[0] >= 0:
                    r = sub(p, mul(q, f))
                    if r.sz < p.sz * 2 and prove_nonneg(r, pc, depth - 1):
                        return True
    return False


from loops import LoopSolver  # noqa
