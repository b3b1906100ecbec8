"""The main functions of the programs."""
from common import *
from registry import check
import stubs
import models
from c_io import VG, pairs


def get_args(ns):
    def go(eng, st, fr, fn, this, args, node):
        ty = fr.prog.ty(fn['ret'])
        stubs.throw(eng, st, fr, sym('bad arguments', 'bool'), 'arguments')
        return sym('args', ty)
    return go


def event(st, kind, *args):
    t = st.store.get(('g', 'trace'), SEQ0)
    st.store[('g', 'trace')] = cat(t, lit(app(kind, 'item', *args)))


def contents(nm):
    """what a reader returns: records with the same number of extra fields"""
    n, e = app('contents.size', 'cnt', nm), app('contents.extras', 'cnt', nm)
    v, w = tmp('nat', 'n'), tmp('nat', 'k')
    vals = []
    for f in terms.RECORDS[REC]['fields']:
        if f[0] == 'extra':
            vals.append(mk_comp(e, w, app('contents.extra', 'u64', nm, v, w)))
        else:
            vals.append(app('contents.' + f[0], f[1], nm, v))
    r = mk_comp(n, v, mk_struct(REC, vals))
    return mk_struct(FILE, [r if g[1] == 'vec<%s>' % REC else app('contents.' + g[0], g[1], nm) for g in terms.RECORDS[FILE]['fields']])


def read(kind, value):
    def go(eng, st, fr, fn, this, args, node):
        nm = fld(eng.read(st, args[0]), 'name')
        stubs.throw(eng, st, fr, app('unreadable:' + kind, 'bool', nm), 'read')
        event(st, kind, nm)
        return value(nm)
    return go


def write(kind):
    def go(eng, st, fr, fn, this, args, node):
        nm = fld(eng.read(st, args[0]), 'name')
        v = eng.read(st, args[1]) if args[1].op == 'ptr' else args[1]
        event(st, kind, nm, v)
        stubs.throw(eng, st, fr, app('unwritable:' + kind, 'bool', nm), 'write')
        return UNDEF
    return go


IO = {'spoc::io::' + n: read(n, contents) for n in ('read_spoc_file', 'read_spoc_file_uncompressed', 'read_spoc_file_compressed')}
IO['spoc::header::read_header'] = read('read_header', lambda nm: app('header', 'spoc::header::header', nm))
IO.update({'spoc::io::' + n: write(n) for n in ('write_spoc_file', 'write_spoc_file_uncompressed', 'write_spoc_file_compressed')})


def values(eng, st, args, skip=()):
    """the values of arguments; of a stream its identity"""
    v = []
    for j, a in enumerate(args):
        if j not in skip:
            x = eng.read(st, a) if a.op == 'ptr' else a
            v.append(fld(x, 'name') if tyof(x) == 'stream' else x)
    return v


def pure(skip=(), fails=True):
    """an application function: an unknown function of the values of its arguments that may refuse them"""
    def go(eng, st, fr, fn, this, args, node):
        ty = fr.prog.ty(fn['ret'])
        v = values(eng, st, args, skip)
        if fails:
            stubs.throw(eng, st, fr, app('refused:' + fn['q'], 'bool', *v), fn['n'])
        return app('call:' + fn['q'], ty, *v)
    return go


def printer(k):
    """a function that prints to its k-th argument"""
    def go(eng, st, fr, fn, this, args, node):
        v = values(eng, st, args, (k,))
        stubs.throw(eng, st, fr, app('refused:' + fn['q'], 'bool', *v), fn['n'])
        s = eng.read(st, args[k])
        s = set_fld(s, 'items', cat(fld(s, 'items'), lit(app('printed:' + fn['q'], 'item', *v))))
        s = set_fld(s, 'dirty', TRUE)
        eng.write(st, args[k], s)
        return UNDEF
    return go


def changer(k):
    """a function that changes its k-th argument"""
    def go(eng, st, fr, fn, this, args, node):
        v = values(eng, st, args)
        stubs.throw(eng, st, fr, app('refused:' + fn['q'], 'bool', *v), fn['n'])
        eng.write(st, args[k], app('changed:' + fn['q'], tyof(v[k]), *v))
        return UNDEF
    return go


def streamed(eng, st, fr, fn, this, args, node):
    """the transform program reads and writes record by record"""
    i, o = [fld(eng.read(st, args[j]), 'name') for j in (0, 1)]
    v = [eng.read(st, a) if a.op == 'ptr' else a for a in args[2:]]
    event(st, 'transform', i, o, *v)
    stubs.throw(eng, st, fr, app('refused:transform', 'bool', i, o, *v), 'transform')
    return UNDEF


def names(ns, fs, **k):
    return {'spoc::%s::%s' % (ns, f): pure(**k) for f in fs}


STUBS = {
    'diff': names('diff_app', ['diff']),
    'filter': names('filter_app', ['keep_classes', 'remove_classes', 'unique_xyz', 'subsample_file', 'remove_coords']),
    'info': {'spoc::info_app::process': printer(0)},
    'merge': dict(names('extent', ['get_extent'], fails=False), **{'spoc::merge_app::append': changer(1)}),
    'tile': dict(names('tile_app', ['get_tile_size', 'get_tile_indexes', 'get_tile_map']), **names('extent', ['get_extent'], fails=False)),
    'tool': dict(names('tool_app', ['recenter', 'resize_extra', 'set_field', 'subtract_min']),
                 **dict(names('tool_app', ['upsample_classifications'], skip=(3, 4)), **dict(names('app_utils', ['consume_field_name']), **{'spoc::tool_app::get_field': printer(1)}))),
    'transform': {'spoc::transform_app::apply': streamed},
}


PROGRAMS = ['compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform']
_runs = {}


def run(ck, a):
    """the summaries of the main function and of its specification"""
    if a not in _runs:
        P = harness('main_' + a, apps=(a,))
        st = dict(IO, **{'spoc::%s_cmd::get_args' % a: get_args(a)})
        st.update(STUBS.get(a, {}))
        f, g = one(P, 'vi::run'), one(P, 'vs::run')
        _runs[a] = None if f is None or g is None else (P.where(f), summarise(P, f, stubs=st), summarise(P, g, stubs=st))
    r = _runs[a]
    if r is None:
        ck.anchor_missing('main of ' + a)
        return None
    ck.use(r[1])
    return r


def compare(ck, a, what, view):
    def go():
        r = run(ck, a)
        if r is None:
            return
        w, i, s = r
        ck.equal(('the %s program: ' % a) + what, view(i), view(s), AND(i.cond, s.cond), w, VG, notes=tuple(i.notes) + tuple(s.notes))
    ck.guard('%s: %s' % (a, what), go)


def out(name, part='items'):
    return lambda o: fld(o.store.get(('g', 'std::' + name), UNDEF), part)


@check('C17', VG, 'At the end of main the status is zero exactly when the specified work is complete, and no exception leaves main.')
def status(ck, tier):
    for a in PROGRAMS:
        compare(ck, a, 'exit status', lambda o: o.ret)
        compare(ck, a, 'an exception leaves main', lambda o: o.thrown())
        compare(ck, a, 'something is printed to standard error', lambda o: NOT(eq0(length(out('cerr')(o)))))


def events(s, f):
    """the sequence of events s with f applied to each (None drops it)"""
    memo = {}

    def go(t):
        if t not in memo:
            memo[t] = step(t)
        return memo[t]

    def step(t):
        if t.op == 'lit':
            return lit(*[x for x in map(f, t.a) if x is not None])
        if t.op == 'cat':
            return cat(*[go(x) for x in t.a])
        if t.op == 'ite':
            return ite(t.a[0], go(t.a[1]), go(t.a[2]))
        if t.op in ('flat', 'comp'):
            v = tmp('nat', 'k')
            b = terms.bsub(t.a[1], {mk('bv', t.h, 0, 'nat'): v})
            return mk_flat(t.a[0], v, go(b if t.op == 'flat' else lit(b)))
        return t
    return go(s)


def order(e):
    """which streams are read, opened for writing and written, without what is written"""
    if e.op == 'app' and e.a[0] == 'open-r':
        return None
    if e.op == 'app' and e.a[0].startswith('write_'):
        return app(e.a[0], 'item', e.a[2])
    return e


def metadata(e):
    """what is written besides the points"""
    if e.op == 'app' and e.a[0].startswith('write_'):
        v = e.a[3]
        return app(e.a[0], 'item', *[fld(v, g[0]) for g in terms.RECORDS[FILE]['fields'] if g[1] != 'vec<%s>' % REC])
    return None


def trace(f=None):
    return lambda o: o.obs('@trace') if f is None else events(o.obs('@trace'), f)


@check('C18', VG, 'The order of complete reads, output openings and writes, on every path of main, is that of the specification, in which nothing is opened for writing before all input is read and processed.')
def late_output(ck, tier):
    for a in ('compress', 'decompress', 'filter', 'tool', 'srs'):
        compare(ck, a, 'reads, then opens and writes its output', trace(order))
    for a in ('diff', 'info', 'merge', 'tile'):
        compare(ck, a, 'opens only its outputs for writing', trace(order))
    pairs(ck, ['input:ret,@trace', 'output:@trace'], hn='main_streams')


@check('C20', VG, 'What main and the functions it calls put on standard output is what the specification puts there, on every path.')
def data_only(ck, tier):
    for a in PROGRAMS:
        compare(ck, a, 'standard output', out('cout'))
    pairs(ck, ['input:@cout', 'output:@cout'], hn='main_streams')


def obs_each(ns, parts):
    return ['%s:%s:a0=f' % (n, ','.join('ret.' + p for p in parts)) for n in ns]


@check('C23', VG, 'The WKT, compression flag and version of every file that main writes are the specified ones.')
def kept(ck, tier):
    for a in ('compress', 'decompress', 'filter', 'tool', 'srs', 'tile'):
        compare(ck, a, 'metadata of the files written', trace(metadata))
    pairs(ck, ['set_wkt:a0:a0=f', 'set_compressed:a0:a0=f'], hn='main_streams')
    meta = ('wkt', 'compressed', 'major_version', 'minor_version')
    pairs(ck, obs_each(('keep', 'remove', 'unique', 'subsample', 'coords'), meta), hn='apps', stubs={
        'spoc::filter_app::detail::split': stubs.opaque('vec<str>'), 'spoc::subsampling::get_unique_xyz_indexes': stubs.opaque('vec<u64>'),
        'spoc::subsampling::subsample_points': stubs.opaque('vec<%s>' % REC)})
    pairs(ck, obs_each(('recenter', 'subtract_min', 'resize_extra', 'set_field'), meta), hn='tool', pre=lambda: le(ZERO, sym('a1', 'i32')))
    pairs(ck, ['upsample:%s:a0=f,a1=f' % ','.join('ret.' + p for p in meta)], hn='tool')


def whole(ck, a):
    """everything the program opens, reads and writes, with its values"""
    compare(ck, a, 'files read and written', trace())
