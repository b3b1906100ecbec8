"""Opaque stand-ins for parts that another property covers."""
from common import *
from absint import Exit
import models


def throw(eng, st, fr, cond, msg, prog=None, node=None):
    cond = st.simp(cond)
    if cond is FALSE or st.dead:
        return
    eng.add_exit(fr, Exit('throw', AND(st.cond, cond), models.make_exc('std::runtime_error', models.S(msg) if hasattr(models, 'S') else SEQ0),
                          dict(st.store), st.pc, None))
    st.restrict(NOT(cond))
    if cond is TRUE:
        st.cond = FALSE


def compress(eng, st, fr, fn, this, args, node, fails=True):
    """deflate: an unknown function of the bytes"""
    tys = [fr.prog.ty(p['t']) for p in fn['params']]
    if tys[0] == 'stream':
        return NotImplemented
    if tys[0].startswith('vec'):
        b = eng.read(st, args[0]) if args[0].op == 'ptr' else args[0]
    else:
        r = models.region(eng, st, args[0], args[1]) if args[0].op == 'ptr' else None
        if r is None:
            eng.note("compressed region", node, fr.prog)
            if os.environ.get("VERIF_DEBUG"): print("CR", show(args[0],6)[:300], show(args[1],6)[:300], [(show(a,4)[:100],v) for a,v in st.pc][-6:])
            return bad('compressed region')
        b = models.as_bytes(eng, st, r)
    if fails:
        throw(eng, st, fr, app('deflatefails', 'bool', b), 'zlib')
    return app('deflated', 'vec<u8>', b)


def compress_ok(eng, st, fr, fn, this, args, node):
    return compress(eng, st, fr, fn, this, args, node, False)


def decompress(eng, st, fr, fn, this, args, node):
    """inflate: an unknown function of the bytes and the expected size"""
    tys = [fr.prog.ty(p['t']) for p in fn['params']]
    if tys[0] == 'stream':
        return NotImplemented
    c = eng.read(st, args[0]) if args[0].op == 'ptr' else args[0]
    if len(args) == 1:
        throw(eng, st, fr, app('inflatefails', 'bool', c), 'zlib')
        return app('inflated', 'vec<u8>', c)
    n = args[2]
    throw(eng, st, fr, app('inflatefails', 'bool', c, n), 'zlib')
    r = models.region(eng, st, args[1], n) if args[1].op == 'ptr' else None
    if r is None:
        eng.note('decompressed region', node, fr.prog)
        return UNDEF
    for x in r:
        if x[0] == 's':
            eng.write(st, x[1], app('inflated:' + x[2], x[2], c, x[3]))
        else:
            _, base, lo, m, ty, off = x
            models.put_range(eng, st, base, lo, m, lambda k: app('inflated:' + ty, ty, c, add(off, mul(I(models.SIZES[ty]), k))))
    return UNDEF


ZLIB = {'spoc::compression::compress': compress, 'spoc::compression::decompress': decompress}
ZLIB_OK = dict(ZLIB, **{'spoc::compression::compress': compress_ok})


def reader(tag):
    """a point block reader: uniform records from the stream"""
    def f(eng, st, fr, fn, this, args, node):
        s = eng.read(st, args[0])
        nm, pos = fld(s, 'name'), fld(s, 'pos')
        n, e = args[1], args[2]
        throw(eng, st, fr, app(tag + 'fails', 'bool', nm, pos, n, e), 'read')
        s = set_fld(s, 'pos', add(pos, app(tag + 'size', 'u64', nm, pos, n, e)))
        eng.write(st, args[0], s)
        v, w = tmp('nat', 'n'), tmp('nat', 'k')
        vals = []
        for g in terms.RECORDS[REC]['fields']:
            if g[0] == 'extra':
                vals.append(mk_comp(e, w, app(tag + '.extra', 'u64', nm, pos, n, e, v, w)))
            else:
                vals.append(app(tag + '.' + g[0], g[1], nm, pos, n, e, v))
        return mk_comp(n, v, mk_struct(REC, vals))
    return f


BLOCKS = {'spoc::io::read_uncompressed_points': reader('rawpoints'), 'spoc::io::read_compressed_points': reader('packedpoints')}


def opaque(ret, skip=()):
    """an unknown function of the values of its arguments"""
    def go(eng, st, fr, fn, this, args, node):
        v = [eng.read(st, a) if a.op == 'ptr' else a for j, a in enumerate(args) if j not in skip]
        return app('call:' + fn['q'], ret, *v)
    return go


def recorded(eng, st, fr, fn, this, args, node):
    """an unknown function without a result: which arguments it gets, in order"""
    v = [eng.read(st, a) if a.op == 'ptr' else a for a in args]
    r = ('g', 'calls')
    if r not in st.store:
        st.store[r] = SEQ0
    st.store[r] = cat(st.store[r], lit(app('call:' + fn['q'], 'item', *v)))
    return UNDEF
