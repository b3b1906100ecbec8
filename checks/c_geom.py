"""Geometric parts of the library."""
from common import *
from registry import check
import models
import stubs
from c_io import VG, pairs


def both(*names):
    return [n.replace('#', '_' + k) for n in names for k in 'pr']


@check('C31', VG)
def affine(ck, tier):
    pairs(ck, both(*['%s_%s#:a0' % (o, a) for o in ('add', 'scale', 'rotate') for a in 'xyz'] + ['add#:a0', 'get_center#', 'crop#']), hn='geom')
    # the precision must not be zero (a documented precondition)
    pairs(ck, both('quantize#:a0'), hn='geom', pre=NOT(feq(sym('a1', 'f64'), F(0.0))))


@check('C32', VG)
def extents(ck, tier):
    pairs(ck, both('get_extent#', 'voxels_extent#', 'voxels_indexes#', 'voxels#') + ['total_extent', 'volume', 'area', 'all_less_equal', 'extent_equal',
          'voxel_index', 'voxel_equal', 'voxel_make', 'index_set', 'index_map', 'rescale', 'restore', 'rescale_all', 'restore_all'], hn='geom')


SEL = 'spoc::radius_search::random_neighbor_selector'


def sel_new(eng, st, fr, fn, this, args, node):
    eng.write(st, this, app('selector', SEL, *[eng.read(st, a) if a.op == 'ptr' else a for a in args]))
    return UNDEF


def sel_left(eng, st, fr, fn, this, args, node):
    return app('selector.left', 'u64', eng.read(st, this))


def sel_next(eng, st, fr, fn, this, args, node):
    s = eng.read(st, this)
    eng.write(st, this, app('selector.rest', SEL, s))
    return app('selector.next', 'u64', s)


SELECTOR = {SEL + '::random_neighbor_selector': sel_new, SEL + '::get_total_points_left': sel_left, SEL + '::operator()': sel_next}


def draw(ck):
    """one draw takes the last remaining point of a voxel that has one left"""
    P = harness('geom')
    f = one(P, 'vi::selector_next')
    if f is None:
        return ck.anchor_missing('selector_next')
    o = summarise(P, f)
    ck.use(o)
    w = P.where(f)
    s = sym('a0', SEL)
    n0, n1 = fld(s, 'voxel_counts'), o.obs('a0.voxel_counts')
    lab = 'one draw: '
    ck.equal(lab + 'never refused', o.cond, TRUE, TRUE, w, notes=o.notes)
    ck.equal(lab + 'the voxels stay', o.obs('a0.voxel_indexes'), fld(s, 'voxel_indexes'), TRUE, w, notes=o.notes)
    ck.equal(lab + 'one point fewer is left', o.obs('a0.total_points_left'), wrap('u64', sub(fld(s, 'total_points_left'), ONE)), TRUE, w, notes=o.notes)
    if n1.op != 'upd' or n1.a[0] is not n0:
        return ck.add(lab + 'one count changes', UNDECIDED, show(n1, 4)[:200], w)
    c = n1.a[1]
    ck.equal(lab + 'one point of the chosen voxel is used up', n1.a[2], wrap('u64', sub(idx(n0, c), ONE)), TRUE, w, notes=o.notes)
    ok = c.op == 'mu' and any(a.op == 'eq0' and a.a[0].op == 'idx' and a.a[0].a[0] is n0 and assume(x, a, True) is TRUE
                             for x in c.a if isinstance(x, T) and is_bool(x) for a in terms.deep_atoms(x))
    ck.add(lab + 'the chosen voxel has a point left', DISCHARGED if ok else UNDECIDED, '' if ok else show(c, 4)[:200], w)
    m = fld(s, 'neighbor_vim')
    v = models.map_get(m, idx(fld(s, 'voxel_indexes'), c))
    ck.equal(lab + 'the last remaining point of the chosen voxel', o.ret, idx(v, wrap('u64', sub(idx(n0, c), ONE))), TRUE, w, notes=o.notes)


@check('C33', VG, 'The chosen voxel is a free term: the rule holds whichever voxel is drawn.')
def radius(ck, tier):
    pairs(ck, ['selector_indexes', 'selector_counts', 'selector_total', 'selector_left'], hn='geom')
    ck.guard('selector_next', lambda: draw(ck))
    pairs(ck, both('neighbors#'), hn='geom', stubs=SELECTOR)
    one_ = {'spoc::radius_search::get_neighbors': stubs.opaque('vec<u64>')}
    all_ = {'spoc::radius_search::radius_search': stubs.recorded}
    pairs(ck, both('search#:@calls', 'get_all_neighbors#'), hn='geom', stubs=one_)
    pairs(ck, both('search_indexes#:@calls', 'search_indexes32#:@calls', 'search_all_neighbors#:@calls', 'search_all#:@calls'), hn='geom', stubs=all_)


@check('C37', VG)
def subsample(ck, tier):
    pairs(ck, both('subsample#', 'unique#', 'subsample_points#'), hn='geom')
