"""The functions of the diff, filter, merge and tile programs."""
from common import *
from registry import check
import stubs
from c_io import VG, pairs


def whole(ck, a):
    import c_main
    c_main.whole(ck, a)

AF = ('a0=f', 'a1=f')


@check('C13', VG)
def diff(ck, tier):
    P = harness('apps')
    ok = describable('a0', 'a1')
    h, d, none = sym('a2', 'bool'), sym('a3', 'bool'), eq0(length(sym('a4', 'vec<i32>')))
    pair(ck, P, 'same_one', args=dict(a0=uniform_file('a0'), a1=uniform_file('a1')), pre=ok, rule=VG)
    c = sym('c', 'i32')
    for l in ('x?', '?i', '0?'):
        for n in ('same', 'same_reversed'):
            f = lit(*[c if x == '?' else I(ord(x)) for x in l])
            pair(ck, P, n, args=dict(a0=uniform_file('a0'), a1=uniform_file('a1'), a4=f), pre=ok, label='%s, fields %s' % (n, l), rule=VG)
    for n in ('same', 'same_reversed'):
        for l, c in (('all', AND(NOT(h), NOT(d))), ('header', AND(h, NOT(d))), ('data', AND(NOT(h), d))):
            pair(ck, P, n, args=dict(a0=uniform_file('a0'), a1=uniform_file('a1')), pre=AND(ok, AND(none, c)), label='%s, %s' % (n, l), rule=VG)
    pair(ck, P, 'same_default', args=dict(a0=uniform_file('a0'), a1=uniform_file('a1')), pre=ok, rule=VG)


@check('C22', VG)
def filters(ck, tier):
    pairs(ck, ['keep:ret:a0=f', 'remove:ret:a0=f', 'coords:ret:a0=f'], hn='apps', stubs={'spoc::filter_app::detail::split': stubs.opaque('vec<str>')})
    pairs(ck, ['split'], hn='apps')
    whole(ck, 'filter')


@check('C37', VG)
def sub(ck, tier):
    pairs(ck, ['unique:ret:a0=f', 'subsample:ret:a0=f'], hn='apps', stubs={
        'spoc::subsampling::get_unique_xyz_indexes': stubs.opaque('vec<u64>'), 'spoc::subsampling::subsample_points': stubs.opaque('vec<%s>' % REC)})


@check('C24', VG)
def tiles(ck, tier):
    pairs(ck, ['tile_size', 'tile_indexes', 'tile_map'], hn='apps')
    whole(ck, 'tile')


@check('C25', VG)
def merge(ck, tier):
    pairs(ck, ['append:a1:a0=f,a1=f'], hn='apps', pre=lambda: describable('a0', 'a1'))
    whole(ck, 'merge')
