"""Headers, records, columns, file objects, point arithmetic."""
from common import *
from registry import check

VG = 'The value graph of the code, gated by its path conditions, equals that of the specification in normal form, for all inputs.'


def core():
    return harness('core')


def pairs(ck, names, rule=VG, **k):
    P = core()
    for n in names:
        n, _, ob = n.partition(':')
        ob, _, un = ob.partition(':')
        args = {}
        for u in un.split(',') if un else ():
            a, _, y = u.partition('=')
            args[a] = uniform_file(a) if y == 'f' else uniform(a)
        pair(ck, P, n, tuple(ob.split(',')) if ob else ('ret',), args=args, rule=rule, **k)


@check('C01', VG)
def header_layout(ck, tier):
    pairs(ck, ['write_header:a0.items', 'read_header:ret,a0.pos', 'make_header', 'make_header4', 'make_header0'])


def members(t, root):
    """the members of a symbol that a term depends on, and what else it depends on"""
    got, other, raw = set(), set(), set()
    seen = set()

    def go(x, low):
        if (x, low) in seen:
            return
        seen.add((x, low))
        if x.op == 'fld':
            b = x.a[0]
            if b.op == 'sym' and b.a[0] == root:
                got.add(x.a[1])
                if low:
                    raw.add(x.a[1])
                return
        if x.op == 'sym':
            other.add(x.a[0])
        if x.op == 'app' and (x.a[0].startswith('byte') or x.a[0].startswith('asm')):
            low = True
        for y in terms._flat(x.a):
            go(y, low)
    go(t, False)
    return got, other, raw


@check('C11', VG, 'A hash depends on exactly the members that equality compares, and never on the representation of a floating point member.')
def equality(ck, tier):
    pairs(ck, ['header_eq', 'header_ne', 'record_eq', 'record_ne', 'point_eq', 'point_ne', 'point_lt', 'voxel_eq', 'extent_eq'])
    P = core()
    for n in ('point', 'record', 'voxel'):
        def go():
            f, e = one(P, 'vi::%s_hash' % n), one(P, 'vi::%s_eq' % n)
            if f is None or e is None:
                return ck.anchor_missing(n)
            h, q = summarise(P, f), summarise(P, e)
            ck.use(h)
            mh, oh, raw = members(h.ret, 'a0')
            mq, oq, _ = members(q.ret, 'a0')
            where = P.where(f)
            floats = {x[0] for x in terms.RECORDS[P.ty(f['params'][0]['t'])]['fields'] if x[1].startswith('f')}
            if h.notes or unknown(h.ret):
                ck.add(n + ' hash', UNDECIDED, 'not modelled: %s' % list(h.notes)[:3], where)
            elif mh == mq and not oh and not raw & floats:
                ck.add(n + ' hash uses the compared members: ' + ', '.join(sorted(mh)), DISCHARGED, '', where)
            else:
                ck.add(n + ' hash', VIOLATED, 'the hash depends on {%s}, equality on {%s}%s' % (
                    ', '.join(sorted(mh | oh)), ', '.join(sorted(mq)),
                    '; the hash reads the representation of ' + ', '.join(sorted(raw & floats)) if raw & floats else ''), where)
        ck.guard(n + ' hash', go)


def unknown(t):
    return oblig.unknown_parts(t)


COLS = 'x y z c p i r g b'.split()


@check('C12', VG)
def columns(ck, tier):
    pairs(ck, ['get_' + c for c in COLS] + ['file_get_' + c for c in COLS])
    pairs(ck, ['get_extra:ret:a1', 'file_get_extra:ret:a1=f', 'extra_fields_size', 'file_extra_fields'])
    pairs(ck, ['zero_' + c for c in 'c p i r g b rgb'.split()] + ['zero_extra:ret:a1'])


@check('C09', VG)
def extras(ck, tier):
    pairs(ck, ['same_extra', 'file_valid', 'push_back:a0', 'resize_extra:a0', 'set_record:a0', 'set_records:a0', 'move_in:a0',
               'make_file', 'make_file5', 'make_file0'])


@check('C10', VG, 'On every path that ends in an exception the file object and the argument still hold their initial values.')
def refused(ck, tier):
    pairs(ck, ['move_out:a0,a1', 'swap_files:a0,a1', 'assign:a0:a1=f', 'copy:ret:a0=f', 'clone:ret:a0=f', 'set_wkt:a0', 'set_compressed:a0',
               'get_wkt', 'get_compressed', 'get_major', 'get_minor', 'get_records', 'get_record'])
    P = core()
    for n in ('push_back', 'resize_extra', 'set_record', 'set_records', 'move_in', 'assign', 'swap_files', 'move_out', 'set_wkt'):
        unchanged(ck, P, n)


def unchanged(ck, P, n, stubs=None):
    def go():
        f = one(P, 'vi::' + n)
        if f is None:
            return ck.anchor_missing(n)
        o = summarise(P, f, stubs=stubs)
        ck.use(o)
        for k, x in enumerate(o.throws):
            for a, root in o.roots.items():
                v0, v1 = sym(a, o.eng.rootty[root]), x.store.get(root, UNDEF)
                for nm, stt, det, w in oblig.decide_equal([('%s: %s unchanged when refused (%d)' % (n, a, k + 1), v1, v0, x.cond)]):
                    if stt == VIOLATED and o.notes:
                        stt = UNDECIDED
                    ck.add(nm, stt, det, P.where(f), w)
    ck.guard(n + ' unchanged when refused', go)


@check('C39', VG)
def arithmetic(ck, tier):
    pairs(ck, ['add', 'sub', 'add_to:ret,a0', 'sub_from:ret,a0', 'dist', 'dist_record', 'about', 'about_point', 'encode_point',
               'encode_points', 'encode_extent'])
    pairs(ck, ['about_points'], pre=None)
    pairs(ck, ['decode_point', 'decode_points', 'decode_extent'])


@check('C02', VG)
def record_layout(ck, tier):
    pairs(ck, ['write_record:a0.items', 'read_record:ret,a0.pos', 'read_points:ret,a0.pos'])
