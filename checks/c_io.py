"""Point file input and output."""
from common import *
from registry import check
import stubs

VG = 'The value graph of the code, gated by its path conditions, equals that of the specification in normal form, for all inputs.'


def pairs(ck, names, rule=VG, hn='io', **k):
    P = harness(hn)
    for n in names:
        n, _, ob = n.partition(':')
        ob, _, un = ob.partition(':')
        args = {}
        for u in un.split(',') if un else ():
            a, _, y = u.partition('=')
            args[a] = uniform_file(a) if y == 'f' else uniform(a)
        pair(ck, P, n, tuple(ob.replace('@cout', '@std::cout').split(',')) if ob else ('ret',), args=args, rule=rule, **k)


COLS = ('f64', 'u32', 'u16', 'u64')


@check('C03', VG, 'zlib compression and decompression are unknown functions here; what they do is C07.')
def body(ck, tier):
    pairs(ck, ['compress_field_' + c for c in COLS] + ['read_column_%s:ret,a0.pos' % c for c in COLS] + ['write_column:a0.items'], stubs=stubs.ZLIB)
    pairs(ck, ['read_compressed_points:ret,a0.pos'], stubs=stubs.ZLIB)
    pairs(ck, ['write_compressed:a0.items:a1=f'], stubs=stubs.ZLIB_OK)


def stream_end(ck, hn, name, what, pre=None, sts=None, root='a0', args=None, parts=('fail',)):
    """at the normal end the stream has not failed (and nothing is buffered)"""
    P = harness(hn)

    def go():
        f = one(P, 'vi::' + name)
        if f is None:
            return ck.anchor_missing(name)
        o = summarise(P, f, stubs=sts, pre=pre, args=args)
        ck.use(o)
        for p in parts:
            c = AND(o.cond, o.obs('%s.%s' % (root, p)))
            if pre is not None:
                c = oblig.simp_under(c, pre)
            label = '%s: %s' % (name, 'ends normally only if %s' % (what if p == 'fail' else 'everything has been flushed'))
            if o.notes and c is not FALSE:
                ck.add(label, UNDECIDED, 'not modelled: ' + ', '.join(list(o.notes)[:3]), P.where(f))
            else:
                ck.is_false(label, terms.deepen(c), P.where(f), detail='a path from a failed stream to the normal end: ' + show(c, 4)[:200])
    ck.guard(name, go)


@check('C04', 'At the normal end of a reader the input stream has not failed: every read is followed by a check of the stream on every path.')
def truncated(ck, tier):
    for n in ('read_header', 'read_record'):
        stream_end(ck, 'core', n, 'no read came up short')
    k = sym('a2', 'u64')
    for p, l in ((le(k, I(123)), ''), (lt(I(123), k), '')):
        stream_end(ck, 'core', 'read_points', 'no read came up short', pre=p)
    for c in COLS:
        stream_end(ck, 'io', 'read_column_' + c, 'no read came up short', sts=stubs.ZLIB)
    stream_end(ck, 'io', 'read_compressed_points', 'no read came up short', sts=stubs.ZLIB)
    for n in ('read_compressed', 'read_uncompressed', 'read_file'):
        stream_end(ck, 'io', n, 'no read came up short', sts=stubs.BLOCKS)


@check('C05', 'At the normal end of a writer the output stream has not failed and holds no unflushed bytes, so that every write error has been seen.')
def unwritten(ck, tier):
    P = ('fail', 'dirty')
    for n in ('write_header', 'write_record'):
        stream_end(ck, 'core', n, 'no write failed', parts=P)
    for n in ('write_compressed', 'write_uncompressed', 'write_file'):
        stream_end(ck, 'io', n, 'no write failed', parts=P, sts=stubs.ZLIB_OK, args=dict(a1=uniform_file('a1')))


@check('C06', VG)
def gate(ck, tier):
    pairs(ck, ['check_signature', 'header_valid', 'write_header', 'read_header'], hn='core')
    pairs(ck, ['read_compressed', 'read_uncompressed', 'read_file'], stubs=stubs.BLOCKS)
    pairs(ck, ['write_uncompressed:a0.items:a1=f', 'write_file:a0.items:a1=f'], stubs=stubs.ZLIB_OK)


@check('C08', VG, 'A count is converted to its on-disk type only where the path conditions bound it by that type.')
def counts(ck, tier):
    pairs(ck, ['make_header', 'make_header4', 'get_header', 'header_valid', 'write_header'], hn='core')
    pairs(ck, ['write_uncompressed:a0.items:a1=f', 'write_compressed:a0.items:a1=f'], stubs=stubs.ZLIB_OK)
