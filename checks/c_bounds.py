"""The reader of uncompressed points, block by block."""
import concurrent.futures
import re
from common import *
from registry import check
from linear import Lin, lin, sym as lsym
import bounds
from bounds import Interp, State, Obj, Ptr, Stop

R36 = ('Abstract interpretation over linear forms of the chunk loop, once for each number of extra fields 0..255 with the number of points as a symbol: every range '
       'that is read into, copied from or copied to lies inside its buffer or record, every index is below the size, no divisor is zero, a measure falls in '
       'every round, and the bytes requested add up to the bytes of the records.')
R02B = ('Abstract interpretation over linear forms: the copies out of the buffer take the bytes of the stream in order, each to the place its position in the '
        'stream stands for, until all records are filled.')
FN = 'spoc::io::read_uncompressed_points'
FIXED = 40


class Reader(Interp):
    R = 0

    def read(self, n, p, count, st):
        if not isinstance(count, Lin):
            self.touch(st, p, None, n, 'destination of a read')
            st.ghost['req'] = None
            return
        self.oblige(st, 'access', n, [count], 'the number of bytes to read is not negative')
        self.touch(st, p, count, n, 'destination of a read')
        req = st.ghost.get('req')
        if isinstance(p, Ptr):
            o = st.heap.get(p.obj) if not isinstance(p.obj, tuple) else None
            if o is not None and o.get('rec') is None:
                o['src'] = req - p.off if isinstance(req, Lin) else None
                o['hi'] = p.off + count
            else:
                self.place(st, p, count, req, n)
        else:
            st.ghost['done'] = None
        st.ghost['req'] = req + count if isinstance(req, Lin) else None

    def copied(self, st, src, dst, count, n):
        pos = None
        if isinstance(src, Ptr) and not isinstance(src.obj, tuple):
            o = st.heap.get(src.obj) or {}
            if isinstance(o.get('src'), Lin) and o.get('rec') is None:
                pos = o['src'] + src.off
                if isinstance(o.get('hi'), Lin) and isinstance(count, Lin):
                    self.oblige(st, 'content', n, [o['hi'] - src.off - count], 'the copied bytes are among those just read')
        self.place(st, dst, count, pos, n)

    def place(self, st, dst, count, pos, n):
        if not isinstance(dst, Ptr):
            st.ghost['done'] = None
            return
        if not isinstance(dst.obj, tuple) and (st.heap.get(dst.obj) or {}).get('rec') is None:
            o = st.heap.get(dst.obj)
            if o is not None:
                o['src'] = o['hi'] = None
            return
        done = st.ghost.get('done')
        if not isinstance(count, Lin) or pos is None or not isinstance(done, Lin):
            st.ghost['done'] = None
            self.oblige(st, 'content', n, [None], 'bytes of the stream go to their place')
            return
        flat = dst.idx.scale(self.R) + dst.off + (FIXED if isinstance(dst.obj, tuple) else 0)
        self.oblige_eq(st, 'content', n, flat - pos, 'bytes of the stream go to their place')
        self.oblige_eq(st, 'content', n, pos - done, 'bytes of the stream are taken in order')
        st.ghost['done'] = done + count


def analyse(P, f, e, peel=0):
    it = Reader(P)
    it.peel = peel
    it.R = R = FIXED + 8 * e
    it.outs, it.alias = [], set()
    st = State()
    n = lsym('points')
    it.inputs.add('points')
    st.ges += [n, lin(2 ** 48) - n]
    st.ghost = {'req': lin(0), 'done': lin(0)}
    ps = f['params']
    st.env[ps[0]['v']] = None
    st.env[ps[1]['v']] = n
    st.env[ps[2]['v']] = lin(e)
    err, done = None, 0
    try:
        for kind, s, v in it.exec(f['body'], st):
            if kind == 'throw':
                continue
            done += 1
            o = s.heap.get(v.id) if isinstance(v, Obj) and not isinstance(v.id, tuple) else None
            req = s.ghost.get('req')
            it.oblige_eq(s, 'request', f, req - n.scale(R) if isinstance(req, Lin) else None, 'the bytes requested are the bytes of all records')
            d = s.ghost.get('done')
            it.oblige_eq(s, 'content', f, d - n.scale(R) if isinstance(d, Lin) else None, 'all records are filled')
            z = o.get('size') if o else None
            it.oblige_eq(s, 'content', f, z - n if isinstance(z, Lin) else None, 'one record per point is returned')
            x = o.get('extra') if o else None
            if isinstance(z, Lin) and not s.ent(-z):
                s2 = s.copy()
                s2.ges.append(z - 1)
                it.oblige_eq(s2, 'content', f, x - e if isinstance(x, Lin) else None, 'the records have the extra fields of the file')
        if not done:
            err = 'no path returns'
    except Stop as x:
        err = str(x)
    return {k: v for k, v in it.obs.items()}, err, sorted(it.notes), it.nstates


_P = None


def job(e):
    f = one(_P, FN)
    try:
        r = analyse(_P, f, e)
        und = [k for k, v in r[0].items() if v[0] == 'undecided']
        if und and e in (0, 1, 2, 3, 31, 124, 255):
            # rounds of the loops one by one
            for k, v in analyse(_P, f, e, 2)[0].items():
                if v[0] == 'bad' and r[0].get(k, ('undecided',))[0] != 'bad':
                    r[0][k] = v
        return e, r
    except RecursionError:
        return e, ({}, 'too deep', [], 0)


_done = {}


def results(ck):
    global _P
    for debug in (False, True):
        P = _P = harness('io', debug)
        f = one(P, FN)
        if f is None or not f.get('body') or len(f['params']) != 3:
            ck.anchor_missing(FN)
            return
        if debug not in _done:
            with concurrent.futures.ProcessPoolExecutor(8) as ex:
                _done[debug] = list(ex.map(job, range(256), chunksize=8))
        yield debug, P, f, _done[debug]


def report(ck, kinds, rule):
    for debug, P, f, res in results(ck):
        name = 'Debug' if debug else 'Release'
        sites = {}
        errs = {}
        for e, (obs, err, notes, n) in res:
            if err:
                errs.setdefault(err, []).append(e)
            for (kind, where, text), (status, detail, w, wit) in obs.items():
                if kind in kinds:
                    sites.setdefault((kind, where.replace(REPO + '/', ''), text), []).append((e, status, detail, wit))
        for err, es in errs.items():
            ck.add('%s (%s): analysis' % (FN, name), UNDECIDED, '%s for %d extra field counts' % (err, len(es)), '', None, rule)
        for (kind, where, text), rs in sorted(sites.items()):
            bad = [r for r in rs if r[1] == 'bad']
            und = [r for r in rs if r[1] == 'undecided']
            label = '%s: %s (%s)' % (where.split(':')[0] or FN, text, name) if kind in ('request', 'content') else '%s: %s (%s)' % (where, text, name)
            if bad:
                e, _, detail, wit = bad[0]
                pts = (wit or {}).get('points')
                ck.add(label, VIOLATED, 'with %d extra fields and %s points: %s (%d of %d extra field counts)' % (e, pts, detail, len(bad), len(rs)), where,
                       {'extra_fields': e, 'points': pts}, rule)
            elif und:
                ck.add(label, UNDECIDED, 'extra fields %s: %s' % (und[0][0], und[0][2]), where, None, rule)
            else:
                ck.add(label, DISCHARGED, '%d extra field counts' % len(rs), where, None, rule)
        if not any(k[0] == 'request' for k in sites) and 'request' in kinds and not errs:
            ck.add('%s (%s): bytes requested' % (FN, name), UNDECIDED, 'not reached', '', None, rule)


@check('C36', R36)
def reader(ck, tier):
    report(ck, ('access', 'division', 'termination', 'request'), R36)


@check('C02', R02B)
def contents(ck, tier):
    report(ck, ('content',), R02B)
