"""The streaming transform program."""
from common import *
from registry import check
import stubs
from c_io import VG, pairs


@check('C15', VG)
def formulas(ck, tier):
    pairs(ck, [o + '_' + a for o in ('add', 'scale', 'rotate') for a in 'xyz'] + ['quantize', 'gaussian', 'uniform'], hn='transform')


@check('C14', VG)
def fields(ck, tier):
    pairs(ck, ['copy_field', 'replace', 'replace_not', 'set'], hn='transform')


NAMES = ['add-x', 'add-y', 'add-z', 'scale-x', 'scale-y', 'scale-z', 'rotate-x', 'rotate-y', 'rotate-z', 'quantize-xyz',
         'gaussian-noise', 'gaussian-noise-x', 'gaussian-noise-y', 'gaussian-noise-z',
         'uniform-noise', 'uniform-noise-x', 'uniform-noise-y', 'uniform-noise-z', 'copy-field', 'replace', 'replace-not', 'set']
LISTS = [()] + [(n,) for n in NAMES] + [('add-x', 'scale-x'), ('rotate-x', 'rotate-y'), ('add-z', 'set'), ('add-y', 'unknown'), ('unknown',)]


def command_list(names):
    return lit(*[mk_struct('spoc::transform_cmd::command', [S(n), sym('parameter %d' % j, 'str')]) for j, n in enumerate(names)]) if names else SEQ0


@check('C19', VG, 'The command list is a list of the documented names with arbitrary parameters; the stream and its header are arbitrary.')
def streaming(ck, tier):
    pairs(ck, ['read_hdr:ret,a0.pos'], hn='transform')
    P = harness('transform')
    for l in LISTS:
        pair(ck, P, 'apply', ('a1.items', 'a0.pos'), args=lambda: dict(a2=command_list(l)), rule=VG, label='transform with [%s]' % ' '.join(l))

    def early():
        f = one(P, 'vi::apply')
        if f is None:
            return ck.anchor_missing('apply')
        for l in (('unknown',), ('add-y', 'unknown')):
            o = summarise(P, f, args=dict(a2=command_list(l)))
            ck.use(o)
            done = [x for x in o.throws if mentions(fld(x.store.get(('arg', 'a1'), UNDEF), 'items'), 'B8f')]
            ck.add('transform with [%s]: refused before the first record is written' % ' '.join(l), VIOLATED if done and not o.notes else DISCHARGED,
                   'refused after records were written at %s' % done[0].where if done else '', P.where(f))
    ck.guard('early', early)


def mentions(t, name):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app' and x.a[0] == name:
            return True
        todo += terms._flat(x.a)
    return False
