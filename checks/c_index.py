"""Indexes that callers supply."""
from common import *
from registry import check
from c_io import VG

R30 = ('A call with an index is refused with an exception exactly when the index is not smaller than the number of elements (specification in normal form), in '
       'the Release and in the Debug program; the element is accessed on the other paths only.')
CORE = ['get_extra:a1=', 'zero_extra:a1=', 'file_get_extra:a1=f', 'set_record:', 'get_record:']
TRANSFORM = ['copy_field:', 'replace:', 'replace_not:', 'set:']


@check('C30', R30)
def indexes(ck, tier):
    for debug in (False, True):
        tool = ['get_field_debug:a0=f'] if debug else ['get_field:a0=f']
        for hn, names in (('core', CORE), ('tool', tool), ('transform', TRANSFORM)):
            P = harness(hn, debug)
            for n in names:
                n, _, un = n.partition(':')
                args = {}
                for u in un.split(',') if un else ():
                    a, _, y = u.partition('=')
                    args[a] = uniform_file(a) if y == 'f' else uniform(a)
                pair(ck, P, n, (), args=args, rule=R30, label='%s (%s)' % (n, 'Debug' if debug else 'Release'))
