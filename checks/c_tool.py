"""The functions of the tool program and the option parsing helpers."""
from common import *
from registry import check
import stubs
from c_io import VG, pairs


@check('C14', VG)
def names(ck, tier):
    pairs(ck, ['is_extra', 'extra_index', 'check_name'], hn='tool')
    pairs(ck, ['consume_int:ret,a0', 'consume_double:ret,a0', 'consume_name:ret,a0', 'consume_ints:ret,a0'], hn='tool')
    pairs(ck, ['get_field:a1.items:a0=f', 'set_field:ret,a1.pos:a0=f'], hn='tool')


@check('C38', VG)
def tools(ck, tier):
    pairs(ck, ['recenter:ret:a0=f', 'recenter_xy:ret:a0=f', 'subtract_min:ret:a0=f', 'subtract_min_xy:ret:a0=f'], hn='tool')
    pairs(ck, ['upsample:ret:a0=f,a1=f'], hn='tool')
    pairs(ck, ['resize_extra:ret:a0=f'], hn='tool', pre=lambda: le(ZERO, sym('a1', 'i32')))
    import c_main
    c_main.whole(ck, 'tool')
    c_main.compare(ck, 'tool', 'standard output', c_main.out('cout'))
