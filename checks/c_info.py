"""The information report and the JSON printer."""
from common import *
from registry import check
import stubs
from c_io import VG, pairs

KINDS = ('int', 'char', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'bool', 'string')
COLS = ('f64', 'u32', 'u16', 'u64')


def nested(eng, st, fr, fn, this, args, node):
    """printing a value inside an array or object: some text that depends on the value"""
    v = eng.read(st, args[1]) if args[1].op == 'ptr' else args[1]
    if tyof(v) != 'any':
        return NotImplemented
    s = eng.read(st, args[0])
    n = (args[2],) if len(args) > 2 else ()
    eng.write(st, args[0], set_fld(s, 'items', cat(fld(s, 'items'), lit(app('json:' + fn['n'], 'item', v, *n)))))
    return args[0]


def printed(eng, st, fr, fn, this, args, node):
    v = eng.read(st, args[1]) if args[1].op == 'ptr' else args[1]
    s = eng.read(st, args[0])
    eng.write(st, args[0], set_fld(s, 'items', cat(fld(s, 'items'), lit(app('json:' + fn['n'], 'item', v, *args[2:])))))
    return args[0]


def opaque(eng, st, fr, fn, this, args, node):
    ty = fr.prog.ty(fn['ret'])
    v = [eng.read(st, a) if a.op == 'ptr' else a for a in args]
    return app('%s(%s)%s' % (fn['n'], fr.prog.ty(fn['params'][0]['t']), narrowing(fr.prog, fn)), ty, *v)


def narrowing(P, fn):
    """the statistics are computed in a type that does not hold the column's values"""
    ts = fn.get('targs') or []
    t = P.ty(ts[0]) if ts and isinstance(ts[0], int) else None
    for x in fn['params']:
        e = P.ty(x['t']).lstrip('&')
        e = e[4:-1] if e.startswith('vec<') else None
        if t in SIZES and e in SIZES and t != e:
            f = [y[0] == 'f' for y in (t, e)]
            if f[1] and (not f[0] or SIZES[t] < SIZES[e]) or not any(f) and (SIZES[t] < SIZES[e] or t[0] == 'i' and e[0] == 'u' and SIZES[t] == SIZES[e]):
                return ' as ' + t
    return ''


def cases(x):
    k, q, e = sym('a2', 'bool'), sym('a3', 'bool'), equal(length(x), ZERO)
    for i in range(8):
        names = [w if i >> j & 1 else 'not ' + w for j, w in enumerate(('compact', 'quartiles', 'empty'))]
        yield ', '.join(names), AND(AND(k if i & 1 else NOT(k), q if i & 2 else NOT(q)), e if i & 4 else NOT(e))


@check('C26', VG)
def report(ck, tier):
    pairs(ck, ['class_counts', 'metrics', 'units', 'class_names'], hn='info')
    pairs(ck, ['object_' + c for c in COLS], hn='info')
    P = harness('info')
    for c in COLS:
        x = sym('a1', 'vec<%s>' % c)
        for how, pre in cases(x):
            pair(ck, P, 'string_' + c, pre=pre, rule=VG, label='string_%s %s' % (c, how))
    pairs(ck, ['%s_%s:a0.items' % (w, k) for w in ('compact', 'pretty') for k in KINDS], hn='info')
    nest = {'spoc::json::operator<<': nested, 'spoc::json::pretty_print': nested}
    pairs(ck, ['%s_%s:a0.items' % (w, k) for w in ('compact', 'pretty') for k in ('array', 'object')], hn='info', stubs=nest)
    known = {'spoc::info_app::' + n: opaque for n in ('get_summary_object', 'get_summary_string', 'get_class_count_map', 'get_metric_values')}
    known.update({'spoc::json::operator<<': printed, 'spoc::json::pretty_print': printed})
    known['spoc::asprs::get_asprs_class_map'] = lambda eng, st, fr, fn, this, args, node: app('class names', 'map<i32|str>')
    j = sym('a2', 'bool')
    for how, pre in (('json', j), ('text', NOT(j))):
        pair(ck, P, 'report', ('a0.items', 'a0.fmt'), pre=pre, rule=VG, label='report as ' + how, stubs=known, args=lambda: dict(a1=uniform_file('a1')))


R26 = ('Every type of value that is stored in a JSON value anywhere in the repository is compared with a typeid in each of the two functions that '
       'print a JSON value.')


def plain(s):
    s = s.replace('&', '').strip()
    return ' '.join(w for w in s.replace('const char *', 'const_char *').split() if w != 'const').replace('const_char', 'const char')


@check('C26', R26)
def types(ck, tier):
    from syntax import nodes, bodies, calls, mine, at, decide
    from c_struct import everywhere
    P = harness('info')
    printers = [f for f in mine(P) if f['q'] in ('spoc::json::operator<<', 'spoc::json::pretty_print') and len(f['params']) > 1
                and plain(P.types[f['params'][1]['t']]['s']).endswith('std::any')]
    if len(printers) < 2:
        ck.add('JSON value types', UNDECIDED, 'the printing functions were not found')
        return
    known = []
    for f in printers:
        ts = {plain(P.types[n['ty']]['s']) for n in nodes(f['body']) if n['k'] == 'typeid' and 'ty' in n}
        known.append((f, ts))
        ck.funcs[f['q']] = at(P, f)
    bad, good = [], []
    for Q, f in everywhere():
        for n, c in calls(Q, bodies(f)):
            if c['q'] not in ('std::any::operator=', 'std::any::any') or c.get('special') in ('copy', 'move') or not c['params'] or n['k'] == 'fnref':
                continue
            t = plain(Q.types[c['params'][0]['t']]['s'])
            if t == 'std::any' or 'in_place' in t:
                continue
            if '[' in t and 'char' in t:
                t = 'const char *'
            ck.funcs[f['q']] = at(Q, f)
            miss = [g['q'] for g, ts in known if t not in ts]
            s = '%s: %s stores a value of type %s' % (at(Q, n), f['q'], t)
            if miss:
                bad.append('%s, which %s does not print' % (s, ' and '.join(miss)))
            else:
                good.append(s)
    decide(ck, 'stored JSON types are printable', sorted(set(bad)), sorted(set(good)), R26)
