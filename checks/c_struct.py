"""Rules over the syntax trees of all functions of the library and the programs."""
from syntax import *
from registry import check

APPS = ('compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform')
HARNESSES = ('core', 'io', 'geom', 'zlib')


def programs(debug=False):
    """every translation unit that the checks look at"""
    return [appfacts(a, debug) for a in APPS] + [harness(h, debug) for h in HARNESSES]


def everywhere(debug=False):
    """(program, function), once for every function of the repository"""
    seen = set()
    for P in programs(debug):
        for f in mine(P):
            fn = P.files[f['l'][0]]
            if not fn.startswith(REPO) or '/test' in fn or fn.endswith(('test_utils.h', 'benchmark_utils.h')):
                continue
            k = (fn, f['l'][1], f['q'], tuple(P.types[p['t']]['s'] for p in f['params']))
            if k not in seen:
                seen.add(k)
                yield P, f


def looked_at(ck, P, f):
    ck.funcs[f['q']] = at(P, f)


# ------------------------------------------------------------ standard output
PRINTS = {'printf', 'puts', 'putchar', 'vprintf', 'std::printf', 'std::puts', 'std::putchar', 'putc', 'fputs', 'std::print', 'std::println',
          'std::vprintf', 'std::putc', 'std::fputs'}
R20 = 'No function of the library, or of a program outside its main file, names standard output; the stream helper that selects it is compared by value.'


@check('C20', R20)
def silent(ck, tier):
    bad, good = [], []
    for P, f in everywhere():
        fn = P.files[f['l'][0]]
        if not fn.endswith('.h'):
            continue
        looked_at(ck, P, f)
        for n in nodes(bodies(f)):
            if n['k'] == 'ref' and isinstance(n.get('v'), int) and P.vars[n['v']] and P.vars[n['v']].get('q') in ('std::cout', 'std::wcout', 'stdout'):
                s = '%s: %s names standard output' % (at(P, n), f['q'])
                (good if '::app_utils::output_stream' in f['q'] else bad).append(s)
            elif n['k'] == 'call':
                g = callee(P, n)
                if g and g['q'] in PRINTS:
                    bad.append('%s: %s calls %s' % (at(P, n), f['q'], g['q']))
        good.append(f['q'])
    decide(ck, 'library code does not write to standard output', bad, good, R20)


# ------------------------------------------------------------- determinism
CLOCKS = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'rand', 'srand', 'random', 'drand48', 'getpid', 'getenv', 'std::time', 'std::clock',
          'std::rand', 'std::srand', 'std::getenv', 'localtime', 'gmtime', 'tmpnam', 'std::tmpnam', 'rand_r', 'arc4random', 'getrandom', 'std::timespec_get',
          'pthread_self', 'gettid', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_wtime', 'omp_get_num_procs'}
ENGINES = ('std::linear_congruential_engine', 'std::mersenne_twister_engine', 'std::subtract_with_carry_engine', 'std::discard_block_engine',
           'std::shuffle_order_engine', 'std::independent_bits_engine', 'std::random_device')
R28 = ('No function reaches a clock, hardware randomness, process or thread identity or an address; every generator is seeded from a value of the '
       'input or a parameter and is not shared between calls; what is taken from a hash table in iteration order is stored by key or sorted.')


def is_source(q):
    return q in CLOCKS or q.endswith('_clock::now') or q.startswith(('std::random_device::', 'std::this_thread::get_id', 'std::thread::id'))


def type_of(P, n):
    t = n.get('t')
    return P.types[t]['s'] if isinstance(t, int) else ''


def refs(x):
    return [n for n in nodes(x) if n['k'] in ('ref', 'mem', 'this') and not (n['k'] == 'ref' and n.get('n') is None)]


@check('C28', R28)
def deterministic(ck, tier):
    src, gen, good, addr = [], [], [], []
    for P, f in everywhere():
        looked_at(ck, P, f)
        b = bodies(f)
        for n in nodes(b):
            g = callee(P, n) or (P.fns[n['fn']] if n['k'] in ('fnref', 'memfn') and isinstance(n.get('fn'), int) else None)
            if g and is_source(g['q']):
                src.append('%s: %s calls %s' % (at(P, n), f['q'], g['q']))
            elif n['k'] == 'cast' and n.get('ck') == 'PointerToIntegral':
                addr.append('%s: %s uses an address as a number' % (at(P, n), f['q']))
            elif g and g['q'] == 'std::hash::operator()' and '*' in P.recs[g['rec']].get('s', P.recs[g['rec']]['name']):
                addr.append('%s: %s hashes an address' % (at(P, n), f['q']))
            if n['k'] == 'decl':
                for d in n['d']:
                    if not isinstance(d, dict):
                        continue
                    v = P.vars[d['v']] if isinstance(d.get('v'), int) else None
                    if d.get('static') and v and not P.types[v['t']].get('c') and any(e in P.types[v['t']]['s'] for e in ('random', 'engine', 'twister', 'distribution', 'mt19937')):
                        gen.append('%s: %s keeps a generator between calls' % (at(P, n), f['q']))
            if g and g.get('rec') is not None and P.recs[g['rec']]['name'] in ENGINES and n['k'] in ('ctor', 'call'):
                if n['k'] == 'call' and g['n'] != 'seed':
                    continue
                a = n.get('args') or []
                site = '%s: %s' % (at(P, n), f['q'])
                if g.get('special') in ('copy', 'move'):
                    continue
                if a and any(x['k'] not in ('lit', 'cast') and refs(x) for x in a) or any(refs(x) for x in a):
                    good.append(site + ' seeds a generator')
                elif n['k'] == 'call' or f.get('kind') != 'ctor':
                    gen.append(site + ' uses a generator that is not seeded')
                elif not any(c['n'] == 'seed' for h in mine(P) if h.get('rec') == f.get('rec') for _, c in calls(P, bodies(h))):
                    gen.append(site + ' uses a generator that is never seeded')
    for P in programs():
        for v in P.vars:
            if v and v.get('mine') and v.get('kind') == 'global' and v.get('isdef') and any(e in P.types[v['t']]['s'] for e in ('random_device', '_engine', 'mt19937', 'distribution')):
                gen.append('%s: the generator %s is global' % (at(P, v), v['q']))
    decide(ck, 'no clock, hardware randomness, environment or thread number is read', src, ['%d functions' % len(ck.funcs)], R28)
    decide(ck, 'no address is used as a value', addr, ['%d functions' % len(ck.funcs)], R28)
    decide(ck, 'every generator is local and seeded', gen, good, R28)
    hash_order(ck)


def unordered(P, n):
    s = type_of(P, n)
    return 'unordered_' in s or any(w in s for w in ('voxel_index_map', 'voxel_index_set', 'tile_map')) and unordered_rec(P, n)


def unordered_rec(P, n):
    t = P.types[n['t']]
    while t['k'] in ('ref', 'ptr') and isinstance(t.get('e'), int):
        t = P.types[t['e']]
    return t['k'] == 'rec' and 'unordered' in P.recs[t['r']]['name']


SORTS = {'std::sort', 'std::stable_sort', 'std::set', 'std::map'}
ANYORDER = {'count_if', 'count', 'any_of', 'all_of', 'none_of', 'find', 'find_if', 'max_element', 'min_element', 'size', 'distance', 'sort', 'stable_sort', 'is_permutation'}
LOGS = ('std::clog', 'std::cerr')


def base_of(n):
    """the variable or member that an lvalue expression is part of"""
    while True:
        if n['k'] in ('ref', 'mem', 'this'):
            if n['k'] == 'mem' and n.get('b') and n['b']['k'] != 'this':
                n = n['b']
                continue
            return n.get('v') if n['k'] == 'ref' else n.get('f')
        nxt = n.get('obj') or (n.get('args') or [None])[0] if n['k'] == 'call' else None
        nxt = nxt or n.get('b') or n.get('e') or n.get('obj') or n.get('a')
        if nxt is None and n.get('args'):
            nxt = n['args'][0]
        if not isinstance(nxt, dict):
            return None
        n = nxt


def declared(x):
    return {d['v'] for n in nodes(x) if n['k'] == 'decl' for d in n['d'] if isinstance(d, dict) and 'v' in d}


def sorted_later(P, f, loop, var):
    """is the variable sorted after the loop"""
    after = False
    for n in nodes(f['body']):
        if n is loop:
            after = True
        g = callee(P, n) if after else None
        if g and g['q'] in ('std::sort', 'std::stable_sort') and any(r.get('v') == var or r.get('f') == var for a in n['args'] for r in nodes(a)):
            return True
    return False


def hash_order(ck):
    bad, good = [], []
    for P, f in everywhere():
        for n in nodes(f['body']):
            if n['k'] == 'rfor' and unordered(P, n['range']):
                body, site = n['body'], '%s: %s iterates over a hash table' % (at(P, n), f['q'])
            else:
                continue
            loc = declared(n)
            verdict = None
            for x in nodes(body):
                g = callee(P, x)
                tgt = None
                how = None
                if x['k'] in ('asgn', 'casgn') or x['k'] == 'un' and x.get('op') in ('++', '--'):
                    tgt = x.get('a') or x.get('e')
                    keyed = any(y['k'] in ('idx',) or y['k'] == 'call' and (callee(P, y) or {}).get('n') in ('operator[]', 'at') for y in nodes(tgt))
                    ty = type_of(P, tgt)
                    if keyed or (x['k'] != 'asgn' and x.get('op') not in ('-', '/') and ty not in ('double', 'float', 'std::string')):
                        continue
                    how = 'assigns' if x['k'] == 'asgn' else 'accumulates'
                elif g and x.get('obj') is not None and g['n'] in ('push_back', 'emplace_back', 'append', 'push_front', 'insert') and \
                        not any(w in type_of(P, x['obj']) for w in ('set<', 'map<', '_set', '_map')):
                    tgt, how = x['obj'], 'appends'
                elif g and g['n'] == 'operator<<' and x.get('args'):
                    tgt, how = x.get('obj') or x['args'][0], 'prints'
                elif x['k'] == 'ret' and x.get('e'):
                    tgt, how = x['e'], 'returns'
                if tgt is None:
                    continue
                v = base_of(tgt)
                if v in loc:
                    continue
                if how == 'appends' and sorted_later(P, f, n, v):
                    continue
                if how == 'prints':
                    q = P.vars[v]['q'] if isinstance(v, int) and P.vars[v] else None
                    if q in LOGS:
                        continue
                    if x is not None and 'ostream' not in type_of(P, tgt) and 'stream' not in type_of(P, tgt):
                        continue
                if how == 'returns' and not refs(tgt):
                    continue
                w = 'bad' if how in ('appends', 'prints') or how == 'accumulates' and type_of(P, tgt) in ('double', 'float', 'std::string') else 'unknown'
                verdict = (w, how, x) if verdict is None or w == 'bad' else verdict
            if verdict is None:
                good.append(site)
            elif verdict[0] == 'bad':
                bad.append('%s and %s in that order' % (site, verdict[1]))
            else:
                ck.add('hash table order at %s' % at(P, n), UNDECIDED, '%s at %s' % (verdict[1], at(P, verdict[2])), at(P, n))
    decide(ck, 'the iteration order of hash tables does not reach a result', bad, good, R28)


# ------------------------------------------------------------------- hashes
R11 = 'No function that a hash functor reaches reads an address, a capacity, or the bytes of an object with padding or a floating point member.'


@check('C11', R11)
def hashes(ck, tier):
    bad, good = [], []
    for P in programs():
        todo = [f for f in mine(P) if f['n'] == 'operator()' and f.get('rec') is not None and 'hash' in P.recs[f['rec']]['name']]
        seen = set()
        while todo:
            f = todo.pop()
            if f['id'] in seen:
                continue
            seen.add(f['id'])
            looked_at(ck, P, f)
            for n in nodes(bodies(f)):
                g = callee(P, n)
                s = '%s: %s' % (at(P, n), f['q'])
                if n['k'] == 'cast' and n.get('ck') == 'PointerToIntegral':
                    bad.append(s + ' hashes an address')
                elif n['k'] == 'cast' and n.get('ck') == 'BitCast' and refs(n):
                    bad.append(s + ' hashes the representation of an object')
                elif g and g['q'] == 'std::hash::operator()' and '*' in P.recs[g['rec']].get('s', P.recs[g['rec']]['name']):
                    bad.append(s + ' hashes an address')
                elif g and g['n'] in ('capacity', 'bucket_count', 'max_size') and g.get('rec') is not None:
                    bad.append(s + ' hashes a ' + g['n'])
                elif g and is_source(g['q']):
                    bad.append('%s calls %s' % (s, g['q']))
                if g and g.get('mine') and g.get('body'):
                    todo.append(g)
            good.append(f['q'])
    decide(ck, 'hashes use the values that are compared and nothing else', sorted(set(bad)), sorted(set(good)), R11)


# ----------------------------------------------------------------- contracts
R29 = ('The condition of every assertion and contract check only reads: no assignment, increment, allocation or modifying call, transitively; '
       'apart from these statements the Debug and the Release program are the same.')
CONTRACTS = ('__assert_fail', 'spoc::detail::test_contract')
MUTATING = {'push_back', 'emplace_back', 'pop_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'reserve', 'assign', 'swap', 'get', 'read', 'getline',
            'ignore', 'seekg', 'seekp', 'putback', 'unget', 'write', 'put', 'flush', 'open', 'close', 'seed', 'str', 'setstate', 'reset', 'release', 'append',
            'operator>>', 'operator<<', 'operator=', 'operator+=', 'operator-=', 'operator++', 'operator--', 'operator*=', 'operator/=', 'shrink_to_fit',
            'merge', 'extract', 'pop', 'push', 'discard', 'sync', 'try_emplace', 'insert_or_assign', 'push_front', 'pop_front'}
STD_MUTATING = {'std::' + x for x in ('sort', 'stable_sort', 'shuffle', 'reverse', 'rotate', 'unique', 'remove', 'remove_if', 'copy', 'move_backward', 'fill',
                                      'fill_n', 'iota', 'swap', 'transform', 'generate', 'partition', 'nth_element', 'partial_sort', 'exchange', 'getline',
                                      'replace', 'for_each', 'iter_swap', 'advance', 'copy_if', 'copy_n')} | {'memcpy', 'memset', 'std::memcpy', 'std::memset'}
READERS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'front', 'back', 'data', 'at', 'find', 'operator[]', 'size', 'operator*', 'operator->',
           'lower_bound', 'upper_bound', 'tellg', 'tellp', 'peek', 'rdbuf', 'count', 'contains', 'equal_range'}


def purity(P, memo):
    """impure(node, locals): the first construct below it that changes something else than the given locals"""

    def fn(g):
        if g['id'] in memo:
            return memo[g['id']]
        memo[g['id']] = None
        loc = {p['v'] for p in g['params'] if P.types[p['t']]['k'] not in ('ref', 'ptr')} | declared(g['body'])
        r = expr(bodies(g), loc)
        memo[g['id']] = r
        return r

    def expr(x, loc):
        for n in nodes(x):
            r = one_(n, loc)
            if r:
                return r
        return None

    def local(t, loc):
        v = base_of(t)
        return isinstance(v, int) and v in loc

    def one_(n, loc):
        k = n['k']
        if k in ('asgn', 'casgn'):
            return None if local(n['a'], loc) else 'assigns'
        if k == 'un' and n.get('op') in ('++', '--'):
            return None if local(n.get('e') or n.get('a'), loc) else 'increments'
        if k in ('new', 'delete'):
            return 'allocates'
        if k in ('call', 'ctor'):
            g = callee(P, n)
            if g is None:
                return None
            if g.get('body') and g.get('mine'):
                if k == 'ctor' or g.get('const') or g.get('static') or g.get('rec') is None:
                    return fn(g) and '%s, which %s' % (g['q'], fn(g))
                w = fn(g)
                return w and '%s, which %s' % (g['q'], w)
            if k == 'ctor' or g['q'] in CONTRACTS:
                return None
            if g['q'] in STD_MUTATING and n.get('obj') is None:
                a = n['args'][-1] if n.get('args') else None
                return None if a is not None and all(local(a2, loc) for a2 in n['args'] if base_of(a2) is not None) else 'calls ' + g['q']
            o = n.get('obj') or (n['args'][0] if g['n'].startswith('operator') and n.get('args') and g.get('rec') is not None else None)
            if g.get('rec') is not None and not g.get('const') and not g.get('static') and g.get('kind') != 'ctor':
                if g['n'] == 'operator[]' and o is not None and 'map' in P.recs[g['rec']]['name'] and not local(o, loc):
                    return 'may insert with operator[]'
                if g['n'] in MUTATING and o is not None and not local(o, loc):
                    if P.recs[g['rec']].get('lambda'):
                        return None
                    return 'calls ' + g['q']
            if g.get('rec') is None and g['n'] in ('operator>>', 'operator<<') and n.get('args') and 'stream' in type_of(P, n['args'][0]) and not local(n['args'][0], loc):
                return 'reads from or writes to a stream'
            if g.get('rec') is None and g['n'] == 'getline':
                return 'reads from a stream'
        return None
    return expr


def contract_sites(P, f):
    """(call, condition) of the assertions and contract checks of a function"""
    for n in nodes(bodies(f)):
        if n['k'] == 'cond' and any((callee(P, x) or {}).get('q') == '__assert_fail' for x in nodes([n.get('b'), n.get('else'), n.get('e')])) and n.get('c'):
            yield n, n['c']
        elif n['k'] == 'call' and (callee(P, n) or {}).get('q') == 'spoc::detail::test_contract':
            yield n, n['args'][0]


@check('C29', R29)
def contracts(ck, tier):
    bad, good = [], []
    for P, f in everywhere(True):
        looked_at(ck, P, f)
        pure = purity(P, {})
        for n, c in contract_sites(P, f):
            loc = declared(c)
            w = pure(c, loc)
            s = '%s: the condition in %s' % (at(P, n), f['q'])
            if w:
                bad.append('%s %s' % (s, w))
            else:
                good.append(s)
    decide(ck, 'contract and assertion conditions only read', bad, good, R29)
    same_builds(ck)


def shape(P, x, drop):
    """a function's tree without positions and identities"""
    if isinstance(x, list):
        r = [shape(P, v, drop) for v in x]
        return tuple(v for v in r if v is not None)
    if not isinstance(x, dict):
        return x
    if drop(x):
        return None
    out = []
    for k in sorted(x):
        v = x[k]
        if k in ('l', 'id', 'rec'):
            continue
        if k == 'fn' and isinstance(v, int):
            g = P.fns[v]
            out.append(('fn', g['q'] if g and '(lambda' not in g['q'] else 'lambda'))
        elif k == 'v' and isinstance(v, int):
            out.append(('v', P.vars[v]['n'] if P.vars[v] else v))
        elif k in ('t', 'rt', 'ty') and isinstance(v, int):
            out.append((k, P.types[v]['s'].split('(lambda')[0]))
        elif isinstance(v, (dict, list)):
            out.append((k, shape(P, v, drop)))
        else:
            out.append((k, v))
    return tuple(out)


def dropper(P):
    def is_contract(n):
        if n['k'] == 'null':
            return True
        if n['k'] == 'expr':
            e = n['e']
            while e and e['k'] in ('cast', 'mat', 'paren', 'temps') and isinstance(e.get('e'), dict):
                e = e['e']
            if e is None:
                return False
            if e['k'] == 'call' and (callee(P, e) or {}).get('q') in CONTRACTS:
                return True
            if e['k'] == 'cond' and any((callee(P, x) or {}).get('q') == '__assert_fail' for x in nodes(e)):
                return True
            if e['k'] == 'lit':
                return True     # ((void) 0)
        return False
    return lambda x: isinstance(x, dict) and x.get('k') in ('null', 'expr') and is_contract(x)


def same_builds(ck):
    bad, good = [], []

    def key(P, f):
        return (P.files[f['l'][0]], f['q'], tuple(P.types[p['t']]['s'] for p in f['params']))
    for a in list(APPS) + list(HARNESSES):
        D = appfacts(a, True) if a in APPS else harness(a, True)
        R = appfacts(a) if a in APPS else harness(a)
        rel = {}
        for f in mine(R):
            rel.setdefault(key(R, f), []).append(f)
        dd, dr = dropper(D), dropper(R)
        for f in mine(D):
            if not D.files[f['l'][0]].startswith(REPO) or '(lambda' in f['q']:
                continue
            gs = rel.get(key(D, f))
            if not gs:
                continue
            x = shape(D, bodies(f), dd)
            if any(shape(R, bodies(g), dr) == x for g in gs):
                good.append(f['q'])
            else:
                bad.append((a, D, f))
    good = sorted(set(good))
    report = []
    for a, D, f in bad:
        s = '%s: %s differs between Debug and Release' % (at(D, f), f['q'])
        if s not in report:
            report.append(s)
    decide(ck, 'Debug and Release programs differ only in contract checks', report, good, R29)
