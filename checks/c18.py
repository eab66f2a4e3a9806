"""C18: settings written and read back, and every split of every range shape compared with the exact partition."""
import contextlib
import io
import itertools
import math
import os
import shutil
from mc import runner
import configfile
import distribute_run
import postprocfuncs

PROPERTY = 'C18'
ASSUMPTIONS = ['a split may reject ranges whose uneven halves cannot all be halved again']
SPACE = {
    'quick': 'round trips of every pair of deviating settings of the alphabet (types, parameter forms, functions, flags, names), written directly and by a split into one; '
             'splits into 1..32 parts of every first-polynomial shape with up to 2+2 coefficients of widths 1..5 at 3 offsets, and of selected shapes of 3 coefficients, '
             'interlacings and wide ranges; all split numbers -4..40; configurations in several directories, repeated splits, existing table versions',
    'thorough': 'widths 1..8, 3+2 coefficients, splits into up to 128 parts'}
F = postprocfuncs.POSTPROC_FUNCS
CHOICES = {
    'const': ['pi', 'zeta', 'feig', 'percolation', 'euler_masch', 'none'],
    'i': [0, 3, 19],
    'ab_polys_type': ['normal', 'indexed', 'sparse', 'none'],
    'ab_polys_special_params': ['none', [3, 2], [[4], [2, 5]], 7],
    'a_coeffs_range': [[[[1, 3]]], [[[-4, 4], [0, 1], [2, 7]]], [[[1, 3]], [[0, 2], [-1, 1]]]],
    'b_coeffs_range': [[[[-1, 2]]], [[[-3, 4], [1, 9]]], [[[1, 3]], [[5, 6]], [[0, 2], [-1, 1]]]],
    'validate_hashtable_extend_no_replication': ['true', 'false', 'none'],
    'gen_hashtable_only': ['auto', 'true', 'false', 'none'],
    'lhs_type': ['ulcd', 'rationalfunc', 'none'],
    'lhs_params': [[1, 2, 3, 4], [[1, 3], [-2, 4], [3, 5], [4, 6, 2]], [[[0, 2]], [[1, 3], [-1, 1]], 0], '[[[0, 2]], [[1, 3]], true]', '[[[0, 2]], [[1, 3]], false]',
                   '[[], null, [true, false]]', 'none'],
    'postproc_funcs_filter': [[k] for k in range(len(F))] + [list(range(len(F))), [5, 0, 3], []],
    'hashtable_file_operation': ['generate', 'expand', 'use'],
    'hashtable_file': ['tables/t', 'tables/Some Name.pkl', 't_v3.pkl', './t.x', 'tables/t_part01'],
    'hashtable_num_of_iterations': [1, 400, 'none'],
    'hashtable_precision': [6, 'none'],
    'third_filtering_precision': [30, 'none'],
    'print_surprising_nonexp_contfracs': ['true', 'false', 'none'],
    'is_test': ['true', 'false'],
}
KEYS = sorted(CHOICES)


def units(tier):
    deep = tier == 'thorough'
    out = [['roundtrip', k] for k in KEYS]
    wmax = 8 if deep else 5
    for na in (1, 2, 3) if deep else (1, 2):
        for w in range(1, wmax + 1):
            out.append(['split', na, w, wmax, 7 if deep else 5])
    out += [['numbers'], ['wide', 7 if deep else 6], ['where'], ['interlaced', 6 if deep else 4]]
    return out


def read(path):
    return configfile.ConfigParser(path).get_config()


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def write_back(config, path):
    out = configfile.ConfigParser()
    out.add_section('Setup')
    for k in configfile.CONFIG_PARAMS_TYPES:
        out.set('Setup', k, str(config[k]))
    with open(path, 'w') as f:
        out.write(f)


def quiet_split(n, path):
    with contextlib.redirect_stdout(io.StringIO()):
        distribute_run.main(n, path)


def compare(ctx, got, want, but=(), **info):
    for k in configfile.CONFIG_PARAMS_TYPES:
        if k in but:
            continue
        ctx.check(k in got and same(got[k], want[k]), 'a setting changes when it is written and read back', setting=k, got=repr(got.get(k)), expected=repr(want[k]), **info)


def run_roundtrip(ctx, key):
    os.makedirs('tables')
    for other in KEYS:
        if other < key:
            continue
        for v, w in itertools.product(CHOICES[key], CHOICES[other] if other != key else [None]):
            dev = {key: v}
            if other != key:
                dev[other] = w
            path = runner.write_config('conf.ini', **dev)
            config = read(path)
            write_back(config, 'again.ini')
            again = read('again.ini')
            compare(ctx, again, config, settings=dev)
            # the second generation
            write_back(again, 'again2.ini')
            compare(ctx, read('again2.ini'), config, settings=dev)
            if other == key:
                quiet_split(1, path)
                parts = sorted(os.listdir('conf_dist_1'))
                ctx.check(len(parts) == 1, 'a split into one part has more parts', parts=parts)
                compare(ctx, read(os.path.join('conf_dist_1', parts[0])), config, ('hashtable_file',), settings=dev)
            ctx.step(2)
            ctx.state(str(sorted(dev.items())))
            ctx.trace({'settings': dev})
    ctx.outcome('round trips')


def widths(ranges):
    return [r[1] - r[0] for r in ranges]


def points(a, b):
    """Number of coefficient combinations."""
    n = 1
    for r in itertools.chain(*(a + b)):
        n *= max(0, r[1] - r[0])
    return n


def inside(part, whole):
    """Every range of the part lies in the range of the whole."""
    return len(part) == len(whole) and all(len(p) == len(w) and all(len(r) == 2 and s[0] <= r[0] and r[1] <= s[1] for r, s in zip(p, w)) for p, w in zip(part, whole))


def disjoint(p, q):
    return any(r[1] <= s[0] or s[1] <= r[0] for x, y in zip(p, q) for r, s in zip(x, y)) or points(p, []) == 0


def split(ctx, a, b, n, path='conf.ini', **settings):
    runner.write_config(path, a_coeffs_range=a, b_coeffs_range=b, **settings)
    config = read(path)
    dirname = '%s_dist_%d' % (os.path.splitext(path)[0], n)
    power = n > 0 and n & (n - 1) == 0
    k = n.bit_length() - 1
    firsts = [w for w in widths(a[0]) + widths(b[0])]
    can = sum(int(math.log2(w)) for w in firsts) >= k
    cannot = math.prod(firsts) < n
    try:
        quiet_split(n, path)
    except ValueError:
        ctx.check(not power or not can, 'a divisible configuration is rejected', a=a, b=b, n=n)
        ctx.outcome('rejected')
        ctx.step()
        ctx.trace()
        return None
    ctx.check(power, 'a split number that is no power of two is accepted', n=n)
    ctx.check(not cannot, 'an indivisible range is split', a=a, b=b, n=n)
    files = sorted(os.path.join(dirname, f) for f in os.listdir(dirname))
    ctx.check(len(files) == n, 'wrong number of parts', a=a, b=b, n=n, parts=files)
    parts = [read(f) for f in files]
    total = 0
    for p, f in zip(parts, files):
        compare(ctx, p, config, ('a_coeffs_range', 'b_coeffs_range', 'hashtable_file'), a=a, b=b, n=n, part=f)
        pa, pb = p['a_coeffs_range'], p['b_coeffs_range']
        ctx.check(inside(pa, a) and inside(pb, b), 'a part leaves the original ranges', a=a, b=b, n=n, part_a=pa, part_b=pb)
        ctx.check(points(pa, pb) > 0, 'a part is empty', a=a, b=b, n=n, part_a=pa, part_b=pb)
        total += points(pa, pb)
    for p, q in itertools.combinations(parts, 2):
        ctx.check(disjoint(p['a_coeffs_range'] + p['b_coeffs_range'], q['a_coeffs_range'] + q['b_coeffs_range']), 'two parts overlap', a=a, b=b, n=n,
                  parts=[[p['a_coeffs_range'], p['b_coeffs_range']], [q['a_coeffs_range'], q['b_coeffs_range']]])
    # disjoint, inside, and as many points as the original
    ctx.check(total == points(a, b), 'the parts do not cover the original ranges', a=a, b=b, n=n, covered=total, of=points(a, b))
    tables = [os.path.abspath(p['hashtable_file']) for p in parts]
    ctx.check(len(set(tables)) == n, 'two parts share their table file', tables=tables)
    ctx.check(n == 1 or os.path.abspath(config['hashtable_file']) not in tables, 'a part writes the table of the whole', tables=tables)
    for t in tables:
        ctx.check(os.path.dirname(t) == os.path.dirname(os.path.abspath(config['hashtable_file'])), 'the table of a part is in another directory', table=t)
        ctx.check(not os.path.exists(t) or config['hashtable_file_operation'] != 'generate', 'the table of a part exists already', table=t)
    after = read(path)
    compare(ctx, after, config, a=a, b=b)
    ctx.step(n)
    ctx.state((str(a), str(b), n))
    ctx.outcome('split into %d' % n)
    ctx.trace({'a': a, 'b': b, 'n': n})
    return parts


def clean():
    for f in os.listdir('.'):
        if os.path.isdir(f) and '_dist_' in f:
            shutil.rmtree(os.path.abspath(f))


def run(unit, ctx):
    os.chdir(ctx.fresh_dir())
    kind = unit[0]
    if kind == 'roundtrip':
        return run_roundtrip(ctx, unit[1])
    os.makedirs('tables')
    if kind == 'split':
        _, na, w, wmax, kmax = unit
        for rest in itertools.product((1, 2, 3, wmax), repeat=na - 1):
            for nb in (1, 2):
                for wb in itertools.product((1, 2, 3, wmax), repeat=nb):
                    for off in (0, -2, -7):
                        a = [[[off + j, off + j + x] for j, x in enumerate((w,) + rest)]]
                        b = [[[off - j, off - j + x] for j, x in enumerate(wb)]]
                        for k in range(0, kmax + 1):
                            parts = split(ctx, a, b, 2**k)
                            clean()
                            if parts is None:
                                break
    elif kind == 'interlaced':
        for k in range(unit[1] + 1):
            for a in ([[[0, 4]], [[1, 3], [2, 9]]], [[[0, 1]], [[1, 9]]], [[[5, 6], [-3, 3]], [[0, 2]], [[1, 2]]]):
                for b in ([[[0, 1]], [[1, 4]]], [[[-5, 5], [0, 3]]], [[[2, 3], [0, 8]], [[0, 8]]]):
                    split(ctx, a, b, 2**k)
                    clean()
    elif kind == 'wide':
        for k in range(unit[1] + 1):
            for a in ([[[-100, 101]]], [[[0, 1], [0, 1], [-1000, 1000]]], [[[-5, 4], [-5, 4], [-5, 4]]], [[[10**6, 10**6 + 64], [3, 4]]]):
                for b in ([[[1, 2]]], [[[-4, 5], [-4, 5]]]):
                    split(ctx, a, b, 2**k)
                    clean()
    elif kind == 'numbers':
        for n in range(-4, 41):
            split(ctx, [[[0, 16]]], [[[0, 8]]], n)
            clean()
    elif kind == 'where':
        os.makedirs(os.path.join('My dir', 'x.y'))
        os.makedirs('Tables.d')
        for path in ('conf.ini', './conf.ini', os.path.join('My dir', 'Conf 1.ini'), os.path.join('My dir', 'x.y', 'c.d.ini'), os.path.abspath('c2.ini')):
            for table in ('t', 'tables/t_v4.pkl', './Tables.d/T.x', 'tables/t_part00'):
                for existing in ([], ['_v1'], ['_v1', '_v10'], ['']):
                    for op in ('generate', 'expand', 'use'):
                        base = os.path.basename(table).replace('.pkl', '').replace('_v4', '')
                        for v in existing:
                            open(os.path.join(os.path.dirname(table) or '.', base + v + '.pkl'), 'w').close()
                        for typ in ({}, {'ab_polys_type': 'sparse', 'ab_polys_special_params': [3, 2], 'postproc_funcs_filter': [3, 0, 7], 'lhs_type': 'rationalfunc',
                                         'lhs_params': '[[[0, 2]], [[1, 3]], true]', 'const': 'zeta', 'i': 7}):
                            p1 = split(ctx, [[[0, 5]]], [[[1, 3]]], 4, path, hashtable_file=table, hashtable_file_operation=op, **typ)
                            # split again: the same parts; with other ranges: those
                            p2 = split(ctx, [[[0, 5]]], [[[1, 3]]], 4, path, hashtable_file=table, hashtable_file_operation=op, **typ)
                            ctx.check([p['a_coeffs_range'] for p in p1] == [p['a_coeffs_range'] for p in p2], 'splitting again gives other parts')
                            split(ctx, [[[-8, 8]]], [[[1, 3]]], 4, path, hashtable_file=table, hashtable_file_operation=op, **typ)
                        for v in existing:
                            os.remove(os.path.join(os.path.dirname(table) or '.', base + v + '.pkl'))
