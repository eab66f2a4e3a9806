"""C23: run histories of the real program over small configurations, against a brute-force reference pipeline."""
import ast
import itertools
import os
import re
import shutil
import time
import zlib
import mpmath
from mc import oracle as o
from mc import pool
from mc import runner
from mc import latexread
from checks import c04, c10, c11, c12, c20, c21
import postprocfuncs

PROPERTY = 'C23'
UNIT_TIMEOUT = 800
ASSUMPTIONS = ['the reference accepts an identity that agrees (sign and integer part ignored) through every configured accuracy; identities whose fraction has not converged to that accuracy at the '
               'build depth, or that depend on a digit within rounding error of a digit boundary, may be reported or not',
               'of identities that C10 calls equivalent only one is reported', 'several runs of one history happen in one process, with pdflatex replaced by a stand-in']
SPACE = {
    'quick': 'histories: all sequences of length <= 3 over {generate A, generate B, expand by B (table only), generate A + search, expand by B + search, use + search x, use + search y} starting with a '
             'generation, for 3 pairs of table/search configurations (constants phi, e, pi; both kinds of left-hand sides); after every step the tables, the new results directory (rows, equations, '
             'configuration) and all the earlier files are compared, and the saved configuration is run again. Single runs: 30 constants x low-precision searches of both kinds, 10 searches over '
             'super-exponentially converging fractions, expansions of low-precision tables, slowly converging fractions confirmed in stages of growing accuracy, '
             'runs among leftovers of earlier runs in the results directory, tables built and expanded with 1 to 31 iterations, and 18 high-precision searches '
             'over enumerator types, interlacing, function sets and settings',
    'thorough': 'histories of length <= 4 over 6 pairs, and all single runs with all the accuracies'}
DEPTH = 120
CONSTS = {'pi': 0, 'e': 1, 'phi': 2, 'euler_masch': 3, 'apery': 4}
for _i in range(2):
    CONSTS['percolation', _i] = 5 + _i
for _i in range(4):
    CONSTS['feig', _i] = 7 + _i
for _i in range(2, 21):
    CONSTS['zeta', _i] = 11 + _i - 2


def const_ref(name, i):
    key = name if name in CONSTS else (name, i)
    with mpmath.workdps(140):
        x = c21.REFS[CONSTS[key]][3]
    return o.mpf_fr(x)


# a table: the settings that decide its entries; a search: the settings that decide the rows
def T(a, b, funcs, kind='normal', special=None):
    return {'ab_polys_type': kind, 'ab_polys_special_params': special or 'none', 'a_coeffs_range': a, 'b_coeffs_range': b, 'postproc_funcs_filter': funcs}


def S(const, kind, params, i=0, accs=(8, 10, 13, 20)):
    return {'const': const, 'i': i, 'lhs_type': kind, 'lhs_params': params, 'hashtable_precision': accs[0], 'first_filtering_precision': accs[1],
            'second_filtering_precision': accs[2], 'third_filtering_precision': accs[3]}


ULCD = [2, 2, 1, 3]
RAT = [[[-1, 2], [-1, 3]], [[0, 2], [0, 2]], False]
PAIRS = [
    (T([[[1, 4]]], [[[1, 3]]], [0, 1]), T([[[1, 3], [0, 2]]], [[[-2, 2]]], [0, 2]), S('phi', 'ulcd', ULCD), S('phi', 'rationalfunc', RAT)),
    (T([[[1, 5], [0, 2]]], [[[0, 1], [-2, 2]]], [0, 1, 2]), T([[[1, 3], [0, 3]]], [[[1, 3]]], [0, 1]), S('e', 'rationalfunc', RAT), S('e', 'ulcd', ULCD)),
    (T([[[0, 3], [1, 3]]], [[[0, 1], [0, 1], [-1, 2]]], [0, 1]), T([[[-2, 2]], [[1, 3]]], [[[1, 3]]], [0, 2]), S('pi', 'rationalfunc', RAT), S('phi', 'ulcd', ULCD)),
    (T([[[3, 4], [11, 12], [11, 12]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [1, 2]]], [0, 1]), T([[[5, 6], [27, 28], [51, 52], [34, 35]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [-1, 0]]], [0, 1]),
     S('zeta', 'rationalfunc', [[[0, 7], [0, 2]], [[0, 2], [0, 6]], False], 2), S('apery', 'rationalfunc', [[[0, 7]], [[0, 1], [1, 3]], False])),
    (T([[[1, 4]]], [[[1, 3]]], [0, 2, 4]), T([[[-3, 0]]], [[[1, 4]]], [0, 2, 4]), S('feig', 'ulcd', ULCD, 2, (2, 2, 3, 4)), S('percolation', 'rationalfunc', RAT, 1, (2, 2, 3, 3))),
    (T([[[1, 3]], [[1, 3]]], [[[1, 3]]], [0, 10]), T([[[1, 3], [1, 3]]], [[[1, 2]]], [20, 21, 0], 'indexed'), S('phi', 'rationalfunc', RAT), S('e', 'ulcd', ULCD)),
]
SUPER = T([[[1, 4], [0, 1], [1, 3]]], [[[1, 3]]], [0, 1, 2])
LOW = T([[[1, 4]]], [[[1, 4]]], [0, 2, 5])
SINGLE = [
    (T([[[1, 4]]], [[[1, 4]]], [0, 1, 2, 3]), S('phi', 'ulcd', [3, 3, 2, 5]), {}),
    (T([[[1, 4]]], [[[1, 4]]], [0]), S('phi', 'rationalfunc', [[[-2, 3], [-1, 2]], [[1, 3], [0, 2]], True]), {}),
    (T([[[-3, 4]]], [[[-3, 4]]], [0, 1]), S('phi', 'ulcd', ULCD), {}),
    (T([[[1, 4]]], [[[-2, 3]]], [0, 6, 7]), S('phi', 'ulcd', [3, 3, 2, 5]), {}),
    (T([[[1, 5], [-1, 2]]], [[[0, 1], [-2, 2]]], [0, 1]), S('e', 'rationalfunc', RAT), {}),
    (T([[[1, 5], [-1, 2]]], [[[0, 1], [-2, 2]]], [0, 1, 20, 21]), S('e', 'rationalfunc', RAT), {'print_surprising_nonexp_contfracs': 'true'}),
    (T([[[0, 3], [1, 3]]], [[[0, 1], [0, 1], [-1, 2]]], [0, 1]), S('pi', 'rationalfunc', [[[-4, 5], [0, 2]], [[0, 2], [0, 2]], False]), {}),
    (T([[[1, 2], [2, 3]]], [[[0, 1], [0, 1], [1, 3]]], [0, 1, 2, 3]), S('pi', 'ulcd', [[-4, 5], [1, 3], 0, [1, 2]]), {}),
    (T([[[2, 6], [4, 5]]], [[[1, 2]]], [0, 1, 2]), S('e', 'rationalfunc', RAT), {}),
    (T([[[1, 3], [1, 3]]], [[[1, 2], [1, 2]]], [0], 'sparse', [3, 3]), S('e', 'rationalfunc', RAT), {}),
    (T([[[0, 2], [1, 3]]], [[[0, 2], [0, 2]]], [0, 1], 'indexed'), S('e', 'rationalfunc', RAT), {}),
    (T([[[1, 3]], [[1, 4]]], [[[1, 2]], [[1, 3]]], [0, 1]), S('phi', 'rationalfunc', RAT), {}),
    (T([[[1, 3]], [[2, 3]], [[1, 3]]], [[[1, 3]]], [0]), S('phi', 'ulcd', [2, [1, 7], 3, 6]), {}),
    (T([[[5, 6], [27, 28], [51, 52], [34, 35]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [-1, 0]]], [0, 1]), S('zeta', 'rationalfunc', [[[0, 7], [0, 7]], [[0, 2], [0, 2]], False], 3), {}),
    (T([[[3, 4], [11, 12], [11, 12]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [1, 2]]], [0, 1]), S('zeta', 'rationalfunc', [[[0, 7], [0, 7]], [[0, 2], [0, 6]], False], 2), {}),
    (T([[[1, 4]]], [[[1, 4]]], [0, 1, 10, 11]), S('percolation', 'rationalfunc', [[[0, 1], [-3, -2], [0, 1], [1, 2]], [[2, 8]], False], 1), {}),
    (T([[[1, 4]]], [[[1, 4]]], [0, 1, 10, 11]), S('percolation', 'rationalfunc', [[[0, 1], [0, 1], [-3, -2], [1, 2]], [[2, 8]], False], 0), {}),
    (T([[[2, 3], [1, 3]]], [[[-6, 3], [0, 2]]], [0, 1]), S('e', 'rationalfunc', [[[-2, 3], [-2, 3]], [[-2, 3], [0, 2]], False]), {}),
]
# thousands of clicks
CROWD = [(T([[[1, 5]]], [[[1, 5]]], [0, 1, 2, 3, 4]), S('phi', 'rationalfunc', [[[-3, 4], [-3, 4]], [[1, 5], [0, 3]], False], 0, (1, 4, 8, 9))),
         (T([[[1, 5], [0, 2]]], [[[0, 1], [-2, 2]]], [0, 1, 2]), S('e', 'ulcd', [4, 4, 2, 5], 0, (1, 3, 6, 8)))]
OPS = ['genA', 'genB', 'expB', 'genS', 'expS', 'useX', 'useY']


def units(tier):
    deep = tier == 'thorough'
    out = []
    # one unit per history prefix; every history is executed from an empty directory
    for p in range(len(PAIRS) if deep else 3):
        for first in ('genA', 'genB', 'genS'):
            for second in OPS:
                out.append(['history', p, [first, second], 4 if deep else 3])
    for c in sorted(CONSTS, key=str):
        name, i = c if isinstance(c, tuple) else (c, 0)
        for kind in ('ulcd', 'rationalfunc'):
            if deep or (i % 2 == 0) == (kind == 'ulcd') or name != 'zeta':
                # every stage is the strictest one in some runs
                n = len(out)
                for k, accs in enumerate([(2, 2, 3, 3), (2, 2, 2, 3), (2, 3, 2, 2), (2, 2, 3, 2), (3, 2, 2, 2)]):
                    if deep or k == n % 5 or k == 1 and n % 2:
                        out.append(['low', name, i, kind, accs])
    out.append(['existing'])
    for p in range(4):
        out += [['lowexpand', p, accs] for accs in ((2, 2, 2, 2), (3, 2, 2, 3))]
    for accs, iters in (((6, 7, 13, 20), (120, 120, 600, 900)), ((5, 5, 10, 30), (120, 120, 300, 1500)), ((5, 5, 20, 8), (120, 120, 800, 60)), ((4, 9, 9, 12), (80, 200, 200, 400))):
        out.append(['slow', accs, iters])
    # super-exponentially converging fractions
    for n, (name, i) in enumerate((('pi', 0), ('e', 0), ('zeta', 3), ('feig', 1), ('phi', 0))):
        for kind in ('ulcd', 'rationalfunc'):
            for accs in ((2, 2, 3, 3), (2, 2, 2, 2)) if deep else ((2, 2, 2, 2),):
                out.append(['super', name, i, kind, accs])
    for depth in (1, 2, 3, 5, 10, 31) if deep else (1, 3, 10, 31):
        for k in range(len(c11.STEPS)):
            out.append(['shallow', depth, k])
    for n in range(len(CROWD)):
        out.append(['crowd', n])
    for k in range(len(SINGLE)):
        out.append(['single', k, [8, 10, 13, 20]])
        if deep:
            out += [['single', k, [12, 12, 20, 30]], ['single', k, [6, 15, 18, 22]]]
    return out


_cand = {}


def candidates(table):
    """{(ab, f): (limit value, error) | 'open'} of the entries that one build of the table configuration makes."""
    key = str(table)
    if key in _cand:
        return _cand[key]
    special = None if table['ab_polys_special_params'] == 'none' else table['ab_polys_special_params']
    out = {}
    for k, v in c11.expected(table['ab_polys_type'], special, table['a_coeffs_range'], table['b_coeffs_range'], table['postproc_funcs_filter'], DEPTH).items():
        (pa, pb), f = k
        out[k] = 'open' if v == 'open' or v[0] == 'open' else limit(pa, pb, f)
    _cand[key] = out
    return out


_limit = {}


def limit(pa, pb, f):
    """(value, error) of function f of the infinite fraction where it converges well; None if the fraction terminates or does not converge; 'open' in between."""
    key = (pa, pb)
    if key not in _limit:
        if any(o.term(pb, i) == 0 for i in range(1, 620)):
            r = None
        else:
            c = o.convergents(pa, pb, 300)
            if any(c[n][1] == 0 for n in (DEPTH - 2, DEPTH - 1, 298, 299, 300)):
                r = 'open'
            else:
                v = o.Fr(*c[300])
                w = o.Fr(*c[299])
                e = max(abs(o.Fr(*c[n]) - v) for n in (DEPTH - 2, DEPTH - 1))
                # converges geometrically, at least by 10^-26 within the build depth
                if e <= abs(v) * o.Fr(1, 10**26) and abs(v - w) <= abs(v) * o.Fr(1, 10**50):
                    r = (v, abs(v - w) * 4 + abs(v) * o.Fr(1, 10**60), e)
                elif oscillates(c):
                    r = None
                else:
                    r = 'open'
        _limit[key] = r
    r = _limit[key]
    if r is None or r == 'open':
        return r
    v, tail, e = r
    if v == 0:
        return 'open'
    y = pool.func_of(f, v, tail, 90)
    if y is None or y == 'open':
        return 'open'
    z = pool.func_of(f, v, e, 90)
    if z is None or z == 'open':
        return 'open'
    return y[0], max(y[1], z[1])


def oscillates(c):
    """The last convergents are far apart: no digits agree with anything."""
    vs = [o.Fr(*x) for x in c[290:] if x[1]]
    return max(vs) - min(vs) > 1


_enumerated = {}


def lhs_list(search):
    key = str((search['const'], search['i'], search['lhs_type'], search['lhs_params']))
    if key not in _enumerated:
        x = const_ref(search['const'], search['i'])
        kind = search['lhs_type']
        _enumerated[key] = [(p, pool.lhs_value(kind, p, x)) for p in c12.enumerated(kind, search['lhs_params'], x)]
        _enumerated[key] = [(p, v) for p, v in _enumerated[key] if v[0] is not None and not c12.degenerate(kind, p, x)]
    return _enumerated[key]


def reference(tables, search):
    """(accepted identities, candidates that may appear). tables: the table configurations whose entries the searched table has."""
    cands = {}
    for t in tables:
        for k, v in candidates(t).items():
            cands[k] = v
    accs = [search[s] for s in ('hashtable_precision', 'first_filtering_precision', 'second_filtering_precision', 'third_filtering_precision')]
    acc = max(accs)
    byd = {}
    for k, v in cands.items():
        if v is None or v == 'open':
            continue
        y, err = v
        if c10_neg_root(k[0][1]):
            continue
        d = o.frac_digits(y, acc, err + o.Fr(1, 10**40))
        if d is not None and all(o.frac_digits(y, a, err + o.Fr(1, 10**40)) is not None for a in accs):
            byd.setdefault(d, []).append((k, y))
    accepted = []
    for p, (v, scale) in lhs_list(search):
        if abs(v) < o.Fr(1, 10**30):
            continue
        d = o.frac_digits(v, acc, scale * o.Fr(1, 10**40))
        if d is None:
            continue
        for k, y in byd.get(d, []):
            accepted.append((search['lhs_type'], k[0], p, k[1]))
    return accepted, cands


def c10_neg_root(pb):
    """The reference leaves fractions open whose b has integer roots."""
    return any(o.horner(p, r) == 0 for p in pb for r in list(range(-60, 0)) + list(range(1, 61)))


def rows_of(ctx, dirname, **info):
    rows = runner.read_rows(dirname)
    ctx.check(len(rows) >= 2, 'the results file has no title', rows=rows, **info)
    out = []
    for row in rows[2:]:
        ctx.check(len(row) == 9, 'strange row', row=row, **info)
        out.append(row)
    return rows[0], out


def canonical(rows):
    return sorted(tuple(r) for r in rows)


def compare(ctx, dirname, tables, search, **info):
    """The written results against the reference."""
    info = dict(info, search=search)
    title, rows = rows_of(ctx, dirname, **info)
    accepted, cands = reference(tables, search)
    name = search['const'] + (', %d' % search['i'] if search['const'] in ('feig', 'percolation') else '')
    ctx.check(title[:2] == ['target_name', name], 'the results name a wrong constant', title=title, **info)
    x = const_ref(search['const'], search['i'])
    acc = max(search[s] for s in ('hashtable_precision', 'first_filtering_precision', 'second_filtering_precision', 'third_filtering_precision'))
    tol = o.Fr(1, 10**acc)
    enumerated = [pool.lhs_fraction(search['lhs_type'], p) for p, _ in lhs_list(search)]
    got = []
    for row in rows:
        tag = dict(info, row=row)
        ab = (ast.literal_eval(row[0]), ast.literal_eval(row[1]))
        ctx.check(row[2] in postprocfuncs.POSTPROC_FUNCS, 'a row names no function', **tag)
        f = postprocfuncs.POSTPROC_FUNCS.index(row[2])
        ctx.check((ab, f) in cands, 'a reported fraction or function is not in the searched table', **tag)
        ctx.check(row[3] == search['lhs_type'], 'wrong type of left-hand side', **tag)
        ctx.check(row[5] in ('exp', 'super_exp'), 'a result does not converge exponentially', **tag)
        params = ast.literal_eval(row[4])
        frac = pool.lhs_fraction(search['lhs_type'], params)
        ctx.check(any(pool.up_to_sign_and_integer(frac, g) for g in enumerated), 'a reported left-hand side is not in the search space', **tag)
        v, scale = pool.lhs_value(search['lhs_type'], params, x)
        ctx.check(v is not None and abs(o.mpf_fr(mpmath.mpf(row[8])) - v) <= scale * o.Fr(1, 10**44), 'a wrong value of a left-hand side', expected=mpmath.nstr(o.fr_mpf(v), 50), **tag)
        y = cands[ab, f]
        ctx.check(y is not None, 'a terminating or diverging fraction is reported', **tag)
        if y != 'open':
            y, err = y
            ctx.check(abs(v - y) <= tol + err, 'a reported identity is false', expected=mpmath.nstr(o.fr_mpf(y), 50), **tag)
            ctx.check(abs(o.mpf_fr(mpmath.mpf(row[7])) - y) <= abs(y) * o.Fr(1, 10**24) + err, 'a wrong value of a fraction', expected=mpmath.nstr(o.fr_mpf(y), 50), **tag)
        else:
            ctx.skip('slowly converging or root screening open')
        got.append((search['lhs_type'], ab, params, f))
        ctx.state(('row', str(row)))
    for i, j in itertools.combinations(range(len(got)), 2):
        ctx.check(not c10.must(got[i], got[j]), 'two equivalent identities are reported', first=rows[i], second=rows[j], **info)
    for r in accepted:
        ctx.check(any(c10.may(r, g) for g in got), 'a true identity of the search space is not reported', identity=r, reported=len(got), **info)
    ctx.step(len(rows) + len(accepted))
    ctx.outcome('rows', len(rows))
    ctx.outcome('identities', len(accepted))
    # the documents
    for fn in ('results.tex', 'results.pdf', 'config.ini'):
        ctx.check(os.path.isfile(os.path.join('results', dirname, fn)), 'a results file is missing', file=fn, **info)
    with open(os.path.join('results', dirname, 'results.tex')) as fh:
        text = fh.read()
    eqns = [line for line in text[text.index('\\begin{document}'):].split('\n') if '=' in line]
    ctx.check(len(eqns) == len(rows), 'the document does not have one equation per result', equations=eqns, rows=rows, **info)
    with mpmath.workdps(90):
        xm = o.fr_mpf(x)
        token = {'pi': '\\pi', 'phi': '\\varphi'}
        names = {name: xm, token.get(name, name): xm, '\\phi': xm}
        for line, (kind, ab, params, f) in zip(eqns, got):
            line = line.rstrip('%').rstrip()
            ok = False
            if cands[ab, f] == 'open':
                continue
            ab = tuple(map(tuple, (map(tuple, ab[0]), map(tuple, ab[1]))))
            for depth in (5, 2, 3, 4, 6, 7, 8, 10):
                if c20.tails(ab, depth) == 0:
                    continue
                dots = mpmath.mpf(o.term(ab[1], depth)) / c20.tails(ab, depth)
                try:
                    left, right, n = latexread.read_equation(line, names, dots)
                except latexread.LatexError as e:
                    ctx.fail('an equation of the document cannot be read: %s' % e, equation=line, **info)
                except ZeroDivisionError:
                    continue
                if n == 1 and (c20.near(left, right, max(acc - 3, 1)) or mpmath.im(left - right) == 0 and abs(left - right) <= mpmath.mpf(10)**-acc):
                    ok = True
                    break
            ctx.check(ok, 'an equation of the document is false', equation=line, a=ab[0], b=ab[1], lhs=params, f=f, **info)
            ctx.step()
    return canonical(rows)


def fixed_clock():
    """All the runs of a history are finished in the same minute."""
    real = time.strftime
    if not hasattr(time, 'picf_real'):
        time.picf_real = real
        t = time.localtime()
        time.strftime = lambda fmt, *a: real(fmt, *(a or (t,)))


def run_op(op, pair):
    """Settings of one operation: (settings, tables added, resets, searches)."""
    ta, tb, sx, sy = PAIRS[pair]
    if op == 'genA':
        return dict(ta, hashtable_file_operation='generate', **sx), None
    if op == 'genB':
        return dict(tb, hashtable_file_operation='generate', **sy), None
    if op == 'expB':
        return dict(tb, hashtable_file_operation='expand', **sx), None
    if op == 'genS':
        return dict(ta, hashtable_file_operation='generate', gen_hashtable_only='false', **sx), sx
    if op == 'expS':
        return dict(tb, hashtable_file_operation='expand', gen_hashtable_only='false', **sy), sy
    s = sx if op == 'useX' else sy
    return dict(ta if op == 'useY' else tb, hashtable_file_operation='use', **s), s


def config_of(settings):
    return {k: v for k, v in settings.items()}


def step(ctx, settings, search, tables, history):
    """Executes one run in the current directory and checks it. Returns the rows (None for table-only runs)."""
    before = runner.snapshot('.')
    dirs = runner.results_dirs()
    runner.write_config('config.ini', **settings)
    before['config.ini'] = open('config.ini', 'rb').read()
    runner.run_main('config.ini')
    after = runner.snapshot('.')
    for p, data in before.items():
        ctx.check(p in after, 'a run removed a file of an earlier run', file=p, history=history)
        ctx.check(after[p] == data, 'a run overwrote a file of an earlier run', file=p, history=history)
    new = [d for d in runner.results_dirs() if d not in dirs]
    ctx.step()
    ctx.state((str(history), str(settings)))
    if search is None:
        ctx.check(new == [], 'a table-only run wrote results', dirs=new, history=history)
        return None
    ctx.check(len(new) == 1, 'a run did not write exactly one results directory', dirs=new, history=history)
    extra = [p for p in after if p not in before and not p.startswith(os.path.join('results', new[0]) + os.sep) and not p.startswith('tables')]
    ctx.check(extra == [], 'a run left other files behind', files=extra, history=history)
    return new[0], compare(ctx, new[0], tables, search, history=history)


def reproduce(ctx, start, dirname, rows, where, history):
    """The saved configuration, run from the state before the run, gives the same results."""
    config = os.path.join(where, 'results', dirname, 'config.ini')
    back = os.getcwd()
    os.chdir(start)
    try:
        old = runner.results_dirs()
        shutil.copy(config, 'saved.ini')
        runner.run_main('saved.ini')
        new = [d for d in runner.results_dirs() if d not in old]
        ctx.check(len(new) == 1, 'the saved configuration does not write one results directory', dirs=new, history=history)
        _, again = rows_of(ctx, new[0], history=history)
        ctx.check(canonical(again) == rows, 'the saved configuration does not reproduce the results', first=rows[:4], again=canonical(again)[:4], counts=(len(rows), len(again)), history=history)
        ctx.step()
    finally:
        os.chdir(back)


def settings_base():
    return dict(hashtable_num_of_iterations=DEPTH, first_filtering_num_of_iterations=DEPTH, second_filtering_max_num_of_iterations=200, third_filtering_max_num_of_iterations=250)


def histories(ctx, pair, prefix, depth):
    """Depth-first over all histories that extend the prefix; each run happens in a copy of the directory its predecessor left."""
    root = ctx.fresh_dir()

    def visit(directory, done, tables, table_prec, memo):
        op = None
        todo = [prefix[len(done)]] if len(done) < len(prefix) else (OPS if len(done) < depth else [])
        for op in todo:
            # the last step of a longest history only matters if it searches
            if len(done) == depth - 1 and op in ('genA', 'genB', 'expB') and depth > 2:
                continue
            if len(done) < len(prefix) - 1 and prefix[1] != OPS[0]:
                check_rows = False
            else:
                check_rows = True
            here = os.path.join(root, '_'.join(done + [op]))
            shutil.copytree(directory, here)
            os.chdir(here)
            settings, search = run_op(op, pair)
            full = dict(settings_base(), **settings)
            ta, tb = PAIRS[pair][:2]
            now = {'genA': [ta], 'genS': [ta], 'genB': [tb]}.get(op) or (tables + [tb] if op in ('expB', 'expS') else tables)
            hist = [pair] + done + [op]
            # a search through a table uses the accuracy that the table was built with
            s = search
            if search is not None and op.startswith('use'):
                s = dict(search, hashtable_precision=table_prec)
            r = step(ctx, full, s, now, hist)
            if r is not None:
                key = (op, tuple(str(t) for t in now))
                if key in memo:
                    ctx.check(memo[key] == r[1], 'repeating a search gives other results', history=hist)
                if check_rows and (len(done) + 1 < depth or key not in memo):
                    copy = here + '_again'
                    shutil.copytree(directory, copy)
                    reproduce(ctx, copy, r[0], r[1], here, hist)
                    shutil.rmtree(copy)
                memo = dict(memo, **{}) if key in memo else {**memo, key: r[1]}
                ctx.trace({'history': hist, 'rows': len(r[1])})
            prec = full['hashtable_precision'] if not op.startswith('use') else table_prec
            visit(here, done + [op], now, prec, memo)
            os.chdir(root)
            shutil.rmtree(here)

    start = os.path.join(root, 'start')
    os.mkdir(start)
    os.mkdir(os.path.join(start, 'tables'))
    visit(start, [], [], None, {})
    os.chdir(root)


def single(ctx, table, search, more, label):
    root = ctx.fresh_dir()
    a, b = os.path.join(root, 'a'), os.path.join(root, 'b')
    for d in (a, b):
        os.mkdir(d)
        os.mkdir(os.path.join(d, 'tables'))
    os.chdir(a)
    full = dict(settings_base(), **table)
    full.update(search)
    full.update(more)
    full.update(hashtable_file_operation='generate', gen_hashtable_only='false')
    d, rows = step(ctx, full, search, [table], label)
    reproduce(ctx, b, d, rows, a, label)
    # generating and then using
    os.chdir(b)
    full.update(hashtable_file_operation='use', gen_hashtable_only='auto')
    d, again = step(ctx, full, search, [table], label + ['use'])
    ctx.check(again == rows, 'generating and using gives other results than both in one', first=rows[:4], second=again[:4], label=label)
    ctx.trace({'run': label, 'rows': len(rows)})
    os.chdir(root)
    shutil.rmtree(a)
    shutil.rmtree(b)


def existing(ctx):
    """Whatever an earlier (perhaps stopped) run or the user left in the results directory is kept."""
    stamp = time.strftime('%d%m%y_%H%M')
    parts = ['results.csv', 'results.tex', 'results.pdf', 'config.ini', 'notes.txt']
    lefts = [{}] + [{stamp: [p]} for p in parts] + [{stamp: parts[:n]} for n in (2, 3, 4)] + [{stamp: parts[:1], stamp + '_2': parts[1:2]}, {stamp + '_2': parts[:1]},
             {stamp: [], stamp + '_2': parts[2:4]}, {stamp + '_3': parts}, {stamp: parts, stamp + '_2': parts, stamp + '_3': parts[:1]},
             {stamp: parts, stamp + '_3': parts, stamp + '_10': parts[:2]}]
    table, search = T([[[1, 3]]], [[[1, 2]]], [0]), S('phi', 'ulcd', [1, 1, 1, 1])
    for left in lefts:
        for runs in (1, 3):
            root = ctx.fresh_dir()
            os.chdir(root)
            os.mkdir('tables')
            for d, files in left.items():
                os.makedirs(os.path.join('results', d))
                for f in files:
                    with open(os.path.join('results', d, f), 'w') as fh:
                        fh.write('kept %s %s' % (d, f))
            for n in range(runs):
                before = runner.snapshot('.')
                dirs = set(os.path.dirname(p) for p in before)
                full = dict(settings_base(), **table)
                full.update(search)
                full.update(hashtable_file_operation='generate' if n == 0 else 'use', gen_hashtable_only='false')
                runner.write_config('config.ini', **full)
                before['config.ini'] = open('config.ini', 'rb').read()
                runner.run_main('config.ini')
                after = runner.snapshot('.')
                info = dict(left=left, run=n)
                for p, data in before.items():
                    ctx.check(p in after, 'a run removed a file of an earlier run', file=p, **info)
                    ctx.check(after[p] == data, 'a run overwrote a file of an earlier run', file=p, **info)
                new = [p for p in after if p not in before and p.startswith('results')]
                where = set(os.path.dirname(p) for p in new)
                ctx.check(len(where) == 1 and sorted(os.path.basename(p) for p in new) == ['config.ini', 'results.csv', 'results.pdf', 'results.tex'],
                          'a run did not write one complete results directory', new=sorted(new), **info)
                ctx.check(not where & dirs, 'the results are mixed with those of an earlier run', directory=sorted(where), **info)
                ctx.step()
                ctx.state((str(left), runs, n))
            ctx.trace({'left by earlier runs': {d: list(f) for d, f in left.items()}, 'runs': runs})
            os.chdir(ctx.scratch)
            shutil.rmtree(root)


def low_expand(ctx, n, accs):
    """A table of few digits is built, expanded and searched."""
    const, i, lk = [('pi', 0, 'ulcd'), ('e', 0, 'rationalfunc'), ('zeta', 3, 'rationalfunc'), ('phi', 0, 'ulcd')][n]
    search = S(const, lk, [2, 2, 1, 3] if lk == 'ulcd' else [[[-1, 2], [1, 3]], [[1, 3], [0, 2]], False], i, tuple(accs))
    first, second = T([[[1, 3]]], [[[1, 4]]], [0, 2]), T([[[3, 5]]], [[[1, 3]]], [0, 1, 5])
    root = ctx.fresh_dir()
    os.chdir(root)
    os.mkdir('tables')
    full = dict(settings_base(), **first)
    full.update(search)
    step(ctx, full, None, [first], ['lowexpand', n, 'generate'])
    full.update(second)
    full.update(hashtable_file_operation='expand', gen_hashtable_only='false')
    d, rows = step(ctx, full, search, [first, second], ['lowexpand', n, 'expand'])
    full.update(hashtable_file_operation='use')
    d, again = step(ctx, full, search, [first, second], ['lowexpand', n, 'use'])
    ctx.check(rows == again, 'using the expanded table gives other results than expanding and searching', expand=rows[:4], use=again[:4])
    ctx.trace({'expanded': n, 'rows': len(rows)})
    os.chdir(ctx.scratch)
    shutil.rmtree(root)


def slow(ctx, accs, iters):
    """Slowly converging fractions, whose digits are confirmed step by step with more and more iterations: (a + k sqrt(5))/2 = k*phi + integer."""
    table = T([[[1, 4]]], [[[1, 70]]], [0])
    search = S('phi', 'rationalfunc', [[[0, 1], [1, 9]], [[1, 2]], False], 0, tuple(accs))
    root = ctx.fresh_dir()
    os.chdir(root)
    os.mkdir('tables')
    full = dict(settings_base(), **table)
    full.update(search)
    full.update(hashtable_file_operation='generate', gen_hashtable_only='false', hashtable_num_of_iterations=iters[0], first_filtering_num_of_iterations=iters[1],
                second_filtering_max_num_of_iterations=iters[2], third_filtering_max_num_of_iterations=iters[3])
    runner.write_config('config.ini', **full)
    runner.run_main('config.ini')
    rows = runner.read_rows(runner.results_dirs()[0])[2:]
    got = {}
    for row in rows:
        (a,), (b,) = ast.literal_eval(row[0])[0], ast.literal_eval(row[1])[0]
        num, den = pool.lhs_fraction('rationalfunc', ast.literal_eval(row[4]))
        got[a, b] = (num, den)
        k2, rest = divmod(a * a + 4 * b, 5)
        ctx.check(rest == 0 and int(k2**0.5 + 0.5)**2 == k2, 'a false identity is reported', row=row, accuracies=accs, iterations=iters)
        k = int(k2**0.5 + 0.5)
        ctx.check(pool.up_to_sign_and_integer((num, den), pool.lhs_fraction('rationalfunc', ([0, k], [1], 0))), 'a false identity is reported', row=row, accuracies=accs, iterations=iters)
    with mpmath.workdps(60):
        for a, b in itertools.product(range(1, 4), range(1, 70)):
            k = mpmath.sqrt(mpmath.mpf(a * a + 4 * b) / 5)
            if abs(k - mpmath.nint(k)) > mpmath.mpf(10)**-20 or not 1 <= k <= 8:
                continue
            k = int(mpmath.nint(k))
            rho = (k * mpmath.sqrt(5) - a) / (k * mpmath.sqrt(5) + a)
            scale = mpmath.log10(k * mpmath.sqrt(5) / (1 - rho)) + 1
            error = lambda n: -n * mpmath.log10(1 / rho) + scale
            # every stage has the iterations that its accuracy takes, with a margin, and no digits are at a boundary
            if not all(error(n) < -acc - 2 for n, acc in zip(iters, accs)):
                ctx.outcome('too slow')
                continue
            x = k * mpmath.phi
            frac = o.mpf_fr(x - mpmath.floor(x))
            if any(o.frac_digits(frac, acc, o.Fr(1, 10**(acc + 2))) is None for acc in accs):
                ctx.outcome('at a boundary')
                continue
            ctx.check((a, b) in got, 'a true identity of a slowly converging fraction is not reported', a=a, b=b, lhs='%d*phi' % k, accuracies=accs, iterations=iters, reported=sorted(got))
            ctx.outcome('needs all the iterations' if error(120) > -max(accs) else 'fast')
            ctx.state((a, b, str(accs), str(iters)))
            ctx.step()
    ctx.trace({'accuracies': accs, 'iterations': iters, 'rows': len(rows)})
    os.chdir(ctx.scratch)
    shutil.rmtree(root)


def shallow(ctx, depth, k):
    """The table that is saved has the candidates under the digits that they have after the configured number of iterations."""
    def settings(step, acc):
        kind, special, ra, rb, funcs = c11.STEPS[step]
        return dict(settings_base(), **dict(T(ra, rb, funcs, kind, special), hashtable_precision=acc, hashtable_num_of_iterations=depth, gen_hashtable_only='true'))
    for acc in (4, 12):
        for later in ((k + 1) % len(c11.STEPS), (k + 3) % len(c11.STEPS)):
            for acc2 in (acc, 7):
                root = ctx.fresh_dir()
                os.chdir(root)
                os.mkdir('tables')
                want = {}
                for version, (step, a, op) in enumerate(((k, acc, 'generate'), (later, acc2, 'expand')), 1):
                    runner.write_config('c.ini', **dict(settings(step, a), hashtable_file_operation=op))
                    runner.run_main('c.ini')
                    kind, special, ra, rb, funcs = c11.STEPS[step]
                    want.update(c11.expected(kind, special, ra, rb, funcs, depth))
                    info = dict(iterations=depth, accuracies=(acc, acc2)[:version], builds=(k, later)[:version])
                    ctx.check(sorted(os.listdir('tables')) == ['t_v%d.pkl' % v for v in range(1, version + 1)], 'wrong table files', files=os.listdir('tables'), **info)
                    m = runner.load_table('tables/t_v%d.pkl' % version)
                    m.accs = [acc, acc2][:version]
                    c11.compare(ctx, m, want, **info)
                    ctx.state(('shallow', depth, k, later, acc, acc2, version))
                ctx.trace(info)
                os.chdir(ctx.scratch)
                shutil.rmtree(root)


def run(unit, ctx):
    runner.prepare(ctx.scratch)
    fixed_clock()
    kind = unit[0]
    # the result does not depend on the precision that was in use before
    runner.START_DPS = (150, 15, 150, 400)[zlib.crc32(str(unit).encode()) % 4]
    try:
        if kind == 'existing':
            existing(ctx)
        elif kind == 'lowexpand':
            low_expand(ctx, unit[1], unit[2])
        elif kind == 'shallow':
            shallow(ctx, unit[1], unit[2])
        elif kind == 'slow':
            slow(ctx, unit[1], unit[2])
        elif kind == 'history':
            histories(ctx, unit[1], unit[2], unit[3])
        elif kind == 'crowd':
            table, search = CROWD[unit[1]]
            single(ctx, table, search, {}, list(unit))
        elif kind in ('low', 'super'):
            _, name, i, lk, accs = unit
            params = [2, 2, 1, 3] if lk == 'ulcd' else [[[-1, 2], [1, 3]], [[1, 3], [0, 2]], False]
            single(ctx, LOW if kind == 'low' else SUPER, S(name, lk, params, i, tuple(accs)), {}, list(unit))
        else:
            table, search, more = SINGLE[unit[1]]
            accs = unit[2]
            search = dict(search, hashtable_precision=accs[0], first_filtering_precision=accs[1], second_filtering_precision=accs[2], third_filtering_precision=accs[3])
            single(ctx, table, search, more, list(unit))
    finally:
        os.chdir(ctx.scratch)
        mpmath.mp.dps = 50
        runner.START_DPS = 150
