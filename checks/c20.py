"""C20: exported equations are read back by an independent LaTeX reader and evaluated; CSV rows are read back and compared."""
import ast
import csv
import itertools
import os
import mpmath
from mc import oracle as o
from mc import pool
from mc import runner
from mc import latexread
import latex
import postprocfuncs

PROPERTY = 'C20'
UNIT_TIMEOUT = 800
ASSUMPTIONS = ['the LaTeX reader follows the usual reading (braces, fractions, implicit products, sign before product)']
SPACE = {
    'quick': 'equations: every ULCD left side with u,c -2..2, l,d in +-{1,2,3}, every rational one with numerator degree <= 3 / denominator degree <= 2 over the alphabet and added '
             'integers -2..2; 24 functions x 16 continued fractions x depths 1..8 and 30; 11 constant names; CSV: every function, left side, convergence information and list length 0..4, '
             'left sides and fractions with coefficients up to 10^25 and degrees up to 13, terminating fractions among the results, '
             'with repeated exports, and the generated tex document',
    'thorough': 'larger coefficient alphabets and all functions for all left sides'}
CFS = [((1,),), ((1,),)], [((3,),), ((-1,),)], [((1, 2),), ((0, 0, 1),)], [((2, 5),), ((1, 0, -4),)], [((0, 1),), ((2,),)], [((1,), (2,)), ((1,), (3,))], \
      [((-3, -1),), ((2, 1),)], [((5, 0, 1), (-2,)), ((7,),)], [((4,),), ((0, 2, 1), (3,))], [((11, 10),), ((-9, 1, 13),)], [((-2,),), ((1,),)], \
      [((1,), (0,), (2,)), ((5,), (1,))], [((10, 3, 1),), ((0, 0, 0, 1),)], [((1, -1, 1),), ((1, 1),)], [((100,),), ((-12, -3),)], [((2,), (7,)), ((3,), (1,))]
NAMES = ['pi', 'phi', 'e', 'zeta', 'euler_masch', 'apery', 'feig, 2', 'percolation, 0', 'x', 'feig, 0', 'percolation, 1']
MEMO = {}
G = {'id': lambda x: x, 'inv': lambda x: 1 / x}
for _k in (2, 3, 4, 5):
    G['pow%d' % _k] = lambda x, k=_k: x**k
    G['root%d' % _k] = lambda x, k=_k: mpmath.root(abs(x), k) * (1 if x > 0 else -1)
    G['invpow%d' % _k] = lambda x, k=_k: x**-k
    G['invroot%d' % _k] = lambda x, k=_k: 1 / mpmath.root(x, k)
G.update({'exp': mpmath.exp, 'ln': mpmath.ln, 'invexp': lambda x: mpmath.exp(-x), 'invln': lambda x: 1 / mpmath.ln(x), 'lninv': lambda x: -mpmath.ln(x), 'expinv': lambda x: mpmath.exp(1 / x)})


def units(tier):
    deep = tier == 'thorough'
    out = []
    for u in range(-2, 3):
        for l in (1, -1, 2, -2, 3, -3):
            out.append(['ulcd', u, l, deep])
    for p in range(len(NUMS)):
        out.append(['rational', p, deep])
    for f in range(24):
        out.append(['function', f])
    out.append(['names'])
    for f in range(0, 24, 3):
        out.append(['csv', f])
    out += [['lists'], ['document'], ['big'], ['zero']]
    return out


NUMS = [[1], [0, 1], [2, 0, 3], [-1, 1], [0, -1, 1], [3, -2], [0, 0, -1], [1, 1, 1, 1], [-4, 0, 0, 2], [0, 12], [5, -1, 0, -1], [-7], [6, 4], [1, 2, 1], [0, 0, 1], [-1, 0, 1],
        [0, 0, 0, -3], [2, 2]]
DENS = [[1], [2], [-1], [0, 1], [1, 1], [-3], [2, -1], [0, 0, 1], [1, 0, 1], [-1, 0, 2], [1, -1, -1], [0, 4], [7, 0, -10], [2, 4], [0, -1]]


def tails(ab, n=0, extra=260):
    """The infinite continued fraction from index n on, to about 80 digits, as mpf (a_n + b_(n+1)/(...)). """
    key = (ab[0], ab[1], n)
    if key not in MEMO:
        with mpmath.workdps(110):
            t = mpmath.mpf(o.term(ab[0], n + extra) or 1)
            for i in range(n + extra - 1, n - 1, -1):
                t = o.term(ab[0], i) + mpmath.mpf(o.term(ab[1], i + 1)) / t
            MEMO[key] = t
    return MEMO[key]


def near(x, y, digits=38):
    if isinstance(x, mpmath.mpc) or isinstance(y, mpmath.mpc):
        x, y = mpmath.mpc(x), mpmath.mpc(y)
    if mpmath.isnan(x) or mpmath.isnan(y):
        return False
    return abs(x - y) <= mpmath.mpf(10)**-digits * (abs(x) + abs(y) + mpmath.mpf(10)**-30)


X = o.Fr(273, 100)


def verify_equation(ctx, text, name, kind, params, ab, f, depth, **info):
    """text states lhs(params) = function f of the continued fraction."""
    with mpmath.workdps(90):
        x = o.fr_mpf(X)
        exact, _ = pool.lhs_value(kind, params, X)
        cf = tails(ab)
        value = pool.func_ref(f, cf)
        if value is None or abs(cf) < mpmath.mpf(10)**-20:
            ctx.skip('function undefined at the value')
            return
        token = {'pi': '\\pi', 'phi': '\\varphi'}
        names = {name: x, token.get(name, name): x, '\\phi': x, '\\mathrm{e}': x}
        dots = mpmath.mpf(o.term(ab[1], depth)) / tails(ab, depth)
        try:
            left, right, n_dots = latexread.read_equation(text, names, dots)
        except latexread.LatexError as e:
            ctx.fail('an exported equation is no well-formed formula: %s' % e, equation=text, lhs=params, ab=ab, function=f)
        except ZeroDivisionError:
            ctx.fail('an exported equation divides by zero', equation=text, lhs=params, ab=ab, function=f)
        lhs = o.fr_mpf(exact)
        ctx.step()
        ctx.check(n_dots == 1, 'the continuation is not shown once', equation=text)
        if near(left, lhs) and near(right, value):
            ctx.trace({'equation': text})
            return
        # the function may be moved to the other side
        for g in G.values():
            try:
                if near(left, g(lhs)) and near(right, g(value)):
                    ctx.trace()
                    ctx.outcome('function moved')
                    return
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                pass
        ctx.fail('an exported equation does not state the identity that was found', equation=text, lhs_kind=kind, lhs_params=params, ab=ab, function=f, depth=depth,
                 left=str(left), left_expected=str(lhs), right=str(right), right_expected=str(value), **info)


def export_eqns(ctx, cases, name, depth=5):
    """cases: [(kind, params, ab, f)]. One export of all of them."""
    m = pool.mitm(X)
    m.target_name = name
    x = o.fr_mpf(X)
    given = [(ab, pool.make_lhs(kind, params, x), f, ('exp', (mpmath.mpf(3), mpmath.mpf(1)))) for kind, params, ab, f in cases]
    m.filtered_params = list(given)
    eqns = m.get_results_as_eqns(list(postprocfuncs.POSTPROC_FUNCS), depth=depth) if depth != 5 else m.get_results_as_eqns(list(postprocfuncs.POSTPROC_FUNCS))
    ctx.check(len(eqns) == len(cases), 'the number of exported equations is not the number of results', eqns=len(eqns), results=len(cases))
    for text, (kind, params, ab, f) in zip(eqns, cases):
        verify_equation(ctx, text, name, kind, params, ab, f, depth)
        ctx.state((kind, str(params), str(ab), f, depth, name))
    for g, r in zip(given, m.get_filtered_params()):
        ctx.check(r is g or r == g and r[1] is g[1], 'exporting equations changes the results')
    for (kind, params, ab, f), r in zip(cases, m.get_filtered_params()):
        exact, cond = pool.lhs_value(kind, params, X)
        ctx.check(o.close(r[1].get_val(), exact, o.Fr(1, 10**45), cond * o.Fr(1, 10**45)), 'exporting equations changes the value of a left-hand side', params=params)
    return eqns


def legal(kind, params):
    v, _ = pool.lhs_value(kind, params, X)
    return v is not None


def run_csv(ctx, cases, name, infos):
    m = pool.mitm(X)
    m.target_name = name
    x = o.fr_mpf(X)
    given = [(ab, pool.make_lhs(kind, params, x), f, info) for (kind, params, ab, f), info in zip(cases, infos)]
    m.filtered_params = list(given)
    m.export_to_csv('r.csv')
    with open('r.csv', newline='') as fh:
        rows = list(csv.reader(fh))
    ctx.check(len(rows) == 2 + len(cases), 'the number of rows is not the number of results', rows=len(rows), results=len(cases))
    ctx.check(rows[0][:2] == ['target_name', name], 'the constant is not named', row=rows[0])
    for row, (kind, params, ab, f), info in zip(rows[2:], cases, infos):
        tag = dict(row=row, kind=kind, lhs_params=params, ab=ab, f=f)
        ctx.check(len(row) == 9, 'wrong number of columns', **tag)
        ctx.check(ast.literal_eval(row[0]) == ab[0] and ast.literal_eval(row[1]) == ab[1], 'wrong polynomials in a row', **tag)
        ctx.check(row[2] == postprocfuncs.POSTPROC_FUNCS[f], 'wrong function in a row', **tag)
        ctx.check(row[3] == kind, 'wrong type of the left-hand side in a row', **tag)
        shown = ast.literal_eval(row[4])
        ctx.check(pool.lhs_fraction(kind, shown) == pool.lhs_fraction(kind, params), 'wrong parameters of the left-hand side in a row', **tag)
        ctx.check(row[5] == ('' if info is None else info[0]), 'wrong convergence type in a row', **tag)
        ctx.check(row[6] == ('' if info is None else str(info[1])), 'wrong convergence rate in a row', **tag)
        with mpmath.workdps(90):
            value = pool.func_ref(f, tails(ab))
            if value is None:
                ctx.skip('function undefined at the value')
            else:
                ctx.check(near(mpmath.mpf(row[7]), value, 40), 'wrong right-hand value in a row', expected=str(value), **tag)
            exact, _ = pool.lhs_value(kind, params, X)
            ctx.check(near(mpmath.mpf(row[8]), o.fr_mpf(exact), 40), 'wrong left-hand value in a row', expected=str(exact), **tag)
        ctx.step()
        ctx.trace({'row': row})
        ctx.state((kind, str(params), str(ab), f, str(info)))
    for g, r in zip(given, m.get_filtered_params()):
        ctx.check(r is g or r == g, 'exporting rows changes the results')


def run(unit, ctx):
    mpmath.mp.dps = 50
    os.chdir(ctx.fresh_dir())
    kind = unit[0]
    n = 0
    if kind == 'ulcd':
        _, u, l, deep = unit
        cases = []
        for c, d in itertools.product(range(-3, 4) if deep else range(-2, 3), (1, -1, 2, -2, 3, -3, 10)):
            for f in range(24) if deep else ((c + d) % 24, (u * 7 + c + d + 5) % 24):
                cases.append(('ulcd', (u, l, c, d), tuple(CFS[(c + d + u + f) % len(CFS)]), f))
        export_eqns(ctx, cases, 'x' if u else 'pi')
        export_eqns(ctx, cases, 'phi', 3)
    elif kind == 'rational':
        _, i, deep = unit
        cases = []
        for q, added in itertools.product(DENS, (-2, -1, 0, 1, 2)):
            params = (list(NUMS[i]), list(q), added)
            if legal('rationalfunc', params):
                for f in range(24) if deep else ((len(cases) * 5) % 24,):
                    cases.append(('rationalfunc', params, tuple(CFS[len(cases) % len(CFS)]), f))
        export_eqns(ctx, cases, 'x' if i % 2 else 'phi')
    elif kind == 'function':
        cases = [(k, p, tuple(ab), unit[1]) for ab in CFS for k, p in (('ulcd', (1, 2, -1, 3)), ('rationalfunc', ([2, 1], [1, 0, 1], 1)))]
        for depth in (5, 1, 2, 3, 4, 6, 7, 8, 30):
            export_eqns(ctx, cases, 'e', depth)
    elif kind == 'names':
        cases = [(k, p, tuple(CFS[j % len(CFS)]), f) for j, f in enumerate(range(24)) for k, p in (('ulcd', (2, -3, 1, -2)), ('rationalfunc', ([0, 3, -1], [1, -2], -1)))]
        for name in NAMES:
            export_eqns(ctx, cases, name)
    elif kind == 'csv':
        infos = [None, ('exp', (mpmath.mpf('2.5'), mpmath.mpf('0.125'))), ('super_exp', (mpmath.mpf(7), mpmath.mpf(2))), ('poly2sympoly', (1.5, 2.25, 0.99)), ('undefined', 0), ('fast', 0)]
        cases, inf = [], []
        for f in range(unit[1], unit[1] + 3):
            for j, ab in enumerate(CFS):
                for k, p in (('ulcd', (1, 2, -1, 3)), ('ulcd', (0, -1, 0, 1)), ('ulcd', (-2, 3, 2, -4)), ('rationalfunc', ([2, 1], [1, 0, 1], 1)), ('rationalfunc', ([0, 0, 4, 2], [2, -6], -3))):
                    cases.append((k, p, tuple(ab), f))
                    inf.append(infos[len(cases) % len(infos)])
        run_csv(ctx, cases, 'pi', inf)
    elif kind == 'lists':
        base = [(k, p, tuple(CFS[j * 2]), (j * 5) % 24) for j, (k, p) in enumerate((('ulcd', (1, 2, -1, 3)), ('rationalfunc', ([2, 1], [1, 0, 1], 1)), ('ulcd', (0, -1, 0, 1)),
                                                                                      ('ulcd', (1, 2, -1, 3))))]
        for r in range(5):
            for sel in itertools.product(range(4), repeat=r) if r < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 1, 1, 1)]:
                cases = [base[j] for j in sel]
                run_csv(ctx, cases, NAMES[r], [('exp', (mpmath.mpf(2 + j), mpmath.mpf(1))) for j in sel])
                export_eqns(ctx, cases, 'pi')
    elif kind == 'big':
        # big coefficients, high degrees, long lists of results
        cfs = [(((10**12, 7),), ((12345678901234567890, -1),)), (((1, 10**12),), ((10**20,),)), (((-3, 0, 0, 0, 2),), ((1, 0, 0, 10**7),)),
               (((5,), (10**15,), (-7, 2)), ((1,), (2,), (3, 1)))]
        big = [10**6, -10**6, 2 * 10**7, -3, 10**25, -10**15, 1234567]
        params = [('ulcd', (big[j], big[(j + k) % 7], big[(j * k) % 7] if j % 2 else 0, big[(j + 2 * k) % 7])) for j in range(7) for k in range(3)]
        params += [('rationalfunc', ([big[j], big[(j + k) % 7]], [big[(2 * j + k) % 7], 0, 3], big[k])) for j in range(7) for k in range(3)]
        params += [('rationalfunc', ([1] + [0] * j + [k], [k] + [0] * (12 - j) + [-1], j)) for j in range(12) for k in (1, -1, 5)]
        params += [('rationalfunc', ([k] * (j + 1), [1], 0)) for j in range(12) for k in (1, -1, 2)]
        cases = [(k, p, cfs[j % 4], (0, 1, 2, 10, 22, 3)[j % 6]) for j, (k, p) in enumerate(params) if legal(k, p)]
        export_eqns(ctx, cases, 'pi')
        export_eqns(ctx, cases, 'phi', 9)
        run_csv(ctx, cases, 'e', [None] * len(cases))
    elif kind == 'zero':
        # a terminating fraction among the results costs none of the other equations
        good = [(k, p, tuple(CFS[j]), (j * 5) % 24) for j, (k, p) in enumerate((('ulcd', (1, 2, -1, 3)), ('rationalfunc', ([2, 1], [1, 0, 1], 1)), ('ulcd', (0, -1, 0, 1))))]
        alone = [export_eqns(ctx, [c], 'pi')[0] for c in good]
        for zeros in ([0], [1], [3], [1, 2], [0, 0, 3]):
            m = pool.mitm(X)
            m.target_name = 'pi'
            x = o.fr_mpf(X)
            entries = [(ab, pool.make_lhs(k, p, x), f, ('exp', (mpmath.mpf(3), mpmath.mpf(1)))) for k, p, ab, f in good]
            for n, z in enumerate(zeros):
                entries.insert(z + n, ((((3, 1),), ((-9 - n, 1),)), pool.make_lhs('ulcd', (1, 2, -1, 3), x), 0, ('exp', (mpmath.mpf(3), mpmath.mpf(1)))))
            m.filtered_params = entries
            eqns = m.get_results_as_eqns(list(postprocfuncs.POSTPROC_FUNCS))
            ctx.check([e for e in eqns if e in alone] == alone, 'a terminating fraction costs other equations', zeros_at=zeros, eqns=eqns, expected=alone)
            ctx.step()
            ctx.state(('zero', tuple(zeros)))
            ctx.trace({'terminating results at': zeros})
    elif kind == 'document':
        runner.prepare(ctx.scratch)
        for count in (0, 1, 2, 9):
            cases = [('ulcd', (1, 2, -1, 2 + j), tuple(CFS[j]), j) for j in range(count)]
            eqns = export_eqns(ctx, cases, 'pi')
            latex.generate_latex('doc%d' % count, eqns)
            text = open('doc%d.tex' % count).read()
            pos = 0
            for e in eqns:
                ctx.check(e in text[pos:], 'an equation is missing in the document or out of order', equation=e, document=text)
                pos = text.index(e, pos) + len(e)
            ctx.check(os.path.exists('doc%d.pdf' % count), 'no pdf document')
            # the continued fraction alone
        for a in itertools.product((0, 1, -3, 12), repeat=3):
            for b in itertools.product((1, -2, 10), repeat=2):
                s = latex.latex_cont_frac(list(a), list(b))
                with mpmath.workdps(60):
                    dots = mpmath.mpf('0.321')
                    rd = latexread.Reader(latexread.tokenize(s), {}, dots)
                    v = rd.expr()
                    t = a[2] + dots
                    w = a[0] + b[0] / (a[1] + b[1] / t)
                    ctx.check(rd.peek() is None and near(v, w), 'wrong continued fraction expression', a=a, b=b, latex=s)
                    ctx.step()
                    ctx.trace()
