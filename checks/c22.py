"""C22: every post-processing function on an exhaustive grid of arguments, precisions and precision histories."""
import itertools
import mpmath
from mpmath import mpf
import postprocfuncs as pp
from mc import oracle as o

PROPERTY = 'C22'
ASSUMPTIONS = ['arguments are working-precision numbers, as produced by the evaluation of continued fractions']
SPACE = {
    'quick': '24 functions x arguments (both signs of m*10^e with 19 mantissas and e from -40 to 40, neighbourhoods k*pi/2 +- 10^-j and 1 +- 10^-j, squares/cubes, zero, NaN, both infinities) x precisions '
             '15, 50, 100, each evaluated under precision histories of length 2; the reciprocal pairs and positions',
    'thorough': 'a denser grid: 60 mantissas, e from -300 to 300, k up to 60, precisions 5..300'}
NAMES = ['lambda x: x', 'safe_inverse', 'lambda x: x**2', 'lambda x: safe_inverse(x**2)', 'lambda x: x**3', 'lambda x: safe_inverse(x**3)', 'lambda x: x**4',
         'lambda x: safe_inverse(x**4)', 'lambda x: x**5', 'lambda x: safe_inverse(x**5)', 'safe_sqrt', 'lambda x: safe_inverse(safe_sqrt(x))', 'lambda x: dec_sin(x)',
         'lambda x: safe_inverse(dec_sin(x))', 'lambda x: dec_cos(x)', 'lambda x: safe_inverse(dec_cos(x))', 'lambda x: dec_tan(x)', 'lambda x: safe_inverse(dec_tan(x))',
         'lambda x: dec_cot(x)', 'lambda x: safe_inverse(dec_cot(x))', 'lambda x: dec_exp(x)', 'lambda x: safe_inverse(dec_exp(x))', 'lambda x: dec_ln(x)',
         'lambda x: safe_inverse(dec_ln(x))']


def units(tier):
    deep = tier == 'thorough'
    out = [['grid', f, e, deep] for f in range(0, 24, 2) for e in ((5, 15, 30, 50, 100, 200, 300) if deep else (15, 50, 100))]
    out += [['pairs'], ['special']]
    return out


def arguments(deep, dps):
    ms = ['1', '1.5', '2', '2.5', '3', '4', '5', '6.25', '7', '8', '9.9', '1.1', '1.0001', '1.234567890123456789', '2.71828', '3.14159265', '6.6666666666666666667', '9', '4.5']
    if deep:
        ms += ['%d.%d' % (k // 10, k % 10) for k in range(10, 100, 3)] + ['1.%05d' % k for k in range(0, 99999, 9091)]
    es = [-300, -100, -60, -40, -20, -12, -8, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 9, 15, 25, 40, 100, 300] if deep else [-40, -12, -5, -3, -2, -1, 0, 1, 2, 3, 6, 15, 40]
    with mpmath.workdps(dps):
        xs = [mpf('%se%d' % (m, e)) for m in ms for e in es]
        for k in range(1, 60 if deep else 14):
            for j in (1, 3, 8, dps // 2, dps - 3, dps + 5):
                xs += [mpmath.pi * k / 2 + s * mpf(10)**-j for s in (1, -1)]
        for j in (1, 2, 5, 10, dps // 2, dps - 2):
            xs += [1 + s * mpf(10)**-j for s in (1, -1)]
        xs += [mpf(k) for k in range(1, 40)] + [mpf(1) / k for k in range(2, 40)]
        xs += [-x for x in xs]
    return [x for x in xs if x != 0]


def reference(f, x):
    """Value of base function f (even index) at x and True, or (None, False) outside its domain. At a high precision."""
    k = f // 2
    if k <= 4:
        return x**(k + 1), True
    if k == 5:
        return (mpmath.sqrt(x), True) if x >= 0 else (None, False)
    s, c = None, None
    if 6 <= k <= 9:
        s, c = mpmath.cos_sin(x)[::-1]
        return {6: s, 7: c, 8: s / c if c else None, 9: c / s if s else None}[k], True
    if k == 10:
        return mpmath.e**x, True
    return (mpmath.log(x), True) if x > 0 else (None, False)


def agree(y, ref, dps):
    return isinstance(y, mpf) and mpmath.isfinite(y) and abs(y - ref) <= abs(ref) * mpf(10)**(1 - dps)


def apply(ctx, f, x, **info):
    try:
        return pp.EVALUATED_POSTPROC_FUNCS[f](x)
    except Exception as e:
        ctx.fail('a post-processing function raises %s: %s' % (type(e).__name__, e), function=f, name=NAMES[f], x=mpmath.nstr(x, 60), **info)


def run(unit, ctx):
    kind = unit[0]
    if kind == 'pairs':
        n = len(pp.POSTPROC_FUNCS)
        ctx.check(list(pp.POSTPROC_FUNCS[:24]) == NAMES, 'the position or name of a post-processing function changed', names=list(pp.POSTPROC_FUNCS))
        ctx.check(n % 2 == 0 and len(pp.EVALUATED_POSTPROC_FUNCS) == n, 'the evaluated functions do not correspond to the list')
        pairs = [tuple(p) for p in pp.INVERSE_POSTPROC_PAIRS]
        want = {(i, i ^ 1) for i in range(n)}
        for i, j in itertools.product(range(n), repeat=2):
            ctx.check(((i, j) in pairs) == ((i, j) in want), 'the reciprocal pairs are wrong', pair=(i, j), listed=(i, j) in pairs)
            ctx.step()
            ctx.state(('pair', i, j))
        ctx.check(set(pairs) == want, 'the reciprocal pairs contain something else', pairs=pairs)
        # the names denote the evaluated functions
        for i in range(24):
            for s in ('0.7', '2.3', '1.9', '11', '0.01'):
                x = mpf(s)
                ctx.check(eval(pp.POSTPROC_FUNCS[i], vars(pp))(x) == pp.EVALUATED_POSTPROC_FUNCS[i](x), 'a function is not the one of its name', function=i, x=s)
                ctx.step()
        ctx.trace('pairs')
        return
    if kind == 'special':
        for dps in (15, 50, 150):
            mpmath.mp.dps = dps
            for x in (mpf(0), mpf('inf'), mpf('-inf'), mpf('nan')):
                base = None
                for f in range(24):
                    y = apply(ctx, f, x)
                    ctx.step()
                    ctx.state(('special', str(x), f, dps))
                    ctx.check(isinstance(y, mpf), 'a post-processing function returns no real number', function=f, x=str(x), y=repr(y))
                    tag = dict(function=f, name=NAMES[f], x=str(x), y=str(y))
                    if mpmath.isnan(x):
                        ctx.check(not mpmath.isfinite(y), 'a function of NaN is finite', **tag)
                    elif x == 0:
                        if f in (0, 2, 4, 6, 8, 10, 12, 16):
                            ctx.check(y == 0, 'wrong value at zero', **tag)
                        elif f in (14, 15, 20, 21):
                            ctx.check(y == 1, 'wrong value at zero', **tag)
                        elif f in (1, 3, 5, 7, 9, 11, 13, 17, 18, 22):
                            ctx.check(not mpmath.isfinite(y), 'a function is finite at its pole', **tag)
                        else:
                            ctx.skip('limit at a pole')
                    else:
                        if f in (12, 13, 14, 15, 16, 17, 18, 19):
                            ctx.check(not mpmath.isfinite(y), 'a periodic function of infinity is finite', **tag)
                        elif f % 2 == 0 and f != 20:
                            ctx.check(not mpmath.isfinite(y), 'an unbounded function of infinity is finite', **tag)
                        else:
                            ctx.skip('limit at infinity')
                    ctx.trace()
        mpmath.mp.dps = 50
        return
    _, f, dps, deep = unit
    for earlier in (dps, 7, 120):
        xs = arguments(deep, dps)
        if earlier != dps:
            xs = xs[::7]
        for x in xs:
            if earlier != dps:
                mpmath.mp.dps = earlier
                apply(ctx, f, x), apply(ctx, f + 1, x)
            mpmath.mp.dps = dps
            x = +x
            if x == 0:
                continue
            y, z = apply(ctx, f, x), apply(ctx, f + 1, x)
            ctx.step(2)
            with mpmath.workdps(2 * dps + 60 + (320 if abs(x) > 10**50 or abs(x) < mpf(10)**-50 else 60)):
                ref, domain = reference(f, x)
                tag = dict(name=NAMES[f], x=mpmath.nstr(x, 60), y=repr(y), reciprocal=repr(z), precision=dps, earlier_precision=earlier)
                if not domain:
                    ctx.check(isinstance(y, mpf) and not mpmath.isfinite(y), 'a function is finite or complex outside its domain', **tag)
                    ctx.check(isinstance(z, mpf) and not mpmath.isfinite(z), 'a reciprocal function is finite or complex outside its domain', **tag)
                    ctx.outcome('outside domain')
                elif ref == 0:
                    ctx.check(isinstance(y, mpf) and y == 0, 'wrong value of a function', expected='0', **tag)
                    ctx.check(isinstance(z, mpf) and not mpmath.isfinite(z), 'the reciprocal of zero is finite', **tag)
                    ctx.outcome('zero')
                elif ref is None:
                    ctx.skip('pole')
                else:
                    if not agree(y, ref, dps):
                        ctx.fail('wrong value of a function', expected=mpmath.nstr(ref, 60), **tag)
                    if not agree(z, 1 / ref, dps):
                        ctx.fail('an odd-numbered function is not the reciprocal of the one before', expected=mpmath.nstr(1 / ref, 60), **tag)
                    ctx.outcome('value')
            ctx.state((f, dps, earlier, str(x)))
            ctx.trace()
    mpmath.mp.dps = 50
