"""C15: convergence analysis against closed-form rates over families of continued fractions, and the filters built on it."""
import copy
import itertools
import math
import mpmath
from mc import oracle as o
from mc import pool
import cont_fracs

PROPERTY = 'C15'
UNIT_TIMEOUT = 800
ASSUMPTIONS = ['the families (constant, period two, linear over quadratic, constant over n^2, decaying) represent the fractions a search meets',
               'rates in between (two-step ratio from 1 to 1.2) and marginal linear-over-quadratic families (double root) are left open']
SPACE = {
    'quick': 'constant a, b in -6..6 x -8..8; period-two constants 1..3 and signs; a = a1 n + a0 over b = b2 n^2 + b1 n + b0 in the box a1 -2..3, a0 -2..4, '
             'b2 -2..3, b1 -1..1, b0 -3..3; polynomial and super-exponential families; working precisions 15 and 50; '
             'iteration counts for every (base, coefficient, accuracy, allowance, type) of the grid; '
             'filters with every subset of the convergence types as whitelist and as blacklist over lists mixing all kinds, with fractions that terminate at 1..600; '
             'fractions that end at 1..12, 50, 199 and are evaluated on',
    'thorough': 'larger boxes and precision 120, lists in more orders'}
TYPES = ['exp', 'super_exp', 'fast', 'mixed', 'poly2sympoly', 'undefined']


def units(tier):
    deep = tier == 'thorough'
    out = []
    for a in range(-9 if deep else -6, 10 if deep else 7):
        out.append(['const', a, 15 if deep else 8])
    for x in itertools.product((1, 2, -1, 3) if deep else (1, 2, -1), repeat=2):
        out.append(['period', list(x), 4 if deep else 2])
    for a1 in range(-2, 5 if deep else 4):
        for b2 in range(-3 if deep else -2, 5 if deep else 4):
            if a1 and b2:
                for a0 in (range(-5, 6) if deep else range(-2, 5, 2)):
                    out.append(['linear', a1, b2, a0, [-2, -1, 0, 1, 2] if deep else [-1, 0, 1], list(range(-4, 5)) if deep else [-3, 0, 1, 3]])
    for k in (1, 2, 3):
        out.append(['poly', k])
    out.append(['superexp'])
    for t in TYPES + ['none', 'analysed']:
        out.append(['gen', t])
    for mask in range(2**len(TYPES)):
        if deep or mask % 3 == 0 or bin(mask).count('1') == 1:
            out.append(['filter', mask])
    out.append(['fast_filter'])
    out.append(['terminated'])
    return out


def terminates(b, upto=606):
    """Index of the first vanishing numerator that the analysis meets, or None."""
    for i in range(1, upto):
        if o.term(b, i) == 0:
            return i
    return None


def convergent(a, b, n):
    p, q = o.convergents(a, b, n)[-1]
    return None if q == 0 else o.Fr(p, q)


def unchanged(ctx, cf, a, b, a0, b0):
    """The fraction is still what it was."""
    ctx.check(a == a0 and b == b0, 'the analysis changed the polynomials it was given', a=a, b=b)
    # what the object reports is consistent: the convergent of the number of iterations it tells
    n = cf.get_num_of_executed_iters()
    p, q = o.convergents(a0, b0, n)[-1]
    rp, rq = cf.get_p_q()
    r = cf.get_result()
    ctx.check(rp * q == rq * p and (rq == 0) == (q == 0), 'get_p_q is not the convergent of the reported number of iterations after the analysis',
              a=a0, b=b0, n=n)
    if q:
        exact = mpmath.mpf(p) / q
        ctx.check(abs(r - exact) <= abs(exact) * mpmath.mpf(10)**(5 - mpmath.mp.dps),
                  'the result is not the convergent of the reported number of iterations after the analysis', a=a0, b=b0, n=n, got=str(r),
                  exact=mpmath.nstr(exact, 30))
    for n in (3, 0, 12):
        cf.gen_iterations(n)
        exact = convergent(a0, b0, n)
        r = cf.get_result()
        ctx.check(cf.get_num_of_executed_iters() == n, 'wrong number of iterations after the analysis', n=n)
        if exact is None:
            ctx.check(o.is_nan(r), 'a value for a zero denominator after the analysis', a=a0, b=b0, n=n, got=str(r))
        else:
            ctx.check(o.close(r, exact, o.ulp() * 100), 'the analysis changed the represented fraction', a=a0, b=b0, n=n, got=str(r), exact=str(exact))


def analyse(ctx, a, b, order=0):
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    cf = cont_fracs.ContFrac(a, b)
    if order == 0:
        fast = cf.is_convergence_fast()
        unchanged(ctx, cf, a, b, a0, b0)
        cf.estimate_approach_type_and_params()
        t, p = cf.get_approach_type_and_params()
    else:
        cf.estimate_approach_type_and_params()
        t, p = cf.get_approach_type_and_params()
        unchanged(ctx, cf, a, b, a0, b0)
        fast = cf.is_convergence_fast()
        ctx.check(tuple(cf.get_approach_type_and_params()) == (t, p), 'testing for fast convergence changed the estimate', a=a, b=b)
    unchanged(ctx, cf, a, b, a0, b0)
    ctx.step(2)
    ctx.state((str(a), str(b), mpmath.mp.dps))
    ctx.outcome('%s/%s' % ('fast' if fast else 'slow', t))
    return bool(fast), t, p


def geometric(ctx, a, b, rate, order=0, tol=0.05):
    fast, t, p = analyse(ctx, a, b, order)
    ctx.check(fast, 'a geometrically converging fraction is not reported as fast', a=a, b=b, rate=rate)
    ctx.check(t == 'exp', 'a geometrically converging fraction is not estimated as exponential', a=a, b=b, rate=rate, type=t)
    base, coeff = p
    ctx.check(abs(float(base) / rate - 1) < tol, 'wrong estimated rate of exponential convergence', a=a, b=b, rate=rate, got=str(base))
    ctx.check(coeff > 0, 'error coefficient is not positive', a=a, b=b, got=str(coeff))
    ctx.trace({'a': a, 'b': b, 'rate': rate})
    return p


def slow(ctx, a, b, kind=None, order=0, param=None):
    fast, t, p = analyse(ctx, a, b, order)
    ctx.check(not fast, 'a slowly or not converging fraction is reported as fast', a=a, b=b, type=t)
    if kind is not None:
        ctx.check(t == kind, 'wrong estimated type of convergence', a=a, b=b, type=t, expected=kind)
    if param is not None:
        ctx.check(abs(p[0] - param) < 0.1, 'wrong estimated power of polynomial convergence', a=a, b=b, got=str(p), expected=param)
    ctx.trace({'a': a, 'b': b, 'slow': True})


def run_terminated(ctx, deep):
    """Fractions that end in a vanishing numerator and are evaluated on: all later convergents are the same."""
    for k in list(range(1, 13)) + [50, 199] + ([100, 150, 198] if deep else []):
        for a in ([[1]], [[2, 1]], [[-3]], [[1], [4]], [[5, 0, 1]]):
            for b in ([[k, -1]], [[-2 * k, 2]], [[k * k, 0, -1]]):
                for order in ((k % 2,) if k > 8 else (0, 1)):
                    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
                    limit = convergent(a0, b0, 210)
                    if limit is None:
                        ctx.skip('zero denominator')
                        continue
                    cf = cont_fracs.ContFrac(a, b, avoid_zero_b=False)
                    if order:
                        cf.is_convergence_fast()
                        unchanged(ctx, cf, a, b, a0, b0)
                    cf.estimate_approach_type_and_params()
                    t, p = cf.get_approach_type_and_params()
                    # (the analysis may also look at the terms before the end; differences of undefined convergents tell nothing)
                    ctx.check(t == 'fast' or k > 8 or any(q == 0 for p, q in o.convergents(a0, b0, 610)), 'a fraction that has ended is not estimated as fast', a=a, b=b, type=t)
                    unchanged(ctx, cf, a, b, a0, b0)
                    cf.gen_iterations(210)
                    ctx.check(o.close(cf.get_result(), limit, o.ulp() * 1000), 'wrong value of a fraction that has ended', a=a, b=b, got=str(cf.get_result()), exact=str(limit))
                    ctx.step(2)
                    ctx.state(('terminated', str(a), str(b), order))
                    ctx.trace()


def by_discriminant(ctx, a, b, tr, det, power, order):
    """tr, det: trace and determinant of the matrix of one (power=1) or two (power=2) steps."""
    d = tr * tr - 4 * det
    if det == 0:
        return
    if d < 0 or tr == 0:
        slow(ctx, a, b, None, order)
    elif d == 0:
        # double root: the error decays like 1/n
        slow(ctx, a, b, 'poly2sympoly', order, 1)
    else:
        r = (abs(tr) + math.sqrt(d)) / abs(abs(tr) - math.sqrt(d))
        rate = r if power == 1 else math.sqrt(r)
        if rate * rate >= 1.2:
            geometric(ctx, a, b, rate, order, 0.02)
        elif rate * rate <= 1.05:
            slow(ctx, a, b, None, order)
        else:
            ctx.skip('intermediate rate')


def run_gen(ctx, kind):
    mpmath.mp.dps = 50
    a, b = [[1, 1]], [[2, 0, 1]]
    if kind == 'analysed':
        for a, b in (([[1]], [[1]]), ([[3]], [[-1]]), ([[1, 2]], [[0, 0, 1]]), ([[2, 5]], [[1, 0, -4]]), ([[0, 1]], [[2]])):
            cf = cont_fracs.ContFrac(a, b)
            cf.estimate_approach_type_and_params()
            t, p = cf.get_approach_type_and_params()
            limit = convergent(a, b, 300)
            for acc, num in itertools.product((1, 3, 10, 20, 30, 45), (0, 1, 5, 40, 200)):
                cf.gen_iterations(num, mpmath.mpf(10)**-acc)
                n = cf.get_num_of_executed_iters()
                need(ctx, t, p, acc, num, n)
                v = convergent(a, b, n)
                ctx.check(o.close(cf.get_result(), v, o.ulp() * 100), 'wrong value after generating with an accuracy', a=a, b=b, n=n)
                ctx.step()
                ctx.trace()
            # a re-initialised object has no estimate
            for given in (True, False):
                for kw in ({'a_coeffs': [[4]], 'b_coeffs': [[7]]}, {'a_coeffs': [[2, 3]]}, {'b_coeffs': [[5]]}, {'b_coeffs': [[3], [8]]}, {'a_coeffs': [[3], [1]]}):
                    cf = cont_fracs.ContFrac(a, b)
                    if given:
                        cf.set_approach_type_and_params((t, p))
                    else:
                        cf.estimate_approach_type_and_params()
                    cf.reinitialize(**kw)
                    cf.gen_iterations(40, mpmath.mpf('0.1'))
                    ctx.check(cf.get_num_of_executed_iters() == 40, 'a re-initialised fraction still uses the old estimate', a=a, b=b, new=kw)
                    v = convergent(kw.get('a_coeffs', a), kw.get('b_coeffs', b), 40)
                    ctx.check(o.close(cf.get_result(), v, o.ulp() * 100), 'wrong value after re-initialising', a=a, b=b, new=kw)
                    ctx.step()
        return
    cf = cont_fracs.ContFrac(a, b)
    for base, coeff in itertools.product(('1.0005', '1.05', '1.6', '2', '10', '33.5', '1e9'), ('1e-30', '0.01', '1', '7', '1e12')):
        p = (mpmath.mpf(base), mpmath.mpf(coeff))
        if kind != 'none':
            cf.set_approach_type_and_params((kind, p if kind in ('exp', 'super_exp') else (p[0], p[1], mpmath.mpf('0.9'))))
        for acc, num in itertools.product((1, 2, 5, 9, 20, 49), (0, 1, 2, 7, 60, 150)):
            cf.gen_iterations(num, mpmath.mpf(10)**-acc)
            n = cf.get_num_of_executed_iters()
            if kind in ('exp', 'super_exp'):
                need(ctx, kind, p, acc, num, n)
            else:
                ctx.check(n == num, 'an accuracy limits the iterations without an exponential estimate', type=kind, allowed=num, n=n)
            ctx.step()
            ctx.state((kind, base, coeff, acc, num))
            ctx.trace()
        cf.gen_iterations(30)
        ctx.check(cf.get_num_of_executed_iters() == 30, 'an estimate limits the iterations without a requested accuracy')
        cf.gen_iterations(30, 0)
        ctx.check(cf.get_num_of_executed_iters() == 30, 'an estimate limits the iterations without a requested accuracy')


def need(ctx, kind, p, acc, num, n):
    """n iterations are what the estimate asks for, within the allowance."""
    ctx.check(0 <= n <= num, 'more iterations than allowed', allowed=num, n=n)
    with mpmath.workdps(80):
        base, coeff = mpmath.mpf(p[0]), mpmath.mpf(p[1])
        x = mpmath.log(coeff * mpmath.mpf(10)**acc) / mpmath.log(base)
        lo = max(0, int(mpmath.ceil(x - mpmath.mpf('1e-6'))))
        hi = max(0, int(mpmath.floor(x + mpmath.mpf('1e-6')))) + 1
    ctx.check(min(num, lo) <= n, 'the requested accuracy is not reached although more iterations were allowed', type=kind, base=str(p[0]), coeff=str(p[1]),
              accuracy=acc, allowed=num, n=n, needed=lo)
    ctx.check(n <= min(num, hi), 'more iterations than the requested accuracy needs', type=kind, base=str(p[0]), coeff=str(p[1]), accuracy=acc, allowed=num, n=n,
              needed=lo)


# a list that mixes every kind, with fractions that terminate during the analysis
MIX = [([[1]], [[1]]), ([[1]], [[-2]]), ([[2, 1]], [[-3, 1]]), ([[1]], [[0, 0, 1]]), ([[0]], [[3]]), ([[3]], [[-1]]), ([[1, 0, 1]], [[1]]), ([[2]], [[-1]]),
       ([[1]], [[-599, 1]]), ([[5, 1]], [[2, 1]]), ([[1], [0]], [[3]]), ([[1], [2]], [[1], [3]]), ([[1, 2]], [[0, 0, 1]]), ([[1]], [[-1]]), ([[1]], [[-1, 1]]),
       ([[1], [-2]], [[3]]), ([[2, 5]], [[1, 0, -4]]), ([[3, 1], [1]], [[1], [-200, 1]]), ([[0, 1]], [[1]]), ([[1, 1]], [[-450, 0, 3], [0, 1]]),
       ([[0, 1]], [[0, 0, -1]]), ([[0, 0, 0, 1]], [[2, 1]]), ([[1, 1]], [[-100, 2]])]


def results(ab_list):
    out = []
    for k, (a, b) in enumerate(ab_list):
        ab = (tuple(tuple(p) for p in a), tuple(tuple(p) for p in b))
        out.append((ab, pool.make_lhs('ulcd', (1, 2, 0, 1 + k), mpmath.mpf(3)), k % 24, ('tag', [k])))
    return out


def set_list(m, given):
    m.filtered_params = list(given)


def run_filters(ctx, mask):
    mpmath.mp.dps = 50
    chosen = [t for k, t in enumerate(TYPES) if mask >> k & 1]
    info = {}
    for k, (a, b) in enumerate(MIX):
        if terminates(b) is None:
            cf = cont_fracs.ContFrac(a, b)
            cf.estimate_approach_type_and_params()
            info[k] = cf.get_approach_type_and_params()
    m = pool.mitm(o.Fr(5, 3))
    lists = [list(range(len(MIX))), list(reversed(range(len(MIX)))), [2, 8], [0, 2, 0, 6, 19], []]
    for order in lists:
        for white in (True, False):
            base = results(MIX)
            given = [base[k] for k in order]
            set_list(m, given)
            if not chosen:
                continue
            kw = {'whitelist': chosen} if white else {'whitelist': None, 'blacklist': chosen}
            m.filter_clicks_by_approach_type(**kw)
            res = m.get_filtered_params()
            expected = [k for k in order if k in info and ((info[k][0] in chosen) == white)]
            ctx.step(len(order))
            got = [base_index(base, r) for r in res]
            ctx.check(got == expected, 'the filter by convergence type does not keep exactly the requested types, in order', chosen=chosen,
                      whitelist=white, order=order, got=got, expected=expected)
            for r, k in zip(res, got):
                ctx.check(tuple(r[3]) == tuple(info[k]), 'wrong convergence information is attached', index=k, got=str(r[3]), expected=str(info[k]))
            ctx.trace({'chosen': chosen, 'kept': got})
            ctx.outcome('kept %d' % len(got))
    if not chosen:
        set_list(m, results(MIX))
        for kw in ({'whitelist': None}, {'whitelist': ['exp'], 'blacklist': ['exp']}):
            try:
                m.filter_clicks_by_approach_type(**kw)
                ctx.fail('both or neither of the two lists are accepted', kw=kw)
            except ValueError:
                ctx.check(len(m.get_filtered_params()) == len(MIX), 'a rejected filter changed the results')
        # the default keeps fast ones
        m.filter_clicks_by_approach_type()
        got = [r[2] for r in m.get_filtered_params()]
        ctx.check(got == [k for k in range(len(MIX)) if k in info and info[k][0] in ('exp', 'super_exp', 'fast')], 'wrong default of the convergence filter', got=got)


def base_index(base, r):
    for k, g in enumerate(base):
        if r[1] is g[1] and r[0] == g[0] and r[2] == g[2]:
            return k
    return None


def run_fast_filter(ctx):
    mpmath.mp.dps = 50
    fast = {}
    for k, (a, b) in enumerate(MIX):
        if terminates(b) is None:
            fast[k] = cont_fracs.ContFrac(a, b).is_convergence_fast()
    # in closed form, where there is one
    for k, v in ((0, True), (1, False), (3, False), (4, False), (5, True), (6, True), (7, False), (9, True), (11, True), (12, True), (13, False), (18, True), (21, True)):
        ctx.check(bool(fast[k]) == v, 'wrong classification of a closed-form fraction', case=MIX[k])
    m = pool.mitm(o.Fr(5, 3))
    n = len(MIX)
    orders = [list(range(n)), list(reversed(range(n))), [], [2], [8, 2]] + [[i, j] for i in range(n) for j in range(n)]
    for order in orders:
        for flag in ((False, True) if len(order) > 2 else (False,)):
            base = results(MIX)
            set_list(m, [base[k] for k in order])
            m.filter_only_exp_convergence(flag)
            res = m.get_filtered_params()
            got = [base_index(base, r) for r in res]
            ctx.check(got == [k for k in order if fast.get(k)], 'the filter of exponential convergence does not keep exactly the fast ones, in order', order=order, got=got)
            for r, k in zip(res, got):
                ctx.check(r[3] == base[k][3], 'the filter of exponential convergence changed a result', index=k)
            ctx.step(len(order))
            ctx.trace({'kept': got})
            ctx.state(tuple(order))


def run(unit, ctx):
    kind = unit[0]
    for dps in ((15, 50) if kind in ('const', 'linear', 'poly') else (50,)):
        mpmath.mp.dps = dps
        if kind == 'const':
            a = unit[1]
            for b in range(-unit[2], unit[2] + 1):
                if b:
                    by_discriminant(ctx, [[a]], [[b]], a, -b, 1, b % 2)
        elif kind == 'period':
            a = unit[1]
            n = unit[2]
            for b0, b1 in itertools.product(range(-n, n + 1), repeat=2):
                if b0 and b1:
                    by_discriminant(ctx, [[a[0]], [a[1]]], [[b0], [b1]], a[0] * a[1] + b0 + b1, b0 * b1, 2, b0 % 2)
        elif kind == 'linear':
            _, a1, b2, a0, b1s, b0s = unit
            for b1, b0 in itertools.product(b1s, b0s):
                a, b = [[a0, a1]], [[b0, b1, b2]]
                if terminates(b) is not None:
                    ctx.skip('terminates')
                    continue
                if any(o.term(a, i) == 0 for i in range(150, 700)):
                    continue
                d = a1 * a1 + 4 * b2
                if d < 0:
                    slow(ctx, a, b, None, b0 % 2)
                elif d == 0:
                    ctx.skip('double root')
                else:
                    r = (abs(a1) + math.sqrt(d)) / abs(abs(a1) - math.sqrt(d))
                    if r * r >= 1.4:
                        geometric(ctx, a, b, r, b0 % 2, 0.06)
                    else:
                        ctx.skip('intermediate rate')
        elif kind == 'poly':
            k = unit[1]
            for c, s in itertools.product((1, 2), (1, -1)):
                # error of k over n^2 decays like n^-k; scaled by an equivalence transformation too
                slow(ctx, [[s * c * k]], [[0, 0, c * c]], 'poly2sympoly', 0, k)
        elif kind == 'superexp':
            for a, b in (([[0, 1]], [[1]]), ([[1, 2]], [[1]]), ([[1, 3]], [[2]]), ([[1, 0, 1]], [[1]]), ([[2, 1, 1]], [[1, 1]]), ([[0, 1]], [[1, 1]]), ([[0, 0, 0, 1]], [[2, 1]]),
                         ([[1, -1]], [[1]]), ([[3, 1]], [[-1]]), ([[3, 0, 2]], [[-2, -1]])):
                for order in (0, 1):
                    fast, t, p = analyse(ctx, a, b, order)
                    ctx.check(fast, 'a super-exponentially converging fraction is not reported as fast', a=a, b=b)
                    ctx.check(t in ('exp', 'super_exp', 'fast'), 'wrong estimated type of super-exponential convergence', a=a, b=b, type=t)
                    ctx.trace({'a': a, 'b': b})
    if kind == 'gen':
        run_gen(ctx, unit[1])
    elif kind == 'filter':
        run_filters(ctx, unit[1])
    elif kind == 'terminated':
        run_terminated(ctx, False)
    elif kind == 'fast_filter':
        run_fast_filter(ctx)
