"""C13: refinement histories over all offsets, signs and integer parts, against exact values."""
import itertools
import mpmath
from mc import oracle as o
from mc import pool

PROPERTY = 'C13'
ASSUMPTIONS = ['digits within the rounding error of a digit boundary are not compared']
SPACE = {
    'quick': '13 fractions (incl. negative, huge, undefined, terminating) x functions x both kinds of left-hand side x 4 combinations of sign '
             'and integer part x 17 offsets around the compared digit, in one list of results together with foreign ones; every refinement sequence of length <= 2 '
             'over 6 refinements (both methods, accuracies 3..30, depths 60 and 200, with and without convergence information); half-integer values; '
             'the same offsets and five integer shifts where integer differences are not ignored',
    'thorough': 'sequences of length <= 3, more fractions'}
# (a, b, functions)
CFS = [((((1,),), ((1,),)), (0, 1, 2)), ((((3, 2),), ((0, 0, 1),)), (0, 5, 12)), ((((-2, -1),), ((3,),)), (0, 3, 4)),
       ((((1,), (2,)), ((1, 1),)), (0, 20)), ((((1000003,),), ((7, 1),)), (0, 1, 8)), ((((5,),), ((-3, 0, 1),)), (0, 22)),
       ((((-7,),), ((2,),)), (0, 10, 20, 16))]
MORE = [((((0, 0, 1),), ((-2, 1), (5,))), (0, 14)), ((((4, 3),), ((1, 2, 3),)), (0, 9, 18))]
# evaluation divides by zero, or terminates
BROKEN = [(((1,),), ((-1,),)), (((0,),), ((1,),)), (((2, 1),), ((-3, 1),)), (((2,), (1,)), ((5, -1),))]
OFFSETS = [0, 1, -1, 4, -4, 49, -51, 499, -501, 999, -999, 1000, -1000, 1001, 5000, -5000, 123456789]
SHIFTS = [(1, 0), (-1, 0), (1, -98765432109876543), (-1, 1)]
# (method, accuracy, iterations)
REFINE = [('const', 3, 200), ('const', 10, 60), ('const', 30, 200), ('info', 10, 200), ('info', 25, 60), ('const', 7, 61)]


def units(tier):
    deep = tier == 'thorough'
    out = []
    for i, (ab, funcs) in enumerate(CFS + (MORE if deep else [])):
        for f in funcs:
            for kind in ('rationalfunc', 'ulcd'):
                for first in range(len(REFINE)):
                    out.append([i, f, kind, first, 3 if deep else 2])
    out.append(['broken'])
    out.append(['integers'])
    for i in range(len(CFS + MORE)):
        out.append(['full', i])
    return out


def limit_rate(pa, pb):
    c = o.convergents(pa, pb, 204)
    d1 = abs(o.Fr(*c[102]) - o.Fr(*c[100]))
    d2 = abs(o.Fr(*c[202]) - o.Fr(*c[200]))
    if d1 == 0 or d2 == 0:
        return None
    return mpmath.mpf(d1.numerator) / d1.denominator, float(mpmath.nthroot(mpmath.mpf((d1 / d2).numerator) / (d1 / d2).denominator, 100))


def value(pa, pb, f, method, n, dps):
    """(exact value, error) of function(continued fraction), None, or 'open'."""
    if method == 'const':
        return pool.candidate_value(pa, pb, n, f, dps)
    if any(o.term(pb, i) == 0 for i in range(1, n + 1)):
        return None
    p, q = o.convergents(pa, pb, n)[-1]
    if q == 0 or p == 0:
        return None if q == 0 else 'open'
    v = o.Fr(p, q)
    y = pool.func_of(f, v, abs(v) * o.Fr(1, 10**(dps - 1)))
    if y is None or y == 'open':
        return y
    return y[0], y[1] + abs(y[0]) * o.Fr(1, 10**(dps - 2))


def digits(y, acc, err):
    s = 10**acc
    y = abs(y)
    lo, hi = (y - err) * s // 1, (y + err) * s // 1
    return int(lo % s) if lo == hi else None


def snap(r):
    kind = 'ulcd' if isinstance(r[1], pool.ULCD['eval']) else 'rationalfunc'
    return kind, r[1].get_params(), r[1].get_val()


def refine(ctx, m, op, specs, x, info, repeat=True):
    """Runs one refinement and compares it. specs: {tag: (pa, pb, f)}. Returns the kept tags."""
    method, acc, n = op
    given = list(m.get_filtered_params())
    tags = [m.tag_of[id(r[1])] for r in given]
    olds = [(pool.lhs_fraction(*snap(r)[:2]), pool.lhs_value(*snap(r)[:2], x)) for r in given]
    if method == 'const':
        m.refine_clicks_with_const_num_of_iters(accuracy=acc, num_of_iterations=n)
    else:
        m.refine_clicks_with_convergence_info(accuracy=acc, num_of_iterations=n)
    res = list(m.get_filtered_params())
    ctx.step(len(given) + 1)
    kept = [m.tag_of.get(id(r[1])) for r in res]
    ctx.check(None not in kept and kept == [t for t in tags if t in set(kept)] and len(set(kept)) == len(kept),
              'the order of the results changed, or results were invented', before=tags, after=kept, **info)
    pos = {t: r for t, r in zip(kept, res)}
    for t, old, r0 in zip(tags, olds, given):
        pa, pb, f = specs[t]
        (y0, (v, scale)) = old
        y = value(pa, pb, f, method, n, 50)
        r = pos.get(t)
        detail = dict(info, a=pa, b=pb, function=f, refinement=op, lhs=m.text_of[t])
        if y is None:
            ctx.check(r is None, 'a result that cannot be evaluated was kept', **detail)
            ctx.outcome('undefined')
            continue
        if y == 'open':
            ctx.skip('evaluation passes a zero tail')
            continue
        d1, d2 = digits(y[0], acc, y[1]), digits(v, acc, scale * o.Fr(1, 10**48))
        if d1 is None or d2 is None:
            ctx.skip('digits at the rounding boundary')
        elif d1 == d2:
            ctx.check(r is not None, 'a result that agrees was dropped', value=mpmath.nstr(o.fr_mpf(y[0]), 45),
                      lhs_value=mpmath.nstr(o.fr_mpf(v), 45), **detail)
            ctx.outcome('agrees')
        else:
            ctx.check(r is None, 'a result that does not agree was kept', value=mpmath.nstr(o.fr_mpf(y[0]), 45),
                      lhs_value=mpmath.nstr(o.fr_mpf(v), 45), **detail)
            ctx.outcome('differs')
        if r is None:
            continue
        ctx.check((r[0][0], r[0][1], r[2]) == (pa, pb, f) and r[3] == r0[3], 'a kept result was changed', **detail)
        kind, params, val = snap(r)
        new = pool.lhs_fraction(kind, params)
        ctx.check(pool.up_to_sign_and_integer(new, y0), 'the left-hand side was changed by more than sign and integer',
                  now=params, **detail)
        v2, scale2 = pool.lhs_value(kind, params, x)
        tol = scale2 * o.Fr(1, 10**47) + y[1]
        ctx.check(abs(v2 - y[0]) < o.Fr(1, 10**acc) + tol, 'the left-hand side was not aligned with the value', now=params,
                  value=mpmath.nstr(o.fr_mpf(y[0]), 45), lhs_value=mpmath.nstr(o.fr_mpf(v2), 45), **detail)
        ctx.check(abs(o.mpf_fr(val) - v2) <= tol, 'the left-hand side reports a wrong value', now=params, reported=str(val), **detail)
    ctx.state((op, tuple(kept), str(info)))
    if not repeat:
        return kept
    # the same refinement again changes nothing
    state = [(m.tag_of[id(r[1])], str(snap(r)[1]), str(snap(r)[2])) for r in res]
    if method == 'const':
        m.refine_clicks_with_const_num_of_iters(accuracy=acc, num_of_iterations=n)
    else:
        m.refine_clicks_with_convergence_info(accuracy=acc, num_of_iterations=n)
    again = [(m.tag_of[id(r[1])], str(snap(r)[1]), str(snap(r)[2])) for r in m.get_filtered_params()]
    ctx.check(len(again) == len(state) and all(s[0] == t[0] and s[1:] == t[1:] for s, t in zip(state, again)) or
              any(digits(value(*specs[s[0]], method, n, 50)[0], acc, o.Fr(1, 10**40)) is None for s in state
                  if value(*specs[s[0]], method, n, 50) not in (None, 'open')),
              'refining again changes the results', before=state[:5], after=again[:5], **info)
    return kept


def load(m, entries, x):
    """entries: [(ab, kind, params, f, convergence info)]; sets them as the results of the search."""
    xm = o.fr_mpf(x)
    m.tag_of, m.text_of, specs, res = {}, {}, {}, []
    for t, (ab, kind, params, f, conv) in enumerate(entries):
        lhs = pool.make_lhs(kind, params, xm)
        m.tag_of[id(lhs)] = t
        m.text_of[t] = (kind, params)
        specs[t] = (ab[0], ab[1], f)
        res.append((ab, lhs, f, conv))
    m.filtered_params = res
    return specs


def run(unit, ctx):
    mpmath.mp.dps = 50
    if unit[0] == 'broken':
        return broken(ctx)
    if unit[0] == 'integers':
        return integers(ctx)
    if unit[0] == 'full':
        return full(ctx, unit[1])
    i, f, kind, first, length = unit
    (pa, pb), _ = (CFS + MORE)[i]
    op0 = REFINE[first]
    v = value(pa, pb, f, op0[0], op0[2], 50)
    if v in (None, 'open'):
        # the function is not defined here: everything has to be dropped
        v = (o.Fr(617, 500), o.Fr(0))
    acc = op0[1]
    unit10 = 10**(acc + 3)
    if kind == 'rationalfunc':
        x = o.mpf_fr(o.fr_mpf(v[0]))
        lhss = [(((k, s * unit10) if (k + n) % 2 else (k, s * unit10, 0)), (unit10,), n) for s, n in SHIFTS
                for k in OFFSETS]
    else:
        x = o.mpf_fr(o.fr_mpf(v[0] * unit10))
        lhss = [(0, s, k + n * s * unit10, unit10 if k % 3 else -unit10) for s, n in SHIFTS for k in OFFSETS]
    rate = limit_rate(pa, pb)
    for rest in itertools.product(range(len(REFINE)) if length > 2 else (1, 2, 3), repeat=length - 1):
        conv = None
        entries = []
        for k, params in enumerate(lhss):
            entries.append(((pa, pb), kind, params, f, conv))
            if k % 17 == 5:
                # foreign results in between: another fraction, a broken one
                entries.append((BROKEN[k // 17 % len(BROKEN)], kind, params, f, None))
                entries.append((CFS[(i + 1) % len(CFS)][0], kind, params, 0, None))
        m = pool.mitm(x, (0,), prec=50)
        specs = load(m, entries, x)
        info = {'constant': str(x), 'history': [op0] + [REFINE[r] for r in rest]}
        for op in [op0] + [REFINE[r] for r in rest]:
            refine(ctx, m, op, specs, x, info, repeat=op == info['history'][-1])
        ctx.trace({'a': pa, 'b': pb, 'function': f, 'kind': kind, 'refinements': info['history']}, len(entries))
    # with convergence information: the accuracy of the limit is reached, within the allowed iterations
    if first == 0 and rate and rate[1] > 1.2 and value(pa, pb, f, 'info', 200, 50) not in (None, 'open'):
        with_info(ctx, pa, pb, f, kind, rate)


def with_info(ctx, pa, pb, f, kind, rate):
    far = value(pa, pb, f, 'info', 1200, 50)
    x = o.mpf_fr(o.fr_mpf(far[0]))
    if kind == 'ulcd':
        x = o.mpf_fr(o.fr_mpf(far[0] * 10**20))
    for acc, cap in ((5, 3000), (17, 3000), (30, 3000), (8, 30)):
        base = rate[1] * 0.98
        coeff = min(10 * max(mpmath.mpf(1), rate[0] * mpmath.mpf(rate[1])**100), mpmath.mpf(10)**15)
        conv = ('exp', (mpmath.mpf(base), coeff))
        u = 10**20
        lhss = []
        for k in (0, 10**(20 - min(acc, 19)) * 2, 10**max(0, 20 - acc - 2), -3):
            for s in (1, -1):
                lhss.append(((k, s * u), (u,), 2) if kind == 'rationalfunc' else (0, s, k, u))
        m = pool.mitm(x, (0,), prec=50)
        specs = load(m, [((pa, pb), kind, p, f, conv) for p in lhss], x)
        info = {'constant': str(x), 'convergence': [base, str(coeff)]}
        # the value is that of the limit, or of the allowed number of iterations
        n = 1200 if cap > 1200 else cap
        if cap < 1200:
            with mpmath.workdps(30):
                if coeff * mpmath.mpf(10)**(acc + 100) < mpmath.mpf(base)**cap:
                    ctx.skip('the estimate needs less than the cap')
                    continue
            m.refine_clicks_with_convergence_info(accuracy=acc, num_of_iterations=cap)
        else:
            m.refine_clicks_with_convergence_info(accuracy=acc, num_of_iterations=cap)
        y = value(pa, pb, f, 'info', n, 50)
        kept = {m.tag_of[id(r[1])] for r in m.get_filtered_params()}
        ctx.step(len(lhss))
        for t, p in enumerate(lhss):
            v, scale = pool.lhs_value(kind, p, x)
            d1, d2 = digits(y[0], acc, y[1] + o.Fr(1, 10**45)), digits(v, acc, scale * o.Fr(1, 10**45))
            if d1 is None or d2 is None:
                ctx.skip('digits at the rounding boundary')
                continue
            ctx.check((t in kept) == (d1 == d2), 'refinement with convergence information kept or dropped wrongly', lhs=p,
                      a=pa, b=pb, function=f, accuracy=acc, iterations=cap, agrees=d1 == d2, **info)
        ctx.trace(n=len(lhss))


def broken(ctx):
    """Results that cannot be evaluated are dropped, and only these."""
    good = CFS[0][0]
    x = o.mpf_fr(o.fr_mpf(value(good[0], good[1], 0, 'const', 60, 50)[0]))
    for which in itertools.product(range(len(BROKEN) + 1), repeat=3):
        for op in (('const', 5, 60), ('info', 5, 60)):
            entries = []
            for w in which:
                ab = good if w == len(BROKEN) else BROKEN[w]
                entries.append((ab, 'ulcd', (0, 1, 0, 1), 0, None))
            m = pool.mitm(x, (0,), prec=50)
            specs = load(m, entries, x)
            refine(ctx, m, op, specs, x, {'constant': str(x), 'fractions': which})
            ctx.trace({'fractions': which, 'refinement': op})


def integers(ctx):
    """Integer and zero left-hand sides, and values near integers."""
    # 2 + 4/(3+ ...) terminated fractions with known values are avoided: exact values come from a rational constant
    for ab, n in (((((2, 1),), ((5, 1),)), 40), ((((1,),), ((2,),)), 40), ((((-1,),), ((2,),)), 41),
                  # half integers
                  ((((2,),), ((-2, 1),)), 40), ((((2,),), ((2, -1),)), 40), ((((-2,),), ((-2, 1),)), 40), ((((2,),), ((-6, 3),)), 41)):
        for op in (('const', 4, n), ('info', 4, n), ('const', 9, n)):
            y = value(ab[0], ab[1], 0, 'const', n, 50)
            x = o.mpf_fr(o.fr_mpf(y[0]))
            near = round(y[0])
            for k in (-2, -1, 0, 1, 2):
                entries = [(ab, 'rationalfunc', ((k, 0, 0), (1, 0), 0), 0, None), (ab, 'ulcd', (0, 1, k, 1), 0, None),
                           (ab, 'ulcd', (0, -1, k, 1), 0, None), (ab, 'rationalfunc', ((0, -1), (1,), k), 0, None),
                           (ab, 'rationalfunc', ((near, 0), (1,), 0), 0, None), (ab, 'rationalfunc', ((2 * k + 1, 0), (2,), 0), 0, None)]
                m = pool.mitm(x, (0,), prec=50)
                specs = load(m, entries, x)
                refine(ctx, m, op, specs, x, {'constant': str(x), 'integer': k})
                ctx.trace()


def full(ctx, i):
    """Refinement where integer differences count."""
    (pa, pb), funcs = (CFS + MORE)[i]
    for f, op in itertools.product(funcs, (('const', 4, 60), ('const', 11, 200), ('info', 9, 200))):
        method, acc, n = op
        y = value(pa, pb, f, method, n, 50)
        if y in (None, 'open'):
            continue
        x = o.mpf_fr(o.fr_mpf(y[0]))
        u = 10**(acc + 3)
        for kind in ('rationalfunc', 'ulcd'):
            lhss = []
            for s, shift, k in itertools.product((1, -1), (-2, -1, 0, 1, 3), OFFSETS):
                # s * x + shift + k / u
                if kind == 'rationalfunc':
                    lhss.append(((k, s * u), (u,), shift))
                else:
                    lhss.append((0, s, k + shift * u, u))
            m = pool.mitm(x if kind == 'rationalfunc' else x * u, (0,), prec=50, trunc_integer=False)
            specs = load(m, [((pa, pb), kind, p, f, None) for p in lhss], x if kind == 'rationalfunc' else x * u)
            xx = x if kind == 'rationalfunc' else x * u
            if method == 'const':
                m.refine_clicks_with_const_num_of_iters(accuracy=acc, num_of_iterations=n)
            else:
                m.refine_clicks_with_convergence_info(accuracy=acc, num_of_iterations=n)
            res = {m.tag_of[id(r[1])]: r for r in m.get_filtered_params()}
            ctx.step(len(lhss))
            info = {'a': pa, 'b': pb, 'function': f, 'refinement': op, 'constant': str(xx), 'integer differences': 'count'}
            for t, p in enumerate(lhss):
                v, scale = pool.lhs_value(kind, p, xx)
                d1, d2 = pool.full_digits(y[0], acc, y[1]), pool.full_digits(v, acc, scale * o.Fr(1, 10**46))
                if d1 is None or d2 is None:
                    ctx.skip('digits at the rounding boundary, or a long integer part')
                    continue
                ctx.check((t in res) == (d1 == d2), 'a result was kept or dropped wrongly', lhs=p, agrees=d1 == d2, **info)
                ctx.outcome('agrees in full' if d1 == d2 else 'differs in full')
                if t not in res or d1[0] == acc:
                    continue
                kind2, params, val = snap(res[t])
                new = pool.lhs_fraction(kind2, params)
                old = pool.lhs_fraction(kind, p)
                ctx.check(new == old or new == pool.frac_neg(old), 'the left-hand side was changed by more than its sign', lhs=p, now=params, **info)
                v2, scale2 = pool.lhs_value(kind2, params, xx)
                ctx.check(abs(v2 - y[0]) < o.Fr(1, 10**(acc + 1 - d1[0])) + scale2 * o.Fr(1, 10**46) + y[1], 'the left-hand side was not aligned '
                          'with the value', lhs=p, now=params, **info)
                ctx.check(abs(o.mpf_fr(val) - v2) <= scale2 * o.Fr(1, 10**46), 'the left-hand side reports a wrong value', now=params, **info)
            ctx.state((i, f, op, kind, tuple(sorted(res))))
            ctx.trace(info, len(lhss))
