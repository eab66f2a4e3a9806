"""C02: direct evaluation from term lists and from polynomials against exact rationals."""
import copy
import itertools
import mpmath
from mpmath import mpf
from mc import oracle as o
import cont_fracs

PROPERTY = 'C02'
ASSUMPTIONS = ['the integer variants evaluate in double precision, the decimal one in the working precision',
               'evaluations that pass an exactly vanishing or severely cancelling tail are only required not to raise '
               'anything but ZeroDivisionError']
SPACE = {
    'quick': 'all term lists with entries in {-2,-1,0,1,3} (a up to length 4, every admissible b, b omitted, and every '
             'inadmissible length), as ints and as mpf; all polynomial pairs of the alphabets (interlaced up to 5) at every depth '
             '1..12 and at 40, 150; five slowly converging pairs at depths up to 7001; agreement with the iterative representation at '
             'each depth',
    'thorough': 'as quick with a up to length 5 and every depth up to 40'}
ENTRIES = [-2, -1, 0, 1, 3]
A = [[1], [0], [3, 2], [0, 1], [-2, 0, 3], [1, 2, 1], [2, -1], [5, 0, 0, 1], [1000003, -7], [0, 0, 0, 0, 0, 1],
     [[1, 2], [3]], [[1], [0, 1], [2, 0, 1]], [[0, 0, 1], [5, -1]], [[4], [0], [-3, 1], [1, 1]], [[1, 0], [0, 0, 2]],
     [[-1], [2], [3, 1], [0, -2], [7, 0, 1]], [10**30 + 7, 2**60 + 1], [2**53 + 1, 3, -1], [1, 0, 0, 0, 0, 0, 0, 0, 0, 3],
     [5 * 10**18, 7 * 10**18], [1, 6 * 10**18]]
B = [[1], [-1], [0, 1], [0, 0, 1], [4, 4, 1], [0, 0, -2, 1, 3], [2, 0, 1], [3, -1], [0, 0, 0, 0, 0, 0, -1], [0],
     [[1], [2]], [[1, 1], [3, 0, 1], [-2]], [[7], [-1, 3], [0, 1], [5, 0, 2]], [[-4, -1], [0, 0, 6]], [[2], [-4, 1]],
     [[2], [1], [-1, -1], [0, 3], [1, 0, 0, 1]], [7 * 10**40 + 1, 0, 10**33], [2**63 + 3, -1], [0] * 18 + [1],
     [6 * 10**18, 5 * 10**18]]

# slowly converging or diverging fractions with positive terms, for great depths
DEEP = [([1], [0, 0, 1]), ([[1], [2]], [[1, 1, 1], [0, 2, 1]]), ([1, 0, 0], [0, 1, 1]), ([1], [1]), ([0, 2], [3, 0, 0, 1])]


def units(tier):
    out = [['lists', n, first] for n in range(1, 6 if tier == 'thorough' else 5) for first in ENTRIES]
    out += [['lengths']] + [['deep', k] for k in range(len(DEEP))]
    out += [['polys', i, j, 40 if tier == 'thorough' else 12] for i in range(len(A)) for j in range(len(B))]
    return out


def evaluate(ctx, f, args, terms_a, terms_b, unit, what, zero_ok=True):
    """Calls f and compares with the exact value."""
    keep = copy.deepcopy(args)
    exact, tails = o.backward(terms_a, terms_b)
    ctx.step()
    try:
        r = f(*args)
    except ZeroDivisionError:
        # (rounding may make a tail vanish that is severely cancelling)
        ctx.check(any(t == 0 or t is None for t in tails[:-1]) or o.backward_error(terms_a, terms_b, unit) is None, '%s raised a division by zero though no tail is zero' % what,
                  args=args, expected=str(exact))
        ctx.outcome('zero division')
        return None
    ctx.check(str(args) == str(keep), '%s changed its arguments' % what, before=keep, after=args)
    err = o.backward_error(terms_a, terms_b, unit)
    if err is None or exact is None:
        ctx.skip('vanishing or cancelling tail')
        return r
    got = o.Fr(r) if isinstance(r, (int, float)) and r == r and abs(r) != float('inf') else \
        (o.mpf_fr(r) if isinstance(r, mpf) else None)
    ctx.check(got is not None and abs(got - exact) <= 2 * err, '%s differs from the exact convergent' % what, args=args,
              expected=str(exact), got=str(r))
    ctx.outcome('value')
    return r


def run(unit, ctx):
    mpmath.mp.dps = 50
    u_dec, u_dbl = o.Fr(1, 10**48), o.Fr(1, 2**52)
    if unit[0] == 'lists':
        _, n, first = unit
        for rest in itertools.product(ENTRIES, repeat=n - 1):
            a = [first] + list(rest)
            choices = [None] + [list(b) for b in itertools.product(ENTRIES if n < 4 else ENTRIES[:2] + ENTRIES[3:],
                                                                   repeat=n - 1)]
            if n <= 3:
                choices += [list(b) for b in itertools.product(ENTRIES, repeat=n)]
            elif n == 4:
                choices += [list(b) for b in itertools.product((-2, 1), repeat=n)]
            for b in choices:
                if b is None:
                    ta, tb = a, [1] * (n - 1)
                elif len(b) == n:
                    ta, tb = [0] + a, b
                else:
                    ta, tb = a, b
                if b is not None and len(b) == n == 0:
                    continue
                args_i = [list(a)] + ([] if b is None else [list(b)])
                args_d = [[mpf(x) for x in a]] + ([] if b is None else [[mpf(x) for x in b]])
                evaluate(ctx, cont_fracs.eval_contfrac, args_i, ta, tb, u_dbl, 'eval_contfrac')
                evaluate(ctx, cont_fracs.eval_contfrac, args_d, ta, tb, u_dec, 'eval_contfrac (mpf)')
                if n <= 3:
                    evaluate(ctx, cont_fracs.eval_contfrac, [tuple(x) for x in args_d], ta, tb, u_dec,
                             'eval_contfrac (tuples)')
                ctx.state((tuple(a), None if b is None else tuple(b)))
                ctx.trace({'a': a, 'b': b} if n == 3 else None)
    elif unit[0] == 'deep':
        deep(ctx, *DEEP[unit[1]])
    elif unit[0] == 'lengths':
        for na in range(1, 6):
            for nb in range(0, 8):
                if nb in (na, na - 1):
                    continue
                for conv in (int, mpf):
                    a, b = [conv(k + 1) for k in range(na)], [conv(1)] * nb
                    ctx.step()
                    try:
                        r = cont_fracs.eval_contfrac(a, b)
                    except ValueError:
                        ctx.outcome('rejected')
                        ctx.trace()
                        continue
                    ctx.fail('lists of different lengths are not rejected', a=a, b=b, got=str(r))
    else:
        polys(unit, ctx, u_dec, u_dbl)


def polys(unit, ctx, u_dec, u_dbl):
    _, i, j, depth = unit
    a, b = A[i], B[j]
    for d in list(range(1, depth + 1)) + [40, 150]:
        ta, tb = [o.term(a, k) for k in range(d)], [o.term(b, k) for k in range(1, d)]
        ctx.state((i, j, d))
        r = evaluate(ctx, cont_fracs.eval_dec_contfrac_by_polys, [copy.deepcopy(a), copy.deepcopy(b), d], ta, tb, u_dec,
                     'eval_dec_contfrac_by_polys')
        if r is not None:
            ctx.check(isinstance(r, mpf), 'the decimal variant does not return a working-precision number', got=str(type(r)))
        tup = [tuple(tuple(p) if isinstance(p, list) else p for p in x) for x in (a, b)]
        evaluate(ctx, cont_fracs.eval_dec_contfrac_by_polys, tup + [d], ta, tb, u_dec, 'eval_dec_contfrac_by_polys (tuples)')
        if d <= 40 and max(abs(x) for x in ta + tb) < 10**60:
            evaluate(ctx, cont_fracs.eval_contfrac_by_polys, [copy.deepcopy(a), copy.deepcopy(b), d], ta, tb, u_dbl,
                     'eval_contfrac_by_polys')
        # agreement with the iterative representation
        err = o.backward_error(ta, tb, u_dec)
        if r is not None and err is not None:
            cf = cont_fracs.ContFrac(copy.deepcopy(a), copy.deepcopy(b), avoid_zero_b=False)
            cf.gen_iterations(d - 1)
            it = cf.get_result()
            if not o.is_nan(it):
                ctx.step()
                ctx.check(abs(o.mpf_fr(it) - o.mpf_fr(r)) <= 3 * err, 'direct and iterative evaluation differ', a=a, b=b, depth=d,
                          direct=str(r), iterative=str(it))
                ctx.outcome('agreement')
        ctx.trace({'a': a, 'b': b, 'depth': d} if d == 7 else None)
    # other working precisions
    for dps in (15, 30, 100):
        mpmath.mp.dps = dps
        d = 9
        ta, tb = [o.term(a, k) for k in range(d)], [o.term(b, k) for k in range(1, d)]
        evaluate(ctx, cont_fracs.eval_dec_contfrac_by_polys, [copy.deepcopy(a), copy.deepcopy(b), d], ta, tb,
                 o.Fr(1, 10**(dps - 2)), 'eval_dec_contfrac_by_polys at %d digits' % dps)
    mpmath.mp.dps = 50


def deep(ctx, a, b):
    """Great depths: no limit below the requested depth. All the terms are positive, so nothing cancels."""
    terms_a = [o.term(a, k) for k in range(7001)]
    terms_b = [o.term(b, k) for k in range(7001)]
    p, p0, q, q0 = terms_a[0], 1, 1, 0
    cf = cont_fracs.ContFrac(copy.deepcopy(a), copy.deepcopy(b))
    at = 0
    for n in range(1, 7001):
        p, p0 = terms_a[n] * p + terms_b[n] * p0, p
        q, q0 = terms_a[n] * q + terms_b[n] * q0, q
        if n not in (299, 999, 1000, 1001, 2499, 4999, 5000, 5001, 7000):
            continue
        mpmath.mp.dps = 70
        exact = o.mpf_fr(mpf(p) / q)
        mpmath.mp.dps = 50
        cf.add_iterations(n - at)
        at = n
        for what, r, tol in (
                ('eval_dec_contfrac_by_polys', cont_fracs.eval_dec_contfrac_by_polys(copy.deepcopy(a), copy.deepcopy(b), n + 1), 10**45),
                ('eval_contfrac_by_polys', cont_fracs.eval_contfrac_by_polys(copy.deepcopy(a), copy.deepcopy(b), n + 1), 10**12),
                ('eval_contfrac', cont_fracs.eval_contfrac([mpf(x) for x in terms_a[:n + 1]], [mpf(x) for x in terms_b[1:n + 1]]), 10**45),
                ('ContFrac', cf.get_result(), 10**45)):
            ctx.step()
            got = o.Fr(r) if isinstance(r, (int, float)) else o.mpf_fr(r)
            ctx.check(abs(got - exact) <= exact / tol, '%s differs from the convergent at a great depth' % what, a=a, b=b,
                      depth=n + 1, got=str(r), expected=mpmath.nstr(mpf(exact.numerator) / exact.denominator, 30))
        ctx.state((str(a), str(b), n))
        ctx.outcome('deep')
        ctx.trace({'a': a, 'b': b, 'depth': n + 1})
