"""C14: the filter of positive integer roots against exact divisor search over all polynomials of the box."""
import itertools
import mpmath
from mc import oracle as o
from mc import pool

PROPERTY = 'C14'
ASSUMPTIONS = ['polynomials beyond the box behave like those inside it']
SPACE = {
    'quick': 'every b of degree <= 2 with coefficients -12..12 and degree 3 with -3..3; every product of up to three factors (n-r), '
             'r in {1,2,3,7,60,199,1000,4999,10^6+3,2*10^9+11}, with one of 13 factors without positive integer roots and both signs; high powers; '
             'interlaced pairs and triples of 14 polynomials; in lists of results, with the filter repeated',
    'thorough': 'larger box, up to five factors, interlaced quadruples'}
R = [1, 2, 3, 7, 60, 199, 1000, 4999, 10**6 + 3, 2 * 10**9 + 11]
OTHER = [[1], [1, 0, 1], [-1, 2], [3, 1], [0, 1], [-7, 3], [-2, 0, 1], [-1, -1, 1], [-5, 2], [0, 0, 0, 2], [1999, -2], [-999001, 1000], [5]]
INTER = [[1], [0, 1], [-1, 1], [0, 0, 1], [-4, 0, 1], [4, 0, 1], [2, -3, 1], [2, 3, 1], [1, -2], [-3, 2], [0], [6, -5, 1, 0], [-1, 0, 0, 1],
         [0, -60, 1]]


def units(tier):
    deep = tier == 'thorough'
    out = [['box', c, 20 if deep else 12, 5 if deep else 3] for c in range(-20 if deep else -12, 21 if deep else 13)]
    for k in range(0, 6 if deep else 4):
        for first in (range(len(R)) if k else [0]):
            out.append(['product', k, first])
    out.append(['powers'])
    for i in range(len(INTER)):
        out.append(['interlaced', i, 4 if deep else 3])
    return out


def removed(b):
    return any(not o.poly_trim(p) or o.positive_integer_roots(p) for p in b)


def batch(ctx, m, bs):
    """One list of results with these b's."""
    given = []
    for k, b in enumerate(bs):
        ab = (((1, k % 3),), tuple(tuple(p) for p in b))
        lhs = pool.make_lhs('ulcd', (0, 1, 0, 1 + k % 2), mpmath.mpf(3)) if k < 50 else None
        given.append((ab, lhs, k % 24, ('exp', [k])))
    m.filtered_params = list(given)
    for times in range(2):
        m.filter_pos_integer_roots_numerators()
        res = list(m.get_filtered_params())
        kept = [r[3][1][0] for r in res]
        ctx.step(len(bs))
        got = set(kept)
        for k, b in enumerate(bs):
            gone = removed(b)
            if (k in got) == gone:
                ctx.fail('a result is removed without a positive integer root' if not gone else
                         'a result with a vanishing numerator is kept', b=b, time=times)
            ctx.outcome('removed' if gone else 'kept')
        ctx.check(kept == sorted(got) and len(kept) == len(got), 'the order of the results changed', kept=kept)
        for r in res:
            g = given[r[3][1][0]]
            ctx.check(r[0] == g[0] and r[1] is g[1] and r[2] == g[2] and r[3] == g[3], 'a kept result was changed', b=g[0][1])
    for b in bs:
        ctx.state(str(b))
    ctx.trace({'b': bs[:4]}, len(bs))


def run(unit, ctx):
    mpmath.mp.dps = 50
    m = pool.mitm(o.Fr(5, 3))
    if unit[0] == 'box':
        _, c0, n, n3 = unit
        bs = [[[c0, c1, c2]] for c1 in range(-n, n + 1) for c2 in range(-n, n + 1)]
        if abs(c0) <= n3:
            bs += [[[c0, c1, c2, c3]] for c1, c2, c3 in itertools.product(range(-n3, n3 + 1), repeat=3)]
        bs += [[[c0]], [[c0, 1]], [[c0, 0]]]
        batch(ctx, m, bs)
    elif unit[0] == 'product':
        _, k, first = unit
        bs = []
        for rs in itertools.combinations_with_replacement(R, k):
            if k and rs[0] != R[first]:
                continue
            p = [1]
            for r in rs:
                p = o.poly_mul(p, [-r, 1])
            for q in OTHER:
                for s in (1, -1, 6):
                    bs.append([[s * c for c in o.poly_mul(p, q)]])
        batch(ctx, m, bs)
    elif unit[0] == 'powers':
        bs = []
        for r, k in itertools.product((1, 3, 10, 60, -4), range(1, 9)):
            for q in ([1], [3, 0, 2]):
                p = q
                for _ in range(k):
                    p = o.poly_mul(p, [-r, 1])
                bs.append([p])
                # one off: no root
                bs.append([[p[0] + 1] + p[1:]])
        batch(ctx, m, bs)
    else:
        _, i, n = unit
        bs = []
        for k in range(0, n):
            for rest in itertools.product(INTER, repeat=k):
                bs.append([INTER[i]] + list(rest))
        for j in range(0, len(bs), 60):
            batch(ctx, m, bs[j:j + 60])
