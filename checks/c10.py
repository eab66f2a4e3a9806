"""C10: recognition of redundant results and uniqueness filtering, against exact rational functions."""
import copy
import itertools
import mpmath
from mc import oracle as o
from mc import pool
import lhs_evaluators as le

PROPERTY = 'C10'
ASSUMPTIONS = ['results carry their polynomials as tuples of integer tuples, as the table does']
SPACE = {
    'quick': 'all ordered pairs: 21 rational functions (unreduced, negated, shifted, reciprocal, zero, nearly equal) x 8 pairs of '
             'functions on one fraction; 10 fractions (negated, partly negated, permuted, padded) x 8 rational functions x 5 '
             'pairs of functions; all ulcd of a box x 3 pairs of functions; uniqueness filtering of every list of length <= 3 '
             '(rational) / 4 (ulcd and mixed) over pools of results, and of lists of 25 to 48 results with the equivalents of one '
             'or all of 24 different ones in 8 rotations, and of 301 to 600 ulcd results',
    'thorough': 'all pairs of functions, larger ulcd box, lists up to 4 / 5, long lists in all 24 rotations and reversed'}
X = o.Fr(884279719003555, 2**48)
FR = [((1, 2), (1,), 0), ((2, 4), (2,), 0), ((-1, -2), (1,), 0), ((1, 2), (-1,), 0), ((0, 2), (1,), 1), ((1, 2), (1,), 3),
      ((1, 3, 2), (1, 1), 0), ((1,), (1, 2), 0), ((2, 2), (2, 4), 0), ((1, 2), (2,), 0), ((3, 2), (2,), 0), ((1, 1), (1, 2), 0),
      ((0, 2), (1, 2), -1), ((0, -2), (1, 2), 0), ((1, -2), (1,), 0), ((0, 0, 1), (1, 1), 0), ((0, 0, 0, 1), (0, 1, 1), 2),
      ((0,), (1, 1), 0), ((0, 1), (1,), -1), ((3,), (2,), 0), ((1, 2, 0), (1, 0), 0)]
AB = [(((1, 2),), ((0, 0, 1),)), (((-1, -2),), ((0, 0, 1),)), (((1, 2),), ((0, 0, -1),)), (((1, 2), (3,)), ((0, 0, 1),)),
      (((1, 2), (-3,)), ((0, 0, 1),)), (((-1, -2), (-3,)), ((0, 0, 1),)), (((3,), (1, 2)), ((0, 0, 1),)), (((1, 2, 0),), ((0, 0, 1),)),
      (((1, -2),), ((0, 0, 1),)), (((1, 2),), ((0, 0, 1), (1,)))]
FUNC_PAIRS = [(0, 0), (1, 1), (0, 1), (1, 0), (2, 3), (3, 2), (0, 2), (1, 2)]
MORE_FUNC_PAIRS = [(i, j) for i in range(0, 24) for j in range(0, 24) if i // 2 == j // 2 or abs(i - j) in (1, 2)]
RECIPROCAL = {(i, i ^ 1) for i in range(24)}
SUB = [0, 1, 2, 3, 5, 7, 9, 15]


def ulcd_box(deep):
    us, ls, cs, ds = ((-2, -1, 0, 1, 2), (-4, -2, -1, 1, 2, 4), (-1, 0, 1), (-2, -1, 1, 2, 4))
    if deep:
        us, cs, ds = (-4, -2, -1, 0, 1, 2, 3), (-2, -1, 0, 1, 2), (-4, -2, -1, 1, 2, 3)
    return list(itertools.product(us, ls, cs, ds))


def filter_pools():
    a, na, i1, i2 = AB[0], AB[1], AB[3], AB[5]
    rat = [('rationalfunc', ab, FR[k], f) for ab, k, f in
           [(a, 0, 0), (a, 1, 0), (na, 3, 0), (a, 7, 1), (a, 7, 0), (i1, 0, 0), (i2, 5, 0), (a, 9, 0), (a, 0, 2), (a, 15, 0)]]
    ulcd = [('ulcd', ab, p, f) for ab, p, f in
            [(a, (1, 2, 1, 3), 0), (a, (2, 1, 2, 6), 0), (na, (-1, -2, -1, 3), 0), (a, (1, 2, 1, -3), 0), (a, (1, 2, 0, 3), 0),
             (a, (1, 2, 1, 3), 1), (a, (2, 1, 2, 6), 1), (i1, (1, 2, 1, 3), 0)]]
    return {'rat': rat, 'ulcd': ulcd, 'mixed': rat[:2] + rat[3:4] + ulcd[:3] + ulcd[5:6]}


def long_pool():
    """Pairwise different results, and for each of them an equivalent one."""
    a = AB[0]
    base, twin = [], []
    for k in range(24):
        ab = (((1, 2 + k),), ((0, 0, 1),))
        if k % 3 == 0:
            base.append(('rationalfunc', ab, ((1, 2), (1, k), 0), 0))
            twin.append(('rationalfunc', (pool.neg(ab[0]), ab[1]), ((-1, -2), (1, k), 5), 0))
        elif k % 3 == 1:
            base.append(('rationalfunc', a, ((k, 3), (1, 1, 2), 0), 0))
            twin.append(('rationalfunc', a, ((2, 2, 4), (k, 3), 0), 1))
            twin[-1] = ('rationalfunc', a, ((2 * k, 6), (2, 2, 4), -1), 0)
        else:
            base.append(('ulcd', ab, (1, k, 1, 3), 0))
            twin.append(('ulcd', ab, (2, k, 0, 6), 0))
            twin[-1] = ('ulcd', ab, (-1, -k, -1, 3), 0)
    return base, twin


def units(tier):
    deep = tier == 'thorough'
    out = []
    for i in range(24):
        if deep:
            out += [['long', i, False], ['long', i, True]]
        elif i % 3 == 0:
            out.append(['long', i, i % 2 == 1])
    for i in range(len(FR)):
        out.append(['frac', i, MORE_FUNC_PAIRS if deep else FUNC_PAIRS])
    for i in range(len(AB)):
        for k in (range(len(FR)) if deep else SUB):
            out.append(['ab', i, k])
    n = len(ulcd_box(deep))
    for i in range(0, n, 30):
        out.append(['ulcd', i, min(i + 30, n), deep])
    out += [['huge', k] for k in (0, 2)]
    out.append(['ulcd_ab'])
    out.append(['kinds'])
    for name, p in filter_pools().items():
        for length in range(0, (4 if name == 'rat' else 5) + (1 if deep else 0)):
            if length < 3:
                out.append(['filter', name, length, []])
            else:
                for first in itertools.product(range(len(p)), repeat=length - 2):
                    out.append(['filter', name, length, list(first)])
    return out


def build(r, tag=None):
    kind, ab, params, f = r
    return (ab, pool.make_lhs(kind, params, o.fr_mpf(X)), f, ('exp', [tag]))


def same_a(a1, a2):
    return a1 == a2 or a1 == pool.neg(a2)


def may(r1, r2):
    """The two results may be called equivalent."""
    k1, (a1, b1), p1, f1 = r1
    k2, (a2, b2), p2, f2 = r2
    if k1 != k2 or b1 != b2 or not same_a(a1, a2):
        return False
    g1, g2 = pool.lhs_fraction(k1, p1), pool.lhs_fraction(k2, p2)
    if f1 == f2:
        return pool.up_to_sign_and_integer(g1, g2)
    if (f1, f2) in RECIPROCAL:
        i1, i2 = pool.frac_inv(g1), pool.frac_inv(g2)
        return pool.up_to_sign_and_integer(g1, i2) or pool.up_to_sign_and_integer(g2, i1)
    return False


def must(r1, r2):
    """The two results have to be called equivalent."""
    k1, (a1, b1), p1, f1 = r1
    k2, (a2, b2), p2, f2 = r2
    if k1 != k2 or b1 != b2 or not same_a(a1, a2):
        return False
    if k1 == 'ulcd':
        if f1 == f2 == 0:
            g1, g2 = pool.lhs_fraction(k1, p1), pool.lhs_fraction(k2, p2)
            return g1 == g2 or g1 == pool.frac_neg(g2)
        return f1 == f2 and a1 == a2 and tuple(p1) == tuple(p2)
    g1, g2 = pool.lhs_fraction(k1, p1), pool.lhs_fraction(k2, p2)
    if f1 == f2:
        return pool.up_to_sign_and_integer(g1, g2)
    if (f1, f2) in RECIPROCAL:
        i1 = pool.frac_inv(g1)
        return i1 is not None and (i1 == g2 or i1 == pool.frac_neg(g2))
    return False


def pair(ctx, r1, r2, o1=None, o2=None):
    b1, b2 = o1 or build(r1), o2 or build(r2)
    got = bool(b1[1].is_equiv(b1, b2))
    ctx.step()
    if got and not may(r1, r2):
        ctx.fail('two different results are called equivalent', first=r1, second=r2)
    if not got and must(r1, r2):
        ctx.fail('a result is not recognised as equivalent', first=r1, second=r2)
    ctx.outcome('equivalent' if got else 'different')
    return got


def run(unit, ctx):
    mpmath.mp.dps = 50
    what = unit[0]
    if what == 'frac':
        for j in range(len(FR)):
            for f1, f2 in unit[2]:
                r1, r2 = ('rationalfunc', AB[0], FR[unit[1]], f1), ('rationalfunc', AB[0], FR[j], f2)
                pair(ctx, r1, r2)
                ctx.state((unit[1], j, f1, f2))
        ctx.trace({'rational function': FR[unit[1]]}, len(FR) * len(unit[2]))
    elif what == 'ab':
        for j in range(len(AB)):
            for k in SUB:
                for f1, f2 in FUNC_PAIRS[:4] + FUNC_PAIRS[6:7]:
                    r1, r2 = ('rationalfunc', AB[unit[1]], FR[unit[2]], f1), ('rationalfunc', AB[j], FR[k], f2)
                    pair(ctx, r1, r2)
                    ctx.state((unit[1], unit[2], j, k, f1, f2))
        ctx.trace({'fraction': AB[unit[1]], 'rational function': FR[unit[2]]}, len(AB) * len(SUB) * 5)
    elif what == 'ulcd':
        box = ulcd_box(unit[3])
        fr = [pool.lhs_fraction('ulcd', p) for p in box]
        objs = [build(('ulcd', AB[0], p, 0)) for p in box]
        for i in range(unit[1], unit[2]):
            for j in range(len(box)):
                b1, b2 = objs[i], objs[j]
                same = fr[i] == fr[j] or fr[i] == pool.frac_neg(fr[j])
                got = bool(b1[1].is_equiv(b1, b2))
                ctx.step()
                if got and not same and not pool.up_to_sign_and_integer(fr[i], fr[j]):
                    ctx.fail('two different results are called equivalent', first=box[i], second=box[j])
                if same and not got:
                    ctx.fail('a result is not recognised as equivalent', first=box[i], second=box[j])
                ctx.outcome('equivalent' if got else 'different')
                for f1, f2 in ((1, 1), (0, 1), (2, 2)):
                    c1, c2 = (b1[0], b1[1], f1, None), (b2[0], b2[1], f2, None)
                    got = bool(b1[1].is_equiv(c1, c2))
                    ctx.step()
                    if got and (f1 != f2 or not pool.up_to_sign_and_integer(fr[i], fr[j])):
                        ctx.fail('two different results are called equivalent', first=(box[i], f1), second=(box[j], f2))
                    if i == j and f1 == f2 and not got:
                        ctx.fail('a result is not equivalent to itself', first=(box[i], f1))
            ctx.state(('ulcd', box[i]))
            ctx.trace({'ulcd': box[i]})
    elif what == 'ulcd_ab':
        ps = [(1, 2, 1, 3), (2, 1, 2, 6), (-1, -2, -1, 3), (1, 2, 1, -3), (1, -2, 1, 3), (0, 2, 0, 1)]
        for ab1, ab2, p1, p2, fs in itertools.product(AB, AB, ps, ps, FUNC_PAIRS):
            pair(ctx, ('ulcd', ab1, p1, fs[0]), ('ulcd', ab2, p2, fs[1]))
            ctx.state((ab1, ab2, p1, p2, fs))
            ctx.trace()
    elif what == 'kinds':
        # (x^2 + x + 1) / x of both kinds, and others
        for p1, p2, f1, f2 in itertools.product([(1, 1, 1, 1), (0, 1, 0, 1), (2, 3, 0, 4)],
                                                [((1, 1, 1), (0, 1), 0), ((0, 1), (1,), 0), ((1,), (0, 1), 1)], (0, 1), (0, 1)):
            r1, r2 = ('ulcd', AB[0], p1, f1), ('rationalfunc', AB[0], p2, f2)
            pair(ctx, r1, r2)
            pair(ctx, r2, r1)
            ctx.state((p1, p2, f1, f2))
            ctx.trace()
    elif what == 'long':
        base, twin = long_pool()
        n, i = len(base), unit[1]
        p = base + twin
        m = pool.mitm(X)
        rot = list(range(i, n)) + list(range(i))
        for order in [rot[::-1] if unit[2] else rot]:
            # the twin of one of them at the end, the twins of all of them, and each next to its own
            for j in range(n):
                filtering(ctx, m, p, tuple(order) + (n + order[j],))
            filtering(ctx, m, p, tuple(order) + tuple(n + k for k in order))
            filtering(ctx, m, p, tuple(order) + tuple(n + k for k in order[::-1]))
            filtering(ctx, m, p, tuple(k + d for k in order for d in (0, n)))
            filtering(ctx, m, p, tuple(order[:12]) + tuple(n + k for k in order))
    elif what == 'huge':
        # 300 different results; equivalents of some of them at the end, far from them
        n, base, twin = 300, [], []
        for k in range(n):
            ab = (((k + 1, 2),), ((0, 0, 1),)) if unit[1] != 2 else (((1, 2),), ((k + 1, 0, 1),))
            base.append(('ulcd', ab, (1, 2, 1, 3), 0))
            twin.append(('ulcd', (pool.neg(ab[0]), ab[1]), (-1, -2, -1, 3), 0))
        p = base + twin
        m = pool.mitm(X)
        order = list(range(n))
        for idx in (order + [n], order + [n + 60, n + 250], order + [n + k for k in order]):
            filtering(ctx, m, p, tuple(idx))
    else:
        _, name, length, first = unit
        p = filter_pools()[name]
        m = pool.mitm(X)
        for rest in itertools.product(range(len(p)), repeat=length - len(first)):
            filtering(ctx, m, p, tuple(first) + rest)


def filtering(ctx, m, p, idx):
    given = [build(p[i], k) for k, i in enumerate(idx)]
    m.filtered_params = list(given)
    m.filter_uniq_params()
    ctx.step()
    res = list(m.get_filtered_params())
    kept = [r[3][1][0] for r in res]
    info = {'results': [p[i] for i in idx], 'kept': kept}
    ctx.check(kept == sorted(set(kept)), 'the order was changed or a result repeated', **info)
    ctx.check(not idx or kept[:1] == [0], 'the first result of a group was not kept', **info)
    for k, r in zip(kept, res):
        ab, lhs, f, conv = r
        kind, ab0, params, f0 = p[idx[k]]
        ctx.check(ab == ab0 and f == f0 and type(lhs) is pool.LHS[kind]['eval'] and
                  pool.lhs_fraction(kind, lhs.get_params()) == pool.lhs_fraction(kind, params), 'a kept result was changed', result=k, **info)
    for k in range(len(idx)):
        if k not in kept:
            ctx.check(any(may(p[idx[j]], p[idx[k]]) for j in kept), 'a result was dropped that is not equivalent to a kept one',
                      dropped=k, **info)
            ctx.check(any(may(p[idx[j]], p[idx[k]]) for j in kept if j < k), 'not the first of the equivalent results was kept',
                      dropped=k, **info)
    for i, j in itertools.combinations(kept, 2):
        ctx.check(not must(p[idx[i]], p[idx[j]]), 'two equivalent results were kept', pair=(i, j), **info)
    for r1, r2 in itertools.combinations(res, 2):
        ctx.check(not r1[1].is_equiv(r1, r2), 'two results called equivalent were kept', **info)
    m.filter_uniq_params()
    ctx.check([r[3][1][0] for r in m.get_filtered_params()] == kept, 'filtering again changes the results', **info)
    ctx.outcome('kept %d of %d' % (len(kept), len(idx)))
    ctx.state((idx, tuple(kept)))
    ctx.trace(info if len(idx) > 2 else None)
