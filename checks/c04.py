"""C04: the candidate generator against a direct enumeration, over all range shapes of the alphabet."""
import itertools
from collections import Counter
import mpmath
from mc import oracle as o
import enum_poly_params as ep

PROPERTY = 'C04'
ASSUMPTIONS = ['which b are screened for integer roots is decided by C05; here a pair may be missing or present if its b has a '
               'nonzero integer root, unless C05 requires one of the two',
               'the degree of the zero polynomial is left open']
SPACE = {
    'quick': 'every pair of range shapes of the alphabet (interlacing 1..5, 1..3 coefficients, widths 0..3) x normal/indexed/'
             'sparse x options (root screening, only exponential, fraction generation at depths 0,1,3,7 with and without '
             'avoiding zero numerators), repeated and interleaved generators',
    'thorough': 'as quick with more shapes and more coefficients'}

TYPES = {'normal': ep.BasicEnumPolyParams, 'indexed': ep.IndexedParameterEnumPolyParams,
         'sparse': ep.SparseParameterEnumPolyParams}
SHAPES = [[[[0, 2]]], [[[1, 2]]], [[[-1, 2], [0, 1]]], [[[0, 2], [1, 3]]], [[[-1, 1], [0, 2], [0, 2]]], [[[2, 2], [0, 2]]],
          [[[1, 3]], [[0, 2]]], [[[0, 2]], [[0, 2]]], [[[1, 2], [0, 2]], [[0, 2], [0, 2]]], [[[0, 2]], [[0, 2]], [[0, 2]]],
          [[[1, 2], [0, 1], [0, 1], [-1, 2]]], [[[-2, -1], [3, 5]], [[1, 2]]], [[[0, 1], [0, 1], [0, 1], [0, 1], [0, 2]]],
          [[[0, 3], [0, 2]], [[0, 2], [0, 3]]], [[[5, 8]]], [[[-3, 4]], [[1, 2]]], [[[0, 2]]] * 4, [[[0, 2]]] * 5, [[[1, 2], [0, 1]]] * 3 + [[[1, 2], [0, 2]]]]
MORE = [[[[-2, 3], [-2, 3]]], [[[0, 2], [0, 2], [0, 2], [0, 2]]], [[[0, 2]], [[1, 3]], [[0, 2]], [[1, 2]]],
        [[[1, 2], [0, 2]], [[1, 2], [0, 2]], [[1, 2], [0, 2]]], [[[-1, 2]] * 3, [[0, 2]] * 3]]
SPARSE_SHAPES = [s for s in SHAPES + [[[[1, 3], [2, 3], [-1, 1]]], [[[1, 2], [4, 5]], [[2, 3], [1, 2]]], [[[1, 2]], [[1, 2]], [[3, 4]]]]
                 if len({len(p) for p in s}) == 1 and len(s[0]) <= 3]


def units(tier):
    shapes = SHAPES + (MORE if tier == 'thorough' else [])
    out = []
    for i in range(len(shapes)):
        for j in range(len(shapes)):
            for t in ('normal', 'indexed'):
                out.append([t, shapes[i], shapes[j], None])
    for i in range(len(SPARSE_SHAPES)):
        for j in range(len(SPARSE_SHAPES)):
            a, b = SPARSE_SHAPES[i], SPARSE_SHAPES[j]
            for sp in ((len(a[0]), len(b[0])), (len(a[0]) + 1, len(b[0])), (len(a[0]), len(b[0]) + 1),
                       (len(a[0]) + 2, len(b[0]) + 1)) + (((len(a[0]) + 1, len(b[0]) + 3),) if tier == 'thorough' else ()):
                size = 1
                for s, n in ((a, sp[0]), (b, sp[1])):
                    for p in s:
                        size *= binom(n, len(p))
                        for r in p:
                            size *= r[1] - r[0]
                if size <= (20000 if tier == 'thorough' else 4000):
                    out.append(['sparse', a, b, sp])
    # numerators of which some placements vanish within the depth and others do not
    for a in ([[[1, 3]]], [[[1, 2]], [[2, 3]]], [[[1, 2], [1, 2]]]):
        for b in ([[[-3, -1], [1, 2]]], [[[1, 2], [-1, 0]]], [[[-3, -2], [1, 2]], [[1, 2], [-2, -1]]], [[[-7, -6], [1, 2]]]):
            for extra in (1, 2):
                out.append(['sparse', a, b, (len(a[0]) + extra % 2, len(b[0]) + extra)])
    # many placements
    for a, b, sp in (([[[1, 2]]] * 4, [[[1, 2]]], (4, 2)), ([[[1, 2]]] * 4, [[[2, 3]]], (5, 1)), ([[[1, 2]]] * 5, [[[1, 2]]], (4, 1)), ([[[1, 2]]], [[[1, 2]]] * 4, (2, 4)),
                     ([[[1, 2]]] * 3, [[[1, 3]]], (6, 3)), ([[[1, 2], [3, 4]]] * 3, [[[1, 2]]], (5, 1)), ([[[1, 2]] * 3], [[[1, 2]] * 2], (7, 6)), ([[[1, 2]] * 5], [[[1, 3]]], (9, 9)),
                     ([[[1, 2]] * 4] * 2, [[[1, 2]]], (6, 2)), ([[[1, 2]]] * 2, [[[1, 2]]] * 2, (8, 8)), ([[[1, 2]] * 2], [[[1, 2]] * 6], (3, 8))):
        out.append(['sparse', a, b, sp])
    out.append(['indexed_wide'])
    return out


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def expansions(kind, coeffs, n):
    """All the polynomials that one coefficient tuple stands for."""
    if kind == 'normal':
        return [tuple(coeffs)]
    if kind == 'indexed':
        d = len(coeffs) - 1
        out = [0] * len(coeffs)
        for i, c in enumerate(coeffs):
            power = [1]
            for _ in range(d):
                power = [(power[k - 1] if k > 0 else 0) + (i * power[k] if k < len(power) else 0)
                         for k in range(len(power) + 1)]
            out = [x + c * y for x, y in zip(out, power)]
        return [tuple(out)]
    res = []
    for places in itertools.combinations(range(n), len(coeffs)):
        p = [0] * n
        for place, c in zip(places, coeffs):
            p[place] = c
        res.append(tuple(p))
    return res


def candidates(kind, shape, n):
    """Counter of the interlaced polynomials of a range (identical ones collapsed)."""
    out = []
    for tup in itertools.product(*[list(itertools.product(*[range(r[0], r[1]) for r in ra])) for ra in shape]):
        for polys in itertools.product(*[expansions(kind, c, n) for c in tup]):
            if len(polys) > 1 and all(p == polys[0] for p in polys):
                polys = (polys[0],)
            out.append(polys)
    return Counter(out)


def must_drop(b):
    return any(root_status(p) == 'drop' for p in b)


def may_drop(b):
    return any(root_status(p) != 'keep' for p in b)


def root_status(p):
    """'drop': has to be screened; 'keep': must not be; 'open'."""
    q = o.poly_trim(p)
    if not q:
        return 'drop'
    while q[0] == 0:
        q = q[1:]
    if len(q) <= 3 and any(r > 0 for r in o.positive_integer_roots(q)):
        return 'drop'
    return 'open' if o.has_nonzero_integer_root(q) else 'keep'


def deg(p):
    return o.poly_deg(p)


def slow(pa, pb):
    """deg b > 2 deg a for a pair that is not interlaced: True, False or None (open)."""
    if len(pa) != 1 or len(pb) != 1:
        return False
    da, db = deg(pa[0]), deg(pb[0])
    if da < 0 or db < 0:
        return None
    return db > 2 * da


def norm(polys):
    return tuple(tuple(int(c) for c in p) for p in polys)


def compare(ctx, got, bound, kind, ca, cb, options, depth, **info):
    """got: Counter of the yielded pairs."""
    roots, exp, avoid = options
    has_zero_coeffs = kind == 'sparse'
    total = sum(got.values())
    ctx.check(bound >= total, 'the announced length is smaller than the number of pairs', announced=bound, pairs=total, **info)
    seen = 0
    for pa, na in ca.items():
        for pb, nb in cb.items():
            n = got.get((pa, pb), 0)
            seen += n
            want = na * nb
            drop = False
            open_ = False
            if roots:
                drop = drop or must_drop(pb)
                open_ = open_ or may_drop(pb)
            if exp:
                s = slow(pa, pb)
                drop = drop or s is True
                open_ = open_ or s is None
            if depth is not None and avoid and any(o.term(pb, i) == 0 for i in range(1, depth + 1)):
                drop = True
            if drop:
                ctx.check(n == 0, 'a pair that has to be left out is yielded', a=pa, b=pb, options=options, depth=depth, **info)
                ctx.outcome('left out')
            elif open_:
                ctx.check(n <= want, 'a pair is yielded too often', a=pa, b=pb, **info)
                ctx.outcome('open')
            elif has_zero_coeffs and (any(0 in p for p in pa) or any(0 in p for p in pb)) and want > 1:
                ctx.check(1 <= n <= want, 'a sparse pair is missing or repeated too often', a=pa, b=pb, times=n, possible=want, **info)
                ctx.outcome('repeating')
            else:
                ctx.check(n == want, 'a pair is not yielded exactly once', a=pa, b=pb, times=n, expected=want,
                          options=options, depth=depth, **info)
                ctx.outcome('yielded')
    ctx.check(seen == total, 'a pair outside the ranges is yielded',
              pairs=[k for k in got if k[0] not in ca or k[1] not in cb][:3], **info)


def run(unit, ctx):
    mpmath.mp.dps = 40
    if unit[0] == 'indexed_wide':
        return indexed_wide(ctx)
    kind, sa, sb, special = unit
    na, nb = special or (None, None)
    ca, cb = candidates(kind, sa, na), candidates(kind, sb, nb)
    info = {'type': kind, 'range_a': sa, 'range_b': sb, 'special': special}
    kw = {'special_params': tuple(special)} if special else {}
    size = sum(ca.values()) * sum(cb.values())
    for roots in (True, False):
        for exp in (True, False):
            e = TYPES[kind](enum_only_exp_conv=exp, avoid_int_roots=roots, should_gen_contfrac=False, prec=40, **kw)
            gen, bound = e.polys_generator(sa, sb)
            got = Counter((norm(pa), norm(pb)) for pa, pb in gen)
            ctx.step(sum(got.values()) + 1)
            compare(ctx, got, bound, kind, ca, cb, (roots, exp, True), None, **info)
            for k in got:
                ctx.state(k)
            ctx.trace(dict(info, roots=roots, only_exp=exp))
            # the generator can be used again, and two generators of one enumerator do not disturb each other
            if size <= 300:
                g1, _ = e.polys_generator(sa, sb)
                g2, _ = e.polys_generator(sa, sb)
                c1, c2 = Counter(), Counter()
                for x, y in itertools.zip_longest(g1, g2):
                    if x is not None:
                        c1[(norm(x[0]), norm(x[1]))] += 1
                    if y is not None:
                        c2[(norm(y[0]), norm(y[1]))] += 1
                ctx.step(sum(c1.values()) + sum(c2.values()))
                ctx.check(c1 == got and c2 == got, 'repeated or interleaved enumeration differs', **info)
                ctx.trace()
    if size <= 150:
        for depth in (0, 1, 3, 7):
            for avoid in (True, False):
                e = TYPES[kind](num_of_iterations=depth, enum_only_exp_conv=False, avoid_int_roots=False, avoid_zero_b=avoid,
                                should_gen_contfrac=True, prec=40, **kw)
                gen, bound = e.polys_generator(sa, sb)
                got = Counter()
                for cf, pa, pb in gen:
                    pa, pb = norm(pa), norm(pb)
                    got[(pa, pb)] += 1
                    ctx.step()
                    p, q = o.convergents(pa, pb, depth)[-1]
                    r = cf.get_result()
                    ok = o.is_nan(r) if q == 0 else (not o.is_nan(r) and o.close(r, o.Fr(p, q), 20 * o.ulp()))
                    ctx.check(ok and cf.get_num_of_executed_iters() == depth,
                              'the generated fraction is not the pair\'s at the requested depth', a=pa, b=pb, depth=depth,
                              got=str(r), expected='%s/%s' % (p, q), executed=cf.get_num_of_executed_iters(), **info)
                compare(ctx, got, bound, kind, ca, cb, (False, False, avoid), depth, **info)
                ctx.trace()


def indexed_wide(ctx):
    """Single coefficient tuples of higher degrees."""
    e = ep.IndexedParameterEnumPolyParams(should_gen_contfrac=False, avoid_int_roots=False, prec=40)
    for d in list(range(0, 13)) + [18, 25, 31, 33, 40, 60]:
        for c in itertools.product((0, 1), repeat=d + 1) if d <= 5 else [tuple((i * i + 1) % 5 - 2 for i in range(d + 1)),
                                                                        (0,) * d + (1,), (1,) + (0,) * d, (2,) * (d + 1)]:
            r = [[[x, x + 1] for x in c]]
            gen, bound = e.polys_generator(r, [[[1, 2]]])
            got = [norm(pa) for pa, pb in gen]
            ctx.step()
            ctx.state(('wide', c))
            want = [(expansions('indexed', c, None)[0],)]
            ctx.check(got == want and bound >= 1, 'wrong expansion of the indexed polynomial', coeffs=c, got=got, expected=want)
            ctx.trace()
