"""C03: vanishing numerators: first index reported, failed calls leave no damage."""
import copy
import itertools
import mpmath
from mc import oracle as o
from cont_fracs import ContFrac, ZeroB
from checks.c01 import Model, compare

PROPERTY = 'C03'
ASSUMPTIONS = ['zero positions and depths beyond the alphabet behave like those inside it']
SPACE = {
    'quick': 'b vanishing first at every index 0..24 (plain, interlaced 2..4 with the zero in every position, double and multiple zeros, zero '
             'polynomial, non-integer and negative roots), n=0..26 (and at six indices from 999 to 4001) from scratch, and every operation sequence of length <= 3 over '
             '{generate, extend, re-initialise to a good/bad/other fraction} around the failure, logging on/off, avoiding on/off',
    'thorough': 'sequences of length <= 4, first zeros up to 60 and at 101, 250'}

# numerators for the histories, by first vanishing positive index (None: never)
BS = {'z1': [-1, 1], 'z2': [4, -4, 1], 'z3': [0, -3, 1], 'z4': [-64, 0, 0, 1], 'never': [2, 0, 1], 'z0': [0, 1],
      'neg': [2, 1], 'half': [-1, 2], 'il_z3': [[1], [-3, 1]], 'il_skip': [[-3, 1], [5]], 'zero': [0], 'il_zero': [[1], [2], [0]],
      'two': [8, -6, 1], 'far': [-7, 1]}
AS = {'one': [1], 'lin': [3, 2], 'il': [[1, 1], [2]], 'zero0': [0, 1], 'zero3': [-3, 1]}
OPS = ['gen0', 'gen2', 'gen3', 'gen7', 'add1', 'add2', 'add5', 'rein_never', 'rein_z2', 'rein_z4', 'rein_il_zero', 'rein']


def first_zero(b, n0, n1):
    """First index i with n0 < i <= n1 and b_i = 0."""
    for i in range(n0 + 1, n1 + 1):
        if o.term(b, i) == 0:
            return i
    return None


def units(tier):
    deep = tier == 'thorough'
    out = [['hist', a, b, log, avoid, 4 if deep else 3] for a in AS for b in BS for log in (0, 1) for avoid in (1, 0)]
    out += [['first', k] for k in list(range(0, 61 if deep else 25)) + [50, 101] + ([250] if deep else [])]
    out += [['far', k] for k in (999, 1000, 1001, 1999, 2503, 4001)]
    return out


def attempt(ctx, cf, m, kind, n, avoid, info):
    """Runs gen/add and checks raising and the state afterwards."""
    start = 0 if kind == 'gen' else m.n
    z = first_zero(m.b, start, start + n) if avoid else None
    ctx.step()
    try:
        (cf.gen_iterations if kind == 'gen' else cf.add_iterations)(n)
    except ZeroB as e:
        ctx.check(z is not None, 'ZeroB raised though no passed numerator vanishes', error=str(e), **info)
        ctx.check(e.args == (z,), 'ZeroB does not name the first vanishing index', expected=z, got=str(e.args), **info)
        if kind == 'gen':
            m.n, m.fresh = 0, True
        ctx.outcome('ZeroB')
        compare(ctx, cf, m, 'after a failed %s' % kind, **info)
        return
    ctx.check(z is None, 'no ZeroB though b_%s = 0 is passed' % z, **info)
    m.n, m.fresh = start + n, True
    ctx.outcome('finished')
    compare(ctx, cf, m, 'after %s' % kind, **info)


def run(unit, ctx):
    mpmath.mp.dps = 40
    if unit[0] == 'far':
        return far(unit[1], ctx)
    if unit[0] == 'first':
        return first(unit[1], ctx)
    _, an, bn, logging, avoid, depth = unit
    for ops in itertools.product(OPS, repeat=depth):
        a, b = copy.deepcopy(AS[an]), copy.deepcopy(BS[bn])
        cf = ContFrac(a, b, avoid_zero_b=bool(avoid), logging=bool(logging))
        m = Model(AS[an], BS[bn])
        for k, op in enumerate(ops):
            info = {'start': (AS[an], BS[bn]), 'history': ops[:k + 1], 'logging': logging, 'avoid': avoid}
            if op.startswith('rein'):
                if op == 'rein':
                    cf.reinitialize()
                else:
                    nb = o.nested(BS[op[5:]])
                    m.b = nb
                    cf.reinitialize(b_coeffs=copy.deepcopy(nb))
                m.n, m.fresh = 0, True
                ctx.step()
                if k == depth - 1:
                    compare(ctx, cf, m, 'after re-initialisation', **info)
            else:
                attempt(ctx, cf, m, op[:3], int(op[3:]), avoid, info)
            ctx.state((an, str(m.b), m.n, logging, avoid))
        ctx.trace({'start': (AS[an], BS[bn]), 'history': ops, 'logging': logging, 'avoid': avoid})


def variants(k):
    """Numerators whose first positive zero is k (or that have none for k = 0)."""
    yield [-k, 1]
    yield [2 * k, -2]
    yield [k * k, -2 * k, 1]
    yield [-k * (k + 3), 2 * k + 3, -1]
    yield [-k**3, 0, 0, 1]
    yield [0, 0, -k, 1]
    for size in (2, 3, 4):
        polys = [[j + 2] for j in range(size)]
        polys[k % size] = [-k, 1]
        yield polys
        polys = [[j + 2, 0, 1] for j in range(size)]
        polys[(k + 1) % size] = [-k, 1]      # the zero is never reached: another polynomial serves index k
        yield polys
    yield [-2 * k - 1, 2]                   # vanishes at a half
    yield [k, 1]                            # vanishes at -k


def first(k, ctx):
    for b in variants(k):
        for a in ([1], [[2], [0, 1]], [-k, 1], [0]):
            for avoid in (True, False):
                z = first_zero(b, 0, k + 3)
                for n in sorted({0, 1, max(k - 1, 0), k, k + 1, k + 2, k + 3}):
                    cf = ContFrac(copy.deepcopy(a), copy.deepcopy(b), avoid_zero_b=avoid, logging=n % 2 == 1)
                    m = Model(a, b)
                    info = {'a': a, 'b': b, 'n': n, 'avoid': avoid}
                    info = {'start': (a, b), 'steps': n, 'avoid': avoid}
                    attempt(ctx, cf, m, 'gen', n, avoid, info)
                    ctx.state((str(a), str(b), n, avoid))
                    # approach the zero step by step, fail, retry, and re-use the object
                    if n == k + 3:
                        attempt(ctx, cf, m, 'gen', max(k - 1, 0), avoid, info)
                        attempt(ctx, cf, m, 'add', 1, avoid, info)
                        attempt(ctx, cf, m, 'add', 2, avoid, info)
                        attempt(ctx, cf, m, 'add', 1, avoid, info)
                        cf.reinitialize(o.nested([2, 1]), o.nested([3]))
                        m.a, m.b, m.n, m.fresh = [2, 1], [3], 0, True
                        attempt(ctx, cf, m, 'add', 4, avoid, info)
                ctx.trace({'a': a, 'b': b, 'avoid': avoid, 'first zero': z})


def far(k, ctx):
    """Numerators that vanish late."""
    il = [[2], [3], [1]]
    il[k % 3] = [-k, 1]
    for b in ([-k, 1], [k, -1], il):
        for avoid in (True, False):
            for n in (k - 1, k, k + 2):
                a = [1] if n % 2 else [2, 1]
                cf = ContFrac(copy.deepcopy(a), copy.deepcopy(b), avoid_zero_b=avoid)
                m = Model(a, b)
                info = {'start': (a, b), 'steps': n, 'avoid': avoid}
                attempt(ctx, cf, m, 'gen', n, avoid, info)
                ctx.state((str(a), str(b), n, avoid))
                if n < k:
                    attempt(ctx, cf, m, 'add', 3, avoid, info)
                ctx.trace(info)
