"""C09: all histories of transformations of left-hand side objects against exact rational values."""
import copy
import itertools
import math
import mpmath
from mpmath import mpf
from mc import oracle as o
import lhs_evaluators as le

PROPERTY = 'C09'
ASSUMPTIONS = ['target constants are binary rationals, reference values are exact', 'the ulcd degeneracy test is only required not to change '
               'the object and to be stable']
SPACE = {
    'quick': 'every operation sequence of length <= 3 (rational) / 5 (ulcd) over {flip, add -3,0,2, canonicalise, degeneracy, latex, '
             'copy and go on with either object} x parameter alphabets (all numerators/denominators with coefficients of a box for '
             'length 2) x constants; functions plus 1 and -2 have the same canonical fraction',
    'thorough': 'length <= 4 / 6'}
ULCD = le.LHS_TYPES['ulcd']['eval']
RAT = le.LHS_TYPES['rationalfunc']['eval']
CONSTS = [o.Fr(884279719003555, 2**48), o.Fr(-5, 4), o.Fr(3)]
OPS = ['flip', 'add-3', 'add0', 'add2', 'canon', 'degen', 'latex', 'copy', 'copy_back']
ULCD_PARAMS = [(0, 1, 0, 1), (1, -1, 0, 1), (2, 3, -1, 4), (-3, -2, 2, 5), (1, 1, 0, -2), (0, -4, 1, 3), (5, 2, -6, 7), (-1, 1, 1, 2),
               (4, -3, 0, -1)]
RAT_PARAMS = [((0, 1), (1,), 0), ((1, 2), (2, 4), 0), ((1, 0, -1), (1, 1), 3), ((0, 0, 2), (0, 4), -1), ((3, 5), (1, 2), 0),
              ((-7, 2, 6), (1, 2), 2), ((0, 0), (1, 1), 1), ((2, -3), (0, 1, 0), 0), ((6, 4), (-3, -2), 0), ((5,), (1, -1, 2), -4),
              ((1, 3, 3, 1), (1, 2, 1), 0), ((-1, -1), (2, 0, 1), 0), ((0, 6, 0, 9), (3, 0), 5), ((7, 0, 0), (-2, 0), 1),
              ([1, 1, 1], [2, 2, 2], 0), ((-5, 3), (2, -7), 0), ((10, -4), (-4,), -1), ((1, -1, 2, 3), (0, -1, 1, 1), 0),
              ((1, 10**28), (10**28,), 0), ((-3, 0, 10**19 + 1), (10**19, 7), 2)]
# quotients of degree 1 and 2 with a fractional free coefficient
SHIFTED = [((1, 1), (2,)), ((1, 3, 2), (2,)), ((-1, 2, 4), (4,)), ((1, 1, 1), (2, 2)), ((2, -1, 3, 5), (3, 3)), ((-5, 0, 2), (3,)),
           ((7, 1, 1, 1), (4, 0, 2)), ((1, 2), (3,)), ((-1, 1), (3,)), ((1, 0, 0, 1), (2, 0, 0, 5))]


def units(tier):
    deep = tier == 'thorough'
    out = [['hist', 'rat', i, c, 4 if deep else 3] for i in range(len(RAT_PARAMS)) for c in range(len(CONSTS))]
    out += [['hist', 'ulcd', i, c, 5 if deep else 4] for i in range(len(ULCD_PARAMS)) for c in range(len(CONSTS))]
    out += [['box', c] for c in range(-2, 3)] + [['shifted', c] for c in range(len(CONSTS))]
    return out


def formula(kind, params, x):
    """Exact value of the formula that the parameters denote, and its conditioning scale. None if undefined."""
    if kind == 'ulcd':
        u, l, c, d = params
        return (o.Fr(u) / x + x / l + c) / d, (abs(u / x) + abs(x / l) + abs(c)) / abs(d)
    p, q, n = params
    vq = o.horner(q, x)
    if vq == 0:
        return None, None
    vp = o.horner(p, x)
    sp, sq = o.horner([abs(c) for c in p], abs(x)), o.horner([abs(c) for c in q], abs(x))
    return vp / vq + n, sp / abs(vq) + abs(vp / vq) * sq / abs(vq) + abs(n)


def degenerate(p, q):
    """The function p/q does not depend on the constant."""
    p, q = o.poly_trim(p), o.poly_trim(q)
    return not p or (len(p) == len(q) and all(x * q[-1] == y * p[-1] for x, y in zip(p, q)))


def check(ctx, kind, obj, expected, x, what, **info):
    v, scale = formula(kind, obj.get_params(), x)
    ctx.check(v is not None, 'the parameters denote no value ' + what, params=obj.get_params(), **info)
    ctx.check(v == expected, 'the parameters denote another value ' + what, params=obj.get_params(), expected=str(expected),
              got=str(v), **info)
    ctx.check(o.close(obj.get_val(), v, 0, 20 * o.ulp() * scale), 'the reported value is not that of the parameters ' + what,
              params=obj.get_params(), expected=str(v), got=str(obj.get_val()), **info)


def canonical(ctx, obj, **info):
    p, q, n = obj.get_params()
    g = o.poly_gcd(p, q)
    ctx.check(len(g) <= 1 or not o.poly_trim(p), 'canonical form is not reduced', params=(p, q, n), **info)
    content = 0
    for c in list(p) + list(q):
        content = math.gcd(content, int(c))
    ctx.check(content == 1, 'canonical form has a common factor', params=(p, q, n), **info)
    quo, rem = o.poly_divmod(p, q)
    free = quo[0] if quo else 0
    ctx.check(-1 < free < 1, 'the integer part was not moved to the added integer', params=(p, q, n), **info)
    obj.canonalize_params()
    again = obj.get_params()
    ctx.check([list(again[0]), list(again[1]), again[2]] == [list(p), list(q), n], 'canonical form is not stable', before=(p, q, n),
              after=again, **info)


def step(ctx, kind, objs, vals, op, x, history):
    """Applies op to the current object (last of objs)."""
    obj = objs[-1]
    info = {'lhs': kind, 'history': history, 'constant': str(x)}
    ctx.step()
    if op == 'flip':
        obj.flip_sign()
        vals[-1] = -vals[-1]
    elif op.startswith('add'):
        obj.add_int(int(op[3:]))
        vals[-1] += int(op[3:])
    elif op == 'canon':
        obj.canonalize_params()
        check(ctx, kind, obj, vals[-1], x, 'after canonicalisation', **info)
        if kind == 'rat':
            canonical(ctx, obj, **info)
    elif op == 'degen':
        r = obj.is_degenerate()
        if kind == 'rat':
            p, q, n = obj.get_params()
            ctx.check(bool(r) == degenerate(p, q), 'is_degenerate is wrong', params=(p, q, n), got=r, **info)
        ctx.check(bool(obj.is_degenerate()) == bool(r), 'is_degenerate is not stable', **info)
        ctx.outcome('degenerate' if r else 'not degenerate')
    elif op == 'latex':
        e1, e2 = obj.get_latex_exp('x'), obj.get_latex_exp('x')
        ctx.check(e1 == e2 and isinstance(e1, str) and e1, 'the latex expression is not stable', first=e1, second=e2, **info)
    else:
        objs.append(type(obj)(obj))
        vals.append(vals[-1])
        ctx.check(objs[-1] is not obj and objs[-1].get_target_const() == obj.get_target_const(), 'not a copy', **info)
        if op == 'copy_back':
            # go on with the original
            objs[-1], objs[-2] = objs[-2], objs[-1]


def run(unit, ctx):
    mpmath.mp.dps = 50
    if unit[0] == 'box':
        return box(unit[1], ctx)
    if unit[0] == 'shifted':
        for p, q in SHIFTED:
            for s in (1, -1):
                obj = RAT((tuple(s * c for c in p), q, 0), o.fr_mpf(CONSTS[unit[1]]))
                obj.canonalize_params()
                canonical(ctx, obj, start=(p, q))
                shifted(ctx, tuple(s * c for c in p), q, CONSTS[unit[1]], obj)
                ctx.state((p, q, s))
                ctx.trace()
        return
    _, kind, i, c, depth = unit
    x = CONSTS[c]
    cls, params = (RAT, RAT_PARAMS[i]) if kind == 'rat' else (ULCD, ULCD_PARAMS[i])
    v0, _ = formula(kind, params, x)
    if v0 is None:
        ctx.skip('undefined at the constant')
        return
    for length in range(0, depth + 1):
        for ops in itertools.product(OPS, repeat=length):
            if length == depth and kind == 'ulcd' and 'latex' in ops[:-1]:
                continue
            given = copy.deepcopy(params)
            objs, vals = [cls(given, o.fr_mpf(x))], [v0]
            for k, op in enumerate(ops):
                step(ctx, kind, objs, vals, op, x, (params,) + ops[:k + 1])
            ctx.check(given == params, 'the given parameters were changed', before=params, after=given, history=ops)
            for obj, v in zip(objs, vals):
                check(ctx, kind, obj, v, x, 'after a history', lhs=kind, start=params, history=ops, constant=str(x))
            ctx.state((kind, i, c, tuple(map(repr, vals)), len(objs)))
            ctx.trace({'kind': kind, 'start': params, 'history': ops} if length == depth else None)


def shifted(ctx, p, q, x, obj):
    """A function and the function plus an integer have the same canonical fraction."""
    (num, den, n) = obj.get_params()
    for k in (1, -2):
        width = max(len(p), len(q))
        moved = [(p[i] if i < len(p) else 0) + k * (q[i] if i < len(q) else 0) for i in range(width)]
        if not any(moved):
            continue
        other = RAT((tuple(moved), q, 0), o.fr_mpf(x))
        other.canonalize_params()
        num2, den2, n2 = other.get_params()
        ctx.step()
        ctx.check(o.poly_trim(o.poly_mul(num, den2)) == o.poly_trim(o.poly_mul(num2, den)) and n2 == n + k,
                  'a function and the function plus an integer have different canonical forms', start=(p, q), plus=k,
                  canonical=(num, den, n), other=(num2, den2, n2))


def box(c0, ctx):
    """All small rational functions: value, canonical form, degeneracy, flip and addition."""
    x = CONSTS[0]
    for p1, p2, q0, q1 in itertools.product(range(-2, 3), range(-1, 3), range(-2, 3), range(-2, 3)):
        for p, q in (((c0, p1, p2), (q0, q1)), ((c0, p1), (q0, p2, q1))):
            if o.horner(q, x) == 0:
                continue
            v, _ = formula('rat', (p, q, 0), x)
            obj = RAT((p, q, 0), o.fr_mpf(x))
            info = {'start': (p, q)}
            check(ctx, 'rat', obj, v, x, 'when constructed', **info)
            ctx.check(bool(obj.is_degenerate()) == degenerate(p, q), 'is_degenerate is wrong', **info)
            check(ctx, 'rat', obj, v, x, 'after the degeneracy test', **info)
            obj = RAT((p, q, 0), o.fr_mpf(x))
            if any(p):
                obj.canonalize_params()
                check(ctx, 'rat', obj, v, x, 'after canonicalisation', **info)
                canonical(ctx, obj, **info)
                shifted(ctx, p, q, x, obj)
            obj.flip_sign()
            obj.add_int(1)
            obj.canonalize_params()
            check(ctx, 'rat', obj, 1 - v, x, 'after flip, addition and canonicalisation', **info)
            ctx.step(6)
            ctx.state((p, q))
            ctx.trace()
