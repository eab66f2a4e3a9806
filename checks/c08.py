"""C08: the left-hand side enumerators against a direct enumeration."""
import itertools
from collections import Counter
import mpmath
from mpmath import mpf
from mc import oracle as o
import lhs_evaluators as le

PROPERTY = 'C08'
ASSUMPTIONS = ['target constants are finite binary numbers, so that the reference values are exact']
SPACE = {
    'quick': 'ulcd: every combination of 14 range forms in one position with every form in each other position from a 3-form menu, and '
             'all combinations of 7 forms in the four positions; rational: all pairs of 15 range shapes (1..4 coefficients) x both '
             'degree options; constants incl. ones where polynomials vanish',
    'thorough': 'all combinations of 10 ulcd forms, more rational shapes and constants'}
ULCD = le.LHS_TYPES['ulcd']
RAT = le.LHS_TYPES['rationalfunc']

FORMS = [0, 1, 2, 3, [0, 2], [-2, 3], (1, 3), [-3, 4, 2], [4, -1, -2], (2, 3, 5), range(-1, 2), range(3, 0, -1), [5], [1, -2, 4, 7],
         (0, 3, -5, 6, 2), [], [2, 2]]
MENU = [2, [-1, 3], [7, -4, 3, 1]]
# the target constants, as exact rationals with power of two denominators
CONSTS = [o.Fr(2), o.Fr(-1, 2), o.Fr(3, 4), o.Fr(884279719003555, 2**48), o.Fr(1, 2**70), o.Fr(5 * 2**80)]
SHAPES = [[[0, 1]], [[-1, 2]], [[1, 3], [0, 2]], [[-2, 3], [-1, 2]], [[0, 2], [0, 1], [-1, 2]], [[-1, 2]] * 3, [[0, 2]] * 4,
          [[0, 1], [0, 1], [1, 3]], [[2, 3], [-1, 0], [0, 2], [-1, 1]], [[-3, 4], [1, 2]], [[1, 1], [0, 2]], [[-4, 5], [0, 1], [1, 2]],
          [[0, 1], [0, 2]], [[0, 2], [0, 1]], [[-3, 0], [0, 1], [0, 1], [1, 2], [0, 2]]]


def values_of(form, is_d):
    if isinstance(form, int):
        return list(range(1, form + 1)) if is_d else list(range(-form, form + 1))
    if isinstance(form, (list, tuple)) and len(form) in (2, 3):
        out, x, step = [], form[0], form[2] if len(form) == 3 else 1
        while (x < form[1]) if step > 0 else (x > form[1]):
            out.append(x)
            x += step
        return out
    return list(form)


def units(tier):
    out = []
    n = 10 if tier == 'thorough' else 7
    small = [2, [0, 2], [-2, 3], [-3, 4, 2], 'r', [5], [1, -2, 4, 7], 1, (1, 3), 3][:n]
    for u in small:
        for l in small:
            out.append(['ulcd', u, l, small])
    for pos in range(4):
        for f in range(len(FORMS)):
            out.append(['ulcd_form', pos, f])
    out.append(['ulcd_wide'])
    out.append(['near_zero'])
    for i in range(len(SHAPES)):
        for force in (True, False):
            out.append(['rational', i, force, len(CONSTS) if tier == 'thorough' else 4])
    return out


def ulcd_value(p, x):
    u, l, c, d = p
    return (o.Fr(u) / x + x / l + c) / d, (abs(u / x) + abs(x / l) + abs(c)) / abs(d)


def check_ulcd(ctx, forms, const):
    x = o.fr_mpf(const)
    want = Counter(p for p in itertools.product(*[values_of(f, k == 3) for k, f in enumerate(forms)])
                   if p[1] != 0 and p[3] != 0 and abs(p[2]) < abs(p[3]))
    enum = ULCD['enum'](list(forms), x)
    got = Counter()
    info = {'ranges': [str(f) for f in forms], 'constant': str(const)}
    for obj in enum.generator():
        p = tuple(obj.get_params())
        got[p] += 1
        ctx.step()
        if got[p] > 1 or p not in want:
            ctx.fail('a (u,l,c,d) is enumerated twice or outside the ranges', params=p, **info)
        v, scale = ulcd_value(p, const)
        ctx.check(o.close(obj.get_val(), v, 0, 10 * o.ulp() * scale), 'the value is not (u/x+x/l+c)/d', params=p,
                  got=str(obj.get_val()), expected=str(v), **info)
        ctx.check(isinstance(obj, ULCD['eval']), 'wrong kind of object', **info)
        ctx.check(obj.get_target_const() == x, 'wrong constant', **info)
        ctx.state((p, const))
    ctx.check(got == want, 'the enumerated (u,l,c,d) differ from the product of the ranges',
              missing=[p for p in want if p not in got][:3], **info)
    ctx.check(len(enum) >= sum(got.values()), 'the announced length is too small', announced=len(enum),
              yielded=sum(got.values()), **info)
    ctx.outcome('empty' if not want else 'some')
    # a second enumeration of the same object gives the same
    if len(want) <= 60:
        again = Counter(tuple(obj.get_params()) for obj in enum.generator())
        ctx.check(again == want, 'a second enumeration differs', **info)
    ctx.trace(info)


def check_rational(ctx, num, den, force, const):
    x = o.fr_mpf(const)
    want = Counter()
    for p in itertools.product(*[range(*r) for r in num]):
        for q in itertools.product(*[range(*r) for r in den]):
            if not any(p) or not any(q):
                continue
            dp, dq = o.poly_deg(p), o.poly_deg(q)
            if dp < 1 and dq < 1:
                continue
            if force and dp < dq:
                continue
            if o.horner(p, const) == 0 or o.horner(q, const) == 0:
                ctx.outcome('zero-valued')
                continue
            want[(p, q)] += 1
    enum = RAT['enum']([num, den, force], x)
    got = Counter()
    info = {'numerator': num, 'denominator': den, 'force': force, 'constant': str(const)}
    keep = []
    for obj in enum.generator():
        p, q, n = obj.get_params()
        key = (tuple(p), tuple(q))
        got[key] += 1
        ctx.step()
        if got[key] > 1 or key not in want or n != 0:
            ctx.fail('a rational function is enumerated twice or outside the ranges', params=(p, q, n), **info)
        vp, vq = o.horner(p, const), o.horner(q, const)
        sp, sq = o.horner([abs(c) for c in p], abs(const)), o.horner([abs(c) for c in q], abs(const))
        rel = 10 * o.ulp() * (sp / abs(vp) + sq / abs(vq))
        ctx.check(rel > o.Fr(1, 100) or o.close(obj.get_val(), vp / vq, rel), 'the value is not p(x)/q(x)', params=(p, q),
                  got=str(obj.get_val()), expected=str(vp / vq), **info)
        ctx.state((key, const))
        keep.append((obj, key))
    ctx.check(got == want, 'the enumerated rational functions differ from the ranges',
              missing=[p for p in want if p not in got][:3], extra=[p for p in got if p not in want][:3], **info)
    ctx.check(len(enum) >= sum(got.values()), 'the announced length is too small', announced=len(enum),
              yielded=sum(got.values()), **info)
    for obj, key in keep[::7]:
        p, q, n = obj.get_params()
        ctx.check((tuple(p), tuple(q)) == key, 'a yielded object changed later', **info)
    ctx.outcome('empty' if not want else 'some')
    ctx.trace(info)


def run(unit, ctx):
    mpmath.mp.dps = 50
    if unit[0] == 'ulcd':
        small = [range(-1, 3) if f == 'r' else f for f in unit[3]]
        u, l = [range(-1, 3) if f == 'r' else f for f in unit[1:3]]
        for k, (c, d) in enumerate(itertools.product(small, repeat=2)):
            check_ulcd(ctx, (u, l, c, d), CONSTS[k % len(CONSTS)])
    elif unit[0] == 'ulcd_wide':
        # c close to d, for great d
        for d in (100, 101, 256, 1001, 10**6):
            for forms in (((1, 2), (1, 2), (d - 2, d + 2), (d - 1, d + 2)), ([0, 1], [-3, -2], [-d - 1, 2 - d], [-d, -d + 2]),
                          ([d, d + 2], [d, d + 2], [0, 1], [d, d + 1])):
                for const in CONSTS[:4]:
                    check_ulcd(ctx, forms, const)
    elif unit[0] == 'near_zero':
        # numerators and denominators that nearly vanish at the constant, and those that do
        for const in CONSTS:
            for q in (1, 7, 113, 10**6, 10**12, 10**25):
                p = round(q * const)
                for num, den in (([[-p - 1, -p + 2], [q, q + 1]], [[1, 3], [0, 2]]), ([[1, 3], [0, 2]], [[-p - 1, -p + 2], [q, q + 1]])):
                    for force in (True, False):
                        check_rational(ctx, num, den, force, const)
    elif unit[0] == 'ulcd_form':
        _, pos, f = unit
        for k, others in enumerate(itertools.product(MENU, repeat=3)):
            forms = list(others)
            forms.insert(pos, FORMS[f])
            check_ulcd(ctx, forms, CONSTS[k % len(CONSTS)])
    else:
        _, i, force, n = unit
        for j in range(len(SHAPES)):
            for const in CONSTS[:n]:
                check_rational(ctx, SHAPES[i], SHAPES[j], force, const)
