"""C11: all build histories of the hashtable against a brute-force enumeration with exact continued fractions."""
import itertools
from collections import Counter
import dill
import mpmath
from mc import oracle as o
from mc import pool
from checks import c04
import enum_poly_params as ep
import postprocfuncs as pp

PROPERTY = 'C11'
ASSUMPTIONS = ['a candidate whose evaluation passes an exactly zero tail, or whose continued fraction is exactly zero, may be stored or '
               'skipped', 'digits within the rounding error of a digit boundary are not compared', 'C04 and C05 decide the enumeration itself']
SPACE = {
    'quick': 'single builds: 13 a-shapes (coefficients up to 10^24) x 9 b-shapes x 3 function sets (together all 24 functions; for 4 pairs of shapes all of them at once) x depths 2,7,12 x accuracies 4,12; the same shapes where integer differences are not ignored; histories: every '
             'sequence of <= 3 steps over 6 builds (overlapping ranges, other functions, other enumerator) with and '
             'without a serialisation round trip after each step, and with a change of accuracy at every position (lower and higher); sequences of <= 2 steps, and rebuilds after another step, at accuracies 1 and 2 (many entries per key)',
    'thorough': 'sequences of <= 4 steps, more shapes and all functions at all depths'}
TYPES = c04.TYPES
A_SHAPES = [[[[1, 4]]], [[[0, 3], [1, 3]]], [[[-2, 2], [0, 2]]], [[[1, 3]], [[2, 4]]], [[[0, 2], [0, 2], [0, 2]]], [[[-3, 0]]],
            [[[1, 2], [0, 2]], [[1, 3], [1, 2]]], [[[5, 7], [-1, 2]]], [[[1, 2]], [[0, 2]], [[2, 3]]], [[[0, 1], [0, 1], [1, 3]]],
            [[[10**7, 10**7 + 2]]], [[[-10**12 - 3, -10**12], [0, 2]]],
            [[[10**24, 10**24 + 2]]]]
B_SHAPES = [[[[1, 4]]], [[[-3, 0]]], [[[0, 2], [1, 3]]], [[[1, 2], [0, 2], [0, 2]]], [[[1, 3]], [[-1, 2]]], [[[-2, 3]]],
            [[[1, 2], [1, 3]], [[2, 3], [0, 1]]], [[[-3, 1], [1, 2]]], [[[0, 1], [0, 1], [-2, 3]]]]
FUNC_SETS = [[0], [1, 0, 2, 3, 4, 5, 6, 7, 8, 9], [10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23], list(range(23, -1, -1))]
# the steps of the histories: type, special parameters, range a, range b, functions
STEPS = [('normal', None, [[[1, 3], [0, 2]]], [[[1, 3]]], [0, 1]),
         ('normal', None, [[[2, 4], [1, 2]]], [[[1, 3]]], [0]),
         ('normal', None, [[[1, 3], [0, 2]]], [[[2, 4]]], [1, 0, 2]),
         ('normal', None, [[[1, 3], [0, 2]]], [[[1, 3]]], [2, 12]),
         ('sparse', [3, 1], [[[1, 3], [1, 2]]], [[[2, 3]]], [0, 1]),
         ('indexed', None, [[[0, 2], [0, 2]]], [[[1, 3]]], [0]),
         ('normal', None, [[[1, 2]], [[1, 3]]], [[[1, 2]], [[1, 3]]], [0, 1])]


def units(tier):
    deep = tier == 'thorough'
    out = []
    for i in range(len(A_SHAPES)):
        for j in range(len(B_SHAPES)):
            for f in range(len(FUNC_SETS)):
                if f == 3 and (i, j) not in ((0, 3), (3, 0), (6, 4), (2, 5)):
                    continue
                if i >= 10 and f == 2:
                    # the exponentials of big numbers
                    continue
                out.append(['single', i, j, f, (2, 3, 7, 12, 30) if deep else ((12, 12), (7, 4), (2, 7))[(i + j + f) % 3]])
    for i in range(len(A_SHAPES)):
        for j in range(len(B_SHAPES)):
            out.append(['full', i, j, (i + j) % 2])
    for base in (1, 2):
        for k in (1, 2, 3):
            for seq in itertools.product(range(len(STEPS)), repeat=k):
                if k < 3 or seq[0] == seq[2] and (deep or seq[0] < 4):
                    out.append(['crowded', list(seq), base])
    n = 4 if deep else 3
    for k in range(1, n + 1):
        for seq in itertools.product(range(len(STEPS)), repeat=k):
            if k < 4 or len(set(seq)) >= 3:
                out.append(['history', list(seq)])
    return out


def compatible(s1, s2):
    return True


_expected = {}


def expected(kind, special, ra, rb, funcs, terms):
    """{((pa, pb), function): (value, error) | 'open'} of one build; pairs that must be left out are absent."""
    key = str((kind, special, ra, rb, funcs, terms))
    if key in _expected:
        return _expected[key]
    na, nb = special or (None, None)
    out = {}
    for pa in c04.candidates(kind, ra, na):
        for pb in c04.candidates(kind, rb, nb):
            if c04.must_drop(pb):
                continue
            open_ = c04.may_drop(pb)
            s = c04.slow(pa, pb)
            if s is True:
                continue
            open_ = open_ or s is None
            for f in funcs:
                v = pool.candidate_value(pa, pb, terms, f)
                if v is None:
                    continue
                if open_ and v != 'open':
                    v = 'open', v
                out[((pa, pb), f)] = v
    _expected[key] = out
    return out


def contents(m):
    """Counter of all the entries of the table."""
    got = Counter()
    for k, v in m.dec_hashtable.items():
        if k == 'parameters':
            continue
        for ab, f in v:
            got[((c04.norm(ab[0]), c04.norm(ab[1])), f)] += 1
    return got


def compare(ctx, m, want, **info):
    got = contents(m)
    for k, n in got.items():
        ctx.check(k in want, 'the table has an entry that is no candidate', entry=k, **info)
        ctx.check(n == 1, 'an entry is in the table more than once', entry=k, times=n, **info)
    for k, v in want.items():
        ctx.step()
        if v == 'open' or v[0] == 'open':
            ctx.skip('evaluation passes a zero tail, or root screening is open')
            if v == 'open' or k not in got:
                continue
            v = v[1]
        ctx.check(k in got, 'a candidate is not in the table', entry=k, value=mpmath.nstr(o.fr_mpf(v[0]), 20), **info)
        y, err = v
        acc = max(m.accs)
        if o.frac_digits(y, acc + 1, err) is None:
            ctx.skip('digits at the rounding boundary')
            continue
        y = abs(y)
        key = o.fr_mpf(y - y // 1)
        found = m.dec_hashtable[key] if key in m.dec_hashtable else []
        ctx.check(any((c04.norm(ab[0]), c04.norm(ab[1])) == k[0] and f == k[1] for ab, f in found),
                  'a candidate is not found under its digits', entry=k, value=mpmath.nstr(key, 20),
                  found=found[:3], **info)
    return got


def full(ctx, i, j, f):
    """Integer differences are not ignored: the whole value is the key."""
    ra, rb, funcs = A_SHAPES[i], B_SHAPES[j], FUNC_SETS[f]
    for depth, acc in ((9, 3), (6, 12)):
        m = pool.mitm(mpmath.mpf(2), funcs, hashtable_prec=acc, num_of_iterations=depth, prec=50, trunc_integer=False)
        m.build_hashtable(ra, rb)
        info = {'range_a': ra, 'range_b': rb, 'functions': funcs, 'depth': depth, 'accuracy': acc, 'integer parts': 'kept'}
        got = contents(m)
        want = expected('normal', None, ra, rb, funcs, depth)
        groups = {}
        for k, n in got.items():
            ctx.check(k in want, 'the table has an entry that is no candidate', entry=k, **info)
            ctx.check(n == 1, 'an entry is in the table more than once', entry=k, times=n, **info)
        for k, v in want.items():
            ctx.step()
            if v == 'open' or v[0] == 'open':
                ctx.skip('evaluation passes a zero tail, or root screening is open')
                continue
            ctx.check(k in got, 'a candidate is not in the table', entry=k, value=mpmath.nstr(o.fr_mpf(v[0]), 20), **info)
            d = pool.full_digits(v[0], acc, v[1])
            if d is None:
                ctx.skip('digits at the rounding boundary, or a long integer part')
                continue
            groups.setdefault(d, []).append((k, v[0]))
        for d, g in groups.items():
            key = o.fr_mpf(abs(g[0][1]))
            found = m.dec_hashtable[key] if key in m.dec_hashtable else []
            found = {((c04.norm(ab[0]), c04.norm(ab[1])), f) for ab, f in found}
            for k, y in g:
                ctx.check(k in found, 'a candidate is not found under its digits', entry=k, value=mpmath.nstr(key, 20), **info)
            for k in found:
                v = want[k]
                if v == 'open' or v[0] == 'open' or pool.full_digits(v[0], acc, v[1]) is None:
                    continue
                ctx.check(pool.full_digits(v[0], acc, v[1]) == d, 'a candidate is found under wrong digits', entry=k,
                          value=mpmath.nstr(key, 20), **info)
        ctx.state((i, j, f, depth, 'full'))
        ctx.trace(info)


def same_keys(ctx, m, want, **info):
    """Numbers that agree through the accuracy, and only these, share their entries (one accuracy)."""
    acc = m.accs[-1]
    groups = {}
    for k, v in want.items():
        if v == 'open' or v[0] == 'open':
            return
        d = o.frac_digits(v[0], acc, v[1])
        if d is None or o.frac_digits(v[0], acc + 3, v[1]) is None:
            return
        groups.setdefault(d, set()).add(k)
    for d, g in groups.items():
        k = next(iter(g))
        y = abs(want[k][0])
        found = m.dec_hashtable[o.fr_mpf(y - y // 1)]
        ctx.check({((c04.norm(ab[0]), c04.norm(ab[1])), f) for ab, f in found} == g, 'the entries under some digits are wrong',
                  digits=d, through=acc, **info)


def settings(m, step, acc):
    kind, special, ra, rb, funcs = STEPS[step]
    value = mpmath.mpf(2)
    m.redefine_settings(target_generator=lambda: value, target_name='two', postproc_funcs_filter=funcs, hashtable_prec=acc,
                        ab_poly_class=TYPES[kind], ab_poly_special_params=special, prec=50)


def new(step, acc, depth):
    kind, special, ra, rb, funcs = STEPS[step]
    m = pool.mitm(mpmath.mpf(2), funcs, hashtable_prec=acc, ab_poly_class=TYPES[kind], ab_poly_special_params=special,
                  num_of_iterations=depth, prec=50)
    m.accs = [acc]
    return m


def run(unit, ctx):
    mpmath.mp.dps = 50
    if unit[0] == 'full':
        return full(ctx, *unit[1:])
    if unit[0] == 'single':
        _, i, j, f, depths = unit
        if len(depths) == 2:
            cases = [tuple(depths)]
        else:
            cases = [(d, acc) for d in depths for acc in (3, 8, 15)]
        for depth, acc in cases:
            ra, rb, funcs = A_SHAPES[i], B_SHAPES[j], FUNC_SETS[f]
            m = pool.mitm(mpmath.mpf(2), funcs, hashtable_prec=acc, num_of_iterations=depth, prec=50)
            m.accs = [acc]
            m.build_hashtable(ra, rb)
            want = expected('normal', None, ra, rb, funcs, depth)
            info = {'range_a': ra, 'range_b': rb, 'functions': funcs, 'depth': depth, 'accuracy': acc}
            got = compare(ctx, m, want, **info)
            same_keys(ctx, m, want, **info)
            ctx.state((i, j, f, depth, acc))
            ctx.outcome('entries' if got else 'empty')
            ctx.trace(info)
        return
    seq = unit[1]
    depth = 8
    base = 9 if unit[0] == 'history' else unit[2]
    # where the accuracy changes: nowhere, or at one step, to a lower or a higher one
    # crowded: many entries under the same digits
    variants = [(None, None)] + [(k, acc) for k in range(1, len(seq)) for acc in ((3, 14) if unit[0] == 'history' else ())]
    for change, acc2 in variants:
        for pickled in (False, True):
            m = new(seq[0], base, depth)
            want = {}
            acc = base
            for k, s in enumerate(seq):
                kind, special, ra, rb, funcs = STEPS[s]
                if k:
                    if change == k:
                        acc = acc2
                        m.accs.append(acc)
                    if change == k or STEPS[s][:2] != STEPS[seq[k - 1]][:2] or funcs != STEPS[seq[k - 1]][4]:
                        if change is None:
                            # the accuracy is updated to the same one
                            settings(m, s, base)
                        else:
                            settings(m, s, acc)
                m.build_hashtable(ra, rb, **({} if k % 2 else {'validate_entry_doesnt_exist': bool(change or base == 2)}))
                for key, v in expected(kind, special, ra, rb, funcs, depth).items():
                    want[key] = v
                if pickled:
                    accs = m.accs
                    m = dill.loads(dill.dumps(m, protocol=dill.HIGHEST_PROTOCOL))
                    m.accs = accs
            info = {'history': [STEPS[s] for s in seq], 'accuracies': m.accs, 'changed at step': change, 'serialised': pickled}
            got = compare(ctx, m, want, **info)
            if change is None:
                same_keys(ctx, m, want, **info)
            ctx.state((tuple(sorted(got)), change, acc2))
            ctx.trace(info)
