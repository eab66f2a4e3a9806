"""C12: the meet-in-the-middle search against a brute-force double loop with exact values."""
import itertools
from collections import Counter
import mpmath
from mc import oracle as o
from mc import pool
from checks import c04, c08, c11

PROPERTY = 'C12'
ASSUMPTIONS = ['matches that depend on a digit within rounding error of a digit boundary are not compared',
               'which ulcd are degenerate is what the object itself reports; unreduced equal rational functions are counted, not told apart']
SPACE = {
    'quick': '11 tables (normal, sparse, indexed, interlaced, function sets, near integers) x accuracies 1,2,3,7 x 7 target constants x 7 left-hand '
             'side ranges of both kinds; then all sequences of two searches (other ranges in between), independence of the '
             'reported objects and the table unchanged; searches that do not ignore integer differences; and searches with one table after '
             'changes of the constant and of the working precision',
    'thorough': 'more tables, accuracies 1..8,15 and sequences of three searches'}
TABLES = [('normal', None, [[[1, 4]]], [[[1, 3]]], [0, 1], 90),
          ('normal', None, [[[1, 3], [0, 2]]], [[[-2, 0], [1, 3]]], [0, 2, 4], 30),
          ('normal', None, [[[-3, 3]]], [[[1, 2], [0, 2]]], [0, 1, 10, 11], 30),
          ('sparse', [2, 3], [[[1, 3]]], [[[1, 3]]], [0], 30),
          ('indexed', None, [[[0, 2], [1, 2]]], [[[1, 3]]], [0, 3], 30),
          ('normal', None, [[[1, 3]], [[1, 3]]], [[[1, 2]]], [0, 1], 60),
          ('normal', None, [[[2, 4]]], [[[-1, 0]], [[1, 2]]], [6, 7, 8, 9], 60),
          ('normal', None, [[[1, 3], [0, 2]]], [[[1, 2]]], [12, 13, 14, 15, 16, 17], 30),
          ('normal', None, [[[1, 3], [0, 2]]], [[[1, 2]]], [18, 19, 20, 21, 22, 23], 30),
          ('normal', None, [[[3, 4], [2, 3]]], [[[0, 1], [0, 1], [-1, 0]]], list(range(24)), 40),
          # values next to integers
          ('normal', None, [[[-2, 0]], [[10**30, 10**30 + 2]]], [[[1, 3]]], [0, 1, 2], 20)]
# golden ratio, -sqrt(2), sqrt(3)/2, something, a rational with short expansion, a big one
CONSTS = [o.Fr(7540113804746346429, 4660046610375530309), -o.Fr(1855077841, 1311738121), o.Fr(70226, 81090), o.Fr(884279719003555, 2**48),
          o.Fr(5, 8), o.Fr(10**12 + 39, 2**7), 2 - o.Fr(1, 2**100)]
LHS = [('ulcd', [2, 2, 1, 2]), ('ulcd', [[-1, 2], [-3, 4, 2], [0], [1, 4]]), ('ulcd', [0, [1, 2], 0, 1]),
       ('rationalfunc', [[[-1, 2], [0, 2]], [[1, 3]], True]), ('rationalfunc', [[[0, 2], [-1, 2]], [[-1, 2], [0, 2]], False]),
       ('rationalfunc', [[[0, 3], [1, 3]], [[1, 2], [0, 1], [0, 2]], False]), ('rationalfunc', [[[1, 4]], [[0, 2], [1, 2]], False])]


def units(tier):
    deep = tier == 'thorough'
    out = []
    for t in range(len(TABLES)):
        for c in range(len(CONSTS)):
            for acc in ((1, 2, 3, 4, 5, 6, 8, 15) if deep else (1, 2, 3, 7)):
                out.append([t, c, acc, 3 if deep and acc == 2 else 2])
    for t in range(len(TABLES)):
        for c in range(len(CONSTS)):
            out.append([t, c, 2, 'full'])
            out.append([t, c, (1, 3)[(c + t) % 2], 'retarget'])
    return out


def enumerated(kind, params, x):
    """The left-hand side parameters that are enumerated (the specification of C08)."""
    if kind == 'ulcd':
        return [p for p in itertools.product(*[c08.values_of(f, k == 3) for k, f in enumerate(params)])
                if p[1] != 0 and p[3] != 0 and abs(p[2]) < abs(p[3])]
    num, den, force = params
    out = []
    for p in itertools.product(*[range(*r) for r in num]):
        for q in itertools.product(*[range(*r) for r in den]):
            dp, dq = o.poly_deg(p), o.poly_deg(q)
            if dp < 0 or dq < 0 or dp < 1 and dq < 1 or force and dp < dq:
                continue
            if o.horner(p, x) == 0 or o.horner(q, x) == 0:
                continue
            out.append((p, q, 0))
    return out


def degenerate(kind, params, x):
    if kind == 'ulcd':
        return bool(pool.make_lhs(kind, params, o.fr_mpf(x)).is_degenerate())
    p, q = pool.lhs_fraction(kind, params)
    return len(p) <= 1 and len(q) <= 1


def digit_set(y, acc, err):
    """All the values that the first digits may have."""
    s = 10**acc
    y = abs(y)
    lo, hi = int((y - err) * s // 1), int((y + err) * s // 1)
    return {d % s for d in range(lo, hi + 1)} if hi - lo < 10 else None


def entry(r):
    ab, lhs, f, conv = r
    kind = 'ulcd' if isinstance(lhs, pool.ULCD['eval']) else 'rationalfunc'
    return ((c04.norm(ab[0]), c04.norm(ab[1])), kind, pool.lhs_fraction(kind, lhs.get_params()), f)


def snapshot(m):
    return {k: [((c04.norm(ab[0]), c04.norm(ab[1])), f) for ab, f in v] for k, v in m.dec_hashtable.items()}


def run(unit, ctx):
    t, c, acc, seqlen = unit
    mpmath.mp.dps = 50
    if seqlen == 'retarget':
        return retarget(ctx, t, c, acc)
    full = seqlen == 'full'
    if full:
        seqlen = 1
    x = CONSTS[c]
    xm = o.fr_mpf(x)
    # the constant that the code sees is the mpf
    x = o.mpf_fr(xm)
    kind, special, ra, rb, funcs, depth = TABLES[t]
    m = pool.mitm(xm, funcs, hashtable_prec=acc, ab_poly_class=c11.TYPES[kind], ab_poly_special_params=special,
                  num_of_iterations=depth, prec=50, trunc_integer=not full)
    m.accs = [acc]
    m.build_hashtable(ra, rb)
    table = c11.expected(kind, special, ra, rb, funcs, depth)
    stored = c11.contents(m)
    before = snapshot(m)
    cands = []
    for k, v in table.items():
        if v == 'open' or v[0] == 'open':
            if k in stored:
                cands.append((k, None))
        else:
            cands.append((k, digit_set(v[0], acc, v[1])))
    if full:
        # integer differences count: 'full' digits, None where the integer part fills the accuracy
        cands = [(k, full_set(table[k], acc)) for k, cs in cands]
    must, may = expect(ctx, cands, x, acc, full)
    search(ctx, m, t, c, acc, seqlen, must, may, xm, before, full)


def full_set(v, acc):
    if v == 'open' or v[0] == 'open':
        return None
    d = pool.full_digits(v[0], acc, v[1])
    return None if d is None else {d}


def retarget(ctx, t, c, acc):
    """Searches with one table and one constant after the other."""
    kind, special, ra, rb, funcs, depth = TABLES[t]
    others = [k for k in range(len(CONSTS)) if k != c][t % 2::3]
    m = pool.mitm(o.fr_mpf(CONSTS[c]), funcs, hashtable_prec=acc, ab_poly_class=c11.TYPES[kind], ab_poly_special_params=special,
                  num_of_iterations=depth, prec=50)
    m.accs = [acc]
    m.build_hashtable(ra, rb)
    table = c11.expected(kind, special, ra, rb, funcs, depth)
    stored = c11.contents(m)
    before = snapshot(m)
    cands = []
    for k, v in table.items():
        if v == 'open' or v[0] == 'open':
            if k in stored:
                cands.append((k, None))
        else:
            cands.append((k, digit_set(v[0], acc, v[1])))
    for c2 in [c] + others + [c]:
        xm = o.fr_mpf(CONSTS[c2])
        # (the name of the constant stays the same; a search at a lower working precision in between)
        for prec in ((15, 50) if c2 % 2 else (50,)):
            m.redefine_settings(target_generator=lambda: o.fr_mpf(CONSTS[c2]), target_name='const', postproc_funcs_filter=funcs,
                                hashtable_prec=acc, ab_poly_class=c11.TYPES[kind], ab_poly_special_params=special, prec=prec)
            if prec != 50:
                for kl, params in LHS[:2] + LHS[3:4]:
                    m.find_clicks(pool.LHS[kl], params)
        must, may = expect(ctx, cands, o.mpf_fr(xm), acc, False)
        search(ctx, m, t, c2, acc, 1, must, may, xm, before)


def expect(ctx, cands, x, acc, full):
    must, may = [], []
    for kl, params in LHS:
        mu, ma = Counter(), Counter()
        for p in enumerated(kl, params, x):
            v, scale = pool.lhs_value(kl, p, x)
            if full:
                ds = pool.full_digits(v, acc, scale * o.Fr(1, 10**47))
                ds = None if ds is None else {ds}
            else:
                ds = digit_set(v, acc, scale * o.Fr(1, 10**47))
            hits = [(k, cs) for k, cs in cands if ds is None or cs is None or ds & cs]
            if not hits or degenerate(kl, p, x):
                continue
            f = pool.lhs_fraction(kl, p)
            for k, cs in hits:
                e = (k[0], kl, f, k[1])
                ma[e] += 1
                if cs is not None and ds is not None and len(cs) == len(ds) == 1:
                    mu[e] += 1
                else:
                    ctx.skip('digits at the rounding boundary')
        must.append(mu)
        may.append(ma)
    return must, may


def search(ctx, m, t, c, acc, seqlen, must, may, xm, before, full=False):
    info = {'table': TABLES[t], 'accuracy': acc, 'constant': str(xm), 'integer differences': 'count' if full else 'ignored'}
    for seq in itertools.product(range(len(LHS)), repeat=seqlen):
        if seqlen == 2 and seq[0] == seq[1] and seq[0] % 3:
            continue
        previous = []
        for i in seq:
            kl, params = LHS[i]
            m.find_clicks(pool.LHS[kl], params)
            res = list(m.get_filtered_params())
            ctx.step(len(res) + 1)
            got = Counter(entry(r) for r in res)
            for e, n in got.items():
                ctx.check(n <= may[i][e], 'a result is reported that does not match, or too often', result=e, times=n,
                          allowed=may[i][e], lhs=LHS[i], searches=seq, **info)
            for e, n in must[i].items():
                ctx.check(got[e] >= n, 'a matching pair is not reported', result=e, times=got[e], expected=n, lhs=LHS[i],
                          searches=seq, **info)
            for r in res:
                ctx.check(r[1].get_target_const() == xm, 'a result with a wrong constant', **info)
            previous.append(res)
            ctx.outcome('results' if res else 'none')
        ctx.trace()
        if seqlen > 1 and seq[0] == (seq[1] + 1) % len(LHS):
            independence(ctx, previous, xm, info)
    after = snapshot(m)
    ctx.check(after == before, 'searching changes the table', **info)
    ctx.state((t, c, acc))
    for i in range(len(LHS)):
        ctx.state((t, c, acc, i, tuple(sorted(map(hash, may[i])))))


def independence(ctx, searches, xm, info):
    """Changing one of the reported left-hand sides leaves all the others as they were."""
    res = [r for s in searches for r in s][:40]
    values = [r[1].get_val() for r in res]
    for i, r in enumerate(res):
        r[1].add_int(7 + i)
        values[i] = r[1].get_val()
        ctx.step()
        for j, r2 in enumerate(res):
            ctx.check(r2[1].get_val() == values[j], 'two results share one left-hand side', first=entry(r), second=entry(r2), **info)
