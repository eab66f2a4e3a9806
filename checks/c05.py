"""C05: integer-root screening of b over complete coefficient boxes, and the screening of a saved table."""
import itertools
import os
import mpmath
from mc import oracle as o
from checks.c04 import root_status, norm
import enum_poly_params as ep

PROPERTY = 'C05'
ASSUMPTIONS = ['coefficients beyond the boxes (up to about 10^45 for the factored families) behave like those inside']
SPACE = {
    'quick': 'every b with 1, 2, 3 coefficients in -15..15 and 4 coefficients in -4..4, all their multiples by n, n^2 (trailing '
             'zeros too), products k(n-r)(pn-q) with r up to 10^4 and, with each coefficient off by one, with r up to 10^28 and k up to 10^18, and all pairs of interlaced polynomials of a pool; all three '
             'enumerator types; the filter of a saved table on tables holding all polynomials of a box',
    'thorough': 'boxes -30..30 (3 coefficients), -7..7 (4 coefficients), -2..2 (6 coefficients)'}


def units(tier):
    deep = tier == 'thorough'
    n3, n4 = (30, 7) if deep else (15, 4)
    out = [['box', [[-60, 61]], 0], ['box', [[-40, 41], [-40, 41]], 0], ['box', [[-9, 10], [-9, 10]], 2]]
    out += [['box', [[c, c + 1], [-n3, n3 + 1], [-n3, n3 + 1]], z] for c in range(-n3, n3 + 1) for z in (0,)]
    out += [['box', [[-5, 6], [-5, 6], [-5, 6]], z] for z in (1, 2, 4)]
    out += [['box', [[c, c + 1], [-n4, n4 + 1], [-n4, n4 + 1], [-n4, n4 + 1]], 0] for c in range(-n4, n4 + 1)]
    if deep:
        out += [['box', [[c, c + 1]] + [[-2, 3]] * 5, 0] for c in range(-2, 3)]
    else:
        out += [['box', [[c, c + 1]] + [[-1, 2]] * 5, 0] for c in range(-1, 2)]
    out += [['factored', k] for k in (1, -1, 2, -3)]
    out += [['near'], ['huge']]
    out += [['interlaced', n] for n in (2, 3)]
    out += [['types'], ['saved', 0], ['saved', 1], ['saved', 2]]
    return out


def enum(**kw):
    return ep.BasicEnumPolyParams(should_gen_contfrac=False, avoid_int_roots=True, enum_only_exp_conv=False, prec=30, **kw)


def judge(ctx, kept, pb, **info):
    statuses = [root_status(p) for p in pb]
    ctx.step()
    if 'drop' in statuses:
        ctx.check(not kept, 'a candidate with a vanishing b is produced', b=pb, **info)
        ctx.outcome('dropped')
    elif all(s == 'keep' for s in statuses):
        ctx.check(kept, 'a candidate is dropped though no b has a nonzero integer root', b=pb, **info)
        ctx.outcome('kept')
    else:
        ctx.outcome('open')


def singles(ctx, polys):
    """Each polynomial on its own, through a generator with singleton ranges."""
    e = enum()
    for p in polys:
        gen, _ = e.polys_generator([[[1, 2]]], [[[c, c + 1] for c in p]])
        got = [norm(pb) for pa, pb in gen]
        ctx.check(got in ([], [(tuple(p),)]), 'wrong enumeration of a single polynomial', b=p, got=got)
        judge(ctx, bool(got), (tuple(p),))
        ctx.state(tuple(p))


def run(unit, ctx):
    mpmath.mp.dps = 30
    kind = unit[0]
    if kind == 'box':
        # z leading (lowest) zero coefficients and, for z > 0, one trailing zero
        _, box, z = unit
        full = [[0, 1]] * z + box + ([[0, 1]] if z else [])
        gen, _ = enum().polys_generator([[[1, 2]]], [full])
        kept = set(norm(pb) for pa, pb in gen)
        n = 0
        for c in itertools.product(*[range(*r) for r in full]):
            judge(ctx, (c,) in kept, (c,))
            ctx.state(c)
            n += 1
        ctx.trace({'box': full, 'kept': len(kept)}, n)
    elif kind == 'near':
        # roots close to integers, in linear and quadratic polynomials
        polys = []
        for r in (1, 2, 3, 10, 47, 316, 1000, 2001, 31623, 100003, 10**6):
            for s in (1, -1):
                for e in (-2, -1, 0, 1, 2):
                    polys.append([-(r * r + e), 0, s * 1])
                    polys.append([s * (r * r + r + e), -(2 * r + 1), 1])
                    polys.append([s * (r * 7 + e), 7])
                    polys.append([s * (r * 5 + e), -r])
                    polys.append([s * (r * 5 + e), r])
        polys = [p for p in polys if any(p)]
        singles(ctx, polys)
        ctx.trace({'near': polys[:3]}, len(polys))
    elif kind == 'huge':
        # coefficients beyond the integers that doubles represent
        polys = []
        for r in (1, 2, 7, 10**6 + 3, 2**31 + 11, 10**12 + 39, 2**53 + 5, 10**17 + 3, 3**60):
            for k in (1, -3, 2**53 + 111, 10**18 + 9):
                for sgn in (1, -1):
                    for e in (-1, 0, 1):
                        polys.append([-k * r * sgn + e, k])
                        polys.append([-k * r * sgn, k + e])
                        polys.append([0, -k * r * sgn + e, k, 0])
                        for p, q in ((1, 1), (3, -7), (1, 10**9 + 7), (7, 10**18 + 1), (1, r), (1, -r)):
                            polys.append([k * sgn * r * q + e, -k * (q + sgn * r * p), k * p])
                            polys.append([k * sgn * r * q, -k * (q + sgn * r * p) + e, k * p])
                            polys.append([k * sgn * r * q, -k * (q + sgn * r * p), k * p + e])
        singles(ctx, polys)
        ctx.trace({'huge': polys[:3]}, len(polys))
    elif kind == 'factored':
        k = unit[1]
        polys = []
        for r in (1, 2, 3, 7, 10, 31, 60, 99, 100, 101, 500, 997, 1000, 4096, 9999, 10000):
            for sgn in (1, -1):
                polys.append([-k * r * sgn, k])
                for p, q in ((1, 1), (1, -1), (2, 1), (3, -7), (5, 2), (1, 0), (2, -1), (1, 10**5), (7, 10**4 + 1), (1, r), (1, -r)):
                    # k (n - sgn r) (p n - q)
                    polys.append([k * sgn * r * q, -k * (q + sgn * r * p), k * p])
                    # nearly: shifted by one in the free coefficient
                    polys.append([k * sgn * r * q + 1, -k * (q + sgn * r * p), k * p])
        # squares of half-integer roots, powers, and the documented examples
        polys += [[1, -4, 4], [9, -12, 4], [0, 0, 0, 0, 0, 0, 1], [-4, 2, 0, 1], [1, 4, 4], [0, 1, -4, 4], [-2, 0, 1],
                  [2, 0, 1], [1, 1, 1], [6, -5, 1], [-6, 1, 1], [-6, -1, 1], [6, 5, 1]]
        singles(ctx, polys)
        ctx.trace({'factored': polys[:3]}, len(polys))
    elif kind == 'interlaced':
        n = unit[1]
        pool = [(1, 1, 1), (-2, 1, 0), (2, 1, 0), (0, 0, 3), (6, -5, 1), (0, 0, 0), (1, -4, 4), (0, -1, 1), (-1, 2, 0), (5, 0, 0),
                (4, 4, 1), (-4, 0, 1)]
        e = enum()
        for pb in itertools.product(pool, repeat=n):
            gen, _ = e.polys_generator([[[1, 2], [0, 1]], [[2, 3], [1, 2]]], [[[c, c + 1] for c in p] for p in pb])
            got = [norm(x[1]) for x in gen]
            want = (pb[0],) if all(p == pb[0] for p in pb) else pb
            ctx.check(got in ([], [want]), 'wrong enumeration of interlaced polynomials', b=pb, got=got)
            judge(ctx, bool(got), want)
            ctx.state(pb)
        ctx.trace({'interlaced': n}, len(pool)**n)
    elif kind == 'types':
        # the other enumerators screen the polynomials they produce (the expanded ones)
        from checks.c04 import candidates
        for cls, name, special, shape in ((ep.IndexedParameterEnumPolyParams, 'indexed', None, [[[-4, 5], [-4, 5], [-2, 3]]]),
                                          (ep.IndexedParameterEnumPolyParams, 'indexed', None, [[[-3, 4], [-3, 4]]]),
                                          (ep.SparseParameterEnumPolyParams, 'sparse', (1, 4), [[[-5, 6], [-5, 6]]]),
                                          (ep.SparseParameterEnumPolyParams, 'sparse', (1, 3), [[[1, 4]], [[-2, 3]]])):
            kw = {'special_params': special} if special else {}
            e = cls(should_gen_contfrac=False, avoid_int_roots=True, enum_only_exp_conv=False, prec=30, **kw)
            gen, _ = e.polys_generator([[[1, 2]]], shape)
            kept = set(norm(pb) for pa, pb in gen)
            for pb in candidates(name, shape, special[1] if special else None):
                judge(ctx, pb in kept, pb, type=name, shape=shape)
                ctx.state(pb)
                ctx.trace()
    else:
        saved(unit[1], ctx)


def saved(which, ctx):
    """The screening of a saved table: removes the candidates with screened b from every entry, keeps all the others."""
    import dill
    import enum_params
    import fix_hashtable_filter_init_b_root as fix
    work = ctx.fresh_dir()
    polys = [c for c in itertools.product(range(-4, 5), repeat=3)]
    if which == 1:
        polys = [(0,) + c for c in itertools.product(range(-3, 4), repeat=2)] + [c for c in itertools.product(range(-6, 7), repeat=2)]
    bs = [(p,) for p in polys]
    if which == 2:
        pool = [(1, 1, 1), (-2, 1, 0), (2, 1, 0), (6, -5, 1), (0, 0, 0), (1, -4, 4), (0, -1, 1), (4, 4, 1)]
        bs = list(itertools.product(pool, repeat=2))
    mitm = enum_params.MITM(hashtable_prec=6)
    entries = {}
    for n, b in enumerate(bs):
        # several candidates per entry: entries that keep all, some, and none of them
        key = mpmath.mpf(n // 5 + 1) / 8192
        cand = ((((n, 1),), b), n % 3)
        mitm.dec_hashtable.setdefault(key, []).append(cand)
        entries.setdefault(n // 5 + 1, []).append(cand)
    mitm.dec_hashtable['parameters'] = {'target_name': 'pi'}
    path = os.path.join(work, 'saved.pkl')
    with open(path, 'wb') as f:
        dill.dump(mitm, f, protocol=dill.HIGHEST_PROTOCOL)
    before = open(path, 'rb').read()
    fix.main(path)
    ctx.check(open(path, 'rb').read() == before, 'the filtered table overwrote the saved one')
    with open(os.path.join(work, 'saved_fixed.pkl'), 'rb') as f:
        fixed = dill.load(f)
    total = 0
    for n, cands in entries.items():
        left = fixed.dec_hashtable.get(mpmath.mpf(n) / 8192, [])
        total += len(left)
        for c in cands:
            ctx.check(left.count(c) <= 1, 'a candidate is repeated', candidate=c)
            judge(ctx, c in left, c[0][1], what='saved table')
            ctx.state(c)
        ctx.check([c for c in cands if c in left] == left, 'an entry of the filtered table holds other candidates', left=left)
        ctx.trace()
    ctx.check('parameters' in fixed.dec_hashtable, 'the named entry is lost')
    stored = sum(len(v) for k, v in fixed.dec_hashtable.items() if k != 'parameters')
    ctx.check(stored == total, 'the filtered table holds candidates under other keys', stored=stored, found=total)
