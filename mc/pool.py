"""Shared helpers on results and left-hand sides: exact functions, matching, builders for MITM objects."""
import copy
import mpmath
from . import oracle as o
import lhs_evaluators as le
import enum_params

ULCD, RAT = le.LHS_TYPES['ulcd'], le.LHS_TYPES['rationalfunc']
LHS = {'ulcd': ULCD, 'rationalfunc': RAT}


def lhs_fraction(kind, params):
    """The formula that the parameters denote, as a reduced pair of polynomials (p, q) in the constant, q monic."""
    if kind == 'ulcd':
        u, l, c, d = params
        # (u/x + x/l + c)/d = (u + c x + x^2/l) / (d x)
        p, q = [o.Fr(u), o.Fr(c), o.Fr(1, l)], [0, o.Fr(d)]
    else:
        p, q, n = params
        q = list(q)
        p = o.poly_add(list(p), [n * c for c in q])
    p, q = o.poly_trim(p), o.poly_trim(q)
    if not p:
        return (), (o.Fr(1),)
    g = o.poly_gcd(p, q)
    p, q = o.poly_divmod(p, g)[0], o.poly_divmod(q, g)[0]
    return tuple(o.Fr(c) / q[-1] for c in p), tuple(o.Fr(c) / q[-1] for c in q)


def frac_neg(f):
    return tuple(-c for c in f[0]), f[1]


def frac_inv(f):
    """None for the zero function."""
    if not f[0]:
        return None
    return tuple(c / f[0][-1] for c in f[1]), tuple(c / f[0][-1] for c in f[0])


def differ_by_integer(f, g):
    """f - g is an integer constant."""
    if f is None or g is None:
        return False
    d = o.poly_add(o.poly_mul(list(f[0]), list(g[1])), o.poly_mul(list(g[0]), list(f[1])), -1)
    if not d:
        return True
    quo, rem = o.poly_divmod(d, o.poly_mul(list(f[1]), list(g[1])))
    return not rem and len(quo) == 1 and quo[0].denominator == 1


def up_to_sign_and_integer(f, g):
    return g is not None and (differ_by_integer(f, g) or differ_by_integer(f, frac_neg(g)))


def lhs_value(kind, params, x):
    """(exact value at the rational x, conditioning scale); (None, None) if undefined."""
    x = o.Fr(x)
    if kind == 'ulcd':
        u, l, c, d = params
        return (o.Fr(u) / x + x / l + c) / d, (abs(u / x) + abs(x / l) + abs(c)) / abs(d)
    p, q, n = params
    vq = o.horner(q, x)
    if vq == 0:
        return None, None
    vp = o.horner(p, x)
    sp, sq = o.horner([abs(c) for c in p], abs(x)), o.horner([abs(c) for c in q], abs(x))
    return vp / vq + n, sp / abs(vq) + abs(vp / vq) * sq / abs(vq) + abs(n)


def make_lhs(kind, params, x):
    return LHS[kind]['eval'](copy.deepcopy(params), x)


def mitm(x=None, funcs=(0,), **kw):
    value = o.fr_mpf(x) if isinstance(x, o.Fr) else x
    return enum_params.MITM(target_generator=lambda: value, target_name='x', postproc_funcs_filter=list(funcs), **kw)


def full_digits(y, acc, err):
    """(number of integer digits, the digits through the accuracy) of |y| where the integer part counts. None if rounding decides,
    or if the integer part alone fills the accuracy."""
    y = abs(y)
    lo, hi = y - err, y + err
    n = len(str(int(y)))
    if lo < 0 or n > acc or len(str(int(lo))) != n or len(str(int(hi))) != n:
        return None
    s = 10**(acc + 1 - n)
    lo, hi = int(lo * s // 1), int(hi * s // 1)
    return (n, lo) if lo == hi else None


def neg(polys):
    return tuple(tuple(-c for c in p) for p in polys)


# ---------------------------------------------------------------- values of function(continued fraction)
BASES = [lambda x: x, lambda x: x**2, lambda x: x**3, lambda x: x**4, lambda x: x**5,
         lambda x: mpmath.sqrt(x) if x >= 0 else None, mpmath.sin, mpmath.cos, mpmath.tan,
         lambda x: mpmath.cos(x) / mpmath.sin(x) if x != 0 else None, mpmath.exp, lambda x: mpmath.ln(x) if x > 0 else None]


def func_ref(i, x):
    """The i-th post-processing function at the mpf x, at the current precision. None if it is not finite."""
    y = BASES[i // 2](x)
    if y is None:
        return None
    if i % 2:
        return 1 / y if y != 0 else None
    return y


def func_of(i, v, e, dps=90):
    """(exact-enough rational value, error bound) of function i at the rational v known up to +-e; None if it is undefined
    there; 'open' if that depends on the rounding."""
    with mpmath.workdps(dps):
        x = mpmath.mpf(v.numerator) / v.denominator
        if i == 0 or i == 1 and v != 0:
            y = v if i == 0 else 1 / v
            others = [x + mpmath.mpf(e.numerator) / e.denominator * s for s in (1, -1)]
            ys = [func_ref(i, t) for t in others]
        else:
            eps = mpmath.mpf(e.numerator) / e.denominator
            y = func_ref(i, x)
            ys = [func_ref(i, x + eps), func_ref(i, x - eps)]
            if y is not None and not mpmath.isnan(y):
                y = o.mpf_fr(y)
        if any(t is None for t in ys) or y is None:
            return None if y is None and all(t is None for t in ys) else 'open'
        if v == 0 and i not in (0, 2, 4, 6, 8, 10):
            return 'open'
        err = max(abs(o.mpf_fr(t) - y) for t in ys) * 2 + abs(y) * o.Fr(1, 10**(dps - 5))
        return y, err


_cf_cache = {}


def cf_value(pa, pb, terms, unit):
    """The exact continued fraction with the given number of a terms, as evaluated backwards with rounding unit: (value, error
    bound), 'undefined' if it has denominator zero, 'open' if the evaluation passes a zero tail or is ill-conditioned."""
    key = (str(pa), str(pb), terms, unit)
    if key not in _cf_cache:
        a = [o.term(pa, i) for i in range(terms)]
        b = [o.term(pb, i) for i in range(1, terms)]
        v, tails = o.backward(a, b)
        e = o.backward_error(a, b, unit)
        if e is None or any(t is None or t == 0 for t in tails[:-1]):
            r = 'open'
        elif v == 0:
            r = 'open'
        else:
            r = (v, e)
        if len(_cf_cache) > 200000:
            _cf_cache.clear()
        _cf_cache[key] = r
    return _cf_cache[key]


def candidate_value(pa, pb, terms, i, dps=50):
    """(value, error bound) of function i of the continued fraction, None if undefined or zero, or 'open'."""
    r = cf_value(pa, pb, terms, o.Fr(1, 10**(dps - 1)))
    if r == 'open':
        return 'open'
    y = func_of(i, r[0], r[1], max(90, dps + 40))
    if y is None or y == 'open':
        return y
    y, err = y
    err += abs(y) * o.Fr(1, 10**(dps - 2))
    # near a pole or a huge argument the code's own rounding matters
    if err > o.Fr(1, 10**20) and err > abs(y) / 10**20:
        return 'open'
    if abs(y) <= err:
        return 'open'
    return y, err
