"""Reference models: exact rational arithmetic, written independently of the code under test."""
from fractions import Fraction as Fr
import mpmath


# ---------------------------------------------------------------- polynomials and continued fractions
def horner(coeffs, x):
    r = 0
    for c in reversed(coeffs):
        r = r * x + c
    return r


def nested(polys):
    """The interlaced form of a flat or interlaced polynomial."""
    return polys if isinstance(polys[0], (list, tuple)) else [polys]


def term(polys, i):
    polys = nested(polys)
    return horner(polys[i % len(polys)], i)


def convergents(a, b, n):
    """[(p_0, q_0), ..., (p_n, q_n)] of a_0 + b_1/(a_1 + ... b_n/a_n)."""
    p0, q0, p1, q1 = 1, 0, term(a, 0), 1
    out = [(p1, q1)]
    for i in range(1, n + 1):
        ai, bi = term(a, i), term(b, i)
        p0, p1 = p1, ai * p1 + bi * p0
        q0, q1 = q1, ai * q1 + bi * q0
        out.append((p1, q1))
    return out


def backward(a_terms, b_terms):
    """Value of a_0 + b_0/(a_1 + b_1/(...)) and the list of the exact tails (innermost first). None where a tail is
    infinite (a tail below it is zero)."""
    t = Fr(a_terms[-1])
    tails = [t]
    for av, bv in zip(reversed(a_terms[:-1]), reversed(b_terms)):
        if t is None:
            t = Fr(av)
        elif t == 0:
            t = None
        else:
            t = av + Fr(bv) / t
        tails.append(t)
    return t, tails


def backward_error(a_terms, b_terms, unit):
    """First-order error bound of the floating backward evaluation; None if it is ill-conditioned or passes a zero
    tail."""
    t = Fr(a_terms[-1])
    if t == 0:
        return None
    e = abs(t) * unit
    for av, bv in zip(reversed(a_terms[:-1]), reversed(b_terms)):
        if t == 0 or e > abs(t) / 10**3:
            return None
        quo = Fr(bv) / t
        e = abs(quo) * (e / abs(t) * Fr(501, 500) + 2 * unit) + abs(av) * unit
        t = av + quo
        e += abs(t) * unit
    return e + abs(t) * unit


# ---------------------------------------------------------------- numbers
def mpf_fr(x):
    """Exact rational value of an mpf (None if it is not finite)."""
    x = mpmath.mpf(x) if not isinstance(x, mpmath.mpf) else x
    sign, man, exp, bc = x._mpf_
    if not man and exp:
        return None
    man = -int(man) if sign else int(man)
    return Fr(man * 2**exp) if exp >= 0 else Fr(man, 2**(-exp))


def fr_mpf(f):
    """The mpf closest to a rational, at the current precision (twice rounded)."""
    return mpmath.mpf(f.numerator) / f.denominator


def is_nan(x):
    return x != x


def close(x, exact, rel, absol=0):
    """x (mpf) is within the tolerance of the exact rational."""
    f = mpf_fr(x)
    return f is not None and abs(f - exact) <= rel * abs(exact) + absol


def ulp(dps=None):
    return Fr(1, 10**((dps or mpmath.mp.dps)))


def frac_digits(x, acc, slack):
    """The first acc decimals of the fractional part of |x| (x rational, known up to +-slack); None if they depend on
    the rounding."""
    x = abs(x)
    lo = x - slack
    hi = x + slack
    if lo < 0:
        return None
    s = 10**acc
    if (lo * s) // 1 != (hi * s) // 1:
        return None
    return int((x * s) // 1 % s)


def poly_trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def poly_deg(p):
    return len(poly_trim(p)) - 1


def poly_add(p, q, s=1):
    n = max(len(p), len(q))
    return poly_trim([(p[i] if i < len(p) else 0) + s * (q[i] if i < len(q) else 0) for i in range(n)])


def poly_mul(p, q):
    if not p or not q:
        return []
    r = [0] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] += x * y
    return poly_trim(r)


def poly_divmod(p, q):
    p, q = [Fr(c) for c in poly_trim(p)], [Fr(c) for c in poly_trim(q)]
    quo = [Fr(0)] * max(0, len(p) - len(q) + 1)
    while len(p) >= len(q):
        c = p[-1] / q[-1]
        s = len(p) - len(q)
        quo[s] = c
        p = poly_trim([x - c * (q[i - s] if 0 <= i - s < len(q) else 0) for i, x in enumerate(p)])
    return poly_trim(quo), p


def poly_gcd(p, q):
    p, q = poly_trim(p), poly_trim(q)
    while q:
        p, q = q, poly_divmod(p, q)[1]
    return [Fr(c) / p[-1] for c in p] if p else []


def has_nonzero_integer_root(p):
    """p: integer polynomial, not zero."""
    p = list(poly_trim(p))
    return any(r != 0 and horner(p, r) == 0 for t in _unit_intervals(p) for r in (t, t + 1))


def _unit_intervals(p):
    """Integers t such that every real root of the nonzero integer polynomial p lies in some [t, t+1]."""
    if len(p) < 2:
        return []
    crit = _unit_intervals(poly_trim([k * c for k, c in enumerate(p)][1:]))
    bound = 2 + max(abs(c) for c in p[:-1]) // abs(p[-1])
    points = sorted({-bound, bound} | {t for t in crit if abs(t) < bound} | {t + 1 for t in crit if abs(t + 1) < bound})
    out = set(crit)
    # p is monotone between neighbouring points, or these are neighbouring integers
    for lo, hi in zip(points, points[1:]):
        slo, shi = horner(p, lo), horner(p, hi)
        if slo == 0:
            out.add(lo)
        if shi == 0:
            out.add(hi)
        if slo * shi < 0:
            while hi - lo > 1:
                mid = (lo + hi) // 2
                v = horner(p, mid)
                if v == 0:
                    lo = mid
                    break
                if (v > 0) == (slo > 0):
                    lo = mid
                else:
                    hi = mid
            out.add(lo)
    return sorted(out)


def positive_integer_roots(p):
    """Positive integer roots of a nonzero integer polynomial."""
    p = list(poly_trim(p))
    return {r for t in _unit_intervals(p) for r in (t, t + 1) if r > 0 and horner(p, r) == 0}
