"""C25: arithmetic helpers on exhaustive grids; the stopwatch under all sequences of calls and clock readings."""
import importlib.util
import itertools
import math
import os
import sys
import time
from decimal import Decimal
from fractions import Fraction
import mpmath
from mpmath import mpf
from mc import core
from mc import oracle as o
import utils

PROPERTY = 'C25'
ASSUMPTIONS = ['a stopwatch is only read after it was started, its last measurement only after a measurement',
               'the clock is one of the standard functions of the time module']
SPACE = {
    'quick': 'polynomials: every coefficient tuple of length 0..4 over -3..3 (and a big alphabet) x 18 integer / 14 real / rational arguments; gcd: every pair of -60..60, of products of primes and of '
             'integer-valued mpf/Decimal; grouping: every length 0..13 x size 1..6 x fill value x container x kind of items (also false and equal ones); stopwatch: all sequences of length <= 6 over {start, measure, last, total, started} '
             'x 4 clock increments for one watch, and of length <= 5 over two watches',
    'thorough': 'coefficients -5..5, gcd -250..250, stopwatch sequences of length <= 7'}


def units(tier):
    deep = tier == 'thorough'
    out = [['poly', c, deep] for c in range(-5 if deep else -3, 6 if deep else 4)] + [['bigpoly']]
    r = 250 if deep else 60
    out += [['gcd', a, min(a + 9, r), r] for a in range(-r, r + 1, 10)] + [['biggcd'], ['group']]
    for i in range(20):
        out.append(['watch', i, 7 if deep else 6])
    for i in range(20):
        out.append(['two', i, 6 if deep else 5])
    return out


INTS = [0, 1, -1, 2, -2, 3, 5, 7, -10, 12, 100, -99, 1000, 65537, 10**9 + 7, -10**12, 10**20, 3**50]
REALS = ['0', '1', '-1', '0.5', '-2.25', '3.14159265358979323846', '1e-10', '-1e12', '7.000000001', '0.1', '-0.0009', '123456.789', '2', '1.61803398874989484820']


def poly(ctx, coeffs):
    f = utils.MathOperations.subs_in_polynom
    for container in (list(coeffs), tuple(coeffs)):
        for x in INTS:
            v = f(container, x)
            if v != o.horner(coeffs, x) or isinstance(v, (float, complex)):
                ctx.fail('wrong substitution in a polynomial', coeffs=coeffs, x=x, value=str(v), expected=o.horner(coeffs, x))
    with mpmath.workdps(50):
        for s in REALS:
            x = mpf(s)
            v = f(coeffs, x)
            e = o.mpf_fr(x)
            exact = o.horner(coeffs, e)
            scale = o.horner([abs(c) for c in coeffs], abs(e))
            if abs(o.mpf_fr(mpf(v)) - exact) > scale * o.Fr(1, 10**48):
                ctx.fail('wrong substitution in a polynomial', coeffs=coeffs, x=s, value=str(v), expected=str(exact))
        for x in (Fraction(1, 3), Fraction(-7, 2)):
            if f(coeffs, x) != o.horner(coeffs, x):
                ctx.fail('wrong substitution in a polynomial', coeffs=coeffs, x=str(x))
        # real coefficients
        x = mpf('1.7')
        cs = [mpf(c) / 7 for c in coeffs]
        exact = o.horner([o.mpf_fr(c) for c in cs], o.mpf_fr(x))
        if abs(o.mpf_fr(mpf(f(cs, x))) - exact) > o.horner([abs(o.mpf_fr(c)) for c in cs], o.mpf_fr(x)) * o.Fr(1, 10**48):
            ctx.fail('wrong substitution in a polynomial with real coefficients', coeffs=[str(c) for c in cs])
    ctx.step(2 * len(INTS) + len(REALS) + 3)
    ctx.state(tuple(coeffs))
    ctx.trace()


def gcd(ctx, a, b, conv=None):
    f = utils.MathOperations.gcd
    g = f(a, b) if conv is None else f(conv(a), conv(b))
    want = math.gcd(a, b)
    ctx.step()
    if abs(g) != want or g != int(g):
        ctx.fail('wrong greatest common divisor', a=a, b=b, type=str(conv), value=str(g), expected=want)
    ctx.state((a, b, str(conv)))
    ctx.trace()


def clocks():
    """A private copy of the module under test that sees the controlled clock under whatever name it uses."""
    now = [0.0]
    saved = {}
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        saved[n] = getattr(time, n)
        setattr(time, n, lambda: now[0])
        if hasattr(time, n + '_ns'):
            saved[n + '_ns'] = getattr(time, n + '_ns')
            setattr(time, n + '_ns', lambda: int(now[0] * 10**9))
    try:
        spec = importlib.util.spec_from_file_location('utils_with_clock', os.path.join(core.REPO, 'utils.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    except BaseException:
        for n, v in saved.items():
            setattr(time, n, v)
        raise
    return m, now, saved


class Watch:
    """Reference."""
    def __init__(self):
        self.start = self.prev = self.last = None

    def legal(self, op):
        return not (op == 'measure' and self.start is None or op == 'total' and self.start is None or op == 'last' and self.last is None)


def apply(ctx, w, ref, op, now, history):
    if op == 'start':
        w.start_measure()
        if ref.start is None:
            ref.start = ref.prev = now
        return
    if op == 'started':
        got, want = w.is_started(), ref.start is not None
    elif op == 'measure':
        got, want = w.measure_time(), now - ref.prev
        ref.prev, ref.last = now, want
    elif op == 'last':
        got, want = w.get_last_measured_time(), ref.last
    else:
        got, want = w.get_total_runtime(), now - ref.start
    if got != want:
        ctx.fail('the stopwatch is wrong', call=op, got=got, expected=want, history=history)


OPS = ['start', 'measure', 'last', 'total', 'started']
STEPS = [0.0, 1.0, 2.5, 1024.125]


def run(unit, ctx):
    kind = unit[0]
    if kind == 'poly':
        r = 5 if unit[2] else 3
        if unit[1] == 0:
            poly(ctx, [])
        for n in range(0, 4):
            for rest in itertools.product(range(-r, r + 1), repeat=n):
                poly(ctx, [unit[1]] + list(rest))
    elif kind == 'bigpoly':
        for n in range(1, 5):
            for cs in itertools.product((0, 1, -12, 10**18, -3**41), repeat=n):
                poly(ctx, list(cs))
        for n in range(5, 12):
            for i in range(n):
                poly(ctx, [(j * 7 + i) % 11 - 5 if j != i else 0 for j in range(n)])
                poly(ctx, [int(j == i) for j in range(n)])
    elif kind == 'gcd':
        _, lo, hi, r = unit
        for a, b in itertools.product(range(lo, hi + 1), range(-r, r + 1)):
            gcd(ctx, a, b)
            if abs(a) <= 60 and abs(b) <= 60:
                gcd(ctx, a, b, mpf)
                gcd(ctx, a, b, Decimal)
    elif kind == 'biggcd':
        vals = [2**40, 2**20 * 3**10, 3**30 * 5, 7 * 11 * 13 * 17, 10**30, 10**15 - 1, 1, 0, -6**20, 2**61 - 1, -(2**61 - 1) * 12, 97]
        for a, b in itertools.product(vals, repeat=2):
            gcd(ctx, a, b)
            with mpmath.workdps(60):
                gcd(ctx, a, b, mpf)
    elif kind == 'group':
        for n, size, fill, values in itertools.product(range(14), range(1, 7), (None, 0, 'x'), ('numbers', 'false', 'equal')):
            items = {'numbers': list(range(100, 100 + n)), 'false': ([None, 0, '', [], 'x', False, ()] * 2)[:n], 'equal': ['x'] * n}[values]
            want = []
            for i in range(0, n, size):
                g = items[i:i + size]
                want.append(tuple(g + [fill] * (size - len(g))))
            for src in (list, tuple, iter, lambda s: (y for y in s)):
                got = [tuple(g) for g in (utils.grouper(src(items), size, fill) if fill is not None else utils.grouper(src(items), size))]
                ctx.step()
                ctx.check(got == want, 'wrong groups', items=items, size=size, fill=fill, got=got)
            ctx.state((n, size, fill, values))
            ctx.trace()
    else:
        m, now, saved = clocks()
        try:
            if kind == 'watch':
                first = (OPS[unit[1] // 4], STEPS[unit[1] % 4])
                explore(ctx, m, now, [first], unit[2], 1)
            else:
                first = (OPS[unit[1] // 4], STEPS[unit[1] % 4])
                explore(ctx, m, now, [first + (0,)], unit[2], 2)
        finally:
            for n, v in saved.items():
                setattr(time, n, v)


def explore(ctx, m, now, prefix, depth, n):
    """All histories that extend the prefix (up to the depth); increments other than the first two only matter before a measuring call."""
    def play(history):
        now[0] = 5.0
        watches, refs = [m.MeasureRuntime() for _ in range(n)], [Watch() for _ in range(n)]
        for h in history:
            now[0] += h[1]
            i = h[2] if n > 1 else 0
            if not refs[i].legal(h[0]):
                return False
            apply(ctx, watches[i], refs[i], h[0], now[0], history)
        ctx.step()
        return True
    stack = [list(prefix)]
    moves = [(op, s) for op in OPS for s in (STEPS if n == 1 and depth <= 6 else STEPS[:3])]
    if n > 1:
        moves = [(op, s, i) for op, s in itertools.product(OPS, STEPS[:2]) for i in range(n)]
    else:
        moves = [(op, s) for op, s in moves if op not in ('started', 'last') or s == 1.0]
    while stack:
        h = stack.pop()
        if not play(h):
            continue
        ctx.state(tuple(h))
        if len(h) < depth:
            stack += [h + [mv] for mv in moves]
        else:
            ctx.trace(h)
