"""C01: every history of generate / extend / re-initialise of a real ContFrac against the exact recurrence."""
import copy
import itertools
import mpmath
from mc import oracle as o
import cont_fracs
from cont_fracs import ContFrac

PROPERTY = 'C01'
ASSUMPTIONS = ['coefficients and depths beyond the alphabet behave like those inside it',
               'mpmath division of two integers is correctly rounded to a few ulp']
SPACE = {
    'quick': 'every operation sequence of length <= 3 over {generate 0,1,2,5; extend 0,1,3; extend without finalising, '
             're-initialise both/a/b/none/the same again/to lists that begin with 0, run another object} x configurations x logging on/off; plus every n<=40 by '
             'single steps and n in {64,257} from scratch for every (a,b) of the cross product of the alphabets at 50 digits, a third of them at 15 and 250 digits too',
    'thorough': 'as quick with sequences of length <= 4, more configurations, and n up to 1000'}

A = [[1], [0], [3, 2], [0, 1], [-2, 0, 3], [1, 2, 1], [2, -1], [5, 0, 0, 1], [1000003, -7], [0, 0, 0, 0, 0, 1],
     [[1, 2], [3]], [[1], [0, 1], [2, 0, 1]], [[0, 0, 1], [5, -1]], [[4], [0], [-3, 1], [1, 1]], [[1, 0], [0, 0, 2]],
     [[-1], [2], [3, 1], [0, -2], [7, 0, 1]], [10**30 + 7, -3 * 10**24, 1]]
# the numerators of these vanish at no positive index
B = [[1], [-1], [0, 1], [0, 0, 1], [4, 4, 1], [0, 0, -2, 1, 3], [2, 0, 1], [-999983, 0, -1], [0, 0, 0, 0, 0, 0, -1],
     [[1], [2]], [[1, 1], [3, 0, 1], [-2]], [[7], [-1, 3], [0, 1], [5, 0, 2]], [[-4, -1], [0, 0, 6]],
     [[2], [1], [-1, -1], [0, 3], [1, 0, 0, 1]], [7 * 10**40 + 1, 0, 10**33]]
# pairs for the histories: (a, b) of the constructor and what the re-initialisations use
HIST = [(A[2], B[1]), (A[1], B[0]), (A[10], B[9]), (A[11], B[10]), (A[4], B[12]), (A[6], B[3]), (A[13], B[6]),
        (A[8], B[7]), (A[0], B[11]), (A[15], B[13])]
TERMINATING = [([1, 1], [3, -1]), ([[2], [0, 1]], [[0], [1, 1]]), ([0], [-2, 1]), ([[1], [3], [0]], [[5], [-4, 1], [1]])]
ALT = [(A[12], B[10]), (A[3], B[4]), (A[7], B[9]), (A[0], B[2])]
OPS = ['gen0', 'gen1', 'gen2', 'gen5', 'add0', 'add1', 'add3', 'addnf2', 'rein_ab', 'rein_a', 'rein_b', 'rein', 'rein_same',
       'rein_a0', 'rein_b0', 'other']


def units(tier):
    deep = tier == 'thorough'
    out = []
    hist = HIST + TERMINATING
    for i in range(len(hist)):
        for logging in (False, True):
            for dps in ((50, 15, 120) if deep else (50,) if i % 3 else (20,)):
                for first in (OPS if deep else [None]):
                    out.append(['hist', i, logging, dps, 4 if deep else 3, first])
    for i in range(len(A)):
        for j in range(len(B)):
            out.append(['sweep', i, j, 60 if deep else 40, [100, 257, 600, 1000] if deep else [64, 257], 50])
            # another precision: results of more digits than a fixed number of leading bits could give
            if deep or (i + 2 * j) % 3 == 0:
                out.append(['sweep', i, j, 12, [64, 257], 250 if (i + j) % 2 else 15])
    return out


class Model:
    def __init__(self, a, b):
        self.a, self.b, self.n, self.fresh = a, b, 0, True

    def expect(self):
        return o.convergents(self.a, self.b, self.n)[-1]


def make(a, b, logging, avoid, target=None):
    return ContFrac(copy.deepcopy(a), copy.deepcopy(b), avoid_zero_b=avoid, logging=logging, target_val=target)


def compare(ctx, cf, m, what, target=None, **detail):
    p, q = m.expect()
    ctx.check(cf.get_num_of_executed_iters() == m.n, 'wrong number of executed iterations ' + what,
              expected=m.n, got=cf.get_num_of_executed_iters(), a=m.a, b=m.b, **detail)
    rp, rq = cf.get_p_q()
    ctx.check(rp * q == rq * p and (rq == 0) == (q == 0), 'get_p_q is not the convergent ' + what, expected=(p, q),
              got=(str(rp), str(rq)), a=m.a, b=m.b, n=m.n, **detail)
    if not m.fresh:
        return
    r = cf.get_result()
    if q == 0:
        ctx.check(o.is_nan(r), 'the convergent has denominator zero but the result is %s ' % r + what, a=m.a, b=m.b, n=m.n,
                  **detail)
        ctx.check(not cf.is_result_valid(), 'an undefined result is reported as valid ' + what, a=m.a, b=m.b, n=m.n, **detail)
        ctx.outcome('nan')
    else:
        exact = o.Fr(p, q)
        ctx.check(not o.is_nan(r) and o.close(r, exact, 20 * o.ulp()), 'the result is not the convergent ' + what,
                  expected='%s/%s' % (p, q), got=str(r), a=m.a, b=m.b, n=m.n, **detail)
        ctx.check(bool(cf.is_result_valid()) == (p != 0), 'is_result_valid is wrong ' + what, a=m.a, b=m.b, n=m.n, **detail)
        ctx.outcome('zero' if p == 0 else 'value')
        for t in (None, mpmath.mpf(2) / 3, mpmath.mpf(0), mpmath.mpf(10)**20):
            used = target if t is None else t
            args = {} if t is None else {'target_val': t}
            if used is None:
                continue
            signed = exact - o.mpf_fr(used)
            slack = 20 * o.ulp() * (abs(exact) + abs(o.mpf_fr(used)))
            d = cf.compare_result(calc_abs=False, **args)
            ctx.check(o.close(d, signed, 0, slack), 'compare_result is not value minus target ' + what, got=str(d),
                      a=m.a, b=m.b, n=m.n, target=str(used), **detail)
            d = cf.compare_result(**args)
            ctx.check(o.close(d, abs(signed), 0, slack), 'compare_result is not the absolute difference ' + what,
                      got=str(d), a=m.a, b=m.b, n=m.n, target=str(used), **detail)


def apply(ctx, cf, m, op, k):
    """Runs one operation on the real object and on the model."""
    if op.startswith('gen'):
        m.n, m.fresh = int(op[3:]), True
        cf.gen_iterations(m.n)
    elif op.startswith('addnf'):
        m.n, m.fresh = m.n + int(op[5:]), False
        cf.add_iterations(int(op[5:]), exec_finalize=False)
    elif op.startswith('add'):
        m.n, m.fresh = m.n + int(op[3:]), True
        cf.add_iterations(int(op[3:]))
    elif op == 'other':
        a, b = ALT[(k + 1) % len(ALT)]
        other = make(a, b, False, True)
        other.gen_iterations(4)
        other.reinitialize(copy.deepcopy(ALT[k % len(ALT)][0]), copy.deepcopy(ALT[k % len(ALT)][1]))
        other.add_iterations(3)
    else:
        a, b = ALT[k % len(ALT)]
        # flat lists of coefficients as well as nested ones
        if k % 2:
            a, b = o.nested(a), o.nested(b)
        a, b = copy.deepcopy(a), copy.deepcopy(b)
        if op == 'rein_ab':
            m.a, m.b = a, b
            cf.reinitialize(copy.deepcopy(a), copy.deepcopy(b))
        elif op == 'rein_same':
            a, b = copy.deepcopy(o.nested(m.a)), copy.deepcopy(o.nested(m.b))
            m.a, m.b = a, b
            cf.reinitialize(copy.deepcopy(a), copy.deepcopy(b))
        elif op == 'rein_a':
            m.a = a
            cf.reinitialize(a_coeffs=copy.deepcopy(a))
        elif op == 'rein_b':
            m.b = b
            cf.reinitialize(b_coeffs=copy.deepcopy(b))
        elif op == 'rein_a0':
            # lists without interlacing whose first coefficient is zero
            m.a = ([0], (0, 1, 2), [0, 0, -3])[k % 3]
            cf.reinitialize(a_coeffs=copy.deepcopy(m.a))
        elif op == 'rein_b0':
            m.b = ([0, 1], (0, 0, 2), [0, 3, 1])[k % 3]
            cf.reinitialize(b_coeffs=copy.deepcopy(m.b))
        else:
            cf.reinitialize()
        m.n, m.fresh = 0, True


def run(unit, ctx):
    if unit[0] == 'sweep':
        return sweep(unit, ctx)
    _, i, logging, dps, depth, first = unit
    mpmath.mp.dps = dps
    a, b = (HIST + TERMINATING)[i]
    avoid = i < len(HIST)
    target = (None, mpmath.mpf(22) / 7, mpmath.mpf(0), -mpmath.mpf(10)**-9)[i % 4]
    for length in range(0, depth + 1):
        for ops in itertools.product(OPS, repeat=length):
            if first is not None and (not ops or ops[0] != first):
                continue
            cf = make(a, b, logging, avoid, target)
            m = Model(a, b)
            for k, op in enumerate(ops):
                apply(ctx, cf, m, op, k)
            ctx.step()
            ctx.state((str(m.a), str(m.b), m.n, m.fresh, logging))
            compare(ctx, cf, m, 'after a history', target=target, history=ops, start=(a, b), logging=logging)
            if length and ops[-1].startswith('rein'):
                # a re-initialised object behaves like a fresh one: one more extension and one more generation
                for op in ('add3', 'gen2'):
                    apply(ctx, cf, m, op, 0)
                    ctx.step()
                    compare(ctx, cf, m, 'after re-initialisation', target=target, history=ops + (op,), start=(a, b),
                            logging=logging)
            ctx.trace({'start': (a, b), 'logging': logging, 'history': ops} if length == depth else None)


def sweep(unit, ctx):
    _, i, j, n, deep, dps = unit
    mpmath.mp.dps = dps
    a, b = A[i], B[j]
    given_a, given_b = copy.deepcopy(a), copy.deepcopy(b)
    if (i + j) % 2:
        given_a = tuple(tuple(p) if isinstance(p, list) else p for p in given_a)
    keep = copy.deepcopy((given_a, given_b))
    cf = ContFrac(given_a, given_b, logging=(i + j) % 3 == 0)
    m = Model(a, b)
    compare(ctx, cf, m, 'for a fresh object')
    for k in range(n):
        apply(ctx, cf, m, 'add1', 0)
        ctx.step()
        ctx.state((i, j, m.n))
        compare(ctx, cf, m, 'after single steps')
    for k in deep:
        apply(ctx, cf, m, 'gen%d' % k, 0)
        ctx.step()
        compare(ctx, cf, m, 'from scratch')
    ctx.check((given_a, given_b) == keep, 'the given coefficients were changed', before=keep, after=(given_a, given_b))
    ctx.trace()
