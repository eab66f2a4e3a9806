"""C21: all call histories of the constants' generators, against independently computed values."""
import itertools
import mpmath
import gen_consts as g
from mc import oracle as o

PROPERTY = 'C21'
ASSUMPTIONS = ['the four "feig" constants have no closed form: their reference values are the digits of the pinned commit',
               'generators are called with keyword arguments, as main does']
SPACE = {
    'quick': 'all histories of 2 requests over 30 constants x 10 precision requests (none, 1..1000 digits), and all histories of length 4 over 6 constants x 4 requests and 2 direct changes of the '
             'working precision; every value is compared at every step and again at the end of the history',
    'thorough': 'histories of length 3 over all constants x 6 requests and of length 5 over 6 constants'}
FEIG = ['0.832367236905316424849095446276104487378444151012251178801815537790651149061721299210574967325072848966217',
        '1.83125898493713148534217339787378162744129809037623796547741164647029628921518197466402695607431535931144',
        '2.8315090047407180144993675864514825103861092055443549309368086842363044614290970217463629831538000035030',
        '1.5546180470640874386344153591097097603679027104799317816179366813305881904302037128542124779889011575139']


def references():
    with mpmath.workdps(130):
        refs = [('pi', 'gen_pi_const', {}, +mpmath.pi), ('e', 'gen_e_const', {}, mpmath.exp(1)), ('phi', 'gen_phi_const', {}, (1 + mpmath.sqrt(5)) / 2),
                ('euler_masch', 'gen_euler_masch_const', {}, +mpmath.euler), ('apery', 'gen_apery_const', {}, mpmath.zeta(3)),
                ('percolation 0', 'gen_percolation_consts', {'i': 0}, 1 - 2 * mpmath.sin(mpmath.pi / 18)),
                ('percolation 1', 'gen_percolation_consts', {'i': 1}, 2 * mpmath.sin(mpmath.pi / 18))]
        refs += [('feig %d' % i, 'gen_feig_consts', {'i': i}, mpmath.mpf(s)) for i, s in enumerate(FEIG)]
        refs += [('zeta %d' % i, 'gen_zeta_consts', {'i': i}, mpmath.zeta(i)) for i in range(2, 21)]
    return refs


REFS = references()
PRECS = [None, 1, 5, 15, 30, 50, 95, 100, 150, 1000]


def units(tier):
    deep = tier == 'thorough'
    out = [['pairs', i, p] for i in range(len(REFS)) for p in range(len(PRECS))]
    sel = [0, 1, 4, 5, 8, 13]
    for i in sel:
        for p in (0, 1, 2, 3):
            out.append(['long', i, p, 5 if deep else 4])
    if deep:
        out += [['triples', i, p] for i in range(len(REFS)) for p in (0, 2, 5, 6, 8, 9)]
    return out


def value_ok(x, ref, dps):
    if not isinstance(x, mpmath.mpf) or not mpmath.isfinite(x):
        return False
    with mpmath.workdps(140):
        return abs(x - ref) <= abs(ref) * mpmath.mpf(10)**-min(dps, 95)


def request(ctx, history, kept, i, prec):
    name, gen, kw, ref = REFS[i]
    before = mpmath.mp.dps
    f = getattr(g, gen)
    v = f(**kw) if prec is None else f(prec=prec, **kw)
    ctx.step()
    dps = before if prec is None else prec
    if mpmath.mp.dps != dps:
        ctx.fail('requesting a constant leaves the wrong working precision', constant=name, requested=prec, before=before, after=mpmath.mp.dps, history=history)
    if not value_ok(v, ref, dps):
        ctx.fail('wrong value of a constant', constant=name, requested=prec, working=dps, value=mpmath.nstr(v, 110) if isinstance(v, mpmath.mpf) else repr(v),
                 expected=mpmath.nstr(ref, 110), history=history)
    kept.append((v, ref, dps, name))


def finish(ctx, history, kept):
    for v, ref, dps, name in kept:
        if not value_ok(v, ref, dps):
            ctx.fail('a value handed out earlier changed', constant=name, history=history)
    ctx.trace(history)


def run(unit, ctx):
    kind = unit[0]
    if kind in ('pairs', 'triples'):
        first = (unit[1], PRECS[unit[2]])
        second = [(i, p) for i in range(len(REFS)) for p in (PRECS if kind == 'pairs' else (None, 5, 50, 95, 150, 1000))]
        for rest in itertools.product(second, repeat=1 if kind == 'pairs' else 2):
            mpmath.mp.dps = 77
            kept, history = [], [first] + list(rest)
            for i, p in history:
                request(ctx, history, kept, i, p)
            ctx.state((first, rest, kind))
            finish(ctx, history, kept)
    else:
        sel = [0, 1, 4, 5, 8, 13]
        moves = [(i, p) for i in sel for p in (None, 15, 60, 120)] + [('dps', 20), ('dps', 200)]
        first = (unit[1], (None, 15, 60, 120)[unit[2]])
        for rest in itertools.product(moves, repeat=unit[3] - 2):
            for last in sel:
                mpmath.mp.dps = 33
                kept, history = [], [first] + list(rest) + [(last, None)]
                for i, p in history:
                    if i == 'dps':
                        mpmath.mp.dps = p
                    else:
                        request(ctx, history, kept, i, p)
                ctx.state((first, rest, last))
                finish(ctx, history, kept)
    mpmath.mp.dps = 50
