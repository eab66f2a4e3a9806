"""C06: breadth-first search of the decimal table's states against a reference map."""
import collections
import pickle
import mpmath
from mpmath import mpf
from mc import oracle as o
from decimal_hashtable import DecimalHashTable

PROPERTY = 'C06'
ASSUMPTIONS = ['the table\'s state is its contents and its attributes (states with equal contents, attributes and reference state '
               'are merged)', 'keys outside the alphabet behave like those inside']
SPACE = {
    'quick': 'breadth-first search over all histories (merged by the complete state of the real object and of the model) of '
             'length <= 4 (5 for the first alphabet) over {assign, setdefault+append, delete (8 keys), change accuracy (3 values), pickle/dill round trip}, '
             'in every state all lookups of 16 keys (get, [], in, get default) are compared; 8 key alphabets (one of them '
             'with magnitudes up to 10^1100 and 10^-2000); an alphabet with values that are false (None, 0, \'\'); all the orders of 5 '
             'accuracies (also followed by 2 others, or by another and the first two again) with numbers stored at any two stages; '
             'histories of 20 accuracies with a number stored at each, saved and loaded by pickle, dill and copy at every stage',
    'thorough': 'histories of length <= 6'}

# key alphabets: decimal literals that collide / nearly collide at the accuracies used; (initial accuracy, new accuracies, keys)
ALPHABETS = [
    (4, (2, 6, 4), ['0.123456789', '0.12345', '0.1234', '0.12', '0.129', '0.123', '0.2', '0.1299999999']),
    (3, (5, 2, 7), ['0', '0.0000001', '0.00000012', '0.0001', '0.001', '0.00099', '0.01', '1e-9']),
    (5, (3, 8, 1), ['0.5', '0.50000', '0.499999', '0.500001', '0.4999999999', '0.05', '0.95', '0.999999999']),
    (6, (2, 4, 9), ['3.14159265', '3.141592', '3.1415', '31.4159265', '314.159265', '3', '30', '0.314159265']),
    (8, (6, 10, 3), ['-0.25', '0.25', '-0.251', '0.2500000001', '-2.5', '2.5', '0.0000000250', '123456789.5']),
    (4, (2, 3, 12), ['0.1111111111111', '0.11111', '0.111', '0.11', '0.1', '0.01111', '0.101', '0.11101']),
    (2, (1, 3, 2), ['0.10', '0.19', '0.15', '0.109', '0.199', '0.2', '0.02', '0.019']),
    # extreme magnitudes: the plain expansion of 1.25e-1100 has nothing in common with that of 1.25
    (5, (2, 8, 5), ['1.25', '1.25e-1100', '0', '1.25e1100', '125', '1.25e-400', '1.25e30', '-1.25e-2000']),
]
# the alphabet that is also used with values that are false
FALSY = 0
FALSY_VALUES = {'none': None, 'zero': 0, 'empty': ''}
NAMES = ['parameters', 'par', '0.12abc', 'parameters2', ' parameters', 'parameters ', 'Parameters', 'par_1']
DIGITS = 25


def plain(literal):
    """The plain decimal expansion of the literal with 25 significant digits (computed from the literal, exactly)."""
    if literal in NAMES:
        return None
    from decimal import Decimal
    d = Decimal(literal)
    s = format(abs(d), 'f')
    if '.' not in s:
        s += '.0'
    s += '0' * 40
    return ('-' if d < 0 else '') + s


class Model:
    """A map from (accuracy at which it was stored, leading digits) to values."""
    def __init__(self, acc):
        self.acc, self.history, self.d = acc, [], {}

    @staticmethod
    def cut(key, acc):
        p = plain(key)
        return key if p is None else p[:acc + 2]

    def find(self, key):
        """The slot a lookup finds: the earliest accuracy that has the number. None if absent."""
        if plain(key) is None:
            return key if key in self.d else None
        for acc in self.history + [self.acc]:
            s = self.cut(key, acc)
            if s in self.d:
                return s
        return None

    def assign(self, key, value):
        if plain(key) is not None:
            for acc in self.history:
                self.d.pop(self.cut(key, acc), None)
        self.d[self.cut(key, self.acc)] = value

    def delete(self, key):
        del self.d[self.find(key)]

    def key(self):
        return (self.acc, tuple(self.history), tuple(sorted((k, repr(v)) for k, v in self.d.items())))


def units(tier):
    deep = tier == 'thorough'
    return [['bfs', i, (6 if deep else 5 if i == 0 else 4), first] for i in range(len(ALPHABETS)) for first in range(len(ops(i)))] + [['types']] + \
        [['bfs', 'falsy', 5 if deep else 4, first] for first in range(len(ops('falsy')))] + \
        [['orders', first] for first in range(3, 8)] + [['long', k] for k in range(4)]


def ops(i):
    if i == 'falsy':
        acc, news, keys = ALPHABETS[FALSY]
        return [(op, k) for op in ('none', 'zero', 'empty', 'default', 'set', 'del') for k in (keys[0], keys[3])] + \
            [('acc', n) for n in news[:2]] + [('pickle', None)]
    acc, news, keys = ALPHABETS[i]
    out = []
    for k in keys[:5] + NAMES[:1]:
        out.append(('set', k))
    for k in keys[:4] + NAMES[2:3]:
        out.append(('del', k))
    for k in keys[4:7] + keys[:1]:
        out.append(('append', k))
    out += [('acc', n) for n in news] + [('pickle', None), ('dill', None)]
    return out


def given(key, i):
    """The key object handed to the real table."""
    if plain(key) is None:
        return key
    return mpf(key)


def apply_real(t, op, arg, i, step):
    if op == 'set':
        t[given(arg, i)] = 'v%d' % step
    elif op == 'del':
        try:
            del t[given(arg, i)]
        except KeyError:
            return t, 'KeyError'
    elif op in FALSY_VALUES:
        t[given(arg, i)] = FALSY_VALUES[op]
    elif op == 'default':
        return t, ('setdefault', t.setdefault(given(arg, i), 'v%d' % step))
    elif op == 'append':
        t.setdefault(given(arg, i), '')
        t[given(arg, i)] = t[given(arg, i)] + 'a%d' % step
    elif op == 'acc':
        t.update_accuracy(arg)
    elif op == 'pickle':
        t = pickle.loads(pickle.dumps(t, protocol=pickle.HIGHEST_PROTOCOL))
    elif op == 'dill':
        import dill
        t = dill.loads(dill.dumps(t, protocol=2))
    return t, None


def apply_model(m, op, arg, step):
    if op == 'set':
        m.assign(arg, 'v%d' % step)
    elif op == 'del':
        if m.find(arg) is None:
            return 'KeyError'
        m.delete(arg)
    elif op in FALSY_VALUES:
        m.assign(arg, FALSY_VALUES[op])
    elif op == 'default':
        if m.find(arg) is None:
            m.assign(arg, 'v%d' % step)
        return 'setdefault', m.d[m.find(arg)]
    elif op == 'append':
        s = m.find(arg)
        m.assign(arg, (m.d[s] if s is not None else '') + 'a%d' % step)
    elif op == 'acc':
        m.history.append(m.acc)
        m.acc = arg
    return None


def observe(ctx, t, m, i, hist):
    keys = ALPHABETS[FALSY if i == 'falsy' else i][2] + NAMES
    missing = object()
    for k in keys:
        s = m.find(k)
        want = missing if s is None else m.d[s]
        g = given(k, i)
        ctx.step()
        ok = (g in t) == (s is not None)
        ctx.check(ok, 'membership differs from the reference map', key=k, history=hist, expected=s is not None)
        got = t.get(g, missing)
        ctx.check(got is want or got == want, 'get differs from the reference map', key=k, history=hist,
                  expected=str(want), got=str(got))
        try:
            got = t[g]
        except KeyError:
            got = missing
        ctx.check(got is want or got == want, 'lookup differs from the reference map', key=k, history=hist,
                  expected=str(want), got=str(got))
        if plain(k) is None:
            continue
        if m.find(k) is None:
            ctx.check(t.get(g) is None and t.get(g, 0) == 0, 'get of an absent key is not None', key=k, history=hist)
    ctx.check(len(t) == len(m.d), 'number of entries differs from the reference map', history=hist, expected=sorted(map(str, m.d.items())),
              got=sorted(map(str, t.items())))
    ctx.check(sorted(map(str, t.values())) == sorted(map(str, m.d.values())), 'values differ from the reference map',
              history=hist, expected=sorted(map(str, m.d.values())), got=sorted(map(str, t.values())))


def rebuild(i, hist):
    acc = ALPHABETS[FALSY if i == 'falsy' else i][0]
    t, m = DecimalHashTable(acc), Model(acc)
    err = None
    for step, (op, arg) in enumerate(hist):
        t, e1 = apply_real(t, op, arg, i, step)
        e2 = apply_model(m, op, arg, step)
        err = (e1, e2)
    return t, m, err


def real_key(t):
    return (tuple(sorted((str(k), repr(v)) for k, v in t.items())), tuple(sorted((k, str(v)) for k, v in vars(t).items())))


def run(unit, ctx):
    mpmath.mp.dps = DIGITS
    if unit[0] == 'types':
        return types(ctx)
    if unit[0] == 'orders':
        return orders(ctx, unit[1])
    if unit[0] == 'long':
        return long_history(ctx, unit[1])
    _, i, depth, first = unit
    alphabet = ops(i)
    seen = set()
    frontier = collections.deque([[alphabet[first]]])
    while frontier:
        hist = frontier.popleft()
        t, m, err = rebuild(i, hist)
        ctx.check(err[0] == err[1], '%s: expected %s, got %s' % (hist[-1][0], err[1], err[0]), history=hist)
        # values are step numbers: states are merged up to renaming of the values by order of appearance
        key = canon(real_key(t), m.key())
        if key in seen:
            continue
        seen.add(key)
        ctx.state((i, key))
        observe(ctx, t, m, i, hist)
        ctx.trace({'alphabet': i, 'history': hist} if len(hist) == 4 else None)
        ctx.outcome('%d entries' % len(m.d))
        if len(hist) < depth:
            for op in alphabet:
                frontier.append(hist + [op])


def canon(rk, mk):
    """Renames the step numbers inside the values (the table never looks inside them)."""
    import re
    names = {}

    def sub(match):
        return 'V%d' % names.setdefault(match.group(0), len(names))
    return re.sub(r"[va]\d+", sub, repr((rk, mk)))


def orders(ctx, first):
    """Long accuracy histories: all orders of 5 accuracies that begin with the given one, with a number stored at one stage and
    a (possibly) colliding one at another."""
    import itertools
    a, b, c = '0.123456789', '0.123456711', '0.123999999'
    for rest in itertools.permutations([n for n in range(3, 8) if n != first]):
      for tail, pairs in (((), ((a, b), (a, c), (a, a), (a, '0.5'))), ((9, 10), ((a, b), (a, c))), ((9, first, rest[0]), ((a, b),))):
        order = (first,) + rest + tail
        for i, j in itertools.product(range(5), repeat=2):
            for x, y in pairs:
                t, m = DecimalHashTable(order[0]), Model(order[0])
                for stage, acc in enumerate(order):
                    if stage:
                        t.update_accuracy(acc)
                        m.history.append(m.acc)
                        m.acc = acc
                    for at, key in ((i, x), (j, y)):
                        if at == stage:
                            t[mpf(key)] = 'v%d' % len(m.d)
                            m.assign(key, 'v%d' % len(m.d))
                hist = {'accuracies': order, 'stored': [(i, x), (j, y)]}
                for key in (a, b, c, '0.5'):
                    s = m.find(key)
                    ctx.step()
                    ctx.check(t.get(mpf(key)) == (None if s is None else m.d[s]), 'lookup after a long history of accuracies',
                              key=key, expected=None if s is None else m.d[s], got=t.get(mpf(key)), **hist)
                ctx.state(repr(hist))
                ctx.trace(hist)


def long_history(ctx, which):
    """20 accuracies, a number (and one that collides with it at the lower accuracies) stored at each, the table saved and loaded
    at one of the stages."""
    import copy
    import dill
    accs = [list(range(3, 23)), list(range(22, 2, -1)), [3 + (7 * k) % 20 for k in range(20)],
            [3 + k // 2 if k % 2 else 22 - k // 2 for k in range(20)]][which]
    base = '0.%s12345678901234567890123'
    keys = [base % ('%02d' % (k + 11)) for k in range(20)]
    later = [k[:9] + '77777777777777777' for k in keys]
    for save in range(21):
        for how in (pickle, dill, copy):
            t, m = DecimalHashTable(accs[0]), Model(accs[0])
            for stage, acc in enumerate(accs):
                if stage:
                    t.update_accuracy(acc)
                    m.history.append(m.acc)
                    m.acc = acc
                for key in [keys[stage]] + ([later[stage - 9]] if stage % 3 == 0 and stage >= 9 else []):
                    t[mpf(key)] = 'v%d' % stage
                    m.assign(key, 'v%d' % stage)
                if stage == save - 1:
                    t = copy.deepcopy(t) if how is copy else how.loads(how.dumps(t, protocol=2))
            for key in keys + later:
                s = m.find(key)
                want = None if s is None else m.d[s]
                ctx.step()
                ctx.check(t.get(mpf(key)) == want and (mpf(key) in t) == (s is not None),
                          'lookup after a long history of accuracies and a reload', key=key, expected=want, got=t.get(mpf(key)),
                          accuracies=accs, reloaded_at=save, by=how.__name__)
            ctx.check(len(t) == len(m.d), 'number of entries differs from the reference map', accuracies=accs, reloaded_at=save)
            ctx.state((which, save, how.__name__))
            ctx.trace({'accuracies': accs, 'reloaded at': save})


def types(ctx):
    """Strings of numbers are treated as the numbers; mpf keys of many magnitudes and precisions."""
    for acc in range(1, 16):
        for lit in ('0.1234567890123456789', '0.00001234567890123', '0.9999999999999', '12.3456789012345678', '0.5'):
            for dps in (20, 25, 60, 120):
                mpmath.mp.dps = dps
                t = DecimalHashTable(acc)
                t[mpf(lit)] = [1]
                p = plain(lit)
                n = acc + 2
                for other, same in ((p[:n] + '4', True), (p[:n] + '0', True), (p[:n - 1] + str((int(p[n - 1]) + 5) % 10) + '3'
                                                                              if p[n - 1] != '.' else None, False)):
                    if other is None:
                        continue
                    ctx.step()
                    ctx.check((mpf(other + '1') in t) == same, 'numbers are the same key iff they agree through the accuracy',
                              accuracy=acc, stored=lit, other=other + '1', dps=dps)
                ctx.state((acc, lit, dps))
                ctx.trace()
    mpmath.mp.dps = DIGITS
