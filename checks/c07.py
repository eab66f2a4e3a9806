"""C07: joining decimal tables: all pairs and triples of small tables; joining directories in every listing order."""
import copy
import itertools
import os
import pickle
import mpmath
from mpmath import mpf
from mc import oracle as o
from checks.c06 import Model, plain
from decimal_hashtable import DecimalHashTable

PROPERTY = 'C07'
ASSUMPTIONS = ['which of two entries of different accuracies a lookup prefers after a join of tables with different histories is left open']
SPACE = {
    'quick': 'all ordered pairs of the tables reachable by <=3 assignments/accuracy changes over 5 colliding keys (34 tables x 34, same '
             'and different accuracies), triples of a subset, every listing order of directories of up to 4 saved tables with noise '
             'files, output absent / present / partial',
    'thorough': 'as quick with tables of <=4 operations and all triples'}
KEYS = ['0.123456', '0.1234', '0.12999', '0.5', '0.0000001']
DIGITS = 25


def build(spec):
    """spec: (initial accuracy, operations). Values are lists that tell the table and the operation."""
    name, acc, ops = spec
    t, m = DecimalHashTable(acc), Model(acc)
    for n, (op, arg) in enumerate(ops):
        if op == 'acc':
            t.update_accuracy(arg)
            m.history.append(m.acc)
            m.acc = arg
        else:
            v = ['%s%d' % (name, n), '%s%d+' % (name, n)] if n % 2 else ['%s%d' % (name, n)]
            if op == 'dup':
                # the same entries in every table, repeated
                v = ['same', 'same', 'own%d' % n]
            if op == 'add' and m.find(arg) is not None:
                v = m.d[m.find(arg)] + v
            t[arg if plain(arg) is None else mpf(arg)] = list(v)
            m.assign(arg, list(v))
    return t, m


def specs(tier):
    out = []
    for acc in (4, 5):
        out.append((acc, ()))
        for k in KEYS:
            out.append((acc, (('set', k),)))
        for k, l in itertools.combinations(KEYS, 2):
            out.append((acc, (('set', k), ('set', l))))
        for k, l in (('0.123456', '0.1234'), ('0.123456', '0.5'), ('0.1234', '0.5'), ('0.12999', '0.12999')):
            for new in (2, 4, 5, 7):
                if tier == 'thorough' or new != 7:
                    out.append((acc, (('set', k), ('acc', new), ('set', l))))
        out.append((acc, (('set', KEYS[0]), ('acc', 2), ('set', KEYS[1]), ('acc', acc), ('set', KEYS[2]))))
        out.append((acc, (('set', KEYS[0]), ('acc', 6), ('set', KEYS[3]), ('acc', acc), ('set', KEYS[2]))))
        out.append((acc, tuple(('set', k) for k in KEYS)))
        out.append((acc, (('dup', KEYS[0]), ('set', KEYS[3]))))
        out.append((acc, (('dup', KEYS[0]), ('dup', KEYS[3]))))
        # single values become lists when joined
        out.append((acc, (('set', 'parameters'), ('set', KEYS[0]))))
    return out


def units(tier):
    s = specs(tier)
    out = [['pairs', tier, i] for i in range(len(s))]
    out += [['triples', tier, i] for i in range(0, len(s), 1 if tier == 'thorough' else 4)]
    out += [['dirs', n, k] for n in (1, 2, 3, 4) for k in range(3)]
    return out


def contents(t):
    return {str(k): list(v) if isinstance(v, list) else [v] for k, v in t.items()}


def fingerprint(t):
    return (sorted((str(k), repr(v)) for k, v in t.items()), sorted((k, repr(v)) for k, v in vars(t).items()))


def join(ctx, t1, m1, t2, m2, info):
    """Joins and compares; returns False if rejected."""
    f1, f2 = fingerprint(t1), fingerprint(t2)
    c1, c2 = contents(t1), contents(t2)
    ctx.step()
    if m1.acc != m2.acc:
        try:
            t1.append_dict(t2)
        except TypeError:
            ctx.check(fingerprint(t1) == f1 and fingerprint(t2) == f2, 'a rejected join changed a table', **info)
            ctx.outcome('rejected')
            return False
        ctx.fail('tables of different accuracies are joined', **info)
    t1.append_dict(t2)
    ctx.check(fingerprint(t2) == f2, 'the appended table was changed', before=f2, after=fingerprint(t2), **info)
    want = dict(c1)
    for k, v in c2.items():
        want[k] = want.get(k, []) + v
    got = contents(t1)
    ctx.check(got == want, 'the joined table is not the union', expected=want, got=got, **info)
    # the reference map
    for k, v in m2.d.items():
        m1.d[k] = m1.d.get(k, []) + v
    # with no new earlier accuracies the order of preference is the one the first table had
    ordered = all(h in m1.history for h in m2.history)
    m1.history += [h for h in m2.history if h not in m1.history]
    ctx.check(sorted(map(sorted, m1.d.values())) == sorted(map(sorted, got.values())), 'the joined table lost or invented entries',
              expected=m1.d, got=got, **info)
    for k in KEYS:
        slots = [s for s in {m1.cut(k, acc) for acc in m1.history + [m1.acc]} if s in m1.d]
        ctx.check((mpf(k) in t1) == bool(slots), 'an entry is not reachable after the join', key=k, slots=slots, **info)
        if len(slots) == 1:
            v = t1[mpf(k)]
            ctx.check(v == m1.d[slots[0]] and t1.get(mpf(k)) == v, 'a lookup after the join finds something else', key=k,
                      expected=m1.d[slots[0]], got=v, **info)
        elif slots and ordered:
            ctx.check(t1[mpf(k)] == m1.d[m1.find(k)], 'a lookup after the join does not prefer the earliest accuracy', key=k, **info)
        elif slots:
            ctx.check(t1[mpf(k)] in [m1.d[s] for s in slots], 'a lookup after the join finds something else', key=k, **info)
            ctx.skip('preference between accuracies')
    ctx.outcome('joined')
    ctx.state(repr(fingerprint(t1)))
    return True


def run(unit, ctx):
    mpmath.mp.dps = DIGITS
    if unit[0] == 'dirs':
        return dirs(unit, ctx)
    kind, tier, i = unit
    s = specs(tier)
    for j in range(len(s)):
        info = {'first': s[i], 'second': s[j]}
        t1, m1 = build(('A',) + s[i])
        t2, m2 = build(('B',) + s[j])
        if kind == 'pairs':
            ok = join(ctx, t1, m1, t2, m2, info)
            if ok:
                # an own entry, a pickle round trip
                t1 = pickle.loads(pickle.dumps(t1))
                for k in KEYS:
                    sl = [x for x in {m1.cut(k, acc) for acc in m1.history + [m1.acc]} if x in m1.d]
                    ctx.check((mpf(k) in t1) == bool(sl), 'an entry is not reachable after the join and a save', key=k, **info)
            ctx.trace(info)
        else:
            if m1.acc != m2.acc:
                continue
            for l in range(j % 3, len(s), 3):
                t1, m1 = build(('A',) + s[i])
                t2, m2 = build(('B',) + s[j])
                t3, m3 = build(('C',) + s[l])
                if join(ctx, t1, m1, t2, m2, info):
                    f2 = fingerprint(t2)
                    join(ctx, t1, m1, t3, m3, dict(info, third=s[l]))
                    ctx.check(fingerprint(t2) == f2, 'a table that was appended before is changed by appending another one', before=f2, after=fingerprint(t2),
                              third=s[l], **info)
                ctx.trace()


def dirs(unit, ctx):
    import dill
    import enum_params
    import join_hashtables
    _, n, variant = unit
    # saved search objects with tables
    tables = []
    for k in range(n):
        mitm = enum_params.MITM(hashtable_prec=4)
        for key, v in (('0.1234', 'x'), ('0.5', 'y'), ('0.%d' % (k + 6), 'z'))[:3 if (k + variant) % 3 else 2]:
            mitm.dec_hashtable[mpf(key)] = [(('%s%d' % (v, k),), 0), (('%s%d-' % (v, k),), 2)]
        if variant == 1:
            mitm.dec_hashtable.update_accuracy(6)
            mitm.dec_hashtable[mpf('0.77777%d1' % k)] = [(('w%d' % k,), 0)]
        mitm.dec_hashtable['parameters'] = {'part': k}
        tables.append(mitm)
    real_listdir, real_scandir = os.listdir, os.scandir
    for perm in itertools.permutations(range(n)):
        for existing in (None, b'precious', b''):
            work = ctx.fresh_dir()
            d = os.path.join(work, 'parts')
            os.mkdir(d)
            names = ['table_part%02d_v%d.pkl' % (k, k + 1) for k in range(n)]
            for name, t in zip(names, tables):
                with open(os.path.join(d, name), 'wb') as f:
                    dill.dump(t, f, protocol=dill.HIGHEST_PROTOCOL)
            for noise in ('config_0.ini', 'table_part00_v1.pkl.tmp', 'notes', 'pkl', 'x.pkl.bak'):
                with open(os.path.join(d, noise), 'wb') as f:
                    f.write(b'not a table')
            before = {x: open(os.path.join(d, x), 'rb').read() for x in real_listdir(d)}
            out = os.path.join(work, 'joined.pkl')
            if existing is not None:
                with open(out, 'wb') as f:
                    f.write(existing)
            order = [names[k] for k in perm]
            rank = {x: r for r, x in enumerate(['notes'] + order + ['config_0.ini', 'table_part00_v1.pkl.tmp', 'pkl', 'x.pkl.bak'])}

            def listdir(path='.'):
                return sorted(real_listdir(path), key=lambda x: rank.get(x, 99))

            class Scan(list):
                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

            def scandir(path='.'):
                with real_scandir(path) as it:
                    return Scan(sorted(it, key=lambda e: rank.get(e.name, 99)))
            os.listdir, os.scandir = listdir, scandir
            try:
                join_hashtables.main(d, out)
            except Exception as e:
                if existing is None:
                    raise
            finally:
                os.listdir, os.scandir = real_listdir, real_scandir
            ctx.step()
            info = {'listing order': order, 'existing output': str(existing)}
            after = {x: open(os.path.join(d, x), 'rb').read() for x in real_listdir(d)}
            ctx.check(before == after, 'joining changed the joined files', **info)
            if existing is not None:
                ctx.check(open(out, 'rb').read() == existing, 'an existing output file was overwritten', **info)
                ctx.outcome('kept')
            else:
                ctx.check(sorted(real_listdir(work)) == ['joined.pkl', 'parts'], 'unexpected files', got=real_listdir(work), **info)
                with open(out, 'rb') as f:
                    joined = dill.load(f)
                want = {}
                for t in tables:
                    for k, v in contents(t.dec_hashtable).items():
                        want.setdefault(k, []).extend(map(repr, v))
                got = {k: sorted(map(repr, v)) for k, v in contents(joined.dec_hashtable).items()}
                ctx.check(got == {k: sorted(v) for k, v in want.items()}, 'the joined file is not the union of the saved tables',
                          expected=want, got=got, **info)
                for key in ('0.1234', '0.5'):
                    ctx.check(mpf(key) in joined.dec_hashtable, 'an entry of the joined file is not reachable', key=key, **info)
                ctx.outcome('joined')
            ctx.state((n, variant, perm, existing))
            ctx.trace(info)
            import shutil
            shutil.rmtree(work)
