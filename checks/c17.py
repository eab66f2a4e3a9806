"""C17: versions of table files: all directory contents of the alphabet, and all run histories of the real program."""
import itertools
import os
import shutil
from mc import runner
import configfile

PROPERTY = 'C17'
UNIT_TIMEOUT = 800
ASSUMPTIONS = ['table names and directories beyond the alphabet behave like those in it']
SPACE = {
    'quick': 'every subset of the existing versions {unversioned,1,2,9,10,11,99}, of {7,99,100,1000,12345} and of {9,010,0008,11}, without and with 16 files of other tables, for every operation, 10 spellings of the configured '
             'name, 9 table names (also with regular-expression characters) and several directories; every history of up to 3 real generate/expand/use runs from every '
             'subset of {unversioned,1,9,10}, with the contents of every table file tracked',
    'thorough': 'more versions, histories of 4 runs'}
FOREIGN = ['{0}2_v50.pkl', '{0}{0}_v60.pkl', '{0}_v70.pkl.tmp', '{0}_v80.txt', '{0}_v.pkl', '{0}_v90x.pkl', 'x_{0}_v95.pkl', '{0}_part00_v97.pkl', '{0}_v-98.pkl',
           '{0}_v98_v99.pkl', '{0}_v94.pkl.pkl', '{0}_v93.pkl_old.pkl', 'other.pkl', '{0}_v1000', '{0}_V2000.pkl', 'a{0}.pkl']
NAMES = ['t', 'Table', 't.b', 't+1', 'my (table)', 't_v', 'v2', 't_v2_x', '[ab]c']
OPS = ['generate', 'expand', 'use']
# a and b of continued fractions in the field of phi: powers of phi
POWERS = [(1, 1), (3, -1), (4, 1), (7, -1), (11, 1), (18, -1), (29, 1), (47, -1)]
FIB = 22


def units(tier):
    deep = tier == 'thorough'
    versions = [0, 1, 2, 9, 10, 11, 99] + ([100, 3] if deep else [])
    out = [['names', mask, versions] for mask in range(2**len(versions))]
    # numbers of many digits, and numbers written with leading zeros
    out += [['names', mask, [7, 99, 100, 1000, 12345]] for mask in range(1, 32)]
    out += [['names', mask, [9, '010', '0008', 11]] for mask in range(1, 16)]
    start = [0, 1, 9, 10] + ([2, 99] if deep else [])
    for mask in range(2**len(start)):
        out.append(['runs', [v for k, v in enumerate(start) if mask >> k & 1], 4 if deep else 3])
    return out


def filename(name, v):
    if isinstance(v, str):
        return '%s_v%s.pkl' % (name, v)
    return '%s.pkl' % name if v == 0 else '%s_v%d.pkl' % (name, v)


def run_names(ctx, unit):
    _, mask, versions = unit
    present = [v for k, v in enumerate(versions) if mask >> k & 1]
    newest = max(present, key=int) if present else None
    for name, foreign, d in itertools.product(NAMES, (False, True), ('tables', '.')):
        if d == '.' and (name not in ('t', 't.b') or foreign):
            continue
        top = ctx.fresh_dir()
        os.chdir(top)
        os.makedirs(os.path.join('tables', 'sub'))
        for v in present:
            open(os.path.join(d, filename(name, v)), 'w').close()
        if foreign:
            for f in FOREIGN:
                open(os.path.join(d, f.format(name)), 'w').close()
            # and other tables named like a version of another spelling
            for other in NAMES:
                if other != name:
                    open(os.path.join(d, filename(other, 40)), 'w').close()
        before = sorted(os.listdir(d))
        spellings = [name, name + '.pkl', name + '_v1.pkl', name + '_v7', name + '_v10.pkl', name + '_v5', name + '_v100.pkl', './' + name, 'sub/../' + name + '.pkl', os.path.abspath(os.path.join(d, name))]
        for s, op in itertools.product(spellings, OPS):
            if d == '.' and 'sub' in s:
                continue
            conf = s if d == '.' or os.path.isabs(s) else os.path.join(d, s)
            runner.write_config('c.ini', hashtable_file=conf, hashtable_file_operation=op)
            config = configfile.ConfigParser('c.ini').get_config()
            got = config['hashtable_file']
            ctx.check(os.path.realpath(os.path.dirname(got) or '.') == os.path.realpath(d), 'the table file is in another directory', configured=conf, got=got)
            base = os.path.basename(got)
            if newest is None:
                wanted = [filename(name, 1)]
                for v in (5, 7, 10, 100):
                    if os.path.basename(s) in (name + '_v%d' % v, filename(name, v)):
                        wanted.append(filename(name, v))
            elif op == 'generate':
                wanted = [filename(name, int(newest) + 1)]
            else:
                wanted = [filename(name, newest)]
            ctx.check(base in wanted, 'wrong version of the table file', existing=before, configured=conf, operation=op, got=got, expected=wanted)
            if newest is None:
                ctx.check(not os.path.exists(got), 'a file of another table would be used', got=got)
            ctx.step()
            ctx.outcome('%s from %s' % (op, 'nothing' if newest is None else 'v%s' % newest))
            ctx.state((mask, name, foreign, d, s, op))
        ctx.check(sorted(f for f in os.listdir(d) if f != 'c.ini') == before, 'reading the configuration changed the directory', before=before, after=sorted(os.listdir(d)))
        ctx.trace({'existing': before, 'name': name})
        os.chdir(ctx.scratch)
        shutil.rmtree(top)


_tables = {}


def table_bytes(ctx, k):
    """A real table of only the k-th power."""
    if k not in _tables:
        d = ctx.fresh_dir()
        os.chdir(d)
        os.mkdir('tables')
        a, b = POWERS[k]
        runner.write_config('c.ini', a_coeffs_range=[[[a, a + 1]]], b_coeffs_range=[[[b, b + 1]]])
        runner.run_main('c.ini')
        files = os.listdir('tables')
        ctx.check(files == ['t_v1.pkl'], 'the first table is not version 1', files=files)
        with open('tables/t_v1.pkl', 'rb') as f:
            _tables[k] = f.read()
        os.chdir(ctx.scratch)
        shutil.rmtree(d)
    return _tables[k]


def contents(ctx, path):
    """The powers in a table file."""
    entries = [e for l in runner.table_entries(runner.load_table(path)).values() for e in l]
    out = []
    for (a, b), f in entries:
        ctx.check(f == 0 and (a[0][0], b[0][0]) in POWERS, 'unexpected entry of a table', entry=(a, b, f))
        out.append(POWERS.index((a[0][0], b[0][0])))
    return sorted(out)


SPELL = ['tables/t', 'tables/t.pkl', './tables/t_v1.pkl', 'tables/t_v3']


def explore(ctx, d, model, depth, k, max_depth, history):
    """model: {version: sorted powers}. d is the directory in that state."""
    if depth == max_depth:
        ctx.trace({'history': history})
        return
    for op in OPS:
        nd = ctx.fresh_dir()
        shutil.rmtree(nd)
        shutil.copytree(d, nd)
        os.chdir(nd)
        before = runner.snapshot('tables')
        a, b = POWERS[k]
        runner.write_config('c.ini', a_coeffs_range=[[[a, a + 1]]], b_coeffs_range=[[[b, b + 1]]], hashtable_file_operation=op, hashtable_file=SPELL[(depth + len(model)) % 3 if model else depth % 2],
                            lhs_type='rationalfunc', lhs_params=[[[0, 1], [1, FIB]], [[1, 2]], 0], gen_hashtable_only='auto')
        h = history + [op]
        new_model = dict(model)
        newest = max(model) if model else None
        try:
            runner.run_main('c.ini')
            failed = None
        except Exception as e:
            failed = e
        after = runner.snapshot('tables')
        for f, content in before.items():
            ctx.check(f in after, 'a run deletes a file of an earlier run', file=f, history=h, before=sorted(before))
            ctx.check(after[f] == content, 'a run changes a file of an earlier run', file=f, history=h, before=sorted(before))
        new = sorted(set(after) - set(before))
        ctx.step()
        ctx.state((tuple(sorted((v, tuple(c)) for v, c in model.items())), op, depth))
        if op != 'generate' and newest is None:
            ctx.check(failed is not None, 'a run on a missing table succeeds', history=h)
            ctx.check(not new, 'a failed run leaves files', files=new, history=h)
            ctx.outcome('no table')
        else:
            if failed is not None:
                raise failed
            if op == 'use':
                ctx.check(not new, 'using a table leaves new table files', files=new, history=h)
                rows = runner.read_rows(runner.results_dirs()[-1])[2:]
                got = sorted(POWERS.index((eval(r[0])[0][0], eval(r[1])[0][0])) for r in rows)
                want = [j for j in model[newest] if j < 6]
                ctx.check([j for j in got if j < 6] == want, 'the table that is used is not the newest', history=h, versions=sorted(model), got=got, expected=want)
                shutil.rmtree('results')
            else:
                v = 1 if newest is None else newest + 1
                ctx.check(new == [filename('t', v)], 'the new table is not stored as the next version', history=h, versions=sorted(model), new=new, expected=filename('t', v))
                want = sorted(([] if op == 'generate' else model[newest]) + [k])
                got = contents(ctx, os.path.join('tables', new[0]))
                ctx.check(got == want, 'wrong contents of the new table', history=h, versions=sorted(model), got=got, expected=want)
                new_model[v] = want
            ctx.outcome(op)
        explore(ctx, nd, new_model, depth + 1, k + 1, max_depth, h)
        os.chdir(ctx.scratch)
        shutil.rmtree(nd)


def run(unit, ctx):
    if unit[0] == 'names':
        run_names(ctx, unit)
    else:
        runner.prepare(ctx.scratch)
        _, present, depth = unit
        model = {}
        d = ctx.fresh_dir()
        for n, v in enumerate(present):
            data = table_bytes(ctx, n % 2)
            os.makedirs(os.path.join(d, 'tables'), exist_ok=True)
            with open(os.path.join(d, 'tables', filename('t', v)), 'wb') as f:
                f.write(data)
            model[v] = [n % 2]
        os.makedirs(os.path.join(d, 'tables'), exist_ok=True)
        # the newest table has contents of its own
        if present:
            v = max(present)
            with open(os.path.join(d, 'tables', filename('t', v)), 'wb') as f:
                f.write(table_bytes(ctx, 2))
            model[v] = [2]
        explore(ctx, d, model, 0, 3, depth, ['start %s' % present])
