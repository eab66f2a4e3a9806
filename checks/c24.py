"""C24: all schedules of the part runs of a distributed build (real processes under a controlled scheduler), all join orders."""
import ast
import builtins
import io
import itertools
import json
import os
import shutil
import signal
import mpmath
from mc import runner
from checks import c10
import postprocfuncs

PROPERTY = 'C24'
UNIT_TIMEOUT = 850
ASSUMPTIONS = ['a part run touches shared state only through its files, so it is switched before it starts, before it opens a table file for writing and before it puts the file in place',
               'schedules that reach the same point with the same files present and the same chosen output names continue identically (states are merged by these)',
               'sparse ranges with zero coefficients may name a candidate in two parts']
SPACE = {
    'quick': 'every reachable scheduling state and every transition of the part runs (each in its own process, switched at 3 points): 16 configurations (enumerator types, interlacing, function sets, accuracies) '
             'x 2 parts, 2 of them x 4 parts (the others x 4 parts switched at run granularity); 2 configurations x 16 parts one after another (both directions); the files are joined after every schedule and in every listing order after the first; each joined table is compared to the one of an undivided build and searched once',
    'thorough': 'all configurations x 4 parts switched at 3 points, and 5 configurations x 8 parts at run granularity'}
CONFIGS = [
    dict(a_coeffs_range=[[[1, 5]]], b_coeffs_range=[[[1, 3]]], postproc_funcs_filter=[0, 1]),
    dict(a_coeffs_range=[[[-2, 2], [1, 3]]], b_coeffs_range=[[[-2, 3]]], postproc_funcs_filter=[0]),
    dict(a_coeffs_range=[[[1, 2], [1, 2]]], b_coeffs_range=[[[1, 5], [0, 2]]], postproc_funcs_filter=[0, 2, 5]),
    dict(a_coeffs_range=[[[1, 3]], [[2, 4]]], b_coeffs_range=[[[1, 3]], [[1, 2]]], postproc_funcs_filter=[0]),
    dict(a_coeffs_range=[[[1, 4], [1, 2]]], b_coeffs_range=[[[1, 3], [1, 2]]], postproc_funcs_filter=[12, 13, 0], hashtable_precision=4),
    dict(a_coeffs_range=[[[1, 5], [1, 2]]], b_coeffs_range=[[[1, 3]]], ab_polys_type='sparse', ab_polys_special_params=[3, 2], postproc_funcs_filter=[0]),
    dict(a_coeffs_range=[[[0, 4], [1, 2]]], b_coeffs_range=[[[1, 3]]], ab_polys_type='indexed', postproc_funcs_filter=[0, 1]),
    dict(a_coeffs_range=[[[-4, 4]]], b_coeffs_range=[[[-3, 4]]], postproc_funcs_filter=[0, 10, 11, 20], hashtable_precision=2),
    dict(a_coeffs_range=[[[1, 2]]], b_coeffs_range=[[[1, 7]]], postproc_funcs_filter=[0, 1, 6]),
    dict(a_coeffs_range=[[[3, 4], [1, 6]]], b_coeffs_range=[[[0, 1], [0, 1], [-1, 2]]], postproc_funcs_filter=[0]),
    dict(a_coeffs_range=[[[1, 4]], [[1, 3]]], b_coeffs_range=[[[1, 3]]], postproc_funcs_filter=[0, 2], hashtable_precision=1),
    dict(a_coeffs_range=[[[1, 6]]], b_coeffs_range=[[[0, 3]]], postproc_funcs_filter=list(range(24)), hashtable_precision=10),
    dict(a_coeffs_range=[[[1, 3], [2, 4]]], b_coeffs_range=[[[2, 3]]], ab_polys_type='indexed', postproc_funcs_filter=[0], gen_hashtable_only='true'),
    dict(a_coeffs_range=[[[1, 3], [1, 3]]], b_coeffs_range=[[[1, 3]]], ab_polys_type='sparse', ab_polys_special_params=[2, 2], postproc_funcs_filter=[3]),
    dict(a_coeffs_range=[[[10, 14]]], b_coeffs_range=[[[-9, 9]]], postproc_funcs_filter=[0, 1]),
    dict(a_coeffs_range=[[[2, 3]], [[1, 2]]], b_coeffs_range=[[[1, 5]], [[1, 2]]], postproc_funcs_filter=[0]),
]


def units(tier):
    out = []
    for k in range(len(CONFIGS)):
        out += [[k, 4, 'points' if k in (0, 3) or tier == 'thorough' else 'runs'], [k, 2, 'points']]
    # more parts than have one digit, one after the other
    out += [[k, n, 'serial'] for k, n in ((7, 16), (14, 16))]
    if tier == 'thorough':
        for k in (0, 1, 7, 11, 14):
            out.append([k, 8, 'runs'])
    return sorted(out, key=lambda u: (-u[1], u[2]))


# ---------------------------------------------------------------- a part run in its own process
def child(config, up, down, points, directory):
    def say(kind, value=None):
        os.write(up, (json.dumps([kind, value]) + '\n').encode())

    def gate(name):
        say('gate', name)
        if os.read(down, 1) != b'g':
            os._exit(3)
    try:
        signal.alarm(0)
        real_open, real_replace, real_rename = builtins.open, os.replace, os.rename

        def inside(p):
            return isinstance(p, str) and os.path.abspath(p).startswith(os.path.abspath('tables'))

        def patched_open(file, mode='r', *args, **kw):
            if inside(file) and any(c in mode for c in 'wax+'):
                gate('write')
            return real_open(file, mode, *args, **kw)

        def patched_replace(src, dst, **kw):
            if inside(dst):
                gate('replace')
            return real_replace(src, dst, **kw)
        if points == 'points':
            builtins.open = patched_open
            os.replace = os.rename = patched_replace
        gate('start')
        import main
        import configfile
        real_get = configfile.ConfigParser.get_config

        def patched_get(self, *args, **kw):
            r = real_get(self, *args, **kw)
            say('saw', str(r['hashtable_output_file']))
            return r
        configfile.ConfigParser.get_config = patched_get
        main.main(config)
        say('done')
    except BaseException as e:
        import traceback
        say('error', traceback.format_exc()[-1500:])
    finally:
        os._exit(0)


class Part:
    def __init__(self, config, points, directory):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r1)
            os.close(w2)
            child(config, w1, r2, points, directory)
        os.close(w1)
        os.close(r2)
        self.up, self.down, self.buf = r1, w2, b''
        self.at, self.saw = None, None
        self.wait()

    def wait(self):
        """Until the run stops at a point."""
        while True:
            while b'\n' not in self.buf:
                data = os.read(self.up, 65536)
                if not data:
                    raise RuntimeError('a part run ended without a word')
                self.buf += data
            line, self.buf = self.buf.split(b'\n', 1)
            kind, value = json.loads(line)
            if kind == 'saw':
                self.saw = value
            elif kind == 'gate':
                self.at = value
                return
            elif kind == 'done':
                self.at = 'done'
                return
            else:
                self.at = 'error'
                self.error = value
                return

    def advance(self):
        os.write(self.down, b'g')
        self.wait()

    def close(self):
        os.close(self.down)
        os.close(self.up)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


LEFT = {'start': 3, 'write': 2, 'replace': 1, 'done': 0, 'error': 0}


def files():
    return tuple(sorted(os.listdir('tables'))) if os.path.isdir('tables') else ()


def schedules(ctx, configs, points, final):
    """Explores the graph of scheduling states completely, re-executing from the start for every schedule."""
    edges, targets, count = {}, {}, 0

    def fresh_steps(s, memo):
        """The greatest number of unexplored transitions on a path from s (optimistic beyond what is known)."""
        if s not in memo:
            if s not in edges:
                memo[s] = steps_left(s)
            else:
                memo[s] = max([1 + steps_left(s) if targets.get((s, a)) is None else fresh_steps(targets[s, a], memo) for a in edges[s]] or [0])
        return memo[s]

    def steps_left(s):
        return sum(LEFT[at] for at, _ in s[0])
    root = None
    while root is None or fresh_steps(root, {}):
        for p in files():
            os.remove(os.path.join('tables', p))
        parts, schedule = [], []
        try:
            for c in configs:
                parts.append(Part(c, points, os.getcwd()))
            while True:
                s = (tuple((p.at, p.saw) for p in parts), files())
                for p in parts:
                    if p.at == 'error':
                        ctx.fail('a part run fails under some schedule', schedule=schedule, error=p.error, parts=len(parts))
                root = root or s
                enabled = tuple(i for i, p in enumerate(parts) if p.at != 'done')
                ctx.state((s, str(configs), ctx.current))
                edges[s] = enabled
                if not enabled:
                    break
                memo = {}
                i = max(enabled, key=lambda i: 1 + steps_left(s) if targets.get((s, i)) is None else fresh_steps(targets[s, i], memo))
                before = files()
                parts[i].advance()
                ctx.step()
                schedule.append(i)
                targets[s, i] = (tuple((p.at, p.saw) for p in parts), files())
                gone = [p for p in before if p not in files() and not p.endswith('.tmp')]
                ctx.check(gone == [], 'a part run removed a table', files=gone, schedule=schedule)
        finally:
            for p in parts:
                p.close()
        count += 1
        ctx.trace({'schedule': schedule, 'parts': len(parts)})
        final(schedule, count)
    return count


def serial(ctx, configs, final):
    """The part runs one after another, in order and in the reverse order."""
    for n, order in enumerate((configs, configs[::-1]), 1):
        for p in files():
            os.remove(os.path.join('tables', p))
        for c in order:
            before = files()
            runner.run_main(c)
            ctx.step()
            ctx.check(len(files()) == len(before) + 1, 'a part run does not add a table', part=c, before=before, after=files())
            ctx.state((ctx.current, len(configs), files()))
        ctx.trace({'one after another': list(order)})
        final(list(order), n)
    return 2


def entries(path):
    t = runner.load_table(path)
    return t, runner.table_entries(t)


def run(unit, ctx):
    k, parts, points = unit
    ctx.current = k
    mpmath.mp.dps = 50
    runner.prepare(ctx.scratch)
    root = ctx.fresh_dir()
    settings = dict(hashtable_num_of_iterations=40, first_filtering_num_of_iterations=200)
    settings.update(CONFIGS[k])
    os.chdir(root)
    try:
        # the undivided build
        os.mkdir('whole')
        os.chdir('whole')
        os.mkdir('tables')
        runner.write_config('c.ini', **settings)
        runner.run_main('c.ini')
        ctx.check(len(files()) == 1, 'a build does not write one table', files=files())
        whole_file = os.path.abspath(os.path.join('tables', files()[0]))
        table, whole = entries(whole_file)
        total = sum(len(v) for v in whole.values())
        ctx.check(total > 0, 'the undivided table is empty')
        ctx.outcome('entries', total)
        os.chdir(root)
        # the split
        os.mkdir('parts')
        os.chdir('parts')
        os.mkdir('tables')
        runner.write_config('c.ini', **settings)
        import distribute_run
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                distribute_run.main(parts, 'c.ini')
            except ValueError:
                ctx.skip('ranges that cannot be split so often')
                return
        d = 'c_dist_%d' % parts
        configs = sorted(os.path.join(d, f) for f in os.listdir(d))
        ctx.check(len(configs) == parts, 'wrong number of part configurations', configs=configs)
        import join_hashtables
        loose = settings.get('ab_polys_type') == 'sparse'

        def join_and_compare(schedule, order=None):
            if os.path.exists('joined.pkl'):
                os.remove('joined.pkl')
            real = os.listdir
            if order is not None:
                os.listdir = lambda p='.', *a: list(order) if os.path.abspath(str(p)) == os.path.abspath('tables') else real(p, *a)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    join_hashtables.main('tables', 'joined.pkl')
            finally:
                os.listdir = real
            ctx.step()
            mitm, got = entries('joined.pkl')
            info = dict(config=CONFIGS[k], parts=parts, schedule=schedule, order=order, files=files())
            if got != whole:
                ga = {(d, e) for d, v in got.items() for e in v}
                wa = {(d, e) for d, v in whole.items() for e in v}
                if ga != wa or not loose:
                    dup = [(d, e) for d, v in got.items() for e in set(v) if v.count(e) > whole.get(d, []).count(e)]
                    ctx.fail('the joined table does not have the entries of the undivided one', missing=sorted(map(str, wa - ga))[:5], invented=sorted(map(str, ga - wa))[:5], repeated=dup[:5], **info)
            return mitm

        def final(schedule, count):
            fs = files()
            ctx.check(len(fs) == parts and all(f.endswith('.pkl') for f in fs), 'the part runs do not leave one table file each', files=fs, schedule=schedule)
            join_and_compare(schedule)
            if count == 1:
                for order in (itertools.permutations(fs) if parts <= 4 else [fs[i:] + fs[:i] for i in range(parts)] + [fs[::-1]]):
                    join_and_compare(schedule, order)
                    ctx.trace({'join order': order})
                # every entry is found by its digits, and a search gives the same results
                joined = runner.load_table('joined.pkl')
                for key in list(whole):
                    ctx.check(len(joined.dec_hashtable[mpmath.mpf(key)]) > 0, 'an entry of the joined table cannot be looked up', key=key)
                os.mkdir('search')
                shutil.copy('joined.pkl', os.path.join('search', 't_v1.pkl'))
                os.mkdir('search_whole')
                shutil.copy(whole_file, os.path.join('search_whole', 't_v1.pkl'))
                rows = []
                for where in ('search', 'search_whole'):
                    s = dict(settings, hashtable_file_operation='use', hashtable_file=where + '/t', gen_hashtable_only='auto', lhs_params=[1, 2, 1, 2])
                    old = runner.results_dirs()
                    runner.write_config('use.ini', **s)
                    runner.run_main('use.ini')
                    new = [x for x in runner.results_dirs() if x not in old]
                    ctx.check(len(new) == 1, 'a search in a joined table does not write results')
                    rows.append([(r[3], (ast.literal_eval(r[0]), ast.literal_eval(r[1])), ast.literal_eval(r[4]), postprocfuncs.POSTPROC_FUNCS.index(r[2])) for r in runner.read_rows(new[0])[2:]])
                # of equivalent results any one is reported
                for i in (0, 1):
                    for r in rows[i]:
                        ctx.check(any(c10.may(r, q) for q in rows[1 - i]), 'a search in the joined table gives other results', result=r, found_in=('joined', 'undivided')[i], config=CONFIGS[k], parts=parts)
                ctx.outcome('search rows', len(rows[0]))
        n = serial(ctx, configs, final) if points == 'serial' else schedules(ctx, configs, points, final)
        ctx.outcome('schedules', n)
    finally:
        os.chdir(ctx.scratch)
        shutil.rmtree(root, ignore_errors=True)
