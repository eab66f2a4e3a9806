"""C28: all schedules of searches that end at the same time in one directory, and of a search that reads tables while another run saves one."""
import builtins
import itertools
import json
import os
import shutil
import signal
import socket
import subprocess
import tempfile
import traceback
import mpmath
from mc import runner
from checks import c23, c26

PROPERTY = 'C28'
UNIT_TIMEOUT = 850
ASSUMPTIONS = ['runs share state only through the files of the directory: they are switched before every system call that looks at, makes, opens or renames the results directory, a directory or file in it, '
               'or anything in the directory of the tables, and in the middle of writing a table',
               'a run is deterministic, so schedules after which every run has seen the same answers and the same files exist continue identically (they are merged)',
               'the minute does not change while the runs end', 'runs that save a table do not save it under one name at the same time']
SPACE = {
    'quick': 'every reachable scheduling state and every transition of 2 and of 3 searches (real processes) that end in the same minute in one directory: equal and different searches, with and without a results '
             'directory, with and without results of that minute in it; of a search with the newest table and a run that saves the next version (expansion, generation, with a search after it), from 2 directories; '
             'every run has to end, and each leaves exactly its own complete results',
    'thorough': 'as quick, with 4 searches, and with 2 searches and a saving run'}
SHORT = dict(hashtable_num_of_iterations=60, first_filtering_num_of_iterations=60, second_filtering_max_num_of_iterations=80, third_filtering_max_num_of_iterations=80,
             hashtable_precision=6, first_filtering_precision=6, second_filtering_precision=7, third_filtering_precision=9, const='phi')
TABLE = dict(SHORT, a_coeffs_range=[[[1, 3]]], b_coeffs_range=[[[1, 2]]], gen_hashtable_only='true')
USE = dict(TABLE, hashtable_file_operation='use', gen_hashtable_only='false')
SEARCHES = {
    'p': dict(USE, lhs_type='ulcd', lhs_params=[1, 1, 1, 2]),
    'q': dict(USE, lhs_type='rationalfunc', lhs_params=[[[0, 2], [0, 2]], [[1, 2]], False]),
    'r': dict(USE, lhs_type='rationalfunc', lhs_params=[[[0, 1], [1, 2]], [[1, 3]], False]),
    'none': dict(USE, lhs_type='rationalfunc', lhs_params=[[[7, 8]], [[8, 9]], False])}
SAVES = {
    'expand': dict(TABLE, hashtable_file_operation='expand', a_coeffs_range=[[[3, 5]]]),
    'generate': dict(TABLE, hashtable_file_operation='generate', a_coeffs_range=[[[1, 2]]], b_coeffs_range=[[[1, 3]]]),
    'expand and search': dict(SEARCHES['p'], hashtable_file_operation='expand', a_coeffs_range=[[[3, 5]]]),
    'other table': dict(TABLE, hashtable_file_operation='generate', hashtable_file='tables/t_v', a_coeffs_range=[[[3, 4]]])}


def units(tier):
    out = []
    for before in ('nothing', 'empty', 'same minute'):
        for runs in (['p', 'p'], ['p', 'q'], ['q', 'none'], ['p', 'q', 'r'], ['p', 'p', 'p']) + ((['p', 'q', 'r', 'p'],) if tier == 'thorough' else ()):
            out.append(['results', before, runs])
    for versions in (1, 2):
        for save in sorted(SAVES):
            out.append(['table', versions, [save, 'q']])
            if tier == 'thorough':
                out.append(['table', versions, [save, 'q', 'p']])
    return sorted(out, key=lambda u: -len(u[2]))


# ---------------------------------------------------------------- a run in a process of its own
WORD = b'g'


def child(config, orders, shared):
    """shared: absolute path -> does the run stop before a call with this path? At its first stop the run becomes a server, which makes copies of itself for the schedules."""
    pipes = []

    def say(kind, value=None):
        if not pipes:
            serve()
        os.write(pipes[0], (json.dumps([kind, value]) + '\n').encode())

    def gate(name):
        say('gate', name)
        if os.read(pipes[1], 1) != WORD:
            os._exit(3)

    def serve():
        inside[0] = True
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        orders.send(WORD)
        while True:
            # the pipes of a copy come with the order to make it
            data, fds, _, _ = socket.recv_fds(orders, 4096, 2)
            if not data:
                os._exit(0)
            if os.fork() == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                orders.close()
                where, number = json.loads(data)
                # names made of them are the same in each execution
                os.getpid = lambda: 100000 + number
                tempfile._name_sequence = ('run_%d_%d' % (number, i) for i in itertools.count())
                pipes.extend(fds)
                os.chdir(where)
                inside[0] = False
                return
            for fd in fds:
                os.close(fd)
    inside = [False]

    def stop(name, real, writing=None):
        def call(path, *args, **kw):
            try:
                there = os.path.abspath(os.fsdecode(path)) if not isinstance(path, int) else None
            except TypeError:
                there = None
            if inside[0] or there is None or not shared(there):
                return real(path, *args, **kw)
            gate('%s %s' % (name, os.path.relpath(there, top)))
            inside[0] = True
            try:
                r = real(path, *args, **kw)
                say('answer', 'done')
            except OSError as e:
                say('answer', type(e).__name__)
                raise
            finally:
                inside[0] = False
            if name == 'open' and hasattr(r, 'write') and 'tables' in there and getattr(r, 'writable', lambda: False)():
                return Half(r)
            return r
        return call

    class Half:
        """A file for writing; the run stops when the file exists and nothing has been written."""
        def __init__(self, f):
            self.f, self.first = f, True

        def write(self, data):
            if self.first:
                self.first = False
                gate('write')
                say('answer', 'done')
            return self.f.write(data)

        def __getattr__(self, name):
            return getattr(self.f, name)

        def __enter__(self):
            self.f.__enter__()
            return self

        def __exit__(self, *exc):
            return self.f.__exit__(*exc)

        def __iter__(self):
            return iter(self.f)
    try:
        signal.alarm(0)
        top = os.getcwd()
        mpmath.mp.dps = 150
        subprocess.check_output = c26.no_process
        for name in ('stat', 'lstat', 'mkdir', 'listdir', 'scandir', 'rename', 'replace', 'remove', 'unlink', 'access', 'rmdir', 'open', 'link'):
            setattr(os, name, stop(name, getattr(os, name)))
        builtins.open = stop('open', builtins.open)
        runner.run_main(config)
        say('done')
    except BaseException:
        say('error', traceback.format_exc()[-1500:])
    finally:
        os._exit(0)


class Server:
    """A run that has come to its first stop."""
    def __init__(self, config, shared):
        self.orders, orders = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            for s in Server.all + [self]:
                s.orders.close()
            child(config, orders, shared)
        orders.close()
        Server.all.append(self)
        if self.orders.recv(1) != WORD:
            raise RuntimeError('a run ended before its first stop')

    def close(self):
        self.orders.close()
        os.waitpid(self.pid, 0)
        Server.all.remove(self)


Server.all = []


class Run:
    def __init__(self, server, where, number):
        self.up, up = os.pipe()
        down, self.down = os.pipe()
        socket.send_fds(server.orders, [json.dumps([where, number]).encode()], [up, down])
        os.close(up)
        os.close(down)
        self.buf, self.at, self.answers, self.error = b'', None, (), None
        self.wait()

    def wait(self):
        """Until the run stops at a point."""
        while True:
            while b'\n' not in self.buf:
                data = os.read(self.up, 65536)
                if not data:
                    raise RuntimeError('a run ended without a word')
                self.buf += data
            line, self.buf = self.buf.split(b'\n', 1)
            kind, value = json.loads(line)
            if kind == 'answer':
                self.answers += ((self.at, value),)
            else:
                self.at = value if kind == 'gate' else kind
                if kind == 'error':
                    self.error = value
                return

    def advance(self):
        os.write(self.down, WORD)
        self.wait()

    def close(self):
        os.close(self.down)
        os.close(self.up)


def schedules(ctx, root, template, configs, shared, final):
    """Explores the graph of the scheduling states: executes, from the start, a schedule through every transition."""
    here = os.path.join(root, 'here')
    seen, targets, complete, alike = {}, {}, 0, [True]

    def state_of(runs):
        names = tuple(sorted(p for d, ds, fs in os.walk('.') for p in [os.path.join(d, x) for x in ds + fs] if shared(os.path.abspath(p))))
        return tuple((r.at, r.answers) for r in runs), names

    def execute(schedule):
        nonlocal complete
        shutil.rmtree(here, ignore_errors=True)
        shutil.copytree(template, here)
        os.chdir(here)
        runs, done = [], []
        try:
            for number, server in enumerate(servers):
                runs.append(Run(server, here, number))
            s = state_of(runs)
            for i in schedule:
                runs[i].advance()
                done.append(i)
                t = state_of(runs)
                s = arrive(s, i, t, runs, done)
            # to the end, by new transitions as long as there are any
            while True:
                enabled = [i for i, r in enumerate(runs) if r.at != 'done']
                if s not in seen:
                    seen[s] = (list(done), enabled)
                    ctx.state((s, str(configs), template))
                if not enabled:
                    break
                fresh = [i for i in enabled if (s, i) not in targets]
                i = fresh[0] if fresh else enabled[0]
                runs[i].advance()
                done.append(i)
                s = arrive(s, i, state_of(runs), runs, done)
        finally:
            for r in runs:
                r.close()
            os.chdir(root)
        complete += 1
        ctx.trace({'schedule': done, 'runs': configs})
        final(here, runs, done)

    def arrive(s, i, t, runs, done):
        if (s, i) not in targets:
            targets[s, i] = t
            ctx.step()
        if runs[i].at == 'error':
            ctx.fail('a run fails when another one is doing its work', run=configs[i], runs=configs, error=runs[i].error, schedule=done, seen=[r.answers for r in runs])
        if targets[s, i] != t:
            # cannot be enumerated (names by chance, say): only what was executed is decided
            ctx.skip('a run is not deterministic')
            alike[0] = False
        return t
    shutil.copytree(template, here)
    os.chdir(here)
    servers = [Server(c, shared) for c in configs]
    try:
        execute([])
        while True:
            todo = [(prefix, i) for s, (prefix, enabled) in seen.items() for i in enabled if (s, i) not in targets]
            if not todo or not alike[0]:
                return complete
            prefix, i = min(todo, key=lambda x: len(x[0]))
            execute(prefix + [i])
    finally:
        os.chdir(root)
        for server in servers:
            server.close()


def results_of(where):
    """{directory: (rows, files)} of the results below a directory."""
    back = os.getcwd()
    os.chdir(where)
    try:
        out = {}
        for d in runner.results_dirs():
            here = os.path.join('results', d)
            names = sorted(os.listdir(here))
            if names != ['config.ini', 'results.csv', 'results.pdf', 'results.tex']:
                out[d] = ('not complete', names)
                continue
            texts = []
            for n in ('config.ini', 'results.tex'):
                with open(os.path.join(here, n)) as f:
                    texts.append(sorted(f.read().split('\n')))
            out[d] = (sorted(runner.read_rows(d)), texts)
        return out
    finally:
        os.chdir(back)


def run(unit, ctx):
    runner.prepare(ctx.scratch)
    c23.fixed_clock()
    kind, before, names = unit
    root = ctx.fresh_dir()
    template = os.path.join(root, 'template')
    os.makedirs(os.path.join(template, 'tables'))
    os.chdir(template)
    runner.write_config('table.ini', **TABLE)
    runner.run_main('table.ini')
    for name, settings in list(SEARCHES.items()) + list(SAVES.items()):
        runner.write_config('%s.ini' % name, **settings)
    configs = ['%s.ini' % n for n in names]

    def alone(*commands):
        """The results and the tables after running the commands one after the other."""
        d = os.path.join(root, 'alone')
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(template, d)
        os.chdir(d)
        for c in commands:
            runner.run_main(c)
        r = results_of(d)
        t = {f: runner.table_entries(runner.load_table(os.path.join('tables', f))) for f in sorted(os.listdir('tables'))}
        os.chdir(root)
        return r, t
    if kind == 'results':
        expected = [list(alone(c)[0].values())[0] for c in configs]
        os.chdir(template)
        if before == 'empty':
            os.mkdir('results')
        elif before == 'same minute':
            runner.run_main('p.ini')
            runner.run_main('q.ini')
        old = results_of(template)

        known = set(os.listdir(template)) - {'results'}

        def shared(path, top=os.path.join(root, 'here')):
            # all but what no run writes (the tables and the configurations) and what is in a directory of results
            parts = path[len(top) + 1:].split(os.sep)
            return path.startswith(top + os.sep) and parts[0] not in known and len(parts) <= 2

        def final(here, runs, schedule):
            got = results_of(here)
            info = dict(schedule=schedule, runs=configs, directories=sorted(got))
            ctx.check(all(got.get(d) == r for d, r in old.items()), 'earlier results are changed or removed', **info)
            new = [r for d, r in got.items() if d not in old]
            ctx.check(len(new) == len(configs), 'there is not one results directory for each run', earlier=sorted(old), **info)
            for r in expected:
                ctx.check(r in new, 'the results of a run are missing or incomplete', expected=r[0], found=[n[0] for n in new], **info)
                new.remove(r)
            ctx.outcome('own results each')
    else:
        if before == 2:
            runner.run_main('expand.ini')
        # what the search may have seen: the tables before or after
        saver, searches = configs[0], configs[1:]
        first = {c: list(alone(c)[0].values()) for c in searches}
        saved, tables = alone(saver)
        later = {c: [r for r in alone(saver, c)[0].values() if r not in saved.values()] or [list(saved.values())[-1]] for c in searches}

        def shared(path, top=os.path.join(root, 'here', 'tables')):
            return path == top or path.startswith(top + os.sep)

        def final(here, runs, schedule):
            info = dict(schedule=schedule, runs=configs)
            os.chdir(here)
            try:
                t = {f: runner.table_entries(runner.load_table(os.path.join('tables', f))) for f in sorted(os.listdir('tables'))}
            finally:
                os.chdir(root)
            ctx.check(t == tables, 'the tables are not those of the run that saves one', files=sorted(t), expected=sorted(tables), **info)
            new = list(results_of(here).values())
            for r in saved.values():
                ctx.check(r in new, 'the results of the saving run are missing', **info)
                new.remove(r)
            ctx.check(len(new) == len(searches), 'there is not one results directory for each search', results=[n[0] for n in new], **info)
            for c in searches:
                r = [x for x in new if x in first[c] or x in later[c]]
                ctx.check(r, 'a search has neither the results with the table before nor those with the new one', found=[n[0] for n in new], before=[x[0] for x in first[c]],
                          after=[x[0] for x in later[c]], **info)
                ctx.outcome('with the table before' if r[0] in first[c] else 'with the new table')
                new.remove(r[0])
    os.chdir(root)
    n = schedules(ctx, root, template, configs, shared, final)
    ctx.outcome('schedules', n)
    os.chdir(ctx.scratch)
    shutil.rmtree(root)
    mpmath.mp.dps = 50
