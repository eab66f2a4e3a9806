"""C26: a run whose last refinement is cancelled, at every point of the cancellable stage."""
import ast
import errno
import gc
import os
import shutil
import signal
import subprocess
import sys
import mpmath
from mc import core
from mc import oracle as o
from mc import pool
from mc import runner
from checks import c10, c23
import enum_params
import postprocfuncs

PROPERTY = 'C26'
UNIT_TIMEOUT = 850
ASSUMPTIONS = ['the interrupt arrives between two lines of the program (inside of a library call it acts as before or after the line)',
               'the cancellable stage reaches from the beginning of the last refinement to the end of the last filter of the run']
SPACE = {
    'quick': '5 searches (constants phi, e, pi; both kinds of left-hand sides; precisions with which the last refinement drops results and with which it drops none): the run is cancelled before '
             'every line that the program executes in the cancellable stage (real KeyboardInterrupt, in a forked process), once with and once without leftovers of an earlier run; rows, documents and the '
             'saved configuration are compared',
    'thorough': '11 searches with more results and more iterations'}
SEARCHES = [
    # table, search, iterations of the last refinement
    (c23.T([[[1, 4]]], [[[1, 2]]], [0, 1]), c23.S('phi', 'rationalfunc', [[[0, 3], [-1, 2]], [[1, 3]], False], 0, (2, 2, 2, 7)), 14),
    (c23.T([[[1, 3]]], [[[1, 2]]], [0]), c23.S('phi', 'ulcd', [2, 2, 1, 3], 0, (2, 2, 2, 4)), 12),
    (c23.T([[[1, 3]]], [[[1, 4]]], [0]), c23.S('e', 'ulcd', [2, 2, 1, 3], 0, (2, 2, 2, 2)), 8),
    (c23.T([[[0, 3], [1, 3]]], [[[0, 1], [0, 1], [-1, 2]]], [0, 1]), c23.S('pi', 'rationalfunc', c23.RAT, 0, (2, 2, 2, 2)), 20),
    (c23.T([[[-3, 4]]], [[[1, 3]]], [0]), c23.S('phi', 'rationalfunc', [[[-1, 3], [-1, 2]], [[1, 3]], False], 0, (3, 3, 4, 6)), 14),
]
DEEP = [
    (c23.T([[[1, 4]]], [[[1, 2]]], [0, 1]), c23.S('phi', 'rationalfunc', [[[-2, 3], [-1, 2]], [[1, 3]], False], 0, (2, 2, 3, 5)), 20),
    (c23.T([[[1, 4]]], [[[1, 3]]], [0]), c23.S('phi', 'ulcd', [2, 2, 1, 3], 0, (2, 2, 2, 3)), 12),
    (c23.T([[[1, 5], [0, 2]]], [[[0, 1], [-2, 2]]], [0, 1]), c23.S('e', 'rationalfunc', c23.RAT, 0, (3, 5, 8, 9)), 16),
    (c23.T([[[1, 3]], [[1, 4]]], [[[1, 2]], [[1, 3]]], [0, 1]), c23.S('phi', 'rationalfunc', c23.RAT, 0, (2, 2, 2, 3)), 14),
    (c23.T([[[1, 3]]], [[[1, 3]]], [0, 4, 5]), c23.S('phi', 'ulcd', [2, 2, 1, 3], 0, (2, 2, 3, 5)), 14),
    (c23.T([[[1, 4], [0, 1], [1, 3]]], [[[1, 3]]], [0, 1]), c23.S('pi', 'rationalfunc', c23.RAT, 0, (2, 2, 2, 2)), 14),
]
LEFT = {'notes.txt': b'kept', 'results/old/results.csv': b'kept too'}
PARTS = 4


def units(tier):
    out = [[k, p, PARTS] for k in range(len(SEARCHES)) for p in range(PARTS)]
    if tier == 'thorough':
        out += [[len(SEARCHES) + k, p, 4 * PARTS] for k in range(len(DEEP)) for p in range(4 * PARTS)]
    return out


def no_process(command, *args, **kwargs):
    """The stand-in for pdflatex of mc/runner.py, without starting a process."""
    if os.path.basename(command[0]) != 'pdflatex':
        raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), command[0])
    with open(os.path.splitext(os.path.basename(command[-1]))[0] + '.pdf', 'w') as f:
        f.write('pdf\n')
    return b''


class Stages:
    """Counts the calls of the refinements and filters of a run, and traces the lines of the program in some of them."""
    def __init__(self, first=None, last=None, on_line=None):
        self.first, self.last, self.on_line = first, last, on_line
        self.calls, self.depth, self.lines = [], 0, 0
        self.names = [n for n in dir(enum_params.MITM) if n.startswith(('refine_', 'filter_')) and callable(getattr(enum_params.MITM, n))]
        self.real = {n: getattr(enum_params.MITM, n) for n in self.names}

    def __enter__(self):
        for n in self.names:
            setattr(enum_params.MITM, n, self.wrapper(n))
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        for n in self.names:
            setattr(enum_params.MITM, n, self.real[n])

    def wrapper(self, name):
        real, stages = self.real[name], self

        def call(*args, **kwargs):
            if stages.depth:
                return real(*args, **kwargs)
            k = len(stages.calls)
            stages.calls.append(name)
            if k == stages.first:
                sys.settrace(stages.trace)
                f = sys._getframe(1)
                if f.f_code.co_filename.startswith(core.REPO + os.sep):
                    f.f_trace = stages.trace
            stages.depth = 1
            try:
                return real(*args, **kwargs)
            finally:
                stages.depth = 0
                if k == stages.last:
                    sys.settrace(None)
        return call

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.REPO + os.sep):
            return None
        if event == 'line':
            self.lines += 1
            self.on_line(self.lines, frame)
        return self.trace


def rows_in(directory):
    back = os.getcwd()
    os.chdir(directory)
    try:
        new = [d for d in runner.results_dirs() if d != 'old']
        if len(new) != 1:
            return 'no complete results directory: %s' % new, None, None
        here = os.path.join('results', new[0])
        if sorted(os.listdir(here)) != ['config.ini', 'results.csv', 'results.pdf', 'results.tex']:
            return 'the results directory is not complete: %s' % sorted(os.listdir(here)), None, None
        rows = runner.read_rows(new[0])[2:]
        with open(os.path.join(here, 'results.tex')) as f:
            text = f.read()
        n = len([line for line in text[text.index('\\begin{document}'):].split('\n') if '=' in line])
        if n != len(rows):
            return 'the document has %d equations for %d results' % (n, len(rows)), None, None
        with open(os.path.join(here, 'config.ini')) as f:
            return None, rows, f.read()
    finally:
        os.chdir(back)


def parsed(row):
    ab = (ast.literal_eval(row[0]), ast.literal_eval(row[1]))
    return row[3], ab, ast.literal_eval(row[4]), postprocfuncs.POSTPROC_FUNCS.index(row[2])


def judge(ctx, rows, full, cands, search, x, **info):
    """rows: of a cancelled run; full: of the whole run."""
    acc = max(search[s] for s in ('first_filtering_precision', 'second_filtering_precision'))
    tol = o.Fr(1, 10**acc)
    got = []
    for row in rows:
        ctx.check(len(row) == 9, 'strange row', row=row, **info)
        kind, ab, params, f = parsed(row)
        ctx.check((ab, f) in cands, 'a reported fraction or function is not in the searched table', row=row, **info)
        ctx.check(row[5] in ('exp', 'super_exp'), 'a result does not converge exponentially', row=row, **info)
        v, scale = pool.lhs_value(kind, params, x)
        ctx.check(v is not None and abs(o.mpf_fr(mpmath.mpf(row[8])) - v) <= scale * o.Fr(1, 10**44), 'a wrong value of a left-hand side', row=row, **info)
        y = cands[ab, f]
        ctx.check(y is not None, 'a terminating or diverging fraction is reported', row=row, **info)
        if y != 'open':
            ctx.check(abs(v - y[0]) <= tol + y[1], 'a reported identity is false', expected=mpmath.nstr(o.fr_mpf(y[0]), 30), row=row, **info)
        got.append((kind, ab, params, f))
    for row in full:
        r = parsed(row)
        ctx.check(any(c10.may(r, g) for g in got), 'a result of the whole run is lost when it is cancelled', result=row, reported=len(got), **info)


def run(unit, ctx):
    runner.prepare(ctx.scratch)
    c23.fixed_clock()
    k, part, parts = unit
    table, search, iters = (SEARCHES + DEEP)[k]
    root = ctx.fresh_dir()
    os.chdir(root)
    os.mkdir('tables')
    settings = dict(c23.settings_base(), **table)
    settings.update(search)
    settings.update(third_filtering_max_num_of_iterations=iters)
    runner.write_config('config.ini', **dict(settings, hashtable_file_operation='generate', gen_hashtable_only='true'))
    runner.run_main('config.ini')
    runner.write_config('config.ini', **dict(settings, hashtable_file_operation='use', gen_hashtable_only='false'))
    # the whole run
    with Stages() as stages:
        runner.run_main('config.ini')
    ctx.check(any(c.startswith('refine') for c in stages.calls), 'the run refines nothing', calls=stages.calls)
    first = max(n for n, c in enumerate(stages.calls) if c.startswith('refine'))
    last = len(stages.calls) - 1
    problem, full, config = rows_in(root)
    ctx.check(problem is None, 'the whole run: %s' % problem, search=k)
    shutil.rmtree('results')
    x = c23.const_ref(search['const'], search['i'])
    cands = c23.candidates(table)
    shown = []

    def on_line(n, frame):
        if n % parts != part or state.get('problem'):
            return
        try:
            cancelled(n, frame)
        except core.Violation as e:
            # the program under test must not handle it
            state['problem'] = e

    def cancelled(n, frame):
        # the run is cancelled before this line, in a process of its own
        where = os.path.join(root, 'cancelled')
        shutil.rmtree(where, ignore_errors=True)
        os.mkdir(where)
        if n // parts % 2:
            for path, data in LEFT.items():
                os.makedirs(os.path.dirname(os.path.join(where, path)), exist_ok=True)
                with open(os.path.join(where, path), 'wb') as f:
                    f.write(data)
        pid = os.fork()
        if pid == 0:
            signal.alarm(0)
            gc.disable()
            subprocess.check_output = no_process
            sys.settrace(None)
            state['child'] = True
            os.chdir(where)
            raise KeyboardInterrupt
        point = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
        _, status = os.waitpid(pid, 0)
        info = dict(case=k, line=n, before=point)
        ctx.check(status == 0, 'cancelling the last refinement ends the run with an error', error=open(os.path.join(root, 'error')).read() if os.path.exists(os.path.join(root, 'error')) else status, **info)
        problem, rows, saved = rows_in(where)
        ctx.check(problem is None, 'after cancelling: %s' % problem, **info)
        ctx.check(saved == config, 'a cancelled run saves another configuration', **info)
        if n // parts % 2:
            for path, data in LEFT.items():
                with open(os.path.join(where, path), 'rb') as f:
                    ctx.check(f.read() == data, 'a file of an earlier run was changed', file=path, **info)
        if rows not in seen:
            judge(ctx, rows, full, cands, search, x, **info)
            seen.append(rows)
        ctx.step()
        ctx.state((k, n))
        ctx.outcome('saved what was left' if len(rows) > len(full) else 'saved the final results')
        shown.append(point)

    state, seen = {}, []
    try:
        with Stages(first, last, on_line) as stages:
            runner.run_main('config.ini')
    except BaseException as e:
        if state.get('child'):
            with open(os.path.join(root, 'error'), 'w') as f:
                f.write('%s: %s' % (type(e).__name__, e))
            os._exit(1)
        raise
    if state.get('child'):
        os._exit(0)
    if state.get('problem'):
        raise state['problem']
    ctx.check(stages.lines > 0, 'nothing of the program runs in the cancellable stage')
    problem, rows, _ = rows_in(root)
    ctx.check(problem is None and rows == full, 'the run repeated gives other results', problem=problem, search=k)
    ctx.trace({'search': k, 'lines': stages.lines, 'cancelled before': shown[:10], 'results': len(full)}, n=len(shown))
    os.chdir(ctx.scratch)
    shutil.rmtree(root)
