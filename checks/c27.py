"""C27: the command lines of the programs, alone and in sequences, against the functions they stand for."""
import ast
import csv
import io
import os
import re
import runpy
import shutil
import subprocess
import sys
import mpmath
from mc import core
from mc import runner
from checks import c23
import main as main_module
import distribute_run
import join_hashtables
import fix_hashtable_filter_init_b_root as fix_module
import run_distributed_configs

PROPERTY = 'C27'
UNIT_TIMEOUT = 800
ASSUMPTIONS = ['the effect of a command is the effect of one call of the function it stands for on the same directory (the functions themselves are the subject of the other properties)',
               'tables are compared by their entries, results by their rows, everything else byte by byte', 'what a command prints is only required to be something where a usage text is due']
SPACE = {
    'quick': 'command lines of main, distribute_run, join_hashtables, the root fix and run_distributed_configs (no arguments, defaults, all arguments, help, too many arguments, missing or unusable '
             'arguments): all of them from 5 directories (fresh, tables saved, parts saved, parts joined, tables joined), and all sequences of 2 commands that have an effect, with merging of equal directories; '
             'every command line also in an interpreter of its own',
    'thorough': 'all sequences of 3 commands'}
CONFIGS = {
    'config.ini': dict(const='phi', a_coeffs_range=[[[1, 3], [0, 3]]], b_coeffs_range=[[[1, 3]]], hashtable_file='tables/t.pkl', lhs_type='ulcd', lhs_params=[1, 1, 1, 2]),
    'b.ini': dict(const='e', a_coeffs_range=[[[1, 3], [1, 2]]], b_coeffs_range=[[[0, 1], [-3, 2]]], hashtable_file='parts/p.pkl', gen_hashtable_only='true', lhs_type='rationalfunc',
                  lhs_params=[[[0, 2], [0, 2]], [[0, 2], [0, 2]], False], postproc_funcs_filter=[0, 1]),
    'use.ini': dict(const='phi', a_coeffs_range=[[[1, 3]]], b_coeffs_range=[[[1, 3]]], hashtable_file='joined_hashtable.pkl', hashtable_file_operation='use', lhs_type='rationalfunc',
                    lhs_params=[[[0, 2], [0, 2]], [[1, 2], [0, 2]], False])}
SHORT = dict(hashtable_num_of_iterations=60, first_filtering_num_of_iterations=60, second_filtering_max_num_of_iterations=80, third_filtering_max_num_of_iterations=80,
             first_filtering_precision=8, second_filtering_precision=9, third_filtering_precision=12)
# (program, arguments, function it stands for with its arguments | None: nothing changes, and something is printed)
EFFECT = [
    ('main.py', [], ('main', [])),
    ('main.py', ['config.ini'], ('main', ['config.ini'])),
    ('main.py', ['b.ini'], ('main', ['b.ini'])),
    ('main.py', ['use.ini'], ('main', ['use.ini'])),
    ('main.py', ['b_dist_2/b_0.ini'], ('main', ['b_dist_2/b_0.ini'])),
    ('main.py', ['b_dist_2/b_1.ini'], ('main', ['b_dist_2/b_1.ini'])),
    ('distribute_run.py', [], ('distribute', [4, 'config.ini'])),
    ('distribute_run.py', ['2'], ('distribute', [2, 'config.ini'])),
    ('distribute_run.py', ['2', 'b.ini'], ('distribute', [2, 'b.ini'])),
    ('distribute_run.py', ['8', 'b.ini'], ('distribute', [8, 'b.ini'])),
    ('join_hashtables.py', ['parts'], ('join', ['parts', 'joined_hashtable.pkl'])),
    ('join_hashtables.py', ['tables'], ('join', ['tables', 'joined_hashtable.pkl'])),
    ('join_hashtables.py', ['parts', 'tables/all.pkl'], ('join', ['parts', 'tables/all.pkl'])),
    ('fix_hashtable_filter_init_b_root.py', ['joined_hashtable.pkl'], ('fix', ['joined_hashtable.pkl'])),
    ('fix_hashtable_filter_init_b_root.py', ['tables/t_v1.pkl'], ('fix', ['tables/t_v1.pkl'])),
    ('run_distributed_configs.py', ['b_dist_2'], ('launch', ['b_dist_2'])),
]
NONE = [('main.py', [h], None) for h in ('-h', '--help', '/?', '-?')] + [
    ('distribute_run.py', ['2', 'b.ini', 'more'], None),
    ('join_hashtables.py', [], None),
    ('join_hashtables.py', ['tables', 'x.pkl', 'more'], None),
    ('fix_hashtable_filter_init_b_root.py', [], None),
    ('fix_hashtable_filter_init_b_root.py', ['tables/t_v1.pkl', 'more'], None),
    ('run_distributed_configs.py', [], None),
]
FAIL = [
    ('main.py', ['missing.ini'], ('main', ['missing.ini'])),
    ('distribute_run.py', ['3'], ('distribute', [3, 'config.ini'])),
    ('distribute_run.py', ['2', 'missing.ini'], ('distribute', [2, 'missing.ini'])),
    ('distribute_run.py', ['1'], ('distribute', [1, 'config.ini'])),
    ('fix_hashtable_filter_init_b_root.py', ['missing.pkl'], ('fix', ['missing.pkl'])),
]
FUNCTIONS = {'main': main_module.main, 'distribute': distribute_run.main, 'join': join_hashtables.main, 'fix': fix_module.main, 'launch': run_distributed_configs.main}
# directories to start from
STARTS = [[], [0, 3], [8, 4, 5], [8, 4, 5, 10], [0, 11]]


def units(tier):
    out = [['sequences', s, c, 3 if tier == 'thorough' else 2] for s in range(len(STARTS)) for c in range(len(EFFECT))]
    out += [['others', s] for s in range(len(STARTS))]
    out += [['process', k] for k in range(len(EFFECT + NONE + FAIL))]
    return out


def fresh(where):
    for d in ('tables', 'parts'):
        os.makedirs(os.path.join(where, d))
    for name, settings in CONFIGS.items():
        runner.write_config(os.path.join(where, name), **dict(SHORT, **settings))


def put(where, tree):
    for d in ('tables', 'parts'):
        os.makedirs(os.path.join(where, d), exist_ok=True)
    for path, data in tree.items():
        os.makedirs(os.path.dirname(os.path.join(where, path)) or '.', exist_ok=True)
        with open(os.path.join(where, path), 'wb') as f:
            f.write(data)


_meaning = {}


def meaning(tree):
    """What the files of a directory say."""
    out = {}
    for path, data in tree.items():
        path = re.sub(r'\d{6}_\d{4}', 'TIME', path)
        key = (path.endswith('.csv'), path.endswith('.pkl'), data)
        if key not in _meaning:
            m = data
            if path.endswith('.pkl'):
                import dill
                mitm = dill.loads(data)
                m = str((sorted(runner.table_entries(mitm).items()), mitm.hashtable_prec))
            elif path.endswith('.csv'):
                m = str(sorted(csv.reader(io.StringIO(data.decode()))))
            elif path.endswith('.tex'):
                m = str(sorted(data.decode().split('\n')))
            _meaning[key] = m
        out[path] = _meaning[key]
    return out


def in_child(where, action):
    """(exit status, printed, started commands) of an action in a forked process in a directory."""
    shown, started = where + '.out', where + '.os'
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status = 99
        try:
            os.chdir(where)
            f = open(shown, 'w')
            sys.stdout = sys.stderr = f
            commands = []
            os.system = lambda c: commands.append(c) or 0
            mpmath.mp.dps = 150
            try:
                action()
                status = 0
            except SystemExit as e:
                status = 0 if e.code in (None, 0) else 1
            except BaseException as e:
                print('%s: %s' % (type(e).__name__, e), file=f)
                status = 1
            f.flush()
            with open(started, 'w') as g:
                g.write(repr(commands))
        finally:
            os._exit(status)
    _, status = os.waitpid(pid, 0)
    with open(shown, errors='replace') as f:
        text = f.read()
    with open(started) as f:
        commands = ast.literal_eval(f.read())
    return os.waitstatus_to_exitcode(status), text, commands


def command_line(program, args):
    def action():
        sys.argv = [program] + args
        runpy.run_path(os.path.join(core.REPO, program), run_name='__main__')
    return action


def own_process(where, program, args):
    code = ('import sys, os, runpy\nsys.path[:0] = [%r, %r]\nfrom mc import core\ncore.setup_repo()\nstarted = []\nos.system = lambda c: started.append(c) or 0\n'
            'sys.argv = %r\ntry:\n    runpy.run_path(%r, run_name="__main__")\nfinally:\n    open(%r, "w").write(repr(started))\n'
            % (core.VERIF, core.REPO, [program] + args, os.path.join(core.REPO, program), where + '.os'))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], cwd=where, env=dict(os.environ, PICF_REPO=core.REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    with open(where + '.os') as f:
        return (0 if r.returncode == 0 else 1), r.stdout.decode(errors='replace'), ast.literal_eval(f.read())


def step(ctx, root, tree, command, own=False, history=()):
    """Runs a command line on a directory and compares. Returns the directory it leaves (None if it fails)."""
    program, args, call = command
    info = dict(command=[program] + args, history=[[EFFECT[h][0]] + EFFECT[h][1] for h in history], own_process=own)
    here, there = os.path.join(root, 'here'), os.path.join(root, 'there')
    for d in (here, there):
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        put(d, tree)
    if own:
        status, text, started = own_process(here, program, args)
    else:
        status, text, started = in_child(here, command_line(program, args))
    left = runner.snapshot(here)
    ctx.step()
    if call is None:
        ctx.check(status == 0 or args not in (['-h'], ['--help']), 'asking for help fails', printed=text[-500:], **info)
        ctx.check(left == tree and not started, 'a command line that only shows its usage changes something', files=sorted(set(left) ^ set(tree)), started=started, **info)
        ctx.check(text.strip(), 'no usage is shown', **info)
        ctx.outcome('usage')
        return None
    status2, text2, started2 = in_child(there, lambda: FUNCTIONS[call[0]](*call[1]))
    expected = runner.snapshot(there)
    ctx.check((status == 0) == (status2 == 0), 'a command line %s, although the function it stands for does %s' % (('fails', 'not') if status else ('succeeds', 'not')),
              printed=text[-700:], printed_by_the_function=text2[-700:], **info)
    a, b = meaning(left), meaning(expected)
    ctx.check(a == b, 'a command line does something else than what it stands for', different=sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p)), **info)
    ctx.check(sorted(started) == sorted(started2), 'a command line starts other programs', started=started, expected=started2, **info)
    if call[0] == 'launch' and status == 0:
        inis = sorted(p for p in tree if os.path.dirname(p) == args[0] and p.endswith('.ini'))
        named = sorted(p for p in inis for c in started if p in c)
        ctx.check(named == inis and len(started) == len(inis) and all('main.py' in c for c in started), 'not every part is started once', started=started, parts=inis, **info)
    ctx.outcome('effect' if left != tree else 'failed' if status else 'nothing to do')
    return left if status == 0 else None


def key_of(tree):
    return tuple(sorted(meaning(tree).items()))


def start(ctx, root, n):
    """The directory after the n-th start sequence (by the functions)."""
    where = os.path.join(root, 'start')
    shutil.rmtree(where, ignore_errors=True)
    os.mkdir(where)
    fresh(where)
    for c in STARTS[n]:
        call = EFFECT[c][2]
        status, text, _ = in_child(where, lambda: FUNCTIONS[call[0]](*call[1]))
    tree = runner.snapshot(where)
    shutil.rmtree(where)
    return tree


def run(unit, ctx):
    runner.prepare(ctx.scratch)
    c23.fixed_clock()
    _meaning.clear()
    root = ctx.fresh_dir()
    os.chdir(ctx.scratch)
    kind = unit[0]
    if kind == 'process':
        command = (EFFECT + NONE + FAIL)[unit[1]]
        for s in (1, 3):
            step(ctx, root, start(ctx, root, s), command, own=True, history=STARTS[s])
        ctx.trace({'command': command[:2]}, n=2)
    elif kind == 'others':
        tree = start(ctx, root, unit[1])
        for command in NONE + FAIL:
            step(ctx, root, tree, command, history=STARTS[unit[1]])
        ctx.trace({'start': STARTS[unit[1]]}, n=len(NONE + FAIL))
    else:
        _, s, first, depth = unit
        tree = start(ctx, root, s)
        left = step(ctx, root, tree, EFFECT[first], history=STARTS[s])
        layer = [(left, (first,))] if left is not None and left != tree else []
        seen = {key_of(tree)}
        ctx.trace({'start': STARTS[s], 'first': EFFECT[first][:2]})
        for _ in range(depth - 1):
            following = []
            for tree, done in layer:
                k = key_of(tree)
                if k in seen:
                    continue
                seen.add(k)
                ctx.state(k)
                for c, command in enumerate(EFFECT):
                    left = step(ctx, root, tree, command, history=STARTS[s] + list(done))
                    ctx.trace()
                    if left is not None and left != tree:
                        following.append((left, done + (c,)))
            layer = following
    shutil.rmtree(root)
    mpmath.mp.dps = 50
