"""C19: real runs are stopped at every file-system operation (with torn writes and failing operations), then recovered from."""
import ctypes
import os
import shutil
from mc import runner
import configfile
import main as main_module      # imported before the runs are forked

PROPERTY = 'C19'
UNIT_TIMEOUT = 800
ASSUMPTIONS = ['a stopped process leaves the effects of its completed system calls, in order (no power failure)',
               'between two file-system calls nothing that matters to the disk happens']
SPACE = {
    'quick': 'generate, expand, generate+search, expand+search and use runs of the real program from 5 histories of saved tables: killed before every modifying file-system call, '
             'in the middle of every write (8 lengths), and with every call failing (once, or from there on) with ENOSPC; recovery by use, expand and generate runs after each; '
             'for every distinct directory left behind, the recovering run is stopped at every call too',
    'thorough': 'every 200th byte of every write, also EIO; second crashes after every first crash'}
# tables with other names, whose names start alike
OTHERS = ['t_v1_wide_v1.pkl', 't_v2_wide.pkl', 't_v3b_v2.pkl', 't_v11_v1.pkl', 'tt_v7.pkl', 't_v.pkl']
START = {'none': [], 'one': [1], 'two': [1, 2], 'unversioned': [0], 'ten': [9, 10]}
POWERS = [(1, 1), (3, -1), (4, 1), (7, -1), (11, 1), (18, -1), (29, 1), (47, -1)]
RUNS = {'generate': ('generate', 'auto'), 'expand': ('expand', 'auto'), 'generate+search': ('generate', 'false'), 'expand+search': ('expand', 'false'),
        'use': ('use', 'auto')}
KILL_BEFORE, KILL_TORN, FAIL_ONCE, FAIL_FROM = 1, 2, 3, 4
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['PICF_SHIM'])
        _lib.shim_size.restype = ctypes.c_long
        _lib.shim_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    return _lib


def units(tier):
    deep = tier == 'thorough'
    out = []
    for s in START:
        for r in RUNS:
            if r.startswith(('expand', 'use')) and not START[s]:
                continue
            if not deep and s in ('two', 'unversioned') and '+' in r:
                continue
            for part in range(4 if deep else 2):
                out.append([s, r, part, 4 if deep else 2, deep])
    return out


def filename(v):
    return 't.pkl' if v == 0 else 't_v%d.pkl' % v


def configure(run, k):
    op, only = RUNS[run]
    a, b = POWERS[k]
    runner.write_config('c.ini', a_coeffs_range=[[[a, a + 1]]], b_coeffs_range=[[[b, b + 1]]], hashtable_file_operation=op, gen_hashtable_only=only,
                        lhs_type='rationalfunc', lhs_params=[[[0, 1], [1, 6]], [[1, 2]], 0], hashtable_num_of_iterations=60, first_filtering_num_of_iterations=60,
                        second_filtering_max_num_of_iterations=60, third_filtering_max_num_of_iterations=60)


def child(top, mode, at, torn, error):
    """Runs the configured run in a child that is stopped as told. Returns (exit status, [(kind, size) of the modifying calls])."""
    l = lib()
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            os.chdir(top)
            l.shim_arm(os.path.realpath(top).encode(), mode, at, torn, error)
            status = 0
            try:
                runner.run_main('c.ini')
            except BaseException:
                status = 3
            n = l.shim_count()
            l.shim_disarm()
            os.write(w, (' '.join('%d,%d' % (l.shim_kind(i), l.shim_size(i)) for i in range(min(n, 3000)))).encode())
            os._exit(status)
        finally:
            os._exit(9)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    ops = [(chr(int(x.split(',')[0])), int(x.split(',')[1])) for x in data.decode().split()]
    return status, ops


_tables = {}


def table_bytes(ctx, k):
    if k not in _tables:
        d = ctx.fresh_dir()
        os.chdir(d)
        os.mkdir('tables')
        configure('generate', k)
        runner.run_main('c.ini')
        with open(os.path.join('tables', os.listdir('tables')[0]), 'rb') as f:
            _tables[k] = f.read()
        os.chdir(ctx.scratch)
        shutil.rmtree(d)
    return _tables[k]


def contents(path):
    entries = [e for l in runner.table_entries(runner.load_table(path)).values() for e in l]
    return sorted(POWERS.index((a[0][0], b[0][0])) for (a, b), f in entries)


def copy(ctx, d):
    nd = ctx.fresh_dir()
    shutil.rmtree(nd)
    shutil.copytree(d, nd)
    return nd


def newest(ctx, d, info):
    """(path, contents) of the table that the next run uses; (path, None) if there is none."""
    os.chdir(d)
    configure('use', 0)
    path = configfile.ConfigParser('c.ini').get_config()['hashtable_file']
    if not os.path.exists(path):
        return path, None
    try:
        return path, contents(path)
    except Exception as e:
        ctx.fail('the newest table cannot be loaded after a stopped run: %s' % e, path=path, **info)


def intact(ctx, d, saved, info):
    for f, data in saved.items():
        p = os.path.join(d, 'tables', f)
        ctx.check(os.path.exists(p), 'a stopped run costs an earlier table', table=f, **info)
        with open(p, 'rb') as g:
            ctx.check(g.read() == data, 'a stopped run changes an earlier table', table=f, **info)


def judge(ctx, d, run, k, model, saved, info):
    """Checks the directory after a stopped run. Returns the contents of the newest table."""
    intact(ctx, d, saved, info)
    path, got = newest(ctx, d, info)
    old = model[max(model)] if model else None
    new = sorted([k] + (old if run.startswith('expand') else []))
    allowed = [old] if run == 'use' else [old, new]
    ctx.check(got in allowed, 'after a stopped run the newest table is neither the old nor the complete new one', path=path, got=got, allowed=allowed, **info)
    ctx.outcome('%s: %s' % (run, 'old' if got == old else 'new'))
    return got


def recover(ctx, d, k, model_newest, saved, how, info):
    """A complete next run."""
    os.chdir(d)
    configure(how, k)
    before = set(os.listdir('tables'))
    info = dict(info, recovery=how)
    try:
        runner.run_main('c.ini')
    except Exception as e:
        ctx.check(model_newest is None and how != 'generate', 'the run after a stopped run fails: %s: %s' % (type(e).__name__, e), **info)
        return
    intact(ctx, d, saved, info)
    _, got = newest(ctx, d, info)
    want = model_newest if how == 'use' else sorted([k] + (model_newest if how == 'expand' else []))
    ctx.check(got == want, 'wrong table after the run that follows a stopped run', got=got, expected=want, **info)
    ctx.step()


def shape(d):
    return tuple(sorted((f, os.path.getsize(os.path.join(d, 'tables', f)) // 3000) for f in os.listdir(os.path.join(d, 'tables')) if f not in OTHERS))


def points(ops, deep):
    """All the ways to stop a run with these calls."""
    out = []
    for i, (kind, size) in enumerate(ops):
        out.append((KILL_BEFORE, i, 0, 28))
        if size:
            cuts = {0, 1, size // 4, size // 2, 3 * size // 4, size - 2, size - 1, size}
            if deep:
                cuts |= set(range(0, size, 200))
            out += [(KILL_TORN, i, c, 28) for c in sorted(c for c in cuts if 0 <= c <= size)]
        for e in ((28, 5) if deep else (28,)):
            out += [(FAIL_ONCE, i, 0, e), (FAIL_FROM, i, 0, e)]
    return out


def run(unit, ctx):
    start, name, part, parts, deep = unit
    runner.prepare(ctx.scratch)
    base = ctx.fresh_dir()
    os.mkdir(os.path.join(base, 'tables'))
    model, saved = {}, {}
    for n, v in enumerate(START[start]):
        data = table_bytes(ctx, n)
        with open(os.path.join(base, 'tables', filename(v)), 'wb') as f:
            f.write(data)
        model[v], saved[filename(v)] = [n], data
    for f in OTHERS:
        saved[f] = table_bytes(ctx, 7)
        with open(os.path.join(base, 'tables', f), 'wb') as g:
            g.write(saved[f])
    os.chdir(base)
    configure(name, 3)
    d = copy(ctx, base)
    status, ops = child(d, 0, 0, 0, 28)
    ctx.check(status == 0, 'an undisturbed run fails', run=name, start=start)
    ctx.check(name == 'use' or len(ops) > 0, 'no file-system call was seen')
    _, got = newest(ctx, d, {})
    want = [3] if name.startswith('generate') else sorted(model[max(model)] + ([3] if name.startswith('expand') else []))
    ctx.check(got == want, 'an undisturbed run stores a wrong table', got=got, expected=want)
    seen = set()
    for n, point in enumerate(points(ops, deep)):
        if n % parts != part:
            continue
        mode, at, torn, err = point
        info = {'start': start, 'run': name, 'mode': ['', 'killed before', 'killed within', 'failing', 'failing from'][mode], 'call': at, 'kind': ops[at][0], 'bytes': torn}
        os.chdir(base)
        configure(name, 3)
        d = copy(ctx, base)
        child(d, mode, at, torn, err)
        left = judge(ctx, d, name, 3, model, saved, info)
        key = (shape(d), str(left))
        new = ctx.state((start, name) + key)
        ctx.step()
        # every table that is complete now is a saved table for the runs to come
        os.chdir(d)
        configure('use', 0)
        p = configfile.ConfigParser('c.ini').get_config()['hashtable_file']
        saved_now = dict(saved)
        if os.path.exists(p):
            with open(p, 'rb') as f:
                saved_now[os.path.basename(p)] = f.read()
        if key not in seen or deep:
            for how in ('use', 'expand', 'generate'):
                nd = copy(ctx, d)
                recover(ctx, nd, 4, left, saved_now, how, info)
                shutil.rmtree(nd)
        if key not in seen:
            seen.add(key)
            # the recovering run is stopped as well
            for how in ('generate', 'expand'):
                if how == 'expand' and left is None:
                    continue
                os.chdir(d)
                configure(how, 5)
                nd = copy(ctx, d)
                _, ops2 = child(nd, 0, 0, 0, 28)
                shutil.rmtree(nd)
                for m2, a2, t2, e2 in points(ops2, False):
                    if not deep and (m2 in (FAIL_ONCE, FAIL_FROM) or m2 == KILL_TORN and t2 != ops2[a2][1] // 2):
                        continue
                    os.chdir(d)
                    configure(how, 5)
                    nd = copy(ctx, d)
                    child(nd, m2, a2, t2, e2)
                    judge(ctx, nd, how, 5, {1: left} if left is not None else {}, saved_now, dict(info, then=how, mode2=m2, call2=a2, bytes2=t2))
                    ctx.step()
                    os.chdir(ctx.scratch)
                    shutil.rmtree(nd)
        os.chdir(ctx.scratch)
        shutil.rmtree(d)
        ctx.trace(info)
