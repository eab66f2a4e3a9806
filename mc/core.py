"""The exploration framework: exhaustive execution of work units on worker processes, counters, violations, evidence.

A check is a module checks/cXX.py with
    PROPERTY     its id
    units(tier)  the list of work units (JSON-able); together they are the whole bounded space of this tier
    run(unit, ctx)  explores one unit completely on the real code, calling ctx.fail() at the first disagreement
    SPACE        {'quick': ..., 'thorough': ...} what is enumerated and within which bounds (text)
    ASSUMPTIONS  list of texts
Nothing is sampled: every unit of the tier is run; the seed is only recorded."""
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PICF_REPO', '/repo')
REAL_STDOUT = None


class Violation(Exception):
    def __init__(self, message, detail):
        super().__init__(message)
        self.message, self.detail = message, detail


class UnitTimeout(BaseException):
    pass


def _jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not isinstance(x, int) or abs(x) < 10**300 else str(x)
    if depth > 12:
        return str(x)
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in x]
    return str(x)


class Ctx:
    """Counters of one worker."""
    def __init__(self):
        self.states, self.outcomes, self.skips = set(), {}, {}
        self.transitions = self.traces = 0
        self.samples = []
        self.unit_sample = None
        self.scratch = None

    def step(self, n=1):
        """n operations of the real code were executed and compared with the reference."""
        self.transitions += n

    def state(self, key):
        """A state of the explored system (anything hashable; only its hash is kept). Returns True if it is new."""
        h = hash(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trace(self, sample=None, n=1):
        """A complete history/case was executed on the implementation and agreed with the reference."""
        self.traces += n
        if sample is not None and len(self.samples) < 2:
            self.samples.append(_jsonable(sample))

    def outcome(self, name, n=1):
        """Distinct observed outcomes (a vacuity check)."""
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def skip(self, reason, n=1):
        """A comparison that the property leaves open."""
        self.skips[reason] = self.skips.get(reason, 0) + n

    def fail(self, message, **detail):
        raise Violation(message, _jsonable(detail))

    def check(self, cond, message, **detail):
        if not cond:
            raise Violation(message, _jsonable(detail))

    def fresh_dir(self):
        """A scratch directory inside this worker's scratch directory."""
        return tempfile.mkdtemp(dir=self.scratch)


def setup_repo():
    """Makes the modules of the code under test importable."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.setrecursionlimit(20000)
    # an enumeration that is longer than it announces is an error for the real progress bar too
    import progressbar

    def quiet_progressbar(iterator, min_value=0, max_value=None, *args, **kwargs):
        for i, x in enumerate(iterator):
            if max_value is not None and isinstance(max_value, int) and i + 1 > max_value:
                raise ValueError('Value out of range, should be between %s and %s' % (min_value, max_value))
            yield x
    progressbar.progressbar = quiet_progressbar
    # dill 0.2.8.2 cannot load the code objects it saves on python>=3.8 (an environment limitation, see DESIGN.md)
    import types
    import dill

    def save_code(p, o):
        p.save_reduce(types.CodeType, (o.co_argcount, o.co_posonlyargcount, o.co_kwonlyargcount, o.co_nlocals,
                                       o.co_stacksize, o.co_flags, o.co_code, o.co_consts, o.co_names, o.co_varnames,
                                       o.co_filename, o.co_name, o.co_firstlineno, o.co_lnotab, o.co_freevars,
                                       o.co_cellvars), obj=o)
    dill._dill.Pickler.dispatch[types.CodeType] = save_code


def _alarm(signum, frame):
    raise UnitTimeout()


def _worker(wid, mod, units, counter, conn, scratch, unit_timeout):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    ctx = Ctx()
    ctx.scratch = scratch
    os.chdir(scratch)
    done = []
    signal.signal(signal.SIGALRM, _alarm)
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(units):
                break
            conn.send(('start', i))
            result = run_unit(mod, units[i], ctx, unit_timeout)
            if result is not None:
                message, detail = result
                conn.send(('violation', i, message, detail, done))
                break
            done.append(i)
        conn.send(('done', list(ctx.states), ctx.transitions, ctx.traces, ctx.outcomes, ctx.skips, ctx.samples,
                   len(done)))
        conn.close()
    finally:
        os._exit(0)


def run_unit(mod, unit, ctx, unit_timeout):
    """Returns None, or (message, detail) of a violation."""
    signal.alarm(unit_timeout)
    try:
        mod.run(unit, ctx)
        return None
    except Violation as v:
        return v.message, v.detail
    except UnitTimeout:
        return 'the code under test does not finish within %d seconds' % unit_timeout, {}
    except BaseException as e:
        tb = traceback.format_exc()
        return ('unexpected %s: %s' % (type(e).__name__, str(e)[:300]), {'traceback': tb[-3000:]})
    finally:
        signal.alarm(0)


def write_replay(prop, tier, unit, message, detail, preceding):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    body = json.dumps({'property': prop, 'tier': tier, 'unit': unit, 'message': message, 'detail': detail,
                       'preceding_units': preceding}, indent=1)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(body)
    return path


def load_known(prop):
    """{unit-independent signature: text} of the recorded, unrepaired findings of the property."""
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                known.append(line[len('finding: property=%s ' % prop):])
    return known


def run_check(mod, tier, seed, workers=None, out=print):
    t0 = time.time()
    prop = mod.PROPERTY
    workers = workers or min(8, os.cpu_count() or 1)
    units = list(mod.units(tier))
    unit_timeout = getattr(mod, 'UNIT_TIMEOUT', 400)
    scratch_root = tempfile.mkdtemp(prefix='picf_%s_' % prop)
    counter = mp.Value('i', 0)
    procs = {}
    totals = {'states': set(), 'transitions': 0, 'traces': 0, 'outcomes': {}, 'skips': {}, 'samples': [], 'units': 0}
    violation = None
    try:
        for w in range(min(workers, len(units))):
            scratch = os.path.join(scratch_root, 'w%d' % w)
            os.mkdir(scratch)
            r, s = mp.Pipe(duplex=False)
            p = mp.Process(target=_worker, args=(w, mod, units, counter, s, scratch, unit_timeout))
            p.daemon = True
            p.start()
            s.close()
            procs[r] = (p, [None])
        while procs and violation is None:
            for r in wait(list(procs)):
                p, cur = procs[r]
                try:
                    msg = r.recv()
                except EOFError:
                    p.join()
                    if cur[0] is not None:
                        violation = (cur[0], 'the process running the code under test ended unexpectedly (exit code %s)'
                                     % p.exitcode, {}, [])
                    del procs[r]
                    continue
                if msg[0] == 'start':
                    cur[0] = msg[1]
                elif msg[0] == 'violation':
                    violation = msg[1:]
                    break
                else:
                    _, st, tr, tc, oc, sk, sm, nu = msg
                    cur[0] = None
                    totals['states'].update(st)
                    totals['transitions'] += tr
                    totals['traces'] += tc
                    totals['units'] += nu
                    for k, v in oc.items():
                        totals['outcomes'][k] = totals['outcomes'].get(k, 0) + v
                    for k, v in sk.items():
                        totals['skips'][k] = totals['skips'].get(k, 0) + v
                    totals['samples'] += sm
    finally:
        for r, (p, cur) in list(procs.items()):
            p.terminate()
        for r, (p, cur) in list(procs.items()):
            p.join()
        shutil.rmtree(scratch_root, ignore_errors=True)
    wall = time.time() - t0
    coverage = {'states': len(totals['states']), 'transitions': totals['transitions'],
                'traces_validated_against_impl': totals['traces'],
                'units_completed': totals['units'], 'units_total': len(units),
                'outcomes': totals['outcomes'] if len(totals['outcomes']) <= 40 else {'distinct': len(totals['outcomes'])},
                'left_open_by_the_property': totals['skips'], 'samples': totals['samples'][:6],
                'exhaustive': violation is None and totals['units'] == len(units),
                'explanation': mod.SPACE[tier] if isinstance(mod.SPACE, dict) else mod.SPACE}
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
                'assumptions': list(mod.ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': 0 if violation is None else 1}
    if violation is not None:
        i, message, detail, preceding = violation
        path = write_replay(prop, tier, units[i], message, detail, [units[j] for j in preceding])
        evidence['coverage']['violation'] = {'message': message, 'unit': units[i]}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k in load_known(prop):
        out('KNOWN-FINDING: property=%s %s' % (prop, k))
    out('%s %s: %d/%d units, %d states, %d transitions, %d traces, %d outcomes, skips %s, %.1f s' %
        (prop, tier, totals['units'], len(units), len(totals['states']), totals['transitions'], totals['traces'],
         len(totals['outcomes']), totals['skips'], wall))
    if violation is not None:
        out('%s' % message)
        out(json.dumps(detail)[:3000])
        out('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
