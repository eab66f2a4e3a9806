"""Command line of the checks (see check.sh)."""
import importlib
import json
import os
import sys
import tempfile


def main(argv):
    from mc import core
    if argv[0] == '--replay':
        rec = json.load(open(argv[1]))
        prop = rec['property']
    else:
        prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 and argv[0] != '--replay' else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    out_fd = os.dup(1)
    out_file = os.fdopen(out_fd, 'w')

    def out(s):
        out_file.write(s + '\n')
        out_file.flush()
    # nothing the code under test prints while it is imported reaches the report
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        core.setup_repo()
        mod = importlib.import_module('checks.' + prop.lower())
    except BaseException as e:
        import traceback
        path = core.write_replay(prop, tier, None, 'the code under test cannot be imported: %r' % e,
                                 {'traceback': traceback.format_exc()[-3000:]}, [])
        out(traceback.format_exc())
        out('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if argv[0] == '--replay':
        for units in ([rec['unit']], rec['preceding_units'] + [rec['unit']]):
            ctx = core.Ctx()
            ctx.scratch = tempfile.mkdtemp(prefix='picf_replay_')
            os.chdir(ctx.scratch)
            import signal
            signal.signal(signal.SIGALRM, core._alarm)
            for unit in units:
                res = core.run_unit(mod, unit, ctx, getattr(mod, 'UNIT_TIMEOUT', 400))
                if res is not None:
                    out(res[0])
                    out(json.dumps(res[1], indent=1))
                    import shutil
                    shutil.rmtree(ctx.scratch, ignore_errors=True)
                    out('VIOLATION property=%s replay=%s' % (prop, argv[1]))
                    return 1
        out('the recorded violation does not occur')
        return 0
    return core.run_check(mod, tier, seed, out=out)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
