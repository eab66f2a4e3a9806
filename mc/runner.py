"""Runs the real program (main, distribute_run, join_hashtables) in a scratch directory."""
import csv
import io
import os
import stat
import contextlib

STUB = '#!/bin/sh\n# stands in for pdflatex: writes the pdf beside the tex file\nfor last; do :; done\nb=${last##*/}\nb=${b%.tex}\necho pdf > "$b.pdf"\n'


def prepare(scratch):
    """A directory with a stand-in for pdflatex, put first on PATH."""
    d = os.path.join(scratch, 'bin')
    if not os.path.isdir(d):
        os.mkdir(d)
        p = os.path.join(d, 'pdflatex')
        with open(p, 'w') as f:
            f.write(STUB)
        os.chmod(p, 0o755)
    # nothing else: latexmk must not be found
    os.environ['PATH'] = d + ':/usr/bin:/bin'


BASE = {'const': 'phi', 'i': 0, 'ab_polys_type': 'normal', 'ab_polys_special_params': 'none', 'a_coeffs_range': [[[1, 3]]], 'b_coeffs_range': [[[1, 2]]],
        'validate_hashtable_extend_no_replication': 'true', 'gen_hashtable_only': 'auto', 'hashtable_num_of_iterations': 120, 'hashtable_precision': 8,
        'first_filtering_num_of_iterations': 150, 'first_filtering_precision': 10, 'second_filtering_max_num_of_iterations': 200,
        'second_filtering_precision': 13, 'third_filtering_max_num_of_iterations': 250, 'third_filtering_precision': 20, 'lhs_type': 'ulcd',
        'lhs_params': [1, 1, 1, 2], 'postproc_funcs_filter': [0], 'hashtable_file_operation': 'generate', 'hashtable_file': 'tables/t',
        'print_surprising_nonexp_contfracs': 'false', 'is_test': 'false'}


def func_name(i):
    import postprocfuncs
    return postprocfuncs.POSTPROC_FUNCS[i]


def write_config(path, **settings):
    import json
    s = dict(BASE)
    s.update(settings)
    with open(path, 'w') as f:
        f.write('[Setup]\n')
        for k, v in s.items():
            if k == 'postproc_funcs_filter':
                v = json.dumps([func_name(i) for i in v])
            elif isinstance(v, (list, tuple)) and not isinstance(v, str):
                v = json.dumps(v)
            f.write('%s=%s\n' % (k, v))
    return path


# the working precision that a run finds (importing the program sets 150)
START_DPS = 150


def run_main(config):
    import main
    import mpmath
    mpmath.mp.dps = START_DPS
    with contextlib.redirect_stdout(io.StringIO()):
        main.main(config)


def load_table(path):
    """The stored object."""
    import dill
    with open(path, 'rb') as f:
        return dill.load(f)


def table_entries(mitm):
    """{key digits: sorted entries} of a stored table."""
    out = {}
    for k in mitm.dec_hashtable.keys():
        if k == 'parameters':
            continue
        out[str(k)] = sorted(((tuple(tuple(int(c) for c in p) for p in ab[0]), tuple(tuple(int(c) for c in p) for p in ab[1])), i)
                             for ab, i in mitm.dec_hashtable[k])
    return out


def results_dirs():
    return sorted(os.listdir('results')) if os.path.isdir('results') else []


def read_rows(dirname):
    with open(os.path.join('results', dirname, 'results.csv'), newline='') as f:
        return list(csv.reader(f))


def snapshot(root='.'):
    """{path: bytes} of all the files below root."""
    out = {}
    for d, _, files in os.walk(root):
        for fn in files:
            p = os.path.join(d, fn)
            if not os.path.islink(p):
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out
