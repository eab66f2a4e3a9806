#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one entry per checks/cXX.py. Run it after adding a check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'explicit-state exploration of all operation histories on the real object, against exact rational recurrences',
    'C02': 'bounded exhaustive enumeration of term lists, polynomials and depths on the real code, against exact rationals',
    'C03': 'exhaustive fault-position and operation-history exploration on the real object',
    'C04': 'bounded exhaustive enumeration of range shapes and options against a reference set',
    'C05': 'bounded exhaustive enumeration of polynomials against exact root search',
    'C06': 'explicit-state exploration of all operation histories in lockstep with a reference map',
    'C07': 'exhaustive enumeration of table histories and listing orders against exact union',
    'C08': 'bounded exhaustive enumeration of range forms against a reference set',
    'C09': 'explicit-state exploration of all transformation sequences against exact rational functions',
    'C10': 'exhaustive enumeration of result pairs and result lists against exact equivalence of functions',
    'C11': 'explicit-state exploration of all build histories against brute-force evaluation in exact arithmetic',
    'C12': 'exhaustive search spaces and search histories against a brute-force double loop',
    'C13': 'exhaustive enumeration of results and refinement sequences against exact digits',
    'C14': 'bounded exhaustive enumeration of polynomials and result lists against exact divisor search',
    'C15': 'bounded exhaustive enumeration of closed-form families and result lists against exact rates',
    'C16': 'bounded exhaustive enumeration of settings deviations against a reference reader',
    'C17': 'explicit-state exploration of all version directories and run histories against a reference model',
    'C18': 'bounded exhaustive enumeration of settings and splits, written and read back',
    'C19': 'crash-point enumeration: every prefix and torn write of the recorded file operations is replayed and recovered from',
    'C20': 'bounded exhaustive enumeration of results, with an independent LaTeX reader evaluating both sides',
    'C21': 'exhaustive call histories over all constants and precisions against independent values',
    'C22': 'bounded exhaustive enumeration of functions and arguments against independent formulas',
    'C23': 'exhaustive run histories of the real program over small configurations against a brute-force reference pipeline',
    'C24': 'exhaustive interleavings of the real part runs under a controlled scheduler, and of all join orders',
    'C27': 'explicit-state exploration of command sequences over directories on the real programs, with merging of equal directories',
    'C28': 'stateless exploration of all schedules of real processes under a controlled scheduler, with merging of equal scheduling states',
    'C26': 'exhaustive enumeration of interrupt points: the real run is forked and interrupted before every line of the cancellable stage, and what it saves is compared',
    'C25': 'bounded exhaustive enumeration of arguments, and all call sequences under a controlled clock',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
import ast
for p in props:
    f = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'its check is not built yet'})
        continue
    consts = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ('SPACE', 'ASSUMPTIONS') if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) else False:
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'model checking: ' + TECH[p['id']], 'level': 'model_checking',
                   'level_note': 'Runs the real code on every case of the bounded space, nothing is sampled: %s. Assumes: %s.' %
                   (consts['SPACE']['quick'], '; '.join(consts['ASSUMPTIONS']))})
m = {'version': 1, 'setup_cmd': 'test -x /opt/venv/bin/python && mkdir -p evidence replays',
     'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python: the checks import the modules of /repo directly, so nothing has to be built. No hooks in /repo.'}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
