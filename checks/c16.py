"""C16: configuration files with up to two (three) deviations from a valid file against a reference reader."""
import itertools
import json
import os
import re
from mc import core
from mc import pool
import configfile
import lhs_evaluators
import enum_poly_params
import postprocfuncs

PROPERTY = 'C16'
ASSUMPTIONS = ['more than two (thorough: three) deviating settings at a time do not interact',
               'how unknown settings are read is open; spellings that python\'s int() accepts beyond plain decimal numbers are open']
SPACE = {
    'quick': 'a valid file of all 23 settings, and every pair of deviations among ~220 spellings (value forms, letter case, blanks, none, missing, illegal) of all settings; '
             'layouts of the file (sections, order, separators, comments, multi-line values, other settings); the configuration files of the repository',
    'thorough': 'additionally every triple of deviations of the settings that interact (operation, table-only mode, table file, functions, types, index, flags)'}
ERR, MISSING = 'an error', object()
NAMES = ['x', '1/x', 'x^2']
FUNCS = list(postprocfuncs.POSTPROC_FUNCS)
ANYTHING = object()

INT_KEYS = ['hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations', 'first_filtering_precision',
            'second_filtering_max_num_of_iterations', 'second_filtering_precision', 'third_filtering_max_num_of_iterations',
            'third_filtering_precision']
BASE = {'const': 'pi', 'i': '3', 'ab_polys_type': 'normal', 'ab_polys_special_params': 'none', 'a_coeffs_range': '[[[1, 3], [0, 2]]]',
        'b_coeffs_range': '[[[-2, 2]], [[1, 4], [2, 3]]]', 'validate_hashtable_extend_no_replication': 'true', 'gen_hashtable_only': 'auto',
        'hashtable_num_of_iterations': '200', 'hashtable_precision': '8', 'first_filtering_num_of_iterations': '1000', 'first_filtering_precision': '10',
        'second_filtering_max_num_of_iterations': '1200', 'second_filtering_precision': '13', 'third_filtering_max_num_of_iterations': '1500',
        'third_filtering_precision': '20', 'lhs_type': 'ulcd', 'lhs_params': '[3, [1, 4], 2, 5]', 'postproc_funcs_filter': '["%s"]' % FUNCS[0],
        'hashtable_file_operation': 'generate', 'hashtable_file': 'table', 'print_surprising_nonexp_contfracs': 'false', 'is_test': 'false'}


def js(*texts):
    return [(t, json.loads(t)) for t in texts] + [('None', None), (' NONE ', None), (MISSING, None)]


BAD_JSON = [(t, ERR) for t in ('[1, 2', 'abc', '[[1, 2], [3 4]]', '', "['a']")]
POLYS = enum_poly_params.AB_POLYS_TYPES
TYPES = [(spell(t), c) for t, c in POLYS.items() for spell in (str, str.upper, lambda s: ' %s  ' % s.capitalize())]
LHS = [(spell(t), c) for t, c in lhs_evaluators.LHS_TYPES.items() for spell in (str, str.upper, lambda s: '  ' + s.capitalize())]
BOOL = [('true', True), ('false', False), ('True', True), ('FALSE', False), ('none', None)] + [(t, ERR) for t in ('yes', '1', '0', '', 'tru', 'true false', 'no', 'on', 'off', 'f')]
QUOTED = ['"%s"' % f for f in FUNCS]

ALPHABET = {
    'const': [('pi', 'pi'), ('e', 'e'), (' Zeta ', 'zeta'), ('EULER_MASCH', 'euler_masch'), ('phi', 'phi'), ('none', None), (MISSING, None)],
    'i': [('0', 0), ('3', 3), ('-1', -1), ('12', 12), (MISSING, 0), ('x', ERR), ('2.5', ERR), ('', ERR), ('[1]', ERR)],
    'ab_polys_type': TYPES + [('none', None), (MISSING, None), ('normall', ERR), ('', ERR), ('spars', ERR), ('normal sparse', ERR), ('true', ERR)],
    'ab_polys_special_params': js('[3, 2]', '[[4, 3], [2]]', '7', '{"n": [1, 2]}') + BAD_JSON,
    'a_coeffs_range': js('[[[0, 1]]]', '[[[-4, 4], [-4, 4]], [[1, 2]]]', '[]', '[[[1.5, 2]]]', '[[[1,2],[3,4],[5,6],[7,8]]]') + BAD_JSON,
    'b_coeffs_range': js('[[[0, 1]]]', '[[[-4, 4], [-4, 4]], [[1, 2]]]', '[]', '[[[1,2],\n  [3,4]]]') + BAD_JSON,
    'validate_hashtable_extend_no_replication': BOOL + [(MISSING, True)],
    'print_surprising_nonexp_contfracs': BOOL + [(MISSING, None)],
    'is_test': BOOL + [(MISSING, False)],
    'gen_hashtable_only': [('true', True), ('false', False), ('Auto', 'auto'), ('auto', 'auto'), ('TRUE', True), ('none', None), (MISSING, None), ('maybe', ERR),
                           ('1', ERR), ('0', ERR), ('', ERR), ('automatic', ERR), ('"true"', ERR), ('generate', ERR), ('yes', ERR), ('no', ERR), ('on', ERR),
                           ('t', ERR), ('true auto', ERR)],
    'lhs_type': LHS + [('none', None), (MISSING, None), ('ulcdd', ERR), ('', ERR), ('rational', ERR), ('1', ERR)],
    'lhs_params': js('[1, 2, 3, 4]', '[[1, 3], [2, 4], [3, 5], [4, 6, 2]]', '[[[-2, 3], [1, 2]], [[0, 2]], 1, true]', '[[], null, false]') + BAD_JSON,
    'postproc_funcs_filter': [('[%s]' % q, [k]) for k, q in enumerate(QUOTED)] +
                             [('[%s]' % ', '.join(QUOTED), list(range(len(FUNCS)))),
                              ('[%s]' % ','.join(reversed(QUOTED)), list(reversed(range(len(FUNCS))))),
                              ('[%s,%s]' % (QUOTED[5], QUOTED[2]), [5, 2]), ('[%s,%s,%s]' % (QUOTED[3], QUOTED[0], QUOTED[11]), [3, 0, 11]), ('[]', []),
                              ('["no such function"]', ERR), ('[%s, "X!"]' % QUOTED[0], ERR), ('["%s "]' % FUNCS[1], ERR), ('[""]', ERR), ('[0]', ERR),
                              ('[%s' % QUOTED[0], ERR), ('x', ERR), ('', ERR), ('none', ERR), (MISSING, ERR)],
    'hashtable_file_operation': [('generate', 'generate'), ('expand', 'expand'), ('use', 'use'), ('USE', 'use'), (' Generate ', 'generate'), ('Expand', 'expand'),
                                 ('none', ERR), (MISSING, ERR), ('', ERR), ('delete', ERR), ('generated', ERR), ('true', ERR), ('use expand', ERR)],
    'hashtable_file': [('table', 'table_v1.pkl'), ('Table.pkl', 'Table_v1.pkl'), ('Some Dir/My Table', 'Some Dir/My Table_v1.pkl'), ('lower/x_v1.pkl', 'lower/x_v1.pkl'),
                       (' lower/UPPER ', 'lower/UPPER_v1.pkl'), ('./t.b', 't.b_v1.pkl'), ('%A/t', None), ('none', ERR), (MISSING, ERR),
                       ('Some Dir/$HOME', 'Some Dir/$HOME_v1.pkl'), ('~', '~_v1.pkl'), ('lower/a #1 ;b', 'lower/a #1 ;b_v1.pkl'), ('t=u:w', 't=u:w_v1.pkl'),
                       ('lower/& (x)', 'lower/& (x)_v1.pkl')],
}
ALPHABET['hashtable_file'] = [x for x in ALPHABET['hashtable_file'] if x[0] is MISSING or '%' not in x[0]]
for k in INT_KEYS:
    ALPHABET[k] = [('1', 1), (' 50 ', 50), ('-7', -7), ('0', 0), ('123456789012345678901', 123456789012345678901), ('none', None), (MISSING, None), ('1.5', ERR), ('1e3', ERR),
                   ('', ERR), ('ten', ERR), ('[5]', ERR), ('5 6', ERR), ('true', ERR)]
KEYS = sorted(BASE)
INTERACT = ['hashtable_file_operation', 'gen_hashtable_only', 'hashtable_file', 'postproc_funcs_filter', 'i', 'lhs_type', 'ab_polys_type',
            'validate_hashtable_extend_no_replication', 'is_test']


def units(tier):
    out = [['single'], ['layout'], ['shipped']] + [['pair', k] for k in KEYS]
    if tier == 'thorough':
        out += [['triple', a, b] for a, b in itertools.combinations(INTERACT, 2)]
    return out


def render(settings, sep='=', sections=1, order=None):
    keys = [k for k in (order or KEYS) if settings[k] is not MISSING]
    lines = ['[Setup]']
    for n, k in enumerate(keys):
        if sections > 1 and n and n % (len(keys) // sections + 1) == 0:
            lines.append('[Section%d]' % n)
        lines.append('%s%s%s' % (k, sep, settings[k]))
    return '\n'.join(lines) + '\n'


def base_expected():
    return {k: None for k in KEYS}


EXPECTED_BASE = {'const': 'pi', 'i': 3, 'ab_polys_type': POLYS['normal'], 'ab_polys_special_params': None, 'a_coeffs_range': [[[1, 3], [0, 2]]],
                 'b_coeffs_range': [[[-2, 2]], [[1, 4], [2, 3]]], 'validate_hashtable_extend_no_replication': True, 'gen_hashtable_only': 'auto',
                 'lhs_type': lhs_evaluators.LHS_TYPES['ulcd'], 'lhs_params': [3, [1, 4], 2, 5], 'postproc_funcs_filter': [0],
                 'hashtable_file_operation': 'generate', 'hashtable_file': 'table_v1.pkl', 'print_surprising_nonexp_contfracs': False, 'is_test': False}
for k in INT_KEYS:
    EXPECTED_BASE[k] = int(BASE[k])


def same(got, want):
    """Equal, with equal types all the way down."""
    if want is None or isinstance(want, (bool, type)):
        return got is want
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
    return type(got) is type(want) and got == want


def verify(ctx, text, expected, **info):
    with open('config_under_test.ini', 'w') as f:
        f.write(text)
    bad = [k for k, v in expected.items() if v is ERR]
    try:
        config = configfile.ConfigParser('config_under_test.ini').get_config()
    except Exception as e:
        ctx.check(bad, 'a legal configuration file is rejected with %s: %s' % (type(e).__name__, str(e)[:200]), file=text, **info)
        ctx.outcome('rejected')
        ctx.step()
        ctx.trace()
        return
    ctx.check(not bad, 'an illegal setting is accepted', settings=bad, file=text, values={k: str(config.get(k)) for k in bad}, **info)
    for k, want in expected.items():
        if k == 'gen_hashtable_only' and want == 'auto':
            want = expected['hashtable_file_operation'] != 'use'
        ctx.check(k in config, 'a setting is missing', setting=k, file=text, **info)
        got = config[k]
        if k == 'hashtable_file':
            ctx.check(isinstance(got, str) and os.path.normpath(got) == os.path.normpath(want), 'wrong table file', file=text, got=str(got), expected=want, **info)
        else:
            ctx.check(same(got, want), 'a setting is read wrong', setting=k, got='%s %r' % (type(got).__name__, got), expected=repr(want), file=text, **info)
    ctx.outcome('read')
    ctx.step()
    ctx.trace({'file': text} if not ctx.samples else None)


def shipped(ctx):
    """The configuration files that come with the program: (file, settings that a plain reader finds)."""
    for fn in sorted(os.listdir(core.REPO)):
        if not (fn.startswith('config') and fn.endswith('.ini')):
            continue
        with open(os.path.join(core.REPO, fn)) as f:
            text = f.read()
        raw = {}
        for line in text.split('\n'):
            if '=' in line and line.lstrip() == line and line[0] not in ';#[':
                k, v = line.split('=', 1)
                raw[k.strip()] = v.strip()
        expected = {}
        for k, v in raw.items():
            if k == 'hashtable_file':
                v = v[:-4] if v.endswith('.pkl') else v
                expected[k] = v + ('.pkl' if re.search('_v[0-9]+$', v) else '_v1.pkl')
            elif k == 'postproc_funcs_filter':
                expected[k] = [FUNCS.index(f) for f in json.loads(v)]
            elif k == 'ab_polys_type':
                expected[k] = POLYS[v]
            elif k == 'lhs_type':
                expected[k] = lhs_evaluators.LHS_TYPES[v]
            elif v.lower() in ('true', 'false', 'none'):
                expected[k] = {'true': True, 'false': False, 'none': None}[v.lower()]
            elif k in ('const', 'hashtable_file_operation', 'gen_hashtable_only'):
                expected[k] = v
            else:
                expected[k] = json.loads(v.replace('True', 'true').replace('False', 'false'))
        ctx.check(set(raw) >= set(ALPHABET) - {'is_test', 'print_surprising_nonexp_contfracs', 'validate_hashtable_extend_no_replication', 'i', 'ab_polys_special_params'},
                  'a configuration file of the repository lacks settings', file=fn)
        verify(ctx, text, expected, shipped=fn)
        ctx.state(('shipped', fn))


def deviate(ctx, keys):
    for choice in itertools.product(*[ALPHABET[k] for k in keys]):
        settings, expected = dict(BASE), dict(EXPECTED_BASE)
        for k, (text, want) in zip(keys, choice):
            settings[k], expected[k] = text, want
        ctx.state(tuple((k, str(t)) for k, (t, w) in zip(keys, choice)))
        verify(ctx, render(settings), expected)


def run(unit, ctx):
    d = ctx.fresh_dir()
    os.chdir(d)
    for sub in ('Some Dir', 'lower'):
        os.mkdir(sub)
    if unit[0] == 'single':
        verify(ctx, render(BASE), EXPECTED_BASE)
        for k in KEYS:
            deviate(ctx, [k])
        # the function list is complete and positions are those of the list
        ctx.check(len(set(FUNCS)) == len(FUNCS), 'two functions have the same name')
        # no file at all
        ctx.check(configfile.ConfigParser().get_config().get('i') == 0, 'the default of i is not 0')
    elif unit[0] == 'shipped':
        shipped(ctx)
    elif unit[0] == 'layout':
        for sep in ('=', ' = ', ':', ' : ', '=   '):
            for sections in (1, 2, 3, 7):
                for order in (KEYS, KEYS[::-1], KEYS[7:] + KEYS[:7], sorted(KEYS, key=lambda s: s[::-1])):
                    verify(ctx, render(BASE, sep, sections, order), EXPECTED_BASE)
                    text = render(BASE, sep, sections, order)
                    verify(ctx, '; a comment\n# another = 1\n' + text.replace('\n', '\n\n; const=e\n'), EXPECTED_BASE)
                    verify(ctx, text + 'some_other_setting=[1, 2\nanother%s5\n' % sep, EXPECTED_BASE)
                    verify(ctx, '\n'.join(l if l.startswith('[') else l.split(sep.strip())[0].upper() + l[len(l.split(sep.strip())[0]):] for l in text.split('\n')),
                           EXPECTED_BASE)
    else:
        if unit[0] == 'pair':
            for k in KEYS:
                if k > unit[1]:
                    deviate(ctx, [unit[1], k])
        else:
            for k in INTERACT:
                if INTERACT.index(k) > INTERACT.index(unit[2]):
                    deviate(ctx, unit[1:] + [k])
