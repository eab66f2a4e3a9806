#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one line per property).  Run it after editing."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'mechanism': [dict(name=n, where=w) for n, w in mechanism],
                          'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'A continued fraction reports its exact convergent after any history',
     'After any sequence of generating from scratch, extending, and re-initialising a continued fraction given by '
     '(possibly interlaced) integer polynomials a and b, with iteration logging on or off, the reported value equals the exact '
     'convergent a_0+b_1/(a_1+b_2/(...+b_n/a_n)) to working precision for the n iterations executed so far, and is NaN exactly '
     'when that convergent has denominator zero. The reported iteration count is n, the reported numerator/denominator pair is '
     'that same convergent, and the comparison with a target is value minus target (or its absolute value). '
     'A re-initialised object behaves like a freshly constructed one.',
     ['inputs', 'histories'],
     'for all polynomial pairs and interlacings in the alphabet and all operation sequences up to the depth bound',
     'The repository\'s ContFrac test samples six fractions with one reinitialize+generate each and compares a limit, not the '
     'n-th convergent; extension, logging, re-use of an object and (p,q) are never exercised.',
     ['cont_fracs.py', 'basic_representation_types.py', 'utils.py'],
     [('matrix recurrence', 'cont_fracs.py ContFrac.iteration_algorithm / finalize_iterations'),
      ('iteration bookkeeping', 'basic_representation_types.py add_iterations / gen_iterations'),
      ('polynomial substitution', 'utils.py MathOperations.subs_in_polynom')],
     [('iter_matrices', 'current and previous numerators/denominators', 'basic_representation_types.py'),
      ('num_of_executed_iters', 'index of the last executed iteration', 'basic_representation_types.py'),
      ('_params_log', 'coefficients and result so far', 'basic_representation_types.py')],
     ['get_result', 'get_p_q', 'get_num_of_executed_iters', 'compare_result', 'is_result_valid'])

prop('C02', 'Direct evaluation of a continued fraction equals the exact convergent',
     'Evaluating a continued fraction directly, from explicit term lists or from polynomials to a given depth (number of a terms), yields the '
     'exact finite continued fraction: a_0+b_1/(a_1+...) when there is one more a than b (b omitted means all ones), and b_0/(a_0+b_1/(...)) when '
     'both lists have equal length; other lengths are rejected with ValueError. '
     'In the decimal variant the result is correct to the working precision; a division-by-zero is raised only if some inner tail is zero. '
     'It agrees with the iterative representation for the same polynomials and depth, and leaves its arguments unchanged.',
     ['inputs'],
     'for all term lists and (interlaced) polynomial pairs of the alphabet and all depths up to the bound',
     'No test calls these functions, although the hashtable is built with them.',
     ['cont_fracs.py', 'utils.py'],
     [('backward evaluation', 'cont_fracs.py eval_contfrac / eval_contfrac_by_polys / eval_dec_contfrac_by_polys')])

prop('C03', 'Vanishing partial numerators are reported exactly and leave no damage',
     'When zero numerators are to be avoided, generating or extending a continued fraction through iteration n raises the ZeroB error if and '
     'only if some b_i with 1<=i<=n not yet passed is zero, naming the first such index; when not avoided it never raises and the value is that of the '
     'terminated fraction. A failed call leaves the iteration count, value and numerator/denominator pair as they were before an extension '
     '(or as zero iterations after a from-scratch generation), so the object can be retried, re-initialised and re-used.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all polynomials whose b vanishes at every index from 1 to the bound or never, and all operation sequences around the failure',
     'No test reaches a zero numerator at all.',
     ['cont_fracs.py', 'basic_representation_types.py'],
     [('zero check', 'cont_fracs.py ContFrac._default_promo_mat_gen'),
      ('commit after the loop', 'basic_representation_types.py add_iterations')])

prop('C04', 'Candidate polynomials are enumerated exactly',
     'For every coefficient ranges and interlacing, the candidate generator yields exactly the documented pairs: normal - every coefficient '
     'tuple in the half-open ranges; indexed - the expansion of sum a_i(x+i)^deg for every such tuple; sparse - every placement of the k coefficients (in order) on k of '
     'the n powers, independently per interlaced polynomial. '
     'Each pair appears once (sparse with zero coefficients may repeat), identical interlaced polynomials are collapsed to one, and only '
     'when requested are pairs left out: b screened for integer roots, and non-interlaced pairs with deg b > 2 deg a. '
     'When fractions are generated too, each is yielded at the requested depth and pairs whose numerators vanish on the way are skipped; the announced length is '
     'never smaller than the number of pairs yielded.',
     ['inputs', 'configurations'],
     'for all range shapes (degrees, widths, interlace counts) and enumerator types and options within the bounds',
     'Seven hand-written ranges are tested, none with zero coefficients, filters on, or interlaced sparse lengths.',
     ['enum_poly_params.py'],
     [('nested product', 'enum_poly_params.py BasicEnumPolyParams.polys_generator'),
      ('manipulate_poly', 'enum_poly_params.py Indexed/Sparse classes'),
      ('length estimate', 'enum_poly_params.py _len_decorator')],
     observe=['polys_generator'])

prop('C05', 'Integer-root screening never admits a terminating b nor drops a sound one',
     'With root screening on, no candidate is produced in which some interlaced b polynomial, once powers of the index are divided out, has degree at most two '
     'and vanishes at a positive integer (or b is identically zero). A candidate is dropped only if one of its b polynomials really has a nonzero integer root or is '
     'identically zero; in particular b like (2n-1)^2, n^6 or -4+2n+n^3 is kept.',
     ['inputs'],
     'for all integer polynomials b up to the degree and coefficient bounds, alone and interlaced',
     'Three sampled polynomials, two of which fail today; a wrong root formula is invisible to them.',
     ['enum_poly_params.py', 'fix_hashtable_filter_init_b_root.py'],
     [('_does_have_integer_roots', 'enum_poly_params.py'), ('_factor_out_polynom', 'enum_poly_params.py')],
     observe=['polys_generator', 'filtering of a saved table'])

prop('C06', 'The decimal table is a map on leading digits, under any history',
     'The decimal-keyed table behaves, after any sequence of assignments, get/setdefault, deletions, membership tests, accuracy changes and '
     'serialisation round trips, like a reference map in which two numbers are the same key if and only if their plain decimal expansions agree '
     'through the configured number of digits. '
     'Entries stored under an earlier accuracy stay reachable at that accuracy, a lookup prefers the earliest accuracy, an assignment replaces '
     'what a lookup would have found, and a deletion removes it (KeyError if absent). Named (non-numeric) entries are never truncated or confused with numbers.',
     ['histories', 'inputs'],
     'for all operation sequences up to the depth bound over keys that collide and nearly collide at each accuracy',
     'There is no test for the table (test_decimal_hashtable.py is empty).',
     ['decimal_hashtable.py'],
     [('key truncation', 'decimal_hashtable.py _manipulate_key'),
      ('accuracy history', 'decimal_hashtable.py update_accuracy'),
      ('pickle protocol', 'decimal_hashtable.py __getstate__/__setstate__/__reduce__')],
     [('accuracy_history', 'earlier key lengths in chronological order', 'decimal_hashtable.py')])

prop('C07', 'Joining tables is the exact union of their entries',
     'Appending one decimal table to another of the same accuracy gives, for every key, the entries of the first followed by those of the second, loses and invents nothing, '
     'leaves the appended table as it was, and keeps entries stored under earlier accuracies reachable; tables of '
     'different accuracy are rejected with TypeError and nothing changes. '
     'Joining a directory of saved tables gives the union of all of them whatever the listing order, considers only .pkl files, and never overwrites an existing output file.',
     ['inputs', 'histories', 'configurations'],
     'for all pairs/triples of small tables incl. accuracy histories, all listing orders, output present or absent',
     'No test touches append_dict or join_hashtables (empty test file).',
     ['decimal_hashtable.py', 'join_hashtables.py'],
     [('append_dict', 'decimal_hashtable.py'), ('main', 'join_hashtables.py')])

prop('C08', 'Left-hand sides are enumerated exactly',
     'The ULCD enumerator yields exactly once every (u,l,c,d) of the product of the given ranges (int n: -n..n, for d 1..n; [min,max(,step)] half-open; any sized iterable) with l and d nonzero '
     'and |c|<|d|; the rational enumerator yields exactly once every numerator/denominator pair of the ranges that is not zero, not constant over constant, '
     'not zero-valued at the constant and, if requested, has numerator degree at least the denominator degree. '
     'Each yielded object reports those parameters and the value of that formula at the constant, and the announced length is never smaller than the number yielded.',
     ['inputs', 'configurations'],
     'for all range forms and sizes within the bounds and several constants including ones where a polynomial vanishes',
     'Five sampled enumerations; values of rational functions on real (mpf) constants are never checked successfully.',
     ['lhs_evaluators.py'],
     [('ULCDEnumerator.generator', 'lhs_evaluators.py'), ('RationalFuncEnumerator.generator', 'lhs_evaluators.py')])

prop('C09', 'Left-hand side transformations change the value as documented',
     'Through any sequence of sign flips, integer additions, canonicalisations, degeneracy tests, LaTeX renderings and copies, a left-hand side reports the value of the formula its parameters '
     'denote: a flip negates it, adding n adds n, and the others leave it unchanged; copies evolve independently of the original. '
     'Canonical form of a rational function is fraction-reduced with its integer part moved to the added integer, is the same fraction for functions that differ by an integer, and is stable under repetition; a '
     'rational function is degenerate exactly when it does not depend on the constant.',
     ['inputs', 'histories'],
     'for all parameter tuples of the alphabet and all operation sequences up to the depth bound',
     'Tests try add_int then flip_sign once, and fail today; canonicalisation is called without asserting anything.',
     ['lhs_evaluators.py'],
     [('flip_sign/add_int/canonalize_params/reinit_params', 'lhs_evaluators.py')],
     [('params', 'current parameters', 'lhs_evaluators.py'), ('val', 'cached value', 'lhs_evaluators.py')],
     ['get_val', 'get_params', 'is_degenerate'])

prop('C10', 'Redundant results are recognised soundly',
     'Two results are called equivalent only if b is the same, a is the same up to a global sign, the post-processing functions are equal or reciprocal, and the '
     'left-hand sides of the same kind are the same function up to sign and an added integer (for reciprocal functions, one is such a variant of the reciprocal of the other); a result is equivalent to itself and to unreduced '
     'or sign-flipped copies of itself (rational functions: also to integer-shifted ones and to reciprocals under the reciprocal function). '
     'Uniqueness filtering keeps the order, keeps the first of each group, drops only results equivalent to a kept one, leaves no two equivalent results, and is idempotent.',
     ['inputs', 'histories'],
     'for all pairs of results of the pool and all result lists up to the length bound',
     'No test calls is_equiv or filter_uniq_params.',
     ['lhs_evaluators.py', 'enum_params.py', 'postprocfuncs.py'],
     [('is_equiv', 'lhs_evaluators.py'), ('filter_uniq_params', 'enum_params.py'), ('INVERSE_POSTPROC_PAIRS', 'postprocfuncs.py')],
     observe=['filter_uniq_params', 'get_filtered_params'])

prop('C11', 'The built table holds exactly the candidates, whatever the build history',
     'After building, every enumerated pair and selected post-processing function whose value is finite and nonzero (and of a sane magnitude) is found under the fractional part of the absolute '
     'value of function(continued fraction) (under the absolute value itself when trunc_integer is off) at the configured depth and digits, exactly once, and nothing else is in the table; candidates that cannot be evaluated are skipped without affecting others. '
     'Building in several steps, in any order, with overlapping ranges, with functions or the polynomial type changed in between, or across a save/load, gives the same entries as one build of everything.',
     ['inputs', 'histories', 'configurations'],
     'for all small ranges and all build/redefine/save histories up to the depth bound',
     'One build of one pair is tested, and it fails today.',
     ['enum_params.py', 'decimal_hashtable.py', 'cont_fracs.py', 'enum_poly_params.py'],
     [('build_hashtable', 'enum_params.py'), ('redefine_settings', 'enum_params.py')],
     [('dec_hashtable', 'digits -> list of ((a,b), function index)', 'enum_params.py')])

prop('C12', 'Meet-in-the-middle finds exactly the matching pairs',
     'Searching reports a (candidate, left-hand side, function) triple if and only if the left-hand side is enumerated, not degenerate, and the fractional digits of its '
     'absolute value agree with those of function(continued fraction) through the table accuracy (including the integer part when trunc_integer is off); every search uses the constant configured at that moment; every triple is reported once and carries its own independent left-hand side with the right parameters and constant. '
     'Searching neither changes the table nor depends on earlier searches.',
     ['inputs', 'histories', 'configurations'],
     'for all small tables x left-hand-side ranges x constants of the alphabet, compared with a brute-force double loop, and repeated searches',
     'One search with one expected click is tested, and it fails today.',
     ['enum_params.py', 'decimal_hashtable.py', 'lhs_evaluators.py'],
     [('find_clicks', 'enum_params.py')], observe=['get_filtered_params'])

prop('C13', 'Refinement keeps exactly the results that agree, and aligns them',
     'Refining to N digits keeps a result if and only if the re-evaluated right-hand side is finite, nonzero and agrees with the left-hand side, ignoring sign and (unless trunc_integer is off) integer part, through N digits; order is kept. '
     'Every kept result\'s left-hand side has been adjusted in sign and added integer so that its value equals function(continued fraction) itself '
     'to that accuracy, and refining again with the same settings changes nothing. '
     'Results whose evaluation divides by zero are dropped without aborting.',
     ['inputs', 'histories'],
     'for all (candidate, left-hand side, function) combinations of the pool with matching, nearly matching and non-matching digits, all signs and integer offsets, accuracies and refinement sequences',
     'No test calls refinement.',
     ['enum_params.py', 'lhs_evaluators.py'],
     [('_refine_clicks', 'enum_params.py'), ('compare_dec_with_accuracy', 'enum_params.py')],
     observe=['get_filtered_params'])

prop('C14', 'Final root filter removes exactly the terminating fractions',
     'The filter for positive integer roots removes a result if and only if some interlaced b polynomial vanishes at a positive integer, keeping all others unchanged and in order.',
     ['inputs', 'histories'],
     'for all b polynomials up to the degree/coefficient bounds, alone and interlaced, in lists of results',
     'No test calls it; a one-sided rounding test is invisible without enumerating roots with large fractional part.',
     ['enum_params.py'],
     [('filter_pos_integer_roots_numerators', 'enum_params.py')], observe=['get_filtered_params'])

prop('C15', 'Convergence speed is classified right and used safely',
     'For continued fractions whose rate is known in closed form (constant and linear-over-quadratic families), fast convergence is reported when the error shrinks clearly geometrically and not when it decays polynomially or the fraction oscillates; '
     'the estimated type is exponential with the true rate, or polynomial, accordingly, and the filters keep exactly the results of the requested types. '
     'After estimation of an exponential type, generating with a requested accuracy uses the allowed number of iterations or, if fewer, enough that the estimated error coeff/base^n is at most that accuracy; it ignores the accuracy when no estimate is set; analysis leaves the represented fraction unchanged. '
     'A result whose fraction terminates is dropped by these filters without aborting.',
     ['inputs', 'configurations'],
     'for all members of the closed-form families within the coefficient bounds',
     'No test runs the estimator or filters.',
     ['cont_fracs.py', 'basic_representation_types.py', 'enum_params.py'],
     [('is_convergence_fast / estimate_approach_type_and_params', 'cont_fracs.py'),
      ('gen_iterations(accuracy)', 'basic_representation_types.py'),
      ('filter_only_exp_convergence / filter_clicks_by_approach_type', 'enum_params.py')])

prop('C16', 'Configuration files are read to the documented typed settings',
     'Every documented setting is read with its documented type (integers, booleans, JSON lists, type names to enumerator/evaluator classes, function names to their indices in order, "none" to None), unspecified required ones are None and unspecified optional ones have their defaults; '
     '"auto" table-only mode is true for generate/expand and false for use; file paths keep their spelling. '
     'Illegal polynomial or left-hand-side types, booleans, JSON, function names and operations are rejected with an error rather than silently accepted.',
     ['inputs', 'configurations'],
     'for all settings and value spellings of the alphabet, one and two deviations from a valid file at a time',
     'test_configfile.py is empty.',
     ['configfile.py', 'lhs_evaluators.py', 'enum_poly_params.py', 'postprocfuncs.py'],
     [('ConfigParser', 'configfile.py'), ('CONFIG_PARAMS_TYPES', 'configfile.py')], observe=['get_config'])

prop('C17', 'Table file versions: new tables never clobber old ones, the newest is used',
     'Given any set of existing versions of a table (numbers compared numerically, unversioned counting as zero), "generate" and "expand" write to a version that is one above the newest and so never to an existing file, '
     'while "use" and "expand" load the newest; the first table is version 1 (or the version number that the configured name itself asks for). Files of other tables in the directory are never touched or counted, and the directory and .pkl/_vN spelling of the configured name do not matter.',
     ['histories', 'configurations'],
     'for all sets of existing versions of the alphabet and all generate/expand/use histories up to the depth bound (past version 10)',
     'No test covers file naming.',
     ['configfile.py', 'main.py'],
     [('_gen_hashtable_filename', 'configfile.py'), ('load/store', 'main.py')])

prop('C18', 'Saved and distributed configurations reproduce the search, split exactly',
     'Writing loaded settings back to a configuration file and reading it again gives the same settings, for every enumerator, left-hand-side type and parameter form. '
     'Splitting a configuration into 2^k parts gives 2^k loadable configurations whose coefficient ranges are disjoint and together cover the original exactly, whose other settings equal the original and whose table files are all distinct; non-powers of two and indivisible ranges are rejected.',
     ['inputs', 'configurations'],
     'for all settings of the alphabet and all range shapes and split depths within the bounds',
     'No test covers distribute_run or writing configurations.',
     ['distribute_run.py', 'configfile.py', 'main.py'],
     [('split_params', 'distribute_run.py'), ('ConfigParser.set', 'configfile.py')])

prop('C19', 'A crash while saving never costs a saved table',
     'If a table-building run stops at any point, including in the middle of writing its table file, every table saved by earlier runs is still on disk unchanged, and the next run that uses the newest table loads a complete table: either the old one or the fully written new one.',
     ['crash_points', 'histories'],
     'for every prefix of the file-system operations (with torn writes) of generate and expand runs over histories of saved tables',
     'Tests never crash a run.',
     ['main.py', 'configfile.py'],
     [('store after build', 'main.py')])

prop('C20', 'Exported equations and rows state the identities that were found',
     'For every result, the exported LaTeX equation, read as mathematics, has a left side equal to the left-hand side formula (after moving the post-processing function as displayed) and a right side showing the right function of the right continued fraction terms, so that both sides agree numerically in the limit. '
     'The CSV export has, for each result in order, its a and b polynomials, the name of the function, the left-hand-side type/parameters, the convergence information and both numeric values; nothing is dropped or reordered.',
     ['inputs', 'histories'],
     'for all results of the pool (every function, left-hand-side form, sign and degree) and depths',
     'test_latex.py and the export tests are empty.',
     ['latex.py', 'lhs_evaluators.py', 'postprocfuncs.py', 'enum_params.py'],
     [('get_latex_exp', 'lhs_evaluators.py'), ('POSTPROC_FUNCS_LATEX', 'postprocfuncs.py'), ('latex_cont_frac', 'latex.py'), ('export_to_csv / get_results_as_eqns', 'enum_params.py')])

prop('C21', 'Built-in constants are right and respect the requested precision',
     'Every named constant, including each index of the indexed ones, is available through its generator with or without a requested precision and equals the true mathematical value to the smaller of the requested (or current) precision and 95 digits; '
     'requesting a precision sets the working precision and not requesting one leaves it alone, and no call disturbs later values.',
     ['inputs', 'histories'],
     'for all constants and indices and all call sequences with precisions of the alphabet up to the depth bound',
     'test_gen_consts.py is empty.',
     ['gen_consts.py', 'main.py'],
     [('gen_*_const(s)', 'gen_consts.py'), ('set_precision_decor', 'gen_consts.py')])

prop('C22', 'Post-processing functions compute what their names say',
     'Each listed post-processing function returns the named function of its argument to working precision for every finite nonzero real argument in its domain, a non-finite value (never a complex number or an unexpected error) outside it, each odd-numbered function is the reciprocal of the one '
     'before it, the reciprocal-pair list contains exactly these pairs in both directions, and the position of every function in the list is stable.',
     ['inputs'],
     'for all functions and all arguments of the grid (signs, magnitudes, zero, NaN, infinities, near poles)',
     'test_postprocfuncs.py is empty.',
     ['postprocfuncs.py'],
     [('POSTPROC_FUNCS', 'postprocfuncs.py'), ('INVERSE_POSTPROC_PAIRS', 'postprocfuncs.py')])

prop('C23', 'A full run reports exactly the true identities of its search space',
     'For every configuration, a complete run (generate then use, or both in one, or expand in between) writes a results directory whose rows are exactly the non-redundant, exponentially converging identities of the configured search space (for "use": of the loaded table) for the configured constant, whose saved configuration reproduces the run, and repeating '
     'the run gives the same results; the table that it saves holds the candidates of the configured ranges under the digits '
     'that they have after the configured number of iterations; results of earlier runs are never overwritten or lost.',
     ['configurations', 'histories'],
     'for all small configurations of the alphabet (constants, enumerators, left-hand sides, functions) and run histories up to the depth bound',
     'main.py has no test.',
     ['main.py', 'enum_params.py', 'configfile.py'],
     [('main', 'main.py')])

prop('C24', 'Distributed building gives the same table in every schedule',
     'Splitting a table-building configuration, running the parts in any order or interleaving of their steps, and joining the saved tables gives a table with exactly the entries that one undivided run builds.',
     ['schedules', 'configurations'],
     'for all interleavings of the load/build/save steps of up to 4 parts and all join orders, over small configurations',
     'Distribution has no tests.',
     ['distribute_run.py', 'join_hashtables.py', 'main.py', 'decimal_hashtable.py', 'run_distributed_configs.py'],
     [('split/run/join', 'distribute_run.py, main.py, join_hashtables.py')])

prop('C25', 'Arithmetic helpers and the stopwatch are correct',
     'Polynomial substitution equals the sum of coefficient times power for integers and working-precision numbers alike; the gcd divides both arguments and has the greatest absolute value; grouping yields consecutive fixed-size groups padded at the end. '
     'The stopwatch, under any sequence of calls and clock readings, reports the time since the previous measurement, repeats the last measurement on request and reports the total since the start; starting twice has no effect.',
     ['inputs', 'histories'],
     'for all arguments of the grid and all call sequences up to the depth bound under a controlled clock',
     'Eight sampled inputs and one timed sleep sequence.',
     ['utils.py'],
     [('MathOperations', 'utils.py'), ('MeasureRuntime', 'utils.py')])

prop('C26', 'Cancelling the last refinement keeps the results found so far',
     'From the moment the program announces that refining can be cancelled until its last filter has ended, an interrupt at any point does not lose the run: it still writes one complete results directory (rows, equations, saved configuration), '
     'with the same configuration as the whole run, and touches no earlier files. Every row it reports is a well-formed identity that is true through the precision of the stages that were completed, and every result that the whole run would have '
     'reported is among them; only results that the remaining stages would have dropped may be there additionally.',
     ['crash points', 'inputs'],
     'for an interrupt before every line the program executes in the cancellable stage, for every search',
     'No test interrupts a run.',
     ['main.py', 'enum_params.py'],
     [('main', 'main.py'), ('MITM._refine_clicks', 'enum_params.py'), ('MITM.filter_uniq_params', 'enum_params.py'), ('MITM.filter_pos_integer_roots_numerators', 'enum_params.py')])

prop('C27', 'Command lines do what they stand for',
     'Each program (search, distribution, joining, root fix, launching of parts), started from a directory in any state, does with its command line exactly what one call of its function with the given or default arguments does to that directory, '
     'alone and in any sequence of commands, also in an interpreter of its own. Command lines that ask for help or have an unusable number of arguments print something and change nothing, and one that fails leaves what the function leaves. '
     'The launcher starts exactly one search for each configuration of the directory it is given.',
     ['histories', 'inputs'],
     'for all command lines of the alphabet from all the start directories, and all command sequences up to the depth bound',
     'No test starts a program from its command line.',
     ['main.py', 'distribute_run.py', 'join_hashtables.py', 'fix_hashtable_filter_init_b_root.py', 'run_distributed_configs.py'],
     [('__main__ blocks', 'main.py, distribute_run.py, join_hashtables.py, fix_hashtable_filter_init_b_root.py, run_distributed_configs.py'), ('main', 'main.py')])

prop('C28', 'Runs that end at the same time keep separate results',
     'Searches that run in the same directory at the same time, whichever way their work on the shared files interleaves, all end without an error, and each leaves exactly one complete results directory of its own (rows, equations, document, saved '
     'configuration), equal to the one it leaves when it runs alone; results of earlier runs stay as they are. A search that reads the tables while another run saves a new version of one sees either the table before or the complete new one: it '
     'reports what it reports with one of the two, and the tables afterwards are those of the saving run.',
     ['schedules', 'histories'],
     'for all interleavings of the file system calls on shared paths of up to 3 (thorough: 4) runs, for every combination of searches and savings of the alphabet and every initial directory',
     'No test starts two runs.',
     ['main.py', 'configfile.py', 'latex.py', 'enum_params.py'],
     [('main', 'main.py'), ('ConfigParser._gen_hashtable_filename', 'configfile.py'), ('generate_latex', 'latex.py'), ('MITM.export_to_csv', 'enum_params.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
