#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (developer tool; the
two files are committed, no check runs this)."""
import json, os
from checks import CHECKS

HERE = os.path.dirname(os.path.abspath(__file__))
C, E = 'src/core/', 'src/explorers/'
EXPL = [E + f for f in ('DtonsEq.c', 'Parallel_cols.c', 'Parallel_rows.c', 'Primal_propagation.c', 'SimpleReductions.c', 'Simple_dual_fix.c', 'StonCols.c')]
PRE, POST = C + 'Presolver.c', C + 'Postsolver.c'


def P(id, title, statement, over, text, why, files, mech, observe, level, technique, note, hook=None, state=()):
    return dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                          anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                       state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=hook)),
                level=level, technique=technique, note=note)


NOTE = 'Held on the executions of one run (counts in the evidence file); nothing is claimed about inputs outside the generated classes. '
TABLE = [
    P('P01', 'Infeasible and unbounded verdicts are never wrong',
      'If presolve reports that an LP is infeasible, the LP has no feasible point, and if it reports infeasible-or-unbounded, the LP has no finite optimum, up to the presolver\'s feasibility tolerance. '
      'In every other case it reports one of the two documented non-terminal outcomes, for every combination of settings.',
      ['inputs', 'configurations'], 'every LP in the documented form (any sparsity, empty/fixed/parallel/free rows and columns, any mix of finite and infinite sides and bounds) and every setting combination',
      'Unit tests present a few dozen fixed LPs to single reductions; a wrong verdict needs a particular chain of reductions that leaves conflicting or nearly conflicting bounds.',
      [PRE, C + 'CoreTransformation.c', C + 'Activity.c'] + EXPL,
      [('bound updates and infeasibility tests', C + 'CoreTransformation.c:update_lb, update_ub, fix_col'), ('activity tests', E + 'SimpleReductions.c:check_activities'), ('bound propagation', E + 'Primal_propagation.c:propagate_primal'), ('dual fixing to infinity', E + 'Simple_dual_fix.c:simple_dual_fix'), ('parallel rows', E + 'Parallel_rows.c:process_all_bins')],
      ['return value of run_presolver'], 'exploration', 'runtime monitoring: verdicts judged online by a certifying reference LP solver',
      NOTE + 'Oracle: long-double simplex whose answers carry certificates re-checked from the data (feasible point, Farkas ray, recession ray). Disagreements that do not survive rescaling of the bounds are attributed to absolute tolerances and not reported, so defects smaller than the tolerances stay unseen.'),
    P('P02', 'The reduced problem is equivalent to the original',
      'The reduced LP is feasible, infeasible or unbounded exactly when the original is, and its optimal value plus the reported objective offset equals the optimal value of the original LP.',
      ['inputs', 'configurations'], 'every LP and every setting combination for which a reduced LP is returned',
      'Equivalence is a statement about the solution sets of two LPs; the tests compare reduced data with hand-computed data for a handful of inputs.',
      [PRE, C + 'Problem.c', C + 'CoreTransformation.c'] + EXPL,
      [('objective offset', C + 'Problem.c:fix_var_in_obj, sub_var_in_obj'), ('substitution', E + 'DtonsEq.c:execute_substitution'), ('singleton columns', E + 'StonCols.c:process_colston_eq, process_colston_ineq'), ('merging of parallel rows and columns', E + 'Parallel_rows.c, ' + E + 'Parallel_cols.c')],
      ['reduced_prob after run_presolver'], 'exploration', 'runtime monitoring: metamorphic oracle, original and reduced LP solved by a certifying reference solver',
      NOTE + 'Same reference solver and the same treatment of tolerances as P01.'),
    P('P03', 'Recovered primal points are feasible and keep their objective value',
      'Every feasible point of the reduced LP is mapped by postsolve to a feasible point of the original LP with the same objective value (reduced objective plus offset), and every optimal point to an optimal point; a point with small residuals is mapped to a point with comparably small residuals.',
      ['inputs', 'configurations', 'histories'], 'every LP, setting combination and feasible (not only optimal or vertex) point of the reduced LP, over every sequence of reductions that the run performed',
      'Postsolve replays a reduction history in reverse; tests replay short fixed histories with one point each.',
      [POST, PRE] + EXPL,
      [('replay of the reduction stack', POST + ':postsolver_run'), ('recovery of substituted, fixed-at-infinity and merged columns', POST + ':retrieve_sub_col, retrieve_fix_col_inf, retrieve_parallel_col')],
      ['sol after postsolve'], 'exploration', 'runtime monitoring: feasibility and objective recomputed from the original data for optimal, interior and random feasible reduced points',
      NOTE + 'Points come from the reference solver (vertices, mixtures, random objectives); for problems with moderate data each is mapped a second time with noise of 1e-9.'),
    P('P04', 'Recovered dual points certify optimality of the original LP',
      'For every optimal primal-dual pair of the reduced LP, postsolve returns multipliers and reduced costs for the original LP that satisfy stationarity, the sign conditions of sides and bounds, and complementary slackness together with the recovered primal point; a pair that is optimal up to small residuals is mapped to one that is optimal up to comparably small residuals.',
      ['inputs', 'configurations', 'histories'], 'every LP, setting combination and optimal primal-dual pair of the reduced LP (degenerate and non-vertex ones included)',
      'Dual recovery depends on which of several tight bounds and rows came from which reduction; the tests check a few non-degenerate examples with one solver answer each.',
      [POST, E + 'Primal_propagation.c', E + 'StonCols.c', E + 'DtonsEq.c', E + 'Parallel_rows.c', E + 'Parallel_cols.c'],
      [('dual recovery', POST + ':retrieve_bound_change, retrieve_lhs_change, retrieve_rhs_change, retrieve_added_row, retrieve_eq_to_ineq, polish_z'), ('recording of the dual data', POST + ':save_retrieval_*')],
      ['sol after postsolve'], 'exploration', 'runtime monitoring: KKT residuals of the recovered pair recomputed in extended precision from the original data',
      NOTE + 'Several optimal pairs (distinct vertices, mixtures) are mapped per LP, some of them again with noise of 1e-9 in x and y (moderate data only).'),
    P('P05', 'The reduced problem is a well-formed LP without trivial leftovers',
      'A returned reduced LP is valid compressed-row data no larger in rows or columns than the original: monotone row pointers spanning the nonzeros, strictly increasing in-range column indices, finite nonzero coefficients and costs, sides and bounds ordered and not NaN, finite offset. '
      'It contains no empty row, no empty column and no singleton row.',
      ['inputs', 'configurations'], 'every LP and every setting combination for which a reduced LP is returned',
      'The compaction has to agree with every possible pattern of deleted, merged, grown and shifted rows; tests compact a few small matrices.',
      [PRE, C + 'Constraints.c', C + 'Matrix.c', C + 'utils.c'],
      [('compaction', C + 'Constraints.c:constraints_clean'), ('extra space removal', C + 'Matrix.c:remove_extra_space'), ('export', PRE + ':populate_presolved_problem')],
      ['reduced_prob after run_presolver'], 'exploration', 'runtime monitoring: structural validator over every exported reduced problem', NOTE),
    P('P06', 'Status, statistics and reduced problem agree',
      'The reported sizes before and after presolve match the original and the reduced LP, the nonzeros reported as removed are those each technique removed and add up to the difference, and the reported times are the times that passed in the phases they stand for. '
      'The status is "unchanged" exactly when no dimension and no nonzero count changed, in which case postsolve returns the primal point it was given.',
      ['inputs', 'configurations'], 'every LP and every setting combination',
      'Accounting is spread over all phases and early exits; tests assert it for a few runs that end normally.',
      [PRE, 'include/PSLP/PSLP_stats.h'], [('counting of removed nonzeros', PRE + ':run_trivial_explorers, run_fast_explorers, run_medium_explorers'), ('final status', PRE + ':final_status')],
      ['stats and status after run_presolver'], 'exploration', 'runtime monitoring: conservation checks over recorded statistics; per-phase ledgers of time (virtual clock) and nonzeros kept at observation points', NOTE),
    P('P07', 'Input arrays are neither modified nor retained',
      'The presolver never writes to the arrays and settings the caller passes, and after construction returns it never reads the problem arrays again, so the caller may free or reuse them at once. '
      'Postsolve neither modifies nor retains its inputs and leaves the reduced problem as it was.',
      ['inputs', 'schedules'], 'every LP; every point of the life cycle after construction, including the construction-time helper thread',
      'A retained pointer is invisible as long as the caller keeps its arrays alive, which all tests do.',
      [PRE, C + 'Matrix.c'], [('deep copies', PRE + ':new_presolver'), ('matrix copy', C + 'Matrix.c:matrix_new')],
      ['memory accesses to the caller\'s pages'], 'exploration', 'runtime monitoring: caller arrays on protected pages (read-only during, inaccessible after construction), content and result comparison',
      NOTE + 'Stores and loads are caught by the MMU, so a silent access is impossible on executed paths.'),
    P('P08', 'Results are deterministic and independent of other instances',
      'The same LP and settings always give bit-identical verdict, reduced LP and recovered solution, whatever the heap contained and whatever other presolvers were created, run or destroyed in between. '
      'Postsolve may be called any number of times and each answer depends only on its own input.',
      ['inputs', 'histories'], 'every LP and every interleaving of calls on several presolvers, without a time limit striking',
      'Tests use one presolver at a time in a fresh process and call postsolve once.',
      [PRE, POST, E + 'Parallel_rows.c', C + 'Workspace.c'], [('instance-local state', C + 'Workspace.c:new_work'), ('sorting keys', E + 'Parallel_rows.c:find_parallel_rows'), ('postsolve without side effects on its records', POST + ':postsolver_run')],
      ['bits of the results'], 'exploration', 'runtime monitoring: digests compared across perturbed heaps, interleaved instances and repeated postsolves', NOTE),
    P('P09', 'No memory error, undefined behaviour or leak in any life cycle',
      'For every valid LP and every legal sequence of API calls the library performs no out-of-bounds or use-after-free access, no undefined operation, makes no decision on uninitialised memory and returns none, and leaks nothing once presolver and settings are freed.',
      ['inputs', 'histories'], 'every valid LP and legal API sequence (free before run, no or repeated postsolve, settings freed before the presolver)',
      'Tests run without sanitizers on small inputs; overreads by one element and overflow-dependent conversions pass unnoticed.',
      [C + f for f in ('Presolver.c', 'Postsolver.c', 'Matrix.c', 'Constraints.c', 'State.c', 'Workspace.c')] + EXPL,
      [('row shifting and insertion', C + 'Matrix.c:shift_row, insert_or_update_coeff'), ('clean-up scopes', PRE + ':presolver_clean_up, free_presolver')],
      ['every load, store and arithmetic operation of the instrumented library'], 'exploration', 'AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and MemorySanitizer over random API life cycles',
      NOTE + 'Red-zone tools miss non-adjacent and intra-object overflows; buffers handed to the library are exact-size heap blocks.'),
    P('P12', 'Settings are respected and untouched data is carried over exactly',
      'With all optional reductions off the result is exactly that of the mandatory ones (fixed columns, singleton and empty rows, empty columns); a reduction that is switched off leaves no trace in the result or the statistics. '
      'Rows and columns that are kept appear in their original order, and without a reduction that combines rows their coefficients and costs are unchanged. '
      'default_settings and set_settings_true enable and set_settings_false disables every technique, and the setters leave the limits alone.',
      ['inputs', 'configurations'], 'every LP and every combination of the eight switches',
      'There are 256 switch combinations and tests use mostly the defaults or one switch at a time on fixed inputs.',
      [PRE] + EXPL, [('dispatch', PRE + ':run_trivial_explorers, run_fast_explorers, run_medium_explorers'), ('defaults', PRE + ':default_settings, set_settings_true, set_settings_false')],
      ['reduced_prob, stats; kept indices read back through postsolve'], 'exploration', 'runtime monitoring: executable model of the mandatory reductions, provenance tracing of kept rows and columns through postsolve with unique values', NOTE),
    P('P17', 'Silent unless verbose, and verbose output is accurate',
      'With verbosity off nothing is ever written to standard output or error. With it on, the printed sizes and verdict are those of the returned problem, and the result is the same as with verbosity off.',
      ['inputs', 'configurations'], 'every LP, every setting combination, expired time limits included',
      'Tests do not look at the output streams.', [PRE], [('messages', PRE + ':print_start_message, print_end_message, print_infeas_or_unbnd_message')],
      ['file descriptors 1 and 2'], 'exploration', 'runtime monitoring: output streams captured around every call and parsed', NOTE),
]
TABLE += [
    P('P10', 'Construction survives every resource failure',
      'If a memory allocation or the creation of the helper thread fails while settings or a presolver are being created, the call either succeeds with the usual result or returns NULL. '
      'It never crashes or terminates the process, leaks nothing, frees nothing twice, and leaves later calls unaffected.',
      ['inputs', 'fault_sequences'], 'every LP and every allocation or thread creation performed during construction, failing alone, in pairs or from some point on',
      'The clean-up paths run only when the system is out of resources, which no test simulates.',
      [PRE, C + 'State.c', C + 'Workspace.c', C + 'Matrix.c', C + 'Constraints.c', C + 'Problem.c', C + 'Postsolver.c'],
      [('clean-up scope', PRE + ':presolver_clean_up'), ('ownership hand-over', PRE + ':new_presolver'), ('partial construction', C + 'State.c:new_state')],
      ['return value of new_presolver; allocator calls'], 'fault_enumeration', 'fault injection by link-time wrapping of allocator and thread creation, AddressSanitizer and a live-block ledger as monitors',
      'Every fault point of construction is enumerated for each explored LP. Allocation failures during run_presolver are outside the property: the library documents no way to report them (vector growth terminates the process by design).'),
    P('P16', 'Interruption by the time limit leaves a valid result',
      'Whenever the time limit strikes, the run stops within a bounded number of further steps and everything promised of a completed run still holds: the verdict is right, the reduced LP is well formed and equivalent, postsolve recovers solutions, and the statistics add up. '
      'A limit that never strikes has no effect.',
      ['inputs', 'schedules', 'crash_points'], 'every LP and every moment at which the elapsed time can exceed the limit',
      'Early exits skip later phases and depend on the clock; no test can place the deadline between two given steps.',
      [PRE, C + 'Constraints.c', E + 'Primal_propagation.c'],
      [('termination test', PRE + ':update_termination'), ('phase dispatch and final clean-up', PRE + ':run_presolver')],
      ['return value, reduced_prob, stats; sol after postsolve'], 'exploration', 'runtime monitoring under a virtual clock: the limit is made to strike at chosen clock reads, results judged by the oracles of P01-P06',
      NOTE + 'The clock is replaced at link time; which clock read passes the limit is chosen for each run.', hook='PSLP_VERIF_HOOKS observation points name the phase that was interrupted'),
]

TABLE += [
    P('P11', 'Independent presolvers may run concurrently',
      'Presolvers created, run, queried and destroyed in different threads do not interfere, even when they share input arrays and settings or are handed from one thread to another between calls: there is no data race, and every result is bit-identical to that of a sequential run. '
      'The same holds for the helper thread of the construction.',
      ['inputs', 'schedules'], 'every LP and every interleaving of the calls of several threads that each use a presolver of their own (or one handed over with synchronisation)',
      'The tests never run two presolvers at once, and a race needs a particular timing to be visible in the results.',
      [PRE, C + 'Workspace.c', E + 'Parallel_rows.c', 'include/core/pslp_thread.h'],
      [('helper thread', PRE + ':init_thread_func, new_presolver'), ('instance-local scratch', C + 'Workspace.c:new_work')],
      ['every memory access of the instrumented library; bits of the results'], 'exploration', 'ThreadSanitizer (happens-before race detection) under delay injection around thread creation and API calls; results compared with sequential runs',
      NOTE + 'A race is found when both accesses are executed without ordering in one run; the detector is precise for the executions it sees.', hook='PSLP_VERIF_HOOKS observation points carry the injected delays'),
    P('P13', 'The bookkeeping agrees with the problem after every phase',
      'Whenever a phase of presolve hands over to the next, everything stored redundantly agrees with the working problem: the matrix and its transpose, row and column sizes, infinity and equality tags, lock counts, activities with their numbers of infinite terms, and the lists of empty, singleton and doubleton rows and columns. '
      'Later decisions about feasibility, redundancy and optimality are taken from this bookkeeping alone. (Runs that end as infeasible are exempt from the moment of that decision.)',
      ['inputs', 'configurations', 'histories'], 'every LP, every setting combination and every sequence of phases',
      'The bookkeeping is updated incrementally at dozens of places; a missed update is only visible in some later phase on some inputs, and release builds do not check it.',
      [C + 'State.c', C + 'Activity.c', C + 'Locks.c', C + 'Matrix.c', C + 'CoreTransformation.c', C + 'Constraints.c'] + EXPL,
      [('activity updates', C + 'Activity.c:update_act_bound_change, update_activities_fixed_col'), ('lock updates', C + 'Locks.c'), ('matrix and transpose', C + 'Constraints.c:delete_inactive_rows, delete_inactive_cols')],
      ['the working problem at the observation points'], 'exploration', 'runtime monitoring: every invariant recomputed from scratch at every observation point of every run',
      NOTE + 'The author\'s own debug checks (src/core/Debugger.c) assert part of this, without the values of activities.', hook='PSLP_VERIF_HOOKS: VERIF_POINT after each reduction and phase passes the working problem to the monitor'),
    P('P14', 'Results do not depend on how the library was compiled',
      'For the same LP and settings every build (compiler, optimisation level) of the library on one platform gives bit-identical verdict, reduced LP, statistics and recovered solution, because no result depends on undefined or unspecified behaviour.',
      ['inputs', 'configurations'], 'every LP and every setting combination; supported compilers without value-changing floating-point options',
      'The tests run in one build and compare with fixed expectations, so a dependence on uninitialised memory, evaluation order or sort stability looks right in that build.',
      [PRE, POST, E + 'Parallel_rows.c', E + 'Parallel_cols.c', C + 'utils.c'],
      [('hash and sort of rows', E + 'Parallel_rows.c:find_parallel_rows'), ('sorting', C + 'utils.c'), ('floating-point contractions', 'CMakeLists.txt')],
      ['bits of the results of three builds'], 'exploration', 'runtime monitoring: N-version comparison of digests recorded in gcc -O0, gcc -O3 and clang -O2 builds',
      NOTE + 'x86-64 baseline instruction set only (no fused multiply-add).'),
    P('P15', 'Presolve and postsolve always terminate within polynomial work',
      'For every LP new_presolver, run_presolver and postsolve terminate without a time limit, after a number of steps bounded by a low polynomial in the size of the input: linear for construction (sorting aside) and at most quadratic for presolve and postsolve, with no dependence on the magnitude of the data.',
      ['inputs', 'configurations'], 'every LP (degenerate, chained, dense and badly scaled ones included) and every setting combination',
      'Termination and complexity concern all inputs; tests are tiny and only show that those finish.',
      [PRE, E + 'Primal_propagation.c', E + 'Parallel_rows.c', C + 'utils.c', E + 'DtonsEq.c', C + 'Matrix.c'],
      [('round loop and its progress test', PRE + ':run_presolver, update_complexity'), ('propagation rounds', E + 'Primal_propagation.c:propagate_primal'), ('row shifting', C + 'Matrix.c:shift_row')],
      ['executed control-flow edges'], 'exploration', 'runtime monitoring: executed edges counted by compiler instrumentation and compared with an explicit bound; non-terminating cases caught by a progress watchdog',
      NOTE + 'Bounds with s = rows + columns + nonzeros + 8: 60 s edges for construction, s min(600 + 12 s, 3000 + 1.5 s) for presolve, s (60 + 3 s) for postsolve, all at least four times the observed envelope; library calls (qsort, memcpy) count once.'),
]

TABLE += [
    P('P18', 'Enabled techniques remove what they are there to remove',
      'Unless the problem is declared infeasible or unbounded, no row or column that already qualifies in the original problem outlives an enabled technique. '
      'Dual fixing (without parallel columns) leaves no column whose cost and locks let it go to a bound or to infinity. '
      'Column-singleton elimination (without parallel columns) leaves no free column with a single entry; and, in a problem without fixed columns and singleton or empty rows and with dual fixing off, no lone singleton column of a row that can be eliminated from it: '
      'from an equality because one of its bounds is infinite or implied by the row, from an inequality because its cost pushes it away from the infinite side, because both its bounds are infinite or implied, or because its cost and one such bound make a side active. '
      'Doubleton substitution alone removes a column of the only two-entry equality when that needs no fill-in. '
      'After parallel-row detection (without parallel columns) no two rows have proportional coefficients. Parallel-column detection alone, in a problem whose rows each meet two or more groups of proportional columns, merges every group with proportional costs into one column, and fixes one of two proportional columns of different cost when the other can compensate without limit. '
      'Propagation (without column-singleton and doubleton elimination) reports a row whose activity bounds contradict its sides as infeasible; with parallel rows off too it removes an inequality that the bounds imply; alone it gives a finite bound to every remaining column for which a row with finite activity implies one, and with finite-bound tightening on it also moves finite bounds to within the documented threshold of the implied ones.',
      ['inputs', 'configurations'], 'every LP whose rows and columns qualify by a clear numerical margin, and every combination of settings named',
      'Tests compare a few hand-made problems with their expected reductions; a reduction that is silently missed in other configurations leaves a correct but needlessly large problem, which no correctness test notices.',
      [E + 'StonCols.c', E + 'DtonsEq.c', E + 'Simple_dual_fix.c', E + 'Parallel_rows.c', E + 'Parallel_cols.c', E + 'Primal_propagation.c', E + 'SimpleReductions.c', C + 'Activity.c', C + 'Locks.c'],
      [('dual fixing', E + 'Simple_dual_fix.c:simple_dual_fix'), ('singleton columns', E + 'StonCols.c:process_colston_eq, process_colston_ineq'), ('proportional rows', E + 'Parallel_rows.c:find_parallel_rows'), ('propagation', E + 'Primal_propagation.c:propagate_primal')],
      ['return value and reduced_prob of run_presolver; sol after postsolve (identity of the kept columns)'], 'exploration', 'runtime monitoring: rules evaluated on the original problem and looked up in the reduced one', NOTE),
]


def main():
    exec(open(HERE + '/meta_extra.py').read(), globals()) if os.path.exists(HERE + '/meta_extra.py') else None
    T = sorted(TABLE, key=lambda t: t['prop']['id'])
    with open(HERE + '/properties.jsonl', 'w') as f:
        for t in T:
            f.write(json.dumps(t['prop']) + '\n')
    ids = [t['prop']['id'] for t in T]
    assert sorted(ids) == sorted(CHECKS), (set(ids) ^ set(CHECKS))
    man = dict(version=1, setup_cmd='python3 check.py setup',
               hooks=dict(guard='PSLP_VERIF_HOOKS', enable='check.py compiles /repo/src with -DPSLP_VERIF_HOOKS in the configurations that use the observation points (checks.py: CONFIGS)', source_commits=['3716c1c']),
               checks=[dict(property=t['prop']['id'], quick_cmd='python3 check.py %s quick' % t['prop']['id'], thorough_cmd='python3 check.py %s thorough' % t['prop']['id'],
                            evidence_file='evidence/%s.json' % t['prop']['id'], technique=t['technique'], level=t['level'], level_note=t['note']) for t in T],
               not_applicable=[], notes='See DESIGN.md. Findings: known-findings.txt.')
    json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
    import jsonschema
    ms = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(man, ms)
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for t in T:
        jsonschema.validate(t['prop'], ps)
        assert len(t['prop']['title']) <= 80
        for f in t['prop']['anchors']['files']:
            assert os.path.exists('/repo/' + f), f


if __name__ == '__main__':
    main()
