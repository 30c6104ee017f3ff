"""Source of properties.jsonl and MANIFEST.json: python3 tools/properties.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['pypower/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'pypower/' + w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': 'pypower/' + w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


# ---------------------------------------------------------------- numbering
prop('C01', 'Internal form of a case is canonical',
     'Converting a case to internal form keeps exactly the non-isolated buses and the in-service generators and '
     'branches whose buses are not isolated, numbers buses consecutively from zero in their original order and sorts generators by bus. '
     'Every table tied to them (P and Q cost rows, areas, columns of user constraints and user costs, dense or sparse, AC or DC sized) '
     'is cut and reordered the same way, and the recorded bus, generator and status maps describe exactly that reordering. '
     'A case already in internal form is unchanged, and the caller\'s case is never modified.',
     ['inputs', 'configurations'],
     'every case: any bus numbering, any pattern of isolated buses and out-of-service equipment, any generator order, optional tables present or absent',
     'The bundled conversion test does not run to completion and uses one fixed case; OPF tests only use cases with consecutive buses and few outages.',
     ['ext2int.py', 'e2i_data.py', 'e2i_field.py', 'get_reorder.py'],
     [('status lists, numbering maps, generator sort', 'ext2int.py'), ('block reordering', 'e2i_data.py')],
     [('order', 'maps and saved external tables', 'ext2int.py')], ['return value of ext2int'])
prop('C02', 'Results return to the right external rows',
     'Converting back to external form puts every value written into internal bus, generator, branch and area rows into the row of the same '
     'piece of equipment, with original bus numbers and row order, and leaves every row that had been removed exactly as it was. '
     'Cost and user-constraint tables come back as they were, the internal tables are kept for reference, and a round trip without results is the identity, '
     'also when the same case goes round repeatedly. The caller\'s internal case is not modified.',
     ['inputs', 'histories'],
     'every case and every sequence of conversions and result writes',
     'Tests look at solved values of a few fixed cases; a row permutation among removed equipment or in the second conversion is not reached.',
     ['int2ext.py', 'ext2int.py', 'i2e_data.py'],
     [('restore and scatter', 'int2ext.py')], [('order.ext', 'saved external tables', 'int2ext.py')], ['return value of int2ext'])
prop('C03', 'Arbitrary data converts between numberings consistently',
     'Data ordered by bus, generator or branch, or made of several such blocks plus extra entries, along rows or columns, dense or sparse, '
     'given directly or as a (nested) field of the case, is reordered exactly like the case tables when converted to internal form. '
     'Converting back puts each entry at its original place and takes entries of removed equipment from the supplied or saved old data; extras are not disturbed.',
     ['inputs', 'configurations'],
     'every case, every list of orderings, every dimension and storage form, every nesting of fields',
     'The test that would cover this aborts at its first line.',
     ['e2i_data.py', 'i2e_data.py', 'e2i_field.py', 'i2e_field.py', 'get_reorder.py', 'set_reorder.py'],
     [('block reordering', 'e2i_data.py'), ('inverse with old data', 'i2e_data.py')])
# ---------------------------------------------------------------- extension mechanism
prop('C04', 'Callbacks run exactly as registered',
     'At each stage exactly the callbacks registered for that stage run, in registration order, each with the arguments given at registration and with the '
     'result of the previous one. Removing a callback removes one registration of that function at that stage and nothing else; '
     'switching a packaged extension on and off leaves the registry as it was, and requesting a stage with no callbacks, or an unknown stage or mode, has its documented outcome.',
     ['histories'],
     'every history of registering, removing, running and toggling',
     'Tests register one callback at a time and run it once.',
     ['add_userfcn.py', 'remove_userfcn.py', 'run_userfcn.py', 'toggle_reserves.py', 'toggle_iflims.py', 'toggle_dcline.py'],
     [('registry', 'add_userfcn.py'), ('dispatch', 'run_userfcn.py')], [('userfcn', 'stage -> ordered registrations', 'add_userfcn.py')])
prop('C05', 'Optimization model blocks never overlap or drift',
     'Named variable, linear-constraint, nonlinear-constraint and cost blocks of the optimization model occupy consecutive disjoint index ranges in the order added, '
     'totals equal the sums of block sizes, and initial values and bounds assembled for one block or for all are the ones supplied, with the documented defaults. '
     'The assembled linear constraints place each block\'s columns at the positions of the variable blocks it names, in the order it names them, '
     'and later additions never change what an earlier block means.',
     ['histories'],
     'every sequence of additions of variable, constraint and cost blocks, including empty ones and subsets of variables',
     'Tests build a handful of fixed models.',
     ['opf_model.py'],
     [('add_vars/add_constraints/add_costs', 'opf_model.py'), ('linear_constraints/getv/get_idx', 'opf_model.py')],
     [('idx.i1/iN/N, order', 'block bookkeeping', 'opf_model.py')])
prop('C06', 'General user costs mean what they say',
     'The value computed for user costs equals the documented formula - shift, dead zone, scale, linear or quadratic penalty, then quadratic form - for all cost blocks together and for '
     'each named block alone, whatever was asked before. The objective callback of the AC optimal power flow agrees with it, and asking for costs never changes the model.',
     ['inputs', 'histories'],
     'every set of cost blocks, every point, every order of questions',
     'Tests evaluate a single cost block once.',
     ['opf_model.py', 'opf_costfcn.py'],
     [('build_cost_params/get_cost_params/compute_cost', 'opf_model.py'), ('generalized cost term', 'opf_costfcn.py')],
     [('cost.params', 'assembled parameters', 'opf_model.py')])
# ---------------------------------------------------------------- power flow
prop('C07', 'A converged AC power flow obeys the network equations',
     'When a power flow reports success, complex power balances at every in-service bus within the solver tolerance, branch flows follow from the bus voltages through the '
     'branch model with taps, shifts and charging, and losses are consistent. Scheduled generator outputs, loads and voltage set points are kept where the bus type says so, '
     'the reference angle is unchanged, and out-of-service equipment carries exactly zero flow and generation. This holds for every available solution method.',
     ['inputs', 'configurations'],
     'every solvable network, any pattern of outages and isolated buses, any solution method',
     'Tests compare one case against stored numbers.',
     ['runpf.py', 'newtonpf.py', 'fdpf.py', 'gausspf.py', 'pfsoln.py', 'makeYbus.py', 'makeSbus.py'],
     [('solve and update', 'runpf.py'), ('solution update', 'pfsoln.py')])
prop('C08', 'Power flow methods stop honestly',
     'Each iterative method reports convergence only if the mismatch at the voltages it returns is below its tolerance, performs no more than its iteration limit, '
     'keeps set-point magnitudes and reference angles untouched, and returns at once when started at a solution. '
     'If the limit is reached or the problem is infeasible, failure is reported and the caller still gets a complete result with that flag.',
     ['inputs', 'configurations'],
     'every network, starting point, tolerance and iteration limit, for Newton, the two fast-decoupled variants and Gauss-Seidel',
     'Tests only run convergent cases with default limits.',
     ['newtonpf.py', 'fdpf.py', 'gausspf.py', 'runpf.py'],
     [('iteration loops', 'newtonpf.py'), ('half iterations', 'fdpf.py'), ('sweeps', 'gausspf.py')])
prop('C09', 'DC power flow is the exact linear solution',
     'A DC power flow returns angles satisfying the linear nodal balance with taps, phase shifters and shunt conductance, flows proportional to angle differences with to-end flow the negative of '
     'from-end flow, no reactive power, unit voltage magnitudes where applicable and the reference angle unchanged. All generators keep their output except the slack unit, which takes up the imbalance '
     'at the reference bus net of any other units there.',
     ['inputs', 'configurations'],
     'every connected network with non-singular DC model, any outages, shifters, several units at the reference bus',
     'The bundled DC power flow comparison does not complete on this platform and uses one case.',
     ['runpf.py', 'rundcpf.py', 'dcpf.py', 'makeBdc.py', 'makeSbus.py'],
     [('DC branch of runpf', 'runpf.py'), ('makeBdc', 'makeBdc.py')])
prop('C10', 'Enforcing reactive limits yields a consistent, legal dispatch',
     'With reactive limits enforced, a successful power flow has every generator within its limits (or fixed at the limit it hit), buses whose units are all fixed are no longer voltage controlled, units that did not hit a '
     'limit still hold their set points, statuses and loads are restored, angles stay referred to the original reference, and the loop ends. If every remaining unit is infeasible the failure is reported, '
     'and the one-at-a-time mode fixes one violation, the largest, per round.',
     ['inputs', 'configurations'],
     'every network and limit pattern, both enforcement modes, including loss of the reference unit',
     'No stable test turns enforcement on.',
     ['runpf.py', 'bustypes.py'],
     [('Q limit loop', 'runpf.py')], [('limited, fixedQg, ref, types', 'loop state', 'runpf.py')])
prop('C11', 'Bus roles follow types and generator status',
     'The reference, voltage-controlled and load buses used by a power flow partition the buses: a bus keeps its declared role only if some in-service generator is connected to it, otherwise it is a load bus. '
     'If no reference bus remains, the first of the voltage-controlled buses becomes the reference.',
     ['inputs'],
     'every assignment of types and every set of generators and statuses',
     'Only implicit in solved cases.',
     ['bustypes.py'], [('bustypes', 'bustypes.py')])
prop('C12', 'Bus results are shared among units correctly',
     'After a power flow the total reactive output of the units at a bus equals what the network requires there, and with several units it is divided so that all are the same fraction through their range '
     '(equal shares if there is no range). Real power of the slack bus is assigned to the first unit there net of the others; all other units keep their real output, and inactive units and branches are zeroed.',
     ['inputs'],
     'every network with several units per bus, on or off, any limits including zero or infinite ranges',
     'Bundled cases have almost no buses with several units.',
     ['pfsoln.py'], [('pfsoln', 'pfsoln.py')])
# ---------------------------------------------------------------- network matrices
prop('C13', 'Network matrices equal the branch and bus model',
     'Bus and branch admittance matrices, bus power injections, the two decoupled-method matrices and the DC matrices equal, entry by entry, what the documented branch model gives for every branch in service - '
     'series impedance, charging, off-nominal tap, phase shift, status - and for bus shunts, loads and generators. Parallel branches add and out-of-service equipment contributes nothing.',
     ['inputs'],
     'every internal-form network', 'Tests use one case with stored or self-derived values.',
     ['makeYbus.py', 'makeSbus.py', 'makeB.py', 'makeBdc.py'],
     [('makeYbus', 'makeYbus.py'), ('makeBdc', 'makeBdc.py'), ('makeB', 'makeB.py'), ('makeSbus', 'makeSbus.py')])
prop('C14', 'Distribution factors predict DC flows exactly',
     'For any balanced injection pattern, transfer factors times injections equal the DC flows, for any choice of slack bus or slack distribution, and the factors of the slack itself are zero. '
     'Outage factors predict exactly the flow on every remaining branch after any single branch outage that does not island the network, with -1 on the diagonal.',
     ['inputs'],
     'every connected network, slack choice and outage', 'Tests compare one 9-bus network.',
     ['makePTDF.py', 'makeLODF.py', 'makeBdc.py'],
     [('makePTDF', 'makePTDF.py'), ('makeLODF', 'makeLODF.py')])
prop('C15', 'First derivatives are the derivatives',
     'The derivative routines for bus injections, branch powers, branch currents and squared flows return, at every voltage, the partial derivatives of the quantities they name with respect to angle and magnitude.',
     ['inputs'],
     'every network and voltage profile', 'Tests difference one network at one voltage with loose tolerance.',
     ['dSbus_dV.py', 'dSbr_dV.py', 'dIbr_dV.py', 'dAbr_dV.py'],
     [('dSbus_dV', 'dSbus_dV.py'), ('dSbr_dV', 'dSbr_dV.py'), ('dIbr_dV', 'dIbr_dV.py'), ('dAbr_dV', 'dAbr_dV.py')])
prop('C16', 'OPF functions, gradients and Hessians agree',
     'Objective, balance and flow-limit values given to the nonlinear solver equal the documented functions; their gradients are the derivatives of those values, and the Hessian is the derivative of the gradient of the Lagrangian. '
     'This holds for polynomial, piecewise linear and mixed costs, with and without reactive costs and user costs, for every kind of flow limit and any set of limited branches.',
     ['inputs', 'configurations'],
     'every OPF problem and point', 'Tests difference the second derivatives of flows on one network; costs are never checked.',
     ['opf_costfcn.py', 'opf_consfcn.py', 'opf_hessfcn.py', 'd2Sbus_dV2.py', 'd2Sbr_dV2.py', 'd2Ibr_dV2.py', 'd2AIbr_dV2.py', 'd2ASbr_dV2.py', 'polycost.py'],
     [('opf_costfcn', 'opf_costfcn.py'), ('opf_consfcn', 'opf_consfcn.py'), ('opf_hessfcn', 'opf_hessfcn.py')])
# ---------------------------------------------------------------- OPF
prop('C17', 'An AC OPF solution is feasible and priced as reported',
     'When an AC optimal power flow reports success, power balances at every bus, and voltages, generator outputs, branch flows in the chosen measure, angle differences, generator capability and user constraints are within limits up to tolerance. '
     'The reported objective equals the generation cost at the reported dispatch plus user costs, and out-of-service equipment is zero.',
     ['inputs', 'configurations'],
     'every OPF case, flow-limit type and cost type', 'Tests compare one 9-bus case against stored values.',
     ['opf.py', 'opf_setup.py', 'opf_execute.py', 'pipsopf_solver.py', 'opf_consfcn.py', 'totcost.py'],
     [('formulation', 'opf_setup.py'), ('packaging', 'opf_execute.py')])
prop('C18', 'OPF prices and multipliers certify the solution',
     'On success, nodal prices and limit multipliers reported for an OPF satisfy the optimality conditions of the problem: they are nonnegative, nonzero only on binding limits, placed on the right equipment and side, in cost per MW or MVAr, '
     'and marginal cost of each unit equals its nodal price adjusted by its limit multipliers. The result\'s named variable, constraint and multiplier records agree with the tables.',
     ['inputs', 'configurations'],
     'every OPF case', 'Tests compare one 9-bus case against stored values.',
     ['pipsopf_solver.py', 'opf_execute.py', 'update_mupq.py', 'opf.py', 'dcopf_solver.py'],
     [('multiplier extraction', 'pipsopf_solver.py'), ('update_mupq', 'update_mupq.py'), ('packaging', 'opf_execute.py')])
prop('C19', 'A DC OPF solution is provably optimal',
     'A successful DC optimal power flow is feasible for the linear network, limits and user constraints, reports the cost of its dispatch, and its prices and multipliers form a certificate that no feasible dispatch is cheaper. '
     'Infeasible problems are not reported as solved.',
     ['inputs', 'configurations'],
     'every DC OPF with convex costs, polynomial or piecewise linear, with any outages, shifters, flow and angle limits',
     'Tests compare one 9-bus case.',
     ['dcopf_solver.py', 'opf_setup.py', 'rundcopf.py', 'qps_pypower.py', 'makeBdc.py'],
     [('dcopf_solver', 'dcopf_solver.py')])
prop('C20', 'User-supplied OPF data is honoured in external order',
     'User linear constraints, extra variables with bounds and general costs given with columns in the case\'s own bus and generator order apply to that equipment whatever its internal position, including when equipment is out of service, for AC and DC problems. '
     'The constraints hold at the solution and extra variables, multipliers and costs are reported under their names.',
     ['inputs', 'configurations'],
     'every case and user constraint set, dense or sparse', 'Tests use a case whose external and internal orders coincide.',
     ['opf.py', 'opf_args.py', 'opf_setup.py', 'e2i_data.py', 'opf_model.py'],
     [('user constraint setup', 'opf_setup.py'), ('column reordering', 'e2i_data.py')])
prop('C21', 'OPF calling forms and option overrides are equivalent',
     'Every documented calling form of the optimal power flow - a case, a file, separate tables, with or without user constraints and options - poses the same problem and gives the same solution, '
     'option values given at the call override the defaults, and malformed calls are rejected instead of solved differently.',
     ['inputs', 'configurations'],
     'every documented form', 'Tests exercise a subset with one case and only look at the objective.',
     ['opf_args.py', 'opf.py', 'runopf.py', 'rundcopf.py'], [('argument dispatch', 'opf_args.py')])
prop('C22', 'Constraint rows describe exactly the intended region',
     'The rows generated for piecewise linear costs, dispatchable-load power factor, generator capability curves and branch angle limits admit exactly the points the data describes: on or above every cost segment, on the constant power factor line, inside the trapezoid, '
     'within the angle range. Rows appear for exactly the equipment that needs them, and refer to its variables.',
     ['inputs'],
     'every set of cost curves, loads, capability data and angle limits, at every point', 'OPF tests do not isolate these rows and most cases have none of them.',
     ['makeAy.py', 'makeAvl.py', 'makeApq.py', 'makeAang.py', 'hasPQcap.py', 'isload.py'],
     [('makeAy', 'makeAy.py'), ('makeAvl', 'makeAvl.py'), ('makeApq', 'makeApq.py'), ('makeAang', 'makeAang.py'), ('hasPQcap', 'hasPQcap.py')])
prop('C23', 'Unit decommitment never makes things worse',
     'The unit-decommitment OPF returns a feasible solution whose cost is not above that of running every unit (where running every unit is feasible to begin with), turns off only units that were on, never turns off dispatchable loads, and its reported dispatch and objective are those of the OPF for the commitment it chose. '
     'Turning off any single further unit from its candidate set does not reduce cost.',
     ['inputs'],
     'every case with minimum outputs, including minimum generation above load', 'No stable test runs it.',
     ['uopf.py', 'runuopf.py', 'runduopf.py', 'fairmax.py'],
     [('decommitment loop', 'uopf.py')], [('gen status, f0/f1', 'best commitment so far', 'uopf.py')])
# ---------------------------------------------------------------- packaged extensions
prop('C24', 'Zonal reserve requirements are met and priced',
     'With reserves on, each zone\'s requirement is covered by its eligible units, no reserve exceeds the unit\'s offer, ramp or headroom, and cost, per-unit reserve, limits and prices reported refer to the right unit in the case\'s own order, zero for units that cannot provide. '
     'The objective includes the reserve cost.',
     ['inputs', 'configurations'],
     'every case, zone layout, outage pattern', 'Tests use one case with consecutive numbering.',
     ['toggle_reserves.py', 'runopf_w_res.py'], [('reserve callbacks', 'toggle_reserves.py')])
prop('C25', 'Interface flow limits are respected',
     'With interface limits on, the flow of each interface - the signed sum over its branches by direction - reported by the DC optimal power flow equals that of the solution and is within its limits, with multipliers only on binding sides. '
     'The interface map means the case\'s own branch numbers, survives the run unchanged and outages are respected.',
     ['inputs', 'configurations'],
     'every interface definition and outage pattern', 'No stable test covers interfaces.',
     ['toggle_iflims.py'], [('interface callbacks', 'toggle_iflims.py')])
prop('C26', 'DC transmission lines behave as linked terminals',
     'With DC lines on, each in-service DC line withdraws its flow at one end and injects flow minus loss (constant plus linear) at the other, within its flow and voltage-support limits, for power flow and optimal power flow. '
     'Results land in the row of the same line, out-of-service lines are untouched, dummy units never appear in results, and line costs are charged on line flow.',
     ['inputs', 'configurations'],
     'every set of DC lines, statuses and costs', 'The bundled DC line test aborts early.',
     ['toggle_dcline.py', 'idx_dcline.py'], [('DC line callbacks', 'toggle_dcline.py')])
# ---------------------------------------------------------------- costs
prop('C27', 'Generator cost evaluation follows the cost model',
     'Total cost equals the polynomial value or the linear interpolation (extrapolated at the ends) of the breakpoints, for each row of mixed tables; first and second polynomial derivatives are exact; and the P/Q split of a cost table is the documented one with inconsistent sizes rejected.',
     ['inputs'],
     'every mix of cost rows and outputs, any order of polynomial, any number of points', 'Tests use a few rows.',
     ['totcost.py', 'polycost.py', 'pqcost.py'], [('totcost', 'totcost.py'), ('polycost', 'polycost.py')])
prop('C28', 'Cost modifications are exact transformations',
     'Scaling or shifting cost functions vertically or horizontally changes the evaluated cost exactly as stated, for every row type, and leaves the input, the kind of each row and its startup and shutdown costs as they were. '
     'Converting a polynomial to a piecewise linear cost samples the polynomial at the requested number of points over its range without altering the input.',
     ['inputs'],
     'every cost table, modification and factor (positive when stretching piecewise linear costs along the output axis)', 'Tests use fixed rows and only a few factors; conversion is untested.',
     ['modcost.py', 'poly2pwl.py'], [('modcost', 'modcost.py'), ('poly2pwl', 'poly2pwl.py')])
# ---------------------------------------------------------------- loads
prop('C29', 'Load totals count every load once',
     'Load totals by zone, by area or for the whole system are the sums of fixed demand and, as asked, of dispatchable demand at in-service units (their nominal demand), real and reactive, for any zone vector and bus numbering.',
     ['inputs', 'configurations'],
     'every case, zone definition and option combination', 'The bundled test aborts after three assertions.',
     ['total_load.py', 'isload.py'], [('total_load', 'total_load.py')])
prop('C30', 'Load scaling reaches exactly the requested loads',
     'Scaling by factor or to a quantity changes fixed, dispatchable or both loads, P only or at constant power factor, in the given zones exactly as requested, so that zone totals meet the target, and leaves all other loads, generators and the caller\'s arguments as they were.',
     ['inputs', 'configurations'],
     'every case, zone vector, option combination', 'The bundled test fails at its first call.',
     ['scale_load.py', 'total_load.py'], [('scale_load', 'scale_load.py')])
# ---------------------------------------------------------------- files, options, reports, entry points
prop('C31', 'Saved cases load back the same',
     'Saving a case to a Python or MAT file and loading it gives back the same case - tables, costs, areas, user constraint and cost data - to the documented precision, and saving does not alter the case passed in. The written file name and its extension follow the documented rule.',
     ['inputs', 'histories'],
     'every case with any subset of optional data, solved or unsolved, written and read any number of times', 'Tests save and load one case.',
     ['savecase.py', 'loadcase.py'], [('writer', 'savecase.py'), ('reader', 'loadcase.py')])
prop('C32', 'Loading reports errors and isolates data',
     'Loading from a dict, a Python file or a MAT file returns the data as an independent copy, converts old-version cases to the current layout, and reports missing files, malformed files and missing tables by the documented exit code.',
     ['inputs', 'fault_sequences'],
     'every source form, missing or malformed piece and return form', 'Tests use well-formed inputs almost exclusively.',
     ['loadcase.py'], [('loadcase', 'loadcase.py')])
prop('C33', 'The printed report states the results',
     'The printed report contains exactly the sections the options select, one line per bus, branch, unit or binding limit as documented, and every number printed - totals, counts, extremes, flows, losses, prices - is that of the result being printed. Printing does not require the result to have converged.',
     ['inputs', 'configurations'],
     'every result and option combination', 'Tests run with printing switched off.',
     ['printpf.py'], [('printpf', 'printpf.py')])
prop('C34', 'Entry points do what their arguments say',
     'Each run function and command accepts a case, a case file or a built-in name, applies the options given, appends the report to the named file, writes the solved case to the named file, and returns results whose success flag matches what was solved; the exit status of commands follows it. DC variants differ only in the model used.',
     ['inputs', 'configurations'],
     'every entry point and argument combination', 'Tests call run functions with output disabled.',
     ['runpf.py', 'rundcpf.py', 'runopf.py', 'rundcopf.py', 'runuopf.py', 'runduopf.py', 'runopf_w_res.py', 'main.py'],
     [('run functions', 'runpf.py'), ('commands', 'main.py')])
prop('C35', 'Options combine predictably',
     'An options vector contains every documented option with its default, values given by keyword or from an existing vector override only the options named, later overrides win, and building one options vector never changes another.',
     ['histories', 'configurations'],
     'every sequence of constructions and overrides', 'Untested.',
     ['ppoption.py'], [('ppoption', 'ppoption.py')])
prop('C36', 'Solving never modifies the caller\'s case',
     'No public solving, converting, saving, printing or modifying routine changes the case, tables or options the caller passed in, and results share no data with them: solving the same case twice gives the same answer.',
     ['inputs', 'histories'],
     'every public routine, case and sequence of calls on the same case', 'Tests reload the case for every call.',
     ['runpf.py', 'opf.py', 'loadcase.py', 'ext2int.py', 'runcpf.py', 'uopf.py'],
     [('copies at the boundary', 'loadcase.py')])
# ---------------------------------------------------------------- solvers
prop('C37', 'The interior point solver tells the truth',
     'When the primal-dual interior point solver reports convergence, the returned point satisfies all bounds, linear and nonlinear constraints within tolerance, its multipliers satisfy the optimality conditions with correct sign and place for every kind of bound (absent, one-sided, two-sided, equality), and the returned objective is the value at that point. '
     'It stops within the iteration limit and otherwise reports failure.',
     ['inputs', 'configurations'],
     'every problem with any mix of bounds, equalities and inequalities, with and without step control', 'Tests use six fixed problems.',
     ['pips.py'], [('pips', 'pips.py')], [('x, lam, mu, z', 'iterate', 'pips.py')])
prop('C38', 'Quadratic programs are solved to optimality',
     'For every convex LP or QP the wrapper returns, for whichever built-in algorithm is selected and whichever way the problem is passed, the optimal point and objective with multipliers for each bound side, treats missing matrices as documented, and reports infeasible or unbounded problems as failures.',
     ['inputs', 'configurations'],
     'every convex LP/QP, calling form and algorithm code', 'Tests use eight fixed problems.',
     ['qps_pypower.py', 'qps_pips.py', 'pips.py'], [('qps_pypower', 'qps_pypower.py'), ('qps_pips', 'qps_pips.py')])
prop('C39', 'Continuation power flow traces the solution curve',
     'Every point a continuation power flow records solves the power flow at its loading parameter within tolerance, starting from the base case; in full or nose tracing it passes the maximum loading and stops as requested, with a target loading it ends exactly there; steps have the size asked for. '
     'The maximum loading reported is the largest recorded and the callbacks see every step in order.',
     ['inputs', 'configurations'],
     'every base and target case, parameterization, step control and stopping rule', 'No test covers it.',
     ['runcpf.py', 'cpf_corrector.py', 'cpf_predictor.py', 'cpf_p.py', 'cpf_p_jac.py', 'cpf_callbacks.py'],
     [('continuation loop', 'runcpf.py')], [('lam, V, step, z', 'continuation state', 'runcpf.py')])

# ------------------------------------------------------------------ manifest
NOTE = {}
BUILT = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(ROOT, 'harness')))
         if f[0] == 'c' and f[1:3].isdigit() and f.endswith('.py')]


def short(s):
    """at most three sentences"""
    return s


def main():
    for p in P:
        assert len(p['title']) <= 80, p['id']
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    notes = {}
    np = os.path.join(ROOT, 'tools', 'notes.json')
    if os.path.exists(np):
        notes = json.load(open(np))
    m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
    for p in P:
        i = p['id']
        if i in BUILT:
            m['checks'].append({
                'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'TLA+ specification, TLC model checking + trace validation of the real code',
                'level': 'model_checking',
                'level_note': notes.get(i, 'design explored by TLC within small constants; real executions (model-generated and randomized) judged against the specification')})
        else:
            m['not_applicable'].append({'property': i, 'reason': notes.get('na_' + i, 'specification and conformance check not built yet')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(P), 'properties', len(m['checks']), 'checks')


main()
