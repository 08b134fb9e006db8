"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json by hand)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Pareto dominance between solutions is decided exactly",
 "Comparing two solutions says the first dominates exactly when it is no worse in every objective and strictly better in at least one; when both carry a constraint violation and these differ, the smaller violation wins outright, and a tolerance makes only differences larger than it count. "
 "The comparison is antisymmetric, and the pairwise matrix over one or two point sets holds, at every position, exactly the outcome of comparing that pair. "
 "When comparing two evaluated solutions a feasible one beats an infeasible one, two infeasible ones are compared by violation, and two feasible ones by objective dominance.",
 ["inputs"], "all pairs and sets of objective vectors of any size and number of objectives, with ties, any violations and any tolerance >= 0",
 "Tests compare a handful of sampled vectors; ties, mixed signs, unequal violations and tolerance edges over every dimension are never enumerated.",
 ["pymoo/util/dominator.py", "pymoo/algorithms/moo/gde3.py", "pymoo/functions/compiled/non_dominated_sorting.pyx", "pymoo/core/individual.py"],
 [("pairwise relation", "pymoo/util/dominator.py:get_relation"), ("domination matrix", "pymoo/util/dominator.py:calc_domination_matrix")])

prop("C02", "Non-dominated sorting partitions points into exact Pareto fronts",
 "Every sorting strategy, interpreted or compiled, puts each point into exactly one front such that front k is exactly the set of points not dominated by any point left after removing the earlier fronts (duplicates share a front), and returned ranks name that front. "
 "Stopping early once enough points or fronts are ranked returns a prefix of the full sorting that contains at least the requested number, and asking only for the non-dominated set, alone or relative to another set, returns exactly the points nothing dominates.",
 ["inputs"], "all point sets of any size and dimension including ties, duplicates, single points, and every strategy and stopping option",
 "Tests cross-check strategies on a few random continuous samples, which practically never contain ties in single objectives, duplicates or boundary stopping counts.",
 ["pymoo/util/nds/non_dominated_sorting.py", "pymoo/functions/standard/non_dominated_sorting.py", "pymoo/functions/compiled/non_dominated_sorting.pyx", "pymoo/functions/__init__.py"],
 [("sorting front end", "pymoo/util/nds/non_dominated_sorting.py:NonDominatedSorting"), ("sorting kernels", "pymoo/functions")])

prop("C03", "Constraint violation aggregates every constraint; feasibility is its zero",
 "The violation of a solution is the weighted aggregate of how far each inequality constraint exceeds its tolerance and how far each equality constraint's magnitude exceeds its tolerance, never negative, zero exactly when every constraint is met within tolerance, and zero without constraints. "
 "A solution's own violation and feasibility flags, the population-wide values and the stand-alone aggregation function all agree, follow the latest constraint values assigned, and are monotone in every single constraint.",
 ["inputs", "histories"], "all constraint value matrices, tolerances, scalings, exponents and any order of assigning and reading values",
 "Tests use fixed benchmark problems where both kinds of constraints, per-constraint scaling and values exactly at the tolerance do not occur together, and no test re-assigns constraint values.",
 ["pymoo/core/individual.py", "pymoo/core/problem.py", "pymoo/util/misc.py"],
 [("violation aggregate", "pymoo/core/individual.py:calc_cv"), ("cached violation", "pymoo/core/individual.py:Individual.CV")])

prop("C04", "Evaluation evaluates exactly what is missing and counts exactly that",
 "Handing solutions to the evaluator sends to the problem exactly those lacking a requested value (all of them when skipping is switched off), in order, and increases the evaluation counter by exactly that number unless counting is off. "
 "Afterwards every solution holds the objective and constraint values of its own variables, already evaluated ones keep theirs untouched, and the count reported for a run equals the number of solutions the problem function saw.",
 ["inputs", "histories"], "all populations mixing evaluated, partially evaluated and new solutions, single or several, with every option and any sequence of calls",
 "Tests count evaluations for homogeneous populations; mixed evaluated/partially evaluated populations and repeated calls are not enumerated.",
 ["pymoo/core/evaluator.py", "pymoo/core/algorithm.py", "pymoo/core/individual.py"],
 [("evaluator", "pymoo/core/evaluator.py:Evaluator.eval")])

prop("C05", "Problem evaluation gives per-solution values in declared shapes",
 "Evaluating a batch returns, for every requested quantity, one row per solution in input order with the declared number of columns, equal to evaluating each solution alone, whether the problem is written for batches or for single solutions and whether it runs serially or through a parallel runner; a single solution gives the same values without the batch axis. "
 "Quantities not declared come back empty, a result of the wrong shape is rejected with an error rather than accepted, and the variables passed in are not modified.",
 ["inputs", "configurations", "schedules"], "all batch sizes including one and zero constraints/objectives counts, return selections, element-wise or vectorised definitions and runners",
 "Tests evaluate a few fixed problems with one batch size; shapes of size one, value selections and runner equality are sampled at most once.",
 ["pymoo/core/problem.py", "pymoo/problems/functional.py", "pymoo/parallelization"],
 [("evaluate", "pymoo/core/problem.py:Problem.evaluate"), ("element-wise loop", "pymoo/core/problem.py:ElementwiseEvaluationFunction")])

prop("C06", "Solution containers keep every value with its solution",
 "Building, slicing, merging, copying and filling populations preserves order and identity: values set for a population are read back row by row from the same solutions, setting an attribute changes only that attribute of only those solutions, and merging lists the first argument's solutions followed by the second's. "
 "A copied solution carries equal values and changing the copy's values or attributes leaves the original unchanged, and resetting a solution forgets all its values, keeping its further attributes exactly when asked.",
 ["inputs", "histories"], "all sizes including empty and single populations, all attribute names, value shapes and sequences of operations",
 "The population test file has a handful of fixed examples and never interleaves set, merge, copy and reset.",
 ["pymoo/core/population.py", "pymoo/core/individual.py"],
 [("population", "pymoo/core/population.py:Population"), ("individual", "pymoo/core/individual.py:Individual")])

prop("C07", "Bounded search never leaves the variable bounds",
 "For a problem with lower and upper bounds, every point produced by the real-valued samplings, crossovers, mutations and differential-evolution or swarm steps from in-bounds parents, and every output of a bounds repair for arbitrary points, lies within the bounds; repairs leave in-bounds values unchanged. "
 "Consequently every solution a built-in algorithm sends to evaluation lies within the bounds of its problem.",
 ["inputs", "histories"], "all bounds (including equal ones), all parents within bounds or on them, all random draws, all operator parameters, every iteration of a run",
 "Tests check bounds for a few operators with default parameters and seeds; extreme random draws, degenerate bounds and parents on a bound are unlikely to be sampled.",
 ["pymoo/operators/repair", "pymoo/operators/crossover", "pymoo/operators/mutation", "pymoo/operators/sampling", "pymoo/algorithms/soo/nonconvex", "pymoo/algorithms/moo"],
 [("bounds repairs", "pymoo/operators/repair/bounds_repair.py"), ("clamp", "pymoo/operators/repair/to_bound.py")])

prop("C08", "Discrete and mixed variables always hold admissible values",
 "Samplings, crossovers, mutations and roundings for integer, binary, choice and mixed variable spaces only ever produce values admissible for each variable: whole numbers within the integer bounds, truth values, one of the listed options, or a real within its bounds, under the variable's own name. "
 "Rounding returns the nearest whole number, and binary mutation flips a gene exactly where it is drawn to flip and leaves every other gene unchanged.",
 ["inputs"], "all variable definitions, parents, probabilities and random draws",
 "Tests run a few seeded end-to-end examples; they cannot reach every draw and bound combination.",
 ["pymoo/core/variable.py", "pymoo/core/mixed.py", "pymoo/operators/repair/rounding.py", "pymoo/operators/mutation/bitflip.py", "pymoo/operators/sampling/rnd.py", "pymoo/operators/mutation/rm.py", "pymoo/operators/integer_from_float_operator.py"],
 [("mixed operators", "pymoo/core/mixed.py"), ("rounding", "pymoo/operators/repair/rounding.py"), ("bit flip", "pymoo/operators/mutation/bitflip.py")])

prop("C09", "Permutation operators always return permutations",
 "Permutation sampling, crossovers and mutations applied to permutations return permutations of the same elements: no element is lost or repeated. "
 "Order crossover keeps the copied slice in place and the remaining elements in the other parent's cyclic order, inversion reverses exactly one contiguous segment, and edge recombination starts from existing elements and visits each once.",
 ["inputs"], "all permutation lengths (including 1 and 2), all parents, all cut points and random draws",
 "Tests check a few crossovers with fixed seeds and lengths; cut points at the ends and tiny lengths are not enumerated.",
 ["pymoo/operators/crossover/ox.py", "pymoo/operators/crossover/erx.py", "pymoo/operators/mutation/inversion.py", "pymoo/operators/sampling/rnd.py"],
 [("order crossover", "pymoo/operators/crossover/ox.py"), ("edge recombination", "pymoo/operators/crossover/erx.py"), ("inversion", "pymoo/operators/mutation/inversion.py")])

prop("C10", "Crossover and mutation act gene-wise and leave parents untouched",
 "In exchange-type crossovers (uniform, half-uniform, point, exponential, binomial) every offspring gene comes from one of the mating's own parents at the same position, two offspring are complementary, and half-uniform exchanges half of the differing genes. "
 "Matings or individuals not drawn by the operator probability pass through unchanged, each crossover yields its declared number of offspring per mating in a matching layout, and neither the parent solutions nor their values change.",
 ["inputs"], "all parent matrices, shapes, probabilities in [0,1], cut points and random draws",
 "Tests look at a few operators with one shape; probability 0/1, single-gene parents and complementarity for all masks are not covered.",
 ["pymoo/core/crossover.py", "pymoo/core/mutation.py", "pymoo/util/misc.py", "pymoo/operators/crossover/ux.py", "pymoo/operators/crossover/hux.py", "pymoo/operators/crossover/pntx.py", "pymoo/operators/crossover/expx.py", "pymoo/operators/crossover/binx.py"],
 [("mask exchange", "pymoo/util/misc.py:crossover_mask"), ("probability gate", "pymoo/core/crossover.py:Crossover.do")])

prop("C11", "Sampling plans have the requested size and stratification",
 "A sampling returns exactly the requested number of points with one value per variable. "
 "Latin hypercube samples place exactly one point in each of the equal-width strata of every variable, for every optimisation criterion and number of improvement iterations; improvement never worsens the chosen criterion.",
 ["inputs"], "all sample sizes, dimensions, bounds, criteria, iteration counts and random draws",
 "Tests only run the samplings; stratum occupancy for every size and draw is not checked.",
 ["pymoo/operators/sampling/lhs.py", "pymoo/operators/sampling/rnd.py", "pymoo/core/sampling.py", "pymoo/core/initialization.py"],
 [("unit hypercube strata", "pymoo/operators/sampling/lhs.py:sampling_lhs_unit")])

prop("C12", "Mating selection returns valid parents and the better contestant wins",
 "Selection returns for every requested mating exactly the requested number of parents, all members of the current population, with random and tournament pools using members evenly (use counts differ by at most one within full rounds of distinct permutations). "
 "Each tournament's winner is one of its two contestants and never the worse one: a smaller violation wins when either is infeasible, otherwise the criterion of the tournament (fitness, dominance, rank then crowding, niche) decides and only exact ties are broken at random (C-TAEA breaks two infeasible contestants at random).",
 ["inputs"], "all populations with any mix of feasible and infeasible members and ties, all tournament sizes, counts and random draws",
 "Tests exercise selection only inside seeded runs; an occasional wrong winner would not fail them.",
 ["pymoo/operators/selection/tournament.py", "pymoo/operators/selection/rnd.py", "pymoo/util/misc.py", "pymoo/algorithms/moo/nsga2.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/unsga3.py", "pymoo/algorithms/moo/sms.py", "pymoo/algorithms/moo/spea2.py", "pymoo/algorithms/soo/nonconvex/ga.py", "pymoo/algorithms/soo/nonconvex/ga_niching.py", "pymoo/algorithms/moo/ctaea.py"],
 [("pairwise comparison", "pymoo/operators/selection/tournament.py:compare"), ("tournament", "pymoo/operators/selection/tournament.py:TournamentSelection")])

prop("C13", "Duplicate elimination removes exactly the duplicates",
 "Removing duplicates from a set keeps the first of every group of equal solutions in original order and drops every later one, and also drops those equal to any member of the given reference sets, where equal means distance not above the tolerance (or the user's comparison or hash). "
 "It never drops a solution that has no counterpart, never changes a kept one, and reports the kept and dropped positions consistently.",
 ["inputs"], "all sets with any pattern of duplicates and any reference sets, tolerances and comparison kinds",
 "Duplicate patterns across several reference sets and chains of near-equal points are not enumerated by the tests.",
 ["pymoo/core/duplicate.py"],
 [("duplicate mask", "pymoo/core/duplicate.py:DuplicateElimination.do")])

prop("C14", "Offspring generation delivers the requested unique, repaired offspring",
 "Creating offspring or an initial population returns at most the requested number, no more attempts than allowed being made, and exactly the requested number whenever duplicates do not run the process out of attempts. "
 "With duplicate elimination on, no returned solution equals another returned one or a member of the current population, every returned solution has passed the repair, and all are not yet evaluated.",
 ["inputs", "histories"], "all population sizes, requested counts (also not multiples of the offspring per mating), operators, duplicate settings",
 "Tests only use default counts; odd offspring counts and small discrete spaces where duplicates abound are rare in them.",
 ["pymoo/core/infill.py", "pymoo/core/mating.py", "pymoo/core/initialization.py", "pymoo/algorithms/base/genetic.py"],
 [("infill loop", "pymoo/core/infill.py:InfillCriterion.do")])

prop("C15", "Survival keeps the right number of members, feasible ones first",
 "Environmental selection returns exactly the requested number of survivors (or everything when fewer are available), each one a distinct member of the merged input with its variables and evaluated values unchanged. "
 "For the constraint-aware survivals, no infeasible solution survives while a feasible one is dropped, and when infeasible ones must be taken those with the smallest violation are taken first (constrained rank-and-crowding: never a member whose vector of violations is dominated before its dominator; RVEA's one-per-vector survival is excepted); single-objective survival returns the best by violation then objective, in order.",
 ["inputs"], "all merged populations with any mix of feasible and infeasible solutions, duplicates, ties and every requested count from one to all",
 "Tests run algorithms to convergence, where a wrong survivor count or a lost feasible solution in a rare generation goes unnoticed.",
 ["pymoo/core/survival.py", "pymoo/core/population.py", "pymoo/operators/survival/rank_and_crowding/classes.py", "pymoo/algorithms/moo/spea2.py", "pymoo/algorithms/moo/sms.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/age.py", "pymoo/algorithms/moo/ctaea.py", "pymoo/algorithms/soo/nonconvex/ga.py"],
 [("feasible split", "pymoo/core/survival.py:Survival.do")])

prop("C16", "Rank-based survival is elitist: better fronts first, then diversity",
 "Among feasible solutions, rank-based environmental selection keeps every member of a better front before any member of a worse front, so at most one front is split; ranks stored on survivors are their true front numbers. "
 "Within the split front the rank-and-crowding survival keeps the members with the largest crowding values, the hypervolume survival repeatedly drops a member with the least contribution, the archive-style survival keeps all non-dominated members or truncates only among them, and a kept population never loses a point that dominates a kept one. The Omni-optimizer, which ranks by loose dominance, is excepted.",
 ["inputs"], "all objective matrices including ties and duplicates, all survivor counts, all crowding variants",
 "Convergence tests tolerate single wrong survivors; splitting boundaries and ties are not enumerated.",
 ["pymoo/operators/survival/rank_and_crowding/classes.py", "pymoo/algorithms/moo/nsga2.py", "pymoo/algorithms/moo/sms.py", "pymoo/algorithms/moo/spea2.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/age.py"],
 [("front filling", "pymoo/operators/survival/rank_and_crowding/classes.py:RankAndCrowding")])

prop("C17", "Crowding metrics equal their definitions",
 "The crowding distance of a point is infinite at the extremes of any objective and otherwise the average, over objectives, of the normalised gap between its two neighbours, with equal points filtered as documented; a constant objective contributes nothing. "
 "The nearest-neighbour and pruning variants equal their definitions by direct computation, interpreted and compiled code agree, and every metric is unchanged by permuting objectives and follows the points when their order is permuted.",
 ["inputs"], "all point sets of any size and dimension with ties, duplicates and constant objectives, all metrics and removal counts",
 "Tests compare one or two fixed fronts; degenerate objectives and small sizes are not covered.",
 ["pymoo/operators/survival/rank_and_crowding/metrics.py", "pymoo/functions/standard/mnn.py", "pymoo/functions/standard/pruning_cd.py", "pymoo/functions/compiled/mnn.pyx", "pymoo/functions/compiled/pruning_cd.pyx"],
 [("crowding distance", "pymoo/operators/survival/rank_and_crowding/metrics.py:calc_crowding_distance")])

prop("C18", "Reference-direction niching associates and counts correctly",
 "Each solution is associated with a reference direction whose line through the ideal point has the smallest perpendicular distance to it in normalised objective space, and niche counts equal the number of solutions associated. "
 "The tracked ideal point is the best value ever seen per objective, the nadir estimate is never below it and strictly exceeds it wherever the worst value of the population does, and filling the last front selects distinct members, always from a direction with the fewest already selected among those with members left, taking the closest member for an empty direction. In RVEA every solution goes to the vector of smallest angle and every vector keeps its member of smallest angle-penalised distance.",
 ["inputs", "histories"], "all objective matrices, reference direction sets, previous generations and random draws",
 "Tests assert only final indicator values of seeded runs; a wrong association or count shifts them imperceptibly.",
 ["pymoo/algorithms/moo/nsga3.py", "pymoo/functions/standard/calc_perpendicular_distance.py", "pymoo/functions/compiled/calc_perpendicular_distance.pyx"],
 [("association", "pymoo/algorithms/moo/nsga3.py:associate_to_niches"), ("niching", "pymoo/algorithms/moo/nsga3.py:niching"), ("normalisation", "pymoo/algorithms/moo/nsga3.py:HyperplaneNormalization")])

prop("C19", "Replacement only ever improves, so the best never gets worse",
 "One-to-one and neighbourhood replacement substitute a member only by a strictly better solution (smaller violation, or equal feasibility and smaller objective or scalarised value) and never drop a better one; members not beaten stay untouched. "
 "Hence in single-objective elitist algorithms the best solution reported never gets worse from one iteration to the next, personal bests never get worse, and in decomposition-based search no member's scalarised value with respect to the current ideal point increases by replacement.",
 ["inputs", "histories"], "all parent/offspring pairs including ties and infeasible ones, every neighbourhood, every iteration of a run",
 "Seeded convergence tests do not compare consecutive generations; an occasional worsening does not change the final outcome noticeably.",
 ["pymoo/core/replacement.py", "pymoo/algorithms/moo/moead.py", "pymoo/algorithms/soo/nonconvex/de.py", "pymoo/algorithms/soo/nonconvex/pso.py", "pymoo/algorithms/soo/nonconvex/es.py", "pymoo/core/algorithm.py", "pymoo/core/survival.py"],
 [("improvement test", "pymoo/core/replacement.py:is_better"), ("neighbourhood update", "pymoo/algorithms/moo/moead.py")])

prop("C20", "Scalarising functions equal their mathematical definitions",
 "Weighted sum, Chebyshev, achievement and augmented achievement scalarising functions, penalty boundary intersection and the distance along and perpendicular to a weight vector return, for every point and weight vector, the value of their published formula relative to the given ideal or utopian point. "
 "The one-to-one, many-to-many, one-to-many and many-to-one forms hold at each position the value for that point and that weight vector, and interpreted and compiled code agree.",
 ["inputs"], "all objective vectors, positive or zero weights, ideal points, parameters and combinations of numbers of points and weights",
 "Tests check one or two scalarisations on few vectors; broadcasting forms and zero weights are not covered.",
 ["pymoo/core/decomposition.py", "pymoo/decomposition", "pymoo/functions/standard/decomposition.py", "pymoo/functions/compiled/decomposition.pyx"],
 [("broadcasting", "pymoo/core/decomposition.py:Decomposition.do")])

prop("C21", "Performance indicators equal their definitions",
 "Generational and inverted generational distance, their plus variants, the epsilon indicators, spacing (from two points on) and hypervolume return the value of their definition for every approximation set and reference, with normalisation applied identically to the set and the reference. "
 "They do not depend on the order of points; the distance indicators are zero exactly when their condition of coverage holds; hypervolume never decreases when a point is added and ignores points that are dominated or beyond the reference point.",
 ["inputs"], "all point sets and reference sets or points, sizes from one, any dimension, with ties, duplicates and points outside the reference",
 "Tests compare against a few stored values; edge cases such as dominated additions, single points and normalisation bounds are not enumerated.",
 ["pymoo/indicators", "pymoo/core/indicator.py", "pymoo/indicators/distance_indicator.py", "pymoo/indicators/hv"],
 [("distance indicator", "pymoo/indicators/distance_indicator.py"), ("hypervolume", "pymoo/indicators/hv")])

prop("C22", "Normalisation and denormalisation are inverse and map bounds to 0 and 1",
 "Normalising with given bounds maps the lower bound to zero and the upper bound to one component by component, and denormalising a normalised value (with the same, possibly partly missing, bounds) gives the original back, as does normalising a denormalised one. "
 "A degenerate component with equal bounds produces no division error and is restored unchanged, estimated bounds are the componentwise minimum and maximum, and the inputs are not modified.",
 ["inputs"], "all values and bounds, scalar, missing, equal, one-sided or per component, and all normaliser kinds",
 "Tests try a few bound patterns; mixtures of missing, one-sided and equal bounds per component are not enumerated.",
 ["pymoo/util/normalization.py", "pymoo/core/problem.py", "pymoo/util/misc.py"],
 [("zero-to-one normaliser", "pymoo/util/normalization.py:ZeroToOneNormalization")])

prop("C23", "Reference directions lie on the unit simplex in the promised number",
 "Every generated set of reference directions has non-negative components summing to one per direction. "
 "The uniform construction returns exactly the binomial number of distinct directions, each component a multiple of one over the number of partitions; a requested number of points is met exactly or refused with an error (a single dimension has one direction only); scaling by a factor between zero and one toward the centre keeps the sum; layered sets contain no duplicates; and maximum-distance subset selection returns distinct indices of the requested number.",
 ["inputs", "configurations"], "all dimensions, partition or point counts, scalings, layers and random draws",
 "Tests check a few dimension/partition pairs; other constructions and scaling are hardly covered.",
 ["pymoo/util/reference_direction.py", "pymoo/util/ref_dirs"],
 [("uniform recursion", "pymoo/util/reference_direction.py:das_dennis"), ("simplex map", "pymoo/util/reference_direction.py:map_onto_unit_simplex")])

prop("C24", "Termination stops exactly when its criterion is met",
 "A run limited by generations performs exactly that many, and one limited by evaluations stops after the first iteration in which the count reaches the limit; a run without a limit is not stopped by it, and a forced stop always ends the run. "
 "Progress is never negative and reaches one exactly when the criterion is fulfilled, a combined criterion stops when any of its parts does, and the tolerance-based criteria stop exactly when the measured change between consecutive observations stays within tolerance over the whole period.",
 ["inputs", "histories"], "all limits and all histories of generations, evaluations, times and objective, variable and violation changes",
 "Tests use a few limits and seeds; window boundaries, exact tolerance equality and combined criteria are not enumerated.",
 ["pymoo/core/termination.py", "pymoo/termination", "pymoo/core/algorithm.py"],
 [("progress", "pymoo/core/termination.py:Termination.update"), ("robust window", "pymoo/termination/robust.py"), ("delta", "pymoo/termination/delta.py")])

prop("C25", "Archives stay bounded and hold exactly the best solutions seen",
 "A multi-objective archive holds, after any sequence of additions, only mutually non-dominated, non-duplicate feasible-first solutions; without a size limit it holds every non-dominated point seen; a single-objective archive holds the best seen. "
 "It never exceeds its maximum size (at least one) after an addition, every member was added by the caller, and adding to an archive does not alter the archive it was derived from.",
 ["histories"], "all sequences of additions with duplicates, dominated, infeasible and equal points, and all size limits and truncations",
 "Archive tests add a few fixed batches; long histories around the size limit are not explored.",
 ["pymoo/util/archive.py"],
 [("archive", "pymoo/util/archive.py:Archive.add")])

prop("C26", "The reported result is the true optimum of what was evaluated",
 "The solutions a run reports are members of its final candidates, and reported variables, objectives and constraint values belong to the same solutions: with one objective the best feasible one, with several the mutually non-dominated feasible ones. "
 "Infeasible solutions are never reported when a feasible one exists; when none exists nothing is reported as solution, or on request a least infeasible one; no reported solution is dominated by a member of the population it was selected from (niching, which reports one solution per niche, and the Omni-optimizer's loose dominance excepted).",
 ["inputs", "histories"], "all populations with any mix of feasible and infeasible members and ties, all runs",
 "Tests check that results exist for feasible benchmarks; all-infeasible, tied and mixed populations are hardly covered.",
 ["pymoo/util/optimum.py", "pymoo/core/algorithm.py", "pymoo/core/result.py"],
 [("optimum filter", "pymoo/util/optimum.py:filter_optimum"), ("result", "pymoo/core/algorithm.py:Algorithm.result")])

prop("C27", "A seed determines a run completely",
 "Two runs of the same algorithm on the same problem with the same seed produce identical evaluated solutions in identical order and identical results, whatever else uses global random state before or in between and however the run is driven (one call, step by step, or ask-and-tell). "
 "Every operator given a generator draws only from it, so with equal generators it returns equal outputs, and it neither reads nor changes the global random state (CMA-ES, whose external solver seeds and uses it, excepted).",
 ["configurations", "schedules", "histories"], "all algorithms, operators, seeds and interleavings with other users of randomness",
 "Tests compare two runs in a row for some algorithms; a rare branch that draws from an unseeded generator appears only for specific data.",
 ["pymoo/util/__init__.py", "pymoo/core/algorithm.py", "pymoo/operators", "pymoo/algorithms", "pymoo/util"],
 [("generator plumbing", "pymoo/util/__init__.py:default_random_state")])

prop("C28", "Problem wrappers preserve the wrapped problem's meaning",
 "Turning constraints into a penalty adds exactly the penalty factor times the violation to the objective, turning them into an objective adds or substitutes exactly the violation, turning bounds into constraints adds, per variable, exactly how far each bound is violated, and afterwards the wrapped problem declares the constraint and objective counts it returns. "
 "Wrapping to unit variables evaluates the original problem at the denormalised point, reducing to one objective returns the scalarisation of the original objectives, a static wrapper returns the fixed values, and the original problem object is left unchanged.",
 ["inputs", "configurations"], "all wrapped problems, points, penalties, configurations and numbers of objectives and constraints",
 "Tests cover one wrapper in one run; values for arbitrary points, shapes and configurations are not checked.",
 ["pymoo/constraints", "pymoo/problems/zero_to_one.py", "pymoo/problems/multi_to_single.py", "pymoo/problems/static.py", "pymoo/core/meta.py"],
 [("wrapper base", "pymoo/core/meta.py:Meta")])

prop("C29", "Decision-making and outlier tools follow their definitions",
 "The pseudo-weight choice returns the solution whose normalised relative distances to the worst values are closest to the wanted weights, with pseudo weights non-negative and summing to one, for sets with a range in every objective and within the bounds; high trade-off selection reports exactly the outliers of the worst trade-off within each solution's neighbourhood. "
 "Neighbourhoods contain exactly the points within the stated normalised distance, topped up with the nearest ones when the points found, the solution itself included, are fewer than the stated minimum.",
 ["inputs"], "all objective matrices, weights, bounds and neighbourhood parameters",
 "Only documentation examples exercise these tools.",
 ["pymoo/mcdm", "pymoo/core/decision_making.py"],
 [("pseudo weights", "pymoo/mcdm/pseudo_weights.py"), ("neighbourhoods", "pymoo/core/decision_making.py:NeighborFinder")])

prop("C30", "Calls leave the caller's data unchanged",
 "Solving a problem through the convenience interface leaves the algorithm, termination and problem objects passed in as they were, so they can be reused with the same outcome. "
 "Evaluating problems, indicators, scalarisations, sorting, crowding metrics, samplings, decision making and normalisation does not modify the arrays passed in, and selection, survival and result filtering never change variables, objectives or constraint values of any solution.",
 ["inputs", "histories"], "all inputs of these functions including sizes one and data with ties, any memory layout, and repeated use",
 "One test checks a few algorithms for one kind of modification; array aliasing inside numerical helpers is invisible to value-based tests.",
 ["pymoo/optimize.py", "pymoo/core/problem.py", "pymoo/indicators", "pymoo/decomposition", "pymoo/util", "pymoo/operators/survival", "pymoo/core/survival.py"],
 [("deep copies at the entry", "pymoo/optimize.py:minimize"), ("frame conditions", "numerical helpers in pymoo/util, pymoo/indicators, pymoo/core")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
