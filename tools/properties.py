"""Source of properties.jsonl (python3 tools/properties.py writes it)."""
import json
import os

D = 'python/dp_accounting/dp_accounting/'
A = 'python/dp_auditorium/dp_auditorium/'
L = 'learning/clustering/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe,
         state=()):
  assert len(title) <= 80, title
  P.append({
      'id': pid, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text},
      'why_tests_cant': why,
      'anchors': {
          'files': files,
          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
          'observe_at': observe, 'hook_needed': None}})


prop('C01', "The ledger records exactly what was composed",
     "After any sequence of compose calls on a privacy accountant (or on a DpEventBuilder), the ledger describes exactly the events that were accepted, in order and with their multiplicities: nothing lost, duplicated, reordered or invented. Runs of equal events appear once with their total count, no-ops are left out, self-compositions are unfolded into counts, a single event composed once is reported as itself and an empty history as a no-op. Asking for the ledger never changes or freezes it.",
     ['histories'], 'every sequence of compose(event, count) calls, every nesting of events, both accountants, all neighbouring relations',
     'The builder tests run seven fixed sequences; the accountant tests never look at the ledger after a mixed history with refusals.',
     [D + 'dp_event_builder.py', D + 'privacy_accountant.py', D + 'dp_event.py'],
     [('DpEventBuilder.compose / build', D + 'dp_event_builder.py'), ('PrivacyAccountant.compose', D + 'privacy_accountant.py')],
     ['PrivacyAccountant.ledger', 'DpEventBuilder.build()'],
     [('event_counts', 'run-length list of composed events', D + 'dp_event_builder.py')])

prop('C02', "Events an accountant cannot analyse are refused without a trace",
     "An accountant accepts an event exactly when it can account for it under its neighbouring relation: supports() answers truthfully and without raising, compose() raises UnsupportedEventError for any event that contains, at any depth, something it cannot analyse, and rejects non-events and non-positive counts. A refused or failed call leaves the ledger and every later epsilon/delta answer exactly as if the call had never been made. An accepted event never makes a later query fail.",
     ['histories', 'inputs'], 'every event term (all kinds, nested to any depth, any parameters incl. 0/1/degenerate), every neighbouring relation, at every point of a history',
     'Tests try a handful of supported/unsupported pairs, mostly at top level of a fresh accountant; the support matrix is a recursive function over unbounded terms.',
     [D + 'privacy_accountant.py', D + 'rdp/rdp_privacy_accountant.py', D + 'pld/pld_privacy_accountant.py'],
     [('PrivacyAccountant.compose / supports', D + 'privacy_accountant.py'), ('RdpAccountant._maybe_compose', D + 'rdp/rdp_privacy_accountant.py'), ('PLDAccountant._maybe_compose', D + 'pld/pld_privacy_accountant.py')],
     ['supports()', 'compose() outcome', 'ledger, get_epsilon, get_delta after the call'])

prop('C03', "The guarantee depends on what was run, not on how it was described",
     "The privacy guarantee an accountant reports after a history is that of the multiset of mechanisms applied: composing n times equals composing with count n, equals a SelfComposed event of n, equals nested or flattened compositions, in any order and with no-ops interspersed. A sequence of Gaussian queries on one (possibly subsampled) batch costs exactly what the single Gaussian with the same total precision costs. Feeding an accountant's ledger to a fresh accountant reproduces its guarantee.",
     ['histories'], 'every pair of histories that apply the same mechanisms the same number of times, however nested, grouped or ordered',
     'Tests compare a few hand-written pairs; grouping bugs need particular nestings or counts (e.g. a count ignored inside a self-composition).',
     [D + 'rdp/rdp_privacy_accountant.py', D + 'pld/pld_privacy_accountant.py', D + 'privacy_accountant.py'],
     [('RdpAccountant._maybe_compose', D + 'rdp/rdp_privacy_accountant.py'), ('_effective_gaussian_noise_multiplier', D + 'rdp/rdp_privacy_accountant.py'), ('PLDAccountant._maybe_compose', D + 'pld/pld_privacy_accountant.py')],
     ['get_epsilon', 'get_delta', 'RdpAccountant.rdp'])

prop('C04', "Non-private is absorbing, no-ops are free, composing never helps",
     "Once a history contains a mechanism without noise or otherwise non-private (at any depth, unless it can never touch the data because its sampling rate is zero), the accountant reports infinite epsilon for every delta below 1 and delta 1 for every epsilon, forever. No-ops, mechanisms that reveal nothing and zero-rate sampling leave every answer unchanged. Composing any event never lowers any reported epsilon or delta.",
     ['histories'], 'every history over all event kinds and degenerate parameters, checked after every step',
     'Tests check a non-private event on an otherwise empty accountant; degenerate parameters reached through nesting/subsampling and interplay with later steps are not sampled.',
     [D + 'privacy_accountant.py', D + 'rdp/rdp_privacy_accountant.py', D + 'pld/pld_privacy_accountant.py'],
     [('RdpAccountant._maybe_compose', D + 'rdp/rdp_privacy_accountant.py'), ('PLDAccountant._contains_non_dp_event', D + 'pld/pld_privacy_accountant.py')],
     ['get_epsilon', 'get_delta'])

prop('C05', "RDP curves equal the mechanism's true or published Rényi divergence",
     "For every order, the RDP the RdpAccountant attributes to a Gaussian, Laplace, randomized-response, tree-aggregation, Poisson-sampled Gaussian or sampled-without-replacement Gaussian mechanism equals the exact Rényi divergence or the published bound it implements, up to numerical precision; it is never below the mechanism's true Rényi divergence. The curve is non-decreasing in the order, and at integer orders Poisson sampling never increases it; orders whose series does not converge are excluded by an infinite value, never by a smaller one. Repeat-and-select follows the published theorems for every repetition distribution.",
     ['inputs', 'configurations'], 'every order > 1 (integer and fractional, small and large), noise multiplier, sampling rate, bucket count, step-count list, neighbouring relation',
     'Tests compare with stored constants at a few (q, sigma, order) points; the formula switches between series, integer and log-space branches depending on all three.',
     [D + 'rdp/rdp_privacy_accountant.py'],
     [('_compute_rdp_poisson_subsampled_gaussian', D + 'rdp/rdp_privacy_accountant.py'), ('_compute_rdp_sample_wor_gaussian', D + 'rdp/rdp_privacy_accountant.py'), ('_compute_rdp_single_epoch_tree_aggregation', D + 'rdp/rdp_privacy_accountant.py'), ('_laplace_rdp, _randomized_response_rdp', D + 'rdp/rdp_privacy_accountant.py'), ('_compute_rdp_repeat_and_select', D + 'rdp/rdp_privacy_accountant.py')],
     ['RdpAccountant.rdp after one compose'])

prop('C06', "RDP to (epsilon, delta) conversion is sound and self-consistent",
     "Every (epsilon, delta) the RdpAccountant reports, from any RDP curve, is implied by the published RDP-to-DP conversions applied to one of its orders, and is the best over its orders. Epsilon is non-increasing in delta and delta non-increasing in epsilon, epsilon is never negative, delta stays in [0,1], a zero curve gives (0, 0), delta 0 is only granted to a zero curve, and an order of infinity is read as pure DP. The pair is consistent: delta at the reported epsilon never exceeds the requested delta (beyond rounding), and the reported optimal order attains the reported value.",
     ['inputs'], 'every list of orders (including infinity and orders near 1), every RDP vector (including zeros and infinities), every epsilon >= 0 and delta in [0,1]',
     'Tests check a few curves with one order list; soundness needs every combination of order, value and target, including extremes where the formulas switch.',
     [D + 'rdp/rdp_privacy_accountant.py'],
     [('compute_epsilon / compute_delta', D + 'rdp/rdp_privacy_accountant.py')],
     ['compute_epsilon', 'compute_delta', 'RdpAccountant.get_epsilon_and_optimal_order', 'get_delta_and_optimal_order'])

prop('C07', "A discretized privacy loss distribution never understates the truth",
     "However a privacy loss distribution is built from a pair of output distributions or from privacy parameters, its pessimistic form has a privacy curve (delta as a function of epsilon) nowhere below the exact one and its optimistic form nowhere above it, and both are exact where the losses fall on the discretization grid. Outcomes possible on one side only count as unbounded loss. The gap closes as the discretization interval shrinks.",
     ['inputs', 'configurations'], 'every pair of finite distributions (any support overlap), every discretization interval and truncation, both estimate types, symmetric or not, every epsilon',
     'Tests use two-outcome examples with one interval; soundness is a for-all over distributions, rounding directions and epsilon.',
     [D + 'pld/privacy_loss_distribution.py', D + 'pld/pld_pmf.py'],
     [('from_two_probability_mass_functions', D + 'pld/privacy_loss_distribution.py'), ('create_pmf', D + 'pld/pld_pmf.py'), ('create_pmf_pessimistic_connect_dots(_fixed_gap)', D + 'pld/pld_pmf.py'), ('from_privacy_parameters, create_from_cdf', D + 'pld/privacy_loss_distribution.py')],
     ['PrivacyLossDistribution.get_delta_for_epsilon'])

prop('C08', "PLD composition bounds the exact composition and loses no mass",
     "Composing or self-composing privacy loss distributions yields, for pessimistic estimates, a curve nowhere below that of the exact product distribution, and for optimistic ones nowhere above it (up to the declared tail truncation), and with no truncation the exact product; total probability stays one for pessimistic estimates. The result does not depend on the internal representation, on the order or grouping of compositions, or on whether composition is materialised or queried directly. Distributions with different discretizations or estimate types are refused, and composing never alters its operands.",
     ['inputs', 'histories'], 'every sequence of compose/self_compose/truncation on PLDs of any support size, representation (sparse or dense), estimate type and infinity mass',
     'Tests compose a few small dictionaries once or twice; representation switches, repeated truncation and large self-composition counts interact over histories.',
     [D + 'pld/pld_pmf.py', D + 'pld/common.py', D + 'pld/privacy_loss_distribution.py'],
     [('SparsePLDPmf/DensePLDPmf.compose, self_compose', D + 'pld/pld_pmf.py'), ('_truncate_tails', D + 'pld/pld_pmf.py'), ('convolve_dictionary, self_convolve, compute_self_convolve_bounds', D + 'pld/common.py')],
     ['get_delta_for_epsilon', 'get_delta_for_epsilon_for_composed_pld', 'composed PLDs'])

prop('C09', "PLD queries are the hockey-stick divergence and its exact inverse",
     "delta for epsilon is the hockey-stick divergence of the stored distribution, maximised over add and remove directions, for scalars and for ascending lists alike (with duplicates or infinities; unordered lists are refused); epsilon for delta is the smallest epsilon at least 0 achieving it, or infinity exactly when none does; epsilon for delta 0 on a finite distribution is its largest loss. Delta is in [0,1], non-increasing and convex in e^epsilon, and epsilon is non-increasing in delta. Conversion to privacy parameters and back is consistent.",
     ['inputs'], 'every stored distribution (sparse or dense, gaps, negative losses, losses beyond the range of exp, infinity mass 0..1), every epsilon (scalar or vector, negative, huge, infinite) and delta in [0,1]',
     'Tests query small dictionaries at a few points; the closed-form inverse has boundary cases (ties, zero-mass cells, delta equal to infinity mass).',
     [D + 'pld/pld_pmf.py', D + 'pld/privacy_loss_distribution.py'],
     [('get_delta_for_epsilon', D + 'pld/pld_pmf.py'), ('_get_delta_for_epsilon_vectorized, _get_epsilon_for_delta', D + 'pld/pld_pmf.py'), ('PrivacyLossDistribution add/remove max', D + 'pld/privacy_loss_distribution.py')],
     ['get_delta_for_epsilon', 'get_epsilon_for_delta'])

prop('C10', "Mechanism PLDs bracket each mechanism's true privacy curve",
     "For Gaussian, Laplace, discrete Laplace, discrete Gaussian, mixture-of-Gaussians and randomized-response mechanisms, with or without Poisson subsampling, the pessimistic PLD's delta is at least the mechanism's true delta at every epsilon, for the worse of adding and removing a record, and the optimistic one at most; both are within the discretization's resolution of the truth. Sensitivity and noise act only through their ratio, sampling rate 1 means no subsampling, and privacy loss and its inverse agree.",
     ['inputs', 'configurations'], 'every mechanism, noise scale, sensitivity, sampling rate, adjacency, discretization, estimate type and epsilon (including negative)',
     'Tests check stored numbers at a few parameters; dominance must hold on the whole curve for every parameter, and subsampled add/remove asymmetry makes mistakes one-sided.',
     [D + 'pld/privacy_loss_mechanism.py', D + 'pld/privacy_loss_distribution.py'],
     [('GaussianPrivacyLoss, LaplacePrivacyLoss, DiscreteLaplacePrivacyLoss, DiscreteGaussianPrivacyLoss, MixtureGaussianPrivacyLoss', D + 'pld/privacy_loss_mechanism.py'), ('from_*_mechanism, from_randomized_response, _create_pld_pmf_from_additive_noise', D + 'pld/privacy_loss_distribution.py')],
     ['from_*_mechanism(...).get_delta_for_epsilon', 'PrivacyLoss.get_delta_for_epsilon'])

prop('C11', "Calibration meets its privacy target and is near-optimal",
     "A calibrated parameter always meets the target: the epsilon (or delta) of the mechanism built with the returned value does not exceed the target, and it is within the tolerance of the boundary beyond which the target is missed, or meets the target exactly. This holds whether privacy loss increases or decreases with the parameter, for real and discrete parameters, explicit or grown brackets, epsilon or delta targets. When no parameter in the bracket can be certified, an error naming the reason is raised instead of a value.",
     ['inputs', 'histories'], 'every monotone cost function, target, tolerance, bracket (either type, either orientation) and discrete flag',
     'Tests calibrate a few Gaussian/Laplace families; the search must meet the target for every cost profile and bracket.',
     [D + 'mechanism_calibration.py'],
     [('calibrate_dp_mechanism', D + 'mechanism_calibration.py'), ('_search_for_explicit_bracket_interval', D + 'mechanism_calibration.py')],
     ['calibrate_dp_mechanism return value / exception', 'sequence of evaluated parameters'])

prop('C12', "Parameter searches return the least sufficient noise, and never less",
     "The helpers that invert a monotone function, or find the smallest sufficient Laplace, Gaussian or discrete noise, return a value that satisfies the given privacy constraint, and within tolerance no better value does. They report absence (None) exactly when no admissible value exists in the range. The result does not depend on the initial guess.",
     ['inputs'], 'every monotone function, value, bound, tolerance, discrete flag and initial guess; every privacy parameter, sensitivity and query count',
     'Tests invert a few smooth functions; off-by-one and direction errors depend on where the crossing falls relative to the bracket.',
     [D + 'pld/common.py', D + 'pld/accountant.py', D + 'pld/privacy_loss_mechanism.py'],
     [('inverse_monotone_function', D + 'pld/common.py'), ('get_smallest_*_noise, get_smallest_*_parameter', D + 'pld/accountant.py'), ('GaussianPrivacyLoss.from_privacy_guarantee', D + 'pld/privacy_loss_mechanism.py')],
     ['return values of the helpers'])

prop('C13', "Advanced composition never understates the privacy loss",
     "Composing mechanisms known only by their (epsilon, delta) guarantees never understates the loss. The total epsilon reported for a k-fold composition is exactly the optimal composition theorem's: the smallest epsilon0 * (k - 2i) at which the true worst-case delta does not exceed the total delta; None exactly when the total delta is less than 1 - (1 - delta0)^k. The result is non-decreasing in epsilon0, delta0 and (by twos) k, and non-increasing in the total delta. The per-query epsilon derived from a total guarantee meets it, and no larger one within tolerance does. Composing the corresponding privacy loss distributions, equal or different, in any order, gives the exact delta at every epsilon on the grid and never less off it.",
     ['inputs'], 'every (epsilon0, delta0), every k >= 1, every total delta',
     'Tests check six constants; the optimality bound is a for-all over k and delta with combinatorial sums.',
     [D + 'pld/accountant.py'],
     [('advanced_composition', D + 'pld/accountant.py'), ('get_smallest_epsilon_from_advanced_composition', D + 'pld/accountant.py'), ('from_privacy_parameters', D + 'pld/privacy_loss_distribution.py')],
     ['advanced_composition return value'])

prop('C14', "DpEvents survive conversion to named tuples and are values",
     "Converting any event tree to named tuples and back yields an equal event of the same types at every depth, and the intermediate form contains only named tuples, containers and plain values, so that it survives structure-preserving traversal. Events are immutable values: equal fields and types compare equal and hash alike, different types or fields differ. Named tuples with missing, surplus or unknown fields or an unknown class raise an error rather than becoming some event.",
     ['inputs'], 'every event tree over all event classes, any depth, any field values including containers',
     'Tests round-trip one instance per class; recursion over nested containers and class dispatch are unbounded.',
     [D + 'dp_event.py'],
     [('DpEvent.to_named_tuple / from_named_tuple, _dp_event_to_named_tuple', D + 'dp_event.py')],
     ['to_named_tuple', 'from_named_tuple', '==, hash'])

prop('C15', "The LSH tree partitions the data and respects depth and thresholds",
     "At every level of the LSH prefix tree, each datapoint that survives belongs to exactly one node, in the branch given by its hash prefix; children partition their parent's points and nothing is duplicated or moved. A node is branched exactly when its private count reaches the branching threshold and the depth limit is not reached; a child is kept exactly when its private count reaches the node threshold and otherwise disappears with its points. Every datapoint ends in at most one leaf, and in exactly one unless a node holding it was dropped while its sibling was kept. The root always stays, every kept node has a private count of at least one, and every child, also an empty one, is given a noisy count exactly once.",
     ['inputs', 'histories'], 'every dataset, projection, noise draw, branching threshold, minimum count and depth',
     'Tests build two or three trees with fixed counts; the tree shape depends on data and noise at every level.',
     [L + 'lsh_tree.py', L + 'lsh.py', L + 'central_privacy_utils.py'],
     [('LshTree, LshTreeNode.children, filter_branching_nodes', L + 'lsh_tree.py'), ('SimHash', L + 'lsh.py')],
     ['LshTree.tree, leaves', 'LshTreeNode fields'])

prop('C16', "Clustering spends exactly its declared privacy budget",
     "The noise actually added anywhere in clustering (tree counts at every level, coreset sums and counts) composes to at most the declared (epsilon, delta), for every parameter setting, depth, radius and dimension, and the calibrated noise is not needlessly larger. Each datapoint affects at most one node per noised level and the released outputs only through those noisy values. Infinite epsilon (or delta 1) means no noise; noise that exceeds the budget is refused by validation and calibrated noise never is. Default tree parameters depend on the data through the one noisy root count only.",
     ['inputs', 'configurations'], 'every (epsilon, delta), tree depth, radius, multiplier set, dimension and dataset',
     'Tests check calibration at a few points with one depth; the budget is a composition over all noised values actually drawn.',
     [L + 'privacy_calculator.py', L + 'clustering_params.py', L + 'central_privacy_utils.py', L + 'clustering_algorithm.py'],
     [('PrivacyCalculator.from_budget_split / from_mechanism / validate_accounting', L + 'privacy_calculator.py'), ('get_private_count / get_private_sum', L + 'central_privacy_utils.py')],
     ['noise draws (distribution and scale)', 'PrivacyCalculator parameters'])

prop('C17', "Clustering releases only clipped, noisy aggregates of the data",
     "Every point's contribution to a released coreset is clipped to the data radius before it is summed, coreset points and weights are computed from noisy sums and noisy counts only, and centers are a function of the coreset alone. Weights are positive and every leaf yields exactly one coreset point inside the radius bound. A point that leaves a leaf moves the released sum by at most the radius. Reported labels and losses assign each datapoint to its nearest center, and clustering metrics count the pairs they are named after.",
     ['inputs', 'histories'], 'every dataset (including points outside the radius), noise draw, parameters and k',
     'The end-to-end test is not even runnable in CI here; unit tests check one clipped vector.',
     [L + 'clustering_algorithm.py', L + 'central_privacy_utils.py', L + 'clustering_params.py', L + 'lsh_tree.py'],
     [('get_private_coreset, private_lsh_clustering, ClusteringResult, ClusteringMetrics', L + 'clustering_algorithm.py'), ('Data.clip_by_radius, get_private_average', L + 'central_privacy_utils.py')],
     ['coreset handed to k-means', 'ClusteringResult'])

prop('C18', "Auditorium mechanisms follow their published definitions",
     "Each sparse-vector variant answers the queries in order (positive exactly when the noised query reaches the noised threshold), gives no further answer once its cut-off number of positives is reached, and uses exactly the threshold and query noise of its published definition (including the published flaws of the flawed variants, and a fresh threshold noise after a positive only where published). The mean and noisy-max mechanisms add noise of the scale their declared epsilon and sensitivity require, to values clipped to the declared range, under every declared neighbouring relation. The aggregation wrapper spends its whole declared budget on each sample and releases every metric of every partition. A mechanism's output depends on the data only through its declared queries, the data are left unchanged, and the samples drawn are independent.",
     ['inputs', 'histories'], 'every query sequence, threshold, cut-off, noise draw and configuration',
     'No auditorium test is in the runnable suite; the existing tests check single noise settings.',
     [A + 'mechanisms/sparse_vector_technique.py', A + 'mechanisms/mean.py', A + 'mechanisms/noisy_max.py', A + 'mechanisms/mechanisms_utils.py'],
     [('SparseVectorTechniqueMechanism variants', A + 'mechanisms/sparse_vector_technique.py'), ('MeanMechanism, NoisyMaxMechanism', A + 'mechanisms/')],
     ['mechanism(data, num_samples)', 'noise requests'])

prop('C19', "The auditorium test runner's verdict follows from its trials",
     "The runner reports 'privacy violation found' exactly when in some trial within its limit the larger of the two estimates (one for each order of the neighbouring pair) was rejected by the tester; it stops at the first such trial and otherwise runs every allowed trial and reports that the limit was reached. The reported estimates are, in order, the larger estimate of each trial run. Each trial draws samples of the proposed pair's own outputs exactly once per dataset, post-processes them as configured, and compares them in both orders with the configured failure probability; the generator is told the estimate of the trial it proposed (and nothing before the first). A failure of the generator, mechanism or tester in a trial reaches the caller: it never turns into a verdict. A second test with the same runner starts anew.",
     ['histories', 'fault_sequences'], 'every sequence of trial outcomes (estimates, rejections, failures), trial limits and tester thresholds',
     'No auditorium test is runnable here; the loop is a small state machine whose behaviour over arbitrary outcome sequences is untested.',
     [A + 'privacy_test_runner.py', A + 'configs/privacy_test_runner_config.py'],
     [('PrivacyTestRunner.test_privacy', A + 'privacy_test_runner.py')],
     ['PrivacyTestRunnerResults', 'calls on generator/mechanism/tester'])

prop('C20', "Auditorium testers and generators reject only on valid evidence",
     "A property tester's estimate is exactly its published statistic of the samples minus its declared slack for the failure probability: the histogram and hockey-stick statistics are the plug-in divergence of the samples, the MMD and Renyi ones the published kernel and variational values; models are trained anew for each estimate, on samples disjoint from the ones judged, and the classes they judge have the weights the property's epsilon requires, also for samples of different sizes. The property is rejected only when the estimate exceeds its threshold. Equal samples and samples too few for the slack never yield a rejection; unusable samples and parameters are refused. Dataset generators always propose neighbouring pairs under the configured relation with values in the configured ranges, keep a proposal until its result is reported, and report each result (a zero included) once, to the proposal it belongs to.",
     ['inputs'], 'every pair of sample sets, epsilon/delta/alpha property, confidence, bin edges and generator state',
     'No auditorium test is runnable here; validity is a for-all over samples and parameters.',
     [A + 'testers/histogram_tester.py', A + 'testers/hockey_stick_tester.py', A + 'testers/divergence_tester.py', A + 'testers/property_tester_utils.py', A + 'generators/'],
     [('HistogramPropertyTester', A + 'testers/histogram_tester.py'), ('HockeyStickPropertyTester', A + 'testers/hockey_stick_tester.py'), ('DivergencePropertyTester', A + 'testers/divergence_tester.py')],
     ['estimate_lower_bound', 'reject_property', 'generated datasets'])

prop('C21', "Independent accountants never contradict each other",
     "For any history both support, the epsilon of the RDP accountant is never below the optimistic PLD epsilon at the same delta, and pessimistic PLD never below optimistic; likewise for delta. More noise, a lower sampling rate or fewer steps never increases a reported epsilon or delta (up to the documented discretization error of the PLD, and with integer RDP orders). Different descriptions of one mechanism cost the same: sampling with probability 1 or 0, sampled Gaussians as Gaussian mixtures, repeated Gaussians as one.",
     ['histories', 'configurations'], 'every history over Gaussian, Laplace, randomized response and Poisson-subsampled mechanisms, every delta and epsilon',
     'No test compares the two accountants; a one-sided error in either is invisible to its own regression constants.',
     [D + 'rdp/rdp_privacy_accountant.py', D + 'pld/pld_privacy_accountant.py', D + 'pld/privacy_loss_distribution.py'],
     [('RdpAccountant', D + 'rdp/rdp_privacy_accountant.py'), ('PLDAccountant', D + 'pld/pld_privacy_accountant.py')],
     ['get_epsilon', 'get_delta of both accountants'])

G = 'go/'
prop('C22', "Go aggregations release each contribution once, with its full noise",
     "For every aggregation of the Go library (Count, BoundedSum of integers and reals, BoundedMean, BoundedVariance, BoundedStandardDeviation, BoundedQuantiles, PreAggSelectPartition) and every history of adding, merging, serializing, deserializing and reading results: the noise is asked once per query, with the clamped contributions' statistic, the full L0 and LInf sensitivity and shares that add up to exactly the declared epsilon and delta; a result is released at most once (also below a pre-threshold); merged and deserialized objects hold exactly the contributions of their parts and are as usable as a new one; merging different configurations, using an object after it was merged, serialized or read, and invalid constructor arguments are refused and change nothing. NaN contributions are ignored; results and confidence intervals stay within what the bounds allow.",
     ['histories', 'inputs', 'configurations'], 'every history of operations on up to a few objects, every option, every bounded input',
     'The Go tests are not part of the stable tests here and exercise single objects with fixed options.',
     [G + 'dpagg/count.go', G + 'dpagg/sum.go', G + 'dpagg/mean.go', G + 'dpagg/variance.go', G + 'dpagg/standard_deviation.go', G + 'dpagg/quantiles.go', G + 'dpagg/select_partition.go', G + 'dpagg/aggregation_state.go', G + 'dpagg/coders.go'],
     [('Count, BoundedSum, BoundedMean, ...', G + 'dpagg')],
     ['New*, Add, Merge, GobEncode, GobDecode, Result, ThresholdedResult, ComputeConfidenceInterval of package dpagg'])
prop('C23', "Go partition selection keeps partitions as private and often as possible",
     "PreAggSelectPartition keeps a partition with n privacy units with the largest probability that (epsilon, delta) per partition (budget divided by the partitions contributed to) allows: never more (privacy: probabilities for n and n+1 satisfy the (epsilon, delta) inequalities in both directions, 0 units are never kept) and never less (optimality), for every n; with a pre-threshold, counts below it are dropped and the others are treated as if they were reduced by the pre-threshold minus one; the hard threshold it reports is the least n that is kept for certain; above three partitions contributed to, thresholding with Gaussian noise is used when it keeps more. Thresholded counts and sums are released only from the threshold (rounded up) on.",
     ['inputs', 'configurations'], 'every epsilon, delta, number of privacy units, partitions contributed to and pre-threshold',
     'The optimal selection probability is a recursion over n with two regimes; tests check a few values.',
     [G + 'dpagg/select_partition.go', G + 'dpagg/count.go'],
     [('keepPartitionProbability', G + 'dpagg/select_partition.go')],
     ['PreAggSelectPartition.ShouldKeepPartition', 'GetHardThreshold', 'ThresholdedResult'])
prop('C24', "Go noise has the scale, threshold and interval its parameters call for",
     "The Go noise mechanisms draw exactly the distribution that (epsilon, delta, L0, LInf) calls for: Laplace noise of scale L0*LInf/epsilon, Gaussian noise of the least sigma whose exact delta is at most delta, on a grid that does not depend on the value, for every parameter including extreme ones (a sensitivity that cannot be represented is refused); Threshold is the least threshold leaking at most the given delta over all partitions and DeltaForThreshold its inverse; confidence intervals hold at the requested level and are no wider than necessary, also where integers exceed what a real represents; the random primitives are uniform, geometric and fair; invalid arguments are refused by every entry point.",
     ['inputs', 'configurations'], 'every noise, value, sensitivity, epsilon, delta, alpha',
     'Statistical tests of a few parameter sets cannot tell an understated tail, a wrong regime or an overflow.',
     [G + 'noise/laplace_noise.go', G + 'noise/gaussian_noise.go', G + 'noise/secure_noise_math.go', G + 'rand/rand.go', G + 'checks/checks.go'],
     [('SigmaForGaussian', G + 'noise/gaussian_noise.go'), ('Laplace', G + 'noise/laplace_noise.go')],
     ['AddNoiseInt64', 'AddNoiseFloat64', 'Threshold', 'DeltaForThreshold', 'ComputeConfidenceInterval*', 'rand.*'])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for p in P:
      f.write(json.dumps(p) + '\n')
