_L = ('TLA+ state machine (Ledger.tla) model-checked exhaustively with TLC; its '
      'behaviours replayed on the real accountants and recorded runs validated '
      'against it (trace validation)')
_N = ('Exhaustive for the bounded event universes (%s); beyond them recorded '
      'random histories validated step by step. Trusts TLC, the term<->event '
      'projection and (C03) single-mechanism values, which are C05/C10.')
_P = ('TLA+ specification of privacy loss distributions in exact integer '
      'arithmetic (Pld.tla), laws model-checked exhaustively with TLC; every '
      'enumerated behaviour replayed on the real PMF/PLD objects, larger '
      'random ones against the same definitions in exact rationals')
_PN = ('Exhaustive in the model over %s; random beyond. Float comparisons '
       'within stated tolerances.')
_R = ('TLA+ specification of Renyi moments and conversions in exact rationals '
      '(Rdp.tla), theorems model-checked with TLC and every row replayed on '
      'the code; recorded curves validated by TLC against the curve laws '
      '(TraceCurves.tla) with multiple-precision oracles')
CLAIMS = {
    'C01': (_L, 'model_checking', _N % 'depth 2 core, depth 1 wide, deeper sampled'),
    'C02': (_L, 'model_checking', _N % 'about 12000 event terms x 6 accountants'),
    'C03': (_L, 'model_checking', _N % 'symbolic cost algebra'),
    'C04': (_L, 'model_checking', _N % 'depth 2 core, depth 1 wide, deeper sampled'),
    'C07': (_P, 'model_checking', _PN % 'every pair of distributions on up to 4 outcomes (rounding and connect-the-dots)'),
    'C08': (_P, 'model_checking', _PN % 'every history of compositions up to the bound, with and without truncation'),
    'C09': (_P, 'model_checking', _PN % 'every small distribution and query'),
    'C05': (_R, 'model_checking', 'Exact for dyadic noise and orders up to 8, random parameters beyond with numerical oracles (relative 1e-4 or better). Oracles are trusted numerics (mpmath, trapezoid rule).'),
    'C06': (_R, 'model_checking', 'Exact for every pair of distributions on up to 4 outcomes; random curves, orders and targets beyond.'),
    'C10': ('TLA+ specification of mechanisms as pairs of output distributions with and without subsampling (MCMech.tla), laws model-checked with TLC in exact integers and every row replayed on the code; recorded curves of random mechanisms validated by TLC (TraceCurves.tla) against the curves the specified laws give',
            'model_checking', 'Exact for discrete Laplace with parameters m ln 2 and randomized response; random parameters beyond, relative 1e-7. Gaussian tails trust scipy.'),
    'C11': ('TLA+ state machine of the bracket growing and root search (MCCalib.tla), contract model-checked with TLC over every loss profile, bracket and tolerance of the bounded grid; every scenario replayed on calibrate_dp_mechanism with a stub accountant, further profiles and the real accountants judged by the contract',
            'model_checking', 'Exhaustive over monotone step profiles with a plateau on a grid, both orientations, brackets and kinds; random steep/flat profiles and real accountants beyond.'),
    'C12': ('TLA+ state machine of growing a guess and bisecting (MCSearch.tla), contract and termination model-checked with TLC over every bounded scenario; every scenario replayed on inverse_monotone_function, and the noise searches judged by the same contract with exact privacy curves',
            'model_checking', 'Exhaustive over crossings, bounds, guesses, tolerances on a grid; random parameters beyond. Composed Laplace and subsampled Gaussian within 2 percent of optimal (documented heuristic), others 1e-6.'),
    'C13': ('TLA+ specification of composing dominating pairs in exact integers (MCCompose.tla); the optimal composition theorem and monotonicity model-checked with TLC; every history replayed on the PLDs and on advanced_composition, recorded curves validated by TLC (TraceCurves.tla)',
            'model_checking', 'Exhaustive for epsilons that are multiples of ln 2 and delta quarters/halves up to the integer bound; random parameters (k up to 3000) against multiple-precision sums beyond.'),
    'C14': ('TLA+ specification of events and named tuples as terms with conversion, reordering, tampering and restoring as transitions (MCTuple.tla), model-checked with TLC; every row replayed on the classes, recorded conversions of random event trees validated by TLC (TraceTuple.tla)',
            'model_checking', 'Exhaustive over a universe of about 1300 event trees of depth up to 4 covering every class and container nesting; random trees of depth up to 6 validated as traces.'),
    'C15': ('TLA+ state machine of the prefix tree (MCCluster.tla: noisy counts, branching, pruning, leaves), invariants and termination model-checked with TLC over every bounded dataset, threshold and noise; every behaviour with noise a function of the count replayed on LshTree and get_private_coreset, random recorded trees judged by TLC (TraceCluster.tla)',
            'model_checking', 'Exhaustive for up to 3 points and depth 2 (thorough: 5 points / depth 3) with three noise values and three threshold pairs; random trees of up to 60 points and depth 20 as traces.'),
    'C16': ('The same TLA+ state machine (MCCluster.tla) bounds by depth + 1 the noised counts a point takes part in, model-checked with TLC; recorded runs of the whole clustering are validated against it (TraceCluster.tla) and the noise they drew is composed exactly and compared with the declared budget by TLC (TraceCurves.tla)',
            'model_checking', 'Random budgets (epsilon .05-10, delta 1e-9-.1), depths up to 20, multipliers and radii; the composed cost of discrete Laplace and Gaussian noise is summed exactly. Optimality is relative to accounting counts as Laplace noise (0.2 percent).'),
    'C17': ('TLA+ specification of what a leaf releases and of labels, losses and metrics (MCCoreset.tla) with sensitivity as an action property, model-checked with TLC; every row replayed on the code, recorded releases with known noise compared with the specified coreset and validated by TLC (TraceCurves.tla)',
            'model_checking', 'Exhaustive for up to 3 points on a line / of a small grid, 3 centers and 2 labels; random datasets, noise, depths and clusterings beyond. k-means itself is replaced by a recorder.'),
    'C18': ('TLA+ specification of the sparse vector variants, noisy max, mean and aggregation as machines over noise draws (MCAudit.tla), model-checked with TLC; every emitted behaviour replayed on the real mechanisms with the noise source replaced by the scripted draws, plus the law of the noise they really draw',
            'model_checking', 'Exhaustive for up to 4 queries, 3 levels of noise and every cut-off; random data, noise and parameters beyond. tensorflow, vizier and pipeline_dp are not installed and replaced by recorders.'),
    'C19': ('TLA+ state machine of the test runner with a script of estimates and a fault at any point of any trial (MCRunner.tla, safety and termination), model-checked with TLC; every emitted behaviour replayed through PrivacyTestRunner.test_privacy with recording generator, mechanism and tester',
            'model_checking', 'Exhaustive for up to 3 trials, 3 estimates per direction and 7 fault points; random longer scripts, also with the study driven generator.'),
    'C20': ('TLA+ specifications of the testers\' exact statistics (MCTesters.tla) and of the generator protocol (MCGen.tla), model-checked with TLC (duality, data processing, variational bound; each result delivered once); every row replayed on the real testers and generators, recorded trainings and evaluations validated by TLC (TraceAudit.tla)',
            'model_checking', 'Exhaustive for up to 4 samples of 3 outcomes, and 4 calls of a generator with 3 results and any refused requests; random samples, sizes, orders, bandwidths and parameters beyond. Learning is replaced by arbitrary predictions.'),
    'C21': ('TLA+ specification of the order on histories (MCOrder.tla: a step less, more noise, a lower rate), model-checked with TLC with exact costs; its behaviours are walked with real mechanisms through the PLD and RDP accountants, and TLC validates the recorded curves against each other (TraceCurves.tla)',
            'model_checking', 'Exhaustive for the finite instance (up to 3 steps of 3 noise levels and 2 rates, thorough: 4), whose exact deltas are replayed; random walks, noises, rates and repetitions for the real mechanisms.'),
    'C22': ('TLA+ object system of the Go aggregations (GoAgg.tla: contributions, merging, serializing, reading, what reaches the noise), laws model-checked with TLC on simulated histories; every history and every constructor argument row replayed on the compiled Go library with a recording noise',
            'model_checking', 'Histories of up to 9 operations over several objects of all kinds sampled by TLC (thousands), every class of constructor argument; glog and gonum are replaced by stubs. Quantile queries of an invalid rank and merging an object with itself are not claimed.'),
    'C23': ('TLA+ specification of optimal partition selection in exact fractions (GoPartition.tla): privacy in both directions, optimality and growth model-checked with TLC; every row replayed on the compiled Go library by frequencies and hard thresholds, random parameters against the same recursion in multiple precision',
            'model_checking', 'Exact for epsilons that are multiples of ln 2 and dyadic deltas; frequencies at 5.5 sigma.'),
    'C24': ('TLA+ specification of which arguments the noises accept (MCGoNoiseArgs.tla), every row replayed on the compiled Go library; recorded sigmas, thresholds, intervals and sample distributions validated by TLC (TraceCurves.tla) against multiple-precision closed forms',
            'model_checking', 'Every class of argument; random and extreme parameters for calibration; sample distributions at 5.5 sigma. gonum\'s normal distribution is a stub.'),
}
NOT_CLAIMED = {}
