"""Single source of properties.jsonl, MANIFEST.json and of the check driver's
configuration.  `python3 tools/props.py` rewrites the two files."""
import json
import os

PROPS = {}


def P(pid, title, statement, over, text, why, files, mechanism, harness, bounds, technique,
      note="", state=None, observe=None, **cfg):
    PROPS[pid] = dict(
        meta={"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}},
        harness=harness, bounds=bounds, technique=technique, note=note, **cfg)


L = "lib/hnco/"

P("C01", "Bit vector, sparse vector and bit matrix algebra over F2 is exact",
  "Every operation on bit vectors, sparse bit vectors and bit matrices (weight, distance, dot product, addition, flips, conversions to and from integers, strings and booleans, transposition, row and column operations, echelon form, rank, linear solve, inversion, product) returns exactly its mathematical value over F2 for all sizes and contents. "
  "Solving and inverting report success exactly when the matrix is invertible, and then the returned solution or inverse satisfies the defining equation. Validity predicates (vectors, matrices, identity, triangular, sparse vectors, permutations) accept exactly the valid objects.",
  ["inputs"], "all vectors, pairs of vectors, right hand sides and rectangular matrices",
  "The unit tests draw a few random matrices; the algebra must hold for every matrix shape, singular ones and pivoting orders included.",
  [L + "bit-vector.hh", L + "bit-vector.cc", L + "bit-matrix.hh", L + "bit-matrix.cc", L + "sparse-bit-vector.cc", L + "permutation.cc"],
  [("bit vector functions", L + "bit-vector.cc"), ("elimination", L + "bit-matrix.cc:bm_row_echelon_form, bm_solve, bm_invert")],
  ["c01.cc"],
  "all pairs of bit vectors up to size 6 (thorough 8), all vectors up to 12 (16), all matrices with at most 16 (20) entries with all right hand sides, listed vectors up to size 1025 and listed matrices up to 129x129",
  "exhaustive enumeration of operands on the real code against a reference model")

P("C02", "Maps between hypercubes compute their definition",
  "Translations, permutations, linear, affine, injection, projection and transvection-sequence maps, and compositions of maps, send every input vector to the output their mathematical definition gives, and report the right input and output sizes. "
  "A map that declares itself surjective is onto (for linear and affine maps the declaration is exact), inverting a transvection-sequence map gives its two-sided inverse, and a projection undoes the injection with the same bit positions. "
  "Transvections and sequences of them act on vectors and matrices as the products of the matrices they stand for, and the commutation and disjointness tests agree with those matrices.",
  ["inputs", "histories"], "all inputs of all maps that any random draw can produce, including objects drawn again with another size",
  "The tests check a few random maps of one size; the definition must hold for every parameter and input.",
  [L + "maps/map.hh", L + "maps/map.cc", L + "maps/transvection.cc"],
  [("map member functions", L + "maps/map.cc"), ("transvection products", L + "maps/transvection.cc")],
  ["c02.cc"],
  "all outcomes of the random draws for translations up to 8 bits, permutations up to 5, linear and affine maps with at most 9 (12) entries, transvection sequences up to length 4 in dimension up to 5 (depth bounded), all position lists up to 5 bits, all pairs of map kinds composed; listed sizes up to 130; permutations, translations and projections of up to 520 bits on listed vectors",
  "stateless exploration of all random outcomes on the real code against a reference model")

P("C03", "Random generators deliver the promised structure for every outcome",
  "Whatever the random outcomes and whatever the object held before, a random bit vector of given weight has that weight, a random permutation is a permutation, a linear or affine map requested surjective is surjective (or an error is thrown when that is impossible), and a random transvection sequence has the requested length (clipped to the largest possible one) and the requested structure: pairwise commuting, unique source per destination, unique destination per source, disjoint, or consecutively non commuting. "
  "Conversely every object with that structure can be drawn: weights, permutations, matrices, translation vectors and transvections are generated with full support.",
  ["inputs", "histories"], "all outcomes of the random generator, all dimensions and lengths, fresh and reused objects",
  "A test sees the few outcomes of its seed; the structural promises must hold for all of them.",
  [L + "maps/transvection.cc", L + "maps/map.cc", L + "bit-vector.cc", L + "permutation.hh", L + "bit-matrix.cc"],
  [("samplers", L + "maps/transvection.cc:ts_random*"), ("weighted sampling", L + "bit-vector.cc:bv_random")],
  ["c03.cc"],
  "all random outcomes: weighted vectors up to 9 (12) bits, permutations up to 7 (8), matrices up to 3x3; sequences in dimension up to 6 and length up to 10 with a bounded prefix fully branched and one further departure; reuse over all pairs of shapes and modes; listed dimensions up to 257",
  "stateless exploration of all random outcomes (choice points in place of the generator) on the real code")

P("C04", "Iterators enumerate their set exactly once, from any prior state",
  "A pass over a hypercube iterator visits every bit vector of the given size exactly once, and a pass over a neighborhood iterator visits exactly the vectors at the advertised Hamming distance of the origin, each once. "
  "This holds for every origin, dimension and radius, also when a previous pass was abandoned half-way and the iterator re-initialised, and asking whether there is a next element never changes the enumeration. In dimension zero the plain hypercube iterator is empty and the extended one yields the empty vector once.",
  ["inputs", "histories"], "all dimensions, radii, origins and points at which a pass is abandoned",
  "The tests count the elements of a pass for one random origin; they do not compare sets nor restart iterators.",
  [L + "iterator.cc", L + "neighborhoods/neighborhood-iterator.cc"],
  [("binary adder", L + "iterator.cc"), ("combination enumeration", L + "neighborhoods/neighborhood-iterator.cc")],
  ["c04.cc"],
  "hypercubes up to 12 (16) bits, single flips up to 8 (10) bits and spheres up to 7 (9) bits for all origins and radii, every abandon point up to 40, listed dimensions up to 130",
  "exhaustive enumeration of pass histories on the real iterators against a set model")

P("C05", "Random neighborhoods propose only legal moves and stay synchronised",
  "Every move of a random neighborhood, whether proposed, applied in place or mapped, flips a number of distinct bits that is legal for it: exactly one, between one and the radius, exactly the radius, or at least one for standard bit mutation unless no mutation is allowed; every legal set of bits can be drawn and the reported flipped bits are exactly those that changed, with the announced distribution (uniform over bits or sets, binomial, ball, sphere). "
  "After a proposal is kept the origin equals the candidate, after it is forgotten the candidate equals the untouched origin, for every sequence of operations and every change of radius or mutation rate.",
  ["inputs", "histories"], "all random outcomes and all sequences of propose, keep, forget, mutate, map and set origin",
  "No test covers the neighborhoods directly; algorithms exercise them with one seed.",
  [L + "neighborhoods/neighborhood.hh", L + "neighborhoods/neighborhood.cc"],
  [("propose, keep, forget", L + "neighborhoods/neighborhood.hh"), ("samplers", L + "neighborhoods/neighborhood.cc")],
  ["c05.cc"],
  "all operation sequences of length 4 with the first 6 (8) choices fully branched and one further departure, sequences of length 7 with fewer departures, dimension 1 to 5, all radii, four mutation rates plus 0 and 1; listed dimensions up to 130; the exact distribution of one mutation in dimension up to 4 (5), computed from the probability of every execution; support of ball and sphere moves up to 100 bits",
  "stateless exploration of operation sequences and random outcomes on the real code against a state machine model; distributions compared exactly")

P("C06", "Benchmark functions compute their definition on every bit vector",
  "For every bit vector of the declared size, evaluating a function of the collection (OneMax, LeadingOnes, Needle, HIFF, Ridge, Plateau, jumps, four and six peaks, traps, long path, cancellation functions, LABS, linear, Walsh expansions, Ising models, NK landscapes, QUBO, MAX-SAT and NAE-3-SAT, factorization, partition, equal products, TSP, sudoku) returns exactly the value of its definition for the given parameters, and invalid parameters are rejected. "
  "The value does not depend on what the object evaluated, described or was generated with before, safe evaluation agrees with plain evaluation, and the argument is left untouched.",
  ["inputs", "histories"], "all bit vectors of all functions, sizes and parameters, after any previous evaluations or generations of the same object",
  "Unit tests check the maximiser or a few points; a wrong value elsewhere in the domain or left-over state goes unseen.",
  [L + "functions/collection/"],
  [("evaluate member functions", L + "functions/collection/*.cc")],
  ["c06.cc"],
  "all vectors up to 12 (16) bits for parameterless functions with all parameter values, up to 10 (14) bits for six weight families, all ordered pairs of evaluations up to 5 bits, all factorizations of numbers below 64 (128), all clauses over 3 (4) variables, all 3-variable QUBO supports, all tours up to 6 cities, all NK neighborhoods up to 5 sites, listed sizes up to 130; theory functions of up to 700 bits and weights near 2^30 on listed vectors",
  "exhaustive enumeration of arguments, parameters and evaluation histories on the real code against definitions written independently")

P("C07", "A declared maximum is the true maximum and is attained",
  "Whenever a function, decorated or not, says that its maximum is known, no bit vector evaluates above the returned maximum and some bit vector reaches it exactly; when it says the maximum is unknown, asking for it throws. "
  "Controllers keep the maximum of the function they wrap, composition with a map keeps it exactly when that is sound (surjective maps), negation, noise and parsed modifiers never announce a wrong one, and stop-on-maximum fires exactly on maximisers. The long path announces its maximum exactly as long as it can be represented without rounding.",
  ["inputs", "compositions"], "all bit vectors of all functions with all parameters and all decorators and maps",
  "The tests evaluate the known maximiser of a few sizes; that nothing lies above it, through decorators and maps, needs the whole domain.",
  [L + "functions/collection/", L + "functions/modifiers/modifier.hh", L + "functions/controllers/controller.hh"],
  [("has_known_maximum, get_maximum", L + "functions/collection/*.hh"), ("FunctionMapComposition::has_known_maximum", L + "functions/modifiers/modifier.hh")],
  ["c07.cc"],
  "all vectors up to 12 (16) bits with all parameter values, 18 bits for cancellation functions, all linear and affine maps with at most 9 (12) entries, all injections and projections up to 5 bits, all long paths with k <= 12 and n/k <= 64, listed maximisers and their neighbors up to 130 bits",
  "exhaustive enumeration of arguments, parameters and decorator stacks on the real code",
  groups=["core", "fparser"])

P("C08", "Incremental evaluation equals full evaluation",
  "For every function or decorator that declares incremental evaluation, every bit vector x and every set of flipped bits (none, several, all included), evaluating incrementally from the value of x gives the value of the flipped vector, and can be chained indefinitely and mixed with full evaluations, also after the instance was reloaded, regenerated or had its boundary conditions changed. "
  "A function or decorator that does not provide incremental evaluation says so and throws when asked.",
  ["inputs", "histories"], "all bit vectors, all sets of flipped bits, all chains of increments, all decorators",
  "Tests flip random bits of one random instance; boundary sites, adjacent flips and decorators need all subsets.",
  [L + "functions/collection/theory.cc", L + "functions/collection/linear-function.cc", L + "functions/collection/walsh/walsh-expansion-1.cc", L + "functions/collection/ising/", L + "functions/modifiers/modifier.cc", L + "functions/controllers/controller.cc"],
  [("evaluate_incrementally", L + "functions/collection/ising/*.cc, theory.cc, linear-function.cc")],
  ["c08.cc"],
  "all vectors and all flip sets up to 7 (9) bits for six weight families, all lattice shapes up to 9 sites with both boundary conditions, two chained steps, ten decorators up to 5 bits, listed vectors and flips up to 130 bits",
  "exhaustive enumeration of vectors, flip sets and call histories on the real code against the definition",
  groups=["core", "fparser"])

P("C09", "Evaluation counts and budgets are exact for every history",
  "A call counter reports exactly the number of evaluations that went through it, be they plain, incremental or updates after safe (parallel) evaluations, and safe evaluations alone count nothing. "
  "A function on a budget of b lets exactly b evaluations of any kind reach the decorated function and answers every further one with the last-evaluation exception. This holds for every order in which counters, budgets, trackers, targets and caches are stacked and every sequence of calls, also after exceptions.",
  ["histories", "compositions"], "all stacks of controllers and all sequences of plain, incremental and safe evaluations",
  "Algorithms exercise one stack and one kind of evaluation each; off-by-one budgets or missed updates need all mixtures.",
  [L + "functions/controllers/controller.hh", L + "functions/controllers/controller.cc"],
  [("CallCounter, OnBudgetFunction", L + "functions/controllers/controller.cc")],
  ["c09.cc"],
  "all stacks of up to 3 of 8 controller variants, all call sequences of length 4 (5) for single controllers, 3 (4) for pairs, 3 for triples, with all 2-bit vectors; budgets up to 6 with all sequences and listed budgets up to 100000",
  "exhaustive exploration of call histories on the real controllers against a model of the stack",
  state=[("_num_calls", "number of evaluations done", L + "functions/controllers/controller.hh")])

P("C10", "Targets, progress tracking and caching report what really happened",
  "Stop-on-target raises its exception exactly at the first and every evaluation whose value reaches the target, and its trigger is the very bit vector evaluated with its value, also with incremental evaluation. The progress tracker's last improvement is the best value seen so far with the rank of the evaluation that first reached it and, when recorded, the corresponding bit vector; its log lists exactly the improvements. "
  "A cache returns for every vector the value of the function, evaluates each vector once, forwards updates after parallel evaluations to what it decorates, and reports the exact lookup ratio. All of this holds in every stacking order and for every history.",
  ["histories", "compositions"], "all stacks of controllers, all call sequences, all value orders including ties and infinities",
  "Tests look at the outcome of one run; the defects are in combinations (incremental evaluation with a target, cache with parallel evaluation).",
  [L + "functions/controllers/controller.hh", L + "functions/controllers/controller.cc"],
  [("StopOnTarget, ProgressTracker, Cache", L + "functions/controllers/controller.cc")],
  ["c10.cc"],
  "all stacks of up to 3 of 6 controller variants, all call sequences of length 4 (5) for single controllers with three value tables, 3 (4) for pairs, 3 for triples; all 8 tracker flag combinations; caches of 1 to 4 bits with all sequences of 4 vectors and listed vectors up to 130 bits",
  "exhaustive exploration of call histories on the real controllers against a model of the stack",
  state=[("_last_improvement", "best value so far and when it was found", L + "functions/controllers/controller.hh"), ("_trigger", "vector that reached the target", L + "functions/controllers/controller.hh")])
P("C12", "Local search and enumeration algorithms follow their rule at every step",
  "For every function, starting point, neighborhood and sequence of random choices: every candidate evaluated is a legal neighbor of the current point; random local search moves exactly when the candidate is at least as good (strictly better in strict mode) and stops after the announced patience; hill climbers take respectively the first and the best strictly improving neighbor and stop exactly at local maxima; "
  "simulated annealing always accepts improvements and follows its acceptance rule; a random walk always moves; complete search evaluates each of the 2^n vectors once, random search draws independent uniform vectors, and the interactive search evaluates exactly the vectors typed and ends with its input. The announced number of evaluations is spent, the solution is the best the algorithm is supposed to remember, with its true value, whether the run ends or is interrupted at any evaluation, with full or incremental evaluation, at first use or when the object is used again.",
  ["histories", "random draws"], "all functions, all sequences of random choices, all interruption points",
  "A test follows one random trajectory on one function; the rules are about every trajectory, ties and interruption points.",
  [L + "algorithms/local-search/random-local-search.cc", L + "algorithms/local-search/first-ascent-hill-climbing.cc", L + "algorithms/complete-search.cc"],
  [("RandomLocalSearch", L + "algorithms/local-search/random-local-search.cc"), ("RandomWalk", L + "algorithms/local-search/random-walk.cc"), ("SimulatedAnnealing", L + "algorithms/local-search/simulated-annealing.cc"),
   ("FirstAscentHillClimbing, SteepestAscentHillClimbing", L + "algorithms/local-search/steepest-ascent-hill-climbing.cc"), ("CompleteSearch, RandomSearch", L + "algorithms/complete-search.cc")],
  ["c12.cc"],
  "all 75 weak orders of the 4 vectors of 2 bits and listed landscapes up to 4 bits, every neighborhood family, all answers of the first draws and all single deviations after, interruptions at several evaluations, two consecutive uses of the object",
  "exhaustive exploration of the random choices of the real algorithms on all small landscapes, each execution checked against the rule",
  state=[("_solution", "best solution", L + "algorithms/algorithm.hh"), ("_neighborhood", "current point and candidate", L + "algorithms/local-search/local-search-algorithm.hh")])

P("C13", "Evolutionary algorithms select, vary and replace as their rule says at every generation",
  "For every function and sequence of random choices: (mu+lambda) and (mu,lambda) EAs keep at each generation mu best individuals of the announced pool, every offspring is a legal mutant of a parent (the no-mutation flag and rates 0 and 1 included); the genetic algorithm's parents are winners of tournaments of the announced size, without replacement within a round, offspring are legal crossovers and mutants, and parents survive only through selection; "
  "the (1+1) EA accepts exactly candidates at least as good; the self-adjusting and two-rate EAs change their mutation rate by exactly the announced factors within the announced bounds; the (1+(lambda,lambda)) GA runs its two phases and accepts the best crossover offspring when at least as good; the information-theoretic EA updates its center by the chosen replacement and its rate by its learning rule. "
  "The announced number of evaluations is spent, and the solution is the best evaluated vector (with its true value) of every completed generation, in first and later uses of the object and after interruptions.",
  ["histories", "random draws"], "all functions, all sequences of random choices, all population sizes and interruption points",
  "Tests check that an easy function is maximized, which many wrong selection or replacement rules still do.",
  [L + "algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc", L + "algorithms/evolutionary-algorithms/genetic-algorithm.cc", L + "multiobjective/algorithms/random-selection.hh"],
  [("MuPlusLambdaEa, MuCommaLambdaEa", L + "algorithms/evolutionary-algorithms/mu-comma-lambda-ea.cc"), ("GeneticAlgorithm", L + "algorithms/evolutionary-algorithms/genetic-algorithm.cc"),
   ("OnePlusOneEa, SelfAdjustingOnePlusOneEa, TwoRateOnePlusLambdaEa", L + "algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.cc"), ("OnePlusLambdaCommaLambdaGa", L + "algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc"), ("InformationTheoreticEa", L + "algorithms/evolutionary-algorithms/it-ea.cc")],
  ["c13.cc"],
  "populations of 1 to 5 individuals, 1 to 3 generations (up to 6 for the (1+1) family), 2 to 4 bits (8 to 20 for the two-rate EA), selected weak orders and landscapes, all answers of the first 3 to 5 (7) draws and all single deviations after, two uses of the object, interruptions; two-rate EA below 8 bits is excluded (its rate bounds are then contradictory)",
  "exhaustive exploration of the random choices of the real algorithms, each execution checked against all populations the rule allows",
  state=[("_parents, _offsprings", "populations", L + "algorithms/evolutionary-algorithms/mu-plus-lambda-ea.hh"), ("_mutation_rate", "self-adjusted rates", L + "algorithms/evolutionary-algorithms/self-adjusting-one-plus-one-ea.hh")])

P("C14", "Estimation of distribution algorithms learn and sample the model they announce",
  "UMDA, PBIL, NPS-PBIL, MMAS, the compact GA, the two random affine map UMDAs, MIMIC, the herding EA and Boltzmann machine PBIL update their model at every iteration from exactly the individuals their rule names (best, worst, all) with the announced rate and bounds, and the next generation is distributed exactly as the model says (product of bits, chain of conditional probabilities, herding rule, Gibbs sampler in its three modes, latent space of the random affine map). "
  "Walsh moments (triangular and full), their norms and distances, herding and Gibbs samplers compute their definition, and both representations agree. The announced number of evaluations is spent and the solution is the best evaluated vector, in first and later uses of the object.",
  ["histories", "probability distributions"], "all functions, all sequences of random choices, all models reachable",
  "A distribution or a learning rule is a statement over all random outcomes; a test sees one sample, and an algorithm with a broken model still finds the maximum of easy functions.",
  [L + "algorithms/probability-vector/probability-vector.cc", L + "algorithms/mimic.cc", L + "algorithms/walsh-moment/gibbs-sampler.cc"],
  [("Umda, Pbil, NpsPbil, Mmas, CompactGa, RamUmda", L + "algorithms/probability-vector/pv-algorithm.hh"), ("Mimic", L + "algorithms/mimic.cc"), ("Hea, herding", L + "algorithms/walsh-moment/hea.hh"), ("BmPbil, Gibbs samplers", L + "algorithms/walsh-moment/bm-pbil.hh"), ("TriangularMoment, FullMoment", L + "algorithms/walsh-moment/walsh-moment.cc")],
  ["c14.cc"],
  "2 to 4 bits, populations of 1 to 4, up to 4 iterations; model updates checked against the published logs for all answers of the first draws and all single deviations after; sampling distributions computed exactly by enumerating every draw of one generation with its probability; moments of all populations of up to 3 vectors of 1 to 3 bits; Gibbs and herding on grids of parameters; probability vectors of up to 257 components and populations of up to 130 along listed executions",
  "exhaustive exploration of the random choices of the real algorithms; executions carry their exact probability, so that distributions are compared exactly",
  state=[("_pv", "probability vector", L + "algorithms/probability-vector/pv-algorithm.hh"), ("_parameters", "MIMIC chain", L + "algorithms/mimic.hh"), ("_target, _model_parameters", "Walsh moments", L + "algorithms/walsh-moment/hea.hh")])

P("C15", "Populations, selections and crossovers do what they announce",
  "Sorting a population orders it by decreasing value without losing, duplicating or changing an individual or separating it from its value; partial sorting puts the requested number of best individuals first; evaluation gives each individual its own value. "
  "Plus and comma selection keep exactly the best individuals of their pool; uniform, tournament, fitness proportionate and Boltzmann selection return individuals with exactly the announced probability; every child of a crossover takes each bit from one of its parents with the announced probability. Invalid sizes are rejected.",
  ["inputs", "probability distributions"], "all value patterns with ties, all populations up to the bounds, all random outcomes",
  "Selection is a statement about distributions over all populations and ties; the tests only run whole algorithms on easy functions.",
  [L + "algorithms/population.hh", L + "algorithms/population.cc", L + "algorithms/evolutionary-algorithms/selection.hh", L + "algorithms/evolutionary-algorithms/crossover.hh"],
  [("Population", L + "algorithms/population.cc"), ("selections", L + "algorithms/evolutionary-algorithms"), ("crossovers", L + "algorithms/evolutionary-algorithms/crossover.hh")],
  ["c15.cc"],
  "all value patterns of populations of 1 to 4 individuals (patterns of size 100 listed), all tournament sizes, pools up to 3+3, all pairs of parents of up to 4 bits, every random outcome with its exact probability; populations of up to 300 and crossovers of up to 257 bits along listed executions",
  "exhaustive enumeration of populations and random outcomes on the real code; distributions compared exactly")

P("C16", "Parallel evaluation is equivalent to sequential evaluation",
  "When a population is evaluated with several functions in parallel, then under every schedule and every number of threads actually granted, no memory is accessed concurrently without synchronisation, no function object is used by two threads at the same time, the population gets exactly the values of sequential evaluation, and the main function (with its progress tracker, budget or target) sees the same evaluations in the same order as sequentially. "
  "Hence every population based algorithm makes the same random draws, follows the same trajectory, writes the same log, stops at the same evaluation for the same reason and returns the same solution as with one thread. Independent instances of any shipped function may be evaluated concurrently.",
  ["schedules", "thread counts", "inputs"], "all interleavings of evaluations, all team sizes up to the number of functions, all populations and algorithms",
  "A test runs one schedule, usually with one thread; a race or a lost update only shows in particular interleavings.",
  [L + "algorithms/population.cc", L + "algorithms/iterative-algorithm.cc", L + "functions/function.hh", L + "functions/controllers/controller.hh", L + "multiobjective/algorithms/population.cc"],
  [("Population::evaluate_in_parallel", L + "algorithms/population.cc"), ("evaluate_safely and update", L + "functions/function.hh"), ("multiobjective populations", L + "multiobjective/algorithms/population.cc")],
  ["c16.cc", "../mc/race.cc"],
  "populations of up to 5 (thorough 6), 1 to 4 (5) functions and granted threads, all schedules with 4 (8) free scheduling choices and 2 preemptions after; all 19 population based algorithms with 2 and 3 threads under no controller, tracker, budget and target, 3 iterations, used twice; two threads on independent instances of all shipped functions and map compositions; populations of up to 300 along listed schedules",
  "stateless model checking of thread schedules: OpenMP's runtime is replaced by a controlled scheduler and every memory access of the instrumented library feeds a race detector",
  state=[("values, bvs", "population shared by the threads", L + "algorithms/population.hh")], flavour="race",
  note="Scheduling points are the entry and exit of evaluations, barriers and work sharing; between them races are found by the happens-before detector. A cache shared by parallel evaluation is only checked for values (C10), not for its lookup ratio.")

P("C17", "Every algorithm returns an honest best solution, interrupted or not",
  "Whatever the function, the random choices and the evaluation at which the budget runs out, the solution reported after finalization is a vector which was really evaluated, with exactly its value, at least as good as everything evaluated in completed steps of the search. "
  "An algorithm object which has already been used, to completion or interrupted, behaves on the next call exactly like a fresh one. Restarting an algorithm reports the best of all runs including the interrupted one, runs the requested number of times, and never loses the budget exception. This covers local search, evolutionary algorithms, distribution estimation algorithms, P3, LTGA, HBOA and GOMEA.",
  ["histories", "interruption points", "inputs"], "all evaluations at which an evaluation can be refused, all earlier uses, functions with ties, huge, tiny and infinite values",
  "Tests run an algorithm once to its end on easy functions; the interrupted and reused paths depend on the exact evaluation at which the exception flies.",
  [L + "algorithms/algorithm.hh", L + "algorithms/algorithm.cc", L + "algorithms/decorators/restart.cc", L + "algorithms/fast-efficient-p3", L + "algorithms/gomea/gomea.cc"],
  [("update_solution", L + "algorithms/algorithm.cc"), ("finalize", L + "algorithms/algorithm.hh"), ("Restart", L + "algorithms/decorators/restart.cc"), ("evaluators", L + "algorithms/fast-efficient-p3/hnco-evaluator.hh")],
  ["c17.cc"],
  "all 30 algorithms on 10 functions of 3 bits (8 for the two-rate EA), refusal at each of the evaluations 1 to 12 (thorough 20) or never, first draws free and one deviation after, each followed by a use on another function and a replay of the same draws; restart with 1, 3 and unboundedly many runs",
  "stateless exploration of random draws and interruption points of the real algorithms; reuse by replaying the draws on the used object",
  state=[("_solution", "best solution", L + "algorithms/algorithm.hh")], groups=["core", "p3", "gomea"],
  note="Interruption inside a generation is required to keep the best of completed generations only, since populations are evaluated as a whole; the (1+(lambda,lambda)) GA may ignore its mutation phase.")

P("C11", "Modifiers and stacks of modifiers compute the function they stand for",
  "Function-map composition, negation, parsed expressions, prior noise, additive Gaussian noise and controllers without effect on values, alone or stacked in any order, compute for every vector exactly the composition of their definitions: size, value (or exact distribution of the value for noise), display and description are those of the composed function, the argument is left alone, and the decorated function is evaluated exactly once per evaluation. "
  "Invalid expressions and maps of the wrong size are refused with an exception.",
  ["compositions", "inputs", "random draws"], "all stacks of modifiers, all vectors, all random outcomes",
  "Tests evaluate single modifiers on a few vectors; users stack them, and noise is a distribution rather than a value.",
  [L + "functions/modifiers/modifier.hh", L + "functions/modifiers/modifier.cc", L + "functions/modifiers/prior-noise.hh", L + "functions/modifiers/prior-noise.cc"],
  [("FunctionMapComposition, OppositeFunction, ParsedModifier, AdditiveGaussianNoise", L + "functions/modifiers/modifier.cc"), ("PriorNoise", L + "functions/modifiers/prior-noise.cc")],
  ["c11.cc"],
  "all stacks of up to 4 (thorough 5) of 20 modifiers with at most 2 noisy ones, base functions of 2 and 3 bits with three value tables, all vectors, all random outcomes (Gaussian noise through 4 representative values)",
  "exhaustive enumeration of compositions and random outcomes on the real code; exact distributions compared with the composed definitions",
  groups=["core", "fparser"])

P("C18", "Saved instances come back identical, and a save which fails says so",
  "For every savable function or map (linear, Walsh expansions, NK landscapes, equal products, partition, Ising models, MaxSat, Sudoku, translation, permutation, linear, affine and transvection maps), loading what was saved gives an object with bit for bit the same behaviour (size, values, increments, maximum, display), whatever the loading object held before; saving again gives the same file. "
  "If the file cannot be completely written - missing directory, full disk at any byte - save throws a std::runtime_error; success means that the whole file is there.",
  ["inputs", "histories", "fault points"], "all instances, all previous contents of the loading object, all bytes at which the disk fills up",
  "Tests save and load one instance with benign numbers on an empty disk; rounding, stale members and short writes do not show there.",
  [L + "serialization.hh", L + "functions/collection/max-sat.cc", L + "functions/collection/sudoku.cc", L + "maps/map.hh"],
  [("save_function_to_archive, save_map...", L + "serialization.hh"), ("text formats", L + "functions/collection/max-sat.cc")],
  ["c18.cc"],
  "16 kinds of objects, 5 to 9 contents each of up to 70 bits with extreme floating point values, loaded over every other content; all small translations, permutations, linear, affine and transvection maps, formulas and NK structures; the disk filling up after every byte (every 7th inside files longer than 600 bytes, all in thorough)",
  "exhaustive enumeration of instances, reuse histories and crash points (file size limit at every byte) on the real code")

P("C19", "Files are read according to their format or refused",
  "Loading a DIMACS CNF, QUBO, Sudoku or TSPLIB file (EUC_2D and ATT, with their rounding rules) yields exactly the instance the file describes, and a file which is empty, unreadable, of the wrong kind, truncated, or in contradiction with its header (missing or repeated problem line, wrong counts, indices out of range, missing numbers or other words in their place) is refused with a std::runtime_error: never an abort, an endless loop, undefined behaviour or a half-loaded instance taken for a good one. "
  "A saved archive cut short is refused, up to the digits of its last number.",
  ["inputs", "fault points"], "all files over the formats' alphabet, all truncation points",
  "Tests load a few well-formed files; robustness is about all the others.",
  [L + "functions/collection/max-sat.cc", L + "functions/collection/qubo.cc", L + "functions/collection/sudoku.cc", L + "functions/collection/tsp.cc", L + "serialization.hh"],
  [("AbstractMaxSat::load_", L + "functions/collection/max-sat.cc"), ("Qubo::load_", L + "functions/collection/qubo.cc"), ("Tsp::load_", L + "functions/collection/tsp.cc"), ("Sudoku::load_", L + "functions/collection/sudoku.cc")],
  ["c19.cc"],
  "all files of up to 4 (thorough 5) lines from 19 line kinds per format, all single character edits of listed files, all orders of TSPLIB header lines, all offsets on a grid for the distances, archives of 16 kinds cut at every byte",
  "exhaustive enumeration of bounded input files and truncation points on the real parsers against an independent three-way reference parser (must load, must refuse, unspecified)")

P("C20", "Representation expressions mean what their grammar says, or are refused",
  "A list of declarations `name: int(a, b); name: long(a, b); name: double(a, b, precision = p | size = s); name: set(v, ...)` given to the parsed multivariate functions (from the command line or a file, single and multiobjective) yields, for each variable of the function's expression, exactly the declared representation - or the default one for variables undeclared, or declared with a type the function does not take - in the order of the function's variables. "
  "Any other text - syntax errors, stray words, missing, extra or malformed parameters, empty or too wide intervals, non positive precision or size, unknown types, names declared twice - is refused with a std::runtime_error; never an abort, another exception type, or a silently different representation.",
  ["inputs"], "all declaration lists and all corruptions of them",
  "Tests use a handful of well-formed declarations.",
  [L + "app/parser.hh", L + "app/parser.cc", L + "app/make-multivariate-function-adapter.hh"],
  [("parse_representation, env_t", L + "app/parser.hh"), ("make_*_adapter", L + "app/make-multivariate-function-adapter.hh")],
  ["c20.cc"],
  "all type x parameter combinations from listed tokens (bounds at the type's limits included), all lists of up to 4 (5) declarations, all single character deletions, insertions and replacements in listed declarations, all adapters of both factories",
  "exhaustive enumeration of bounded input texts on the real parser and factories against an independent reference parser", groups=["core", "parser", "fparser"])

P("C21", "Walsh transforms and maximality tests agree with their definitions",
  "The Walsh transform (fast or not) of every function has exactly the non null coefficients of the definition, one term per feature, obtained with one evaluation of each vector; the Walsh expansion built from it is the function, up to the factor 2^n. "
  "Local maximality of a vector in a neighborhood, and existence and exactness of global maximality, are decided exactly as defined, for all functions and vectors.",
  ["inputs"], "all functions on few bits, all vectors",
  "Tests transform a few random functions and compare the two implementations with each other.",
  [L + "functions/function.cc", L + "functions/function.hh", L + "functions/collection/walsh/walsh-expansion.hh"],
  [("compute_walsh_transform, compute_fast_walsh_transform", L + "functions/function.cc"), ("is_locally_maximal, is_globally_maximal", L + "functions/function.cc")],
  ["c21.cc"],
  "all tables over 5 values up to 2 bits, 4 (5) values on 3 bits, 2 values on 4 bits; listed tables and all shipped functions up to 9 (11) bits; all vectors",
  "exhaustive enumeration of the functions on up to 4 bits against the definition")

P("C22", "Representations decode every bit vector inside their domain, and cover it",
  "Every bit vector of the representation's size decodes to a value of the domain: integers (int and long) inside [a, b] with every value of [a, b] reachable and the size the smallest possible unless imposed; floats inside [a, b[ with the lower bound reachable and steps as fine as the requested precision; complex numbers by coordinates; value sets and categories only listed values, all reachable, the linear one with every category within one flip; permutations always permutations, all reachable. Decoding is a function of the bits only (up to ties between equal keys), independent of previous decodings, whatever the interval, including the extreme ones of the type.",
  ["inputs"], "all bit vectors, all intervals and sizes of the type's range",
  "Tests decode random vectors for a few usual intervals; the extreme intervals, sizes and roundings are where it fails.",
  [L + "representations/integer.hh", L + "representations/float.hh", L + "representations/complex.hh", L + "representations/categorical.hh", L + "representations/value-set.hh", L + "representations/permutation.hh"],
  [("unpack", L + "representations/integer.hh"), ("unpack", L + "representations/permutation.hh")],
  ["c22.cc"],
  "all intervals of width up to 40 around 0 and spans 2^k, 2^k +- 1 at both ends and the middle of int and long, all bit vectors up to 12 bits and listed ones beyond; floats of 1 to 70 bits on 9 intervals; up to 40 (70) categories; permutations up to 5 elements with all keys, all tie breaks",
  "exhaustive enumeration of intervals and bit vectors on the real code against exact integer arithmetic; random tie breaks as choice points",
  note="Ties between equal permutation keys are broken by the shared random generator: with several threads this is a race of the library, not covered here.")

P("C23", "Adapters evaluate the user's function on the decoded variables",
  "Multivariate, mixed, permutation, universal and multiobjective adapters slice each bit vector into the variables' representations in order, without gap or overlap, call the function once with the decoded variables, convert its codomain as announced, and describe a solution by the variables it decodes to; the size of the bit vector is the sum of the sizes. Parsed functions compute their expression, all objectives in order. Universal functions see integers, floats, complex numbers and permutations in the order of the call and all of them exactly once.",
  ["inputs", "configurations"], "all bit vectors, all combinations of variable types",
  "Tests evaluate single type adapters on random vectors.",
  [L + "functions/multivariate-function-adapter.hh", L + "functions/permutation-function-adapter.hh", L + "functions/universal-function-adapter.hh", L + "functions/converter.hh", L + "functions/collection/parsed-multivariate-function.hh", L + "multiobjective/functions/multivariate-function-adapter.hh", L + "multiobjective/functions/universal-function-adapter.hh", L + "multiobjective/functions/collection/parsed-multivariate-function.hh"],
  [("evaluate, describe", L + "functions/multivariate-function-adapter.hh"), ("evaluate", L + "functions/universal-function-adapter.hh")],
  ["c23.cc"],
  "9 adapter kinds with up to 4 (5) variables; all 729 combinations of up to 2 variables of each of the 6 universal types; all bit vectors up to 12 bits; permutations up to 4 elements",
  "exhaustive enumeration of variable signatures and bit vectors on the real adapters against reference decoders", groups=["core", "fparser"])

P("C24", "Pareto dominance, Pareto fronts and NSGA-II are as defined",
  "Dominance is the componentwise order with one strict improvement, infinities included; Pareto fronts are the successive layers of non dominated values for every population. "
  "NSGA-II, for every outcome of its random draws: evaluates mu (1 + iterations) vectors; keeps at each generation the mu best of parents and offsprings by front, then by crowding distance; produces offsprings by crossover with the set probability and mutation with the set rate from winners of tournaments without replacement; ends with exactly the non dominated individuals of its population, each with its true value, none dominating another; and a used object behaves as a new one. A null or negative number of iterations means no limit.",
  ["inputs", "random outcomes", "histories"], "all populations of few values, all random outcomes, repeated runs",
  "There is no test of the multiobjective part beyond running the tool.",
  [L + "multiobjective/algorithms/nsga2.cc", L + "multiobjective/algorithms/pareto-front-computation.hh", L + "multiobjective/algorithms/random-selection.hh", L + "multiobjective/functions/value.hh", L + "multiobjective/algorithms/iterative-algorithm.cc", L + "multiobjective/algorithms/population.hh"],
  [("Nsga2::iterate", L + "multiobjective/algorithms/nsga2.cc"), ("compute", L + "multiobjective/algorithms/pareto-front-computation.hh"), ("dominates", L + "multiobjective/functions/value.hh")],
  ["c24.cc"],
  "all pairs of values over 11 (extreme) numbers; all populations of up to 6 (7) values in a 3x3 grid, 6 (7) in 2x2x2, 8 (10) in a line; tournaments on up to 5 individuals, all values and permutations; NSGA-II with 3 to 5 individuals of 2 to 4 bits, 1 to 3 objectives, 9 functions, up to 5 generations: initial populations exhaustively, then 1 departure from 1 to 3 default schedules of draws; fronts of up to 130 values with up to 6 objectives, listed",
  "stateless exploration of the algorithm's random draws on the real code against the set of all runs the definition admits; exhaustive enumeration of populations")

P("C25", "The command line builds exactly the algorithm, the function and the modifiers that were asked for",
  "For every algorithm and every function that hnco and hnco-mo can name, and for every option that concerns it, the object built from the command line behaves, on every sequence of random draws, exactly as the library object configured with these values (the defaults of the help text for options not given): same sequence of evaluations, same draws with the same probabilities, same log, same solution, same refusals. "
  "The same holds for maps, the order and parameters of function modifiers, noise, controllers (target, budget, cache, trackers), restart and iterated algorithms, neighborhoods and neighborhood iterators, and the multiobjective tool. An option that is not for the chosen object changes nothing.",
  ["options", "random outcomes"], "all documented identifiers, all options one by one and listed combinations, all random outcomes",
  "A test runs a few commands; a setter that is forgotten, swapped or given the wrong option changes the behaviour of one algorithm under one option only.",
  [L + "app/algorithm-factory.cc", L + "app/function-factory.cc", L + "app/decorated-function-factory.cc", L + "multiobjective/app/function-factory.cc", L + "multiobjective/app/algorithm-factory.cc"],
  [("CommandLineAlgorithmFactory::make", L + "app/algorithm-factory.cc"), ("CommandLineFunctionFactory::make", L + "app/function-factory.cc"), ("DecoratedFunctionFactory", L + "app/decorated-function-factory.cc"), ("HncoOptions", L + "app/hnco-options.cc")],
  ["c25.cc"],
  "every algorithm identifier (Gomea and Python excepted) with its defaults, with each of its options changed, and with combinations; every function identifier that needs no file written by hand; every map and modifier alone and in pairs; up to 3 departures from default schedules of draws on 2 landscapes of 10 bits; (1+(lambda,lambda)) GA with mu = lambda, because the help text gives its number of offsprings two names",
  "stateless exploration of the random draws: the object built from options and the reference object are run side by side on the same draws, on every explored schedule",
  groups=["core", "app", "p3", "gomea", "fparser"])

P("C26", "hnco and hnco-mo are reproducible, report what they did, and end with the documented statuses",
  "For every algorithm and objective function, the same command line with the same seed gives the same output, with one or several threads. The results are well formed; the number of evaluations never exceeds the budget, and reaches it when the search is interrupted; the solution printed has, once loaded again, the value reported (never a better one). "
  "A target or maximum is reported as reached exactly when the search reaches it, and no evaluation follows; the exit status tells success, failure of the search and errors apart. A cache changes neither the search nor the solution and its lookup ratio is exact; restarting spends the whole budget. "
  "What is saved is what is printed, and any failure to save is reported. Sizes, maxima, Walsh transforms, parameters and descriptions asked for are those of the function. The Pareto front printed holds no dominated point. Unknown identifiers, missing or malformed files and solutions of another size are refused without results.",
  ["command lines", "histories", "I/O faults"], "all algorithms with several functions, sizes, seeds, budgets and stopping criteria; all combinations of outputs; write failures at listed offsets",
  "The tests look at a few commands and only at whether they end; honesty of the report must hold for all algorithms and stopping conditions.",
  [L + "app/application.cc", L + "app/decorated-function-factory.cc", L + "multiobjective/app/application.cc", "app/hnco.cc", "app/hnco-mo.cc"],
  [("HncoApplication::run", L + "app/application.cc"), ("save and print results", L + "app/application.cc")],
  ["c26.cc"],
  "31 algorithms x 8 functions, 8 and 13 bits, 6 limits, 1 to 3 seeds (thorough: 6 to 18), each run without and with maximum, three targets, restart and threads; 7 sets of files x 2 names x 2 previous contents; write failures at 6 offsets per file",
  "exhaustive enumeration of a bounded space of command lines, file system contents and write faults on the real programs, against the definition of the function and against the other runs of the same search",
  groups=["core", "fparser"], apps=["hnco", "hnco-mo"],
  note="Seeds are enumerated from a fixed range: the random outcomes themselves are explored exhaustively by C25, on the same factories.")

P("C27", "Generated instances and maps have the announced structure, whatever the draws",
  "Whatever the random draws, a random formula has the announced numbers of variables, clauses and distinct literals, every such formula can be drawn, with a planted solution exactly the satisfied ones; a random Sudoku board has the announced number of empty cells, a solution, and can be used at once. "
  "Random instances of the other functions are those given by the announced law of their coefficients; random maps are uniform among the maps of their kind. ffgen and mapgen write, for every type and option, exactly the instance or map that the library generates with these parameters, which hnco reads back; maps asked surjective are. "
  "The same seed gives the same file; failures to write, unknown types and options are reported.",
  ["inputs", "random outcomes", "I/O faults"], "all outcomes of the random draws (bounded depth for large objects), all types and options of ffgen and mapgen, write failures at listed offsets",
  "A test generates one instance with one seed.",
  ["app/ffgen.cc", "app/mapgen.cc", L + "functions/collection/max-sat.cc", L + "functions/collection/sudoku.cc", L + "functions/collection/nk-landscape.cc", L + "functions/collection/walsh/walsh-expansion.cc"],
  [("generators", "app/ffgen.cc:generate_*"), ("map generators", "app/mapgen.cc"), ("AbstractMaxSat::random, MaxSat::random", L + "functions/collection/max-sat.cc"), ("Sudoku::random", L + "functions/collection/sudoku.cc")],
  ["c27.cc", "c27-ffgen.cc", "c27-ffgen-options.cc", "c27-mapgen.cc", "c27-mapgen-options.cc"],
  "all draws of formulas with at most 4 variables and 2 clauses (thorough 5), boards with 1 to 81 empty cells with one departure from default schedules, other objects of at most 6 bits with the first 3 to 7 draws branched fully and one further departure (thorough two); programs with 6 (40) seeds and write failures at 6 (40) offsets",
  "stateless exploration of the random draws of the real generators (library, and the tools compiled into the harness) against reference models and the library; enumeration of write faults on the real programs",
  groups=["core", "fparser"], apps=["hnco", "ffgen", "mapgen"])

P("C28", "The experiment scripts run exactly what the plan says and report true statistics",
  "For every plan, the skeleton script creates the directories the run script needs, here and on the servers; the run script executes exactly the planned commands, once each, whether sequentially or through GNU parallel: the program, global options, budget, options of the function, of the algorithm and parameter values (listed or computed), restricted to the algorithms selected and not skipped, once for deterministic algorithms, each with its own output files. "
  "Every complete experiment can be analysed. For every table of results, the statistics written are the exact order statistics (type 7 quartiles), means and sample deviations of the runs; reversed functions are negated and their quartiles exchanged; values are listed from best to worst, ranks count the strictly better algorithms, best values and only they are marked, success rates, lookup ratios and rank distributions are exact. "
  "An ECDF gives at every time the exact proportion of targets reached, over the range of values observed, both ends included; autocorrelations and Walsh spectra are exact. Graphics draw existing data files with the right columns and the reports include existing tables and graphics.",
  ["inputs", "plans"], "all plans with up to two or three functions, algorithms, values and runs, and all combinations of plan options; all result tables of the stated sizes over three values",
  "There is no test of the scripts; published figures depend on ties, numbers of runs and signs that a single experiment does not exercise.",
  ["experiments/scripts/hnco-benchmark-stat.pl", "experiments/scripts/hnco-benchmark-run.pl", "experiments/scripts/hnco-ecdf-stat.pl", "experiments/scripts/hnco-runtime2-stat.pl", "experiments/scripts/hnco-fixed-target-stat.pl", "experiments/modules/lib/HNCO/Run.pm"],
  [("statistics", "experiments/scripts/hnco-*-stat.pl"), ("runs", "experiments/scripts/hnco-*-run.pl"), ("directories", "experiments/scripts/hnco-*-skeleton.pl"), ("gnu_parallel", "experiments/modules/lib/HNCO/Run.pm")],
  ["c28.cc"],
  "1 to 4 algorithms or values x 1 to 5 runs over 3 values (all tables; multisets of runs from 3 runs on), up to 256 success patterns, all trajectories of at most 3 improvements for 1 to 4 pairs, all walks of at most 5 (6) steps, all lists of at most 3 (4) coefficients; 30 to 500 plans per run script",
  "exhaustive enumeration of a bounded space of plans and result tables on the real scripts, against an independent model of the statistics and of the planned commands, the commands being executed by recording stand-ins",
  note="File::Slurp, File::HomeDir and GNU parallel are not installed: the harness provides stand-ins, as it does for ssh and rsync, in its scratch directory.")

P("C29", "What is printed about an instance, a representation or a solution is true",
  "The text displayed for an instance identifies it: the multiset to partition, the number of cities, name and comment of a tour problem, the given and empty cells of a Sudoku grid, the number to factorize, every clause and literal of a formula, N, K and the neighbours of every site of an NK landscape, the dimensions and boundary conditions of Ising models, the number of terms and order of a Walsh expansion, the weights of a linear function. "
  "The description of a solution is the solution that was evaluated: the two parts, the tour, the filled grid, the factors, their product and their distance, from which the reported value follows. The text displayed for a representation gives its size and exactly the values it can take.",
  ["inputs"], "all instances and solutions of the stated sizes",
  "Users read the solution off these texts; the tests never look at them.",
  [L + "functions/collection/partition.cc", L + "functions/collection/sudoku.cc", L + "functions/collection/factorization.cc", L + "functions/collection/tsp.cc", L + "functions/collection/max-sat.cc", L + "functions/collection/nk-landscape.cc", L + "representations/value-set.hh", L + "representations/float.hh"],
  [("display", L + "functions/collection/*.cc:*::display"), ("describe", L + "functions/collection/*.cc:*::describe"), ("display", L + "representations/*.hh")],
  ["c29.cc"],
  "partitions of at most 4 (thorough 6) numbers out of 5 values, all tours of at most 7 (9) cities, pairs of empty cells among 81 with the 81 fillings, numbers up to 80 (255), all formulas of one or two clauses of at most 3 literals over at most 4 variables, NK landscapes of at most 5 sites over all draws, expansions of at most 4 terms over at most 3 bits; all their solutions",
  "exhaustive enumeration of a bounded space of instances and solutions (NK landscapes: of all random draws) on the real code; the printed text is parsed back and compared with the instance and the value computed")

#END


NOT_APPLICABLE = []


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for pid in sorted(PROPS):
            f.write(json.dumps(PROPS[pid]["meta"]) + "\n")
        for m, _ in NOT_APPLICABLE:
            f.write(json.dumps(m) + "\n")
    man = {"version": 1, "setup_cmd": "bin/check --build",
           "checks": [{"property": pid,
                       "quick_cmd": "bin/check %s quick" % pid,
                       "thorough_cmd": "bin/check %s thorough" % pid,
                       "technique": "model checking: " + p["technique"],
                       "level": "model_checking",
                       "level_note": "Exhaustive within bounds: " + p["bounds"] + ". Trusts the reference model in harness/" + ", ".join(p["harness"]) + " and the explorer in mc/." + (" " + p["note"] if p["note"] else "")}
                      for pid, p in sorted(PROPS.items())],
           "not_applicable": [{"property": m["id"], "reason": r} for m, r in NOT_APPLICABLE],
           "notes": "See DESIGN.md. known-findings.json lists the genuine defects found: those repaired by fix: commits in /repo and those recorded only."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
