import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
T="src/parallel/thread/"
p("C01","Thread pool: every task done exactly once, results in submission order",
"For every batch given to a thread pool, each task is performed exactly once, and the call returns only after all of them have finished. The returned vector has one entry per task, and entry i is the very result object task i produced, whatever the number of workers and the thread interleaving. The same holds for every later batch on the same pool, including empty ones.",
["schedules","histories","inputs"],"all interleavings of the calling thread and any number (>=2) of workers, all batch sizes, all sequences of batches, spurious wake-ups included",
"One smoke test runs one batch under whatever schedule the OS happens to pick and never looks at which result is where.",
[T+"thread_safe_queue.h",T+"worker.h",T+"thread_worker_pool_templated.h",T+"thread_worker_pool.cpp",T+"thread_worker_pool_task.cpp"],
[("blocking hand-off queue",T+"thread_safe_queue.h Push/WaitAndPop/TryPop"),("worker loop",T+"worker.h ProcessTasksQueue"),("batch fan-out / fan-in",T+"thread_worker_pool_templated.h DoTasks")])
p("C02","Thread pool: a throwing task neither hangs the pool nor spoils other work",
"When any subset of the tasks of a batch throws an exception of any type, the thread pool's batch call still terminates: every other task of the batch is performed exactly once, and the failure is reported to the caller (by an exception, or by an empty result at exactly the failed positions). The pool stays usable: the next batch gets exactly its own results.",
["schedules","fault_sequences","histories"],"all interleavings, all subsets of throwing tasks, all positions of the faulty batch in a sequence of batches",
"No test submits a failing task; the hang needs a task that throws and then a caller that waits for it.",
[T+"worker.h",T+"thread_worker_pool_templated.h",T+"thread_worker_pool.cpp"],
[("exception barrier of the worker loop",T+"worker.h ProcessTasksQueue"),("completion counting",T+"thread_worker_pool_templated.h DoTasks")])
p("C03","Thread pool: destruction terminates and leaves no worker running",
"Destroying a thread pool terminates under every schedule, whether or not the pool has ever been given work, and whichever point (starting, waiting, between tasks) each worker has reached. When it returns, every worker thread the pool started has finished, and no task is performed afterwards.",
["schedules","histories"],"all interleavings of construction, batches and destruction, any number of workers, spurious wake-ups included",
"The smoke test destroys one pool once; lost wake-ups at shutdown show up only under particular interleavings.",
[T+"thread_worker_pool_templated.h",T+"worker.h",T+"thread_safe_queue.h"],
[("stop then join",T+"thread_worker_pool_templated.h destructor"),("interruption points",T+"worker.h ProcessTasksQueue, Stop, Join")])
p("C04","Worker pools are interchangeable and their statistics count exactly the work",
"The sequential pool performs the tasks of a batch in order, once each, and returns their results in order; an exception from a task reaches the caller and no later task of the batch is performed. Its statistics count exactly the tasks that have completed since its creation. The pool factory's best pool is always valid and usable whatever the number of hardware threads reported.",
["inputs","histories","fault_sequences","configurations"],"all sequences of batches, all failing positions, every reported number of hardware threads",
"No test reads any statistics, runs a failing task, or varies the hardware concurrency.",
["src/parallel/sequential_worker_pool.cpp","src/parallel/worker_statistics.cpp","src/parallel/worker_pool_factory.cpp","src/parallel/statistics_aggregator.cpp"],
[("sequential execution","src/parallel/sequential_worker_pool.cpp DoTasks"),("pool selection","src/parallel/worker_pool_factory.cpp CreateBestWorkerPool, CanCreateWorkerPool")])
M="src/parallel/mpi/"
p("C05","MPI pool: protocol gives every task to one worker and results in order",
"With MPI, each task of a batch is sent to exactly one worker process, no worker ever has more than one outstanding task, and the result of task i is returned in position i whatever the order in which workers answer. Worker statistics count each completed task on the worker that did it. When the pool is destroyed every worker is told to finish exactly once, after its last task, and never before. A batch with a task of another kind in it is refused before anything is sent, and leaves no trace. The pool factory makes one MPI pool per process: the first best pool asked for, where there are workers; otherwise, and later, the best pool is a valid one of this process's own.",
["schedules","histories","configurations"],"all message delivery/completion orders, any number of workers, any batch size and sequence of batches",
"MPI code is not built by the test suite at all and its completion order depends on the network.",
[M+"mpi_worker_pool.cpp",M+"async_call_chain.cpp",M+"identifyable_objects_manager.cpp","src/parallel/statistics_aggregator.cpp"],
[("master scheduling",M+"mpi_worker_pool.cpp DoTasks, SendTask, WaitAndPopNextExpectation"),("worker loop",M+"mpi_worker_pool.cpp RunWorkerLoop"),("asynchronous call sequencing",M+"async_call_chain.cpp")])
p("C06","Usage-aware cache: what was stored is what is returned; misses leave no trace",
"After any history of stores and lookups a cached key yields exactly the value stored for it last; asking for a key never makes it cached nor changes the set of cached keys, and reading a key that is not cached is refused. Entries are discarded only by a store (single or bulk) made while the cache holds more entries than its size limit allows, before the new entries are added, and such a store discards exactly the entries never read since they were last stored; if that is not enough the store is refused and adds nothing. A cache with no positive limit is not created.",
["histories","inputs","configurations"],"all sequences of stores, bulk stores, membership queries and reads over any keys and any limit",
"The cache has no unit test; eviction happens only after megabytes of entries.",
["include/k52/common/cache.h","include/k52/common/stored_value.h"],
[("lookup","include/k52/common/cache.h IsCached, GetCachedValue"),("eviction","include/k52/common/cache.h ClearCacheUpToLimit"),("usage counting","include/k52/common/stored_value.h")])
W="src/dsp/transform/wavelet/fast_wavelet_transform.cpp"
p("C07","Wavelet transform: result is independent of caching and of call history",
"The fast wavelet transform of a signal has one row per scale in the scale order, each of the signal's length, and every value depends only on the signal, the wavelet and that scale. Enabling the cache, reusing one transform object for other signals, wavelets and scales, or transforming scale by scale in any order never changes a single value; a cache that is too small may make a call fail with an error, nothing else. Signals of another length than the object was created for, and scales that are not positive, are refused.",
["inputs","histories","configurations"],"all call histories on one transform object, signal lengths, scales, with and without cache",
"No test touches the wavelet transform.",
[W,"include/k52/dsp/transform/wavelet/fast_wavelet_transform.h"],
[("sampled-wavelet cache",W+" TransformOneScale"),("row assembly and rotation",W+" Transform")])
G="src/optimization/genetic_algorithm/genetic_algorithm.cpp"
I="src/optimization/genetic_algorithm/individual.cpp"
O="src/optimization/objective_function_counter.cpp"
p("C08","GA: every fitness used is the current objective function's value",
"In every generation the fitness the genetic algorithm attributes to an individual equals the given objective function applied to that individual's parameters, whether it was computed sequentially, in worker threads or taken from the fitness cache. This holds for every run on the same optimizer object, also when a later run uses another objective function. Without needing evaluation, an individual already evaluated in the run may be served from the cache but never with another individual's value.",
["histories","schedules","configurations","inputs"],"all populations, cache on/off, thread or sequential evaluation, all sequences of runs on one optimizer object",
"Only the exit code of one example program is checked.",
[G,O,"src/optimization/count_objective_function_task.cpp",I],
[("cache + parallel evaluation",O+" ObtainFitness, CountObjectiveFunction"),("fitness assignment",G+" ObtainFitness")])
p("C09","GA: the reported best is the best individual ever evaluated",
"After a run, the best individual reported and the parameters handed back to the caller are those of an individual whose fitness is the maximum over every individual evaluated in that run. During the run the best fitness shown to the observer never decreases and is never below the fitness of any individual evaluated so far.",
["histories","inputs"],"all objective functions, mutators, random choices and population histories",
"The example only prints a result; no test compares it with the evaluated population.",
[G],[("best tracking",G+" UpdateBest, Optimize")])
p("C10","GA: only individuals satisfying the constraints, in sync with their genes",
"Every individual the genetic algorithm evaluates, mutates or reports satisfies the constraints of its parameters, and decoding its chromosome yields exactly the parameters it is evaluated with. This holds after random initialisation, crossover, mutation, loading from a file and user-given initial parameters.",
["histories","inputs","configurations"],"all random choices, all constraint predicates that admit at least one reachable individual, all ways to seed a population",
"No test builds an individual.",
[I,G],[("retry until valid",I+" SetRandomChromosome, Mutate"),("gene/parameter synchronisation",I+" set_chromosome/set_parameters, Crossover"),("pair generation",G+" GenerateNextPopulation")])
p("C11","GA: generations keep their size, the elite and the parents' genes",
"Every generation has exactly the configured number of individuals. Before mutation, the best individuals of the previous generation (as many as the configured elite) are present unchanged in the next one, and every other pair of individuals is a single-point exchange of the tails of two individuals of the previous generation, position by position.",
["histories","inputs","configurations"],"all random choices, population sizes, elite sizes and fitness landscapes",
"No test observes a population.",
[G,I],[("elitism and reproduction",G+" GenerateNextPopulation, SelectParent"),("single-point crossover",I+" Crossover")])
p("C12","GA: stopping rule, generation numbering and observer callbacks are exact",
"A run evaluates generations numbered consecutively from zero, calls the observer once per generation after evaluating it, and stops after the configured maximum number of generations or right after the first generation in which the best fitness so far reaches the stop criterion, whichever comes first. The number, best-so-far parameters and fitness, average fitness and number of cache hits shown for a generation are exactly that generation's. Settings that make no sense (odd or non-positive population, no generations, no mutator) yield no algorithm, and a request to minimize is refused, as are parameters or objective functions that are not discrete.",
["histories","inputs","configurations"],"all limits, criteria and fitness histories",
"Only an example's exit code depends on the loop.",
[G,"src/optimization/genetic_algorithm/generation_statistics.cpp"],[("main loop",G+" Optimize"),("statistics","src/optimization/genetic_algorithm/generation_statistics.cpp")])
p("C13","GA: saved populations load back identically and malformed ones are rejected",
"A population saved to a file by the observer of one run and loaded by another run starts the second run with exactly the same individuals. Initial populations, from a file or from the caller, that do not have the population's size, chromosome length, gene alphabet or parameter type and bounds, that violate the constraints, or (for files) are truncated, are rejected with an error before any individual is evaluated.",
["inputs","histories","fault_sequences"],"all populations and all corruptions of the file (truncation, wrong counts, bad characters, wrong length)",
"No test saves or loads a population.",
[G,I],[("save/load",G+" SavePopulation, LoadPopulation, SetInitialParameters"),("text form",I+" operator<<, operator>>")])
PR="src/optimization/params/"
p("C14","Parameter encoding: decode(encode(v)) is v, and every gene string is total",
"Setting an integer parameter to any value of its range and decoding its chromosome gives back that value; for a real parameter the decoded value is within its declared precision of the value set, both range ends included. For every chromosome whose decoded value satisfies the constraints, decoding and encoding again gives the same chromosome, and distinct such chromosomes decode to distinct values. The chromosome has the same, sufficient length for all values, chromosomes of another length are refused, and arrays and composites use consecutive, disjoint slices in the order of their components.",
["inputs","configurations"],"all ranges, precisions, values and chromosomes",
"No test covers the parameter classes.",
[PR+"int_parameter.cpp",PR+"double_parameter.cpp",PR+"double_parameters_array.cpp",PR+"composite_discrete_parameters.cpp",PR+"const_chromosome_size_paremeters.cpp"],
[("bit count and integer coding",PR+"int_parameter.cpp"),("quantisation",PR+"double_parameter.cpp"),("slicing",PR+"composite_discrete_parameters.cpp SetFromChromosome/SetChromosome")])
p("C15","Parameters: values out of bounds are never accepted; refusals change nothing",
"The constraint check of a bounded parameter object tells, from construction on and after every assignment or decoding, whether the values it holds lie inside its bounds: values inside are accepted, values outside (for a single real, by more than its precision) never are. Constructing a real parameter with, and assigning to an array of reals, any value outside the bounds, or a wrong number of values, raises an error and leaves the previously held values in place. Copies hold the same values and are independent of the original.",
["inputs","histories"],"all bounds, assignment histories, chromosomes and copies",
"No test covers the parameter classes.",
[PR+"int_parameter.cpp",PR+"double_parameter.cpp",PR+"double_parameters_array.cpp",PR+"continuous_parameters_array.cpp"],
[("range checks",PR+"int_parameter.cpp SetValue/CheckConstraints"),("array assignment",PR+"double_parameters_array.cpp SetValues")])
p("C16","Initialisation guard: objects work only after exactly one initialisation",
"Objects that need initialisation (composite parameters, individuals of the genetic algorithm, once-settable chromosome sizes) refuse to be used before it and refuse a second initialisation, and a refused operation changes nothing. Once initialised they stay initialised, and their copies are initialised with the same components and values.",
["histories"],"all interleavings of initialise, use, copy, assign",
"No test exercises misuse orders.",
["src/optimization/initialization_checker.cpp",PR+"composite_discrete_parameters.cpp",PR+"discrete_parameters.cpp"],
[("guard","src/optimization/initialization_checker.cpp"),("one-time component registration",PR+"composite_discrete_parameters.cpp Initialize")])
p("C17","Multi-start search: returns a best candidate among all the starts",
"Random search runs the wrapped optimizer exactly the requested number of times, each on its own copy of starting values drawn inside the given bounds, and hands back the values of a run with the best objective value (largest when maximizing, smallest when minimizing). Those values are exactly what that run ended with, regardless of the pool used or the thread interleaving, and the objective value of the returned values is the objective function's value there. A failing run and a request for no runs are reported to the caller as errors.",
["schedules","inputs","configurations"],"all numbers of starts, result values (ties included), directions, pools and schedules",
"Tests check only that one example converges.",
["src/optimization/random_search.cpp","src/optimization/simple_parameters_processor.cpp","src/optimization/optimization_parameters_processor.cpp","src/optimization/optimization_task.cpp","src/optimization/optimization_task_result.cpp"],
[("start generation","src/optimization/random_search.cpp"),("best selection","src/optimization/simple_parameters_processor.cpp"),("parallel local runs","src/optimization/optimization_parameters_processor.cpp")])
p("C18","Hooke-Jeeves: result is never worse than the start, and is locally optimal",
"For every objective function and starting point, minimizing (maximizing) with the pattern-search method returns a point whose objective value is not worse than at the start, and which is one of the points it evaluated. Unless the iteration limit ends the search (or the first step is already within the precision), no step of the last size tried along a coordinate axis from the returned point gives a better value. An object used before gives the result of a fresh one.",
["inputs","histories"],"all objective functions and starting points (explored on integer/dyadic lattices), both directions, repeated use of one object",
"The only test is an example's exit code on one function.",
["src/optimization/hooke_jeeves_method.cpp"],[("explore and pattern move","src/optimization/hooke_jeeves_method.cpp")])
p("C19","Bounded Nelder-Mead: best vertex is returned and bounds are kept",
"The simplex method starts from a regular simplex of the configured edge length with a vertex at the start and returns, in the requested dimension, a point whose objective value is the best of all it evaluated, so never worse than the start. In one dimension, where all arithmetic is exact, it makes exactly the method's moves: reflect the worst vertex, expand, contract or reduce, project moves onto the bounds, and stop when the values are within the precision, a simplex recurs or the iterations run out. With a start whose initial simplex lies inside the bounds it never evaluates the objective outside them, and an optimizer object reused for other functions and dimensions gives the same outcome as a fresh one.",
["inputs","histories","configurations"],"all objective functions, starts, dimensions, directions and sequences of runs",
"The example only checks the exit code for one function.",
["src/optimization/bounded_nelder_mead.cpp"],[("simplex moves","src/optimization/bounded_nelder_mead.cpp"),("restart bookkeeping","src/optimization/bounded_nelder_mead.cpp previous polygons")])
p("C20","Random source: draws stay in range, certain events are certain",
"For every output of the underlying generator, a discrete draw lies in the requested closed range (every value of a range no wider than the generator's reachable) and a real draw between the requested bounds (for every range of finite width); random booleans take both values, each generator output bit being used at most once. An event of probability 1 always happens, one of probability 0 never does, and over evenly spread generator outputs an event happens in the share of its probability; a probability outside [0,1] is refused.",
["inputs","histories"],"all generator outputs including the extremes, all ranges",
"The unit test only checks the validation of three probabilities.",
["src/common/random.cpp"],[("draws","src/common/random.cpp")])
p("C21","Mutation operators: rates follow their schedule, mutants are chromosomes",
"A mutation operator changes genes only by flipping them (never the length), flips none where its probability is zero, and the linear schedule's probability at each generation is the straight line between its first and last values, so that it never leaves the interval between them. The flip-bit operator visits genes in order with gaps never exceeding the inverse of its probability, and invalid probabilities are refused. The genetic algorithm tells its mutator the number of the generation just finished and the limit before it mutates each new generation.",
["inputs","histories"],"all chromosomes, generator outputs, generations and probabilities",
"Tests cover only the linear schedule's end values.",
["src/optimization/genetic_algorithm/flip_bit_mutator.cpp","src/optimization/genetic_algorithm/linear_mutator.cpp","src/optimization/genetic_algorithm/gen_mutator_base.cpp"],
[("flip positions","src/optimization/genetic_algorithm/flip_bit_mutator.cpp"),("schedule","src/optimization/genetic_algorithm/linear_mutator.cpp")])
p("C22","Settings: last write wins, absent settings are reported, merge keeps the base",
"After any sequence of command-line parsing, file loading and explicit puts, reading a setting yields the most recently written value for that name; reading an absent one without a default is refused, with a default yields the default. Arguments that are not settings, refused values and unreadable files leave the settings unchanged; a loaded file replaces them. Merging two trees keeps every setting of both, with the base's value where both have one, whatever the names.",
["histories","inputs"],"all sequences of puts, argument vectors and files over any names",
"Tests check single fixed command lines.",
["include/k52/common/settings_manager.h","include/k52/common/settings_manager.inl"],
[("argument parsing","include/k52/common/settings_manager.h"),("typed access","include/k52/common/settings_manager.inl")])
p("C23","Akima spline: passes through its knots, defined exactly on its interval",
"A spline built on at least five increasing knots gives the prescribed value at every knot, reproduces straight lines exactly, is defined on the whole closed interval between its first and last knot, and refuses every argument outside it (not-a-number included). Fewer than five knots, knots that do not increase and vectors of different lengths are refused, and rebuilding the spline forgets the previous knots completely. A wavelet interpolated from samples is defined everywhere: it passes through its samples, spread over [-4, 4], follows between them the spline through the samples with a zero before and after them, and is zero outside.",
["inputs","histories"],"all knot sets and arguments (explored on dyadic lattices), rebuild histories",
"Tests sample a few fixed splines.",
["src/dsp/akima_spline.cpp"],[("interval lookup","src/dsp/akima_spline.cpp Value"),("initialisation","src/dsp/akima_spline.cpp Initialize")])
p("C24","Scales: all values of a scale are produced in order within its limits",
"A linear scale of n entries yields n evenly spread values, from its lower to its upper limit, both included; a logarithmic scale yields every power of two from its lower to its upper exponent. Limits that are not positive (linear) or not increasing, and fewer than two entries, are refused.",
["inputs"],"all parameters and indices",
"Tests cover four fixed scales.",
["src/dsp/transform/wavelet/linear_scale.cpp","src/dsp/transform/wavelet/logarithmic_scale.cpp"],
[("entries","src/dsp/transform/wavelet/linear_scale.cpp"),("entries","src/dsp/transform/wavelet/logarithmic_scale.cpp")])
p("C25","Circular convolution and short DFTs compute their defining sums exactly",
"For every pair of equally long integer sequences the direct circular convolution is exactly the cyclic sum of products, for every position, and sequences of different lengths are refused. The transform-based convolution, the direct and the fast Fourier transform and the inverse agree with the defining sums, and forward followed by inverse gives the signal back; a fast transform accepts exactly the length it was made for and keeps working after a refusal.",
["inputs"],"all integer signals up to a length",
"Tests use a handful of fixed signals.",
["src/dsp/transform/circular_convolution.cpp","src/dsp/transform/fourier_transform.cpp","src/dsp/transform/fast_fourier_transform.cpp","src/dsp/transform/inverse_fourier_transform.cpp","src/dsp/transform/fourier_based_circular_convolution.cpp"],
[("cyclic sum","src/dsp/transform/circular_convolution.cpp")])
p("C26","MPI task registry and call chains: the right object, each call once, in order",
"Looking up a registered kind of task or result yields a copy, taken at registration, of the object registered last under that identity, and looking up an unregistered one is refused. A chain of asynchronous calls makes each call exactly once, in the order given, each only after the previous one has finished, and never starts a call while another is pending.",
["histories","schedules"],"all registration/lookup sequences, all completion orders",
"MPI code is not built by the test suite.",
[M+"identifyable_objects_manager.cpp",M+"async_call_chain.cpp"],[("registry",M+"identifyable_objects_manager.cpp"),("chain",M+"async_call_chain.cpp")])
p("C27","FFT: planning is serialised, so separate transforms may run concurrently",
"Any number of fast Fourier transform objects may be created, used and destroyed concurrently in different threads: plan creation and destruction in the underlying library never overlap, and each object returns the transform of its own input. Each object accepts exactly signals of the length it was created for.",
["schedules","histories"],"all interleavings of create, transform, destroy in several threads",
"The multithreaded unit test runs one OS-chosen schedule and checks nothing about overlap.",
["src/dsp/transform/fast_fourier_transform.cpp"],[("plan mutex","src/dsp/transform/fast_fourier_transform.cpp")])
p("C28","Continuous optimisers never evaluate the objective where constraints fail",
"The local continuous optimisers evaluate the user's objective only with parameter sets whose own constraints are satisfied; an attempt to leave them, or an optimum that violates them, is reported as an error to the caller and never silently evaluated or handed back. Parameters and objective functions of another kind are refused. Minimizing a function visits the same points as maximizing its negation. An optimizer used before, or a copy of one (where it can be copied), visits the same points as a fresh one with the same settings.",
["inputs","histories","configurations"],"all objective functions, constraint predicates, starts, and generator outputs",
"Examples use unconstrained parameters only.",
["src/optimization/continuous_optimizer.cpp","src/optimization/continuous_objective_function.cpp","src/optimization/simulated_annealing.cpp","src/optimization/hooke_jeeves_method.cpp","src/optimization/bounded_nelder_mead.cpp","src/optimization/conjugate_gradient_method.cpp","src/optimization/steepest_descent_method.cpp","src/optimization/hleborodov_rosenbrock_method.cpp"],
[("guarded evaluation","src/optimization/continuous_optimizer.cpp CountObjectiveFunctionValueToMinimize"),("copies","src/optimization/*.cpp Clone")])
p("C29","Numerical accuracy of spectral, wavelet and gradient methods",
"Fourier and wavelet transforms of real signals and the gradient-based optimisers are accurate to floating-point rounding for every input and length.",
["inputs"],"all real inputs and lengths",
"Tests sample a few signals with a tolerance.",
["src/dsp/transform/fast_fourier_transform.cpp","src/dsp/wavelet.cpp","src/optimization/conjugate_gradient_method.cpp"],
[("floating-point kernels","src/dsp, src/optimization")])
p("C30","MPI transfer: a task arrives as it was sent, outcomes equal the local ones",
"Parameters and optimisers sent to another process are received there as they were: into whatever object of the same kind, holding whatever values or settings before, the same values come to stand, and the received optimiser takes exactly the steps the sent one would take, also when several objects follow each other through one channel, in which nothing is left. A random search (with any local optimiser of the library that can be sent, or none) and a genetic algorithm whose tasks are distributed over MPI evaluate the same points and give the same result as the same run done in place, for any number of workers and any order of answers, when repeated on one object too. All kinds of tasks the library sends are registered before the worker pool is created.",
["schedules","inputs","configurations","histories"],"all values and settings, all sequences of objects in one channel, all numbers of workers and completion orders",
"MPI code is not built by the test suite.",
["src/optimization/count_objective_function_task.cpp","src/optimization/optimization_task.cpp","src/optimization/objective_function_task_result.cpp","src/optimization/optimization_task_result.cpp","src/optimization/params/discrete_parameters.cpp","src/optimization/params/continuous_parameters_array.cpp","src/optimization/hooke_jeeves_method.cpp","src/optimization/bounded_nelder_mead.cpp","src/optimization/conjugate_gradient_method.cpp","src/optimization/steepest_descent_method.cpp","src/optimization/hleborodov_rosenbrock_method.cpp"],
[("tasks field by field","src/optimization/optimization_task.cpp Send, Receive"),("answers","src/optimization/optimization_task_result.cpp ReceiveAsync, Send"),("settings","src/optimization/*_method.cpp Send, Receive")])
p("C31","Continuous wavelet transformation: every window in place, every scale its own",
"The continuous wavelet transformation yields one row for every step-th sample of the signal, each with one value per scale, in order: the modulus of the inner product of the sampled wavelet of that scale with the signal around that sample, samples outside the signal counting as zero. A sampled wavelet takes the wavelet function's values at its own scale, and the Haar function has its defined values, jumps included. The progress reported goes up with the rows, once per row, and a step that is not positive is refused.",
["inputs"],"all signals, steps, scale sets and sampled wavelets",
"The unit tests never run this transformation.",
["src/dsp/cwt.cpp","src/dsp/wavelet.cpp","src/dsp/haar_wavelet_function.cpp"],
[("windows","src/dsp/cwt.cpp"),("sampling","src/dsp/wavelet.cpp")])
p("C32","Gradient methods: downhill line searches that end at a small gradient",
"On a smooth strictly convex objective each iteration of the steepest descent and conjugate gradient methods moves along a line (of the negative gradient: always for steepest descent, first for conjugate gradients) to about its lowest point, and never to a higher value, whether the caller minimizes or maximizes. The result is the last point reached: one whose numerical gradient is within the precision, or the one after exactly the configured number of iterations; a start that is within the precision already is returned unchanged. On a quadratic function of n variables conjugate gradients arrive in at most n iterations.",
["inputs","configurations"],"all strictly convex smooth functions, starts, precisions, increments and iteration limits",
"The unit tests minimize three functions from fixed starts and compare the end point alone, with wide tolerances.",
["src/optimization/steepest_descent_method.cpp","src/optimization/conjugate_gradient_method.cpp"],
[("steepest descent and its line search","src/optimization/steepest_descent_method.cpp"),("conjugate directions","src/optimization/conjugate_gradient_method.cpp")])
p("C33","Rosenbrock method: orthogonal sweeps with growing and turning steps",
"Every sweep tests, from its start, one step along each of as many orthogonal directions as there are coordinates (first the coordinates themselves, with the configured first step); a step that improves the objective grows to 3/2 of its length, any other turns back at half of it, none beyond the configured maximum, and the sweep ends at its start plus the sum of these steps. The next sweep starts there and tests steps of those lengths, one of its directions being that of the displacement. The method ends after the first sweep that moves no coordinate by more than the precision, or after exactly the configured number of sweeps, and returns the end of the last sweep.",
["inputs","configurations"],"all objective functions, starts, steps, precisions and limits, minimizing and maximizing",
"The unit tests look at the end point for a few functions, which wrong steps reach just the same.",
["src/optimization/hleborodov_rosenbrock_method.cpp"],
[("sweeps","src/optimization/hleborodov_rosenbrock_method.cpp MakeStep, CorrectStep"),("new basis","src/optimization/hleborodov_rosenbrock_method.cpp CreateNewBasis")])
p("C34","Simulated annealing: walk within bounds, cooling to strict descent",
"Each iteration of simulated annealing proposes a neighbour that differs from the current point in one coordinate, any of them, by a value inside that coordinate's bounds. A point that is not worse is always accepted, a worse one with the exponential acceptance probability of a temperature falling linearly to zero, so that at zero temperature, or when differences are huge, it never is. The walk makes its configured number of iterations and ends where it stands, in a point it evaluated.",
["inputs","histories","configurations"],"all objective functions, starts, bounds, iteration numbers and generator outputs, minimizing and maximizing",
"No test runs it; what it accepts depends on random numbers.",
["src/optimization/simulated_annealing.cpp","src/optimization/continuous_optimizer.cpp"],
[("neighbours","src/optimization/simulated_annealing.cpp"),("acceptance and temperature","src/optimization/simulated_annealing.cpp")])
p("C35","GA: parents are drawn in proportion to fitness; statistics say how often",
"Each parent of a crossover is drawn from the previous generation on its own with a probability proportional to its fitness (none of fitness zero while others have more), whatever its place in the population, and every position of the chromosome is as likely to be the point of exchange. From the second generation on, the individuals' statistics shown to the observer list the individuals of the generation it was bred from, with their fitness and the number of times each was drawn as a parent, most often drawn first, and no individual counted zero times has children by crossover; the number of invalid chromosomes shown is that of the crossovers and mutations rejected in making the generation. Where no population is given, the first one is drawn at random, every valid chromosome being as likely for each individual, and the number of invalid chromosomes shown is that of the draws rejected.",
["inputs","histories","configurations"],"all populations, fitness values, constraints and generator outputs",
"Tests look at a run's outcome only; a biased choice of parents still finds optima of easy functions.",
["src/optimization/genetic_algorithm/genetic_algorithm.cpp","src/optimization/genetic_algorithm/individual.cpp","src/optimization/genetic_algorithm/generation_statistics.cpp"],
[("roulette","src/optimization/genetic_algorithm/genetic_algorithm.cpp SelectRandomIndividualIndexForCrossover"),("statistics","src/optimization/genetic_algorithm/genetic_algorithm.cpp GatherAllIndividualsStatistics")])
p("C36","Mexican hat and Morlet wavelet functions take their defined values",
"At every argument the Mexican hat function has the real value c(1-u*u)exp(-u*u/2) with u = t/3, where c > 0 makes its energy (the integral of its square) one; its mean is zero. The Morlet function has the value exp(5it - t*t/2). Both depend on the argument alone.",
["inputs"],"all arguments",
"No test calls them.",
["src/dsp/mhat_wavelet_function.cpp","src/dsp/morlet_wavelet_function.cpp"],
[("Mexican hat","src/dsp/mhat_wavelet_function.cpp"),("Morlet","src/dsp/morlet_wavelet_function.cpp")])
p("C37","Pattern search: explores coordinate by coordinate, leaps where it pays",
"From its base b the pattern search tests for each coordinate in turn one step forward and, where that is no improvement, one back, keeping every strict improvement. If nothing improved, the steps are divided by the divider; otherwise, with c the point found, it leaps to b + a(c - b), explores from there, and c becomes the base; while the point explored is strictly better than c, it becomes the next c and the leap is repeated. The method ends, returning the last c, once the Euclidean norm of the steps is at most the precision after an exploration, or after exactly the configured number of leaps that paid.",
["inputs","histories","configurations"],"all objective functions, starts, steps, dividers, accelerations, precisions and limits (explored in one to four dimensions), minimizing and maximizing",
"The unit tests look at the end point for a few functions, which other moves reach just the same.",
["src/optimization/hooke_jeeves_method.cpp"],
[("exploration","src/optimization/hooke_jeeves_method.cpp CoordinatewiseSearch"),("leaps","src/optimization/hooke_jeeves_method.cpp FindOptimalParameters")])
p("C38","Simplex method: every move is the one the simplex calls for",
"Every point the bounded simplex method evaluates after its first simplex (the start among its vertices) is the reflection of a worst vertex through the centre of the others, clipped to the bounds; when that is better than every vertex, the expansion to twice its distance, clipped likewise; when it is worse than every other vertex, the contraction halfway between the centre and the better of the worst vertex and its reflection; and when that is worse still, the vertices moved halfway towards a best one. The better of reflection and expansion, or whatever else was tried last, replaces the worst vertex. The method ends once the standard deviation of the values is at most the precision (or with a simplex it had before, or after 1000 iterations for each dimension) and returns a best vertex.",
["inputs","histories","configurations"],"all objective functions, starts, bounds, simplex sizes and precisions (explored in two to four dimensions), minimizing and maximizing",
"The unit tests look at the end point for a few functions, which other moves reach just the same.",
["src/optimization/bounded_nelder_mead.cpp"],
[("moves","src/optimization/bounded_nelder_mead.cpp FindOptimalParameters"),("end","src/optimization/bounded_nelder_mead.cpp GetTerminationCriteria")])
p("C39","Grid search: every point of the grid is evaluated once, a best one returned",
"A grid search evaluates the objective function exactly once at every combination of coordinates lower, lower + precision, lower + 2 precision, ... not above the upper bound, and nowhere else, whatever values the parameters start with, with or without worker threads, and for every search made with the same object. The parameters then hold the values of a point of the grid where the function is greatest (maximizing) or least (minimizing). A lower bound above the upper is refused without an evaluation and leaves the parameters alone; so are parameters that are not continuous; a failing evaluation is reported.",
["inputs","histories","configurations"],"all bounds, steps, dimensions, objective functions and directions; sequential and threaded counting; several searches with one object",
"No test makes a grid search.",
["src/optimization/grid_search.cpp","include/k52/optimization/grid_search.h"],
[("grid","src/optimization/grid_search.cpp Optimize"),("choice","src/optimization/grid_search.cpp Optimize")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
