#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per property; kept here because JSON lines are hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

# ------------------------------------------------------------------ common
p("C01", "Bounded buffer: exactly-once FIFO hand-over, capacity, no lost wake-ups",
  """A bounded buffer shared by several producer and consumer threads hands out every accepted item exactly once and in the order of acceptance, and never
  holds more items than its capacity (an unbounded buffer never refuses or blocks a push). A non-blocking or timed call that reports failure leaves the buffer and the caller's item unchanged.
  A blocked or timed call proceeds as soon as any kind of pop (or push) makes that possible; no interleaving deadlocks, races or leaves a waiter asleep.""",
  ["schedules", "histories"], "all interleavings of 2-4 threads using every push/pop flavour (try, blocking, timed; copy and move), capacities 0, 1, 2, including early timer expiry and spurious wake-ups",
  "the unit tests run free-running threads over large buffers: lost wake-ups need one specific interleaving of a full (or empty) buffer and are masked by the next operation",
  ["include/common/GBoundedBufferT.hpp"],
  [("mutex + m_not_empty / m_not_full condition variables", "GBoundedBufferT"), ("predicate waits", "push_and_block_*/pop_and_wait_*")], ["return values and items of push/pop"])
p("C02", "Thread pool: every task runs exactly once and its future is fulfilled",
  """Every task submitted to a thread pool is executed exactly once, whichever threads (other than the pool's own) submit and however the pool is resized between submissions, and its future delivers the task's result, its completion (void tasks) or its exception.
  wait() returns only when every task submitted before has finished; destruction and resizing (to any positive size) finish the pending tasks and never deadlock, lose or duplicate a task.""",
  ["schedules", "histories"], "all interleavings up to the preemption bound of 1-2 submitters, 1-3 workers, wait, resize and destruction, with value, void and throwing tasks",
  "the existing tests only submit thousands of tasks from one thread and call wait(); void futures are never read, resize under load is not tried",
  ["include/common/GThreadPool.hpp", "src/common/GThreadPool.cpp", "include/common/GThreadGroup.hpp", "src/common/GThreadGroup.cpp"],
  [("task counter + condition", "GThreadPool::wait, async_schedule"), ("promise/future pair per task", "GThreadPool::async_schedule")], ["futures, task side effects"])
p("C03", "Barrier releases nobody early and everybody eventually",
  """No thread returns from wait() on a barrier of size n before n threads have called it in the current round; once the n-th has arrived all n return, exactly one of them with 'true', and the barrier is ready for the next round.
  A barrier of size zero is refused.""",
  ["schedules"], "all interleavings of n=1..3 threads over 1-3 rounds, including spurious wake-ups",
  "there is no test for the barrier at all; early release needs a schedule in which a thread waits before the last one arrives", ["include/common/GBarrier.hpp"],
  [("count + generation under a mutex", "GBarrier::wait")], ["return of wait()"])
p("C04", "Singletons are created once and published safely",
  """All threads that ask for a singleton, however their first accesses interleave, obtain the same fully constructed object, whose construction happens exactly once, without a data race. After an explicit reset the old object stays valid for its holders and the next access creates exactly one new object.""",
  ["schedules"], "all interleavings of 2-3 threads' first accesses, and of access after reset",
  "the existing test calls Instance() many times without controlling the first access; a double construction or unsafe publication needs a preemption inside the first call", ["include/common/GSingletonT.hpp"],
  [("double checked creation under a mutex", "GSingletonT::Instance")], ["identity of the returned object"])
p("C05", "Log messages reach every target once, whole and in one order",
  """Every message logged, from any thread, is delivered exactly once and unmodified to each registered log target (to the default target if there is none), with or without a source extension; deliveries of different messages never overlap and all targets see the same order. Messages of warning type additionally carry where they arose and exception-type messages throw the library's exception with the message text.""",
  ["schedules", "inputs"], "all interleavings of 2-3 logging threads, 0-2 targets, all message kinds that do not terminate the process",
  "no test inspects what targets receive", ["include/common/GLogger.hpp", "src/common/GLogger.cpp"], [("m_logger_mutex", "GLogger::log")], ["calls received by a GBaseLogTarget"])
p("C06", "Fixed-size priority queue keeps exactly the best entries, in order",
  """After any sequence of additions (single items or batches, with or without replacement of the content), a fixed-size priority queue holds exactly the best N of the items it has been offered (all of them if the size limit is 0), best first, where 'best' follows the chosen sort order; no identifier occurs twice.
  Queries (best, worst, n-th, size, limits) agree with that content, cloning and copying preserve it, and shrinking the limit drops the worst entries only.""",
  ["histories", "inputs"], "all operation sequences up to depth 4-5 over a 3-value item alphabet with colliding identifiers and equal values, limits 0-3, both sort orders",
  "the only test adds a few individuals once; order, limit and duplicate handling interact over sequences of operations", ["include/common/GFixedSizePriorityQueueT.hpp", "include/geneva/GParameterSetFixedSizePriorityQueue.hpp", "src/geneva/GParameterSetFixedSizePriorityQueue.cpp"],
  [("sort + trim after insertion", "GFixedSizePriorityQueueT::add"), ("duplicate removal by id", "GFixedSizePriorityQueueT::add")], ["items() / getBest / toVector"])
p("C07", "Pointer and value containers behave like std::vector with owned, cloned elements",
  """Every operation of the container base classes gives the same content as the same operation on a std::vector of values. Elements inserted 'with clone' are independent of the caller's object, elements inserted 'without clone' are the caller's object, no empty pointer is ever stored (except by resize_empty, which says so), and copies of the container are deep copies that compare equal until one is changed.""",
  ["histories", "inputs"], "all operation sequences up to depth 3-4 over small arguments (positions, counts 0-2, two elements)",
  "the tests call the interface functions once in one fixed order", ["include/common/GPtrVectorT.hpp", "include/common/GPODVectorT.hpp"],
  [("vector interface re-implementation", "GPtrVectorT / GPODVectorT")], ["container content"])
p("C08", "Formula parser evaluates every formula like ordinary arithmetic",
  """For every well-formed formula over numbers, named parameters (scalar and indexed), constants, the operators + - * / unary + - and parentheses, and the supported functions, the parser's value equals that of ordinary arithmetic with the usual precedence and left associativity; parsing the same text again gives the same value.
  Malformed formulas, unknown names, divisions by zero and function arguments outside the domain raise the documented exceptions instead of yielding a number.""",
  ["inputs", "programs"], "all formulas with up to 4 leaves over a small alphabet of numbers, a scalar, an indexed parameter and constants, all functions with argument grids that include domain borders, and all single-token malformations",
  "the test evaluates a handful of formulas", ["include/common/GFormulaParserT.hpp"], [("grammar", "GFormulaParserT constructor"), ("compiler to stack code and interpreter", "GFormulaParserT::operator()/execute")], ["evaluate()"])
p("C09", "Configuration files round-trip every registered option",
  """An option registered with a parser builder (scalar, vector, fixed-size array or pair of values; by reference or call-back) takes exactly the value the configuration file gives, and its default if the file does not mention it; a file written by the builder, also when it was created because it did not exist, restores every option when it is read by this or another builder. A list-valued option that is missing or of the wrong type, broken or mis-named files, overwriting an existing file and (debug builds) duplicate names are refused (exception, or 'false' from parseConfigFile); no refused or partial file gives an option a value which is neither its old one, its default nor the file's. Command line options behave alike.""",
  ["inputs", "histories"], "all subsets/orders of a 6-kind option alphabet with 2-3 values each, written, modified and read back; single-entry deletions and type corruptions of the file",
  "no test parses modified configuration files", ["include/common/GParserBuilder.hpp", "src/common/GParserBuilder.cpp"], [("property tree load/save per option", "GParserBuilder")], ["values after parseConfigFile"])
# ------------------------------------------------------------------ hap
p("C10", "Random-number service: packages are delivered once each and shutdown never hangs",
  """Concurrent clients of the random number factory all obtain packages, no package content is ever handed to two clients, recycled packages are refilled before they are handed out again, and a client never receives fewer fresh numbers than a package holds. Seeds never repeat, the number of producers is the one asked for; changing it and shutting the factory down at any moment, neither deadlocks, races nor leaves a client without numbers before shutdown.""",
  ["schedules"], "all interleavings up to the preemption bound of 1-2 clients, 1-2 producers, recycling, reseeding and finalisation",
  "the tests draw numbers from one thread at a time and cannot observe hand-over or shutdown races", ["src/hap/GRandomFactory.cpp", "include/hap/GRandomFactory.hpp", "include/hap/GRandomT.hpp"],
  [("fresh and recycled package buffers, producer threads", "GRandomFactory::producer/getNewRandomContainer")], ["containers returned"])
p("C11", "Random distributions stay inside their range for every raw number",
  """For every stream of raw 64-bit numbers and every admissible parameter set, the library's distributions only return values of their support: uniform reals in [min,max), uniform integers in [min,max] with every value reachable, Bernoulli false for p=0 and true for p=1, bi-normal values finite, weighted bools consistent with p.
  Bi-normal values come from the peak and width their parameters say; distribution objects can be compared, copied, re-parameterised and reset without changing behaviour.""",
  ["inputs"], "all raw streams of length up to 4 over a border alphabet (0, 1, 2^31, 2^32-1, 2^63, 2^64-1 ...) times a grid of parameters",
  "tests draw from the ordinary stream, where border values never appear", ["include/hap/GRandomT.hpp", "include/hap/GRandomBase.hpp", "include/hap/GRandomDistributionsT.hpp"],
  [("distribution objects", "GRandomDistributionsT")], ["returned numbers"])
# ------------------------------------------------------------------ courtier
p("C12", "Broker returns every work item exactly once to the port it came from",
  """Every work item put into an enrolled buffer port is handed to exactly one consumer request and, once processed, comes back exactly once through the very port it came from, whatever number of ports and consumers is active and however they interleave. Items of a port that was closed meanwhile are refused or dropped without affecting other ports; several ports are all served (no port starves while others are idle).""",
  ["schedules", "histories"], "all interleavings up to the preemption bound of 1-2 ports with 1-2 items each, 1-2 consumer threads, port closing and timers",
  "no test uses the broker at all", ["include/courtier/GBrokerT.hpp", "include/courtier/GBufferPortT.hpp", "include/courtier/GWorkerT.hpp", "include/courtier/GBaseConsumerT.hpp", "include/courtier/GStdThreadConsumerT.hpp", "include/courtier/GSerialConsumerT.hpp"],
  [("round robin over buffer ports", "GBrokerT::get"), ("raw and processed queues per port", "GBufferPortT")], ["items received by the port owner"])
p("C13", "Executors return every submitted item, once, in place, with a truthful status",
  """An executor's workOn, whatever the executor (serial, multi-threaded or broker-based), the number of worker threads, the mixture of items to be processed and to be ignored, and the items that fail, leaves each position of the work vector holding the item that was there, processes each item that asked for it exactly once and the others not at all, and never blocks when nothing has to be done.
  The returned status says 'complete' exactly if every item asked for came back, and reports errors exactly if some item failed.""",
  ["schedules", "histories", "fault_sequences"], "all vectors of up to 3-4 items over {process, ignore, fail in user code}, all interleavings up to the preemption bound, repeated calls",
  "no test calls an executor", ["include/courtier/GExecutorT.hpp", "include/courtier/GCourtierEnums.hpp", "include/courtier/GWorkerT.hpp"],
  [("submission, wait and sorting of returned items", "GBaseExecutorT::workOn"), ("command/status fields of the item", "GProcessingContainerT")], ["work vector and status"])
p("C14", "Work items follow their life cycle and never report a result they do not have",
  """A work item changes state only along ignore / to-be-processed / processed / failed; processing runs pre-processing, evaluation and post-processing exactly once and in that order if and only if the item asked for it. Results are readable only in the processed state, contain what evaluation registered, and any exception (also in pre- or post-processing) leaves the item in a failed state with the error message and is reported to the caller.""",
  ["histories", "fault_sequences"], "all sequences up to depth 4-5 of life-cycle operations with every combination of failing/vetoing steps, compared with a reference state machine",
  "tests never process failing items", ["include/courtier/GProcessingContainerT.hpp"], [("processing status and stored results", "GProcessingContainerT::process")], ["processing status, results, exceptions"])
p("C15", "Work items and commands survive the transfer to a remote worker and back",
  """The transfer container used between server and client reproduces command and payload (its dynamic type, content, life cycle state, results, errors and bookkeeping) exactly in all serialization modes, including absence of a payload, so that remote processing gives what local processing would; a truncated or foreign text is refused with the library's exception (a cut inside the very last value of a text may go unnoticed) and never leaves an earlier payload in place.""",
  ["inputs", "fault_sequences"], "all commands x payload kinds x serialization modes; every truncation point and every single-byte deletion of the wire text",
  "no test covers the networked mode", ["include/courtier/GCommandContainerT.hpp", "include/courtier/GBaseClientT.hpp", "include/common/GSerializationHelperFunctionsT.hpp"], [("boost serialization of GCommandContainerT", "container_to_string/container_from_string")], ["restored container"])
p("C16", "Networked server and clients exchange each item once despite failing clients",
  """A server that hands out work items over TCP gives each waiting item to a requesting client, accepts every well-formed result and delivers it to the submitting executor; clients that disconnect, send malformed data or never answer do not stop the server, do not corrupt other items, and a client processes each item it received exactly once before returning it.""",
  ["fault_sequences", "histories"], "all orders of well- and ill-behaved client sessions up to depth 3 against the real server over the loopback interface",
  "no test opens a connection", ["include/courtier/GAsioConsumerT.hpp", "include/courtier/GBaseClientT.hpp"], [("session state machine", "GAsioConsumerSessionT"), ("client state machine", "GAsioConsumerClientT")], ["bytes on the socket, items returned"])
# ------------------------------------------------------------------ geneva: parameters
p("C17", "Constrained parameters always stay inside their value range",
  """Whatever internal value mutation or assignment produces, the value a user sees of a constrained parameter (floating point, integer, single or in collections) lies within its boundaries; values already inside the boundaries are seen unchanged, values outside are folded back continuously (integers: without skipping or favouring), and setting or getting the value agrees.
  Boundaries and values that contradict each other are refused with an exception.""",
  ["inputs", "histories"], "grids of boundaries, internal values spanning several periods on both sides, representation extremes, and all sequences of set/boundary/reset operations up to depth 3",
  "tests sample a few thousand internal values near the range", ["include/geneva/GConstrainedFPT.hpp", "include/geneva/GConstrainedIntT.hpp", "include/geneva/GConstrainedNumT.hpp", "include/geneva/GConstrainedNumCollectionT.hpp", "include/geneva/GConstrainedFPNumCollectionT.hpp"],
  [("transfer function", "GConstrainedFPT::transfer, GConstrainedIntT::transfer")], ["value()"])
p("C18", "Flattening a parameter tree and assigning it back is lossless",
  """For every nesting of parameter objects and collections, extracting the parameters of a type (as vector or by name) yields every parameter of that type exactly once, in tree order, with matching counts and boundaries; assigning the extracted vector back changes nothing, assigning a different vector sets exactly these values, and requests restricted to active (or inactive) parameters touch only those. A vector of wrong length is refused or detected and scaling/adding applies to every parameter of the requested type once.""",
  ["inputs", "histories"], "all parameter trees with up to 4 parameter objects of 8 kinds in nested collections, active/inactive markings, x all extraction/assignment operations",
  "tests use one fixed individual", ["include/geneva/GParameterBase.hpp", "include/geneva/GParameterSet.hpp", "include/geneva/GParameterTCollectionT.hpp", "include/geneva/GParameterCollectionT.hpp", "include/geneva/GParameterT.hpp"],
  [("streamline/assignValueVector recursion", "GParameterSet, GParameterTCollectionT")], ["vectors / maps returned"])
p("C19", "Copies are equal, independent and survive every serialization mode",
  """For each class of parameter objects, adaptors, individuals, personality traits, constraints, optimization algorithms, monitors, executors and plots, in each reachable configuration: cloning, loading and (de)serialization in text, XML and binary mode give an object that compares equal to the original, shows the same values and behaves the same (whatever the receiving object was before), later changes of either leave the other untouched, and objects which differ in a compared value are not considered equal (never: an error because nested objects have different types).""",
  ["inputs", "histories"], "all classes x all sequences of up to 2 modifying operations x clone/load/three serialization modes",
  "tests check a few fixed modifications per class; members forgotten in one of copy, load, compare or serialize are only seen if exactly that member was changed before", ["include/geneva/GObject.hpp", "src/geneva/GObject.cpp", "src/geneva/GParameterSet.cpp", "include/common/GSerializationHelperFunctionsT.hpp", "src/geneva"],
  [("load_/compare_/clone_/serialize of every class", "all GObject derivatives")], ["compare(), observable getters"])
p("C20", "Mutation obeys its adaptor's settings for every random draw",
  """For every sequence of random numbers: an adaptor changes a value only if its mode, probability and iteration threshold permit (never with probability zero or mode 'never', always when 'always'), step widths and adaption probabilities stay within their configured limits while they adapt themselves, flip adaptors move by exactly one step or invert the boolean, and inactive parameters or parameters without matching activity are left alone. The return value tells how many adaptions took place.""",
  ["inputs", "histories"], "all sequences of up to 4 adaption calls over an enumerated random alphabet x all adaptor kinds x a grid of settings",
  "tests only observe statistics of ordinary random streams", ["include/geneva/GAdaptorT.hpp", "include/geneva/GNumGaussAdaptorT.hpp", "include/geneva/GNumBiGaussAdaptorT.hpp", "include/geneva/GNumFlipAdaptorT.hpp", "include/geneva/GFPGaussAdaptorT.hpp", "include/geneva/GIntGaussAdaptorT.hpp", "include/geneva/GIntFlipAdaptorT.hpp", "src/geneva/GBooleanAdaptor.cpp"],
  [("adapt / customAdaptions / adaptAdaption", "GAdaptorT")], ["value before/after, adaptor getters"])
p("C21", "A fitness value is only ever the fitness of the current parameters",
  """Whatever sequence of modifications (mutation, crossover, random initialisation, assignment, loading), evaluations and copies an individual undergoes, a fitness value can be read only if it was computed from exactly the current parameter values; each evaluation calls the user's fitness function exactly once and none is called otherwise, all criteria belong to the same evaluation, and evaluation errors leave no stale value behind.""",
  ["histories", "fault_sequences"], "breadth-first search over all operation sequences up to depth 4 with a recording fitness function that may fail",
  "tests evaluate individuals in one straight line", ["src/geneva/GParameterSet.cpp", "include/geneva/GParameterSet.hpp", "include/courtier/GProcessingContainerT.hpp"],
  [("processing status dirty flag and stored results", "GParameterSet / GProcessingContainerT")], ["raw_fitness, is_processed, is_due_for_processing"])
p("C22", "Invalid candidate solutions never beat valid ones",
  """With constraints attached, a candidate violating them never has a better transformed fitness than any valid candidate of the same population, for maximisation and minimisation, under the evaluation policies that penalise violations (worst case, sigmoid), and the user's function runs for valid candidates only (under simple evaluation: for all, with its result unchanged); validity equals the logical combination of the individual constraints under the chosen policy, the fitness of valid candidates equals what the user's function returned, and constraints keep their effect after copying, loading and serialization of the individual.""",
  ["inputs", "histories"], "all pairs of individuals over a grid of 19 constraint and 7 fitness values x evaluation policies x ways of copying; combiner trees of depth 2; histories of depth 4-5",
  "tests evaluate one constraint object", ["include/geneva/GMultiConstraintT.hpp", "src/geneva/GParameterSetMultiConstraint.cpp", "src/geneva/GParameterSet.cpp"],
  [("validity level + fitness transformation", "GParameterSet::fitness_, postEvaluationWorstCaseValidityCheck"), ("validity combiners", "GMultiConstraintT")], ["transformed_fitness, isValid"])
# ------------------------------------------------------------------ geneva: algorithms
p("C23", "Evolutionary selection keeps the best and the population's shape",
  """In every iteration of an evolutionary algorithm the parents of the next iteration are the best candidates of the pool its sorting mode defines (plus: parents and children, comma: children, the mixed mode as documented), best first; the population has the configured numbers of parents and children (plus the configured growth up to its limit), every individual carries a truthful parent/child marking and position while it is evaluated and the chosen parents are marked as such, children descend from existing parents, and the best fitness never gets worse where parents survive.""",
  ["histories", "configurations"], "all fitness assignments to the individuals of 2-3 iterations over a 3-value alphabet, 1-3 parents, 1-4 children, every sorting mode and recombination scheme, both optimisation directions",
  "no test runs an optimization algorithm", ["src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp", "src/geneva/G_OptimizationAlgorithm_ParChild.cpp"],
  [("selectBest and sort*Mode", "GEvolutionaryAlgorithm"), ("recombine, markParents/markChildren", "GParameterChild base")], ["population after each iteration"])
p("C24", "Pareto selection returns exactly the non-dominated candidates",
  """With several fitness criteria, the Pareto modes place every non-dominated candidate of the selection pool, and no dominated one, ahead of all dominated ones (as far as the number of parents allows), where a dominates b if it is not worse in any criterion and better in at least one, for maximisation and minimisation.""",
  ["inputs"], "all assignments of 2 criteria over a 3-value alphabet to pools of up to 5 individuals, both directions, both Pareto modes", "no test uses more than one criterion in a selection",
  ["src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp"], [("aDominatesB and Pareto tagging", "GEvolutionaryAlgorithm::sortMuPlusNuParetoMode")], ["parents after selection"])
p("C25", "Swarm bests are the best positions ever visited",
  """In a swarm algorithm, after each iteration every individual's personal best, every neighbourhood's best and the global best equal the best position (with its fitness) visited so far by that individual, in that neighbourhood, by the swarm; positions outside the value range are handled as configured, velocities stay within the limit and persist scaled by the inertia. Neighbourhoods keep their configured sizes.""",
  ["histories", "configurations"], "all fitness assignments over a 3-value alphabet for up to 3 iterations, 1-3 neighbourhoods of 1-3 members, both directions",
  "no test runs the swarm algorithm", ["src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp"], [("updatePersonalBest / findBests", "GSwarmAlgorithm")], ["bests after each iteration"])
p("C26", "Simulated annealing accepts by Metropolis' rule and cools as configured",
  """In simulated annealing a better child always replaces its parent and a worse one only with the probability exp(-difference/temperature) given by the drawn random number, for both optimisation directions; the temperature is multiplied by the configured factor once per iteration and never becomes negative; population shape and markings are maintained.""",
  ["histories", "inputs"], "all fitness assignments over a small alphabet, random draws over a border alphabet, up to 3 iterations, both directions", "no test runs simulated annealing",
  ["src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp"], [("saProb, sortSAMode, updateTemperature", "GSimulatedAnnealing")], ["parents after each iteration"])
p("C27", "Gradient descent steps along the finite-difference gradient within bounds",
  """In each iteration a gradient descent places one probe per active floating point parameter of each starting point, displaced by exactly the configured finite step of that parameter's range, and moves the starting point against (minimisation) or along (maximisation) the measured difference quotient times the step size, never outside the value range, with one fitness evaluation per probe and per starting point.""",
  ["inputs", "histories"], "all linear and quadratic landscapes over a small coefficient alphabet, 1-2 starting points, 1-3 parameters, both directions, up to 3 iterations",
  "no test runs the gradient descent", ["src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp"], [("updateChildParameters/updateParentIndividuals", "GGradientDescent")], ["positions evaluated in each iteration"])
p("C28", "A parameter scan evaluates each grid point exactly once",
  """A parameter scan in grid mode evaluates, for every combination of the requested dimensions (floating point, integer, boolean, addressed by index or name), each grid point exactly once and nothing else, end points included, then stops; random modes evaluate the requested number of points inside the requested ranges. The best point found is the best of those evaluated, however the points are distributed over iterations, and the result does not depend on how often the algorithm was copied before.""",
  ["configurations", "inputs"], "all scans of up to 3 dimensions of 4 kinds with 1-4 steps, iteration sizes 1..n+1", "no test runs a parameter scan",
  ["src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp", "include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp", "src/geneva/GParameterPropertyParser.cpp"], [("switchToNextParameterSet, dataPoint iteration", "GParameterScan")], ["evaluated points"])
p("C29", "Optimization stops exactly when a configured criterion is met",
  """Every optimization algorithm iterates until its iteration counter, which starts at the configured offset, reaches the configured maximum, unless more stalls than allowed, a best fitness beyond the quality threshold, the maximum duration, a criterion of a derived class, a hang-up signal or a touched termination file ends it earlier; it stops after the very iteration in which a criterion is met (criteria other than those raised by the user not before the configured minimum of iterations and time), and not otherwise. Iteration and stall counters, the record of the best fitness, and what individuals and monitors are told about them are truthful after each iteration and after the end.""",
  ["histories", "configurations"], "all sequences of best fitness values over a 3-value alphabet of length up to 5 x all combinations of limits from a small grid x all algorithms",
  "no test runs an optimization algorithm", ["src/geneva/G_OptimizationAlgorithm_Base.cpp", "include/geneva/G_OptimizationAlgorithm_Base.hpp"], [("halt and its helper predicates", "G_OptimizationAlgorithm_Base::optimize")], ["iterations performed, counters"])
p("C30", "The best solution reported is the best ever evaluated",
  """At the end of an optimization run, and in every iteration, the best individuals an algorithm reports are truly the best (by their primary criterion) of the successfully evaluated, valid candidates so far, with the parameters they were evaluated with, in the right order and number, for every algorithm with a single criterion, direction and size of the best-of list; the best individuals of an iteration are those of its population in this order and include the best one evaluated in it.""",
  ["histories", "configurations"], "all fitness landscapes over a small alphabet, all algorithms, 1-3 iterations, 1-3 recorded individuals", "no test runs an optimization algorithm",
  ["src/geneva/G_OptimizationAlgorithm_Base.cpp", "src/geneva/GParameterSetFixedSizePriorityQueue.cpp", "include/geneva/G_Interface_OptimizerT.hpp"], [("global and iteration best queues", "G_OptimizationAlgorithm_Base")], ["getBestGlobalIndividual(s), getBestIterationIndividual(s)"])
p("C31", "Checkpoints are written when configured, restore the complete state and survive crashes",
  """Loading a checkpoint file restores the algorithm's complete state in every serialization mode, so that continuing after the iteration of the file gives the same evaluations, populations and best individuals as continuing the saved object itself (also through Go2, where the remaining algorithms of the chain follow). Checkpoints are written after exactly the configured iterations (an interval, or every improvement), the preceding one is removed only after the new one is complete and only if so configured, so that after a crash or a full disc at any byte a complete checkpoint remains, and a run never goes on silently after a failure to write. Truncated files, files of other algorithms and absent files are refused with an exception and leave the algorithm unchanged.""",
  ["histories", "crash_points", "configurations"], "every iteration of short runs of all algorithms as stop point x serialization modes x fitness answers; intervals x removal x repeated runs; crashes and full discs at positions spread over the file", "tests never resume a run or interrupt the writing of a checkpoint",
  ["src/geneva/G_OptimizationAlgorithm_Base.cpp", "include/geneva/G_Interface_OptimizerT.hpp", "src/geneva/Go2.cpp", "include/common/GCommonInterfaceT.hpp"], [("checkpoint/saveCheckpoint/loadCheckpoint", "G_OptimizationAlgorithm_Base")], ["checkpoint files, state and further run after loading"])
p("C32", "Parameter specification strings are parsed exactly or refused",
  """Every well-formed specification of parameters to be scanned yields exactly the listed variables with their types, identifiers (by index, by name, by name and index), boundaries and step counts in the given order; every other text is refused with an exception.""",
  ["inputs", "programs"], "all specifications of up to 3 variables over a small alphabet and all their single-token deletions, swaps and insertions", "no test parses specifications", ["src/geneva/GParameterPropertyParser.cpp", "include/geneva/GParameterPropertyParser.hpp"],
  [("spirit grammar", "GParameterPropertyParser")], ["iterators over parsed properties"])
p("C33", "Chained algorithms pass on the best solutions and count iterations through",
  """When several algorithms are chained (passing on the best individuals only, the default), each starts from the best individuals of its predecessor and continues its iteration count, pluggable monitors see every iteration of every algorithm exactly once and in order (with one start and one end notice each), and the result of the chain is the best individual of the whole chain.""",
  ["configurations", "histories"], "all chains of up to 2-3 algorithms of 4 kinds with 1-3 iterations each", "no test runs Go2", ["src/geneva/Go2.cpp", "include/geneva/Go2.hpp", "src/geneva/GPluggableOptimizationMonitors.cpp"],
  [("optimize_ loop over algorithms", "Go2::optimize"), ("monitor information call-backs", "G_OptimizationAlgorithm_Base::informationUpdate")], ["monitors and final best"])
p("C34", "Comparison functions detect every difference and nothing else",
  """The equality, inequality and similarity checks applied to basic types, containers, smart pointers and library objects hold exactly when the operands are (un)equal, respectively within the stated tolerance; equality and inequality are each other's negation and symmetric, and the reported difference names the differing member.""",
  ["inputs"], "all pairs over small alphabets per supported type (including empty pointers, different lengths, infinities, borders of the tolerance)", "tests rely on these checks instead of testing them", ["include/common/GExpectationChecksT.hpp", "src/common/GExpectationChecksT.cpp"],
  [("compare(identity_t)", "GExpectationChecksT")], ["exception or not"])
p("C35", "Built-in objective functions compute the documented formulas",
  """Each objective function shipped with the library returns, for every parameter vector, the value of its published formula within rounding, independent of earlier evaluations, and every parameterisation offered (single values, collections, constrained or not) describes the same vector. Individuals made by the function factory have the configured parameter type, dimension, range, function and adaptor settings.""",
  ["inputs", "configurations"], "all functions x parameterisations x all points of a small grid in 1-4 dimensions", "tests only construct the individuals", ["src/geneva-individuals/GFunctionIndividual.cpp", "include/geneva-individuals/GFunctionIndividual.hpp"],
  [("solverFunction switch", "GFunctionIndividual::fitnessCalculation")], ["fitness"])
p("C36", "Mathematical helpers agree with their definitions for all inputs",
  """The helper functions for sums, means, deviations, minima/maxima, range enforcement, element-wise vector arithmetic and string or token conversion return what their definition says for every admissible argument (including single elements, equal values and negative numbers) and refuse inadmissible ones, e.g. empty or unequally long vectors.""",
  ["inputs"], "all vectors of length 0-4 over a small alphabet including borders", "tests call a few of them with one argument", ["include/common/GCommonMathHelperFunctionsT.hpp", "include/common/GCommonHelperFunctionsT.hpp", "src/common/GCommonMathHelperFunctions.cpp", "src/common/GCommonHelperFunctions.cpp"],
  [("templates", "GCommonMathHelperFunctionsT")], ["return values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
