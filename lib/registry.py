"""One entry per claimed property: how its check is built and described (MANIFEST.json is generated from this)."""
MC = "stateless model checking of the real code: all schedules up to a preemption/delay bound under a controlled scheduler, HB-trace pruning, race detection"
SQ = "bounded exhaustive enumeration of operation sequences/inputs on the real code against a reference model"
CHECKS = {
 "C01": dict(engine="mc", libs=["common_base"],
   technique=MC + "; brute-force linearizability",
   note="All schedules with at most the stated number of deviations of 14 closed drivers (1-4 threads, capacities 0-2, every push/pop flavour), with plain-access race detection, deadlock and livelock detection. Assumes sequentially consistent atomics and libstdc++'s mutex/condition variable semantics as modelled by mc/mcrt.cpp."),

 "C06": dict(engine="sq", libs=["common_base"], technique=SQ,
   note="All operation sequences up to the stated depth over 7 item identities, 3 value patterns, limits 0-3, both sort orders; every copy mechanism at the end. Which of several equally good entries survives a cut is left open."),

 "C07": dict(engine="sq", libs=['common_base'], technique=SQ,
   note='All operation sequences up to the stated depth on containers of up to five elements and two caller-owned objects (one of a derived class), values, identities (sharing) and copies compared with std::vector after every step.'),
 "C08": dict(engine="sq", libs=['common_base'], technique=SQ,
   note="All token sequences up to length 6 over three token alphabets (spaced and tight), all operator chains of length 5 with every parenthesis placement, all functions over 14 arguments and all nestings of two, number formats and placeholder values; oracle: an independent recursive-descent evaluator. Values within 1e-12 relative (the repository's number reader is not correctly rounded)."),
 "C09": dict(engine="sq", libs=['common_base'], technique=SQ,
   note='All operation sequences (change default, write all/essential, parse, edit file) up to the stated depth for each of 16 kinds of options, all ordered pairs of kinds, all refusal cases, every truncation of a written file, 2x4x3x3x3x4 command lines in every order.'),
 "C11": dict(engine="sq", libs=['common_base', 'hap_fac', 'hap_base'], technique=SQ,
   note='All raw-number scripts of length 4 (6 thorough) over eight raw numbers including the extremes, then a fixed stream; eight parameter sets; all operation sequences on distribution objects up to depth 3-4. The reference for values is the standard library on the same raw stream.'),
 "C14": dict(engine="sq", libs=['common_base', 'courtier_base', 'hap_fac', 'hap_base'], technique=SQ,
   note='All operation sequences (state setters, processing with every combination of succeeding/throwing/flagging pre-processing, evaluation and post-processing, external processors, vetoes, copies, serialization) up to depth 6 (8 thorough), explicit-state pruning on the reference state.'),
 "C15": dict(engine="sq", libs=['common_base', 'courtier_base', 'hap_fac', 'hap_base'], technique=SQ,
   note='All commands x ten payload contents (two dynamic types, extreme numbers, special strings, nested items, pre/post-processors) x five life cycle states x three modes; all round trips server-client-server with up to two hops each way in every mode combination; every truncation of the texts of six containers in each mode.'),
 "C17": dict(engine="sq", libs=['common_base', 'hap_fac', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core'], technique=SQ,
   note='All pairs of 26 boundaries (tiny to the allowed extremes, plus ranges 1 to 101 representable numbers wide) x about 110 internal values (multiples of the range, neighbours of the boundaries, up to 1e17 ranges away, extremes) for single and collection parameters against a triangle-wave reference; integers: all small ranges x 121 values and extreme ranges against 64-bit reference; all sequences of 3 (thorough 5) changes of value and boundaries, arithmetic, copies and serialization.'),
 "C18": dict(engine="sq", libs=['common_base', 'hap_fac', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set'], technique=SQ,
   note='all parameter trees of up to two nodes with nesting (three leaves), nine leaf kinds, every activity pattern; extraction, counting, boundaries, names, assignment (vector and by name, too short/too long), single values and arithmetic for every type and activity mode against a flat model'),
 "C03": dict(engine="mc", libs=['common_base'], technique=MC,
   note='1-4 threads, up to 3 rounds, spurious wake-ups; all schedules up to the stated deviation bounds'),
 "C04": dict(engine="mc", libs=['common_base'], technique=MC,
   note='first accesses, failing construction, resets and re-accesses by up to three threads; all schedules up to the stated deviation bounds, race detection on'),
 "C05": dict(engine="mc", libs=['common_base'], technique=MC,
   note='up to three threads, every log type, 0-2 registered targets plus default, targets changed meanwhile; all schedules up to the stated bounds; all pairs of 8 message texts x 5 kinds (also empty texts, empty sources); shipped targets checked on scratch files'),
 "C02": dict(engine="mc", libs=['common_base'], technique=MC,
   note='value, void and throwing tasks of one or two submitters on 1-3 threads, wait() by one or two threads, resizing between and during submissions, destruction with pending tasks; all schedules up to the stated deviation bounds, with race detection. Tasks that submit further tasks while somebody is inside wait() are excluded (wait() blocks submission by design)'),
 "C10": dict(engine="mc", libs=['common_base', 'hap_fac', 'hap_base'], technique=MC,
   extra=('-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_ARRAY_SIZE=2', '-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_BUFFER_SIZE=1', '-DGENEVA_HAP_RANDOM_FACTORY_SEED_VECTOR_SIZE=4'),
   note='packages of 2 numbers, buffer of 1 package, 1-3 producers, 1-2 clients; packages used fully or partly, returned or dropped; resizing, shutdown and use after shutdown; all schedules up to the stated deviation bounds with race detection'),
 "C12": dict(engine="mc", libs=['common_base', 'hap_fac', 'hap_base', 'courtier_base'], technique=MC,
   note='1-3 ports, 1-2 hand-written workers or the serial/multi-threaded consumer, 1-2 items per port, timed and blocking calls, ports opened late, abandoned with items in flight and replaced; all schedules up to the stated deviation bounds with race detection'),
 "C13": dict(engine="mc", libs=['common_base', 'common_plot', 'hap_fac', 'hap_base', 'courtier_base'], technique=MC,
   note='serial, multi-threaded (1-3 threads) and broker executor (serial, 1-2 thread and remote-like consumers: copies returned in and out of order, late, twice, never); up to 3 items of 5 kinds (fine, ignored, processed before, throwing, flagging), 1-3 rounds, with and without resubmission, time-outs, partial return; all schedules up to the stated deviation bounds with race detection'),
 "C36": dict(engine="sq", libs=['common_base'], technique=SQ,
   note='all vectors of up to 4 (thorough 5) numbers of a small alphabet, all pairs/triples of border numbers for the range checks, all token sequences of up to 5-7 tokens for the text readers, all small containers (with empty pointers, three dynamic types) for the copying helpers, against independent definitions; exponents of three and more digits left out'),
 "C34": dict(engine="sq", libs=['common_base', 'hap_fac', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core'], technique=SQ,
   note='all pairs of border values of 12 basic types, all pairs of containers of up to three elements (basic, floating point with infinities and NaN, smart pointers with empty ones), an object with a base class, all pairs of 16 differences of its members; all patterns of five comparisons through a token; symmetry, negation, and the name of the differing member in the message'),
 "C32": dict(engine="sq", libs=['common_base', 'hap_fac', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core'], technique=SQ,
   note='all specifications of up to 3 (thorough 4) variables out of ten forms in three spacings, all their single-token deletions, swaps, insertions and replacements (18 tokens), two edits of one variable, every truncation, all token sequences up to length 6 (7) inside the parentheses of each type and at top level, against an independent reader; exponents of two and more digits left out. The constructor is checked with accepted texts only (it terminates the program on others, as documented in its message)'),
 "C35": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'ind_func', 'ind_line', 'ind_test'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='eight functions x up to 729 vectors x eight parameterisations (values given or assigned) against long double formulas; all histories of 3 (thorough 4) evaluations, changes, copies, loads of two individuals; line fits of up to three points; factory: parameter type x source of the options x initialisation x adaptor x function x dimension'),
 "C20": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='five adaptors x mode x probability x threshold x limits x all sequences of the first 6 (thorough 9) random numbers over a 4-letter alphabet x 3 (thorough 4) calls, single values and vectors; adaption shares over equidistant random numbers; moments over 60x60 grids; all sequences of 3 (thorough 4) setter calls; all 14 kinds of parameter objects, trees and individuals with inactive parts'),
 "C21": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='every history of up to 3 (thorough 4) of 18 kinds of modifications, evaluations (also failing), copies, crossovers and serializations of two individuals with one or two criteria; plus every course of random numbers through adapt() with retries'),
 "C22": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'ind_func'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all pairs over 19 constraint values x 7 fitness values x policies x directions x negative-allowed x barriers, evaluated before and after clone/load/three serializations; histories of 4 (thorough 5) changes incl. cannibalize and flagged errors; all combiner trees of depth 2; library constraints over value grids'),
 "C23": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all fitness assignments (3 values) of 1-2 parents, 1-3 children over 2-5 iterations in all modes and both directions; all ranks of the children in 2-3+5 populations; shapes: growth, recombination schemes, crossover, offsets, incomplete start populations; each single failing evaluation'),
 "C24": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all assignments of 2 criteria (3 values) to pools of 2-4 candidates, of 3 criteria (2 values) to 4, two-iteration histories with 2 values, chains of dominating candidates in both Pareto modes and directions'),
 "C26": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all fitness assignments (3 values) and draws just below/above the acceptance probability for 1-2 parents and 1-3 children over 2-4 iterations, both directions; grid of temperatures, cooling factors, growth, offsets'),
 "C25": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='fitness answers of whole runs enumerated for swarms of 1-3 neighbourhoods x 2-3 members (2-3 fitness values, failing evaluations), position rule checked exactly with constant random numbers and zero inertia, so the bests the swarm really uses are observed; sizes, fill-up modes, ranges, surplus start individuals, inertia'),
 "C27": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all fitness answers of runs with 1-3 parameters, 1-2 starting points, 2-5 iterations enumerated over 3 values; every probe and every move is compared with the difference quotient computed by the harness; finite steps, step sizes, inactive/unbounded/collection parameters, failing evaluations'),
 "C28": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all sets of the scannable values of an individual and their grid extents, population sizes, copies, offsets, repeated runs, random and simple scans are enumerated; the evaluated points are compared with the grid'),
 "C29": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all sequences of best values over three values, all combinations of limits, all algorithms; a reference decides after which iteration the run must end; user-raised criteria and durations in every position'),
 "C30": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all fitness landscapes over three values (also with invalid candidates and failing evaluations), all algorithms, directions and list sizes: lists are compared with a log of all evaluations in every iteration and at the end'),
 "C33": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3', 'geneva_go2'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all chains of one, two and three of six algorithms with enumerated fitness answers, offsets, directions, start individuals, repeated runs: notices to monitors, iteration counts, starting points and results are compared with a log of all evaluations'),
 "C31": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3', 'geneva_go2'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='all iterations of short runs of seven algorithm configurations are saved and restored in three serialization modes and continued; intervals, removal and repeated runs are compared with the expected set of files after every iteration; crashes and full discs are injected at positions spread over each file; damaged, foreign and absent files; resuming with Go2'),
 "C19": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_base', 'courtier_base', 'geneva_base', 'geneva_p1', 'geneva_p2', 'geneva_p3', 'geneva_core', 'geneva_set', 'geneva_mon', 'geneva_a1', 'geneva_a2', 'geneva_a3'], technique=SQ, mock=["mc/mockrandom.cpp"], exclude=["GRandomBase.cpp", "GRandomFactory.cpp"],
   note='about 45 classes (adaptors, parameter objects and collections, individuals, traits, constraints, monitors, executors, algorithms, plots) x all sequences of up to two operations of each class x clone/load/text/binary/XML x states of the receiving object (quick: all x one receiving state for pairs); values shown, compare() both ways, inequality, independence, later behaviour'),
 "C16": dict(engine="sq", libs=['common_base', 'common_plot', 'hap_fac', 'hap_base', 'courtier_base'], technique=SQ,
   note='Real loopback sockets, one process per history. asio_server/ws_server: peers script every history of 14 actions (requests, results, duplicates, results for closed ports, garbage, halves, resets at every stage, idle connections) up to depth 2 (3 thorough), three serialization modes, one or two server threads; *_deep: 3 well-behaved actions up to depth 4 (6). asio_client/ws_client: the library client against a scripted server, every sequence of answers up to depth 2 (4), told to end at each stage of an exchange. *_whole: broker executor, consumer and one or two clients, every assignment of item kinds. Peers and their histories are enumerated; the timing of the native network threads is not (all interleavings they produce must satisfy the oracle).'),
}
