#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
M, H, P, A, S, U = ("hyperpack/mixins.py", "hyperpack/heuristics.py", "hyperpack/processes.py",
                    "hyperpack/abstract.py", "hyperpack/structures.py", "hyperpack/utils.py")
props = []
def add(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

add("C01", "Every published packing is feasible, however the search ran or ended",
 "Every packing a problem object publishes - by solve, local_search, or hypersearch with one or many workers, and whatever time limit, worker schedule or worker failure it met - is feasible: every placed rectangle lies inside its container (in a strip: inside the strip's width and the strip height in force), no two rectangles of a container overlap, and every item is placed at most once over all containers with exactly its own dimensions, interchanged only if rotation is enabled. Every container of the problem appears in the packing, and no unknown container or item does.",
 ["inputs", "schedules", "fault_sequences"],
 "all item/container sets, strategies, item sequences, rotation settings, worker counts, schedules, deadlines and worker failures",
 "The tests place a few dozen hand-made item lists and compare against expected coordinates; overlap is never checked as such, and never after a timed-out, failed or multi-worker search.",
 [M, H, P], [("fit check and coordinate grid", M + ": PointGenerationMixin"), ("solution retained and handed back by local search / workers", M + ": LocalSearchMixin; " + P)],
 ["problem.solution after any solving call", "every intermediate value assigned to solution in any process"])
add("C02", "Published utilisation and solution report belong to the published packing",
 "The utilisation per container published together with a packing is that packing's own: placed area divided by container area (for a strip: divided by strip width times the height the packing occupies), never more than 1 and never one left over from another packing, whatever schedule, deadline or worker failure preceded. The solution report can be produced for every published packing, including an empty one, and states exactly that packing's figures: each container's size and the share of that size its items cover, the percentage of items stored and the list of items not placed.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "all problems, deadlines, schedules and worker failures, and all sequences of solving operations on one problem",
 "Tests compare a handful of literal logs of undisturbed runs; mixing one packing with another's figures needs a particular deadline, failure or finishing order.",
 [M, H, P], [("obj_val_per_container travels with solution", H + ": hypersearch; " + M + ": LocalSearchMixin.get_solution"), ("log_solution", M + ": SolutionLoggingMixin")],
 ["problem.obj_val_per_container", "problem.log_solution()"])
add("C03", "Hypersearch never loses the best packing its processes found",
 "When a hypersearch on a bin-packing problem returns, the published objective value equals the best objective value of all packings evaluated by the search processes that delivered a result, and, for a problem whose own strategy was left at the default, is never lower than what plain solving of the same (sorted and oriented) items gives. This holds for one or many workers, for every finishing order and interleaving of the workers, and wherever the deadline falls.",
 ["schedules", "inputs", "fault_sequences"],
 "all worker schedules, finishing orders, deadlines and problem instances, single- and multi-process",
 "Tests run one uncontrolled schedule of two workers on one instance and check one final value; a lost update or wrong winner needs a particular interleaving or deadline.",
 [H, P, M, A], [("winner selection from the shared array", H + ": _multi_process_hypersearch"), ("per-worker retained best", P + ": run"), ("single-process retained best", H + ": _single_process_hypersearch")],
 ["problem.solution / calculate_obj_value() after hypersearch", "packings evaluated in each worker"])
add("C04", "With time to spare hypersearch tries every strategy, whoever does the work",
 "If no deadline, maximum utilisation or failure ends a hypersearch early, every potential points strategy to be searched is tried (in strip packing too), and on a bin-packing problem the final objective value is the same for every number of workers, every worker schedule, and every process start method: the best that local search reaches over those strategies (or plain solving with the problem's own strategy, if better). The strategy reported as best reaches that objective value again when local search is run with it.",
 ["schedules", "inputs", "configurations"],
 "all numbers of workers versus number of strategies, all schedules, fork-like and spawn-like start, all instances",
 "Tests only compare literal objective values for 1 and 2 workers and a pool of two equal strategies; uneven chunking, more workers than strategies and schedules are never varied.",
 [H, P, "hyperpack/constants.py"], [("strategy enumeration", H + ": get_strategies"), ("chunking over workers", H + ": _multi_process_hypersearch"), ("best_strategy", H + ", " + P)],
 ["problem.best_strategy", "final objective value", "strategies seen while solving"])
add("C05", "Failing workers never take a multi-process hypersearch down",
 "If some workers of a multi-process hypersearch fail - an exception anywhere in the worker, an allocation failure, a worker killed at an arbitrary instant, or a worker that cannot be started - while at least one succeeds, hypersearch still returns, publishes a result at least as good as that of every worker that succeeded, and logs an error about the failure. If all workers fail, it raises MultiProcessError, and the problem stays usable.",
 ["fault_sequences", "crash_points", "schedules"],
 "every subset of failing workers, every failure kind, every instant of failure relative to the worker's progress and to the other workers",
 "Tests only force an exception at the very first instruction of a worker; later failures, kills and start failures are not reachable from a test.",
 [P, H], [("exception handler marking the worker failed", P + ": run"), ("result collection and winner selection skipping failed workers", H + ": _multi_process_hypersearch")],
 ["return/raise of hypersearch", "problem.solution", "'hyperpack' logger"])
add("C06", "A multi-process hypersearch always terminates and leaves no worker behind",
 "A multi-process hypersearch terminates for every result size, inter-process buffer capacity, worker schedule and worker failure: parent and workers never wait for each other forever, and once the workers stop it returns or raises within a bounded time. When it has returned or raised - also when a worker could not be started or the parent was interrupted - no worker process is left running.",
 ["schedules", "fault_sequences", "crash_points", "inputs"],
 "all sizes of results relative to pipe capacity, all schedules, all kill instants including inside shared-memory access and during result transfer",
 "Real pipes swallow the small results of the tests, and no test kills a worker or makes process creation fail.",
 [H, P], [("start / collect / join protocol", H + ": _multi_process_hypersearch"), ("result hand-over", P + ": run"), ("shared array", H)],
 ["hypersearch returning", "liveness of worker processes after it returned"])
add("C07", "The time limit ends every search promptly",
 "Once the clock shows that max_time_in_seconds have passed since a local_search or hypersearch began, each searching process stops after at most a few further constructions and the call returns with the best result so far, for every instant at which the limit can fall, every speed of every worker and both single- and multi-process search. The limit counts from the beginning of the whole search (once items are sorted and oriented), not per strategy or per worker.",
 ["schedules", "inputs", "fault_sequences"],
 "all deadlines relative to the search's phases, all machine and worker speeds, forward clock jumps",
 "Tests use one real clock, one limit of one second and one instance, and allow a whole second of slack.",
 [A, M, H, P], [("deadline test per neighbour", A + ": local_search"), ("deadline test per strategy", H + ": _single_process_hypersearch; " + P + ": run"), ("shared start_time", H + ": hypersearch")],
 ["simulated return time", "constructions begun after the deadline in any process"])
add("C08", "Reaching maximum utilisation stops the whole search",
 "As soon as a search on a bin-packing problem has a packing with the maximum possible objective value (every container completely filled), it stops: local_search and single-process hypersearch evaluate nothing more, and in a multi-process hypersearch the other workers learn of it through shared state and stop after at most the local search they are in. The published packing is then the maximal one.",
 ["schedules", "inputs"],
 "all instances that admit a perfect packing, all instants and workers at which it is found, all schedules",
 "Tests only check that the optimum is found, not that anything stops, and cannot observe other workers.",
 [A, H, P, M], [("optimum value and global check", A + ": get_optimum_objective_val/global_check"), ("announcement through shared array", P + ": run")],
 ["strategies and packings tried after the optimum was found/announced"])
add("C09", "Local search is an anytime hill climb that ends in a 2-opt optimum",
 "local_search never publishes a packing worse than plain solving of the current item sequence, and whenever the deadline interrupts it, the published packing is the best one evaluated so far (on a bin-packing problem). If neither the deadline nor the neighbour throttle stops it, no exchange of two items in the final sequence gives a better objective value; with throttling on, at most 2500 neighbours of any one node are evaluated.",
 ["inputs", "schedules"],
 "all instances and strategies, all deadlines falling at any neighbour, throttled and unthrottled neighbourhoods",
 "Tests check literal end values of two instances; neither local optimality nor the best-so-far guarantee under a deadline is tested.",
 [A, M], [("first-improvement loop and retained solution", A + ": local_search"), ("solve per sequence", M + ": LocalSearchMixin")],
 ["problem.solution after local_search", "sequences and packings evaluated"])
add("C10", "Strip packing keeps all items, and its heights only move the allowed way",
 "In strip packing with no minimum height set, once the initial construction holds all items, local_search and hypersearch (any workers, schedule or deadline) publish a packing holding all items whose height is no greater than that of the initial construction, and no denser complete packing that one of their local searches came upon is lost; no search ever packs above the configured container height. In single-process search the container height never rises and never falls below a set container_min_height; a multi-process search leaves the problem's heights unchanged, and reset_container_height restores the initial ones.",
 ["schedules", "inputs", "histories"],
 "all item sets, strip widths, configured heights and minimum heights, worker schedules, deadlines and sequences of searches",
 "Tests use one benchmark instance with one or two heights; incomplete denser packings appear only for particular height sequences across strategies.",
 [M, H, P, S], [("completeness condition", M + ": LocalSearchMixin.compare_node; " + H + ": hypersearch acceptance"), ("strip height updates", S + ": Containers._set_height"), ("height hand-over to workers", P)],
 ["problem.solution", "problem.container_height", "problem.container_min_height"])
add("C11", "Searching never alters the problem it was given",
 "A search (single- or multi-process; finished, timed out, failed or with failed workers) leaves the problem's containers, settings, effective limits and chosen potential points strategy as they were, and changes items only in the documented way: hypersearch sorts and orients them as its arguments say, local_search and solve not at all. The dictionaries the caller passed in for items and containers are never altered, and workers search under exactly the settings in force in the parent.",
 ["schedules", "fault_sequences", "histories"],
 "all searches, outcomes (including MultiProcessError), schedules and settings, including defaults overridden by subclassing",
 "Tests compare settings/items/containers after undisturbed runs of trivial instances; failing and timed-out runs and the strategy attribute are not covered.",
 [H, M, P, S], [("deep copies handed to solver and workers", S + ": deepcopy; " + P), ("strategy loop", H)],
 ["problem.items/containers/settings/potential_points_strategy after a search"])
add("C12", "An interrupt or allocation failure at any point leaves the problem consistent",
 "If solve, local_search, hypersearch, sort_items, orient_items or log_solution is cut short by an exception such as KeyboardInterrupt or MemoryError, at any instant at which the interpreter can deliver one, the exception reaches the caller and the problem stays consistent: items keep their ids and dimensions (up to documented re-ordering and orientation of whole items), containers, settings and potential points strategy are unchanged, and the published packing is either empty or feasible for the current items with its own utilisation figures. Repeating the operation then works and gives what a fresh problem with the same data gives.",
 ["crash_points", "histories"],
 "every instant at which CPython delivers an asynchronous exception or a call can fail (function starts, loop heads, before and after calls), in every operation, single- or multi-process, bins or strip",
 "A test cannot place an asynchronous exception at a chosen line of the running search.",
 [M, H, S, A], [("solution/figures assigned together from local values", H + ": solve"), ("item mutation", M + ": ItemsManipulationMixin; " + S)],
 ["problem attributes after the exception", "result of repeating the operation"])
add("C13", "No history of edits yields an invalid problem or a stale solution",
 "After any sequence of edits (assigning items or containers, setting, deleting, updating or popping single entries and dimensions, in any spelling), rejected edits, sorting, orienting and searches, items and containers hold only valid data: string ids, exactly the two dimension keys, positive integers, at least one entry; in strip mode the container cannot be changed at all. An accepted edit that changes the data discards the published solution and figures, a rejected edit of one entry leaves the data as it was, and the published solution is always either empty or one computed for the current data; solving then gives the same as a fresh problem with that data.",
 ["histories", "fault_sequences"],
 "all sequences of valid and invalid edits through every mutating spelling, interleaved with timed-out, failing and successful searches",
 "Tests exercise single edits after construction; combinations, inherited dict operators and derived counters after histories are not covered.",
 [S, H, M], [("validation and reset in __setitem__/__delitem__/constructors", S), ("property setters", H + ": BasePackingProblem")],
 ["problem.items, problem.containers, problem.solution, problem.obj_val_per_container after each step"])
add("C14", "Problems solved concurrently or repeatedly never influence each other",
 "The outcome of an operation on one problem object depends only on that problem, its settings and the clock: it is the same whether the problem is solved alone, interleaved in any way with other problem objects being created, edited and solved in other threads of the same process, or after any history of other problems. In particular it does not depend on hash randomisation of the interpreter, on the state of the random module, nor on whether debug output is logged.",
 ["schedules", "histories", "configurations"],
 "all interleavings of two or more caller threads each using its own problem, preempted at any line; all hash seeds; all earlier histories",
 "Tests are sequential, run under one hash seed and never hold two live problems in different threads.",
 [M, H, S, A], [("per-call grids, point pools and copies", M + ": _construct_solution/_solve"), ("strategy enumeration order", H + ": get_strategies")],
 ["solutions and figures of each problem compared with its solo run"])
add("C15", "Figure export is complete or fails as FigureExportError",
 "When create_figure with export settings returns, the export directory holds for every container exactly the file file_name__containerid.format, showing every placed item at its position and size (images in the size asked for); when asked to show figures, it has shown exactly one such figure per container. Documented figure settings are accepted. If storage fails at any point (no space, permission, I/O error, directory gone, short write) it raises FigureExportError; in either case the solution and the problem are unchanged, and repeating the export after the fault is gone, under the same or other figure settings, produces all files completely.",
 ["fault_sequences", "inputs", "crash_points"],
 "every storage operation of the export failing in every way, for any number of containers and items, html and image export",
 "The export tests are disabled in the suite, and no test makes storage fail.",
 [M], [("export branch with error translation", M + ": SolutionFigureMixin.create_figure")],
 ["files in the export directory", "exception type", "problem.solution"])
add("C16", "Random problem data is valid for every outcome of the random draws",
 "For every combination of positive integer guidelines and every outcome of the random source, generate_problem_data returns data with the requested number of containers and of items per container, all dimensions positive integers within the deviation (a tenth for containers, three fifths for items, never below 1) of the guideline given for that very dimension, which HyperPack accepts as they are.",
 ["inputs", "schedules"],
 "all guidelines and all outcomes of the random source, including extremes",
 "No test calls it; extreme draws for small or lopsided guidelines never occur by sampling.",
 [U], [("bounds given to the random source", U + ": generate_problem_data")],
 ["returned dictionaries", "construction of HyperPack from them"])
add("C17", "Settings take effect only when validated, as a whole, and govern every search",
 "Settings take effect exactly when they are assigned or validated, and as a whole: a rejected assignment or validation raises SettingsError and leaves everything in force (rotation, time limit, number of workers) as it was, a rejected assignment also keeps the previous settings, and what is changed inside the settings dictionary has no effect on solving until it is validated. Every solving operation, including the workers of a multi-process hypersearch, runs under exactly the settings in force - omitted ones at their defaults - whatever has been written to the dictionary, or happened to the figure export directory, since. A multi-process hypersearch uses never more worker processes than the number set, and as many of them as an even split of the strategies takes. No change of settings, accepted or not, alters the published solution.",
 ["histories", "fault_sequences", "configurations"],
 "all histories of valid and invalid assignments, in-place changes, validations, searches and disappearing export directories, with one or many workers",
 "Tests validate single settings dictionaries on new problems; what is in force after a rejected or unvalidated change, and in the workers, only shows in later searches.",
 [H, M, P], [("validation and application", H + ": validate_settings/_validate_settings; " + M + ": SolutionFigureMixin.validate_settings"), ("hand-over to workers", P + ": HyperSearchProcess.__init__")],
 ["packing, constructions and worker processes of later searches", "problem.settings", "SettingsError"])
add("C18", "The local search engine climbs any plugged-in problem as promised",
 "AbstractLocalSearch.local_search, given any plugged-in problem to be maximised or minimised, returns the solution of the best node it accepted (the initial one if none): it starts from the initial solution, moves to a neighbour - the node's sequence with two elements exchanged - as soon as the problem's compare_node accepts it, never evaluates the same exchange twice in one node nor more neighbours of a node than the throttle allows, stops as soon as the optimum is reached (evaluating nothing if the initial solution is optimal), begins at most one evaluation after the time limit, and otherwise ends only when no exchange of the final sequence is accepted or the throttle is exhausted. init_operations runs once before the first evaluation and extra_node_operations once per accepted node; the caller's sequence is not changed, debug output changes nothing, and an exception of the plugged-in problem reaches the caller.",
 ["inputs", "schedules", "fault_sequences"],
 "all plugged-in objectives, optima, acceptance conditions and neighbour caps, all deadlines, failures of the plug-in at any call",
 "The tests only exercise the engine through HyperPack, always maximising, with two or three instances and no failing evaluation.",
 [A], [("search loop", A + ": local_search"), ("MAX/MIN comparisons", A + ": compare_node/global_check/get_optimum_objective_val"), ("neighbour cap", A + ": get_max_neighbors_num")],
 ["calls the plugged-in problem receives, with simulated times", "return value"])
add("C19", "A packing handed out never changes, and changing it changes nothing",
 "The solution, utilisation figures and best strategy read from a problem are final: whatever is done with the problem later - searches that succeed, time out, fail or are interrupted, edits, sorting, reports - the objects handed out earlier keep their contents. Conversely, whatever the caller does to objects handed out, the problem's data is unaffected and later solving gives what a fresh problem with the same data gives.",
 ["histories", "fault_sequences", "crash_points"],
 "all histories of searches, edits, failures, deadlines and interrupts, and all changes by the caller to the objects handed out",
 "Tests look at one solution right after one call; sharing between a kept packing and later working state shows only in longer histories.",
 [M, H, S], [("packings built anew and copied when retained", M + ": _solve, DeepcopyMixin, LocalSearchMixin.get_solution"), ("reset by replacement, not by clearing", S)],
 ["objects read from problem.solution, obj_val_per_container, best_strategy at any time"])
add("C20", "Workers never outlive a dead main process for ever",
 "If the main process dies at any instant of a multi-process hypersearch - killed while starting workers, while they search, while it waits for or reads their results, or while it joins them - every worker it has started still ends by itself, whatever its result's size, the capacity of the inter-process buffers, the schedule and process start method, and failures of other workers: no worker is left waiting for a parent that no longer exists.",
 ["schedules", "crash_points", "fault_sequences"],
 "all instants of death of the main process, result sizes, buffer capacities and worker schedules",
 "The tests never kill the process they run in; a stuck orphan needs a result larger than a pipe and a parent dead before reading it.",
 [P, H], [("the worker holds no receiving end of its own pipe", P + ": HyperSearchProcess.run/start"), ("no worker waits for another one", H + ": shared array without lock")],
 ["set of live worker processes after the main process' death"])
add("N01", "Settings validation accepts exactly the documented values",
 "Assigning or validating settings raises SettingsError for every undocumented value of workers_num, max_time_in_seconds, rotation and figure, and accepts every documented one, falling back to the documented defaults.",
 ["inputs"], "all settings dictionaries",
 "Tests sample values per key.", [H, M], [("validate_settings", H + ", " + M)], ["SettingsError on assignment"])
add("N02", "sort_items and orient_items order and orient as documented",
 "sort_items yields a permutation of the items ordered by the criterion and direction given, and orient_items interchanges exactly those items' sides that do not match the orientation given.",
 ["inputs"], "all item sets and arguments",
 "Tests sample a few lists.", [M], [("ItemsManipulationMixin", M)], ["problem.items"])
add("N03", "potential_points_strategy accepts exactly the valid strategies",
 "The potential points strategy accepts exactly tuples of distinct known point names and rejects everything else with PotentialPointsError, leaving the old value in place.",
 ["inputs"], "all values", "Tests sample values.", [H], [("setter", H + ": PointGenerationSolver")], ["PotentialPointsError"])
add("N04", "Figure library versions are gated exactly as documented",
 "Figure operations are refused exactly when the installed plotly or kaleido is missing or outside the supported version range.",
 ["configurations"], "all installed versions", "Tests mock a few versions.", [M], [("version comparison", M + ": _check_plotly_kaleido_versions")], ["SettingsError"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
