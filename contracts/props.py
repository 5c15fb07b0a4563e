prop("C01", ["evaluate"], "SolutionEvaluation::evaluate, reset, route_cost, is_feasible and Individual::evaluate/is_feasible/penalized_cost equal the mathematical definition for every list of routes",
     "evaluation of random solutions (2-14 customers, reused evaluation objects) compared with the definition in floating point")
prop("C02", ["crossover"], "the ordered crossover returns a permutation, keeps the window and fills the rest in the order of the second parent",
     "crossover of random giant tours of 1-12 customers with fixed and random windows")
prop("C03", ["individual", "split", "evaluate", "fleet"], "Split::run (load, reset, propagate, both variants of split and split_limited_fleet_with, the trace-back and the padding) leaves every customer on exactly one route, every route a run of the giant tour, at most max(limit, bound) routes in use, as many routes as vehicles, the giant tour equal to the concatenation and the evaluation describing the routes, for both split variants; Individual::sort_routes only reorders the list of routes", "splits of random giant tours (1-14 customers, tight and loose capacities, both split variants, limited fleet) checked for coverage, order, route count and evaluation")
prop("C04", ["split"], "with the linear split Split::run leaves routes whose penalized cost is at most that of every way to cut the giant tour into at most max(limit, bound) routes, up to n comparison tolerances per route (queue dominance, both fleet variants; demands whose penalty is at least the tolerance); with the Bellman split at most that of every cut into that many routes each within the capacity factor, up to one tolerance of the capacity penalty per route, in both fleet variants, and split_limited_fleet_with reports failure only if no such cut exists", "splits of random giant tours compared with the optimal penalized cost by dynamic programming, with and without fleet limit")
prop("C05", ["links", "moves", "twoopt", "inserts", "swapstar", "lsearch", "lsload", "lsnew", "sector", "individual", "evaluate"], "the whole local search: LocalSearch::new builds the idle state, load_individual the link representation of the individual's routes, search (both loops over nodes, neighbour lists, empty routes and SWAP*) keeps it, update_individual writes it back, and LocalSearch::run ends with every customer on exactly one route, as many routes as before, the giant tour equal to the concatenation and the evaluation describing the routes; LinkNode::link_nodes, backward_reverse, forward_reverse, replace_end_depot and LocalSearch::update_route, and the perform function of all nine node moves (relocations, swaps, 2-opt, 2-opt*): for every representation of routes by links, forward and backward links agree afterwards, every customer is on exactly one route, positions, loads and distances of the changed routes are recomputed exactly", "local search runs on random individuals (4-20 customers) with a check of links, routes and evaluation after the run and after single moves")
prop("C06", ["links", "moves", "twoopt", "inserts", "swapstar", "lsearch", "lsload", "sector", "individual", "evaluate"], "LocalSearch::search never raises the penalized cost of the represented routes (each applied move lowers it), and LocalSearch::run leaves a penalized cost no higher than before under the penalty of that run; delta of all nine node moves equals the difference of the penalized costs of the two routes before and after, for every pair of nodes (adjacent, first, last, same or different routes), and perform produces exactly those routes", "every local search move on every applicable node pair of random solutions: predicted delta against recomputed penalized route costs; cost never higher after local search")
prop("C07", ["links", "inserts", "swapstar", "sector"], "ThreeBestInserts::add keeps the three cheapest insertion positions, preprocess_insertions and cheapest_insert_and_removal find the cheapest insertion of a customer into a route with another customer removed, SwapStar::run: an exchange it performs has exactly the gain it computed (at most minus the tolerance), no considered exchange is better by more than two tolerances, the routes become the exchanged ones with exact loads and distances, and when it declines no considered exchange improves by the tolerance or more", "three-best insertions against full enumeration and SWAP* exchanges on random route pairs")
prop("C08", ["rr", "rrsearch", "individual", "rrsetup"], "RuinRecreate::new and RuinRecreateSolution::new start empty with one route per vehicle; RuinRecreateSolution::load, RuinRecreate::load, search, update_individual, get_solution and get_best_solution keep a complete and located solution; AdjacentStringRemoval::run and GreedyBlink::run keep every customer exactly once in the routes or the list of unassigned customers, in their relative order, with the location of every customer matching the routes; after GreedyBlink none is unassigned", "ruin and recreate steps on random solutions with location bookkeeping recomputed after each step")
prop("C09", ["rr", "rrsearch", "evaluate"], "RuinRecreate::search never raises the cost of the best solution, keeps it the cheapest of the start and every accepted candidate, and asks the acceptance criterion for every candidate against the cost of the solution it was built from (without penalty updates; with them, all costs are re-evaluated); Route::remove, add, delta_distance, update_from_other and the ruin and recreate steps keep the distance, load and overload of every route and the cost exact; RuinRecreateSolution::evaluate, reevaluate and is_feasible follow the definition", "ruin and recreate runs on random solutions with route distances, loads and costs recomputed after every step, best never lost")
prop("C10", ["schedule", "rrsetup"], "RuinRecreate::new, setup_mutation and setup_elite_education install the schedule at the configured start temperature over the configured number of iterations (or duration); temperature formula, strict decrease, zero at the end, completion, reset and the acceptance rule of both schedules and of AcceptanceCriterion (exp and ln axiomatised: exp monotone, exp 0 = 1, exp(-2) to 15 digits, ln negative below 1)",
     "schedules as set up from random configurations; schedules of 1-60 iterations with random start temperatures; acceptance with sampled random numbers")
prop("C11", ["best", "rrsearch", "flow"], "RuinRecreate::update_best records only feasible, complete, strictly better solutions; SearchHistory::add/add_message, HistoricSolution::new and GeneticAlgorithm::update_best: recorded solutions are feasible, strictly improving and only the last keeps its routes; GeneticAlgorithm::new, iterate, educate, reset, add_individual, add_initial, create_initial_individual and DecomposedGeneticAlgorithm::create_global_solution: at every point of a run every member of the population, the child handed to update_best and the best solution are complete with one route per vehicle, the best one is feasible, and the last entry of the history has the routes of a complete feasible solution with its own cost",
     "short runs of the whole genetic algorithm with the history re-evaluated from its routes")
prop("C12", ["population"], "the class invariant of SubPopulation and Population (sorted, separated by feasibility, unique numbers, one ascending diversity list per member towards all others, below the maximum size) is preserved by add_individual, natural_selection and remove_individual (sortedness for costs that are equal or differ by more than the tolerance)", "random sequences of insertions and removals into populations, with order, separation and diversity lists recomputed")
prop("C13", ["population"], "update_fitness assigns the biased fitness of the definition, natural_selection removes a duplicate or an individual of largest biased fitness and never the best, add_individual never raises the cost of the best (costs equal or separated by the tolerance)", "random populations: biased fitness recomputed from ranks, survivors compared with the definition")
prop("C14", ["broken_pairs"], "Individual::broken_pairs_distance equals the count of differing adjacencies, is within [0, 2n], zero for equal or reversed routes",
     "random pairs of individuals (2-12 customers), reversed and permuted routes")
prop("C15", ["penalty"], "Population::update_penalty's Genetic-side adaptation, clamping, re-evaluation and re-sorting",
     "random populations and success histories compared with the definition")
prop("C16", ["matrix"], "DistanceMatrixBuilder, DistanceMatrix::get/get_vec/from_mapping/max and MatrixProvider: every entry is the (rounded) Euclidean distance or the given entry, symmetric, zero on the diagonal, the same whether stored or computed, row-wise and after restriction; the maximum is an entry no other entry exceeds by more than the comparison tolerance (sqrt axiomatised: sqrt 0 = 0; zeroed bytes are 0.0)", "random instances: entries, symmetry, rounding, row access, restriction and maximum of precomputed, on-demand and explicit matrices")
prop("C17", ["matrix"], "CorrelationMatrix::new/get/top_slice: every list holds min(200, n-2) distinct other customers in ascending distance, and no customer left out is closer than one in the list", "neighbour lists of random instances (2-30 customers, also with equal distances) compared with a full sort")
prop("C18", ["matrix", "split", "rr", "evaluate"], "Matrix::new/init/get/get_mut/set/slice/slice_mut/from_mapping/get_max/clone/drop: every raw access is inside the allocated block, a cell written is the only one to change, deallocation uses the layout of the allocation; all distance, neighbour-list and split-table accesses of the units under contract satisfy the bounds preconditions", "random operation sequences on every matrix type against a plain vector model, with bounds checks in the hooks and solver runs on degenerate instances")
prop("C19", ["sector"], "CircleSector::extend, is_enclosed, overlap and positive_mod for every angle, and Route/individual sector construction",
     "exhaustive and random angles around boundaries and wrap-around", secs=10)
prop("C20", ["decomp", "individual", "evaluate", "matrix", "best", "flow"], "Decomposition::decompose_global, new, run, finish, Problem::from_mapping, Context::from_mapping, MatrixProvider::from_mapping and DecomposedGeneticAlgorithm::iterate: the selected routes become the sub-problem, the mapping is injective onto depot and exactly their customers, demands, distances and vehicle of the sub-problem are those of the mapped nodes, the rest keeps the other routes in their order; merging any complete solution of the sub-problem gives every customer once, one route for each vehicle, the giant tour of the routes and a cost that differs by exactly what the sub-solution's cost differs (DecomposedGeneticAlgorithm::create_global_solution returns a complete solution with one route per vehicle, and so does every step of the inner genetic algorithm: unit flow)", "random individuals decomposed and merged; mapping bijection, sub-problem data, remaining routes and cost compared with the definition")
prop("C21", ["ga"], "GeneticAlgorithm::new, iterate, educate, update_best, reset, create_initial_individual, add_initial, terminated, Context::terminate and next_iteration: every step does exactly the transition of its phase (elite education iff configured and the instance is large enough; one initial individual per step until the configured number; one child and one iteration per step; restart exactly when more than the limit of iterations passed without improvement; Terminated, with nothing else changed, exactly when a limit is reached)", "step-by-step runs of the genetic algorithm with phase, counters and termination observed after every step", secs=20)
prop("C22", ["config"], "Config::update, load_yaml_file, update_from_yaml_file, reset and update_from_args: every parameter named in the file is read from the file, every other one keeps its value, unknown keys have no effect; command line arguments replace exactly the parameters they name (serialisation of Config as a table of its parameters is an assumed contract on serde)", "random combinations of command line arguments and configuration files", secs=10)
prop("C23", ["fleet"], "the vehicle bound, fleet size and initial penalty, including the ceil arithmetic",
     "random instances compared with exact integer arithmetic", secs=8)
prop("C24", ["population"], "every tournament draw is drawn from [0, size) and the winner is a drawn member of smallest biased fitness among the drawn", "tournaments on random populations: winner against the drawn members, index range")
P["C25"] = {"na": "a 2-safety property (two runs equal) of the whole program, including HashMap iteration order, hashing and RNG internals; a function contract relates one execution to its inputs and cannot express it without modelling every std source of nondeterminism"}
P["C26"] = {"na": "text parsing and formatting through regex-like std string functions and file output, for which Verus has no specifications; a contract would have to assume the parser it should prove"}
