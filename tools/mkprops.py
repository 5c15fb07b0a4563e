#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the statements are easy to edit in one place)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    if hook: d["anchors"]["hook_needed"] = hook
    P.append(d)

S = "src/solver/"
G = S + "genetic/"
I = S + "improvement/"
RR = I + "ruin_recreate/"
NONE = "No existing test touches this; the benchmark only checks that the solver runs. "

p("C01", "Evaluation of a solution equals the CVRP definition",
  "For every list of routes, evaluating it yields for each route the depot-to-depot travel distance, the load minus the capacity and the distance plus the capacity penalty times the positive excess load, and for the solution the sum of the route costs. The solution is reported feasible exactly when no route exceeds the capacity (up to the solver's comparison tolerance of 1e-6). Every visited customer's recorded predecessor and successor are its neighbours in its route, with the depot at both ends.",
  ["inputs"], "all instances, all lists of routes (empty routes included), all penalties, whatever was evaluated before with the same object",
  NONE + "The result has to be right for every route list and after every earlier evaluation.",
  [S + "evaluate.rs", S + "context.rs"], [("SolutionEvaluation::evaluate", S + "evaluate.rs"), ("route_cost", S + "evaluate.rs"), ("SolutionEvaluation::reset", S + "evaluate.rs")])

p("C02", "Crossover children are permutations built from both parents",
  "The ordered crossover of two giant tours returns a giant tour that contains every customer exactly once. The child keeps the first parent's customers on the chosen circular window (both ends included) at their positions, and fills the positions after the window, circularly, with the missing customers in the order in which they occur in the second parent.",
  ["inputs"], "all pairs of permutations of the customers, all window starts and ends including wrap-around",
  NONE + "Wrap-around windows over all permutation pairs cannot be enumerated by examples.",
  [G + "genetic.rs"], [("GeneticAlgorithm::crossover_ox", G + "genetic.rs"), ("GeneticAlgorithm::crossover", G + "genetic.rs")], hook="verif_crossover_ox")

p("C03", "Split covers the giant tour and respects the fleet",
  "Splitting a giant tour yields routes that together visit every customer exactly once, each route being a run of consecutive customers of the giant tour. At most the larger of the allowed number of vehicles and the bin-packing lower bound of the routes are non-empty, and the number of routes always equals the fleet size. Afterwards the giant tour equals the concatenation of the routes and the evaluation describes these routes.",
  ["inputs", "configurations"], "all instances, giant tours, vehicle limits, penalties, and both split algorithms",
  NONE + "Which split path runs (unlimited or limited fleet) depends on the tour and the demands.",
  [G + "split.rs", G + "individual.rs"], [("Split::run", G + "split.rs"), ("Split::split", G + "split.rs"), ("Split::split_limited_fleet", G + "split.rs"), ("Individual::sort_routes", G + "individual.rs")])

p("C04", "Split is optimal for its giant tour",
  "When the fleet is not the limiting factor, no way of cutting the giant tour into consecutive routes has a lower total penalized cost than the split returned (up to the comparison tolerance). When the best unrestricted split needs too many vehicles, the split returned is the cheapest among those with at most the allowed number of vehicles. The Bellman variant of the split compares, in both cases, the splits whose routes stay within the configured capacity factor, as long as there is one.",
  ["inputs"], "all instances, giant tours, vehicle limits and penalties, both split algorithms",
  NONE + "Optimality is over exponentially many segmentations and depends on queue dominance decisions.",
  [G + "split.rs"], [("propagate / dominates / dominates_right", G + "split.rs"), ("monotone queue in split and split_limited_fleet", G + "split.rs")],
  state=[("path_cost", "cost of the cheapest split of a prefix", G + "split.rs"), ("predecessors", "start of the last route", G + "split.rs")])

p("C05", "Local search keeps the solution a partition of the customers",
  "Running the local search on any individual ends with routes that visit every customer exactly once, on the same number of routes, with the giant tour equal to the concatenation of the routes and an evaluation that describes them. Every move applied on the way relinks the routes so that forward and backward links agree and every customer is on exactly one route.",
  ["inputs", "histories"], "all instances, starting individuals, move sequences, granularities and penalty multipliers",
  NONE + "The link structure is edited through raw pointers; a wrong relink needs a particular move on adjacent or boundary nodes.",
  [I + "local_search.rs", I + "linked_list.rs", I + "moves/relocation.rs", I + "moves/swap.rs", I + "moves/two_opt.rs", I + "moves/swap_star.rs"],
  [("Move::perform", I + "moves/"), ("LinkNode::link_nodes", I + "linked_list.rs"), ("LocalSearch::update_route", I + "local_search.rs"), ("LocalSearch::update_individual", I + "local_search.rs")])

p("C06", "Predicted move deltas are exact and local search never worsens",
  "For every pair of nodes on which a local search move is applicable, the cost change the move predicts equals the change of the penalized cost of the two affected routes when it is performed, and a move is performed only if that change is negative. The penalized cost of an individual after local search is therefore never higher than before, under the penalty used in that search.",
  ["inputs", "histories"], "all moves, all node pairs (adjacent, first, last, same or different routes, empty routes), all route states",
  NONE + "Wrong deltas only show for special adjacency cases and the search still terminates with plausible costs.",
  [I + "moves/relocation.rs", I + "moves/swap.rs", I + "moves/two_opt.rs", I + "local_search.rs"],
  [("Move::delta", I + "moves/"), ("LocalSearch::search", I + "local_search.rs"), ("delta_penalty / route_cost", S + "evaluate.rs")])

p("C07", "SWAP* evaluates and applies the best exchange it finds",
  "The three cheapest insertion places kept for a customer and a route are the three cheapest of all places of that route, in ascending order. The exchange or relocation that SWAP* selects changes the penalized cost of the two routes by exactly the predicted amount, is applied only when that amount is negative, and keeps every customer on exactly one route.",
  ["inputs", "histories"], "all pairs of routes, all insertion costs including ties, all customer pairs",
  NONE + "SWAP* depends on cached insertion places from earlier moves.",
  [I + "moves/swap_star.rs", I + "preprocess.rs", I + "local_search.rs"],
  [("ThreeBestInserts::add", I + "preprocess.rs"), ("LocalSearch::preprocess_insertions", I + "local_search.rs"), ("LocalSearch::cheapest_insert_and_removal", I + "local_search.rs"), ("SwapStar::run", I + "moves/swap_star.rs")])

p("C08", "Ruin and recreate keeps every customer on exactly one route",
  "A ruin step moves customers from routes to the list of unassigned customers and changes nothing else; a recreate step inserts every unassigned customer into exactly one route and leaves none unassigned. After both, every customer is on exactly one route and the recorded location of every customer is its actual route and position.",
  ["inputs", "histories"], "all instances, loaded solutions, random draws and any number of consecutive steps",
  NONE + "String removal indices depend on random draws, string lengths and route lengths.",
  [RR + "ruin.rs", RR + "recreate.rs", RR + "node.rs", RR + "mod.rs"],
  [("AdjacentStringRemoval::run / ruin_route", RR + "ruin.rs"), ("GreedyBlink::run", RR + "recreate.rs"), ("RuinRecreateSolution::evaluate", RR + "mod.rs")],
  state=[("locations", "route and position of each customer", RR + "mod.rs"), ("unassigned", "customers to insert", RR + "mod.rs")])

p("C09", "Ruin and recreate keeps exact route costs and never loses its best",
  "Distances and loads that ruin and recreate updates incrementally always equal the distance and load of the route's current sequence, and the solution cost equals the sum of route distances plus the penalty times positive excess load. The best solution it returns is never worse than the solution that was loaded and is the cheapest accepted one under the current penalty, and a candidate is accepted or rejected against the cost of the solution it was built from.",
  ["inputs", "histories"], "all instances, loaded solutions, random draws and search lengths, also when the same search object is reused",
  NONE + "Incremental bookkeeping errors accumulate over long random histories.",
  [RR + "node.rs", RR + "mod.rs", RR + "recreate.rs"],
  [("Route::add / remove / delta_distance", RR + "node.rs"), ("RuinRecreate::load / search / update_best", RR + "mod.rs")])

p("C10", "Annealing temperature and acceptance follow the cooling schedule",
  "The temperature starts at the configured start temperature, decreases strictly with every iteration to zero at the end of the schedule, and the schedule is complete exactly when its iterations (or its duration) have been used; resetting restores the start. A candidate that is cheaper than the current solution by more than the tolerance is always accepted, and at temperature zero a candidate that is not cheaper never is.",
  ["inputs", "histories"], "all start temperatures, schedule lengths, costs and random draws",
  "One test checks the iteration schedule at a few iterations of one configuration.",
  [RR + "schedule.rs"], [("IterationSchedule", RR + "schedule.rs"), ("TimeSchedule", RR + "schedule.rs"), ("TemperatureAcceptance::accept", RR + "schedule.rs")])

p("C11", "Recorded best solutions are feasible and strictly improving",
  "Every solution added to the search history is feasible, visits every customer exactly once, and is recorded with its own cost; costs in the history strictly decrease and the best cost is the cost of the last entry. Only the last entry keeps its routes, so the solution written at the end is the best one found.",
  ["histories", "inputs"], "all runs of the genetic algorithm, of ruin and recreate and of decomposition, at every point of the run",
  NONE + "Solutions are recorded from three different places during a run.",
  [S + "history.rs", G + "genetic.rs", RR + "mod.rs"], [("SearchHistory::add", S + "history.rs"), ("GeneticAlgorithm::update_best", G + "genetic.rs"), ("RuinRecreate::update_best", RR + "mod.rs")])

p("C12", "Subpopulations stay sorted, separated and consistently linked",
  "After any sequence of insertions the feasible subpopulation contains only feasible and the infeasible one only infeasible individuals, each sorted by ascending penalized cost (up to the tolerance) and smaller than the configured maximum size. For every member there is exactly one stored diversity list: the distances to all other members, each once, ascending, and no others.",
  ["histories"], "all sequences of insertions of individuals, including duplicates and mass survivor selection",
  NONE + "The structure is maintained incrementally over long insertion histories.",
  [G + "population.rs"], [("SubPopulation::add_individual", G + "population.rs"), ("update_diversity / add_diversity / remove_diversity", G + "population.rs"), ("Population::add_individual", G + "population.rs")])

p("C13", "Survivor selection keeps the best and ranks by biased fitness",
  "Adding an individual never raises the cost of the best individual of its subpopulation (the newcomer itself is refused only as a duplicate), and a survivor selection removes a duplicate if there is one and any individual otherwise, in both cases one of largest biased fitness. Biased fitness is the cost rank plus the diversity rank weighted by one minus the elite share, with both ranks normalised to [0,1]; with no more members than elites it is the cost rank alone.",
  ["histories", "configurations"], "all population contents, sizes, elite counts and insertion sequences",
  NONE + "Which individual is dropped depends on the whole population.",
  [G + "population.rs"], [("SubPopulation::natural_selection", G + "population.rs"), ("SubPopulation::update_fitness", G + "population.rs")])

p("C14", "Broken-pairs distance measures differing adjacencies",
  "The distance of two individuals is the number of customers whose successor in the first is neither successor nor predecessor in the second, plus the customers that start a route in the first but neither start nor end one in the second. It lies between zero and twice the number of customers, is zero for individuals with the same routes (in either direction of travel), and does not depend on the order of the routes.",
  ["inputs"], "all pairs of solutions",
  NONE + "All pairs of solutions are out of reach of examples.",
  [G + "individual.rs", G + "population.rs"], [("Individual::calculate_broken_pairs_distance", G + "individual.rs"), ("SubPopulation::average_broken_pairs_distance", G + "population.rs")])

p("C15", "Penalty adaptation follows the feasibility target within bounds",
  "At every penalty update the capacity penalty is multiplied by the increase factor if the share of feasible recent individuals is more than 0.05 below the target, by the decrease factor if it is more than 0.05 above, and otherwise kept, and the result is clamped to [0.0001, 10000000]. Afterwards every infeasible individual's cost is its cost under the new penalty and the infeasible subpopulation is sorted by it.",
  ["histories", "configurations"], "all feasibility histories, targets, multipliers and populations",
  NONE + "Bounds only matter after many one-sided updates.",
  [G + "genetic.rs", G + "population.rs"], [("GeneticAlgorithm::update_penalty", G + "genetic.rs")], hook="verif_update_penalty")

p("C16", "Distances are symmetric and independent of how they are stored",
  "For every pair of nodes the distance is the Euclidean distance of their coordinates, rounded to the nearest integer when rounding is on, or the explicitly given entry; it is the same in both directions and zero from a node to itself. Precomputed and on-demand matrices give the same values, also when read row-wise and after restriction to a subset of nodes, and the reported maximum is the largest distance between two nodes.",
  ["inputs", "configurations"], "all coordinates, explicit lower-triangular matrices, rounding and precomputation settings and node subsets",
  NONE + "Lazy, precomputed, explicit and restricted matrices are four code paths.",
  ["src/models/matrix.rs", "src/models/problem.rs"], [("DistanceMatrixBuilder::build", "src/models/matrix.rs"), ("DistanceMatrix::get / get_vec / from_mapping", "src/models/matrix.rs")])

p("C17", "Neighbour lists hold the nearest customers in order",
  "For every customer the neighbour list contains distinct customers, never the depot and never the customer itself, and exactly as many as there are other customers up to the limit of 200 (the list of the depot has the same length). They are sorted by ascending distance and no customer left out is closer than one in the list.",
  ["inputs"], "all instances and all nodes, also for restricted sub-instances",
  NONE + "Order and membership must hold for all nodes of all instances.",
  ["src/models/matrix.rs"], [("CorrelationMatrix::new", "src/models/matrix.rs"), ("CorrelationMatrix::top_slice", "src/models/matrix.rs")])

p("C18", "Unchecked matrix accesses stay inside their storage",
  "Every cell of a matrix can be written and read back independently of all other cells, a matrix returns what was last stored, and clones are independent copies. Every access the solver makes to a distance matrix, a neighbour list, the split tables or the insertion cache is inside the allocated rows and columns, for every instance size and configuration.",
  ["inputs", "configurations", "histories"], "all matrix sizes, all instance sizes (including fewer customers than the search granularity), all runs",
  NONE + "Accesses are unchecked pointer reads; an out-of-row access usually reads another row and goes unnoticed.",
  ["src/models/matrix.rs", I + "local_search.rs", G + "split.rs"], [("Matrix::get / set / slice", "src/models/matrix.rs"), ("CorrelationMatrix::top_slice_mut", "src/models/matrix.rs")])

p("C19", "Circle sectors contain every angle they were extended with",
  "After extending a sector by any sequence of angles, every one of these angles is enclosed by it, and extending it by an enclosed angle changes nothing. Two sectors overlap exactly when some angle is enclosed by both, in either argument order.",
  ["inputs", "histories"], "all sequences of angles in [0, 65536), including 0 and wrap-around",
  NONE + "Wrap-around and the special role of angle 0 need particular sequences.",
  ["src/models/circle_sector.rs"], [("CircleSector::extend / is_enclosed / overlaps", "src/models/circle_sector.rs")])

p("C20", "Decomposition and merge keep every customer exactly once",
  "Decomposing a solution assigns whole routes to the sub-problem: the mapping is a bijection from the sub-problem's nodes to the depot and the customers of the selected routes, demands and distances of the sub-problem are those of the mapped nodes, and the rest of the solution keeps exactly the other routes. Merging the improved sub-solution gives a solution with every customer exactly once, as many routes as vehicles, and a cost not higher than before when the sub-solution was feasible.",
  ["inputs", "histories"], "all global solutions, seed customers, minimum sizes, and all results of solving the sub-problem",
  NONE + "Decomposition only runs above 3000 customers by default.",
  [G + "decomposition.rs", S + "context.rs", "src/models/problem.rs", "src/models/matrix.rs"],
  [("Decomposition::decompose_global", G + "decomposition.rs"), ("Decomposition::finish", G + "decomposition.rs"), ("Context::from_mapping", S + "context.rs")])

p("C21", "The genetic algorithm goes through its phases and stops at its limits",
  "A run starts with the optional elite education, then creates exactly the configured number of initial individuals, then evolves one child per iteration; it never goes back except for a full restart, which happens exactly when more than the configured number of iterations have passed without improvement. Once the iteration or time limit is reached the next step terminates the run, and a terminated run stays terminated and changes nothing.",
  ["histories", "configurations"], "all configurations and all histories of improving and non-improving iterations",
  NONE + "The benchmark runs a few iterations of a single configuration.",
  [G + "genetic.rs", S + "context.rs", S + "solver.rs"], [("GeneticAlgorithm::iterate", G + "genetic.rs"), ("Context::terminate", S + "context.rs")], hook="verif_state")

p("C22", "Command line overrides config file overrides defaults",
  "A parameter takes the value given on the command line if there is one, otherwise the value from the configuration file, otherwise its default. Parameters not mentioned in the file or on the command line are left unchanged, and unknown keys in the file have no effect.",
  ["configurations"], "all subsets of parameters in the file and on the command line",
  NONE + "There are many subsets of parameters.",
  ["src/config.rs", "src/cli.rs", "src/main.rs"], [("Config::update_from_args", "src/config.rs"), ("Config::update", "src/config.rs"), ("Args::parse", "src/cli.rs")])

p("C23", "Fleet size and initial penalty derive from the instance",
  "The lower bound on vehicles is total demand divided by capacity rounded up; the fleet size is 1.2 times this bound plus 2, rounded up, so it is always at least the bound. The initial capacity penalty is the largest distance divided by the largest demand, limited to [0.0001, 10000], or 100 when no largest distance is known.",
  ["inputs"], "all instances (demands, capacities, distance matrices)",
  NONE + "Bounds and roundings matter for particular totals only.",
  [S + "context.rs", "src/models/problem.rs"], [("Context::vehicle_lower_bound / initial_num_vehicles / initial_penalty", S + "context.rs"), ("Problem::total_demand / max_demand", "src/models/problem.rs")])

p("C24", "Parents are chosen by binary tournament over both subpopulations",
  "The parent returned by a selection is a member of one of the two subpopulations and has the smallest biased fitness among the individuals drawn for that tournament. Every draw is an index into the feasible followed by the infeasible members, so every member can be drawn and no draw is out of range.",
  ["inputs", "histories"], "all population contents (also when one subpopulation is empty), tournament sizes and random draws",
  NONE + "Index offsets between the two subpopulations depend on their sizes.",
  [G + "population.rs"], [("Population::tournament / get_parent", G + "population.rs")])

p("C25", "Equal seeds give equal runs in deterministic mode",
  "In deterministic mode two runs with the same instance, configuration and seed that are stopped by an iteration limit record the same sequence of best solutions.",
  ["inputs", "configurations"], "all instances, seeds and configurations with deterministic mode on",
  NONE + "A dependence on hash iteration order or time shows only in some runs.",
  ["src/utils/random.rs", S + "context.rs", RR + "mod.rs"], [("Random::from_seed / random_state", "src/utils/random.rs")])

p("C26", "Parsed instances and written solutions are faithful",
  "Reading a CVRPLIB file yields exactly the nodes, coordinates, demands, capacity and explicit distances it states, and the solution file lists the routes and the cost of the best recorded solution.",
  ["inputs"], "all well-formed instance files and all recorded solutions",
  NONE + "File contents are unbounded text.",
  ["src/utils/parser.rs", "src/utils/serializer.rs", S + "history.rs"], [("ProblemParser::parse", "src/utils/parser.rs"), ("write_solution_file", "src/utils/serializer.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
