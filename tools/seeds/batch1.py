POP='src/solver/genetic/population.rs'
MAT='src/models/matrix.rs'
SEEDS=[
("c01-successor-of-previous-route","C01",{"file":"src/solver/evaluate.rs",
 "edits":[["            self.successors[last_node] = depot_node;","            if route.len() > 1 {\n                self.successors[last_node] = depot_node;\n            }"]],
 "needs":"an evaluation object that is reused and a route with a single customer that had a successor before",
 "what":"stale successor of the only customer of a route",
 "main":r'''
fn main() {
    let mut r = Lcg(3); let ctx = random_context(&mut r, 6, 2.0, config());
    let mut ind = individual(&ctx, vec![vec![1, 2, 3], vec![4, 5, 6]]);
    ind.phenotype = vec![vec![2, 3], vec![1], vec![4, 5, 6]];
    ind.evaluate(&ctx);
    check(ind.successor(1) == 0, "successor of the only customer");
    check(ind.predecessor(1) == 0, "predecessor of the only customer");
}'''}),
("c12-remove-wrong-entry-on-tie","C12",{"file":POP,
 "edits":[["""            for index in 0..diversity_vec.len() {
                if diversity_vec[index].to_number == individual.number {
                    diversity_vec.remove(index);
                    break;
                }
            }""","""            if let Some(index) = diversity_vec
                .iter()
                .take(15)
                .position(|diversity| diversity.to_number == individual.number)
            {
                diversity_vec.remove(index);
            }"""]],
 "needs":"an individual removed that is further down than the 15 closest of another member",
 "what":"diversity lists keep entries of individuals that left",
 "main":r'''
fn main() {
    let mut c = config(); c.min_population_size = 18; c.population_lambda = 7;
    let mut r = Lcg(5); let ctx = random_context(&mut r, 30, 2.9, c);
    let mut pop = Population::new(&ctx);
    for _ in 0..300 {
        let mut g: Vec<usize> = (1..=30).collect(); r.shuffle(&mut g);
        let ind = individual(&ctx, vec![g[..10].to_vec(), g[10..20].to_vec(), g[20..].to_vec()]);
        pop.add_individual(&ctx, ind, true);
        for s in [&pop.feasible, &pop.infeasible] { for i in &s.population {
            if s.population.len() > 1 { check(s.diversity[&i.number].len() == s.population.len() - 1, "one entry per other member"); }
        } }
    }
}'''}),
("c13-clone-flag-lost","C13",{"file":POP,
 "edits":[["            let mut update_worst = is_clone && !worst_is_clone;","            let mut update_worst =\n                is_clone && !worst_is_clone && self.population[index].fitness >= worst_fitness;"]],
 "needs":"a survivor selection in a population with a duplicate whose fitness is below that of an earlier non-duplicate",
 "what":"a non-duplicate is removed although there is a duplicate",
 "main":r'''
fn main() {
    let mut r = Lcg(7);
    for _ in 0..300 {
        let mut c = config(); c.min_population_size = 3; c.population_lambda = 40; c.num_elites = 1;
        let ctx = random_context(&mut r, 8, 1.0, c);
        let mut pop = SubPopulation::new(&ctx);
        for k in 0..8 {
            let mut g: Vec<usize> = (1..=8).collect(); r.shuffle(&mut g);
            let mut ind = individual(&ctx, vec![g]); ind.number = k;
            pop.add_individual(&ctx, ind);
        }
        // two duplicates of members enter without the clone check
        let n = pop.population.len();
        if n < 4 { continue; }
        let a: u64 = pop.population[1].number; let b: u64 = pop.population[2].number;
        for e in pop.diversity.get_mut(&a).unwrap().iter_mut() { if e.to_number == b { e.distance = 0; } }
        for e in pop.diversity.get_mut(&b).unwrap().iter_mut() { if e.to_number == a { e.distance = 0; } }
        pop.diversity.get_mut(&a).unwrap().sort(); pop.diversity.get_mut(&b).unwrap().sort();
        for i in 1..n { pop.population[i].fitness = 1.0 + i as f64; }
        pop.population[1].fitness = 0.5; pop.population[2].fitness = 0.4;
        let last = pop.population[n - 1].number;
        let mut order: Vec<u64> = pop.population.iter().map(|i| i.number).collect();
        // a non-duplicate with a large fitness comes first
        pop.population.swap(1, n - 1);
        pop.natural_selection(&ctx);
        check(pop.population.iter().any(|i| i.number == last), "a duplicate has to go first");
        check(!(pop.population.iter().any(|i| i.number == a) && pop.population.iter().any(|i| i.number == b)), "a duplicate has to go first");
    }
}'''}),
("c13-elite-share-of-maximum","C13",{"file":POP,
 "edits":[["        let elite_factor = 1.0 - num_elites as f64 / self.population.len() as f64;","        let elite_factor =\n            1.0 - num_elites as f64 / self.population.len().max(num_elites + 2) as f64;"]],
 "needs":"a population with exactly one more member than elites",
 "what":"weight of the diversity rank",
 "main":r'''
fn main() {
    let mut r = Lcg(11);
    for _ in 0..20 {
        let mut c = config(); c.num_elites = 4; c.num_diversity_closest = 3;
        let ctx = random_context(&mut r, 12, 1.0, c);
        let mut pop = SubPopulation::new(&ctx);
        for k in 0..5 {
            let mut g: Vec<usize> = (1..=12).collect(); r.shuffle(&mut g);
            let mut ind = individual(&ctx, vec![g]); ind.number = k;
            pop.add_individual(&ctx, ind);
        }
        let n = pop.population.len();
        if n != 5 { continue; }
        let div: Vec<f64> = pop.population.iter().map(|i| pop.diversity[&i.number].iter().take(3).map(|d| d.distance as f64).sum::<f64>() / 3.0).collect();
        let mut sum = 0.0;
        for i in 0..n { sum += pop.population[i].fitness; }
        // both rank lists sum to n/2, whatever the ties
        let want = 5.0 / 2.0 + (1.0 - 4.0 / 5.0) * 5.0 / 2.0;
        check((sum - want).abs() < 1e-9, "sum of the biased fitness");
    }
}'''}),
("c24-tournament-offset","C24",{"file":POP,
 "edits":[["            let (sub_population, population_index) = if index < self.feasible.size() {","            let (sub_population, population_index) = if index < self.feasible.size()\n                || (winner.is_some() && index - self.feasible.size() < self.feasible.size())\n            {"],
          ["                (&self.feasible, index)\n","                (&self.feasible, index % self.feasible.size())\n"]],
 "needs":"a later draw beyond the feasible members and fewer than twice their number",
 "what":"a later draw of an infeasible member is replaced by a feasible one",
 "main":r'''
fn main() {
    let mut r = Lcg(13);
    let mut c = config(); c.tournament_size = 2;
    let ctx = random_context(&mut r, 9, 2.6, c);
    let mut pop = Population::new(&ctx);
    for _ in 0..4000 {
        if pop.feasible.size() >= 8 && pop.infeasible.size() >= 8 { break; }
        let mut g: Vec<usize> = (1..=9).collect(); r.shuffle(&mut g);
        let k = 2 + r.below(3); let l = k + 2 + r.below(3);
        let ind = individual(&ctx, vec![g[..k].to_vec(), g[k..l].to_vec(), g[l..].to_vec()]);
        pop.add_individual(&ctx, ind, true);
    }
    if pop.feasible.population.len() == 0 || pop.infeasible.population.len() == 0 { println!("no mix"); std::process::exit(3); }
    for i in pop.feasible.population.iter_mut() { i.fitness = 1.0; }
    for i in pop.infeasible.population.iter_mut() { i.fitness = 0.5; }
    let f = pop.feasible.size(); let n = pop.size();
    println!("{} {}", f, n);
    // share of infeasible winners: 1 - (f/n)^2
    let mut wins = 0;
    for _ in 0..20000 { if pop.get_parent(&ctx).fitness == 0.5 { wins += 1; } }
    let want = 1.0 - (f as f64 / n as f64).powi(2);
    println!("{} {}", wins as f64 / 20000.0, want);
    check((wins as f64 / 20000.0 - want).abs() < 0.01, "share of infeasible winners");
}'''}),
("c14-depot-pair","C14",{"file":"src/solver/genetic/individual.rs",
 "edits":[["                && other.predecessor(index) != 0\n                && other.successor(index) != 0","                && other.predecessor(index) != 0\n                && other.successor(index) != self.predecessor(other.predecessor(index))"]],
 "needs":"a customer first in one individual and last in the other, behind a customer that is not first there",
 "what":"a reversed adjacency to the depot is counted as broken",
 "main":r'''
fn main() {
    let mut r = Lcg(17);
    for _ in 0..200 {
        let ctx = random_context(&mut r, 7, 1.0, config());
        let mut g: Vec<usize> = (1..=7).collect(); r.shuffle(&mut g);
        let mut h: Vec<usize> = (1..=7).collect(); r.shuffle(&mut h);
        let a = individual(&ctx, vec![g.clone()]); let b = individual(&ctx, vec![h.clone()]);
        let mut want = 0;
        for i in 1..8 {
            if a.successor(i) != b.successor(i) && a.successor(i) != b.predecessor(i) { want += 1; }
            if a.predecessor(i) == 0 && b.predecessor(i) != 0 && b.successor(i) != 0 { want += 1; }
        }
        check(a.calculate_broken_pairs_distance(&b) == want, "broken pairs");
    }
}'''}),
("c15-clamp-before-update","C15",{"file":"src/solver/genetic/genetic.rs",
 "edits":[["""                0.0001f64.max(10_000_000.0f64.min(config.penalty_capacity as f64));
        }
""","""                0.0001f64.max(10_000_000.0f64.min(config.penalty_capacity as f64));
            if (feasible_fraction - config.feasibility_proportion_target).abs() <= 0.05 {
                return;
            }
        }
"""]],
 "needs":"a penalty that changed elsewhere since the last re-evaluation and a feasible share within the target range",
 "what":"infeasible individuals keep costs of an old penalty",
 "main":r'''
fn main() {
    let mut r = Lcg(19); let ctx = random_context(&mut r, 10, 3.0, config());
    let mut ga = GeneticAlgorithm::new(&ctx);
    let nv = ctx.config.borrow().num_vehicles;
    for _ in 0..20 {
        let mut g: Vec<usize> = (1..=10).collect(); r.shuffle(&mut g);
        let ind = individual(&ctx, vec![g]);
        ga.population.add_individual(&ctx, ind, false);
    }
    ctx.config.borrow_mut().penalty_capacity *= 7.0;
    let target = ctx.config.borrow().feasibility_proportion_target;
    for (i, b) in ga.population.feasible_history.iter_mut().enumerate() { *b = (i as f64) < target * 100.0; }
    ga.num_initialized = 1_000_000;
    // drive the public interface up to the first penalty update
    ctx.config.borrow_mut().max_iterations = Some(1);
    ctx.config.borrow_mut().elite_education = false;
    ctx.config.borrow_mut().rr_mutation = false;
    ga.next_penalty_update = 0;
    for _ in 0..5 { if ga.terminated() { break; } ga.iterate(&ctx); }
    let pen = ctx.config.borrow().penalty_capacity;
    check(ga.population.infeasible.population.len() > 1, "setup");
    for i in &ga.population.infeasible.population {
        check((i.penalized_cost() - cost(&ctx, &i.phenotype, pen)).abs() < 1e-6, "cost under the current penalty");
    }
}'''}),
("c19-extend-across-zero","C19",{"file":"src/models/circle_sector.rs",
 "edits":[["                    <= (self.start - angle).rem_euclid(MAX_ANGLE)\n                {\n                    self.end","                    <= (self.start - angle).abs() % MAX_ANGLE\n                {\n                    self.end"]],
 "needs":"a start angle smaller than the added angle, so that the distance wraps around zero",
 "what":"the sector grows in the longer direction",
 "main":r'''
fn main() {
    for (s, e, a) in [(100, 200, 65000), (0, 30000, 65535), (10, 20, 40000), (65000, 100, 300)] {
        let mut c = CircleSector::new(); c.from_angle(s); c.end = e; c.extend(a);
        let right = (a - e as i32).rem_euclid(65536); let left = (s - a as i32).rem_euclid(65536);
        let want = if right <= left { (s, a) } else { (a, e) };
        check((c.start, c.end) == want, "the shorter extension");
    }
}'''}),
("c23-vehicles-of-fractional-bound","C23",{"file":"src/solver/context.rs",
 "edits":[["        let lower_bound = self.vehicle_lower_bound() as f64;\n","        let lower_bound = self.problem.total_demand() / self.problem.vehicle.cap;\n"]],
 "needs":"a total demand that is no multiple of the capacity",
 "what":"fleet size is smaller than prescribed",
 "main":r'''
fn main() {
    for k in 1..60 {
        let coords: Vec<(f64, f64)> = (0..=k).map(|i| (i as f64, 0.0)).collect();
        let mut d = vec![7.0; k + 1]; d[0] = 0.0;
        if k < 3 { continue; }
        let ctx = context(&coords, &d, 20.0, config());
        let lb = (7 * k + 19) / 20;
        let want = (12 * lb + 20 + 9) / 10;
        check(ctx.config.borrow().num_vehicles as usize == want, "fleet size");
    }
}'''}),
("c10-reset-keeps-temperature","C10",{"file":"src/solver/improvement/ruin_recreate/schedule.rs",
 "edits":[["        self.iteration = 0;\n        self.temp = self.start_temp;","        self.iteration = 0;\n        if self.completed() {\n            self.temp = self.start_temp;\n        }"]],
 "needs":"a schedule used again after a run",
 "what":"the second run starts at the final temperature",
 "main":r'''
fn main() {
    let mut s = IterationSchedule::new(10.0, 5);
    for _ in 0..5 { s.update(); }
    s.reset();
    check((s.temp() - 10.0).abs() < 1e-9, "temperature after reset");
}'''}),
("c02-crossover-wraps-after-window","C02",{"file":"src/solver/genetic/genetic.rs",
 "edits":[["                genotype[index] = parent_two_gene;","                if genotype.len() > 2 * added_genes.len() || index != start {\n                    genotype[index] = parent_two_gene;\n                }"],
          ["        for &parent_two_gene in parent_two.genotype.iter() {","        for &parent_two_gene in parent_two\n            .genotype\n            .iter()\n            .cycle()\n            .skip(end + 1 - (end + 1) % 2)\n            .take(parent_two.genotype.len())\n        {"]],
 "needs":"a window whose end lies beyond the first gene",
 "what":"the remaining customers are not in the order of the second parent",
 "main":r'''
fn main() {
    let mut r = Lcg(23); let ctx = random_context(&mut r, 8, 2.0, config());
    let mut ga = GeneticAlgorithm::new(&ctx);
    // exercised through the public interface: every child must be reachable by an ordered crossover
    let a: Vec<usize> = vec![1, 2, 3, 4, 5, 6, 7, 8]; let b: Vec<usize> = vec![8, 6, 4, 2, 7, 5, 3, 1];
    let mut ia = individual(&ctx, vec![a[..4].to_vec(), a[4..].to_vec()]); let mut ib = individual(&ctx, vec![b[..4].to_vec(), b[4..].to_vec()]);
    println!("private function, see tests in the verification hook");
    let mut found = false;
    ctx.config.borrow_mut().elite_education = false; ctx.config.borrow_mut().ls_enabled = false; ctx.config.borrow_mut().rr_mutation = false; ctx.config.borrow_mut().initial_individuals = 0; ctx.config.borrow_mut().split_capacity_factor = 100.0;
    for _ in 0..300 {
        let mut ga = GeneticAlgorithm::new(&ctx);
        ga.population.add_individual(&ctx, ia.clone(), false); ga.population.add_individual(&ctx, ib.clone(), false);
        for _ in 0..3 { ga.iterate(&ctx); }
        let child: Vec<usize> = ga.child.genotype.clone();
        let mut s: Vec<usize> = child.clone(); s.sort(); check(s == a, "permutation");
        // sort_routes reorders the routes, so compare the routes as a set with all possible children
        let mut rs: Vec<Vec<usize>> = ga.child.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect(); rs.sort();
        let mut ok = false;
        for (p, q) in [(&a, &b), (&b, &a), (&a, &a), (&b, &b)] { for st in 0..8 { for en in 0..8 { if st == en { continue; }
            let mut g = vec![0; 8]; let mut i = st; loop { g[i] = p[i]; if i == en { break; } i = (i + 1) % 8; }
            let mut i = (en + 1) % 8; for &x in q.iter() { if !g.contains(&x) { g[i] = x; i = (i + 1) % 8; } }
            // is rs a partition of g into consecutive pieces?
            let mut k = 0; let mut parts = vec![];
            while k < 8 { if let Some(r) = rs.iter().find(|r| g[k..].starts_with(r)) { parts.push(r.clone()); k += r.len(); } else { break; } }
            parts.sort(); if k == 8 && parts == rs { ok = true; }
        } } }
        check(ok, "an ordered crossover of the parents");
    }
}'''}),
]
