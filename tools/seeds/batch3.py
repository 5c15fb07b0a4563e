RR='src/solver/improvement/ruin_recreate/'; GA='src/solver/genetic/genetic.rs'; CX='src/solver/context.rs'
SEEDS=[
("c08-location-position-kept","C08",{"file":RR+"mod.rs",
 "edits":[["                self.locations[node].update(route_index, node_index);\n","                if self.locations[node].route_index == route_index\n                    && self.locations[node].node_index + 1 == node_index\n                {\n                    continue;\n                }\n                self.locations[node].update(route_index, node_index);\n"]],
 "needs":"a customer that moves one position back on its route when another one is inserted before it",
 "what":"the recorded position of a customer is not its position on the route",
 "main":r'''
fn main() {
    let mut r = Lcg(31); let mut c = config(); c.max_ruin_string_length = 4; c.average_ruin_cardinality = 3;
    for _ in 0..40 {
        let ctx = random_context(&mut r, 12, 2.6, c.clone());
        let mut rr = RuinRecreate::new(&ctx);
        let mut g: Vec<usize> = (1..=12).collect(); r.shuffle(&mut g);
        let mut ind = individual(&ctx, vec![g[..4].to_vec(), g[4..8].to_vec(), g[8..].to_vec()]);
        rr.load(&ctx, &mut ind);
        for _ in 0..60 {
            rr.search();
            for s in [&rr.solution, &rr.current_solution] {
                for (k, route) in s.routes.iter().enumerate() { for (j, &x) in route.nodes.iter().enumerate() {
                    if x != 0 { check(s.locations[x].route_index == k && s.locations[x].node_index == j, "location of a customer"); }
                } }
            }
        }
    }
}'''}),
("c10-elite-time-start","C10",{"file":RR+"mod.rs",
 "edits":[["            self.acceptance = TimeSchedule::new(config.elite_education_start_temp, duration).into();","            self.acceptance = TimeSchedule::new(config.rr_start_temp, duration).into();"]],
 "needs":"a time based elite education with a start temperature other than the one of the mutation",
 "what":"the schedule starts at another temperature than the configured one",
 "main":r'''
fn main() {
    let mut r = Lcg(32); let mut c = config(); c.elite_education_time_based = true; c.elite_education_start_temp = 50.0; c.rr_start_temp = 10.0; c.time_limit = 1000;
    let ctx = random_context(&mut r, 6, 2.0, c);
    let mut rr = RuinRecreate::new(&ctx);
    rr.setup_elite_education(&ctx);
    match &rr.acceptance { AcceptanceCriterion::Time(s) => check(s.temp() == 50.0, "start temperature"), _ => check(false, "time schedule") }
    rr.setup_mutation(&ctx);
    match &rr.acceptance { AcceptanceCriterion::Iteration(s) => check(s.temp() == 10.0, "start temperature"), _ => check(false, "iteration schedule") }
}'''}),
("c21-restart-counts-first","C21",{"file":GA,
 "edits":[["        self.num_initialized = 0;\n        self.state = State::Created;","        self.num_initialized = self.num_initialized.min(self.diversified_start + 1);\n        self.state = State::Created;"]],
 "needs":"a restart of the search",
 "what":"a restart creates fewer initial individuals than configured",
 "main":r'''
fn main() {
    let mut r = Lcg(33); let mut c = config(); c.initial_individuals = 4; c.elite_education = false; c.max_iterations_without_improvement = 6;
    let ctx = random_context(&mut r, 8, 2.4, c);
    let mut ga = GeneticAlgorithm::new(&ctx);
    let (mut created, mut rounds) = (0, 0);
    for _ in 0..300 {
        let before = ga.verif_state(); let count = ga.num_initialized;
        ga.iterate(&ctx);
        if before == "created" { created = 0; rounds += 1; }
        if before == "initialization" && ga.verif_state() == "initialization" { check(ga.num_initialized == count + 1, "one more"); created += 1; }
        if before == "initialization" && ga.verif_state() == "cycle" { check(created == 4, "four initial individuals"); }
    }
    check(rounds > 1, "restarted");
}'''}),
("c23-penalty-of-small-demands","C23",{"file":CX,
 "edits":[["            (Some(distance), Some(demand)) => 0.0001f64.max(10_000f64.min(distance / demand)),","            (Some(distance), Some(demand)) if demand >= 1.0 => {\n                0.0001f64.max(10_000f64.min(distance / demand))\n            }"]],
 "needs":"a largest demand below one",
 "what":"the initial penalty is not the longest distance per demand",
 "main":r'''
fn main() {
    let ctx = context(&[(0.0, 0.0), (3.0, 4.0), (0.0, 4.0)], &[0.0, 0.5, 0.25], 1.0, config());
    check((ctx.config.borrow().penalty_capacity - 10.0).abs() < 1e-9, "initial penalty");
    let ctx = context(&[(0.0, 0.0), (3.0, 4.0), (0.0, 4.0)], &[0.0, 5.0, 2.0], 10.0, config());
    check((ctx.config.borrow().penalty_capacity - 1.0).abs() < 1e-9, "initial penalty");
}'''}),
("c11-first-entry-loses-routes","C11",{"file":"src/solver/history.rs",
 "edits":[["        if let Some(last) = self.history.last_mut() {\n            last.solution.routes = Vec::new();","        let best_cost = self.best_cost;\n        if let Some(last) = self.history.iter_mut().rev().find(|h| h.solution.cost >= best_cost + 1.0) {\n            last.solution.routes = Vec::new();"]],
 "needs":"an improvement of the best cost by less than one",
 "what":"an entry other than the last keeps its routes",
 "main":r'''
fn main() {
    let ctx = context(&[(0.0, 0.0), (10.0, 0.0), (20.0, 0.0), (0.0, 0.25)], &[0.0, 1.0, 1.0, 1.0], 10.0, config());
    let mut h = ctx.search_history.borrow_mut();
    h.add(&ctx, &individual(&ctx, vec![vec![1, 3], vec![2]]));
    h.add(&ctx, &individual(&ctx, vec![vec![1, 2], vec![3]]));
    h.add(&ctx, &individual(&ctx, vec![vec![1, 2, 3]]));
    let n = h.entries().len();
    for (k, e) in h.entries().iter().enumerate() { check(e.solution.routes.is_empty() == (k + 1 < n), "only the last entry has routes"); }
}'''}),
]
