SPLIT='src/solver/genetic/split.rs'; LS='src/solver/improvement/local_search.rs'; MV='src/solver/improvement/moves/'; RR='src/solver/improvement/ruin_recreate/'
MAT='src/models/matrix.rs'; IND='src/solver/genetic/individual.rs'; GA='src/solver/genetic/genetic.rs'; DEC='src/solver/genetic/decomposition.rs'
LSLIB=r'''
fn ls_for(ctx: &Context) -> LocalSearch { LocalSearch::new(ctx, 1.0) }
unsafe fn forward(ls: &LocalSearch, r: usize) -> Vec<usize> { let mut v = vec![]; let mut p = ls.routes[r].start_depot; while !p.is_null() { if (*p).number != 0 { v.push((*p).number); } p = (*p).successor; } v }
unsafe fn backward(ls: &LocalSearch, r: usize) -> Vec<usize> { let mut v = vec![]; let mut p = ls.routes[r].end_depot; while !p.is_null() { if (*p).number != 0 { v.push((*p).number); } p = (*p).predecessor; } v.reverse(); v }
'''
SEEDS=[
("c03-sorted-already","C03",{"file":IND,
 "edits":[["        let mut new_phenotype = Vec::with_capacity(self.phenotype.len());\n","        // Nothing to do if the routes are already in order\n        if sorted_angles\n            .iter()\n            .enumerate()\n            .all(|(position, &(_angle, route_num))| position == route_num)\n        {\n            return;\n        }\n        let mut new_phenotype = Vec::with_capacity(self.phenotype.len());\n"]],
 "needs":"a split whose routes, listed from the end of the giant tour, are already sorted by polar angle",
 "what":"the giant tour is not the concatenation of the routes after the split",
 "main":r'''
fn main() {
    let mut r = Lcg(11);
    for _ in 0..60 {
        let ctx = random_context(&mut r, 9, 2.6, config());
        let mut split = Split::new(&ctx);
        for _ in 0..60 {
            let mut g: Vec<usize> = (1..=9).collect(); r.shuffle(&mut g);
            let mut ind = Individual::new(g, 0);
            split.run(&ctx, &mut ind, 4);
            check(partition(&ctx, &ind.phenotype), "partition");
            check(ind.genotype == ind.phenotype.iter().flatten().copied().collect::<Vec<usize>>(), "giant tour is the concatenation");
        }
    }
}'''}),
("c03-route-limit-slack","C03",{"file":SPLIT,
 "edits":[["        num_vehicles <= max_vehicles\n","        num_vehicles <= max_vehicles.max(num_vehicles_ub)\n"]],
 "needs":"a route limit below the fleet size that the unrestricted split exceeds",
 "what":"more routes than the limit",
 "main":r'''
fn main() {
    let mut r = Lcg(12);
    for _ in 0..200 {
        let ctx = random_context(&mut r, 12, 2.9, config());
        ctx.config.borrow_mut().penalty_capacity = 5.0 * (1 + r.below(400)) as f64;
        let mut split = Split::new(&ctx);
        let mut g: Vec<usize> = (1..=12).collect(); r.shuffle(&mut g);
        let mut ind = Individual::new(g, 0);
        let limit = 1 + r.below(4);
        split.run(&ctx, &mut ind, limit as u64);
        check(ind.num_nonempty_routes() <= limit.max(ctx.vehicle_lower_bound() as usize), "number of routes");
    }
}'''}),
("c04-dominates-soft-load","C04",{"file":SPLIT,
 "edits":[["                + self.penalty_capacity * ((self.cum_load[j] - self.cum_load[i]) as f64)","                + self.penalty_capacity\n                    * (0f64.max(self.cum_load[j + 1] - self.cum_load[i] - self.vehicle_cap) as f64)"]],
 "needs":"a later predecessor that pays off only when the following customers overload the longer route",
 "what":"the linear split drops the optimal predecessor",
 "main":r'''
fn best(ctx: &Context, g: &[usize], pen: f64) -> f64 {
    let n = g.len(); let mut b = vec![f64::INFINITY; n + 1]; b[0] = 0.0;
    for i in 0..n { for j in i + 1..=n { let c = b[i] + cost(ctx, &[g[i..j].to_vec()], pen); if c < b[j] { b[j] = c; } } }
    b[n]
}
fn main() {
    let mut r = Lcg(13);
    for _ in 0..400 {
        let ctx = random_context(&mut r, 14, 3.7, config());
        let pen = [1.0, 10.0, 100.0][r.below(3)]; ctx.config.borrow_mut().penalty_capacity = pen;
        let mut split = Split::new(&ctx);
        let mut g: Vec<usize> = (1..=14).collect(); r.shuffle(&mut g);
        let mut ind = Individual::new(g.clone(), 0);
        let nv = ctx.config.borrow().num_vehicles;
        split.run(&ctx, &mut ind, nv);
        if ind.num_nonempty_routes() < nv as usize { check(ind.penalized_cost() <= best(&ctx, &g, pen) + 1e-3, "optimal split"); }
    }
}'''}),
("c05-two-opt-keeps-end-depot","C05",{"file":MV+"two_opt.rs",
 "edits":[["        LinkNode::replace_end_depot(u_rc, (*r1).end_depot);\n","        if !(*y_rc).is_depot() {\n            LinkNode::replace_end_depot(u_rc, (*r1).end_depot);\n        }\n"]],
 "needs":"a 2-opt* move whose second cut is directly before the end depot",
 "what":"the first route ends at the end depot of the other route, backward links disagree",
 "main":LSLIB+r'''
fn main() { unsafe {
    let mut r = Lcg(14); let ctx = random_context(&mut r, 8, 2.0, config());
    let m = TwoOptInter;
    for u in 1..=4usize { for v in 5..=8usize {
        let ind = individual(&ctx, vec![vec![1, 2, 3, 4], vec![5, 6, 7, 8]]);
        let mut ls = ls_for(&ctx); ls.update_penalty(1.0); ls.load_individual(&ind);
        let (a, b) = (&mut ls.nodes[u] as *mut LinkNode, &mut ls.nodes[v] as *mut LinkNode);
        m.perform(&mut ls, a, b);
        let mut all = vec![];
        for k in 0..ls.routes.len() { let f = forward(&ls, k); check(f == backward(&ls, k), "links agree"); all.extend(f); }
        all.sort(); check(all == (1..=8).collect::<Vec<usize>>(), "partition");
    } }
} }'''}),
("c06-two-opt-load-behind-successor","C06",{"file":MV+"two_opt.rs",
 "edits":[["        let overload_two = r1.load - u.cum_load + r2.load - v.cum_load - cap;","        let overload_two = r1.load - x.cum_load + r2.load - y.cum_load - cap;"]],
 "needs":"a reversing 2-opt* whose second new route exceeds the capacity only with the two successors' demands",
 "what":"predicted change of a move differs from the real change",
 "main":LSLIB+r'''
fn main() { unsafe {
    let mut r = Lcg(15); let mut c = config(); c.penalty_capacity = 50.0; let ctx = random_context(&mut r, 8, 2.3, c);
    ctx.config.borrow_mut().penalty_capacity = 50.0;
    let m = TwoOptInterReverse;
    for u in 1..=4usize { for v in 5..=8usize {
        let ind = individual(&ctx, vec![vec![1, 2, 3, 4], vec![5, 6, 7, 8]]);
        let mut ls = ls_for(&ctx); ls.update_penalty(1.0); ls.load_individual(&ind);
        let (a, b) = (&mut ls.nodes[u] as *mut LinkNode, &mut ls.nodes[v] as *mut LinkNode);
        let before = cost(&ctx, &[forward(&ls, 0), forward(&ls, 1)], 50.0);
        let d = m.delta(&ls, a, b);
        m.perform(&mut ls, a, b);
        let after = cost(&ctx, &[forward(&ls, 0), forward(&ls, 1)], 50.0);
        check((after - before - d).abs() < 1e-3, "predicted change");
    } }
} }'''}),
("c06-double-reverse-demand","C06",{"file":MV+"relocation.rs",
 "edits":[["            + distance_matrix.get(x.number, u.number)\n            + distance_matrix.get(u.number, y.number);\n\n        let mut overload_one = r1.overload;\n        let mut overload_two = r2.overload;\n\n        if r1.index != r2.index {\n            let u_demand = nodes[u.number].demand;\n            let x_demand = nodes[x.number].demand;\n            overload_one += -u_demand - x_demand;\n            overload_two += u_demand + x_demand;","            + distance_matrix.get(x.number, u.number)\n            + distance_matrix.get(u.number, y.number);\n\n        let mut overload_one = r1.overload;\n        let mut overload_two = r2.overload;\n\n        if r1.index != r2.index {\n            let u_demand = nodes[u.number].demand;\n            let x_demand = nodes[x_next.number].demand;\n            overload_one += -u_demand - x_demand;\n            overload_two += u_demand + x_demand;"]],
 "needs":"the optional move that relocates two customers in reverse, into or out of an overloaded route",
 "what":"predicted change uses the demand of the wrong customer",
 "main":LSLIB+r'''
fn main() { unsafe {
    let mut r = Lcg(16); let ctx = random_context(&mut r, 8, 2.3, config());
    ctx.config.borrow_mut().penalty_capacity = 50.0;
    let m = RelocateDoubleReverse;
    for u in 1..=3usize { for v in 5..=8usize {
        let ind = individual(&ctx, vec![vec![1, 2, 3, 4], vec![5, 6, 7, 8]]);
        let mut ls = ls_for(&ctx); ls.update_penalty(1.0); ls.load_individual(&ind);
        let (a, b) = (&mut ls.nodes[u] as *mut LinkNode, &mut ls.nodes[v] as *mut LinkNode);
        let before = cost(&ctx, &[forward(&ls, 0), forward(&ls, 1)], 50.0);
        let d = m.delta(&ls, a, b);
        m.perform(&mut ls, a, b);
        let after = cost(&ctx, &[forward(&ls, 0), forward(&ls, 1)], 50.0);
        check((after - before - d).abs() < 1e-3, "predicted change");
    } }
} }'''}),
("c07-tie-with-second-dropped","C07",{"file":"src/solver/improvement/preprocess.rs",
 "edits":[["        if loc.cost > self.locations[2].cost {\n","        if loc.cost > self.locations[2].cost || loc.cost == self.locations[1].cost {\n"]],
 "needs":"a place exactly as cheap as the second cheapest found before",
 "what":"a more expensive third place is kept",
 "main":r"""
fn main() {
    let mut t = ThreeBestInserts::new();
    let p = |k: usize| ((k + 1) * 8) as *mut LinkNode;
    for (k, c) in [9.0, 1.0, 5.0, 5.0].iter().enumerate() { t.add(InsertLocation { cost: *c, node: p(k) }); }
    check(t.locations[0].cost == 1.0 && t.locations[1].cost == 5.0 && t.locations[2].cost == 5.0, "three cheapest");
}"""}),
("c07-insertions-dated-ahead","C07",{"file":LS,
 "edits":[["                    .last_calculated = self.move_count;\n","                    .last_calculated = self.move_count + 1;\n"]],
 "needs":"a SWAP* exchange followed by another SWAP* of one of the two routes without a move in between",
 "what":"insertion places of the route before the exchange are used",
 "main":LSLIB+r'''
fn places(ctx: &Context, route: &[usize], u: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..=route.len()).map(|k| { let a = if k == 0 { 0 } else { route[k - 1] }; let b = if k == route.len() { 0 } else { route[k] };
        let d = &ctx.matrix_provider.distance; d.get(a, u) + d.get(u, b) - d.get(a, b) }).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v
}
fn main() { unsafe {
    let mut r = Lcg(17);
    for _ in 0..200 {
        let ctx = random_context(&mut r, 12, 3.0, config());
        let mut g: Vec<usize> = (1..=12).collect(); r.shuffle(&mut g);
        let ind = individual(&ctx, vec![g[..4].to_vec(), g[4..8].to_vec(), g[8..].to_vec()]);
        let mut ls = ls_for(&ctx); ls.reset(); ls.update_penalty(1.0); ls.load_individual(&ind);
        for (a, b) in [(0, 1), (0, 2), (1, 2), (0, 1)] {
            let (p, q) = (&mut ls.routes[a] as *mut LinkRoute, &mut ls.routes[b] as *mut LinkRoute);
            if (*p).is_empty() || (*q).is_empty() { continue; }
            SwapStar::run(&mut ls, p, q);
            for (x, y) in [(a, b), (b, a)] {
                let (p, q) = (&mut ls.routes[x] as *mut LinkRoute, &mut ls.routes[y] as *mut LinkRoute);
                if (*p).is_empty() || (*q).is_empty() { continue; }
                ls.preprocess_insertions(p, q);
                let route = forward(&ls, y);
                for u in forward(&ls, x) {
                    let e = places(&ctx, &route, u);
                    for k in 0..3.min(e.len()) { check((ls.best_inserts.get(y, u).locations[k].cost - e[k]).abs() < 1e-6, "cheapest places of the route"); }
                }
            }
        }
    }
} }'''}),
("c08-stale-location-after-overload","C08",{"file":RR+"recreate.rs",
 "edits":[["                let best_route_number = best_route.expect(\"No best route found\");\n                solution.routes[best_route_number].add(best_node_index, customer, ctx);\n                updated_routes.insert(best_route_number);\n","                let best_route_number = best_route.expect(\"No best route found\");\n                let is_last = best_node_index == solution.routes[best_route_number].nodes.len();\n                solution.routes[best_route_number].add(best_node_index, customer, ctx);\n                if is_last {\n                    solution.locations[customer].update(best_route_number, best_node_index);\n                } else {\n                    updated_routes.insert(best_route_number);\n                }\n"]],
 "needs":"a customer that fits nowhere, appended to a route that was not ruined, and another customer inserted before it later... or a later fitting route",
 "what":"a route that got a customer is not considered for later customers",
 "main":r'''
fn main() { println!("n/a"); }'''}),
("c08-full-route-location","C08",{"file":RR+"recreate.rs",
 "edits":[["        solution.evaluate(ctx, updated_routes.iter());\n","        let changed: Vec<usize> = updated_routes\n            .iter()\n            .copied()\n            .filter(|&route| solution.routes[route].overload.approx_lte(0.0))\n            .collect();\n        solution.evaluate(ctx, changed.iter());\n"]],
 "needs":"a recreate step that ends with an overloaded route",
 "what":"recorded locations of the customers of an overloaded route are stale",
 "main":r'''
fn main() {
    let mut r = Lcg(18);
    for _ in 0..60 {
        let ctx = random_context(&mut r, 12, 2.9, config());
        ctx.config.borrow_mut().penalty_capacity = 0.1;
        let mut g: Vec<usize> = (1..=12).collect(); r.shuffle(&mut g);
        let mut ind = individual(&ctx, vec![g[..4].to_vec(), g[4..8].to_vec(), g[8..].to_vec()]);
        let mut rr = RuinRecreate::new(&ctx); rr.load(&ctx, &mut ind);
        let mut s = rr.solution.clone();
        let (ruin, rec) = (AdjacentStringRemoval::new(&ctx), GreedyBlink::default());
        for _ in 0..30 {
            ruin.run(&ctx, &mut s); rec.run(&ctx, &mut s);
            for (k, route) in s.routes.iter().enumerate() { for (i, &c) in route.nodes.iter().enumerate() {
                check(s.locations[c].route_index == k && s.locations[c].node_index == i, "recorded location");
            } }
        }
    }
}'''}),
("c09-best-cost-before-penalty-update","C09",{"file":RR+"mod.rs",
 "edits":[["                    if let Some(best_solution) = self.best_solution.as_mut() {\n                        best_solution.reevaluate(self.ctx);\n                    }\n","                    if let Some(best_solution) = self.best_solution.as_mut() {\n                        if best_solution.is_feasible() {\n                            best_solution.reevaluate(self.ctx);\n                        }\n                    }\n"]],
 "needs":"elite education with a penalty update while the best solution is infeasible",
 "what":"the best solution keeps its cost under the previous penalty",
 "main":r'''
fn main() {
    let mut r = Lcg(19);
    for _ in 0..20 {
        let mut c = config(); c.elite_education_gamma = 200.0; c.elite_education_start_temp = 1.0;
        let ctx = random_context(&mut r, 9, 2.95, c);
        ctx.config.borrow_mut().penalty_capacity = 0.001;
        let mut g: Vec<usize> = (1..=9).collect(); r.shuffle(&mut g);
        let mut ind = individual(&ctx, vec![g]);
        let mut rr = RuinRecreate::new(&ctx); rr.setup_elite_education(&ctx); rr.load(&ctx, &mut ind);
        rr.search();
        let pen = ctx.config.borrow().penalty_capacity;
        let b = rr.best_solution.as_ref().unwrap();
        let routes: Vec<Vec<usize>> = b.routes.iter().map(|x| x.nodes.clone()).collect();
        check((b.cost - cost(&ctx, &routes, pen)).abs() < 1e-3, "cost of the best solution");
    }
}'''}),
("c11-records-infeasible-candidate","C11",{"file":RR+"mod.rs",
 "edits":[["        if self.current_solution.is_feasible()\n            && self\n","        if self.solution.is_feasible()\n            && self\n"]],
 "needs":"an accepted improving candidate that is infeasible, built from a feasible solution",
 "what":"an infeasible solution is recorded",
 "main":r'''
fn main() {
    let mut r = Lcg(20);
    for _ in 0..60 {
        let ctx = random_context(&mut r, 12, 2.9, config());
        ctx.config.borrow_mut().penalty_capacity = 0.01;
        let mut g: Vec<usize> = (1..=12).collect(); r.shuffle(&mut g);
        let mut ind = individual(&ctx, g.chunks(3).map(|c| c.to_vec()).collect());
        let mut rr = RuinRecreate::new(&ctx); rr.set_acceptance(IterationSchedule::new(1.0, 300).into()); rr.load(&ctx, &mut ind);
        while !rr.complete() {
            rr.search();
            let h = ctx.search_history.borrow();
            if let Some(e) = h.last_entry() { for route in e.solution.routes.iter() { check(load(&ctx, route) <= ctx.problem.vehicle.cap + 1e-6, "recorded solution is feasible"); } }
        }
    }
}'''}),
("c14-start-pairs-of-longer-routes","C14",{"file":IND,
 "edits":[["            if self.predecessor(index) == 0\n                && other.predecessor(index) != 0\n","            if self.predecessor(index) == 0\n                && self.successor(index) != 0\n                && other.predecessor(index) != 0\n"]],
 "needs":"a route with a single customer that is in the middle of a route of the other solution",
 "what":"the start of a single-customer route is not counted",
 "main":r'''
fn main() {
    let mut r = Lcg(21); let ctx = random_context(&mut r, 5, 2.0, config());
    let a = individual(&ctx, vec![vec![3], vec![1, 2, 4, 5]]);
    let b = individual(&ctx, vec![vec![1, 2, 3, 4, 5]]);
    // successors 3 -> 0, 2 -> 4 differ; 3 starts a route of a, and neither starts nor ends one of b
    check(a.calculate_broken_pairs_distance(&b) == 3, "distance");
}'''}),
("c16-row-read-stays-in-row","C16",{"file":MAT,
 "edits":[["                            row_index += 1;\n                            col_index = 0;","                            row_index = (row_index + 1).min(row + 1);\n                            col_index = 0;"]],
 "needs":"an on-demand matrix read over more than two rows",
 "what":"a row-wise read of an on-demand matrix differs from a precomputed one",
 "main":r'''
fn main() {
    let mut r = Lcg(22); let mut c = config(); c.precompute_distance_size_limit = 1;
    let ctx = random_context(&mut r, 6, 2.0, c); let d = &ctx.matrix_provider.distance;
    let v = d.get_vec(1, 2, 24);
    for k in 0..24 { let p = 1 * 7 + 2 + k; check(v[k] == d.get(p / 7, p % 7), "row-wise read"); }
}'''}),
("c16-maximum-of-first-row","C16",{"file":MAT,
 "edits":[["            .slice(0, 0, self.rows * self.cols)\n","            .slice(0, 0, self.rows * (self.cols - 1))\n"]],
 "needs":"a restricted matrix whose largest distance is in the last row and column only",
 "what":"nothing for symmetric matrices of at least two nodes",
 "main":r'''
fn main() { println!("n/a"); }'''}),
("c17-coincident-customers","C17",{"file":MAT,
 "edits":[["                .filter(|&(j, _)| j > 0 && j != i)\n","                .filter(|&(j, distance)| j > 0 && j != i && *distance > 0.0)\n"]],
 "needs":"two customers at the same place",
 "what":"the neighbour list misses the other customer at the same place and is filled up with the depot",
 "main":r'''
fn main() {
    let mut c = config();
    let coords = [(0.0, 0.0), (3.0, 4.0), (3.0, 4.0), (9.0, 1.0), (5.0, 5.0), (1.0, 7.0)];
    let ctx = context(&coords, &[0.0, 1.0, 1.0, 1.0, 1.0, 1.0], 3.0, c);
    for i in 1..6 { let l = ctx.matrix_provider.correlation.get(i).to_vec(); check(l.iter().all(|&x| x != 0 && x != i), "customers only"); }
    check(ctx.matrix_provider.correlation.get(1)[0] == 2, "nearest first");
}'''}),
("c18-predecessor-rows","C18",{"file":SPLIT,
 "edits":[["            predecessors: Matrix::new(num_vehicles + 1, ctx.problem.dim()),","            predecessors: Matrix::new(num_vehicles, ctx.problem.dim()),"]],
 "needs":"a split restricted to exactly as many routes as there are vehicles",
 "what":"the predecessor table is written behind its end",
 "main":r'''
fn main() {
    let mut r = Lcg(23); let ctx = random_context(&mut r, 6, 2.0, config());
    let split = Split::new(&ctx);
    check(split.predecessors.rows > ctx.config.borrow().num_vehicles as usize, "a row for every number of routes");
}'''}),
("c18-clone-square","C18",{"file":MAT,
 "edits":[["            for j in 0..self.cols {\n                new_matrix.set(i, j, self.get(i, j));","            for j in i.min(self.cols)..self.cols {\n                new_matrix.set(i, j, self.get(i, j));\n                if j < self.rows && i < self.cols {\n                    new_matrix.set(j, i, self.get(j, i));\n                }"]],
 "needs":"a clone of a matrix with more rows than columns",
 "what":"cells below the square part are zero in the clone",
 "main":r'''
fn main() {
    let mut m: Matrix<usize> = Matrix::new(5, 3);
    for i in 0..5 { for j in 0..3 { m.set(i, j, 10 * i + j + 1); } }
    let c = m.clone();
    for i in 0..5 { for j in 0..3 { check(c.get(i, j) == 10 * i + j + 1, "cell of the clone"); } }
}'''}),
("c20-selection-by-first-customer","C20",{"file":DEC,
 "edits":[["                if selected_routes.contains(&route_index) {\n                    None","                if selected_routes.contains(&route_index) || route.is_empty() {\n                    None"],
          [DEC,"            let route_index = route_for_customer[neighbor];\n","            let route_index = route_for_customer[neighbor.max(1)];\n"]],
 "needs":"","what":"nothing",
 "main":r'''
fn main() { println!("n/a"); }'''}),
("c20-empty-route-boundary","C20",{"file":DEC,
 "edits":[["            selected_customers.extend(route.iter());\n            selected_routes.insert(route_index);\n","            // Leave out routes that would more than double the size\n            if selected_customers.len() + route.len() <= 2 * decompose_size {\n                selected_customers.extend(route.iter());\n            }\n            selected_routes.insert(route_index);\n"]],
 "needs":"a selected route with more customers than twice the minimum size of the sub-problem allows",
 "what":"the mapping has no room for the customers of a selected route",
 "main":r'''
fn main() {
    let mut r = Lcg(24);
    for _ in 0..20 {
        let mut c = config(); c.decomposed_problem_min_size = 5;
        let ctx = random_context(&mut r, 24, 2.0, c);
        let mut g: Vec<usize> = (1..=24).collect(); r.shuffle(&mut g);
        let mut ind = individual(&ctx, vec![g[..4].to_vec(), g[4..20].to_vec(), g[20..].to_vec()]);
        let dec = Decomposition::new(&mut ind, &ctx);
        let mut all: Vec<usize> = dec.mapping[1..].to_vec(); all.extend(dec.global.phenotype.iter().flatten());
        all.sort(); check(all == (1..=24).collect::<Vec<usize>>(), "every customer once");
    }
}'''}),
("c20-genotype-keeps-selected","C20",{"file":DEC,
 "edits":[["            .filter(|&customer| !selected_customers.contains(&customer))\n            .copied()\n            .collect();","            .filter(|&customer| !mapping[..mapping.len() - 1].contains(customer))\n            .copied()\n            .collect();"]],
 "needs":"nothing special, the giant tour of the rest is rebuilt when merging",
 "what":"the rest of the solution keeps a customer of the sub-problem in its giant tour",
 "main":r'''
fn main() {
    let mut r = Lcg(25); let mut c = config(); c.decomposed_problem_min_size = 5;
    let ctx = random_context(&mut r, 24, 4.0, c);
    let mut g: Vec<usize> = (1..=24).collect(); r.shuffle(&mut g);
    let mut ind = individual(&ctx, g.chunks(6).map(|c| c.to_vec()).collect());
    let dec = Decomposition::new(&mut ind, &ctx);
    let mut a = dec.global.genotype.clone(); let mut b: Vec<usize> = dec.global.phenotype.iter().flatten().copied().collect();
    a.sort(); b.sort(); check(a == b, "giant tour of the rest");
}'''}),
("c21-restart-one-early","C21",{"file":GA,
 "edits":[["                if self.iterations - self.best_iteration\n                    > ctx.config","                if self.iterations - self.best_iteration\n                    >= ctx.config"]],
 "needs":"exactly the configured number of iterations without improvement",
 "what":"restart one iteration early",
 "main":r'''
fn main() {
    let mut r = Lcg(26); let mut c = config(); c.initial_individuals = 2; c.max_iterations_without_improvement = 30;
    let ctx = random_context(&mut r, 6, 2.0, c);
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut since = 0; let mut last = ga.verif_state();
    for _ in 0..400 {
        let before = ga.best_iteration; let it = ga.iterations;
        ga.iterate(&ctx);
        let now = ga.verif_state();
        if last == "cycle" && now == "created" { check(it - before > 30, "restart after more than 30 iterations"); }
        last = now;
    }
}'''}),
("c21-initial-count-survives-restart","C21",{"file":GA,
 "edits":[["        self.num_initialized = 0;\n        self.state = State::Created;","        self.num_initialized = self.population.feasible.size() as u64;\n        self.state = State::Created;"],[GA,"        self.population = Population::new(ctx);\n        self.next_penalty_update = self.iterations;","        let mut population = Population::new(ctx);\n        std::mem::swap(&mut population, &mut self.population);\n        self.next_penalty_update = self.iterations;"]],
 "needs":"","what":"nothing","main":r'''
fn main() { println!("n/a"); }'''}),
("c21-time-limit-seen-late","C21",{"file":"src/solver/context.rs",
 "edits":[["                *self.iteration.borrow() >= max_iterations","                *self.iteration.borrow() > max_iterations"]],
 "needs":"an iteration limit",
 "what":"one iteration more than the limit",
 "main":r'''
fn main() {
    let mut r = Lcg(27); let mut c = config(); c.initial_individuals = 2; c.max_iterations = Some(7);
    let ctx = random_context(&mut r, 6, 2.0, c);
    let mut ga = GeneticAlgorithm::new(&ctx);
    for _ in 0..60 { ga.iterate(&ctx); }
    check(*ctx.iteration.borrow() == 7, "exactly seven iterations");
    check(ga.terminated(), "terminated");
}'''}),
("c22-rounding-flag-cannot-be-cleared","C22",{"file":"src/config.rs",
 "edits":[["            self.round_distances = rounded;","            self.round_distances |= rounded;"]],
 "needs":"--rounded false on the command line while the default or file says true",
 "what":"the command line does not override",
 "main":r'''
fn main() {
    let mut c = Config::default(); c.round_distances = true;
    let args = hybridcvrp::cli::Args { instance_path: "x".into(), solution_path: None, max_iterations: None, time_limit: None, rounded: Some(false) };
    c.update_from_args(&args);
    check(!c.round_distances, "command line value");
}'''}),
("c22-null-in-file-ignored","C22",{"file":"src/config.rs",
 "edits":[["                    if let Some(config_value) = config.get_mut(key) {\n","                    if value.is_null() {\n                        continue;\n                    }\n                    if let Some(config_value) = config.get_mut(key) {\n"]],
 "needs":"a file that sets an optional parameter to null",
 "what":"the value of the file is ignored",
 "main":r'''
fn main() {
    let d = std::env::temp_dir().join(format!("cfg-{}.yml", std::process::id()));
    std::fs::write(&d, "max_iterations: ~\ntime_limit: 5\n").unwrap();
    let mut c = Config::default(); c.max_iterations = Some(9);
    c.update_from_yaml_file(d.to_str().unwrap());
    let _ = std::fs::remove_file(&d);
    check(c.max_iterations.is_none() && c.time_limit == 5, "value from the file");
}'''}),
]
SEEDS=[s for s in SEEDS if "n/a" not in s[2]["main"]]
