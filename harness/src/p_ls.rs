use crate::gen::*;
use crate::{check, note, Out, Stats};
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::improvement::*;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::Random;
use std::collections::HashSet;
use std::time::{Duration, Instant};

/// The routes as the links describe them; every stored value is compared with its definition.
fn ls_routes(ctx: &Context, ls: &LocalSearch) -> Result<Vec<Vec<usize>>, String> {
    let n = ctx.problem.dim();
    let d = &ctx.matrix_provider.distance;
    let mut out = vec![];
    for (k, route) in ls.routes.iter().enumerate() {
        let me = route as *const LinkRoute as *mut LinkRoute;
        let mut t = vec![];
        unsafe {
            check!(route.index == k, "route index");
            check!((*route.start_depot).predecessor.is_null(), "start depot of route {} has a predecessor", k);
            check!((*route.end_depot).successor.is_null(), "end depot of route {} has a successor", k);
            let mut prev = route.start_depot;
            let (mut dist, mut load, mut pos) = (0.0, 0.0, 0);
            check!((*prev).number == 0 && (*prev).position == 0 && (*prev).route == me, "start depot of route {}", k);
            loop {
                let cur = (*prev).successor;
                check!(!cur.is_null(), "route {} ends at node {} instead of its end depot", k, (*prev).number);
                check!((*cur).predecessor == prev, "route {}: backward link of node {} does not lead to {}", k, (*cur).number, (*prev).number);
                pos += 1;
                dist += d.get((*prev).number, (*cur).number);
                load += ctx.problem.nodes[(*cur).number].demand;
                check!((*cur).route == me, "node {} does not know route {}", (*cur).number, k);
                check!((*cur).position == pos, "position of node {} is {} expected {}", (*cur).number, (*cur).position, pos);
                check!(close((*cur).cum_distance, dist) && close((*cur).cum_load, load), "cumulated distance/load of node {}", (*cur).number);
                if cur == route.end_depot {
                    break;
                }
                check!((*cur).number != 0, "route {} contains another route's depot", k);
                t.push((*cur).number);
                check!(t.len() < n, "route {} is circular: {:?}", k, t);
                prev = cur;
            }
            let over = load - ctx.problem.vehicle.cap;
            check!(close(route.distance, dist) && close(route.load, load) && close(route.overload, over), "route {} {:?}: distance {} load {} overload {}", k, t, route.distance, route.load, route.overload);
            check!(close(route.cost, dist + ls.penalty_capacity * over.max(0.0)), "route {} cost {}", k, route.cost);
            check!(route.num_customers == t.len(), "route {} counts {} customers", k, route.num_customers);
            check!(ls.empty_routes.contains(&k) == t.is_empty(), "route {} empty: {}", k, t.is_empty());
            for &c in &t {
                check!(route.sector.is_enclosed(ctx.problem.get_angle(c)), "customer {} is outside the sector of its route", c);
            }
        }
        out.push(t);
    }
    is_partition(n, &out)?;
    Ok(out)
}

fn move_list() -> Vec<(Box<dyn Move>, bool)> {
    // (move, also used with the start depot of an empty route)
    vec![
        (Box::new(RelocateSingle), true),
        (Box::new(RelocateDouble), true),
        (Box::new(RelocateDoubleReverse), true),
        (Box::new(SwapOneWithOne), false),
        (Box::new(SwapTwoWithOne), false),
        (Box::new(SwapTwoWithTwo), false),
        (Box::new(TwoOptIntraReverse), false),
        (Box::new(TwoOptInterReverse), false),
        (Box::new(TwoOptInter), true),
    ]
}
fn few_routes(r: &mut Rng, n: usize, nv: usize) -> Vec<Vec<usize>> {
    let k = if r.chance(0.6) { r.range(1, 4.min(nv + 1)) } else { r.range(1, nv + 1) };
    let mut s = partition(r, n, k);
    while s.len() < nv {
        s.push(vec![]);
    }
    r.shuffle(&mut s);
    s
}
/// every applicable move on every pair of a random solution: links and cost change
pub fn moves(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 2, 8);
    let ctx = i.ctx();
    let nv = ctx.config.borrow().num_vehicles as usize;
    let n = i.n();
    let mult = r.pick(&[1.0, 1.0, 10.0]);
    let mut ls = LocalSearch::new(&ctx, mult);
    let ind = individual(&ctx, few_routes(r, n, nv));
    let list = move_list();
    let pen = ctx.config.borrow().penalty_capacity * mult;
    let base = format!("{} routes={:?} multiplier={}", i.desc(), ind.phenotype, mult);
    note(base.clone());
    let old = cost(&ctx, &ind.phenotype, pen);
    for (m, empty) in &list {
        for u in 1..n {
            for v in 0..n {
                if u == v || (v == 0 && !empty) {
                    continue;
                }
                if n > 6 && !r.chance(0.3) {
                    continue;
                }
                ls.reset();
                ls.update_penalty(mult);
                ls.load_individual(&ind);
                unsafe {
                    let up = &mut ls.nodes[u] as *mut LinkNode;
                    let vp = if v > 0 {
                        &mut ls.nodes[v] as *mut LinkNode
                    } else {
                        match ls.routes.iter().find(|x| x.is_empty()) {
                            Some(x) => x.start_depot,
                            None => continue,
                        }
                    };
                    let delta = m.delta(&ls, up, vp);
                    if delta.abs() <= 1e-6 {
                        continue;
                    }
                    note(format!("{} move={} u={} v={} delta={}", base, m.move_name(), u, v, delta));
                    ls.move_count += 1;
                    m.perform(&mut ls, up, vp);
                    let now = ls_routes(&ctx, &ls)?;
                    let new = cost(&ctx, &now, pen);
                    let tol = 1e-6 * (1.0 + old.abs() + new.abs());
                    check!((new - old - delta).abs() <= tol.max(1e-5), "predicted {} but the cost changes from {} to {}: {:?} -> {:?}", delta, old, new, ind.phenotype, now);
                    st.hit();
                    st.sample(|| format!("{:?} {} u={} v={} delta={} -> {:?}", ind.phenotype, m.move_name(), u, v, delta, now));
                }
            }
        }
    }
    Ok(())
}
/// chains of moves on the same search object
pub fn move_chain(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 3, 9);
    let ctx = i.ctx();
    let nv = ctx.config.borrow().num_vehicles as usize;
    let n = i.n();
    let mut ls = LocalSearch::new(&ctx, 1.0);
    let ind = individual(&ctx, few_routes(r, n, nv));
    ls.reset();
    ls.load_individual(&ind);
    let list = move_list();
    let pen = ctx.config.borrow().penalty_capacity;
    let mut cur = ls_routes(&ctx, &ls)?;
    for _ in 0..40 {
        let (m, empty) = &list[r.range(0, list.len())];
        let u = r.range(1, n);
        let v = if *empty && r.chance(0.2) { 0 } else { r.range(1, n) };
        if u == v {
            continue;
        }
        unsafe {
            let up = &mut ls.nodes[u] as *mut LinkNode;
            let vp = if v > 0 {
                &mut ls.nodes[v] as *mut LinkNode
            } else {
                match ls.routes.iter().find(|x| x.is_empty()) {
                    Some(x) => x.start_depot,
                    None => continue,
                }
            };
            let delta = m.delta(&ls, up, vp);
            if delta.abs() <= 1e-6 {
                continue;
            }
            note(format!("{} routes={:?} move={} u={} v={} delta={}", i.desc(), cur, m.move_name(), u, v, delta));
            ls.move_count += 1;
            m.perform(&mut ls, up, vp);
            let now = ls_routes(&ctx, &ls)?;
            let (a, b) = (cost(&ctx, &cur, pen), cost(&ctx, &now, pen));
            check!((b - a - delta).abs() <= 1e-5 + 1e-6 * (a + b), "predicted {} but the cost changes from {} to {}: {:?} -> {:?}", delta, a, b, cur, now);
            cur = now;
            st.hit();
        }
    }
    Ok(())
}
fn ls_config(r: &mut Rng, i: &Inst) -> hybridcvrp::config::Config {
    let mut c = i.config();
    c.local_search_granularity = r.pick(&[1, 2, 3, 5, 20]);
    let all = r.chance(0.5);
    for b in [
        &mut c.relocate_single,
        &mut c.relocate_double,
        &mut c.relocate_double_reverse,
        &mut c.swap_one_with_one,
        &mut c.swap_two_with_one,
        &mut c.swap_two_with_two,
        &mut c.two_opt_intra_reverse,
        &mut c.two_opt_inter_reverse,
        &mut c.two_opt_inter,
    ] {
        *b = all || r.chance(0.5);
    }
    // without SWAP* the loop counter never advances (see DESIGN.md), so both are used
    c.swap_star = r.chance(0.8);
    c
}
pub fn ls_run(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 1, 14);
    let cfg = ls_config(r, &i);
    let ctx = i.ctx_with(cfg);
    if let Some(p) = i.penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    let nv = ctx.config.borrow().num_vehicles as usize;
    let n = i.n();
    let mut ls = LocalSearch::new(&ctx, 1.0);
    for round in 0..3 {
        let mult = r.pick(&[1.0, 1.0, 10.0, 0.1]);
        let pen = ctx.config.borrow().penalty_capacity * mult;
        let mut ind = individual(&ctx, few_routes(r, n, nv));
        let before = ind.clone();
        note(format!("{} routes={:?} multiplier={} round={} config={:?}", i.desc(), before.phenotype, mult, round, ctx.config.borrow()));
        ls.run(&ctx, &mut ind, mult);
        is_partition(n, &ind.phenotype)?;
        check!(ind.phenotype.len() == before.phenotype.len(), "{} routes became {}", before.phenotype.len(), ind.phenotype.len());
        check!(ind.genotype == ind.phenotype.concat(), "giant tour {:?} of {:?}", ind.genotype, ind.phenotype);
        eval_ok(&ctx, &ind)?;
        let linked = ls_routes(&ctx, &ls)?;
        let norm = |s: &[Vec<usize>]| {
            let mut s: Vec<Vec<usize>> = s.iter().filter(|x| !x.is_empty()).cloned().collect();
            s.sort();
            s
        };
        check!(norm(&linked) == norm(&ind.phenotype), "links {:?} but phenotype {:?}", linked, ind.phenotype);
        let (a, b) = (cost(&ctx, &before.phenotype, pen), cost(&ctx, &ind.phenotype, pen));
        check!(b <= a + 1e-6 * (1.0 + a), "local search raised the cost from {} to {}: {:?} -> {:?}", a, b, before.phenotype, ind.phenotype);
        if norm(&before.phenotype) != norm(&ind.phenotype) {
            st.hit();
        }
        if r.chance(0.3) {
            ctx.config.borrow_mut().penalty_capacity *= r.pick(&[0.2, 5.0]);
        }
        st.sample(|| format!("{:?} cost {} -> {:?} cost {}", before.phenotype, a, ind.phenotype, b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
pub fn three_best(r: &mut Rng, st: &mut Stats) -> Out {
    let mut t = ThreeBestInserts::new();
    let mut pool: Vec<f64> = vec![];
    let mut nodes: Vec<LinkNode> = (0..12).map(|k| unsafe { LinkNode::new(k, 0) }).collect();
    for round in 0..2 {
        if round == 1 {
            t.reset();
            pool.clear();
        }
        let k = r.range(1, 10);
        for j in 0..k {
            let c = match r.range(0, 3) {
                0 => r.int(0, 3) as f64,
                1 => r.int(-5, 20) as f64,
                _ => r.f() * 10.0,
            };
            pool.push(c);
            note(format!("costs={:?}", pool));
            t.add(InsertLocation { cost: c, node: &mut nodes[j] as *mut LinkNode });
            let mut s = pool.clone();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut used = HashSet::new();
            for q in 0..3 {
                let l = &t.locations[q];
                if q < s.len() {
                    check!(l.cost == s[q], "place {} costs {} expected {} of {:?}", q, l.cost, s[q], pool);
                    check!(!l.node.is_null(), "place {} has no node", q);
                    let id = unsafe { (*l.node).number };
                    check!(used.insert(id) && pool[id] == l.cost, "place {} belongs to another cost", q);
                } else {
                    check!(l.cost.is_infinite() && l.node.is_null(), "place {} is not empty", q);
                }
            }
        }
    }
    st.hit();
    Ok(())
}
fn best_insert(ctx: &Context, t: &[usize], u: usize) -> Vec<f64> {
    let d = &ctx.matrix_provider.distance;
    let at = |k: usize| if k == 0 || k > t.len() { 0 } else { t[k - 1] };
    let mut v: Vec<f64> = (0..=t.len()).map(|k| d.get(at(k), u) + d.get(u, at(k + 1)) - d.get(at(k), at(k + 1))).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
pub fn swap_star(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 2, 9);
    let ctx = i.ctx();
    if let Some(p) = i.penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    let nv = ctx.config.borrow().num_vehicles as usize;
    let n = i.n();
    let mut ls = LocalSearch::new(&ctx, 1.0);
    let ind = individual(&ctx, few_routes(r, n, nv));
    ls.reset();
    ls.update_penalty(1.0);
    ls.load_individual(&ind);
    let pen = ctx.config.borrow().penalty_capacity;
    let cap = ctx.problem.vehicle.cap;
    let mut cur = ls_routes(&ctx, &ls)?;
    for step in 0..12 {
        let ne: Vec<usize> = (0..cur.len()).filter(|&k| !cur[k].is_empty()).collect();
        if ne.len() < 2 {
            return Ok(());
        }
        let a = r.pick(&ne);
        let b = r.pick(&ne);
        if a == b {
            continue;
        }
        note(format!("{} step={} routes={:?} pair=({},{})", i.desc(), step, cur, a, b));
        let (p1, p2) = (&mut ls.routes[a] as *mut LinkRoute, &mut ls.routes[b] as *mut LinkRoute);
        // the three cheapest places
        if r.chance(0.5) {
            unsafe {
                ls.preprocess_insertions(p1, p2);
                ls.preprocess_insertions(p2, p1);
            }
            for (from, to) in [(a, b), (b, a)] {
                for &u in &cur[from] {
                    let s = best_insert(&ctx, &cur[to], u);
                    let g = ls.best_inserts.get(to, u);
                    for q in 0..3 {
                        if q < s.len() {
                            check!(close(g.locations[q].cost, s[q]), "place {} of customer {} in route {:?} costs {} expected {}", q, u, cur[to], g.locations[q].cost, s[q]);
                            let node = g.locations[q].node;
                            check!(!node.is_null(), "no node");
                            let (x, y) = unsafe { ((*node).number, (*(*node).successor).number) };
                            let d = &ctx.matrix_provider.distance;
                            check!(close(d.get(x, u) + d.get(u, y) - d.get(x, y), s[q]), "place {} of customer {} has another cost", q, u);
                        } else {
                            check!(g.locations[q].node.is_null(), "place {} should be empty", q);
                        }
                    }
                }
            }
        }
        // the best exchange by exhaustive search
        let (ra, rb) = (cur[a].clone(), cur[b].clone());
        let rc = |t: &[usize]| route_cost(&ctx, t, pen);
        let old = rc(&ra) + rc(&rb);
        let without = |t: &[usize], c: usize| -> Vec<usize> { t.iter().copied().filter(|&x| x != c).collect() };
        let rem = |t: &[usize], c: usize| route_dist(&ctx, &without(t, c)) - route_dist(&ctx, t);
        let dem = |c: usize| ctx.problem.nodes[c].demand;
        let (la, lb) = (route_load(&ctx, &ra), route_load(&ctx, &rb));
        let pc = |l: f64| (l - cap).max(0.0) * pen;
        let mut best = f64::INFINITY;
        let mut doubtful = false;
        for &u in &ra {
            for &v in &rb {
                let dp = pc(la - dem(u) + dem(v)) - pc(la) + pc(lb + dem(u) - dem(v)) - pc(lb);
                let lower = rem(&ra, u) + rem(&rb, v) + dp;
                if (lower - 1e-6).abs() < 1e-7 {
                    doubtful = true;
                }
                if lower < 1e-6 {
                    let c = lower + best_insert(&ctx, &without(&rb, v), u)[0] + best_insert(&ctx, &without(&ra, u), v)[0];
                    best = best.min(c);
                }
            }
        }
        for (f, t, lf, lt) in [(&ra, &rb, la, lb), (&rb, &ra, lb, la)] {
            for &u in f.iter() {
                let c = rem(f, u) + best_insert(&ctx, t, u)[0] + pc(lf - dem(u)) - pc(lf) + pc(lt + dem(u)) - pc(lt);
                best = best.min(c);
            }
        }
        let done = unsafe { SwapStar::run(&mut ls, p1, p2) };
        let now = ls_routes(&ctx, &ls)?;
        let new = rc(&now[a]) + rc(&now[b]);
        for k in 0..cur.len() {
            check!(k == a || k == b || now[k] == cur[k], "route {} changed", k);
        }
        let tol = 1e-5 + 1e-7 * (old.abs() + new.abs());
        if done {
            check!(new < old - 1e-7, "performed although the cost changes from {} to {}: {:?} -> {:?}", old, new, cur, now);
            check!(doubtful || (new - old - best).abs() <= tol, "cost change {} but the best exchange gives {}: {:?} -> {:?}", new - old, best, cur, now);
            st.hit();
        } else {
            check!(now == cur, "not performed but {:?} -> {:?}", cur, now);
            check!(doubtful || best > -tol, "an exchange that saves {} was not performed in {:?} ({},{})", -best, cur, a, b);
        }
        st.sample(|| format!("{:?} ({},{}) -> {:?} change {}", cur, a, b, now, new - old));
        cur = now;
    }
    Ok(())
}

// ---------------------------------------------------------------- C08, C09
fn rr_ok(ctx: &Context, s: &RuinRecreateSolution, complete: bool) -> Result<Vec<Vec<usize>>, String> {
    let n = ctx.problem.dim();
    let routes: Vec<Vec<usize>> = s.routes.iter().map(|x| x.nodes.clone()).collect();
    let mut all = routes.clone();
    all.push(s.unassigned.clone());
    is_partition(n, &all)?;
    if complete {
        check!(s.unassigned.is_empty(), "unassigned customers {:?}", s.unassigned);
        for (k, t) in routes.iter().enumerate() {
            for (j, &c) in t.iter().enumerate() {
                check!(s.locations[c].route_index == k && s.locations[c].node_index == j, "customer {} is at ({},{}) but recorded at ({},{})", c, k, j, s.locations[c].route_index, s.locations[c].node_index);
            }
        }
    }
    Ok(routes)
}
fn rr_values(ctx: &Context, s: &RuinRecreateSolution, with_cost: bool) -> Out {
    let pen = ctx.config.borrow().penalty_capacity;
    for (k, t) in s.routes.iter().enumerate() {
        let d = route_dist(ctx, &t.nodes);
        let o = route_load(ctx, &t.nodes) - ctx.problem.vehicle.cap;
        check!(close(t.distance, d) && close(t.overload, o), "route {} {:?}: distance {} overload {}, expected {} and {}", k, t.nodes, t.distance, t.overload, d, o);
    }
    if with_cost {
        let routes: Vec<Vec<usize>> = s.routes.iter().map(|x| x.nodes.clone()).collect();
        let c = cost(ctx, &routes, pen);
        check!((s.cost - c).abs() <= 1e-5 + 1e-7 * c, "solution cost {} expected {} ({:?})", s.cost, c, routes);
    }
    Ok(())
}
fn subsequence(a: &[usize], b: &[usize]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}
fn rr_inst(r: &mut Rng) -> (Inst, Context) {
    let i = inst(r, 1, 14);
    let mut c = i.config();
    c.average_ruin_cardinality = r.pick(&[1, 3, 10]);
    c.max_ruin_string_length = r.pick(&[1, 2, 4, 10]);
    let ctx = i.ctx_with(c);
    if let Some(p) = i.penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    (i, ctx)
}
pub fn c08(r: &mut Rng, st: &mut Stats) -> Out {
    let (i, ctx) = rr_inst(r);
    let n = i.n();
    let nv = ctx.config.borrow().num_vehicles as usize;
    let mut rr = RuinRecreate::new(&ctx);
    for round in 0..2 {
        let mut ind = individual(&ctx, few_routes(r, n, nv));
        note(format!("{} routes={:?} cardinality={} length={} round={}", i.desc(), ind.phenotype, ctx.config.borrow().average_ruin_cardinality, ctx.config.borrow().max_ruin_string_length, round));
        let base = format!("{} routes={:?}", i.desc(), ind.phenotype);
        rr.load(&ctx, &mut ind);
        let mut before = rr_ok(&ctx, &rr.current_solution, true)?;
        for step in 0..25 {
            note(format!("{} step={} before={:?} cardinality={} length={}", base, step, before, ctx.config.borrow().average_ruin_cardinality, ctx.config.borrow().max_ruin_string_length));
            rr.ruin.run(&ctx, &mut rr.current_solution);
            let mid = rr_ok(&ctx, &rr.current_solution, false)?;
            check!(mid.len() == before.len(), "number of routes");
            for k in 0..mid.len() {
                check!(subsequence(&mid[k], &before[k]), "ruin turned route {:?} into {:?}", before[k], mid[k]);
                check!(mid[k].len() == before[k].len() || rr.current_solution.ruined_routes.contains(&k), "route {} changed but is not marked as ruined", k);
            }
            check!(rr.current_solution.unassigned.len() + mid.concat().len() == n - 1, "customers lost");
            let removed = rr.current_solution.unassigned.len();
            rr.recreate.run(&ctx, &mut rr.current_solution);
            let after = rr_ok(&ctx, &rr.current_solution, true)?;
            for k in 0..mid.len() {
                check!(subsequence(&mid[k], &after[k]), "recreate turned route {:?} into {:?}", mid[k], after[k]);
            }
            check!(rr.current_solution.ruined_routes.is_empty(), "ruined routes are left marked");
            if removed > 1 {
                st.hit();
            }
            st.sample(|| format!("{:?} -> ruined {:?} -> {:?}", before, mid, after));
            before = after;
        }
        // whole search
        rr.load(&ctx, &mut ind);
        rr.search();
        rr_ok(&ctx, &rr.solution, true)?;
        rr_ok(&ctx, &rr.current_solution, true)?;
        rr.get_best_solution(&mut ind);
        is_partition(n, &ind.phenotype)?;
        check!(ind.phenotype.len() == nv, "number of routes");
        check!(ind.genotype == ind.phenotype.concat(), "giant tour");
        eval_ok(&ctx, &ind)?;
        rr.get_solution(&mut ind);
        is_partition(n, &ind.phenotype)?;
        eval_ok(&ctx, &ind)?;
    }
    Ok(())
}
pub fn c09(r: &mut Rng, st: &mut Stats) -> Out {
    let (i, ctx) = rr_inst(r);
    let n = i.n();
    let nv = ctx.config.borrow().num_vehicles as usize;
    let mut rr = RuinRecreate::new(&ctx);
    for round in 0..2 {
        let mut ind = individual(&ctx, few_routes(r, n, nv));
        let base = format!("{} routes={:?} round={}", i.desc(), ind.phenotype, round);
        note(base.clone());
        if r.chance(0.3) {
            // the penalty changed since the individual was evaluated
            ctx.config.borrow_mut().penalty_capacity *= r.pick(&[0.25, 8.0]);
        }
        rr.load(&ctx, &mut ind);
        let pen = ctx.config.borrow().penalty_capacity;
        let loaded = cost(&ctx, &ind.phenotype, pen);
        for s in [&rr.solution, &rr.current_solution, rr.best_solution.as_ref().unwrap()] {
            rr_ok(&ctx, s, true)?;
            rr_values(&ctx, s, true)?;
        }
        let temp = r.pick(&[0.0, 1.0, 20.0, 1e9]);
        rr.set_acceptance(IterationSchedule::new(temp, 1).into());
        let mut best = loaded;
        for step in 0..25 {
            rr.acceptance.reset();
            let old: Vec<Vec<usize>> = rr.solution.routes.iter().map(|x| x.nodes.clone()).collect();
            let old_cost = rr.solution.cost;
            note(format!("{} step={} temperature={} current={:?}", base, step, temp, old));
            rr.search();
            let new = rr_ok(&ctx, &rr.solution, true)?;
            rr_values(&ctx, &rr.solution, true)?;
            let cur = rr_ok(&ctx, &rr.current_solution, true)?;
            rr_values(&ctx, &rr.current_solution, true)?;
            check!(cur == new, "the next candidate starts from {:?} instead of {:?}", cur, new);
            if new != old {
                if temp == 0.0 {
                    check!(rr.solution.cost < old_cost, "accepted {} after {} at temperature zero", rr.solution.cost, old_cost);
                }
                best = best.min(rr.solution.cost);
                st.hit();
            }
            let b = rr.best_solution.as_ref().unwrap();
            rr_ok(&ctx, b, true)?;
            rr_values(&ctx, b, true)?;
            check!((b.cost - best).abs() <= 3e-6 + 1e-9 * best, "best solution costs {} but the cheapest accepted one {}", b.cost, best);
            check!(b.cost <= loaded + 1e-6, "best {} is worse than the loaded {}", b.cost, loaded);
            check!(close(rr.best_cost(), b.cost), "best_cost");
        }
        rr.get_best_solution(&mut ind);
        eval_ok(&ctx, &ind)?;
        check!(ind.penalized_cost() <= loaded + 1e-5, "returned {} is worse than the loaded {}", ind.penalized_cost(), loaded);
        st.sample(|| format!("loaded {} best {}", loaded, ind.penalized_cost()));
    }
    Ok(())
}
/// long searches, also with penalty updates in between
pub fn c09_long(r: &mut Rng, st: &mut Stats) -> Out {
    let (i, ctx) = rr_inst(r);
    let n = i.n();
    let nv = ctx.config.borrow().num_vehicles as usize;
    let mut rr = RuinRecreate::new(&ctx);
    let mut ind = individual(&ctx, few_routes(r, n, nv));
    note(format!("{} routes={:?}", i.desc(), ind.phenotype));
    let update = r.chance(0.6);
    let total = r.pick(&[200, 1500, 3100]);
    rr.update_penalty = update;
    rr.set_acceptance(IterationSchedule::new(r.pick(&[0.0, 10.0, 50.0]), total).into());
    rr.load(&ctx, &mut ind);
    let loaded = cost(&ctx, &ind.phenotype, ctx.config.borrow().penalty_capacity);
    let mut calls = 0;
    while !rr.complete() {
        let p0 = ctx.config.borrow().penalty_capacity;
        rr.search();
        calls += 1;
        check!(calls < 100, "search does not complete");
        let p1 = ctx.config.borrow().penalty_capacity;
        check!(update || p0 == p1, "penalty changed from {} to {} without update", p0, p1);
        for (name, s) in [("solution", &rr.solution), ("candidate", &rr.current_solution), ("best", rr.best_solution.as_ref().unwrap())] {
            rr_ok(&ctx, s, true).map_err(|e| format!("{}: {}", name, e))?;
            rr_values(&ctx, s, true).map_err(|e| format!("{}: {}", name, e))?;
        }
        let b = rr.best_solution.as_ref().unwrap();
        if !update {
            check!(b.cost <= rr.solution.cost + 3e-6, "best {} is worse than the current {}", b.cost, rr.solution.cost);
        }
    }
    let h = ctx.search_history.borrow();
    let b = rr.best_solution.as_ref().unwrap();
    if b.is_feasible() && !update {
        check!(h.best_cost <= b.cost + 1e-5 || feasible(&ctx, &ind.phenotype), "best {} not recorded ({})", b.cost, h.best_cost);
    }
    drop(h);
    rr.get_best_solution(&mut ind);
    eval_ok(&ctx, &ind)?;
    if !update {
        check!(ind.penalized_cost() <= loaded + 1e-5, "returned {} is worse than the loaded {}", ind.penalized_cost(), loaded);
    }
    st.hit();
    Ok(())
}

// ---------------------------------------------------------------- C10
pub fn c10(r: &mut Rng, st: &mut Stats) -> Out {
    let start = r.pick(&[1.0, 10.0, 50.0, 100.0, 0.001]) * (0.5 + r.f());
    let tmax = if r.chance(0.2) { 3000 } else { 60 };
    let total = r.range(1, tmax);
    let random = Random::from_seed(r.next());
    note(format!("start={} iterations={}", start, total));
    let mut s = IterationSchedule::new(start, total);
    let mut c: AcceptanceCriterion = IterationSchedule::new(start, total).into();
    for round in 0..2 {
        let mut last = s.temp();
        check!(last == start, "start temperature {} expected {}", last, start);
        for k in 0..total {
            check!(!s.completed() && !c.completed(), "completed after {} of {}", k, total);
            check!(close(s.elapsed(), k as f64 / total as f64), "elapsed {}", s.elapsed());
            let (o, d) = (r.f() * 1000.0, r.pick(&[1e-5, 0.001, 1.0, 500.0]));
            check!(Acceptance::accept(&s, o - d, o, &random) && c.accept(o - d, o, &random), "a cheaper candidate ({} instead of {}) was rejected", o - d, o);
            s.update();
            c.update();
            check!(s.temp() < last && s.temp() >= -1e-12 * start, "temperature {} after {} at iteration {} of {}", s.temp(), last, k + 1, total);
            last = s.temp();
            if round == 0 && k + 1 < total && r.chance(0.02) {
                break;
            }
        }
        if s.iteration == total {
            check!(s.completed() && c.completed(), "not completed after {} iterations", total);
            check!(s.temp().abs() <= 1e-12 * start, "final temperature {}", s.temp());
            let o = r.f() * 1000.0;
            check!(!Acceptance::accept(&s, o, o, &random) && !Acceptance::accept(&s, o + 1e-3, o, &random), "a candidate that is not cheaper was accepted at the end");
        }
        s.reset();
        c.reset();
        check!(!s.completed() && s.iteration == 0, "reset");
    }
    // acceptance probability at a known temperature
    let t = IterationSchedule::new(start, total);
    let d = start;
    let m = 4000;
    let mut acc = 0;
    for _ in 0..m {
        if Acceptance::accept(&t, 100.0 + d, 100.0, &random) {
            acc += 1;
        }
    }
    let p = acc as f64 / m as f64;
    check!((p - (-1.0f64).exp()).abs() < 0.06, "a candidate worse by the temperature is accepted with frequency {}", p);
    st.hit();
    st.sample(|| format!("start={} total={}", start, total));
    Ok(())
}
/// the schedules the search sets up from the configuration
pub fn c10_setup(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 1, 14);
    let n = i.n();
    let mut c = i.config();
    c.rr_start_temp = r.pick(&[1.0, 10.0, 33.0]) * (0.5 + r.f());
    c.elite_education_start_temp = r.pick(&[2.0, 5.0, 77.0]) * (0.5 + r.f());
    c.rr_gamma = r.pick(&[1.0, 1.5, 2.5]) * (1.0 + r.f());
    c.elite_education_gamma = r.pick(&[1.0, 4.0, 20.0]) * (1.0 + r.f());
    c.elite_education_time_based = r.chance(0.4);
    c.time_limit = r.range(1, 3) as u64;
    c.elite_education_time_fraction = r.pick(&[0.003, 0.01]);
    let ctx = i.ctx_with(c);
    let conf = ctx.config.borrow().clone();
    let customers = (n - 1) as f64;
    note(format!(
        "customers={} rr_start_temp={} rr_gamma={} elite start={} gamma={} time_based={} time_limit={} fraction={}",
        n - 1, conf.rr_start_temp, conf.rr_gamma, conf.elite_education_start_temp, conf.elite_education_gamma, conf.elite_education_time_based, conf.time_limit, conf.elite_education_time_fraction
    ));
    let mut rr = RuinRecreate::new(&ctx);
    for round in 0..4 {
        match round {
            0 => {}
            1 | 3 => rr.setup_elite_education(&ctx),
            _ => rr.setup_mutation(&ctx),
        }
        let elite = round % 2 == 1;
        let (start, gamma) = if elite { (conf.elite_education_start_temp, conf.elite_education_gamma) } else { (conf.rr_start_temp, conf.rr_gamma) };
        match &mut rr.acceptance {
            AcceptanceCriterion::Iteration(s) => {
                check!(!(elite && conf.elite_education_time_based), "an iteration schedule for a time based elite education");
                check!(s.temp() == start && s.iteration == 0, "setup {} starts at temperature {} iteration {}, configured {}", round, s.temp(), s.iteration, start);
                let total = (gamma * customers).round() as usize;
                for k in 0..total {
                    check!(!s.completed(), "setup {} completed after {} of {} iterations", round, k, total);
                    s.update();
                }
                check!(s.completed() && s.temp().abs() <= 1e-12 * start, "setup {} is not complete at temperature zero after {} iterations: temperature {}", round, total, s.temp());
            }
            AcceptanceCriterion::Time(s) => {
                check!(elite && conf.elite_education_time_based, "a time schedule for setup {}", round);
                check!(s.temp() == start && s.iterations == 0, "setup {} starts at temperature {}, configured {}", round, s.temp(), start);
                let secs = conf.time_limit as f64 * conf.elite_education_time_fraction;
                s.set_update_rate(1);
                s.reset();
                let t0 = Instant::now();
                while !s.completed() {
                    s.update();
                    check!(t0.elapsed().as_secs_f64() < secs + 10.0, "the schedule of {} s never completes", secs);
                }
                check!(t0.elapsed().as_secs_f64() >= secs - 0.0005, "completed after {:?} of {} s", t0.elapsed(), secs);
            }
        }
    }
    st.hit();
    Ok(())
}
pub fn c10_time(r: &mut Rng, st: &mut Stats) -> Out {
    let ms = r.int(3, 12) as u64;
    let start = 10.0 * (0.5 + r.f());
    let mut s = TimeSchedule::new(start, Duration::from_millis(ms));
    let rate = r.range(1, 50);
    s.set_update_rate(rate);
    note(format!("duration={}ms rate={} start={}", ms, rate, start));
    for _round in 0..2 {
        check!(s.temp() == start && !s.completed() && s.iterations == 0, "start: temperature {} completed {}", s.temp(), s.completed());
        let t0 = Instant::now();
        let mut last = s.temp();
        let mut k = 0usize;
        while !s.completed() {
            s.update();
            k += 1;
            check!(s.iterations == k, "iterations");
            check!(s.temp() <= last, "temperature rose from {} to {}", last, s.temp());
            last = s.temp();
            if k % rate == 0 && s.completed() {
                check!(t0.elapsed() >= Duration::from_millis(ms) - Duration::from_micros(500), "completed after {:?} of {} ms", t0.elapsed(), ms);
            }
            check!(t0.elapsed() < Duration::from_secs(20), "never completes");
        }
        check!(s.elapsed() >= 1.0 - 0.2, "elapsed {}", s.elapsed());
        check!(s.temp() <= 0.05 * start, "final temperature {}", s.temp());
        s.reset();
    }
    st.hit();
    Ok(())
}

// ---------------------------------------------------------------- C18
/// whole searches on instances with few customers (fewer than the granularity) and all matrices
pub fn c18_search(r: &mut Rng, st: &mut Stats) -> Out {
    use hybridcvrp::solver::genetic::GeneticAlgorithm;
    use hybridcvrp::solver::Metaheuristic;
    let mut i = inst(r, 1, 6);
    i.penalty = None;
    let mut cfg = crate::p_ga::ga_config(r, &i);
    cfg.local_search_granularity = r.pick(&[1, 3, 20, 50]);
    let ctx = i.ctx_with(cfg);
    note(format!("{} config={:?}", i.desc(), ctx.config.borrow()));
    let n = i.n();
    for c in 0..n {
        for k in [0, 1, 3, 20, 500] {
            let l = ctx.matrix_provider.correlation.top_slice(c, k).len();
            let m = ctx.matrix_provider.correlation.top_slice_mut(c, k).len();
            check!(l <= n - 2 && m <= n - 2, "a slice of {} and {} neighbours of {} customers", l, m, n - 1);
        }
    }
    let mut ga = GeneticAlgorithm::new(&ctx);
    check!(ga.split.path_cost.rows == ctx.config.borrow().num_vehicles as usize + 1 && ga.split.path_cost.cols == n, "split table of {}x{}", ga.split.path_cost.rows, ga.split.path_cost.cols);
    check!(ga.split.predecessors.rows == ga.split.path_cost.rows && ga.split.predecessors.cols == n, "split table");
    check!(ga.ls.best_inserts.rows >= ctx.config.borrow().num_vehicles as usize && ga.ls.best_inserts.cols >= n, "insertion cache");
    let mut steps = 0;
    while !ga.terminated() && steps < 60 {
        ga.iterate(&ctx);
        steps += 1;
    }
    for c in 0..n {
        let l: HashSet<usize> = ga.ls.correlation.get(c).iter().copied().collect();
        check!(l.len() == n - 2 && !l.contains(&c) && !l.contains(&0), "neighbours of {} were overwritten: {:?}", c, ga.ls.correlation.get(c));
    }
    st.hit();
    Ok(())
}

#[allow(dead_code)]
fn unused(_: &Individual) {}
