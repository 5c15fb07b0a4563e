use crate::gen::*;
use crate::{check, note, Out, Stats};
use hybridcvrp::solver::genetic::*;
use hybridcvrp::solver::{Context, Metaheuristic};
use std::collections::{HashMap, HashSet};

fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (1..n).collect();
    r.shuffle(&mut p);
    p
}
fn is_perm(n: usize, p: &[usize]) -> bool {
    let mut q = p.to_vec();
    q.sort();
    q == (1..n).collect::<Vec<_>>()
}

// ---------------------------------------------------------------- C02
fn ox(a: &[usize], b: &[usize], s: usize, e: usize) -> Vec<usize> {
    let n = a.len();
    let len = (e + n - s) % n + 1;
    let mut child = vec![0; n];
    let mut kept = HashSet::new();
    for k in 0..len {
        child[(s + k) % n] = a[(s + k) % n];
        kept.insert(a[(s + k) % n]);
    }
    let mut k = len;
    for &c in b {
        if !kept.contains(&c) {
            child[(s + k) % n] = c;
            k += 1;
        }
    }
    child
}
pub fn c02(r: &mut Rng, st: &mut Stats) -> Out {
    let i = inst(r, 1, 12);
    let ctx = i.ctx();
    let n = i.n();
    let ga = GeneticAlgorithm::new(&ctx);
    for _ in 0..20 {
        let a = Individual::new(perm(r, n), 1);
        let b = Individual::new(if r.chance(0.1) { a.genotype.clone() } else { perm(r, n) }, 2);
        let len = n - 1;
        #[cfg(feature = "hooks")]
        {
            if len > 1 {
                let s = r.range(0, len);
                let e = r.range(0, len);
                if s != e {
                    note(format!("a={:?} b={:?} start={} end={}", a.genotype, b.genotype, s, e));
                    let c = ga.verif_crossover_ox(&ctx, &a, &b, s, e);
                    let x = ox(&a.genotype, &b.genotype, s, e);
                    check!(c.genotype == x, "child {:?} expected {:?}", c.genotype, x);
                    st.hit();
                    st.sample(|| format!("a={:?} b={:?} window=[{},{}] child={:?}", a.genotype, b.genotype, s, e, c.genotype));
                }
            }
            note(format!("crossover a={:?} b={:?}", a.genotype, b.genotype));
            let c = ga.verif_crossover(&ctx, &a, &b);
            check!(is_perm(n, &c.genotype), "child {:?} is no permutation", c.genotype);
            if len > 1 {
                let ok = (0..len).any(|s| (0..len).any(|e| s != e && ox(&a.genotype, &b.genotype, s, e) == c.genotype));
                check!(ok, "child {:?} belongs to no window", c.genotype);
            }
        }
        #[cfg(not(feature = "hooks"))]
        let _ = (&ga, &a, &b, ox, is_perm, len);
    }
    Ok(())
}

// ---------------------------------------------------------------- C03, C04
fn split_config(r: &mut Rng, i: &mut Inst) -> hybridcvrp::config::Config {
    let mut c = i.config();
    c.linear_split = r.chance(0.6);
    c.split_capacity_factor = r.pick(&[1.5, 1.0, 1.2, 3.0, 10.0]);
    c
}
fn run_split(r: &mut Rng, ctx: &Context, i: &Inst, split: &mut Split, what: &str) -> Result<(Individual, Vec<usize>, u64), String> {
    let n = i.n();
    let nv = ctx.config.borrow().num_vehicles;
    let g = perm(r, n);
    let mut ind = Individual::new(g.clone(), 0);
    if r.chance(0.5) {
        ind.phenotype = vec![vec![]; nv as usize];
    }
    let limit = if r.chance(0.5) { nv } else { r.int(1, nv as i64) as u64 };
    note(format!(
        "{} {} tour={:?} max_vehicles={} linear={} factor={} fleet={} penalty={}",
        what,
        i.desc(),
        g,
        limit,
        ctx.config.borrow().linear_split,
        ctx.config.borrow().split_capacity_factor,
        nv,
        ctx.config.borrow().penalty_capacity
    ));
    split.run(ctx, &mut ind, limit);
    Ok((ind, g, limit))
}
pub fn c03(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 1, 12);
    if r.chance(0.2) && i.n() > 3 {
        // one customer alone exceeds the capacity
        let m = i.demands.iter().cloned().fold(0.0, f64::max);
        i.cap = (m * r.pick(&[0.9, 0.6, 0.3])).ceil().max(1.0);
    }
    let cfg = split_config(r, &mut i);
    let ctx = i.ctx_with(cfg);
    if let Some(p) = i.penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    let n = i.n();
    let mut split = Split::new(&ctx);
    for round in 0..4 {
        if r.chance(0.3) {
            ctx.config.borrow_mut().penalty_capacity *= r.pick(&[0.1, 10.0, 3.0]);
        }
        let (ind, g, limit) = run_split(r, &ctx, &i, &mut split, &format!("round {}", round))?;
        let nv = ctx.config.borrow().num_vehicles as usize;
        is_partition(n, &ind.phenotype)?;
        check!(ind.phenotype.len() == nv, "{} routes for a fleet of {}", ind.phenotype.len(), nv);
        let pos: HashMap<usize, usize> = g.iter().enumerate().map(|(k, &c)| (c, k)).collect();
        for t in &ind.phenotype {
            check!(t.windows(2).all(|w| pos[&w[1]] == pos[&w[0]] + 1), "route {:?} is no run of the tour {:?}", t, g);
        }
        let used = ind.phenotype.iter().filter(|t| !t.is_empty()).count();
        let bound = (limit.max(ctx.vehicle_lower_bound())) as usize;
        check!(used <= bound, "{} routes used, {} allowed", used, bound);
        check!(ind.genotype == ind.phenotype.concat(), "giant tour {:?} is not the concatenation of {:?}", ind.genotype, ind.phenotype);
        eval_ok(&ctx, &ind)?;
        if used > 1 {
            st.hit();
        }
        st.sample(|| format!("tour={:?} limit={} routes={:?}", g, limit, ind.phenotype));
    }
    Ok(())
}
pub fn c04(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 1, if r.k % 5 == 4 { 40 } else { 11 });
    let cfg = split_config(r, &mut i);
    let (linear, factor) = (cfg.linear_split, cfg.split_capacity_factor);
    if r.chance(0.3) {
        // cheap and expensive depot legs: the cost of the best cut is not convex in the number of routes
        let n = i.n();
        i.lazy = false;
        i.matrix = Some((1..n).map(|a| (0..a).map(|b| if b == 0 { r.pick(&[0.0, 1.0, 60.0, 400.0]) } else { r.pick(&[1.0, 20.0, 90.0, 500.0]) }).collect()).collect());
    }
    let ctx = i.ctx_with(cfg);
    if let Some(p) = i.penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    let n = i.n();
    let mut split = Split::new(&ctx);
    for round in 0..4 {
        if r.chance(0.5) {
            ctx.config.borrow_mut().penalty_capacity = r.pick(&[0.001, 0.05, 0.5, 1.0, 2.0, 10.0, 1000.0]);
        }
        let (ind, g, limit) = run_split(r, &ctx, &i, &mut split, &format!("round {}", round))?;
        let pen = ctx.config.borrow().penalty_capacity;
        let bound = (limit.max(ctx.vehicle_lower_bound())) as usize;
        // reference: dynamic program over the number of routes, whose loads stay below `most`
        let m = g.len();
        let optimum = |most: f64| {
            let mut best = vec![vec![f64::INFINITY; m + 1]; m + 1];
            best[0][0] = 0.0;
            for k in 1..=m {
                for e in 1..=m {
                    for b in 0..e {
                        let load: f64 = g[b..e].iter().map(|&x| ctx.problem.nodes[x].demand).sum();
                        if best[k - 1][b].is_finite() && load <= most {
                            let c = best[k - 1][b] + route_cost(&ctx, &g[b..e], pen);
                            if c < best[k][e] {
                                best[k][e] = c;
                            }
                        }
                    }
                }
            }
            (1..=bound.min(m)).map(|k| best[k][m]).fold(f64::INFINITY, f64::min)
        };
        // every cut, and with the Bellman split those within the capacity factor if there are any
        // (loads above the factor by no more than the comparison tolerance may or may not count)
        let free = optimum(f64::INFINITY);
        let most = ctx.problem.vehicle.cap * factor;
        let (strict, loose) = if linear { (free, free) } else { (optimum(most), optimum(most * (1.0 + 1e-9) + 1e-5)) };
        let limited = if strict.is_finite() { strict } else if loose.is_finite() { f64::INFINITY } else { free };
        let least = if loose.is_finite() && strict.is_finite() { loose } else { free };
        let got = cost(&ctx, &ind.phenotype, pen);
        let tol = 1e-5 * n as f64 + 1e-9 * got;
        check!(got <= limited + tol, "split costs {} but a split with at most {} routes costs {} ({:?})", got, bound, limited, ind.phenotype);
        check!(got >= least - tol, "split costs {} less than the optimum {} for {} routes", got, least, bound);
        st.hit();
        st.sample(|| format!("tour={:?} limit={} cost={} optimum={}", g, limit, got, limited));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12, C13
fn check_sub(ctx: &Context, s: &SubPopulation, feasible: bool) -> Out {
    let c = ctx.config.borrow();
    let maxn = (c.min_population_size + c.population_lambda) as usize;
    let p = &s.population;
    check!(s.size() == p.len(), "size");
    check!(p.len() < maxn.max(2), "{} members, maximum {}", p.len(), maxn);
    check!(p.iter().all(|x| x.is_feasible() == feasible), "member in the wrong subpopulation");
    check!(p.windows(2).all(|w| w[0].penalized_cost() <= w[1].penalized_cost() + 2e-6), "not sorted: {:?}", p.iter().map(|x| x.penalized_cost()).collect::<Vec<_>>());
    #[cfg(feature = "hooks")]
    {
        let extra = s.verif_diversity_len();
        check!(extra == p.len() || (p.len() == 1 && extra == 0), "{} diversity lists for {} members", extra, p.len());
        for x in p {
            let l = match s.verif_diversity(x.number) {
                Some(l) => l,
                None => {
                    check!(p.len() == 1, "no diversity list for {}", x.number);
                    vec![]
                }
            };
            check!(l.len() + 1 == p.len(), "list of {} has {} entries for {} members", x.number, l.len(), p.len());
            check!(l.windows(2).all(|w| w[0].0 <= w[1].0), "list of {} is not ascending: {:?}", x.number, l);
            let mut seen = HashSet::new();
            for (d, to) in l {
                check!(to != x.number && seen.insert(to), "list of {} holds {} twice or itself", x.number, to);
                let y = p.iter().find(|y| y.number == to);
                check!(y.is_some(), "list of {} holds {}, which is no member", x.number, to);
                let y = y.unwrap();
                // stored from the older to the newer member
                let (old, new) = if x.number < y.number { (x, y) } else { (y, x) };
                let (a, b) = (old.calculate_broken_pairs_distance(new), new.calculate_broken_pairs_distance(old));
                check!(d == a || d == b, "distance {} stored for {} and {}, expected {} or {}", d, x.number, to, a, b);
            }
        }
    }
    Ok(())
}
fn pop_config(r: &mut Rng, i: &Inst) -> hybridcvrp::config::Config {
    let mut c = i.config();
    c.min_population_size = r.int(1, 5) as u64;
    c.population_lambda = r.int(1, 6) as u64;
    c.num_elites = r.int(0, 6) as u64;
    c.num_diversity_closest = r.int(1, 4) as u64;
    if i.n() > 8 {
        c.min_population_size = r.int(12, 25) as u64;
        c.population_lambda = r.int(5, 15) as u64;
        c.num_elites = r.int(0, 12) as u64;
        c.num_diversity_closest = r.int(1, 12) as u64;
    }
    c
}
// mostly small instances, some with populations of realistic size
fn pop_inst(r: &mut Rng) -> (Inst, usize) {
    if r.chance(0.06) { (inst(r, 12, 20), 160) } else { (inst(r, 3, 7), 60) }
}
fn random_member(r: &mut Rng, ctx: &Context, n: usize) -> Individual {
    let k = r.range(1, ctx.config.borrow().num_vehicles as usize + 1);
    let s = partition(r, n, k);
    let mut ind = individual(ctx, s);
    ind.sort_routes(ctx);
    ind.evaluate(ctx);
    ind
}
pub fn c12(r: &mut Rng, st: &mut Stats) -> Out {
    let (mut i, steps) = pop_inst(r);
    i.penalty = None;
    let cfg = pop_config(r, &i);
    let ctx = i.ctx_with(cfg);
    let n = i.n();
    let mut pop = Population::new(&ctx);
    note(format!("{} min={} lambda={}", i.desc(), ctx.config.borrow().min_population_size, ctx.config.borrow().population_lambda));
    let mut added: Vec<Individual> = vec![];
    for step in 0..steps as u64 {
        let ind = if !added.is_empty() && r.chance(0.2) { added[r.range(0, added.len())].clone() } else { random_member(r, &ctx, n) };
        added.push(ind.clone());
        let upd = r.chance(0.5);
        let feas = ind.is_feasible();
        let hist = pop.feasible_history.clone();
        pop.add_individual(&ctx, ind, upd);
        check!(pop.total_individuals_count == step + 1, "count");
        let mut want = hist.clone();
        if upd {
            want.push(feas);
            want.remove(0);
        }
        check!(pop.feasible_history == want, "feasibility history");
        check_sub(&ctx, &pop.feasible, true)?;
        check_sub(&ctx, &pop.infeasible, false)?;
        let total = pop.feasible.size() + pop.infeasible.size();
        check!(pop.size() == total, "size");
        let nums: HashSet<u64> = pop.feasible.population.iter().chain(pop.infeasible.population.iter()).map(|x| x.number).collect();
        check!(nums.len() == total, "numbers are not distinct");
    }
    if pop.feasible.size() > 1 && pop.infeasible.size() > 1 {
        st.hit();
    }
    st.sample(|| format!("feasible={} infeasible={}", pop.feasible.size(), pop.infeasible.size()));
    Ok(())
}
fn avg_dist(s: &SubPopulation, x: &Individual, num: usize) -> f64 {
    let k = num.min(s.population.len() - 1);
    #[cfg(feature = "hooks")]
    {
        let l = s.verif_diversity(x.number).unwrap_or_default();
        return l[..k].iter().map(|d| d.0).sum::<i64>() as f64 / k as f64;
    }
    #[cfg(not(feature = "hooks"))]
    {
        let mut l: Vec<i64> = s.population.iter().filter(|y| y.number != x.number).map(|y| if y.number < x.number { y.calculate_broken_pairs_distance(x) } else { x.calculate_broken_pairs_distance(y) }).collect();
        l.sort();
        l[..k].iter().sum::<i64>() as f64 / k as f64
    }
}
fn check_fitness(ctx: &Context, s: &SubPopulation) -> Out {
    let c = ctx.config.borrow();
    let p = &s.population;
    let m = p.len();
    if m == 0 {
        return Ok(());
    }
    if m == 1 {
        check!(p[0].fitness == 0.0, "fitness {} of a single member", p[0].fitness);
        return Ok(());
    }
    let div: Vec<f64> = p.iter().map(|x| avg_dist(s, x, c.num_diversity_closest as usize)).collect();
    for (k, x) in p.iter().enumerate() {
        let cr = k as f64 / (m as f64 - 1.0);
        let lo = div.iter().filter(|&&d| d > div[k] + 1e-12).count();
        let hi = div.iter().filter(|&&d| d >= div[k] - 1e-12).count() - 1;
        let w = 1.0 - c.num_elites as f64 / m as f64;
        let (a, b) = if m <= c.num_elites as usize { (cr, cr) } else { (cr + w * lo as f64 / (m as f64 - 1.0), cr + w * hi as f64 / (m as f64 - 1.0)) };
        check!(x.fitness >= a - 1e-9 && x.fitness <= b + 1e-9, "fitness of member {} of {} is {}, expected in [{},{}] (elites {})", k, m, x.fitness, a, b, c.num_elites);
    }
    // the diversity ranks are a permutation
    if m > c.num_elites as usize {
        let w = 1.0 - c.num_elites as f64 / m as f64;
        let mut ranks: Vec<i64> = p.iter().enumerate().map(|(k, x)| ((x.fitness - k as f64 / (m as f64 - 1.0)) / w * (m as f64 - 1.0)).round() as i64).collect();
        ranks.sort();
        check!(ranks == (0..m as i64).collect::<Vec<_>>(), "diversity ranks {:?}", ranks);
    }
    Ok(())
}
pub fn c13(r: &mut Rng, st: &mut Stats) -> Out {
    let (mut i, steps) = pop_inst(r);
    i.penalty = None;
    let cfg = pop_config(r, &i);
    let ctx = i.ctx_with(cfg);
    let n = i.n();
    let mut s = SubPopulation::new(&ctx);
    let (minp, maxp) = {
        let c = ctx.config.borrow();
        (c.min_population_size as usize, (c.min_population_size + c.population_lambda) as usize)
    };
    note(format!("{} min={} max={} elites={} closest={}", i.desc(), minp, maxp, ctx.config.borrow().num_elites, ctx.config.borrow().num_diversity_closest));
    let mut added: Vec<Individual> = vec![];
    for step in 0..steps as u64 {
        let mut ind = if !added.is_empty() && r.chance(0.25) { added[r.range(0, added.len())].clone() } else { random_member(r, &ctx, n) };
        ind.number = step;
        added.push(ind.clone());
        let before: Vec<u64> = s.population.iter().map(|x| x.number).collect();
        let best = s.population.first().map(|x| x.penalized_cost());
        let clone = s.population.iter().any(|y| y.calculate_broken_pairs_distance(&ind) == 0);
        s.add_individual(&ctx, ind.clone());
        let after: HashSet<u64> = s.population.iter().map(|x| x.number).collect();
        if let Some(b) = best {
            check!(s.population[0].penalized_cost() <= b + 1e-5, "best cost rose from {} to {}", b, s.population[0].penalized_cost());
        }
        if clone {
            check!(!after.contains(&step), "duplicate was kept");
        } else if before.len() + 1 < maxp {
            check!(after.contains(&step), "individual was refused");
        }
        if before.len() + 1 < maxp {
            check!(before.iter().all(|b| after.contains(b)), "members {:?} became {:?}", before, after);
        } else if !clone {
            check!(after.len() == minp.max(1), "survivors {} expected {}", after.len(), minp);
        }
        check_fitness(&ctx, &s)?;
        // a single selection step
        if s.population.len() > 2 && r.chance(0.3) {
            let m = s.population.len();
            let fit: HashMap<u64, f64> = s.population.iter().map(|x| (x.number, x.fitness)).collect();
            let mindist = |x: &Individual| s.population.iter().filter(|y| y.number != x.number).map(|y| if y.number < x.number { y.calculate_broken_pairs_distance(x) } else { x.calculate_broken_pairs_distance(y) }).min().unwrap();
            let clones: HashSet<u64> = s.population[1..].iter().filter(|x| mindist(x) == 0).map(|x| x.number).collect();
            let old: Vec<u64> = s.population.iter().map(|x| x.number).collect();
            s.natural_selection(&ctx);
            let now: HashSet<u64> = s.population.iter().map(|x| x.number).collect();
            let gone: Vec<u64> = old.iter().copied().filter(|x| !now.contains(x)).collect();
            check!(gone.len() == 1 && now.len() == m - 1, "selection removed {:?}", gone);
            check!(gone[0] != old[0], "selection removed the best");
            let pool: Vec<u64> = if clones.is_empty() { old[1..].to_vec() } else { clones.iter().copied().collect() };
            check!(pool.contains(&gone[0]), "removed {} although {:?} are duplicates", gone[0], clones);
            let worst = pool.iter().map(|x| fit[x]).fold(f64::NEG_INFINITY, f64::max);
            check!(fit[&gone[0]] >= worst - 1e-9, "removed fitness {} but the worst is {}", fit[&gone[0]], worst);
            check_fitness(&ctx, &s)?;
            st.hit();
        }
    }
    st.sample(|| format!("members={} fitness={:?}", s.size(), s.population.iter().map(|x| x.fitness).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------- C15
pub fn c15(r: &mut Rng, st: &mut Stats) -> Out {
    let large = r.chance(0.06);
    let mut i = if large { inst(r, 8, 12) } else { inst(r, 3, 8) };
    i.penalty = None;
    let mut cfg = pop_config(r, &i);
    cfg.population_lambda = if large { 150 } else { 30 };
    cfg.feasibility_proportion_target = r.pick(&[0.2, 0.3, 0.4, 0.43, 0.5, 0.05, 0.95]);
    cfg.penalty_inc_multiplier = r.pick(&[1.2, 1.5, 100.0]);
    cfg.penalty_dec_multiplier = r.pick(&[0.85, 0.5, 0.001]);
    cfg.penalty_update_interval = r.int(1, 10) as u64;
    let ctx = i.ctx_with(cfg);
    let n = i.n();
    let mut ga = GeneticAlgorithm::new(&ctx);
    for _ in 0..(if large { 140 } else { 25 }) {
        let ind = random_member(r, &ctx, n);
        ga.population.add_individual(&ctx, ind, true);
    }
    for _ in 0..6 {
        let c = ctx.config.borrow().clone();
        let share = match r.range(0, 4) {
            3 => 25,
            0 => r.range(0, 101),
            _ => ((c.feasibility_proportion_target * 100.0).round() as i64 + r.int(-8, 8)).clamp(0, 100) as usize,
        };
        for k in 0..100 {
            ga.population.feasible_history[k] = k < share;
        }
        let f = share as f64 / 100.0;
        let t = c.feasibility_proportion_target;
        if r.chance(0.2) {
            ctx.config.borrow_mut().penalty_capacity = r.pick(&[0.0001, 0.00012, 9_900_000.0, 10_000_000.0, 1.0]);
        }
        let old = ctx.config.borrow().penalty_capacity;
        let next = ga.next_penalty_update;
        note(format!("{} share={} target={} penalty={} inc={} dec={}", i.desc(), f, t, old, c.penalty_inc_multiplier, c.penalty_dec_multiplier));
        #[cfg(feature = "hooks")]
        {
            ga.verif_update_penalty(&ctx);
            let new = ctx.config.borrow().penalty_capacity;
            let clamp = |x: f64| x.min(10_000_000.0).max(0.0001);
            // 0.2 + 0.05 and 0.3 - 0.05 are 0.25 exactly, also in floating point: on the edge of the band
            let options: Vec<f64> = if share == 25 && (t == 0.2 || t == 0.3) {
                vec![old]
            } else if (f - (t - 0.05)).abs() < 1e-9 {
                vec![old, old * c.penalty_inc_multiplier]
            } else if (f - (t + 0.05)).abs() < 1e-9 {
                vec![old, old * c.penalty_dec_multiplier]
            } else if f < t - 0.05 {
                vec![old * c.penalty_inc_multiplier]
            } else if f > t + 0.05 {
                vec![old * c.penalty_dec_multiplier]
            } else {
                vec![old]
            };
            check!(options.iter().any(|o| (clamp(*o) - new).abs() <= 1e-9 * new), "penalty {} expected {:?}", new, options);
            check!(ga.next_penalty_update == next + c.penalty_update_interval, "next update");
            for x in &ga.population.infeasible.population {
                eval_ok(&ctx, x)?;
                check!(!x.is_feasible(), "feasible member");
            }
            check!(ga.population.infeasible.population.windows(2).all(|w| w[0].penalized_cost() <= w[1].penalized_cost() + 2e-6), "not sorted");
            check!(ctx.config.borrow().penalty_inc_multiplier == c.penalty_inc_multiplier, "config changed");
            if ga.population.infeasible.size() > 2 {
                st.hit();
            }
            st.sample(|| format!("share={} target={} penalty {} -> {}", f, t, old, new));
        }
        #[cfg(not(feature = "hooks"))]
        let _ = (f, t, old, next, &mut *st);
    }
    Ok(())
}

// ---------------------------------------------------------------- C24
pub fn c24(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 3, 7);
    i.penalty = None;
    let mut cfg = pop_config(r, &i);
    cfg.population_lambda = 8;
    cfg.tournament_size = 1;
    let ctx = i.ctx_with(cfg);
    let n = i.n();
    let mut pop = Population::new(&ctx);
    let only = r.range(0, 4);
    for _ in 0..30 {
        let ind = random_member(r, &ctx, n);
        if (only == 0 && !ind.is_feasible()) || (only == 1 && ind.is_feasible()) {
            continue;
        }
        pop.add_individual(&ctx, ind, true);
        if pop.size() >= 9 && r.chance(0.3) {
            break;
        }
    }
    let m = pop.size();
    if m == 0 {
        return Ok(());
    }
    let members: HashMap<u64, f64> = pop.feasible.population.iter().chain(pop.infeasible.population.iter()).map(|x| (x.number, x.fitness)).collect();
    note(format!("{} feasible={} infeasible={}", i.desc(), pop.feasible.size(), pop.infeasible.size()));
    let mut seen = HashSet::new();
    for _ in 0..60 * m {
        let p = pop.get_parent(&ctx);
        check!(members.contains_key(&p.number), "parent {} is no member", p.number);
        seen.insert(p.number);
    }
    check!(seen.len() == m, "only {} of {} members were ever drawn", seen.len(), m);
    let best = members.values().cloned().fold(f64::INFINITY, f64::min);
    ctx.config.borrow_mut().tournament_size = 60 * m as u64;
    for _ in 0..3 {
        let p = pop.get_parent(&ctx);
        check!(p.fitness <= best, "tournament over all members chose fitness {} but the best is {}", p.fitness, best);
    }
    // binary tournament: the best wins far more often than a strictly worst one
    ctx.config.borrow_mut().tournament_size = 2;
    let worst = members.values().cloned().fold(f64::NEG_INFINITY, f64::max);
    let worst_ids: Vec<u64> = members.iter().filter(|x| *x.1 == worst).map(|x| *x.0).collect();
    if m >= 3 && worst_ids.len() == 1 {
        let draws = 3000;
        let mut w = 0;
        for _ in 0..draws {
            if pop.get_parent(&ctx).number == worst_ids[0] {
                w += 1;
            }
        }
        let e = draws as f64 / (m * m) as f64;
        check!((w as f64) < e + 7.0 * e.sqrt() + 10.0, "the worst of {} members won {} of {} binary tournaments", m, w, draws);
        st.hit();
    }
    Ok(())
}

// ---------------------------------------------------------------- C11, C21
pub fn check_history(ctx: &Context, last_len: &mut usize) -> Out {
    let h = ctx.search_history.borrow();
    let e = h.entries();
    check!(e.len() >= *last_len, "history shrank");
    *last_len = e.len();
    check!(e.windows(2).all(|w| w[1].solution.cost < w[0].solution.cost), "costs do not decrease: {:?}", e.iter().map(|x| x.solution.cost).collect::<Vec<_>>());
    if let Some(l) = h.last_entry() {
        check!(h.best_cost == l.solution.cost, "best cost {} but the last entry costs {}", h.best_cost, l.solution.cost);
        is_partition(ctx.problem.dim(), &l.solution.routes)?;
        check!(feasible(ctx, &l.solution.routes), "recorded solution is infeasible: {:?}", l.solution.routes);
        let c = cost(ctx, &l.solution.routes, 0.0);
        check!(close(c, l.solution.cost), "recorded cost {} of a solution that costs {}", l.solution.cost, c);
        check!(e[..e.len() - 1].iter().all(|x| x.solution.routes.is_empty()), "an old entry keeps its routes");
    } else {
        check!(h.best_cost.is_infinite(), "best cost without entry");
    }
    Ok(())
}
pub fn ga_config(r: &mut Rng, i: &Inst) -> hybridcvrp::config::Config {
    let mut c = i.config();
    c.min_population_size = r.int(2, 6) as u64;
    c.population_lambda = r.int(2, 8) as u64;
    c.initial_individuals = r.int(2, 8) as u64;
    c.num_elites = r.int(1, 4) as u64;
    c.num_diversity_closest = r.int(1, 3) as u64;
    c.penalty_update_interval = r.int(1, 8) as u64;
    c.rr_mutation = r.chance(0.4);
    c.rr_gamma = r.pick(&[0.5, 1.0, 3.0]);
    c.rr_probability = r.pick(&[0.3, 1.0]);
    c.local_search_granularity = r.pick(&[2, 5, 20]);
    c.max_iterations = Some(if r.chance(0.1) { r.int(0, 2) as u64 } else { r.int(3, 40) as u64 });
    c.max_iterations_without_improvement = r.pick(&[2, 5, 8, 1000]);
    c.elite_education = r.chance(0.3);
    c.elite_education_problem_size_limit = r.pick(&[1, 5]);
    c.elite_education_gamma = r.pick(&[1.0, 5.0, 200.0]);
    c.linear_split = r.chance(0.7);
    c.swap_star = true;
    c.log_interval = r.int(1, 20) as u64;
    c
}
pub fn c11(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 2, 9);
    i.penalty = None;
    let cfg = ga_config(r, &i);
    let ctx = i.ctx_with(cfg);
    note(format!("{} config={:?}", i.desc(), ctx.config.borrow()));
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut seen = 0;
    let mut steps = 0;
    while !ga.terminated() && steps < 400 {
        ga.iterate(&ctx);
        steps += 1;
        check_history(&ctx, &mut seen)?;
        let h = ctx.search_history.borrow().best_cost;
        for x in &ga.population.feasible.population {
            check!(h <= x.penalized_cost() + 1e-5, "a member costs {} but the best recorded is {}", x.penalized_cost(), h);
        }
        if let Some(b) = ga.best_solution.as_ref() {
            check!(feasible(&ctx, &b.phenotype), "best solution is infeasible");
            is_partition(i.n(), &b.phenotype)?;
            check!(close(b.penalized_cost(), cost(&ctx, &b.phenotype, 0.0)), "best solution has a wrong cost");
            for x in &ga.population.feasible.population {
                check!(b.penalized_cost() <= x.penalized_cost() + 1e-5, "a member costs {} but the best solution {}", x.penalized_cost(), b.penalized_cost());
            }
        } else {
            check!(ga.population.feasible.population.is_empty(), "feasible members but no best solution");
        }
    }
    if seen > 1 {
        st.hit();
    }
    st.sample(|| format!("steps={} entries={} best={}", steps, seen, ctx.search_history.borrow().best_cost));
    Ok(())
}
pub fn c11_file(r: &mut Rng, st: &mut Stats) -> Out {
    // direct use of the history: adding strictly better individuals; the written file holds the last one
    let mut i = inst(r, 2, 8);
    i.penalty = None;
    let ctx = i.ctx();
    let n = i.n();
    note(i.desc());
    let mut seen = 0;
    for _ in 0..20 {
        let x = random_member(r, &ctx, n);
        let better = x.is_feasible() && x.penalized_cost() < ctx.search_history.borrow().best_cost - 1e-6;
        if better {
            ctx.search_history.borrow_mut().add(&ctx, &x);
            check!(ctx.search_history.borrow().last_entry().unwrap().solution.routes == x.phenotype, "routes differ");
            st.hit();
        }
        check_history(&ctx, &mut seen)?;
    }
    // update_best of a genetic algorithm only records improvements
    let mut ga = GeneticAlgorithm::new(&ctx);
    for _ in 0..20 {
        let before = ctx.search_history.borrow().best_cost;
        let x = random_member(r, &ctx, n);
        ga.child = x.clone();
        ga.update_best(&ctx);
        let after = ctx.search_history.borrow().best_cost;
        let must = x.is_feasible() && x.penalized_cost() < before - 2e-6;
        check!(!must || after == x.penalized_cost(), "an improvement to {} was not recorded, best stays {}", x.penalized_cost(), after);
        check!(after == before || must || (x.is_feasible() && x.penalized_cost() < before), "recorded {} after {}", after, before);
        if x.is_feasible() {
            check!(ga.best_solution.as_ref().map_or(false, |b| b.penalized_cost() <= x.penalized_cost() + 1e-5), "best solution lost");
        }
        check_history(&ctx, &mut seen)?;
    }
    Ok(())
}
pub fn c11_decomposed(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 6, 10);
    i.penalty = None;
    let mut cfg = ga_config(r, &i);
    cfg.decomposed_problem_min_size = r.int(2, 5) as u64;
    cfg.rr_mutation = false;
    cfg.max_iterations = None;
    cfg.elite_education = false;
    let ctx = i.ctx_with(cfg);
    note(format!("{} config={:?}", i.desc(), ctx.config.borrow()));
    let mut ga = DecomposedGeneticAlgorithm::new(&ctx);
    let mut seen = 0;
    ga.iterate(&ctx);
    check_history(&ctx, &mut seen)?;
    st.hit();
    Ok(())
}

type Snap = (usize, usize, u64, u64, usize, u64);
fn snap(ga: &GeneticAlgorithm, ctx: &Context) -> Snap {
    (
        ga.population.feasible.size(),
        ga.population.infeasible.size(),
        ga.population.total_individuals_count,
        ga.iterations,
        ctx.search_history.borrow().entries().len(),
        *ctx.iteration.borrow(),
    )
}
pub fn c21(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 2, 8);
    i.penalty = None;
    let cfg = ga_config(r, &i);
    let ctx = i.ctx_with(cfg);
    let n = i.n();
    note(format!("{} config={:?}", i.desc(), ctx.config.borrow()));
    let mut ga = GeneticAlgorithm::new(&ctx);
    let c = ctx.config.borrow().clone();
    let max_it = c.max_iterations.unwrap();
    let elite = c.elite_education && n - 1 > c.elite_education_problem_size_limit;
    #[cfg(feature = "hooks")]
    {
        let mut visited = vec![];
        let mut resets = 0;
        for _ in 0..5000 {
            let s = ga.verif_state();
            if visited.last() != Some(&s) {
                visited.push(s);
            }
            let (it, best, pop, init) = (ga.iterations, ga.best_iteration, snap(&ga, &ctx), ga.num_initialized);
            check!(s != "terminated" || ga.terminated(), "terminated() is false");
            ga.iterate(&ctx);
            let t = ga.verif_state();
            let now = snap(&ga, &ctx);
            if s == "terminated" || pop.5 >= max_it {
                check!(t == "terminated", "state {} although the limit of {} iterations is reached", t, max_it);
                check!(now == pop, "a terminated run changed {:?} to {:?}", pop, now);
                break;
            }
            match s {
                "created" => {
                    check!(t == if elite { "elite" } else { "initialization" }, "created -> {}", t);
                    check!(ga.num_initialized == 0, "num_initialized");
                }
                "elite" => {
                    check!(t == "elite" || t == "initialization", "elite -> {}", t);
                    if t == "initialization" {
                        check!(now.2 == pop.2 + 1, "elite individual not added");
                    }
                }
                "initialization" => {
                    if init < c.initial_individuals {
                        check!(t == "initialization" && ga.num_initialized == init + 1, "initial individual {} of {}: {}", init, c.initial_individuals, t);
                        check!(now.2 > pop.2, "no individual added");
                    } else {
                        check!(t == "cycle" && ga.num_initialized == c.initial_individuals, "after {} initial individuals: {} {}", init, t, ga.num_initialized);
                        check!(now == pop, "changed on entering the cycle");
                    }
                }
                "cycle" => {
                    check!(ga.iterations == it + 1 && now.5 == pop.5 + 1, "iteration count");
                    if t == "created" {
                        resets += 1;
                        check!(it - best > c.max_iterations_without_improvement, "restart after {} iterations without improvement (limit {})", it - best, c.max_iterations_without_improvement);
                        check!(ga.num_initialized == 0 && ga.population.size() == 0, "restart keeps the population");
                    } else {
                        check!(t == "cycle", "cycle -> {}", t);
                        check!(it - ga.best_iteration <= c.max_iterations_without_improvement, "no restart after {} iterations without improvement (limit {})", it - ga.best_iteration, c.max_iterations_without_improvement);
                        check!(now.2 > pop.2, "no child added");
                    }
                }
                x => return Err(format!("state {}", x)),
            }
        }
        check!(ga.terminated(), "did not terminate");
        check!(*ctx.iteration.borrow() == max_it, "{} iterations, limit {}", ctx.iteration.borrow(), max_it);
        let a = snap(&ga, &ctx);
        ga.iterate(&ctx);
        ga.iterate(&ctx);
        check!(ga.terminated() && snap(&ga, &ctx) == a, "a terminated run went on");
        if resets > 0 || elite {
            st.hit();
        }
        st.sample(|| format!("states={:?} resets={}", visited, resets));
    }
    #[cfg(not(feature = "hooks"))]
    {
        let _ = (max_it, elite, &mut *st);
        for _ in 0..5000 {
            if ga.terminated() {
                break;
            }
            ga.iterate(&ctx);
        }
        check!(ga.terminated(), "did not terminate");
    }
    Ok(())
}
/// a reached time limit terminates at once, in every state
pub fn c21_time(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 2, 7);
    i.penalty = None;
    let mut cfg = ga_config(r, &i);
    cfg.max_iterations = None;
    let ctx = i.ctx_with(cfg);
    note(format!("{} config={:?}", i.desc(), ctx.config.borrow()));
    let mut ga = GeneticAlgorithm::new(&ctx);
    for _ in 0..r.range(0, 30) {
        ga.iterate(&ctx);
        check!(!ga.terminated(), "terminated without a limit");
    }
    ctx.config.borrow_mut().time_limit = 0;
    let a = snap(&ga, &ctx);
    ga.iterate(&ctx);
    check!(ga.terminated() && snap(&ga, &ctx) == a, "the time limit is reached but the run went on");
    ctx.config.borrow_mut().time_limit = 100_000;
    ga.iterate(&ctx);
    check!(ga.terminated() && snap(&ga, &ctx) == a, "a terminated run did not stay terminated");
    st.hit();
    Ok(())
}

// ---------------------------------------------------------------- C20
pub fn c20(r: &mut Rng, st: &mut Stats) -> Out {
    let full = r.k % 12 == 3;
    let mut i = if full { inst(r, 4, 8) } else { inst(r, 3, 14) };
    i.penalty = None;
    let mut cfg = i.config();
    cfg.decomposed_problem_min_size = r.int(1, 10) as u64;
    cfg.min_population_size = 3;
    cfg.population_lambda = 3;
    cfg.initial_individuals = 4;
    cfg.rr_mutation = false;
    cfg.max_iterations_without_improvement = 300;
    if !full {
        cfg.time_limit = 0;
    }
    let ctx = i.ctx_with(cfg);
    let n = i.n();
    let nv = ctx.config.borrow().num_vehicles as usize;
    let k = r.range(1, nv + 1);
    let mut global = individual(&ctx, partition(r, n, k));
    if r.chance(0.7) {
        global.sort_routes(&ctx);
    } else {
        global.genotype = global.phenotype.concat();
    }
    global.evaluate(&ctx);
    let before = global.clone();
    note(format!("{} routes={:?} min_size={} run={}", i.desc(), before.phenotype, ctx.config.borrow().decomposed_problem_min_size, full));
    let mut dec = Decomposition::new(&mut global, &ctx);
    // the sub problem
    let map = dec.mapping.clone();
    check!(map[0] == 0, "node 0 is mapped to {}", map[0]);
    let set: HashSet<usize> = map.iter().copied().collect();
    check!(set.len() == map.len(), "mapping {:?} is not injective", map);
    check!(dec.ctx.problem.dim() == map.len(), "sub problem has {} nodes for the mapping {:?}", dec.ctx.problem.dim(), map);
    for a in 0..map.len() {
        check!(dec.ctx.problem.nodes[a].demand == ctx.problem.nodes[map[a]].demand, "demand of {}", a);
        check!(dec.ctx.problem.nodes[a].id == ctx.problem.nodes[map[a]].id, "node {}", a);
        for b in 0..map.len() {
            check!(dec.ctx.matrix_provider.distance.get(a, b) == ctx.matrix_provider.distance.get(map[a], map[b]), "distance ({},{})", a, b);
        }
    }
    check!(dec.ctx.problem.vehicle.cap == ctx.problem.vehicle.cap, "capacity");
    check!(dec.ctx.config.borrow().num_vehicles == nv as u64 && dec.ctx.config.borrow().penalty_capacity == ctx.config.borrow().penalty_capacity, "config of the sub problem");
    is_partition(map.len(), &dec.solution.phenotype)?;
    eval_ok(&dec.ctx, &dec.solution)?;
    check!(dec.solution.genotype == dec.solution.phenotype.concat(), "giant tour of the sub solution");
    // whole routes
    let sort = |v: Vec<Vec<usize>>| {
        let mut v: Vec<Vec<usize>> = v.into_iter().filter(|x| !x.is_empty()).collect();
        v.sort();
        v
    };
    let sub: Vec<Vec<usize>> = dec.solution.phenotype.iter().map(|t| t.iter().map(|&c| map[c]).collect()).collect();
    let mut all = sub.clone();
    all.extend(dec.global.phenotype.iter().cloned());
    check!(sort(all.clone()) == sort(before.phenotype.clone()), "routes {:?} and rest {:?} of {:?}", sub, dec.global.phenotype, before.phenotype);
    let sel: HashSet<usize> = sub.concat().into_iter().collect();
    check!(sel.len() == map.len() - 1 && sel.iter().all(|c| set.contains(c)), "mapping {:?} for {:?}", map, sub);
    {
        let mut g = dec.global.genotype.clone();
        g.sort();
        let mut e = dec.global.phenotype.concat();
        e.sort();
        check!(g == e, "giant tour of the rest");
    }
    let sub_feasible = dec.solution.is_feasible();
    let mode = if full { 2 } else { r.range(0, 3) };
    let mut expect_cost = None;
    match mode {
        0 => expect_cost = Some(cost(&ctx, &before.phenotype, ctx.config.borrow().penalty_capacity)),
        1 => {
            // another solution of the sub problem
            let kk = r.range(1, 3);
            let s = partition(r, map.len(), kk);
            let mut x = individual(&dec.ctx, s);
            x.evaluate(&dec.ctx);
            let free = nv - dec.global.num_nonempty_routes().min(nv);
            if x.num_nonempty_routes() <= free {
                dec.solution = x;
            }
        }
        _ => dec.run(),
    }
    let merged: Vec<Vec<usize>> = dec.solution.phenotype.iter().map(|t| t.iter().map(|&c| map[c]).collect::<Vec<_>>()).chain(dec.global.phenotype.iter().cloned()).collect();
    dec.finish(&ctx);
    is_partition(n, &global.phenotype)?;
    check!(global.phenotype.len() == nv, "{} routes for {} vehicles", global.phenotype.len(), nv);
    check!(sort(merged.clone()) == sort(global.phenotype.clone()), "merged {:?} expected {:?}", global.phenotype, merged);
    check!(global.genotype == global.phenotype.concat(), "giant tour");
    eval_ok(&ctx, &global)?;
    if let Some(e) = expect_cost {
        check!(close(global.penalized_cost(), e), "cost {} expected {}", global.penalized_cost(), e);
    }
    if sub_feasible && mode == 2 {
        check!(global.penalized_cost() <= before.penalized_cost() + 1e-5, "cost rose from {} to {}", before.penalized_cost(), global.penalized_cost());
    }
    if map.len() > 2 && map.len() < n {
        st.hit();
    }
    st.sample(|| format!("global={:?} mapping={:?} after={:?}", before.phenotype, map, global.phenotype));
    Ok(())
}
