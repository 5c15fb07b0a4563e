use hybridcvrp::config::Config;
use hybridcvrp::models::{Coordinate, Node, ProblemBuilder, Vehicle};
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use std::time::Instant;

pub struct Rng {
    s: u64,
    pub k: u64,
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: seed.wrapping_add(0x9E3779B97F4A7C15), k: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// [lo, hi)
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + (self.next() % ((hi - lo) as u64)) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.range(0, i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.range(0, v.len())]
    }
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub coords: Vec<(f64, f64)>,
    pub demands: Vec<f64>,
    pub cap: f64,
    pub matrix: Option<Vec<Vec<f64>>>,
    pub rounded: bool,
    pub lazy: bool,
    pub seed: u64,
    pub vehicles: Option<u64>,
    pub penalty: Option<f64>,
}

impl Inst {
    pub fn desc(&self) -> String {
        format!(
            "coords={:?} demands={:?} cap={} matrix={:?} rounded={} lazy={} seed={} vehicles={:?} penalty={:?}",
            self.coords, self.demands, self.cap, self.matrix, self.rounded, self.lazy, self.seed, self.vehicles, self.penalty
        )
    }
    pub fn n(&self) -> usize {
        self.coords.len()
    }
    pub fn config(&self) -> Config {
        let mut c = Config::default();
        c.deterministic = true;
        c.seed = self.seed;
        c.time_limit = 100_000;
        c.round_distances = self.rounded;
        if self.lazy {
            c.precompute_distance_size_limit = 0;
        }
        c
    }
    pub fn ctx_with(&self, config: Config) -> Context {
        let nodes = self
            .coords
            .iter()
            .zip(self.demands.iter())
            .enumerate()
            .map(|(i, (c, d))| Node { id: i + 1, coord: Coordinate { lng: c.0, lat: c.1 }, demand: *d })
            .collect();
        let mut p = ProblemParser::new();
        p.problem = Some(ProblemBuilder::new(nodes, Vehicle { id: 0, cap: self.cap }).build());
        p.matrix = self.matrix.clone();
        let ctx = Context::new(p, config, Instant::now());
        if let Some(v) = self.vehicles {
            ctx.config.borrow_mut().num_vehicles = v;
        }
        if let Some(p) = self.penalty {
            ctx.config.borrow_mut().penalty_capacity = p;
        }
        ctx
    }
    pub fn ctx(&self) -> Context {
        self.ctx_with(self.config())
    }
}

pub fn inst(r: &mut Rng, lo: usize, hi: usize) -> Inst {
    // lo..=hi customers
    let n = r.range(lo, hi + 1) + 1;
    let style = r.range(0, 5);
    let mut coords: Vec<(f64, f64)> = (0..n)
        .map(|i| match style {
            0 => (r.int(0, 100) as f64, r.int(0, 100) as f64),
            1 => (r.int(0, 6) as f64, r.int(0, 6) as f64),
            2 => (r.f() * 1000.0, r.f() * 1000.0),
            3 => {
                let c = (i % 3) as f64 * 40.0;
                (c + r.int(-3, 3) as f64, c * 0.5 + r.int(-3, 3) as f64)
            }
            _ => (r.int(0, 50) as f64, 0.0),
        })
        .collect();
    if r.chance(0.1) && n > 3 {
        coords[1] = coords[0];
    }
    let mut demands: Vec<f64> = (0..n).map(|_| if r.chance(0.1) { 1.0 } else { r.int(1, 30) as f64 }).collect();
    demands[0] = 0.0;
    let total: f64 = demands.iter().sum();
    let maxd = demands.iter().cloned().fold(0.0, f64::max);
    let k = r.range(1, 6) as f64;
    let cap = (total / k).ceil().max(maxd) + r.int(0, 5) as f64;
    let matrix = if r.chance(0.2) {
        Some((1..n).map(|i| (0..i).map(|_| r.int(1, 200) as f64).collect()).collect())
    } else {
        None
    };
    let rounded = r.chance(0.5);
    let lazy = matrix.is_none() && r.chance(0.3);
    Inst { coords, demands, cap, matrix, rounded, lazy, seed: r.next() % 1000, vehicles: None, penalty: if r.chance(0.5) { Some(r.pick(&[0.5, 1.0, 3.0, 10.0, 50.0, 0.01])) } else { None } }
}

/// random partition of the customers 1..n into `k` routes (some may be empty)
pub fn partition(r: &mut Rng, n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut p: Vec<usize> = (1..n).collect();
    r.shuffle(&mut p);
    let mut routes = vec![vec![]; k];
    for c in p {
        let i = r.range(0, k);
        routes[i].push(c);
    }
    routes
}

/// an individual with the given routes, evaluated; phenotype padded to num_vehicles
pub fn individual(ctx: &Context, routes: Vec<Vec<usize>>) -> Individual {
    let nv = ctx.config.borrow().num_vehicles as usize;
    let mut ind = Individual::new(routes.iter().flatten().copied().collect(), 0);
    ind.phenotype = routes;
    while ind.phenotype.len() < nv {
        ind.phenotype.push(vec![]);
    }
    ind.evaluate(ctx);
    ind
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-5 * (1.0 + a.abs().max(b.abs()).min(1e9) * 1e-3)
}

// ---- independent reference definitions
pub fn route_dist(ctx: &Context, r: &[usize]) -> f64 {
    let d = &ctx.matrix_provider.distance;
    let mut t = 0.0;
    let mut last = 0;
    for &c in r {
        t += d.get(last, c);
        last = c;
    }
    t + d.get(last, 0)
}
pub fn route_load(ctx: &Context, r: &[usize]) -> f64 {
    r.iter().map(|&c| ctx.problem.nodes[c].demand).sum()
}
pub fn route_cost(ctx: &Context, r: &[usize], pen: f64) -> f64 {
    route_dist(ctx, r) + pen * (route_load(ctx, r) - ctx.problem.vehicle.cap).max(0.0)
}
pub fn cost(ctx: &Context, s: &[Vec<usize>], pen: f64) -> f64 {
    s.iter().map(|r| route_cost(ctx, r, pen)).sum()
}
pub fn feasible(ctx: &Context, s: &[Vec<usize>]) -> bool {
    s.iter().all(|r| route_load(ctx, r) <= ctx.problem.vehicle.cap + 1e-6)
}
/// every customer 1..n exactly once
pub fn is_partition(n: usize, s: &[Vec<usize>]) -> Result<(), String> {
    let mut seen = vec![0; n];
    for r in s {
        for &c in r {
            if c == 0 || c >= n {
                return Err(format!("route contains invalid node {} : {:?}", c, s));
            }
            seen[c] += 1;
        }
    }
    for c in 1..n {
        if seen[c] != 1 {
            return Err(format!("customer {} served {} times in {:?}", c, seen[c], s));
        }
    }
    Ok(())
}
/// the evaluation fields must agree with the definition for the phenotype
pub fn eval_ok(ctx: &Context, ind: &Individual) -> Result<(), String> {
    let pen = ctx.config.borrow().penalty_capacity;
    let e = &ind.evaluation;
    let s = &ind.phenotype;
    if e.routes.len() != s.len() {
        return Err(format!("evaluation has {} routes for {} routes", e.routes.len(), s.len()));
    }
    for (i, r) in s.iter().enumerate() {
        let (d, o) = (route_dist(ctx, r), route_load(ctx, r) - ctx.problem.vehicle.cap);
        let c = d + pen * o.max(0.0);
        if !close(e.routes[i].distance, d) || !close(e.routes[i].overload, o) || !close(e.routes[i].penalized_cost, c) {
            return Err(format!(
                "route {} {:?}: evaluated (dist {}, overload {}, cost {}), definition gives ({}, {}, {})",
                i, r, e.routes[i].distance, e.routes[i].overload, e.routes[i].penalized_cost, d, o, c
            ));
        }
        for (j, &c) in r.iter().enumerate() {
            let p = if j == 0 { 0 } else { r[j - 1] };
            let q = if j + 1 == r.len() { 0 } else { r[j + 1] };
            if e.predecessors[c] != p || e.successors[c] != q {
                return Err(format!("node {}: pred/succ ({},{}) expected ({},{})", c, e.predecessors[c], e.successors[c], p, q));
            }
        }
    }
    let t = cost(ctx, s, pen);
    if !close(e.penalized_cost, t) || !close(ind.penalized_cost(), t) {
        return Err(format!("penalized cost {} expected {}", e.penalized_cost, t));
    }
    // feasibility, away from the tolerance boundary
    let worst = s.iter().map(|r| route_load(ctx, r) - ctx.problem.vehicle.cap).fold(f64::NEG_INFINITY, f64::max);
    if worst <= 1e-7 && !e.feasible || worst >= 1e-5 && e.feasible {
        return Err(format!("feasible={} but the largest overload is {}", e.feasible, worst));
    }
    Ok(())
}
