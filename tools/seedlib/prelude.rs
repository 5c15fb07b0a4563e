#![allow(unused)]
use hybridcvrp::config::Config;
use hybridcvrp::models::*;
use hybridcvrp::solver::genetic::*;
use hybridcvrp::solver::improvement::*;
use hybridcvrp::solver::*;
use hybridcvrp::utils::*;
use std::time::Instant;
fn config() -> Config { let mut c = Config::default(); c.deterministic = true; c.time_limit = 1000; c.round_distances = false; c }
fn context(coords: &[(f64, f64)], demands: &[f64], cap: f64, config: Config) -> Context {
    let nodes = coords.iter().zip(demands).enumerate()
        .map(|(i, (c, d))| Node { id: i + 1, coord: Coordinate { lng: c.0, lat: c.1 }, demand: *d }).collect();
    let mut p = ProblemParser::new();
    p.problem = Some(ProblemBuilder::new(nodes, Vehicle { id: 0, cap }).build());
    Context::new(p, config, Instant::now())
}
struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 >> 33 }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn shuffle(&mut self, v: &mut Vec<usize>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}
fn random_context(r: &mut Lcg, n: usize, routes: f64, config: Config) -> Context {
    let coords: Vec<(f64, f64)> = (0..=n).map(|_| (r.below(1000) as f64, r.below(1000) as f64)).collect();
    let mut demands: Vec<f64> = (0..=n).map(|_| 1.0 + r.below(20) as f64).collect();
    demands[0] = 0.0;
    let total: f64 = demands.iter().sum();
    context(&coords, &demands, (total / routes).ceil().max(20.0), config)
}
fn individual(ctx: &Context, routes: Vec<Vec<usize>>) -> Individual {
    let mut ind = Individual::new(routes.iter().flatten().copied().collect(), 0);
    ind.phenotype = routes;
    let nv = ctx.config.borrow().num_vehicles as usize;
    while ind.phenotype.len() < nv { ind.phenotype.push(vec![]); }
    ind.evaluate(ctx);
    ind
}
fn dist(ctx: &Context, r: &[usize]) -> f64 {
    let mut t = 0.0; let mut last = 0;
    for &c in r { t += ctx.matrix_provider.distance.get(last, c); last = c; }
    t + ctx.matrix_provider.distance.get(last, 0)
}
fn load(ctx: &Context, r: &[usize]) -> f64 { r.iter().map(|&c| ctx.problem.nodes[c].demand).sum() }
fn cost(ctx: &Context, rs: &[Vec<usize>], pen: f64) -> f64 {
    rs.iter().map(|r| dist(ctx, r) + pen * (load(ctx, r) - ctx.problem.vehicle.cap).max(0.0)).sum()
}
fn check(b: bool, m: &str) { if !b { println!("BROKEN: {}", m); std::process::exit(1); } }
fn partition(ctx: &Context, rs: &[Vec<usize>]) -> bool {
    let mut s = vec![0; ctx.problem.dim()];
    for r in rs { for &c in r { s[c] += 1; } }
    s[0] == 0 && s[1..].iter().all(|&x| x == 1)
}
