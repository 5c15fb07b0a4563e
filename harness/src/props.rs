use crate::gen::*;
use crate::{check, note, p_ga, p_ls, p_model, Case, Out, Stats};
use hybridcvrp::solver::SolutionEvaluation;

fn c(name: &'static str, weight: u32, f: crate::CaseFn) -> Case {
    Case { name, weight, f }
}

pub fn cases(p: &str) -> Vec<Case> {
    match p {
        "C01" => vec![c("evaluate", 3, c01_evaluate), c("reevaluate-reused", 1, c01_reuse)],
        "C02" => vec![c("crossover", 1, p_ga::c02)],
        "C03" => vec![c("split", 1, p_ga::c03)],
        "C04" => vec![c("split-optimum", 1, p_ga::c04)],
        "C05" => vec![c("moves", 2, p_ls::moves), c("move-chain", 2, p_ls::move_chain), c("swap-star", 1, p_ls::swap_star), c("local-search", 3, p_ls::ls_run)],
        "C06" => vec![c("moves", 3, p_ls::moves), c("move-chain", 1, p_ls::move_chain), c("local-search", 2, p_ls::ls_run)],
        "C07" => vec![c("three-best", 1, p_ls::three_best), c("swap-star", 4, p_ls::swap_star)],
        "C08" => vec![c("ruin-recreate", 1, p_ls::c08)],
        "C09" => vec![c("steps", 2, p_ls::c09), c("search", 1, p_ls::c09_long)],
        "C10" => vec![c("iteration-schedule", 3, p_ls::c10), c("time-schedule", 1, p_ls::c10_time), c("configured-schedule", 1, p_ls::c10_setup)],
        "C11" => vec![c("genetic", 3, p_ga::c11), c("history", 2, p_ga::c11_file), c("decomposed", 2, p_ga::c11_decomposed), c("ruin-recreate", 1, p_ls::c09_long)],
        "C12" => vec![c("population", 1, p_ga::c12)],
        "C13" => vec![c("selection", 1, p_ga::c13)],
        "C14" => vec![c("broken-pairs", 1, p_model::c14)],
        "C15" => vec![c("penalty", 1, p_ga::c15)],
        "C16" => vec![c("distances", 1, p_model::c16)],
        "C17" => vec![c("neighbours", 1, p_model::c17)],
        "C18" => vec![c("matrix", 2, p_model::c18_matrix), c("search", 2, p_ls::c18_search)],
        "C19" => vec![c("sector", 4, p_model::c19), c("angle", 1, p_model::c19_angle)],
        "C20" => vec![c("decomposition", 1, p_ga::c20)],
        "C21" => vec![c("phases", 3, p_ga::c21), c("time-limit", 1, p_ga::c21_time)],
        "C22" => vec![c("config", 1, p_model::c22)],
        "C23" => vec![c("fleet", 1, p_model::c23)],
        "C24" => vec![c("tournament", 1, p_ga::c24)],
        _ => vec![],
    }
}
fn c01_evaluate(r: &mut Rng, st: &mut Stats) -> Out {
    let mut i = inst(r, 2, 14);
    if r.chance(0.3) {
        i.demands.iter_mut().skip(1).for_each(|d| *d *= 0.37);
    }
    let ctx = i.ctx();
    let k = r.range(1, 6);
    let routes = partition(r, i.n(), k);
    note(format!("{} routes={:?}", i.desc(), routes));
    let ind = individual(&ctx, routes.clone());
    eval_ok(&ctx, &ind)?;
    check!(ind.is_feasible() == ind.evaluation.feasible, "is_feasible differs from evaluation");
    if routes.iter().filter(|r| r.len() > 1).count() > 0 {
        st.hit();
    }
    st.sample(|| format!("routes={:?} cost={}", routes, ind.penalized_cost()));
    // exact capacity boundary
    Ok(())
}

fn c01_reuse(r: &mut Rng, st: &mut Stats) -> Out {
    // the same evaluation object re-used for solutions with fewer/more routes, with boundary loads
    let mut i = inst(r, 3, 10);
    let mut e = SolutionEvaluation::new();
    let k0 = r.range(1, 5);
    let first = partition(r, i.n(), k0);
    let ctx0 = i.ctx();
    e.evaluate(&ctx0, &first);
    let k1 = r.range(1, 5);
    let second = partition(r, i.n(), k1);
    // capacity exactly equal to the heaviest route
    let heavy = second.iter().map(|r| route_load(&ctx0, r)).fold(0.0, f64::max);
    i.cap = (heavy + r.pick(&[0.0, 0.0, 1.0, -1.0])).max(1.0);
    let ctx = i.ctx();
    note(format!("{} first={:?} second={:?}", i.desc(), first, second));
    e.evaluate(&ctx, &second);
    let mut ind = individual(&ctx, second.clone());
    ind.phenotype = second;
    ind.evaluation = e;
    eval_ok(&ctx, &ind)?;
    st.hit();
    Ok(())
}
