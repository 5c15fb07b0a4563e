@raw
// the settings the contracts of the search depend on, apart from the capacity penalty, are the same
pub mod conf { use super::*; use vstd::prelude::*;
verus! {
#[verifier::opaque]
pub open spec fn same_but_penalty(a: Config, b: Config) -> bool { b.num_vehicles == a.num_vehicles && b.initial_individuals == a.initial_individuals && b.penalty_update_interval == a.penalty_update_interval && b.log_interval == a.log_interval && b.num_diversity_closest == a.num_diversity_closest && b.min_population_size == a.min_population_size && b.population_lambda == a.population_lambda && b.tournament_size == a.tournament_size && b.penalty_inc_multiplier == a.penalty_inc_multiplier && b.penalty_dec_multiplier == a.penalty_dec_multiplier }
pub broadcast proof fn same_refl(a: Config) ensures #[trigger] same_but_penalty(a, a) { reveal(same_but_penalty); }
pub broadcast proof fn same_trans(a: Config, b: Config, c: Config) requires #[trigger] same_but_penalty(a, b), #[trigger] same_but_penalty(b, c) ensures same_but_penalty(a, c) { reveal(same_but_penalty); }
pub proof fn lem_scaled(a: Config, b: Config) requires b.num_vehicles == a.num_vehicles, b.initial_individuals == a.initial_individuals, b.penalty_update_interval == a.penalty_update_interval, b.log_interval == a.log_interval, b.num_diversity_closest == a.num_diversity_closest, b.min_population_size == a.min_population_size, b.population_lambda == a.population_lambda, b.tournament_size == a.tournament_size, b.penalty_inc_multiplier == a.penalty_inc_multiplier, b.penalty_dec_multiplier == a.penalty_dec_multiplier ensures same_but_penalty(a, b) { reveal(same_but_penalty); }
} }
pub use conf::same_but_penalty;
