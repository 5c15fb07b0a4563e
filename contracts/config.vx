## C22: defaults, configuration file, command line
@include prelude/real.vx
@struct src/config.rs Config
@omit bks precompute_distance_size_limit decomposed_problem_min_size min_population_size initial_individuals population_lambda num_elites num_diversity_closest feasibility_proportion_target tournament_size repair_probability split_capacity_factor linear_split local_search_granularity dynamic_granularity granularity_min ls_enabled relocate_single relocate_double relocate_double_reverse swap_one_with_one swap_two_with_one swap_two_with_two two_opt_intra_reverse two_opt_inter_reverse two_opt_inter swap_star penalty_capacity penalty_update_interval penalty_inc_multiplier penalty_dec_multiplier average_ruin_cardinality max_ruin_string_length rr_mutation rr_probability rr_gamma rr_final_temp rr_start_temp rr_diversify elite_education elite_education_problem_size_limit elite_education_gamma elite_education_final_temp elite_education_start_temp elite_education_time_based elite_education_time_fraction
@struct src/cli.rs Args
@raw
// YAML values and the derived serialisation of Config, seen through their contracts
#[verifier::external_body]
pub struct Mapping { x: u8 }
pub enum Value { Mapping(Mapping), Other(u64) }
#[derive(Debug)]
pub struct YamlError {}
// the entries of a mapping, in file order, one per key
pub uninterp spec fn listed(m: Mapping) -> Seq<(Value, Value)>;
pub open spec fn unique_keys(s: Seq<(Value, Value)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn table(v: Value) -> Map<Value, Value> { match v { Value::Mapping(m) => table_of(m), _ => Map::empty() } }
pub uninterp spec fn table_of(m: Mapping) -> Map<Value, Value>;
// the parameter named k has been read from the value v
pub uninterp spec fn holds(c: Config, k: Value, v: Value) -> bool;
pub uninterp spec fn is_parameter(k: Value) -> bool;
// the parameter named k has the same value in both
pub uninterp spec fn same_parameter(a: Config, b: Config, k: Value) -> bool;
pub mod ax { use super::*; use vstd::prelude::*;
verus! {
// a parameter is determined by the value it was read from
pub axiom fn one_value(a: Config, b: Config, k: Value, v: Value) requires holds(a, k, v), holds(b, k, v) ensures same_parameter(a, b, k);
pub axiom fn keys_are_unique(m: Mapping) ensures unique_keys(listed(m)), forall|i: int| 0 <= i < listed(m).len() ==> table_of(m).dom().contains((#[trigger] listed(m)[i]).0) && table_of(m)[listed(m)[i].0] == listed(m)[i].1,
    forall|k: Value| table_of(m).dom().contains(k) ==> exists|i: int| 0 <= i < listed(m).len() && (#[trigger] listed(m)[i]).0 == k;
} }
#[verifier::external_body]
pub fn entries(m: &Mapping) -> (r: Vec<(Value, Value)>) ensures r@ == listed(*m) { unimplemented!() }
impl Value {
    #[verifier::external_body]
    pub fn get_mut(&mut self, key: &Value) -> (r: Option<&mut Value>)
        ensures match r {
            Some(p) => table(*old(self)).dom().contains(*key) && *p == table(*old(self))[*key] && table(*final(self)) == table(*old(self)).insert(*key, *final(p)),
            None => !table(*old(self)).dom().contains(*key) && *final(self) == *old(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) { unimplemented!() }
}
// serde_yaml::to_value / from_value of the derived Serialize and Deserialize of Config: every parameter is written under its name and read back from it (a value that does not fit ends the program)
#[verifier::external_body]
pub fn written(c: &Config) -> (r: Result<Value, YamlError>)
    ensures r is Ok, forall|k: Value| #[trigger] table(r->Ok_0).dom().contains(k) <==> is_parameter(k), forall|k: Value| is_parameter(k) ==> holds(*c, k, #[trigger] table(r->Ok_0)[k])
{ unimplemented!() }
#[verifier::external_body]
pub fn read_back(v: Value) -> (r: Result<Config, YamlError>)
    requires forall|k: Value| #[trigger] table(v).dom().contains(k) <==> is_parameter(k)
    ensures r is Ok, forall|k: Value| is_parameter(k) ==> holds(r->Ok_0, k, #[trigger] table(v)[k])
{ unimplemented!() }
pub uninterp spec fn contents(path: Seq<char>) -> Value;
#[verifier::external_body]
pub fn text_of(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn same_path(a: Option<String>, b: Option<String>) -> bool { match a { None => b is None, Some(x) => b matches Some(y) && x@ == y@ } }
// the first k entries of the file have been applied
pub uninterp spec fn default_config() -> Config;
impl Config {
    // the literal of all defaults: taken as the definition of the defaults
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == default_config() { unimplemented!() }
    #[verifier::external_body]
    fn read_yaml_file(filepath: &str) -> (r: Value) ensures r == contents(filepath@) { unimplemented!() }
}
pub open spec fn patched(t0: Map<Value, Value>, t: Map<Value, Value>, s: Seq<(Value, Value)>, k: int) -> bool {
    t.dom() == t0.dom()
    && (forall|i: int| 0 <= i < k && t0.dom().contains((#[trigger] s[i]).0) ==> t[s[i].0] == s[i].1)
    && (forall|q: Value| t0.dom().contains(q) && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).0 != q) ==> #[trigger] t[q] == t0[q])
}
// b is a with the values of v where v has one
pub open spec fn overridden(a: Config, b: Config, v: Value) -> bool {
    forall|k: Value| #[trigger] is_parameter(k) ==> if table(v).dom().contains(k) { holds(b, k, table(v)[k]) } else { same_parameter(a, b, k) }
}
@raw
pub open spec fn put(t: Map<Value, Value>, k: Value, v: Value) -> Map<Value, Value> { if t.dom().contains(k) { t.insert(k, v) } else { t } }
pub proof fn lem_patched(t0: Map<Value, Value>, t: Map<Value, Value>, u: Map<Value, Value>, s: Seq<(Value, Value)>, k: int)
    requires patched(t0, t, s, k), unique_keys(s), 0 <= k < s.len(), u == put(t, s[k].0, s[k].1)
    ensures patched(t0, u, s, k + 1)
{
    assert(u.dom() =~= t0.dom());
    assert forall|i: int| 0 <= i < k + 1 && t0.dom().contains((#[trigger] s[i]).0) implies u[s[i].0] == s[i].1 by { if i < k { assert(s[i].0 != s[k].0); } }
    assert forall|q: Value| t0.dom().contains(q) && (forall|i: int| 0 <= i < k + 1 ==> (#[trigger] s[i]).0 != q) implies #[trigger] u[q] == t0[q] by { assert(s[k].0 != q); }
}
pub proof fn lem_overridden(a: Config, b: Config, v: Value, t0: Map<Value, Value>, t: Map<Value, Value>)
    requires v is Mapping, patched(t0, t, listed(v->Mapping_0), listed(v->Mapping_0).len() as int),
        forall|k: Value| #[trigger] t0.dom().contains(k) <==> is_parameter(k), forall|k: Value| is_parameter(k) ==> holds(a, k, #[trigger] t0[k]), forall|k: Value| is_parameter(k) ==> holds(b, k, #[trigger] t[k]),
    ensures overridden(a, b, v)
{
    let m = v->Mapping_0; let s = listed(m); ax::keys_are_unique(m);
    assert forall|k: Value| #[trigger] is_parameter(k) implies if table(v).dom().contains(k) { holds(b, k, table(v)[k]) } else { same_parameter(a, b, k) } by {
        assert(t0.dom().contains(k));
        if table(v).dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(t[s[i].0] == s[i].1); assert(table_of(m)[s[i].0] == s[i].1); assert(holds(b, k, t[k])); }
        else { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != k by { assert(table_of(m).dom().contains(s[i].0)); } assert(t[k] == t0[k]); assert(holds(a, k, t0[k])); assert(holds(b, k, t[k])); ax::one_value(a, b, k, t0[k]); }
    }
}
@helpers src/config.rs
@fn src/config.rs Config::update
@subst serde_yaml :: to_value ==> written
@subst serde_yaml :: from_value ==> read_back
@subst mapping . iter ( ) ==> entries(mapping).iter()
@params values
@spec
requires *values is Mapping,
ensures overridden(*old(self), *final(self), *values),
@at start
let ghost v1 = *values; let ghost m1 = v1->Mapping_0; let ghost l1 = listed(m1); let ghost mut t0 = table(v1); let ghost mut t9 = t0;
@at before loop 0
proof { t0 = table(config); ax::keys_are_unique(m1); }
@loop 0
invariant __i0 <= l1.len(), __v0@ == l1, patched(t0, table(config), l1, __i0 as int), unique_keys(l1),
decreases l1.len() - __i0
@at loop 0 end
proof { lem_patched(t0, t1, table(config), l1, __c0 as int); }
@at loop 0 start
let ghost t1 = table(config);
@at exit
proof { lem_overridden(*old(self), *self, v1, t0, t9); }
@at after loop 0
proof { t9 = table(config); }
@endfn
@fn src/config.rs Config::reset
@spec
ensures *final(self) == default_config(),
@endfn
@fn src/config.rs Config::load_yaml_file
@params filepath
@ret r
@spec
requires contents(filepath@) is Mapping,
ensures overridden(default_config(), r, contents(filepath@)),
@endfn
@fn src/config.rs Config::update_from_yaml_file
@params filepath
@spec
requires contents(filepath@) is Mapping,
ensures overridden(*old(self), *final(self), contents(filepath@)),
@endfn
@fn src/config.rs Config::update_from_args
@subst String :: from ==> text_of
@params args
@spec
ensures
    final(self).instance_path@ == args.instance_path@,
    args.solution_path is Some ==> same_path(args.solution_path, final(self).solution_path),
    args.solution_path is None && old(self).solution_path is Some ==> same_path(old(self).solution_path, final(self).solution_path),
    args.solution_path is None && old(self).solution_path is None ==> final(self).solution_path is Some && final(self).solution_path->0@ == "output.sol"@,
    final(self).max_iterations_without_improvement == if args.max_iterations is Some { args.max_iterations->0 } else { old(self).max_iterations_without_improvement },
    final(self).time_limit == if args.time_limit is Some { args.time_limit->0 } else { old(self).time_limit },
    final(self).round_distances == if args.rounded is Some { args.rounded->0 } else { old(self).round_distances },
    *final(self) == (Config { instance_path: final(self).instance_path, solution_path: final(self).solution_path, max_iterations_without_improvement: final(self).max_iterations_without_improvement,
        time_limit: final(self).time_limit, round_distances: final(self).round_distances, ..*old(self) }),
@endfn
