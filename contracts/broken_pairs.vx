## C14: broken pairs distance
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/brokenspec.vx
@fn src/solver/genetic/individual.rs Individual::successor
@params node
@ret r
@spec
requires node < self.evaluation.successors@.len(),
ensures r == self.evaluation.successors@[node as int],
@endfn
@fn src/solver/genetic/individual.rs Individual::predecessor
@params node
@ret r
@spec
requires node < self.evaluation.predecessors@.len(),
ensures r == self.evaluation.predecessors@[node as int],
@endfn
@fn src/solver/genetic/individual.rs Individual::calculate_broken_pairs_distance
@params other
@ret r
@spec
requires
    self.genotype@.len() + 1 < 0x7fff_ffff,
    eval_covers(self.evaluation, (self.genotype@.len() + 1) as int), eval_covers(other.evaluation, (self.genotype@.len() + 1) as int),
ensures
    r as int == broken_pairs(self.evaluation, other.evaluation, self.genotype@.len() as int),
    0 <= r <= 2 * self.genotype@.len(),
@loop 0
invariant
    1 <= __i0 <= size, size == self.genotype@.len() + 1, size < 0x7fff_ffff,
    eval_covers(self.evaluation, size as int), eval_covers(other.evaluation, size as int),
    distance as int == broken_pairs(self.evaluation, other.evaluation, __i0 - 1),
    0 <= distance <= 2 * (__i0 - 1),
decreases size - __i0
@endfn
