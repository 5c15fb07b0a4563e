## C03: route order and giant tour of an individual
@include prelude/base.vx
@include prelude/individual.vx
@include prelude/evalspec.vx
@include prelude/sort.vx
@include prelude/perm.vx
@include prelude/occ.vx
@include prelude/flat.vx
@fn src/solver/genetic/individual.rs Individual::sort_routes
@params ctx
@sort 0 (R, usize)
@spec
requires ctx.wf(), nodes_ok(ctx, old(self).phenotype@), len_sum(old(self).phenotype@, old(self).phenotype@.len() as int) <= old(self).genotype@.len(),
ensures
    same_lists(old(self).phenotype@, final(self).phenotype@),
    final(self).genotype@.len() == old(self).genotype@.len(),
    // the giant tour starts with the routes in their new order
    ({ let f = flat_all(final(self).phenotype@); f.len() <= final(self).genotype@.len() && final(self).genotype@.take(f.len() as int) == f }),
    final(self).number == old(self).number, final(self).fitness == old(self).fitness, final(self).evaluation == old(self).evaluation,
@at start
let ghost p0 = self.phenotype@; let ghost g0 = self.genotype@;
@loop 0
invariant __i0 <= p0.len(), self.phenotype@ == p0, *self == *old(self), ctx.wf(), nodes_ok(ctx, p0), sorted_angles@.len() == __i0,
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] sorted_angles@[i]).1 == i,
decreases p0.len() - __i0
@loop 1
invariant __i1 <= route@.len(), ctx.wf(), nodes_ok(ctx, p0), 0 <= __i0 - 1 < p0.len(), route@ == p0[__i0 - 1]@,
decreases route@.len() - __i1
@at loop 1 start
proof { assert(0 < p0[__i0 - 1]@[__c1 as int] < ctx.n()); }
@at after loop 0
let ghost pre = sorted_angles@;
@at before loop 2
let ghost np: Vec<Vec<usize>> = new_phenotype;
let ghost q = choose|q: Seq<int>| permuted_by(pre, sorted_angles@, q);
proof { assert forall|i: int| 0 <= i < p0.len() implies (#[trigger] sorted_angles@[i]).1 == q[i] by { assert(sorted_angles@[i] == pre[q[i]]); assert(0 <= q[i] < pre.len()); } }
@loop 2
invariant __i2 <= p0.len(), self.phenotype@ == p0, *self == *old(self), sorted_angles@.len() == p0.len(), is_perm_map(q, p0.len() as int),
    forall|i: int| 0 <= i < p0.len() ==> (#[trigger] sorted_angles@[i]).1 == q[i],
    new_phenotype@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> (#[trigger] new_phenotype@[i])@ == p0[q[i]]@,
decreases p0.len() - __i2
@at loop 2 start
proof { assert(0 <= q[__c2 as int] < p0.len()); assert(sorted_angles@[__c2 as int].1 == q[__c2 as int]); }
@at loop 2 end
proof { assert(new_phenotype@[__i2 - 1]@ =~= p0[q[__i2 - 1]]@); }
@at before loop 3
let ghost p1 = self.phenotype@;
proof { assert(lists_by(p0, p1, q)); lem_lists_locc(p0, p1, q, 0); lem_flat_len(p1, p1.len() as int); }
@loop 3
invariant __i3 <= p1.len(), self.phenotype@ == p1, self.genotype@.len() == g0.len(), flat_all(p1).len() <= g0.len(),
    index == flat(p1, __i3 as int).len(), self.genotype@.take(index as int) == flat(p1, __i3 as int),
    self.number == old(self).number, self.fitness == old(self).fitness, self.evaluation == old(self).evaluation,
decreases p1.len() - __i3
@at loop 3 start
proof { lem_flat_prefix(p1, __i3 as int, p1.len() as int); }
@loop 4
invariant __i4 <= route@.len(), 0 < __i3 <= p1.len(), self.phenotype@ == p1, route@ == p1[__i3 - 1]@, self.genotype@.len() == g0.len(), flat_all(p1).len() <= g0.len(),
    flat(p1, __i3 as int) == flat(p1, __i3 - 1) + route@, flat(p1, __i3 as int).len() <= g0.len(),
    index == flat(p1, __i3 - 1).len() + __i4, self.genotype@.take(index as int) == flat(p1, __i3 - 1) + route@.take(__i4 as int),
    self.number == old(self).number, self.fitness == old(self).fitness, self.evaluation == old(self).evaluation,
decreases route@.len() - __i4
@at loop 4 start
let ghost g1 = self.genotype@;
proof { assert(self.genotype@.len() == self.genotype.len()); }
@at loop 4 end
proof { assert(self.genotype@.take(index as int) =~= g1.take(index - 1).push(route@[__c4 as int])); assert(route@.take(__i4 as int) =~= route@.take(__i4 - 1).push(route@[__c4 as int])); 
    assert((flat(p1, __i3 - 1) + route@.take(__i4 - 1)).push(route@[__c4 as int]) =~= flat(p1, __i3 - 1) + route@.take(__i4 as int)); }
@at after loop 4
proof { assert(route@.take(route@.len() as int) =~= route@); }
@endfn
