## C19: circle sectors
@include prelude/sectorspec.vx
@helpers src/models/circle_sector.rs

@fn src/models/circle_sector.rs CircleSector::new
@ret r
@spec
ensures r.nil()
@endfn
@fn src/models/circle_sector.rs CircleSector::reset
@spec
ensures final(self).nil()
@endfn
@fn src/models/circle_sector.rs CircleSector::from_angle
@params angle
@spec
requires in_range(angle as int),
ensures final(self).wf(), final(self).start == angle, final(self).end == angle,
    forall|a: int| in_range(a) ==> (final(self).has(a) <==> a == angle as int),
@at exit
proof { assert forall|a: int| in_range(a) implies (self.has(a) <==> a == angle as int) by { lem_fwd(angle as int, a); lem_fwd(angle as int, angle as int); } }
@endfn
@fn src/models/circle_sector.rs CircleSector::is_enclosed
@params angle
@ret r
@spec
requires self.nil() || self.wf(), in_range(angle as int),
ensures r == self.has(angle as int),
@endfn
@fn src/models/circle_sector.rs CircleSector::extend
@params angle
@spec
requires old(self).nil() || old(self).wf(), in_range(angle as int),
ensures
    final(self).wf(),
    final(self).has(angle as int),
    !old(self).nil() ==> forall|a: int| in_range(a) && old(self).has(a) ==> final(self).has(a),
    !old(self).nil() && old(self).has(angle as int) ==> *final(self) == *old(self),
    old(self).nil() ==> final(self).start == angle && final(self).end == angle,
    // an angle outside is reached over the smaller of the two gaps
    !old(self).nil() && !old(self).has(angle as int) ==> final(self).length() == old(self).length() + imin(fwd(old(self).end as int, angle as int), fwd(angle as int, old(self).start as int)),
@at start
proof {
    lem_fwd(angle as int, angle as int); lem_fwd(self.start as int, self.end as int); lem_fwd(self.start as int, angle as int);
    lem_fwd(angle as int, self.start as int); lem_fwd(angle as int, self.end as int); lem_fwd(self.end as int, angle as int);
}
@at exit
proof {
    assert forall|a: int| !old(self).nil() && in_range(a) && old(self).has(a) implies self.has(a) by {
        lem_fwd(old(self).start as int, a); lem_fwd(self.start as int, a); lem_fwd(self.start as int, self.end as int);
    }
    lem_fwd(self.start as int, angle as int); lem_fwd(self.start as int, self.end as int);
}
@endfn
@fn src/models/circle_sector.rs CircleSector::overlaps
@params other
@ret r
@spec
requires self.wf(), other.wf(),
ensures r == (exists|a: int| in_range(a) && #[trigger] self.has(a) && other.has(a)),
@at exit
proof {
    let (s, e, t, u) = (self.start as int, self.end as int, other.start as int, other.end as int);
    lem_fwd(s, s); lem_fwd(t, t); lem_fwd(s, t); lem_fwd(t, s); lem_fwd(s, e); lem_fwd(t, u);
    if __tail {
        if self.has(t) { assert(other.has(t)); } else { assert(self.has(s) && other.has(s)); }
    }
    assert forall|a: int| in_range(a) && #[trigger] self.has(a) && other.has(a) implies __tail by {
        lem_fwd(s, a); lem_fwd(t, a);
    }
}
@endfn
