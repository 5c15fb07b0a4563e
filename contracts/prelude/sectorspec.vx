@raw
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32)
    requires b > 0,
    ensures r as int == (a as int) % (b as int),
;
pub open spec fn in_range(a: int) -> bool { 0 <= a < 65536 }
pub open spec fn fwd(a: int, b: int) -> int { (b - a) % 65536 }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub assume_specification [i32::abs] (a: i32) -> (r: i32)
    requires a > i32::MIN,
    ensures r as int == if a < 0 { -(a as int) } else { a as int },
;
impl CircleSector {
    pub open spec fn length(&self) -> int { fwd(self.start as int, self.end as int) }
    pub open spec fn nil(&self) -> bool { self.start == -1 && self.end == -1 }
    pub open spec fn wf(&self) -> bool { in_range(self.start as int) && in_range(self.end as int) }
    // a lies on the arc that runs from start forward to end
    pub open spec fn has(&self, a: int) -> bool { fwd(self.start as int, a) <= fwd(self.start as int, self.end as int) }
}
pub proof fn lem_fwd(a: int, b: int)
    requires -1 <= a < 65536, -1 <= b < 65536,
    ensures fwd(a, b) == if b >= a { if b - a == 65536 { 0 } else { b - a } } else { b - a + 65536 },
            0 <= fwd(a, b) < 65536,
{}
@const src/models/circle_sector.rs MAX_ANGLE
@const src/models/circle_sector.rs EMPTY
@struct src/models/circle_sector.rs CircleSector
