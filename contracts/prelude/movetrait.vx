@raw
// ---- `dyn Move` as the enumeration of its nine implementations; the dispatch of a trait object becomes a match
@struct src/solver/improvement/moves/relocation.rs RelocateSingle
@usefn ../moves.vx RelocateSingle@Move::delta
@usefn ../moves.vx RelocateSingle@Move::perform
@struct src/solver/improvement/moves/relocation.rs RelocateDouble
@usefn ../moves.vx RelocateDouble@Move::delta
@usefn ../moves.vx RelocateDouble@Move::perform
@struct src/solver/improvement/moves/relocation.rs RelocateDoubleReverse
@usefn ../moves.vx RelocateDoubleReverse@Move::delta
@usefn ../moves.vx RelocateDoubleReverse@Move::perform
@struct src/solver/improvement/moves/swap.rs SwapOneWithOne
@usefn ../moves.vx SwapOneWithOne@Move::delta
@usefn ../moves.vx SwapOneWithOne@Move::perform
@struct src/solver/improvement/moves/swap.rs SwapTwoWithOne
@usefn ../moves.vx SwapTwoWithOne@Move::delta
@usefn ../moves.vx SwapTwoWithOne@Move::perform
@struct src/solver/improvement/moves/swap.rs SwapTwoWithTwo
@usefn ../moves.vx SwapTwoWithTwo@Move::delta
@usefn ../moves.vx SwapTwoWithTwo@Move::perform
@struct src/solver/improvement/moves/two_opt.rs TwoOptIntraReverse
@usefn ../twoopt.vx TwoOptIntraReverse@Move::delta
@usefn ../twoopt.vx TwoOptIntraReverse@Move::perform
@struct src/solver/improvement/moves/two_opt.rs TwoOptInterReverse
@usefn ../twoopt.vx TwoOptInterReverse@Move::delta
@usefn ../twoopt.vx TwoOptInterReverse@Move::perform
@struct src/solver/improvement/moves/two_opt.rs TwoOptInter
@usefn ../twoopt.vx TwoOptInter@Move::delta
@usefn ../twoopt.vx TwoOptInter@Move::perform
@raw
pub enum AnyMove { RelocateSingle(RelocateSingle), RelocateDouble(RelocateDouble), RelocateDoubleReverse(RelocateDoubleReverse), SwapOneWithOne(SwapOneWithOne), SwapTwoWithOne(SwapTwoWithOne), SwapTwoWithTwo(SwapTwoWithTwo), TwoOptIntraReverse(TwoOptIntraReverse), TwoOptInterReverse(TwoOptInterReverse), TwoOptInter(TwoOptInter) }
impl AnyMove {
    // may be tried with the start depot of a route as v
    pub open spec fn far(&self) -> bool { match self { AnyMove::RelocateSingle(_) => true, AnyMove::RelocateDouble(_) => true, AnyMove::RelocateDoubleReverse(_) => true, AnyMove::SwapOneWithOne(_) => false, AnyMove::SwapTwoWithOne(_) => false, AnyMove::SwapTwoWithTwo(_) => false, AnyMove::TwoOptIntraReverse(_) => false, AnyMove::TwoOptInterReverse(_) => false, AnyMove::TwoOptInter(_) => true } }
    pub open spec fn fits(&self, h: &LocalSearch, t: Tours, u: Ptr, v: Ptr) -> bool { match self { AnyMove::RelocateSingle(_) => reloc_ok(h, t, u, v, 1), AnyMove::RelocateDouble(_) => reloc_ok(h, t, u, v, 2), AnyMove::RelocateDoubleReverse(_) => reloc_ok(h, t, u, v, 2), AnyMove::SwapOneWithOne(_) => swap_ok(h, t, u, v, 1, 1), AnyMove::SwapTwoWithOne(_) => swap_ok(h, t, u, v, 2, 1), AnyMove::SwapTwoWithTwo(_) => swap_ok(h, t, u, v, 2, 2), AnyMove::TwoOptIntraReverse(_) => flip_ok(h, u, v), AnyMove::TwoOptInterReverse(_) => inter_ok(h, u, v), AnyMove::TwoOptInter(_) => inter_ok(h, u, v) } }
    pub open spec fn xch(&self, h: &LocalSearch, t: Tours, u: Ptr, v: Ptr) -> Xch { match self { AnyMove::RelocateSingle(_) => reloc_xch(h, u, v, 1, false), AnyMove::RelocateDouble(_) => reloc_xch(h, u, v, 2, false), AnyMove::RelocateDoubleReverse(_) => reloc_xch(h, u, v, 2, true), AnyMove::SwapOneWithOne(_) => swap_xch(h, u, v, 1, 1), AnyMove::SwapTwoWithOne(_) => swap_xch(h, u, v, 2, 1), AnyMove::SwapTwoWithTwo(_) => swap_xch(h, u, v, 2, 2), AnyMove::TwoOptIntraReverse(_) => flip_xch(h, u, v), AnyMove::TwoOptInterReverse(_) => cross_xch(h, t, u, v), AnyMove::TwoOptInter(_) => tail_xch(h, t, u, v) } }
    pub fn delta(&self, ls: &LocalSearch, u: Ptr, v: Ptr) -> (r: R)
        requires pair(ls, tours(ls), u, v), self.far() || customer(v, ls.n()),
        ensures r@ == (if self.fits(ls, tours(ls), u, v) { xch_gain(ls, tours(ls), self.xch(ls, tours(ls), u, v)) } else { 0real }),
            self.fits(ls, tours(ls), u, v) ==> xch_ok(tours(ls), self.xch(ls, tours(ls), u, v)),
    { proof { lem_pair(ls, tours(ls), u, v); } match self { AnyMove::RelocateSingle(m) => m.delta(ls, u, v), AnyMove::RelocateDouble(m) => m.delta(ls, u, v), AnyMove::RelocateDoubleReverse(m) => m.delta(ls, u, v), AnyMove::SwapOneWithOne(m) => m.delta(ls, u, v), AnyMove::SwapTwoWithOne(m) => m.delta(ls, u, v), AnyMove::SwapTwoWithTwo(m) => m.delta(ls, u, v), AnyMove::TwoOptIntraReverse(m) => m.delta(ls, u, v), AnyMove::TwoOptInterReverse(m) => m.delta(ls, u, v), AnyMove::TwoOptInter(m) => m.delta(ls, u, v) } }
    pub fn perform(&self, ls: &mut LocalSearch, u: Ptr, v: Ptr)
        requires pair(old(ls), tours(old(ls)), u, v), self.far() || customer(v, old(ls).n()), self.fits(old(ls), tours(old(ls)), u, v),
        ensures finished(*old(ls), *final(ls), exchanged(tours(old(ls)), self.xch(old(ls), tours(old(ls)), u, v)), self.xch(old(ls), tours(old(ls)), u, v).r1, self.xch(old(ls), tours(old(ls)), u, v).r2)
    { match self { AnyMove::RelocateSingle(m) => m.perform(ls, u, v), AnyMove::RelocateDouble(m) => m.perform(ls, u, v), AnyMove::RelocateDoubleReverse(m) => m.perform(ls, u, v), AnyMove::SwapOneWithOne(m) => m.perform(ls, u, v), AnyMove::SwapTwoWithOne(m) => m.perform(ls, u, v), AnyMove::SwapTwoWithTwo(m) => m.perform(ls, u, v), AnyMove::TwoOptIntraReverse(m) => m.perform(ls, u, v), AnyMove::TwoOptInterReverse(m) => m.perform(ls, u, v), AnyMove::TwoOptInter(m) => m.perform(ls, u, v) } }
}
pub proof fn lem_bumped_move(m: &AnyMove, h: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires h.live(u), h.live(v)
    ensures m.fits(&bumped(*h), t, u, v) == m.fits(h, t, u, v), m.xch(&bumped(*h), t, u, v) == m.xch(h, t, u, v)
{ let b = bumped(*h); assert(b.nd(u) == h.nd(u) && b.nd(v) == h.nd(v)); }
