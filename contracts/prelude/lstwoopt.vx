@raw
// ---- reversals and tail exchanges as exchanges of stretches
pub open spec fn flip_xch(h: &LocalSearch, u: Ptr, v: Ptr) -> Xch {
    let (r, i, j) = (rt(h, u), ps(h, u), ps(h, v));
    Xch { r1: r, a1: i + 1, b1: j + 1, r2: r, a2: j + 1, b2: j + 1, rev: true }
}
pub open spec fn flip_ok(h: &LocalSearch, u: Ptr, v: Ptr) -> bool { rt(h, u) == rt(h, v) && ps(h, u) + 1 < ps(h, v) }
// everything behind u changes places with everything up to v, backwards
pub open spec fn cross_xch(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr) -> Xch {
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    Xch { r1: r1, a1: i + 1, b1: t[r1].len() - 1, r2: r2, a2: 1, b2: j + 1, rev: true }
}
// everything behind u changes places with everything behind v
pub open spec fn tail_xch(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr) -> Xch {
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v));
    Xch { r1: r1, a1: i + 1, b1: t[r1].len() - 1, r2: r2, a2: j + 1, b2: t[r2].len() - 1, rev: false }
}
pub open spec fn inter_ok(h: &LocalSearch, u: Ptr, v: Ptr) -> bool { rt(h, u) != rt(h, v) }
pub proof fn lem_in_part(h: &LocalSearch, t: Tours, r: int, lo: int, hi: int, q: Ptr)
    requires repr(h, t), 0 <= r < t.len(), 0 <= lo, hi <= t[r].len()
    ensures in_part(t[r], lo, hi, q) == (on(h, t, q) && within(h, q, r, lo, hi))
{
    if in_part(t[r], lo, hi, q) { let i = choose|i: int| lo <= i < hi && t[r][i] == q; lem_pos(h, t, r, i); }
    if on(h, t, q) && within(h, q, r, lo, hi) { assert(t[r][ps(h, q)] == q); }
}
pub proof fn lem_back_run(h: &LocalSearch, t: Tours, r: int, k: int)
    requires repr(h, t), 0 <= r < t.len(), 0 < k < t[r].len() - 1
    ensures back_run(h, t[r], k)
{
    lem_route(h, t, r); lem_pos(h, t, r, 0);
    assert forall|i: int| 0 <= i <= k implies h.live(#[trigger] t[r][i]) && h.nd(t[r][i]).number == num(t[r][i]) by { lem_pos(h, t, r, i); }
    assert forall|i: int| 0 < i <= k implies customer(#[trigger] t[r][i], h.n()) && h.pred(t[r][i]) == t[r][i - 1] by { lem_pos(h, t, r, i); }
}
#[verifier::opaque]
pub open spec fn flip_links(a: &LocalSearch, b: &LocalSearch, s: Tour, i: int, j: int) -> bool {
    (forall|k: int| 0 <= k < s.len() ==> b.nd(#[trigger] s[k]).successor == (if k == i { s[j] } else if k == i + 1 { s[j + 1] } else if i < k <= j { s[k - 1] } else { a.nd(s[k]).successor }))
    && (forall|k: int| 0 <= k < s.len() ==> b.nd(#[trigger] s[k]).predecessor == (if k == j { s[i] } else if k == j + 1 { s[i + 1] } else if i < k < j { s[k + 1] } else { a.nd(s[k]).predecessor }))
}
#[verifier::spinoff_prover]
pub proof fn lem_flip_links(a: &LocalSearch, h1: &LocalSearch, h2: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), flip_ok(a, u, v), rev_back(a, h1, t[rt(a, u)], ps(a, u) + 1, ps(a, v), Ptr::Null),
        linked(*h1, *h2, u, v), linked(*h2, *b, t[rt(a, u)][ps(a, u) + 1], t[rt(a, u)][ps(a, v) + 1])
    ensures links_differ(a, b), same_but_nodes(*a, *b), b.routes@ == a.routes@,
        forall|q: Ptr| a.live(q) && !t[rt(a, u)].contains(q) ==> #[trigger] b.nd(q) == a.nd(q),
        flip_links(a, b, t[rt(a, u)], ps(a, u), ps(a, v)),
{
    lem_pair(a, t, u, v);
    let (r, i, j) = (rt(a, u), ps(a, u), ps(a, v)); let s = t[r];
    lem_pos(a, t, r, i + 1); lem_pos(a, t, r, j + 1);
    assert forall|q: Ptr| a.live(q) implies (#[trigger] b.nd(q)) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) }) by { assert(h1.nd(q) == (LinkNode { successor: h1.nd(q).successor, predecessor: h1.nd(q).predecessor, ..a.nd(q) })); assert(h2.live(q)); assert(h1.live(q)); }
    assert forall|q: Ptr| a.live(q) && !s.contains(q) implies #[trigger] b.nd(q) == a.nd(q) by {
        lem_in_part(a, t, r, i + 2, j + 1, q); lem_in_part(a, t, r, i + 1, j, q);
        assert(s.contains(s[i]) && s.contains(s[j]) && s.contains(s[i + 1]) && s.contains(s[j + 1]));
        if on(a, t, q) && rt(a, q) == r { assert(s.contains(q)); }
        reveal(rev_back_rest);
        assert(h1.nd(q).successor == a.nd(q).successor && h1.nd(q).predecessor == a.nd(q).predecessor);
        assert(h1.nd(q) == (LinkNode { successor: h1.nd(q).successor, predecessor: h1.nd(q).predecessor, ..a.nd(q) }));
    }
    assert forall|k: int| 0 <= k < s.len() implies b.nd(#[trigger] s[k]).successor == (if k == i { v } else if k == i + 1 { s[j + 1] } else if i < k <= j { s[k - 1] } else { a.nd(s[k]).successor })
        && b.nd(s[k]).predecessor == (if k == j { u } else if k == j + 1 { s[i + 1] } else if i < k < j { s[k + 1] } else { a.nd(s[k]).predecessor }) by {
        lem_pos(a, t, r, k);
        lem_in_part(a, t, r, i + 2, j + 1, s[k]); lem_in_part(a, t, r, i + 1, j, s[k]);
        assert(h1.live(s[k]) && h2.live(s[k]));
        reveal(rev_back_rest); reveal(rev_back_at);
        assert(i + 1 < k <= j ==> h1.nd(s[k]).successor == s[k - 1]);
        assert(i + 1 <= k < j ==> h1.nd(s[k]).predecessor == s[k + 1]);
        assert(!(i + 1 < k <= j) ==> h1.nd(s[k]).successor == a.nd(s[k]).successor);
        assert(!(i + 1 <= k < j) ==> h1.nd(s[k]).predecessor == a.nd(s[k]).predecessor);
    }
    reveal(flip_links);
}
pub proof fn lem_flip_pieces(a: &LocalSearch, b: &LocalSearch, s: Tour, i: int, j: int)
    requires flip_links(a, b, s, i, j), 0 <= i, i + 1 < j, j + 1 < s.len()
    ensures kept_in(a, b, s, 0, i + 1), kept_in(a, b, s, j + 1, s.len() as int), path(b, s.subrange(i + 1, j + 1).reverse()),
        joined(b, s[i], s[j]), joined(b, s[i + 1], s[j + 1]), b.pred(s[0]) == a.pred(s[0]), b.succ(s[s.len() - 1]) == (if s.len() == j + 1 { s[j - 1] } else { a.succ(s[s.len() - 1]) })
{
    reveal(flip_links);
    let g = s.subrange(i + 1, j + 1).reverse();
    assert forall|k: int| 0 <= k < g.len() - 1 implies b.succ(#[trigger] g[k]) == g[k + 1] && b.pred(g[k + 1]) == g[k] by { assert(g[k] == s[j - k] && g[k + 1] == s[j - k - 1]); }
}
pub proof fn lem_flip_ready(a: &LocalSearch, h1: &LocalSearch, h2: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), flip_ok(a, u, v), rev_back(a, h1, t[rt(a, u)], ps(a, u) + 1, ps(a, v), Ptr::Null),
        linked(*h1, *h2, u, v), linked(*h2, *b, t[rt(a, u)][ps(a, u) + 1], t[rt(a, u)][ps(a, v) + 1])
    ensures ready_for(*a, *b, t, flip_xch(a, u, v))
{
    lem_pair(a, t, u, v);
    lem_flip_links(a, h1, h2, b, t, u, v);
    let (r, i, j) = (rt(a, u), ps(a, u), ps(a, v)); let s = t[r]; let x = flip_xch(a, u, v); let l = s.len() - 1;
    assert(links_only(*a, *b, s, s)) by { lem_shape_linked(*a, *b); reveal(relinked); }
    lem_pos(a, t, r, 0); lem_pos(a, t, r, l); lem_pos(a, t, r, i); lem_pos(a, t, r, j); lem_pos(a, t, r, j + 1);
    lem_flip_pieces(a, b, s, i, j);
    let g = seg1(t, x);
    assert(g == s.subrange(i + 1, j + 1).reverse());
    assert(g.len() == j - i && g[0] == s[j] && g[g.len() - 1] == s[i + 1]);
    lem_ready_flip(*a, *b, t, x);
}
pub open spec fn symmetric(ctx: &Context, s: Tour) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> ctx.d(num(#[trigger] s[i]), num(#[trigger] s[j])) == ctx.d(num(s[j]), num(s[i])) }
pub proof fn lem_symmetric(h: &LocalSearch, t: Tours, r: int, lo: int, hi: int)
    requires repr(h, t), 0 <= r < t.len(), 0 <= lo <= hi <= t[r].len()
    ensures symmetric(&h.ctx, t[r].subrange(lo, hi))
{
    let s = t[r].subrange(lo, hi);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies h.ctx.d(num(#[trigger] s[i]), num(#[trigger] s[j])) == h.ctx.d(num(s[j]), num(s[i])) by { lem_pos(h, t, r, lo + i); lem_pos(h, t, r, lo + j); }
}
pub proof fn lem_rev_sums(h: &LocalSearch, t: Tours, r: int, lo: int, hi: int, f: bool)
    requires repr(h, t), 0 <= r < t.len(), 0 <= lo <= hi <= t[r].len()
    ensures tlen(&h.ctx, rv(t[r].subrange(lo, hi), f)) == tlen(&h.ctx, t[r].subrange(lo, hi)), tload(&h.ctx, rv(t[r].subrange(lo, hi), f)) == tload(&h.ctx, t[r].subrange(lo, hi))
{ lem_symmetric(h, t, r, lo, hi); lem_reverse(&h.ctx, t[r].subrange(lo, hi)); }
pub proof fn lem_flip_gain(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(h, t, u, v), flip_ok(h, u, v)
    ensures xch_ok(t, flip_xch(h, u, v)), ({
        let (r, i, j) = (rt(h, u), ps(h, u), ps(h, v)); let s = t[r]; let ctx = &h.ctx;
        xch_gain(h, t, flip_xch(h, u, v)) == ctx.d(num(u), num(v)) + ctx.d(num(s[i + 1]), num(s[j + 1])) - ctx.d(num(u), num(s[i + 1])) - ctx.d(num(v), num(s[j + 1])) })
{
    lem_pair(h, t, u, v);
    let (r, i, j) = (rt(h, u), ps(h, u), ps(h, v)); let s = t[r]; let ctx = &h.ctx; let x = flip_xch(h, u, v);
    let o = s.subrange(x.a1, x.b1); let g = seg1(t, x);
    lem_rev_sums(h, t, r, x.a1, x.b1, true);
    lem_flip_parts(s, x.a1, x.b1, g, seg2(t, x));
    assert(new1(t, x) == splice(s, x.a1, x.b1, g));
    lem_splice(ctx, s, x.a1, x.b1, g);
    lem_within(h, t, r, x.a1, x.b1, true); lem_within(h, t, r, x.a1, x.b1, false);
    assert(o[0] == s[i + 1] && o[o.len() - 1] == s[j]);
}
// ---- exchanging tails
pub proof fn lem_tail_len(h: &LocalSearch, t: Tours, r: int, k: int)
    requires repr(h, t), 0 <= r < t.len(), 0 < k < t[r].len()
    ensures ({ let s = t[r]; let l = s.len() - 1; let g = s.subrange(k, l); g.len() == l - k && (k < l ==> g[0] == s[k] && g[g.len() - 1] == s[l - 1] && tlen(&h.ctx, g) + h.ctx.d(num(s[l - 1]), num(s[l])) == tlen(&h.ctx, s) - plen(&h.ctx, s, k))
        && (k == l ==> tlen(&h.ctx, s) == plen(&h.ctx, s, k)) && tload(&h.ctx, g) == tload(&h.ctx, s) - pload(&h.ctx, s, k) && num(s[l]) == 0 })
{
    let s = t[r]; let l = s.len() - 1; let g = s.subrange(k, l); let ctx = &h.ctx; let e = s.subrange(l, l + 1);
    lem_pos(h, t, r, l);
    lem_cut(ctx, s, k);
    assert(s.subrange(k, l + 1) =~= g + e);
    lem_tload_cat(ctx, g, e);
    assert(e[0] == s[l]);
    lem_sums(ctx, e);
    if k < l { lem_tlen_cat(ctx, g, e); }
}
pub proof fn lem_head_len(h: &LocalSearch, t: Tours, r: int, k: int)
    requires repr(h, t), 0 <= r < t.len(), 0 < k < t[r].len()
    ensures ({ let s = t[r]; let g = s.subrange(1, k); g.len() == k - 1 && (1 < k ==> g[0] == s[1] && g[g.len() - 1] == s[k - 1] && h.ctx.d(num(s[0]), num(s[1])) + tlen(&h.ctx, g) == plen(&h.ctx, s, k - 1))
        && tload(&h.ctx, g) == pload(&h.ctx, s, k) && num(s[0]) == 0 })
{
    let s = t[r]; let g = s.subrange(1, k); let ctx = &h.ctx; let e = s.subrange(0, 1);
    lem_pos(h, t, r, 0);
    lem_cut(ctx, s, k);
    assert(s.subrange(0, k) =~= e + g);
    lem_tload_cat(ctx, e, g);
    assert(e[0] == s[0]);
    lem_sums(ctx, e);
    if 1 < k { lem_tlen_cat(ctx, e, g); }
}
pub proof fn lem_tail_gain(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(h, t, u, v), inter_ok(h, u, v)
    ensures xch_ok(t, tail_xch(h, t, u, v)), ({
        let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v)); let (t1, t2) = (t[r1], t[r2]); let ctx = &h.ctx; let x = tail_xch(h, t, u, v);
        tlen(ctx, new1(t, x)) == plen(ctx, t1, i) + tlen(ctx, t2) - plen(ctx, t2, j + 1) + ctx.d(num(u), num(t2[j + 1]))
        && tlen(ctx, new2(t, x)) == plen(ctx, t2, j) + tlen(ctx, t1) - plen(ctx, t1, i + 1) + ctx.d(num(v), num(t1[i + 1]))
        && tload(ctx, new1(t, x)) == pload(ctx, t1, i + 1) + tload(ctx, t2) - pload(ctx, t2, j + 1)
        && tload(ctx, new2(t, x)) == pload(ctx, t2, j + 1) + tload(ctx, t1) - pload(ctx, t1, i + 1) })
{
    lem_pair(h, t, u, v);
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v)); let (t1, t2) = (t[r1], t[r2]); let ctx = &h.ctx; let x = tail_xch(h, t, u, v);
    lem_tail_len(h, t, r1, i + 1); lem_tail_len(h, t, r2, j + 1);
    lem_xch_sums(h, t, x);
    assert(plen(ctx, t1, i + 1) == plen(ctx, t1, i) + ctx.d(num(t1[i]), num(t1[i + 1])));
    assert(plen(ctx, t2, j + 1) == plen(ctx, t2, j) + ctx.d(num(t2[j]), num(t2[j + 1])));
}
pub proof fn lem_cross_gain(h: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(h, t, u, v), inter_ok(h, u, v), customer(v, h.n())
    ensures xch_ok(t, cross_xch(h, t, u, v)), ({
        let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v)); let (t1, t2) = (t[r1], t[r2]); let ctx = &h.ctx; let x = cross_xch(h, t, u, v);
        tlen(ctx, new1(t, x)) == plen(ctx, t1, i) + plen(ctx, t2, j) + ctx.d(num(u), num(v))
        && tlen(ctx, new2(t, x)) == tlen(ctx, t1) - plen(ctx, t1, i + 1) + tlen(ctx, t2) - plen(ctx, t2, j + 1) + ctx.d(num(t1[i + 1]), num(t2[j + 1]))
        && tload(ctx, new1(t, x)) == pload(ctx, t1, i + 1) + pload(ctx, t2, j + 1)
        && tload(ctx, new2(t, x)) == tload(ctx, t1) - pload(ctx, t1, i + 1) + tload(ctx, t2) - pload(ctx, t2, j + 1) })
{
    lem_pair(h, t, u, v);
    let (r1, i, r2, j) = (rt(h, u), ps(h, u), rt(h, v), ps(h, v)); let (t1, t2) = (t[r1], t[r2]); let ctx = &h.ctx; let x = cross_xch(h, t, u, v);
    lem_tail_len(h, t, r1, i + 1); lem_head_len(h, t, r2, j + 1);
    lem_xch_sums(h, t, x);
    lem_rev_sums(h, t, r1, x.a1, x.b1, true); lem_rev_sums(h, t, r2, x.a2, x.b2, true);
    lem_within(h, t, r1, x.a1, x.b1, true); lem_within(h, t, r2, x.a2, x.b2, true);
    lem_pos(h, t, r1, i + 1); lem_pos(h, t, r2, j + 1); lem_pos(h, t, r2, 1); lem_pos(h, t, r1, t1.len() - 2); lem_pos(h, t, r1, t1.len() - 1); lem_pos(h, t, r2, 0);
    assert(plen(ctx, t1, i + 1) == plen(ctx, t1, i) + ctx.d(num(t1[i]), num(t1[i + 1])));
    assert(plen(ctx, t2, j + 1) == plen(ctx, t2, j) + ctx.d(num(t2[j]), num(t2[j + 1])));
    assert(h.ctx.d(num(t2[0]), num(t2[1])) == h.ctx.d(num(t2[1]), num(t2[0])));
    assert(h.ctx.d(num(t1[t1.len() - 2]), 0) == h.ctx.d(0, num(t1[t1.len() - 2])));
}
pub open spec fn tail_of(p: Ptr, s: Tour, k: int) -> Tour { seq![p] + s.subrange(k, s.len() as int) }
pub open spec fn end_run(h: &LocalSearch, s: Tour, e: Ptr) -> bool {
    s.len() >= 2 && distinct(s) && forall|i: int| 0 <= i < s.len() ==> h.live(#[trigger] s[i]) && h.succ(s[i]) == node_at(s, i + 1) && s[i] != Ptr::Null && s[i] != e
}
pub open spec fn runs_on(a: &LocalSearch, c: &LocalSearch, s: Tour, k: int) -> bool { forall|m: int| k <= m < s.len() ==> c.succ(#[trigger] s[m]) == a.succ(s[m]) }
pub proof fn lem_tail_at(p: Ptr, s: Tour, k: int, i: int)
    requires 0 < k < s.len(), 0 <= i
    ensures tail_of(p, s, k).len() == 1 + s.len() - k, i == 0 ==> tail_of(p, s, k)[0] == p, 0 < i < tail_of(p, s, k).len() ==> tail_of(p, s, k)[i] == s[k + i - 1], node_at(tail_of(p, s, k), i + 1) == node_at(s, k + i)
{ }
pub proof fn lem_end_at(a: &LocalSearch, c: &LocalSearch, t: Tours, p: Ptr, r: int, k: int, e: Ptr, i: int)
    requires repr(a, t), 0 <= r < t.len(), 0 < k < t[r].len(), on(a, t, p), rt(a, p) != r, on(a, t, e), rt(a, e) != r, e != p, same_but_nodes(*a, *c),
        c.succ(p) == t[r][k], runs_on(a, c, t[r], k), 0 <= i < tail_of(p, t[r], k).len()
    ensures ({ let s = tail_of(p, t[r], k); c.live(s[i]) && c.succ(s[i]) == node_at(s, i + 1) && s[i] != Ptr::Null && s[i] != e && (i > 0 ==> rt(a, s[i]) == r && ps(a, s[i]) == k + i - 1) && (i == 0 ==> s[i] == p) })
{
    let w = t[r];
    lem_tail_at(p, w, k, i);
    if i > 0 { lem_pos(a, t, r, k + i - 1); let z = w[k + i - 1]; assert(c.succ(w[k + i - 1]) == a.succ(w[k + i - 1])); }
}
pub proof fn lem_end_run(a: &LocalSearch, c: &LocalSearch, t: Tours, p: Ptr, r: int, k: int, e: Ptr)
    requires repr(a, t), 0 <= r < t.len(), 0 < k < t[r].len(), on(a, t, p), rt(a, p) != r, on(a, t, e), rt(a, e) != r, e != p, same_but_nodes(*a, *c),
        c.succ(p) == t[r][k], runs_on(a, c, t[r], k)
    ensures end_run(c, tail_of(p, t[r], k), e)
{
    let s = tail_of(p, t[r], k);
    lem_tail_at(p, t[r], k, 0);
    assert forall|i: int| 0 <= i < s.len() implies c.live(#[trigger] s[i]) && c.succ(s[i]) == node_at(s, i + 1) && s[i] != Ptr::Null && s[i] != e by { lem_end_at(a, c, t, p, r, k, e, i); }
    assert(distinct(s)) by { reveal(distinct); assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { lem_end_at(a, c, t, p, r, k, e, i); lem_end_at(a, c, t, p, r, k, e, j); } }
}
pub proof fn lem_tail_final(p: Ptr, s: Tour, k: int)
    requires 0 < k < s.len()
    ensures tail_of(p, s, k).len() == 1 + s.len() - k, tail_of(p, s, k)[0] == p, tail_of(p, s, k)[tail_of(p, s, k).len() - 2] == final_of(p, rv(s.subrange(k, s.len() - 1), false))
{ let g = tail_of(p, s, k); if k < s.len() - 1 { assert(g[g.len() - 2] == s[s.len() - 2]); } }
#[verifier::spinoff_prover]
pub proof fn lem_tail_ready(a: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v),
        ({ let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let x = tail_xch(a, t, u, v);
           relinks(a, b, u, t2[j + 1], v, t1[i + 1], final_of(v, seg1(t, x)), t2[t2.len() - 1], final_of(u, seg2(t, x)), t1[t1.len() - 1]) })
    ensures ready_for(*a, *b, t, tail_xch(a, t, u, v))
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let x = tail_xch(a, t, u, v);
    lem_within(a, t, r1, x.a1, x.b1, false); lem_within(a, t, r2, x.a2, x.b2, false);
    lem_pos(a, t, r1, i); lem_pos(a, t, r1, i + 1); lem_pos(a, t, r1, t1.len() - 1); lem_pos(a, t, r1, t1.len() - 2);
    lem_pos(a, t, r2, j); lem_pos(a, t, r2, j + 1); lem_pos(a, t, r2, t2.len() - 1); lem_pos(a, t, r2, t2.len() - 2);
    lem_only(a, b, t, x);
    lem_rewired(a, b, t, x);
}
// ---- exchanging head and tail, backwards
// h1: t2 up to v reversed in front of the end of r1; h2: u linked to v; h3: t1 behind u reversed behind the start of r2; b: x linked to y
pub open spec fn cross_stages(a: &LocalSearch, h1: &LocalSearch, h2: &LocalSearch, h3: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr) -> bool {
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1;
    &&& rev_back(a, h1, t2, 0, j, t1[l1]) && linked(*h1, *h2, u, v)
    &&& (i + 1 < l1 ==> rev_fwd(h2, h3, t1, i + 1, l1, t2[0]) && linked(*h3, *b, t1[i + 1], t2[j + 1]))
    &&& (i + 1 == l1 ==> h3 == h2 && linked(*h3, *b, t2[0], t2[j + 1]))
}
pub proof fn lem_cross_mid(a: &LocalSearch, h1: &LocalSearch, h2: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), customer(v, a.n()), rev_back(a, h1, t[rt(a, v)], 0, ps(a, v), t[rt(a, u)][t[rt(a, u)].len() - 1]), linked(*h1, *h2, u, v)
    ensures ps(a, u) + 1 < t[rt(a, u)].len() - 1 ==> fwd_run(h2, t[rt(a, u)], ps(a, u) + 1)
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]);
    assert forall|k: int| i + 1 <= k < t1.len() implies h2.live(#[trigger] t1[k]) && h2.nd(t1[k]).number == num(t1[k]) && h2.succ(t1[k]) == node_at(t1, k + 1) && t1[k] != Ptr::Null by {
        lem_pos(a, t, r1, k); lem_pos(a, t, r1, i);
        let q = t1[k];
        lem_in_part(a, t, r2, 1, j + 1, q);
        reveal(rev_back_rest);
        assert(h1.nd(q).successor == a.nd(q).successor);
        assert(h1.nd(q) == (LinkNode { successor: h1.nd(q).successor, predecessor: h1.nd(q).predecessor, ..a.nd(q) }));
        assert(h1.live(q));
    }
}
pub open spec fn cross_succ(a: &LocalSearch, t: Tours, u: Ptr, v: Ptr, q: Ptr) -> Ptr {
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1; let k = ps(a, q);
    if q == u { v } else if at_in(a, t, q, r2, 1, j + 1) { if k == 1 { t1[l1] } else { t2[k - 1] } } else if at_in(a, t, q, r1, i + 1, l1) { if k == i + 1 { t2[j + 1] } else { t1[k - 1] } }
    else if q == t2[0] { if i + 1 < l1 { t1[l1 - 1] } else { t2[j + 1] } } else { a.succ(q) }
}
pub open spec fn cross_pred(a: &LocalSearch, t: Tours, u: Ptr, v: Ptr, q: Ptr) -> Ptr {
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1; let k = ps(a, q);
    if q == v { u } else if at_in(a, t, q, r2, 1, j) { t2[k + 1] } else if q == t1[l1] { t2[1] } else if at_in(a, t, q, r1, i + 1, l1) { if k == l1 - 1 { t2[0] } else { t1[k + 1] } }
    else if q == t2[j + 1] { if i + 1 < l1 { t1[i + 1] } else { t2[0] } } else { a.pred(q) }
}
#[verifier::spinoff_prover]
pub proof fn lem_cross_succ(a: &LocalSearch, h1: &LocalSearch, h2: &LocalSearch, h3: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr, q: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), customer(v, a.n()), cross_stages(a, h1, h2, h3, b, t, u, v), a.live(q)
    ensures b.succ(q) == cross_succ(a, t, u, v, q), b.live(q), b.nd(q) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) })
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1;
    lem_pos(a, t, r1, i + 1); lem_pos(a, t, r1, l1); lem_pos(a, t, r2, 0); lem_pos(a, t, r2, 1); lem_pos(a, t, r2, j + 1);
    lem_in_part(a, t, r2, 1, j + 1, q); lem_in_part(a, t, r1, i + 2, l1, q);
    assert(h1.live(q) && h2.live(q) && h3.live(q));
    assert(h1.nd(q) == (LinkNode { successor: h1.nd(q).successor, predecessor: h1.nd(q).predecessor, ..a.nd(q) }));
    let k = ps(a, q);
    let s1 = if at_in(a, t, q, r2, 1, j + 1) { if k == 1 { t1[l1] } else { t2[k - 1] } } else { a.succ(q) };
    assert(h1.succ(q) == s1) by { reveal(rev_back_at); reveal(rev_back_rest); if at_in(a, t, q, r2, 1, j + 1) { assert(t2[k] == q); assert(h1.nd(t2[k]).successor == s1); } }
    if i + 1 < l1 {
        assert(h3.nd(q) == (LinkNode { successor: h3.nd(q).successor, predecessor: h3.nd(q).predecessor, ..h2.nd(q) }));
        let s3 = if at_in(a, t, q, r1, i + 2, l1) { t1[k - 1] } else if q == t2[0] { t1[l1 - 1] } else { h2.succ(q) };
        assert(h3.succ(q) == s3) by { reveal(rev_fwd_at); reveal(rev_fwd_rest); if at_in(a, t, q, r1, i + 2, l1) { assert(t1[k] == q); assert(h3.nd(t1[k]).successor == s3); } }
    }
}
#[verifier::spinoff_prover]
pub proof fn lem_cross_pred(a: &LocalSearch, h1: &LocalSearch, h2: &LocalSearch, h3: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr, q: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), customer(v, a.n()), cross_stages(a, h1, h2, h3, b, t, u, v), a.live(q)
    ensures b.pred(q) == cross_pred(a, t, u, v, q)
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1;
    lem_pos(a, t, r1, i + 1); lem_pos(a, t, r1, l1); lem_pos(a, t, r2, 0); lem_pos(a, t, r2, 1); lem_pos(a, t, r2, j + 1);
    lem_in_part(a, t, r2, 1, j, q); lem_in_part(a, t, r1, i + 1, l1, q);
    assert(h1.live(q) && h2.live(q) && h3.live(q));
    let k = ps(a, q);
    let s1 = if at_in(a, t, q, r2, 1, j) { t2[k + 1] } else if q == t1[l1] { t2[1] } else { a.pred(q) };
    assert(h1.pred(q) == s1) by { reveal(rev_back_at); reveal(rev_back_rest); if at_in(a, t, q, r2, 1, j) { assert(t2[k] == q); assert(h1.nd(t2[k]).predecessor == s1); } }
    if i + 1 < l1 {
        let s3 = if at_in(a, t, q, r1, i + 1, l1) { if k == l1 - 1 { t2[0] } else { t1[k + 1] } } else { h2.pred(q) };
        assert(h3.pred(q) == s3) by { reveal(rev_fwd_at); reveal(rev_fwd_rest); if at_in(a, t, q, r1, i + 1, l1) { assert(t1[k] == q); assert(h3.nd(t1[k]).predecessor == s3); } }
    }
}
pub open spec fn crossed(a: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr) -> bool {
    same_but_nodes(*a, *b) && b.routes@ == a.routes@ && links_differ(a, b) && forall|q: Ptr| a.live(q) ==> (#[trigger] b.nd(q)).successor == cross_succ(a, t, u, v, q) && b.nd(q).predecessor == cross_pred(a, t, u, v, q)
}
pub proof fn lem_cross_stages(a: &LocalSearch, h1: &LocalSearch, h2: &LocalSearch, h3: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), customer(v, a.n()), cross_stages(a, h1, h2, h3, b, t, u, v)
    ensures crossed(a, b, t, u, v)
{
    lem_pair(a, t, u, v);
    assert forall|q: Ptr| a.live(q) implies (#[trigger] b.nd(q)).successor == cross_succ(a, t, u, v, q) && b.nd(q).predecessor == cross_pred(a, t, u, v, q)
        && b.nd(q) == (LinkNode { successor: b.nd(q).successor, predecessor: b.nd(q).predecessor, ..a.nd(q) }) by {
        lem_cross_succ(a, h1, h2, h3, b, t, u, v, q); lem_cross_pred(a, h1, h2, h3, b, t, u, v, q);
    }
}
// the reversed stretches are linked inside
#[verifier::spinoff_prover]
pub proof fn lem_cross_path(a: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), customer(v, a.n()), crossed(a, b, t, u, v)
    ensures path(b, seg1(t, cross_xch(a, t, u, v))), path(b, seg2(t, cross_xch(a, t, u, v)))
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1; let x = cross_xch(a, t, u, v);
    let (g1, g2) = (seg1(t, x), seg2(t, x));
    lem_pos(a, t, r1, l1);
    assert forall|k: int| 0 <= k < g1.len() - 1 implies b.succ(#[trigger] g1[k]) == g1[k + 1] && b.pred(g1[k + 1]) == g1[k] by {
        let m = l1 - 1 - k;
        assert(g1[k] == t1[m] && g1[k + 1] == t1[m - 1]);
        lem_pos(a, t, r1, m); lem_pos(a, t, r1, m - 1);
    }
    assert forall|k: int| 0 <= k < g2.len() - 1 implies b.succ(#[trigger] g2[k]) == g2[k + 1] && b.pred(g2[k + 1]) == g2[k] by {
        let m = j - k;
        assert(g2[k] == t2[m] && g2[k + 1] == t2[m - 1]);
        lem_pos(a, t, r2, m); lem_pos(a, t, r2, m - 1);
    }
}
pub proof fn lem_cross_only(a: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr, q: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), customer(v, a.n()), crossed(a, b, t, u, v), a.live(q),
        !seg1(t, cross_xch(a, t, u, v)).contains(q), !seg2(t, cross_xch(a, t, u, v)).contains(q)
    ensures q != u && q != t[rt(a, v)][0] ==> b.succ(q) == a.succ(q), q != t[rt(a, u)][t[rt(a, u)].len() - 1] && q != t[rt(a, v)][ps(a, v) + 1] ==> b.pred(q) == a.pred(q)
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1; let x = cross_xch(a, t, u, v);
    lem_in_rv(t1.subrange(x.a1, x.b1), true, q); lem_in_rv(t2.subrange(x.a2, x.b2), true, q);
    let k = ps(a, q);
    if at_in(a, t, q, r2, 1, j + 1) { assert(t2.subrange(x.a2, x.b2)[k - 1] == q); }
    if at_in(a, t, q, r1, i + 1, l1) { assert(t1.subrange(x.a1, x.b1)[k - i - 1] == q); }
}
pub proof fn lem_cross_ready(a: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), customer(v, a.n()), crossed(a, b, t, u, v)
    ensures ready_for(*a, *b, t, cross_xch(a, t, u, v))
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let l1 = t1.len() - 1; let x = cross_xch(a, t, u, v);
    lem_cross_path(a, b, t, u, v);
    lem_pos(a, t, r1, i + 1); lem_pos(a, t, r1, l1); lem_pos(a, t, r1, l1 - 1); lem_pos(a, t, r2, 0); lem_pos(a, t, r2, 1); lem_pos(a, t, r2, j + 1);
    lem_within(a, t, r1, x.a1, x.b1, true); lem_within(a, t, r2, x.a2, x.b2, true);
    assert(only_succ(a, b, t, x) && only_pred(a, b, t, x)) by {
        reveal(only_succ); reveal(only_pred);
        assert forall|q: Ptr| a.live(q) && !seg1(t, x).contains(q) && !seg2(t, x).contains(q) implies (q != u && q != t2[0] ==> (#[trigger] b.nd(q)).successor == a.nd(q).successor) && (q != t1[l1] && q != t2[j + 1] ==> b.nd(q).predecessor == a.nd(q).predecessor) by { lem_cross_only(a, b, t, u, v, q); }
    }
    assert(joined(b, u, v)); assert(joined(b, t2[1], t1[l1]));
    assert(i + 1 < l1 ==> joined(b, t2[0], t1[l1 - 1]) && joined(b, t1[i + 1], t2[j + 1]));
    assert(i + 1 == l1 ==> joined(b, t2[0], t2[j + 1]));
    lem_rewired(a, b, t, x);
}
pub proof fn lem_offs(h: &LocalSearch, t: Tours, r1: int, r2: int)
    requires repr(h, t), 0 <= r1 < t.len(), 0 <= r2 < t.len(), r1 != r2
    ensures off_part(t[r2], t[r2].len() - 1, t[r1][t[r1].len() - 1]), off_from(t[r1], 0, t[r2][0]), h.live(t[r1][t[r1].len() - 1]), h.live(t[r2][0])
{
    lem_route(h, t, r1); lem_route(h, t, r2);
    lem_pos(h, t, r1, t[r1].len() - 1); lem_pos(h, t, r2, 0);
    assert forall|i: int| 0 <= i < t[r2].len() implies #[trigger] t[r2][i] != t[r1][t[r1].len() - 1] by { lem_pos(h, t, r2, i); }
    assert forall|i: int| 0 <= i < t[r1].len() implies #[trigger] t[r1][i] != t[r2][0] by { lem_pos(h, t, r1, i); }
}
pub open spec fn before(h: &LocalSearch, t: Tours, q: Ptr, r: int, k: int) -> bool { on(h, t, q) && (rt(h, q) != r || ps(h, q) < k) }
pub proof fn lem_runs_on(a: &LocalSearch, c: &LocalSearch, t: Tours, r: int, k: int, p1: Ptr, p2: Ptr, p3: Ptr)
    requires repr(a, t), 0 <= r < t.len(), 0 <= k, before(a, t, p1, r, k), before(a, t, p2, r, k), before(a, t, p3, r, k),
        forall|q: Ptr| a.live(q) && q != p1 && q != p2 && q != p3 ==> (#[trigger] c.nd(q)).successor == a.nd(q).successor
    ensures runs_on(a, c, t[r], k)
{
    assert forall|m: int| k <= m < t[r].len() implies c.succ(#[trigger] t[r][m]) == a.succ(t[r][m]) by { lem_pos(a, t, r, m); let q = t[r][m]; assert(c.nd(q).successor == a.nd(q).successor); }
}
// the stages of the exchange of tails: k1 = u linked to y, k2 = v linked to x, k3 = the end depot of r2 behind r1's old tail, b = the other one
pub open spec fn tail_end(h: &LocalSearch, t: Tours, r: int) -> Ptr { t[r][t[r].len() - 1] }
#[verifier::spinoff_prover]
pub proof fn lem_tail_one(a: &LocalSearch, k1: &LocalSearch, k2: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), linked(*a, *k1, u, t[rt(a, v)][ps(a, v) + 1]), linked(*k1, *k2, v, t[rt(a, u)][ps(a, u) + 1])
    ensures end_run(k2, tail_of(v, t[rt(a, u)], ps(a, u) + 1), tail_end(a, t, rt(a, v))), k2.live(tail_end(a, t, rt(a, v))), tail_of(v, t[rt(a, u)], ps(a, u) + 1)[0] == v
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v));
    lem_route(a, t, r2); lem_pos(a, t, r2, t[r2].len() - 1);
    lem_runs_on(a, k2, t, r1, i + 1, u, v, u);
    lem_end_run(a, k2, t, v, r1, i + 1, tail_end(a, t, r2));
    lem_tail_final(v, t[r1], i + 1);
}
#[verifier::spinoff_prover]
pub proof fn lem_tail_two(a: &LocalSearch, k1: &LocalSearch, k2: &LocalSearch, k3: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), linked(*a, *k1, u, t[rt(a, v)][ps(a, v) + 1]), linked(*k1, *k2, v, t[rt(a, u)][ps(a, u) + 1]),
        ({ let s = tail_of(v, t[rt(a, u)], ps(a, u) + 1); linked(*k2, *k3, s[s.len() - 2], tail_end(a, t, rt(a, v))) })
    ensures end_run(k3, tail_of(u, t[rt(a, v)], ps(a, v) + 1), tail_end(a, t, rt(a, u))), k3.live(tail_end(a, t, rt(a, u))), tail_of(u, t[rt(a, v)], ps(a, v) + 1)[0] == u
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let x = tail_xch(a, t, u, v);
    lem_route(a, t, r1); lem_pos(a, t, r1, t[r1].len() - 1);
    lem_tail_final(v, t[r1], i + 1);
    lem_within(a, t, r1, x.a1, x.b1, false);
    let f = final_of(v, seg1(t, x));
    lem_pos(a, t, r1, t[r1].len() - 2);
    lem_runs_on(a, k3, t, r2, j + 1, u, v, f);
    assert(k1.succ(u) == t[r2][j + 1]);
    lem_end_run(a, k3, t, u, r2, j + 1, tail_end(a, t, r1));
    lem_tail_final(u, t[r2], j + 1);
}
#[verifier::spinoff_prover]
pub proof fn lem_tail_three(a: &LocalSearch, k1: &LocalSearch, k2: &LocalSearch, k3: &LocalSearch, b: &LocalSearch, t: Tours, u: Ptr, v: Ptr)
    requires pair(a, t, u, v), inter_ok(a, u, v), linked(*a, *k1, u, t[rt(a, v)][ps(a, v) + 1]), linked(*k1, *k2, v, t[rt(a, u)][ps(a, u) + 1]),
        ({ let s = tail_of(v, t[rt(a, u)], ps(a, u) + 1); linked(*k2, *k3, s[s.len() - 2], tail_end(a, t, rt(a, v))) }),
        ({ let s = tail_of(u, t[rt(a, v)], ps(a, v) + 1); linked(*k3, *b, s[s.len() - 2], tail_end(a, t, rt(a, u))) }),
    ensures ready_for(*a, *b, t, tail_xch(a, t, u, v))
{
    lem_pair(a, t, u, v);
    let (r1, i, r2, j) = (rt(a, u), ps(a, u), rt(a, v), ps(a, v)); let (t1, t2) = (t[r1], t[r2]); let x = tail_xch(a, t, u, v);
    lem_tail_final(v, t1, i + 1); lem_tail_final(u, t2, j + 1);
    let (f1, f2) = (final_of(v, seg1(t, x)), final_of(u, seg2(t, x)));
    let (e1, e2) = (tail_end(a, t, r1), tail_end(a, t, r2));
    let (y1, y2) = (t1[i + 1], t2[j + 1]);
    assert forall|q: Ptr| a.live(q) implies (#[trigger] b.nd(q)) == (LinkNode { successor: set4(q, u, y2, v, y1, f1, e2, f2, e1, a.nd(q).successor), predecessor: set4(q, y2, u, y1, v, e2, f1, e1, f2, a.nd(q).predecessor), ..a.nd(q) }) by {
        assert(k1.live(q) && k2.live(q) && k3.live(q));
        let n1 = k1.nd(q); let n2 = k2.nd(q); let n3 = k3.nd(q);
    }
    lem_tail_ready(a, b, t, u, v);
}
