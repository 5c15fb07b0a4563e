@raw
// ---- cutting and joining tours
pub proof fn lem_plen_same(ctx: &Context, s: Tour, t: Tour, k: int)
    requires k < s.len(), k < t.len(), forall|i: int| 0 <= i <= k ==> s[i] == t[i]
    ensures plen(ctx, s, k) == plen(ctx, t, k)
    decreases k
{ if k > 0 { lem_plen_same(ctx, s, t, k - 1); } }
pub proof fn lem_pload_same(ctx: &Context, s: Tour, t: Tour, k: int)
    requires k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures pload(ctx, s, k) == pload(ctx, t, k)
    decreases k
{ if k > 0 { lem_pload_same(ctx, s, t, k - 1); } }
pub proof fn lem_plen_tail(ctx: &Context, a: Tour, b: Tour, k: int)
    requires a.len() > 0, 0 <= k < b.len()
    ensures plen(ctx, a + b, a.len() + k) == tlen(ctx, a) + ctx.d(num(a[a.len() - 1]), num(b[0])) + plen(ctx, b, k)
    decreases k
{
    let s = a + b;
    if k > 0 { lem_plen_tail(ctx, a, b, k - 1); assert(s[a.len() + k - 1] == b[k - 1] && s[a.len() + k] == b[k]); }
    else { lem_plen_same(ctx, s, a, a.len() - 1); assert(s[a.len() as int] == b[0] && s[a.len() - 1] == a[a.len() - 1]); }
}
pub proof fn lem_tlen_cat(ctx: &Context, a: Tour, b: Tour)
    requires a.len() > 0, b.len() > 0
    ensures tlen(ctx, a + b) == tlen(ctx, a) + ctx.d(num(a[a.len() - 1]), num(b[0])) + tlen(ctx, b)
{ lem_plen_tail(ctx, a, b, b.len() - 1); }
pub proof fn lem_pload_tail(ctx: &Context, a: Tour, b: Tour, k: int)
    requires 0 <= k <= b.len()
    ensures pload(ctx, a + b, a.len() + k) == tload(ctx, a) + pload(ctx, b, k)
    decreases k
{
    let s = a + b;
    if k > 0 { lem_pload_tail(ctx, a, b, k - 1); assert(s[a.len() + k - 1] == b[k - 1]); }
    else { lem_pload_same(ctx, s, a, a.len() as int); }
}
pub proof fn lem_tload_cat(ctx: &Context, a: Tour, b: Tour)
    ensures tload(ctx, a + b) == tload(ctx, a) + tload(ctx, b)
{ lem_pload_tail(ctx, a, b, b.len() as int); }
// the parts of a tour before and from position k
pub proof fn lem_cut(ctx: &Context, s: Tour, k: int)
    requires 0 <= k <= s.len()
    ensures s == s.subrange(0, k) + s.subrange(k, s.len() as int),
        tload(ctx, s) == tload(ctx, s.subrange(0, k)) + tload(ctx, s.subrange(k, s.len() as int)),
        tload(ctx, s.subrange(0, k)) == pload(ctx, s, k),
        k > 0 ==> tlen(ctx, s.subrange(0, k)) == plen(ctx, s, k - 1),
        0 < k < s.len() ==> tlen(ctx, s) == tlen(ctx, s.subrange(0, k)) + ctx.d(num(s[k - 1]), num(s[k])) + tlen(ctx, s.subrange(k, s.len() as int)),
        k < s.len() ==> tlen(ctx, s.subrange(k, s.len() as int)) == tlen(ctx, s) - plen(ctx, s, k),
{
    let a = s.subrange(0, k); let b = s.subrange(k, s.len() as int);
    assert(s =~= a + b);
    lem_tload_cat(ctx, a, b);
    lem_pload_same(ctx, a, s, k);
    if k > 0 { lem_plen_same(ctx, a, s, k - 1); }
    if 0 < k < s.len() { lem_tlen_cat(ctx, a, b); assert(plen(ctx, s, k) == plen(ctx, s, k - 1) + ctx.d(num(s[k - 1]), num(s[k]))); }
    if k == 0 { assert(b =~= s); }
}
pub open spec fn splice(t: Tour, a: int, b: int, g: Tour) -> Tour { t.subrange(0, a) + g + t.subrange(b, t.len() as int) }
// the way from p through g to q
pub open spec fn hop(ctx: &Context, p: Ptr, g: Tour, q: Ptr) -> real {
    if g.len() == 0 { ctx.d(num(p), num(q)) } else { ctx.d(num(p), num(g[0])) + tlen(ctx, g) + ctx.d(num(g[g.len() - 1]), num(q)) }
}
pub proof fn lem_hop(ctx: &Context, a: Tour, g: Tour, c: Tour)
    requires a.len() > 0, c.len() > 0
    ensures tlen(ctx, a + g + c) == tlen(ctx, a) + hop(ctx, a[a.len() - 1], g, c[0]) + tlen(ctx, c)
{
    if g.len() == 0 { assert(a + g =~= a); lem_tlen_cat(ctx, a, c); }
    else { lem_tlen_cat(ctx, a, g); lem_tlen_cat(ctx, a + g, c); assert((a + g)[(a + g).len() - 1] == g[g.len() - 1]); }
}
pub proof fn lem_splice(ctx: &Context, t: Tour, a: int, b: int, g: Tour)
    requires 0 < a <= b < t.len()
    ensures tlen(ctx, splice(t, a, b, g)) == tlen(ctx, t) - hop(ctx, t[a - 1], t.subrange(a, b), t[b]) + hop(ctx, t[a - 1], g, t[b]),
        tload(ctx, splice(t, a, b, g)) == tload(ctx, t) - tload(ctx, t.subrange(a, b)) + tload(ctx, g),
{
    let x = t.subrange(0, a); let y = t.subrange(a, b); let z = t.subrange(b, t.len() as int);
    assert(t =~= x + y + z);
    lem_hop(ctx, x, y, z); lem_hop(ctx, x, g, z);
    lem_tload_cat(ctx, x, y); lem_tload_cat(ctx, x + y, z); lem_tload_cat(ctx, x, g); lem_tload_cat(ctx, x + g, z);
}
pub proof fn lem_reverse(ctx: &Context, s: Tour)
    requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> ctx.d(num(#[trigger] s[i]), num(#[trigger] s[j])) == ctx.d(num(s[j]), num(s[i]))
    ensures tlen(ctx, s.reverse()) == tlen(ctx, s), tload(ctx, s.reverse()) == tload(ctx, s)
    decreases s.len()
{
    if s.len() == 0 { assert(s.reverse() =~= s); }
    else {
        let k = s.len() - 1; let a = s.subrange(0, k); let b = s.subrange(k, s.len() as int);
        assert(s =~= a + b);
        assert(s.reverse() =~= b + a.reverse());
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() implies ctx.d(num(#[trigger] a[i]), num(#[trigger] a[j])) == ctx.d(num(a[j]), num(a[i])) by { assert(a[i] == s[i] && a[j] == s[j]); }
        lem_reverse(ctx, a);
        lem_tload_cat(ctx, a, b); lem_tload_cat(ctx, b, a.reverse());
        if a.len() > 0 { lem_tlen_cat(ctx, a, b); lem_tlen_cat(ctx, b, a.reverse()); assert(a.reverse()[0] == a[a.len() - 1]); assert(s[k] == b[0] && s[k - 1] == a[k - 1]); }
        else { assert(b + a.reverse() =~= b); assert(a + b =~= b); }
    }
}
pub proof fn lem_short(ctx: &Context, t: Tour, a: int, b: int)
    requires 0 <= a <= b <= t.len(), b - a <= 2
    ensures t.subrange(a, b).len() == b - a,
        b - a == 0 ==> tload(ctx, t.subrange(a, b)) == 0real,
        b - a == 1 ==> tload(ctx, t.subrange(a, b)) == ctx.demand(num(t[a])) && tlen(ctx, t.subrange(a, b)) == 0real,
        b - a == 2 ==> tload(ctx, t.subrange(a, b)) == ctx.demand(num(t[a])) + ctx.demand(num(t[a + 1])) && tlen(ctx, t.subrange(a, b)) == ctx.d(num(t[a]), num(t[a + 1])),
{
    let s = t.subrange(a, b);
    reveal_with_fuel(pload, 3); reveal_with_fuel(plen, 3);
}
// ---- how often a node occurs
pub open spec fn cnt(s: Tour, q: Ptr) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { cnt(s.drop_last(), q) + if s.last() == q { 1int } else { 0int } } }
pub proof fn lem_cnt_cat(a: Tour, b: Tour, q: Ptr)
    ensures cnt(a + b, q) == cnt(a, q) + cnt(b, q)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lem_cnt_cat(a, b.drop_last(), q); assert((a + b).last() == b.last()); }
}
pub proof fn lem_cnt_reverse(s: Tour, q: Ptr)
    ensures cnt(s.reverse(), q) == cnt(s, q)
    decreases s.len()
{
    if s.len() == 0 { assert(s.reverse() =~= s); }
    else {
        let b = seq![s.last()];
        assert(s.reverse() =~= b + s.drop_last().reverse());
        lem_cnt_cat(b, s.drop_last().reverse(), q); lem_cnt_reverse(s.drop_last(), q);
        assert(b.drop_last() =~= Seq::<Ptr>::empty()); assert(cnt(b.drop_last(), q) == 0);
    }
}
pub proof fn lem_cnt(s: Tour, q: Ptr)
    ensures cnt(s, q) >= 0, (cnt(s, q) > 0) == s.contains(q),
    decreases s.len()
{
    if s.len() > 0 {
        lem_cnt(s.drop_last(), q);
        if s.contains(q) { let i = choose|i: int| 0 <= i < s.len() && s[i] == q; if i < s.len() - 1 { assert(s.drop_last()[i] == q); } }
        if s.drop_last().contains(q) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == q; assert(s[i] == q); }
        if s.last() == q { assert(s[s.len() - 1] == q); }
    }
}
pub proof fn lem_cnt_distinct(s: Tour, q: Ptr)
    requires distinct(s)
    ensures cnt(s, q) <= 1
    decreases s.len()
{
    if s.len() > 0 {
        let a = s.drop_last();
        reveal(distinct);
        assert(distinct(a)) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(a[i] == s[i] && a[j] == s[j]); } }
        lem_cnt_distinct(a, q); lem_cnt(a, q);
        if s.last() == q && a.contains(q) { let i = choose|i: int| 0 <= i < a.len() && a[i] == q; assert(s[i] == s[s.len() - 1]); }
    }
}
pub proof fn lem_cnt_at(s: Tour, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == s[j]
    ensures cnt(s, s[i]) >= 2
{
    let a = s.subrange(0, j); let b = s.subrange(j, s.len() as int);
    assert(s =~= a + b);
    lem_cnt_cat(a, b, s[i]); lem_cnt(a, s[i]); lem_cnt(b, s[i]);
    assert(a[i] == s[i]); assert(b[0] == s[j]);
}
pub proof fn lem_distinct_from_cnt(s: Tour)
    requires forall|q: Ptr| #[trigger] cnt(s, q) <= 1
    ensures distinct(s)
{
    reveal(distinct);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if s[i] == s[j] { if i < j { lem_cnt_at(s, i, j); } else { lem_cnt_at(s, j, i); } assert(cnt(s, s[i]) <= 1); }
    }
}
pub proof fn lem_cnt_cut(t: Tour, a: int, b: int, g: Tour, q: Ptr)
    requires 0 <= a <= b <= t.len()
    ensures cnt(splice(t, a, b, g), q) == cnt(t, q) - cnt(t.subrange(a, b), q) + cnt(g, q)
{
    let x = t.subrange(0, a); let y = t.subrange(a, b); let z = t.subrange(b, t.len() as int);
    assert(t =~= x + y + z);
    lem_cnt_cat(x, y, q); lem_cnt_cat(x + y, z, q); lem_cnt_cat(x, g, q); lem_cnt_cat(x + g, z, q);
}
