// What an update of the values below a network goes through.

#[verifier::opaque]
pub open spec fn plan4(m: M32, root: Ref, k: u32, n: int, s: Seq<Ref>, q: Seq<It>) -> bool {
    wf32(m, root) && s.len() > 0 && isub32(m, root, k, n, s[0]) && s == leaves32(tree32(m, s[0])) && q == all4(m, s.drop_first()) && under4(m, root, k, n, q)
}
pub proof fn l_plan4(m: M32, root: Ref, k: u32, n: int, r: Ref)
    requires wf32(m, root), isub32(m, root, k, n, r),
    ensures ({
        let s = leaves32(tree32(m, r));
        let q = all4(m, s.drop_first());
        plan4(m, root, k, n, s, q) && s.len() > 0 && s[0] == r && q.len() == s.len() - 1 && distinct(q)
    }),
{
    reveal(plan4);
    l_under32(m, root, k, n, r);
    l_under4(m, root, k, n, r);
    l_distinct4(m, all4(m, leaves32(tree32(m, r)).drop_first()));
}
pub proof fn l_plan4_at(m: M32, root: Ref, k: u32, n: int, s: Seq<Ref>, q: Seq<It>, i: int)
    requires plan4(m, root, k, n, s, q), 0 <= i < q.len(),
    ensures q.len() == s.len() - 1, q[i] == it4(m, s[i + 1]), q[i].r == s[i + 1], s[i + 1] != NIL, m.contains_key(s[i + 1]), 0 <= m[s[i + 1]].Bits <= 32,
{
    reveal(plan4);
    l_leaves_ok32(m, s[0]);
}
pub proof fn l_plan4_end(hn: MN, m0: M32, m1: M32, root: Ref, k: u32, n: int, s: Seq<Ref>, q: Seq<It>, l0: Seq<(iptree_Pair, Iface, bool)>, l1: Seq<(iptree_Pair, Iface, bool)>)
    requires plan4(m0, root, k, n, s, q), prog32(hn, m0, m1, q, s.len() - 1, l0, l1),
    ensures desc4(m0, m1, root, k, n, hn, l0, l1), wf32(m1, root),
{
    reveal(plan4);
    assert(q.len() == s.len() - 1);
    l_prog_end32(hn, m0, m1, q, l0, l1);
    let lg = l1.skip(l0.len() as int);
    let d = s.drop_first();
    l_under32(m0, root, k, n, s[0]);
    assert(refs(q) =~= d);
    l_chg4(m0, m1, root, d, lg);
}

#[verifier::opaque]
pub open spec fn plan6(m: M64, root: Ref, q: Seq<It>) -> bool { ok6(m, root) && among6(m, root, q) && distinct(q) }
pub proof fn l_plan6_end(hn: MN, m0: M64, m1: M64, root: Ref, q: Seq<It>, l0: Seq<(iptree_Pair, Iface, bool)>, l1: Seq<(iptree_Pair, Iface, bool)>)
    requires plan6(m0, root, q), prog64(hn, m0, m1, q, q.len() as int, l0, l1),
    ensures ok6(m1, root), forall|k: K6| #[trigger] under6(m0, root, k, q) ==> desc6(m0, m1, root, k, hn, l0, l1),
{
    reveal(plan6);
    l_prog_end64(hn, m0, m1, q, l0, l1);
    let lg = l1.skip(l0.len() as int);
    l_chg6(m0, m1, root, q, lg);
    assert forall|k: K6| #[trigger] under6(m0, root, k, q) implies desc6(m0, m1, root, k, hn, l0, l1) by {
        assert(chg6(m0, m1, root, q, lg));
    }
}

// inside one 64-bit prefix: from the subtree r, without r itself when it is stored
pub open spec fn lof(m: M64, r: Ref) -> int { if m[r].Leaf { 1 } else { 0 } }
#[verifier::opaque]
pub open spec fn plan_lo(m: M64, root: Ref, k: K6, r: Ref, s: Seq<Ref>, q: Seq<It>) -> bool {
    &&& plan6(m, root, q) && get64(m, root, k.hi, 64) is Some && (get6(m, root, k) is Some ==> under6(m, root, k, q))
    &&& s == leaves64(tree64(m, r)) && wf64(m, r) && r != NIL && q == lows(m, k.hi, s.skip(lof(m, r))) && lof(m, r) <= s.len()
}
pub proof fn l_plan_lo(m: M64, root: Ref, k: K6, r: Ref)
    requires
        ok6(m, root), 64 <= k.n <= 128, get64(m, root, k.hi, 64) is Some,
        isub64(m, subat(m, root, k.hi), k.lo, k.n - 64, r) || r == subat(m, root, k.hi) && !m[r].Leaf && m[r].Bits == k.n - 64,
    ensures ({
        let s = leaves64(tree64(m, r));
        let q = lows(m, k.hi, s.skip(lof(m, r)));
        &&& plan_lo(m, root, k, r, s, q) && plan6(m, root, q) && distinct(q)
        &&& q.len() == s.len() - lof(m, r)
        &&& m[r].Leaf ==> s[0] == r
    }),
{
    reveal(plan_lo);
    reveal(plan6);
    let u = subat(m, root, k.hi);
    let s = leaves64(tree64(m, r));
    let q = lows(m, k.hi, s.skip(lof(m, r)));
    l_lvl6(m, root, k.hi, 64);
    l_agree_refl64(k.hi, 64);
    if m[r].Leaf {
        l_under6_lo(m, root, k, r);
        l_under64(m, u, k.lo, k.n - 64, r);
        assert(s.skip(1) =~= s.drop_first());
    } else {
        assert(s.skip(0) =~= s);
        l_leaves_ok64(m, r);
        l_open64(m, r);
        l_find_side64(tree64(m, r), k.lo, k.n - 64);
        assert(get6(m, root, k) is None);
        assert forall|i: int| 0 <= i < q.len() implies all6(m, leaves64(tree64(m, root))).contains(#[trigger] q[i]) by {
            assert(m.contains_key(s[i]));
            assert(leaves64(tree64(m, u)).contains(s[i]));
            l_agree_refl64(m[s[i]].Key, m[s[i]].Bits as int);
            let it = l_it_of(m, root, itk(q[i]), s[i]);
            l_agree_full(it.hi, k.hi);
        }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies it_below(#[trigger] q[i], #[trigger] q[j]) by {
            assert(below64(m[s[i]].Key, m[s[i]].Bits as int, m[s[j]].Key, m[s[j]].Bits as int));
        }
        l_distinct6(m, root, q);
    }
}
pub proof fn l_plan_lo_at(m: M64, root: Ref, k: K6, r: Ref, s: Seq<Ref>, q: Seq<It>, i: int)
    requires plan_lo(m, root, k, r, s, q), lof(m, r) <= i < s.len(),
    ensures q.len() == s.len() - lof(m, r), q[i - lof(m, r)] == itl(m, k.hi, s[i]), q[i - lof(m, r)].r == s[i], s[i] != NIL, m.contains_key(s[i]), 0 <= m[s[i]].Bits <= 64,
{
    reveal(plan_lo);
    l_leaves_ok64(m, r);
}

// across 64-bit prefixes
pub open spec fn base6(m: M64, s: Seq<Ref>, p: int) -> int { all6(m, s.skip(1).take(p)).len() as int }
#[verifier::opaque]
pub open spec fn plan_hi(m: M64, root: Ref, k: K6, s: Seq<Ref>, q: Seq<It>) -> bool {
    plan6(m, root, q) && under6(m, root, k, q) && s.len() > 0 && base6(m, s, s.len() - 1) == q.len() && isub64(m, root, k.hi, k.n, s[0]) && s == leaves64(tree64(m, s[0])) && q == all6(m, s.skip(1))
}
pub proof fn l_plan_hi(m: M64, root: Ref, k: K6, r: Ref)
    requires ok6(m, root), 0 <= k.n < 64, isub64(m, root, k.hi, k.n, r),
    ensures ({
        let s = leaves64(tree64(m, r));
        let q = all6(m, s.skip(1));
        plan_hi(m, root, k, s, q) && plan6(m, root, q) && distinct(q) && s.len() > 0 && s[0] == r && base6(m, s, 0) == 0
    }),
{
    reveal(plan_hi);
    reveal(plan6);
    let s = leaves64(tree64(m, r));
    l_under6_hi(m, root, k, r);
    l_under64(m, root, k.hi, k.n, r);
    assert(s.skip(1) =~= s.drop_first());
    assert(s.skip(1).take(s.len() - 1) =~= s.skip(1));
    assert(s.skip(1).take(0) =~= Seq::empty());
}
pub proof fn l_plan_hi_at(m: M64, root: Ref, k: K6, s: Seq<Ref>, q: Seq<It>, p: int)
    requires plan_hi(m, root, k, s, q), 0 < p < s.len(),
    ensures ({
        let x = s[p];
        let b = base6(m, s, p - 1);
        &&& x != NIL && m.contains_key(x) && 0 <= m[x].Bits <= 64 && (is_sub(m[x].Value) <==> m[x].Bits == 64)
        &&& base6(m, s, p) <= q.len() && 0 <= b
        &&& !is_sub(m[x].Value) ==> base6(m, s, p) == b + 1 && q[b] == ith(m, x) && q[b].r == x
        &&& is_sub(m[x].Value) ==> {
            let w = leaves64(tree64(m, sub_of(m[x].Value)));
            &&& wf64(m, sub_of(m[x].Value)) && leafs64(m, sub_of(m[x].Value), w) && sub_of(m[x].Value) != NIL
            &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).r != x
            &&& base6(m, s, p) == b + w.len()
            &&& forall|i: int| 0 <= i < w.len() ==> q[b + i] == itl(m, m[x].Key, #[trigger] w[i]) && q[b + i].r == w[i]
        }
    }),
{
    reveal(plan_hi);
    reveal(plan6);
    let d = s.skip(1);
    let x = s[p];
    assert(d[p - 1] == x);
    l_leaves_ok64(m, s[0]);
    l_under64(m, root, k.hi, k.n, s[0]);
    assert(s.drop_first() =~= d);
    assert(m.contains_key(x));
    assert(leaves64(tree64(m, root)).contains(d[p - 1]));
    l_all6_at(m, d, p - 1);
    l_lvl6(m, root, m[x].Key, m[x].Bits as int);
    if is_sub(m[x].Value) {
        reveal(leafs64);
        l_top_not(m, root, q, x);
        let w = leaves64(tree64(m, sub_of(m[x].Value)));
        let b = base6(m, s, p - 1);
        assert forall|i: int| 0 <= i < w.len() implies q[b + i] == itl(m, m[x].Key, #[trigger] w[i]) && q[b + i].r == w[i] by {
            assert(one6(m, x)[i] == itl(m, m[x].Key, w[i]));
        }
    } else {
        assert(one6(m, x)[0] == ith(m, x));
    }
}

pub proof fn l_plan_lo_end(hn: MN, m0: M64, m1: M64, root: Ref, k: K6, r: Ref, s: Seq<Ref>, q: Seq<It>, l0: Seq<(iptree_Pair, Iface, bool)>, l1: Seq<(iptree_Pair, Iface, bool)>)
    requires plan_lo(m0, root, k, r, s, q), prog64(hn, m0, m1, q, s.len() - lof(m0, r), l0, l1),
    ensures ok6(m1, root), get6(m0, root, k) is Some ==> desc6(m0, m1, root, k, hn, l0, l1),
{
    reveal(plan_lo);
    l_plan6_end(hn, m0, m1, root, q, l0, l1);
}
pub proof fn l_plan_hi_end(hn: MN, m0: M64, m1: M64, root: Ref, k: K6, s: Seq<Ref>, q: Seq<It>, l0: Seq<(iptree_Pair, Iface, bool)>, l1: Seq<(iptree_Pair, Iface, bool)>)
    requires plan_hi(m0, root, k, s, q), prog64(hn, m0, m1, q, base6(m0, s, s.len() - 1), l0, l1),
    ensures ok6(m1, root), desc6(m0, m1, root, k, hn, l0, l1),
{
    reveal(plan_hi);
    l_plan6_end(hn, m0, m1, root, q, l0, l1);
}
