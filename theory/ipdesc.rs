// Updates of the values strictly below a stored network.

// the callback of a descendant update: what it was called with and what it answered
pub struct UpdateDescendantsCallback { pub l: Ghost<Seq<(iptree_Pair, Iface, bool)>>, pub nil: Ghost<bool> }

impl UpdateDescendantsCallback {
    pub open spec fn view(&self) -> Seq<(iptree_Pair, Iface, bool)> { self.l@ }

    // the unexported subTree64 cannot be what it answers
    #[verifier::external_body]
    pub fn call_(&mut self, p: iptree_Pair) -> (r: (Iface, bool))
        requires !old(self).nil@,
        ensures final(self)@ == old(self)@.push((p, r.0, r.1)), final(self).nil@ == old(self).nil@, !is_sub(r.0),
    { unimplemented!() }
}

pub open spec fn pof(lg: Seq<(iptree_Pair, Iface, bool)>) -> Seq<iptree_Pair> { Seq::new(lg.len(), |i: int| lg[i].0) }
pub open spec fn refs(q: Seq<It>) -> Seq<Ref> { Seq::new(q.len(), |i: int| q[i].r) }

// q lists exactly what is stored strictly below the prefix, in order
pub open spec fn under4(m: M32, root: Ref, k: u32, n: int, q: Seq<It>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> it_below(#[trigger] q[i], #[trigger] q[j])
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).v4 && 0 <= q[i].n <= 32 && get32(m, root, q[i].k4, q[i].n) == Some(q[i].v) && within32(q[i].k4, q[i].n, k, n) && !same32(q[i].k4, q[i].n, k, n)
    &&& forall|a: u32, b: int| (#[trigger] get32(m, root, a, b)) is Some && within32(a, b, k, n) && !same32(a, b, k, n) ==> lst4(q, a, b)
}
pub open spec fn under6(m: M64, root: Ref, k: K6, q: Seq<It>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> it_below(#[trigger] q[i], #[trigger] q[j])
    &&& forall|i: int| 0 <= i < q.len() ==> !(#[trigger] q[i]).v4 && 0 <= q[i].n <= 128 && get6(m, root, itk(q[i])) == Some(q[i].v) && within6(itk(q[i]), k) && !same6(itk(q[i]), k)
    &&& forall|a: K6| (#[trigger] get6(m, root, a)) is Some && within6(a, k) && !same6(a, k) ==> lst6(q, a)
}
// the content after the answers lg for the networks q
pub open spec fn chg4(m0: M32, m1: M32, root: Ref, q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>) -> bool {
    &&& forall|i: int, a: u32, b: int| 0 <= i < q.len() && same32((#[trigger] q[i]).k4, q[i].n, a, b) ==> (#[trigger] get32(m1, root, a, b)) == if lg[i].2 { Some(lg[i].1) } else { get32(m0, root, a, b) }
    &&& forall|a: u32, b: int| !lst4(q, a, b) ==> (#[trigger] get32(m1, root, a, b)) == get32(m0, root, a, b)
}
pub open spec fn chg6(m0: M64, m1: M64, root: Ref, q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>) -> bool {
    &&& forall|i: int, a: K6| 0 <= i < q.len() && same6(itk(#[trigger] q[i]), a) ==> (#[trigger] get6(m1, root, a)) == if lg[i].2 { Some(lg[i].1) } else { get6(m0, root, a) }
    &&& forall|a: K6| !lst6(q, a) ==> (#[trigger] get6(m1, root, a)) == get6(m0, root, a)
}
// each network strictly below was shown to the callback once, in order, and the answers took effect
pub open spec fn desc4(m0: M32, m1: M32, root: Ref, k: u32, n: int, hn: MN, l0: Seq<(iptree_Pair, Iface, bool)>, l1: Seq<(iptree_Pair, Iface, bool)>) -> bool {
    exists|q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>| #[trigger] under4(m0, root, k, n, q) && l1 == l0 + lg && pairs_are(hn, pof(lg), q) && #[trigger] chg4(m0, m1, root, q, lg)
}
pub open spec fn desc6(m0: M64, m1: M64, root: Ref, k: K6, hn: MN, l0: Seq<(iptree_Pair, Iface, bool)>, l1: Seq<(iptree_Pair, Iface, bool)>) -> bool {
    exists|q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>| #[trigger] under6(m0, root, k, q) && l1 == l0 + lg && pairs_are(hn, pof(lg), q) && #[trigger] chg6(m0, m1, root, q, lg)
}

// ------------------------------------------------------------ lemmas

// one more call
pub proof fn l_call(hn0: MN, hn1: MN, q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>, e: (iptree_Pair, Iface, bool), i: It)
    requires pairs_are(hn0, pof(lg), q), extnet(hn0, hn1), pair_is(hn1, e.0, i),
    ensures pairs_are(hn1, pof(lg.push(e)), q.push(i)),
{
    l_push_pair(hn0, hn1, pof(lg), q, e.0, i);
    assert(pof(lg.push(e)) =~= pof(lg).push(e.0));
}

pub proof fn l_below_ne(a: It, b: It)
    requires it_below(a, b), a.v4 == b.v4,
    ensures a.v4 ==> !same32(a.k4, a.n, b.k4, b.n), !a.v4 ==> !same6(itk(a), itk(b)),
{
}

pub proof fn l_under4(m: M32, root: Ref, k: u32, n: int, r: Ref)
    requires wf32(m, root), isub32(m, root, k, n, r),
    ensures under4(m, root, k, n, all4(m, leaves32(tree32(m, r)).drop_first())),
{
    l_under32(m, root, k, n, r);
    let d = leaves32(tree32(m, r)).drop_first();
    let q = all4(m, d);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).v4 && 0 <= q[i].n <= 32 && get32(m, root, q[i].k4, q[i].n) == Some(q[i].v) && within32(q[i].k4, q[i].n, k, n) && !same32(q[i].k4, q[i].n, k, n) by {
        assert(m.contains_key(d[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies it_below(#[trigger] q[i], #[trigger] q[j]) by {
        assert(below32(m[d[i]].Key, m[d[i]].Bits as int, m[d[j]].Key, m[d[j]].Bits as int));
    }
    assert forall|a: u32, b: int| (#[trigger] get32(m, root, a, b)) is Some && within32(a, b, k, n) && !same32(a, b, k, n) implies lst4(q, a, b) by {
        let i = choose|i: int| 0 <= i < d.len() && same32(m[#[trigger] d[i]].Key, m[d[i]].Bits as int, a, b);
        assert(q[i].v4);
    }
}

pub proof fn l_chg4(m0: M32, m1: M32, root: Ref, d: Seq<Ref>, lg: Seq<(iptree_Pair, Iface, bool)>)
    requires
        wf32(m0, root), ustate32(m0, m1, d, lg), sorted32(m0, d),
        forall|i: int| 0 <= i < d.len() ==> leaves32(tree32(m0, root)).contains(#[trigger] d[i]),
    ensures wf32(m1, root), chg4(m0, m1, root, all4(m0, d), lg),
{
    let s = leaves32(tree32(m0, root));
    let q = all4(m0, d);
    l_reval32(m0, m1, d, lg, root);
    l_leaves_ok32(m0, root);
    l_leaves_ok32(m1, root);
    reveal(ustate32);
    assert(stored32(m0, root, s) && stored32(m1, root, s));
    assert forall|a: u32, b: int| (#[trigger] get32(m0, root, a, b)) is Some implies
        exists|j: int| 0 <= j < s.len() && #[trigger] m0.contains_key(s[j]) && same32(m0[s[j]].Key, m0[s[j]].Bits as int, a, b) && get32(m1, root, a, b) == Some(m1[s[j]].Value) && get32(m0, root, a, b) == Some(m0[s[j]].Value) by {
        assert(hasit32(m0, s, a, b));
        let j = choose|j: int| 0 <= j < s.len() && same32(m0[#[trigger] s[j]].Key, m0[s[j]].Bits as int, a, b);
        assert(m0.contains_key(s[j]) && m1.contains_key(s[j]));
        assert(shape32(m0[s[j]], m1[s[j]]));
        l_find_agree32(tree32(m0, root), m0[s[j]].Key, a, b);
        l_find_agree32(tree32(m1, root), m0[s[j]].Key, a, b);
    }
    assert forall|a: u32, b: int| (#[trigger] get32(m1, root, a, b)) is Some implies get32(m0, root, a, b) is Some by {
        assert(hasit32(m1, s, a, b));
        let j = choose|j: int| 0 <= j < s.len() && same32(m1[#[trigger] s[j]].Key, m1[s[j]].Bits as int, a, b);
        assert(m0.contains_key(s[j]) && m1.contains_key(s[j]));
        assert(shape32(m0[s[j]], m1[s[j]]));
        l_find_agree32(tree32(m0, root), m0[s[j]].Key, a, b);
    }
    assert forall|i: int, a: u32, b: int| 0 <= i < q.len() && same32((#[trigger] q[i]).k4, q[i].n, a, b) implies (#[trigger] get32(m1, root, a, b)) == if lg[i].2 { Some(lg[i].1) } else { get32(m0, root, a, b) } by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == d[i];
        assert(s.contains(d[i]));
        assert(m0.contains_key(s[j]) && m1.contains_key(s[j]));
        assert(shape32(m0[s[j]], m1[s[j]]));
        assert(m0.contains_key(d[i]));
        l_find_agree32(tree32(m0, root), m0[s[j]].Key, a, b);
        l_find_agree32(tree32(m1, root), m0[s[j]].Key, a, b);
    }
    assert forall|a: u32, b: int| !lst4(q, a, b) implies (#[trigger] get32(m1, root, a, b)) == get32(m0, root, a, b) by {
        if get32(m0, root, a, b) is Some {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] m0.contains_key(s[j]) && same32(m0[s[j]].Key, m0[s[j]].Bits as int, a, b) && get32(m1, root, a, b) == Some(m1[s[j]].Value) && get32(m0, root, a, b) == Some(m0[s[j]].Value);
            if d.contains(s[j]) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == s[j];
                assert(q[i].v4 && same32(q[i].k4, q[i].n, a, b));
            }
        }
    }
}
pub proof fn l_find_agree32(t: T32, k: u32, j: u32, b: int)
    requires agree32(k, j, b),
    ensures find32(t, k, b) == find32(t, j, b),
    decreases t,
{
    if t is N {
        l_find_agree32(*t->l, k, j, b);
        l_find_agree32(*t->rt, k, j, b);
    }
}

#[verifier::opaque]
pub open spec fn distinct(q: Seq<It>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).r != (#[trigger] q[j]).r }

pub open spec fn among6(m: M64, root: Ref, q: Seq<It>) -> bool { forall|i: int| 0 <= i < q.len() ==> all6(m, leaves64(tree64(m, root))).contains(#[trigger] q[i]) }

// what a listed network is
pub open spec fn isit6(m: M64, root: Ref, it: It) -> bool {
    &&& !it.v4 && m.contains_key(it.r) && it.v == m[it.r].Value && 0 <= it.n <= 128
    &&& get6(m, root, itk(it)) == Some(it.v)
    &&& it.n < 64 ==> it == ith(m, it.r) && fp64(tree64(m, root)).contains(it.r) && !is_sub(it.v)
    &&& it.n >= 64 ==> it == itl(m, it.hi, it.r) && get64(m, root, it.hi, 64) is Some && leaves64(tree64(m, subat(m, root, it.hi))).contains(it.r) && fp64(tree64(m, subat(m, root, it.hi))).contains(it.r)
}
pub proof fn l_isit6(m: M64, root: Ref, it: It)
    requires ok6(m, root), all6(m, leaves64(tree64(m, root))).contains(it),
    ensures isit6(m, root, it),
{
    let s = leaves64(tree64(m, root));
    let i = choose|i: int| 0 <= i < all6(m, s).len() && all6(m, s)[i] == it;
    let a = l_src6(m, s, i);
    let x = s[a.0];
    l_leaves_ok64(m, root);
    assert(m.contains_key(x));
    l_leaves_fp64(m, root, tree64(m, root), a.0);
    l_one6(m, root, x, a.1);
    l_lvl6(m, root, m[x].Key, m[x].Bits as int);
    if is_sub(m[x].Value) {
        let u = sub_of(m[x].Value);
        let w = leaves64(tree64(m, u));
        l_leaves_ok64(m, u);
        assert(m.contains_key(w[a.1]));
        l_leaves_fp64(m, u, tree64(m, u), a.1);
        assert(w.contains(w[a.1]));
    }
}
pub proof fn l_ref6(m: M64, root: Ref, a: It, b: It)
    requires ok6(m, root), isit6(m, root, a), isit6(m, root, b), a.r == b.r,
    ensures a == b,
{
    if a.n >= 64 { l_lvl6(m, root, a.hi, 64); }
    if b.n >= 64 { l_lvl6(m, root, b.hi, 64); }
    if a.n >= 64 && b.n >= 64 && a.hi != b.hi { l_sep6(m, root, a.hi, b.hi); }
}
pub proof fn l_distinct6(m: M64, root: Ref, q: Seq<It>)
    requires ok6(m, root), among6(m, root, q), forall|i: int, j: int| 0 <= i < j < q.len() ==> it_below(#[trigger] q[i], #[trigger] q[j]),
    ensures distinct(q),
{
    reveal(distinct);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).r != (#[trigger] q[j]).r by {
        l_isit6(m, root, q[i]);
        l_isit6(m, root, q[j]);
        if q[i].r == q[j].r { l_ref6(m, root, q[i], q[j]); }
    }
}
pub proof fn l_distinct4(m: M32, q: Seq<It>)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) == it4(m, q[i].r), forall|i: int, j: int| 0 <= i < j < q.len() ==> it_below(#[trigger] q[i], #[trigger] q[j]),
    ensures distinct(q),
{
    reveal(distinct);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).r != (#[trigger] q[j]).r by {
        assert(q[i] == it4(m, q[i].r) && q[j] == it4(m, q[j].r));
    }
}
pub proof fn l_get6_agree(m: M64, root: Ref, a: K6, b: K6)
    requires same6(a, b),
    ensures get6(m, root, a) == get6(m, root, b),
{
    if a.n < 64 {
        l_fagree64(tree64(m, root), a.hi, b.hi, a.n);
    } else {
        l_agree_full(a.hi, b.hi);
        if get64(m, root, a.hi, 64) is Some { l_fagree64(tree64(m, sub_of(get64(m, root, a.hi, 64)->0)), a.lo, b.lo, a.n - 64); }
    }
}

// a first-level node that carries a subtree is not a listed network
pub proof fn l_top_not(m: M64, root: Ref, q: Seq<It>, x: Ref)
    requires ok6(m, root), among6(m, root, q), leaves64(tree64(m, root)).contains(x), is_sub(m[x].Value),
    ensures !refs(q).contains(x), forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).r != x,
{
    let s = leaves64(tree64(m, root));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
    l_leaves_fp64(m, root, tree64(m, root), j);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).r != x by {
        l_isit6(m, root, q[i]);
        if q[i].n >= 64 { l_lvl6(m, root, q[i].hi, 64); }
    }
}

pub proof fn l_ok6_rev(m0: M64, m1: M64, root: Ref, q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>)
    requires ok6(m0, root), ustate64(m0, m1, refs(q), lg), among6(m0, root, q),
    ensures ok6(m1, root), forall|k: u64| (#[trigger] get64(m1, root, k, 64)) == get64(m0, root, k, 64),
{
    l_reval64(m0, m1, refs(q), lg, root);
    assert forall|k: u64| (#[trigger] get64(m1, root, k, 64)) == get64(m0, root, k, 64) by {
        let x = l_rev_get64(m0, m1, refs(q), lg, root, k, 64);
        if get64(m0, root, k, 64) is Some {
            l_lvl6(m0, root, k, 64);
            l_top_not(m0, root, q, x);
            l_ufresh64(m0, m1, refs(q), lg, x);
        }
    }
    assert(lvl6(m1, root)) by {
        reveal(lvl6);
        assert forall|k: u64, b: int| (#[trigger] get64(m1, root, k, b)) is Some implies {
            let v = get64(m1, root, k, b)->0;
            &&& (b == 64 <==> is_sub(v))
            &&& is_sub(v) ==> sub_of(v) != NIL && wf64(m1, sub_of(v)) && plain64(m1, sub_of(v)) && fp64(tree64(m1, sub_of(v))).disjoint(fp64(tree64(m1, root)))
        } by {
            let x = l_rev_get64(m0, m1, refs(q), lg, root, k, b);
            l_lvl6(m0, root, k, b);
            l_newval64(m0, m1, refs(q), lg, x);
            if b == 64 {
                let u = sub_of(get64(m0, root, k, 64)->0);
                assert(get64(m1, root, k, 64) == get64(m0, root, k, 64));
                l_reval64(m0, m1, refs(q), lg, u);
                assert forall|kk: u64, bb: int| (#[trigger] get64(m1, u, kk, bb)) is Some implies !is_sub(get64(m1, u, kk, bb)->0) by {
                    let y = l_rev_get64(m0, m1, refs(q), lg, u, kk, bb);
                    l_newval64(m0, m1, refs(q), lg, y);
                    assert(get64(m0, u, kk, bb) is Some);
                }
            }
        }
    }
    assert(sep6(m1, root)) by {
        reveal(sep6);
        assert forall|k: u64, j: u64| k != j && (#[trigger] get64(m1, root, k, 64)) is Some && (#[trigger] get64(m1, root, j, 64)) is Some
            implies fp64(tree64(m1, subat(m1, root, k))).disjoint(fp64(tree64(m1, subat(m1, root, j)))) by {
            l_lvl6(m0, root, k, 64);
            l_lvl6(m0, root, j, 64);
            l_sep6(m0, root, k, j);
            l_reval64(m0, m1, refs(q), lg, subat(m0, root, k));
            l_reval64(m0, m1, refs(q), lg, subat(m0, root, j));
        }
    }
}
// the node behind a stored network, before and after
pub proof fn l_rev_get6(m0: M64, m1: M64, root: Ref, q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>, a: K6) -> (x: Ref)
    requires ok6(m0, root), ustate64(m0, m1, refs(q), lg), among6(m0, root, q),
    ensures
        get6(m1, root, a) is Some <==> get6(m0, root, a) is Some,
        get6(m0, root, a) is Some ==> m0.contains_key(x) && get6(m0, root, a) == Some(m0[x].Value) && get6(m1, root, a) == Some(m1[x].Value)
            && if a.n < 64 { leaves64(tree64(m0, root)).contains(x) && same64(m0[x].Key, m0[x].Bits as int, a.hi, a.n) } else { leaves64(tree64(m0, subat(m0, root, a.hi))).contains(x) && same64(m0[x].Key, m0[x].Bits as int, a.lo, a.n - 64) },
{
    l_ok6_rev(m0, m1, root, q, lg);
    if a.n < 64 {
        l_rev_get64(m0, m1, refs(q), lg, root, a.hi, a.n)
    } else {
        assert(get64(m1, root, a.hi, 64) == get64(m0, root, a.hi, 64));
        if get64(m0, root, a.hi, 64) is Some {
            l_lvl6(m0, root, a.hi, 64);
            l_rev_get64(m0, m1, refs(q), lg, sub_of(get64(m0, root, a.hi, 64)->0), a.lo, a.n - 64)
        } else { NIL }
    }
}
// the listed network of a node
pub proof fn l_it_of(m: M64, root: Ref, a: K6, x: Ref) -> (it: It)
    requires ok6(m, root), get6(m, root, a) is Some, m.contains_key(x),
        if a.n < 64 { leaves64(tree64(m, root)).contains(x) && same64(m[x].Key, m[x].Bits as int, a.hi, a.n) } else { leaves64(tree64(m, subat(m, root, a.hi))).contains(x) && same64(m[x].Key, m[x].Bits as int, a.lo, a.n - 64) },
    ensures all6(m, leaves64(tree64(m, root))).contains(it), it.r == x, same6(itk(it), a), isit6(m, root, it),
{
    let s = leaves64(tree64(m, root));
    let it = if a.n < 64 {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        l_leaves_ok64(m, root);
        assert(m.contains_key(s[j]));
        l_lvl6(m, root, m[x].Key, m[x].Bits as int);
        let i = l_dst6(m, s, j, 0);
        assert(all6(m, s)[i] == ith(m, x));
        ith(m, x)
    } else {
        l_leaves_ok64(m, root);
        assert(hasit64(m, s, a.hi, 64));
        let j = choose|j: int| 0 <= j < s.len() && same64(m[#[trigger] s[j]].Key, m[s[j]].Bits as int, a.hi, 64);
        let y = s[j];
        assert(m.contains_key(s[j]));
        l_agree_full(m[y].Key, a.hi);
        l_lvl6(m, root, m[y].Key, m[y].Bits as int);
        let w = leaves64(tree64(m, sub_of(m[y].Value)));
        let c = choose|c: int| 0 <= c < w.len() && w[c] == x;
        let i = l_dst6(m, s, j, c);
        l_agree_refl64(a.hi, 64);
        assert(all6(m, s)[i] == itl(m, a.hi, x));
        itl(m, a.hi, x)
    };
    l_isit6(m, root, it);
    it
}
pub proof fn l_chg6(m0: M64, m1: M64, root: Ref, q: Seq<It>, lg: Seq<(iptree_Pair, Iface, bool)>)
    requires ok6(m0, root), ustate64(m0, m1, refs(q), lg), among6(m0, root, q),
    ensures ok6(m1, root), chg6(m0, m1, root, q, lg),
{
    l_ok6_rev(m0, m1, root, q, lg);
    assert forall|i: int, a: K6| 0 <= i < q.len() && same6(itk(#[trigger] q[i]), a) implies (#[trigger] get6(m1, root, a)) == if lg[i].2 { Some(lg[i].1) } else { get6(m0, root, a) } by {
        l_isit6(m0, root, q[i]);
        l_get6_agree(m0, root, itk(q[i]), a);
        let x = l_rev_get6(m0, m1, root, q, lg, a);
        let it = l_it_of(m0, root, a, x);
        l_same_it(m0, root, it, q[i], a);
        reveal(ustate64);
        assert(refs(q)[i] == x);
    }
    assert forall|a: K6| !lst6(q, a) implies (#[trigger] get6(m1, root, a)) == get6(m0, root, a) by {
        let x = l_rev_get6(m0, m1, root, q, lg, a);
        if get6(m0, root, a) is Some {
            let it = l_it_of(m0, root, a, x);
            if refs(q).contains(x) {
                let i = choose|i: int| 0 <= i < refs(q).len() && refs(q)[i] == x;
                l_isit6(m0, root, q[i]);
                l_ref6(m0, root, it, q[i]);
                assert(same6(itk(q[i]), a));
            }
            l_ufresh64(m0, m1, refs(q), lg, x);
        }
    }
}
// two listed networks with the same prefix are one
pub proof fn l_same_it(m: M64, root: Ref, p: It, q: It, a: K6)
    requires ok6(m, root), all6(m, leaves64(tree64(m, root))).contains(p), all6(m, leaves64(tree64(m, root))).contains(q), same6(itk(p), a), same6(itk(q), a),
    ensures p == q,
{
    let s = leaves64(tree64(m, root));
    l_leaves_ok64(m, root);
    l_all6_sorted(m, root, s);
    let i = choose|i: int| 0 <= i < all6(m, s).len() && all6(m, s)[i] == p;
    let j = choose|j: int| 0 <= j < all6(m, s).len() && all6(m, s)[j] == q;
    l_isit6(m, root, p);
    l_isit6(m, root, q);
    if i < j { assert(it_below(all6(m, s)[i], all6(m, s)[j])); }
    if j < i { assert(it_below(all6(m, s)[j], all6(m, s)[i])); }
    if a.n >= 64 { l_agree_full(p.hi, a.hi); l_agree_full(q.hi, a.hi); }
}
pub proof fn l_under6_lo(m: M64, root: Ref, k: K6, r: Ref)
    requires ok6(m, root), 64 <= k.n <= 128, get64(m, root, k.hi, 64) is Some, isub64(m, subat(m, root, k.hi), k.lo, k.n - 64, r),
    ensures ({
        let q = lows(m, k.hi, leaves64(tree64(m, r)).drop_first());
        under6(m, root, k, q) && among6(m, root, q) && distinct(q)
    }),
{
    let u = subat(m, root, k.hi);
    l_lvl6(m, root, k.hi, 64);
    l_under64(m, u, k.lo, k.n - 64, r);
    l_agree_refl64(k.hi, 64);
    let d = leaves64(tree64(m, r)).drop_first();
    let q = lows(m, k.hi, d);
    assert(among6(m, root, q)) by {
        assert forall|i: int| 0 <= i < q.len() implies all6(m, leaves64(tree64(m, root))).contains(#[trigger] q[i]) by {
            assert(m.contains_key(d[i]));
            assert(leaves64(tree64(m, u)).contains(d[i]));
            l_agree_refl64(m[d[i]].Key, m[d[i]].Bits as int);
            let it = l_it_of(m, root, itk(q[i]), d[i]);
            l_agree_full(it.hi, k.hi);
        }
    }
    assert forall|i: int| 0 <= i < q.len() implies !(#[trigger] q[i]).v4 && 0 <= q[i].n <= 128 && get6(m, root, itk(q[i])) == Some(q[i].v) && within6(itk(q[i]), k) && !same6(itk(q[i]), k) by {
        assert(m.contains_key(d[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies it_below(#[trigger] q[i], #[trigger] q[j]) by {
        assert(below64(m[d[i]].Key, m[d[i]].Bits as int, m[d[j]].Key, m[d[j]].Bits as int));
    }
    assert forall|a: K6| (#[trigger] get6(m, root, a)) is Some && within6(a, k) && !same6(a, k) implies lst6(q, a) by {
        l_agree_full(a.hi, k.hi);
        assert(get64(m, u, a.lo, a.n - 64) is Some);
        let i = choose|i: int| 0 <= i < d.len() && same64(m[#[trigger] d[i]].Key, m[d[i]].Bits as int, a.lo, a.n - 64);
        assert(same6(itk(q[i]), a));
    }
    l_distinct6(m, root, q);
}
pub proof fn l_all6_prefix(m: M64, s: Seq<Ref>, p: int)
    requires 0 <= p <= s.len(),
    ensures all6(m, s.take(p)).len() <= all6(m, s).len(), forall|i: int| 0 <= i < all6(m, s.take(p)).len() ==> all6(m, s)[i] == #[trigger] all6(m, s.take(p))[i],
    decreases s.len() - p,
{
    if p == s.len() {
        assert(s.take(p) =~= s);
    } else {
        l_all6_prefix(m, s, p + 1);
        assert(s.take(p + 1).drop_last() =~= s.take(p));
        let a = all6(m, s.take(p));
        assert forall|i: int| 0 <= i < a.len() implies all6(m, s)[i] == #[trigger] a[i] by {
            assert(all6(m, s.take(p + 1))[i] == a[i]);
        }
    }
}
// where the networks of the p-th leaf are
pub proof fn l_all6_at(m: M64, s: Seq<Ref>, p: int)
    requires 0 <= p < s.len(),
    ensures
        all6(m, s.take(p + 1)).len() == all6(m, s.take(p)).len() + one6(m, s[p]).len(),
        all6(m, s.take(p + 1)).len() <= all6(m, s).len(),
        forall|k: int| 0 <= k < one6(m, s[p]).len() ==> all6(m, s)[all6(m, s.take(p)).len() + k] == #[trigger] one6(m, s[p])[k],
{
    l_all6_prefix(m, s, p + 1);
    assert(s.take(p + 1).drop_last() =~= s.take(p));
    assert forall|k: int| 0 <= k < one6(m, s[p]).len() implies all6(m, s)[all6(m, s.take(p)).len() + k] == #[trigger] one6(m, s[p])[k] by {
        let i = all6(m, s.take(p)).len() + k;
        assert(all6(m, s.take(p + 1))[i] == one6(m, s[p])[k]);
    }
}
pub proof fn l_under6_hi(m: M64, root: Ref, k: K6, r: Ref)
    requires ok6(m, root), 0 <= k.n < 64, isub64(m, root, k.hi, k.n, r),
    ensures ({
        let q = all6(m, leaves64(tree64(m, r)).drop_first());
        under6(m, root, k, q) && among6(m, root, q) && distinct(q)
    }),
{
    l_under64(m, root, k.hi, k.n, r);
    let d = leaves64(tree64(m, r)).drop_first();
    let s = leaves64(tree64(m, root));
    let q = all6(m, d);
    assert forall|i: int| 0 <= i < q.len() implies all6(m, s).contains(#[trigger] q[i]) && !q[i].v4 && 0 <= q[i].n <= 128 && get6(m, root, itk(q[i])) == Some(q[i].v) && within6(itk(q[i]), k) && !same6(itk(q[i]), k) by {
        let a = l_src6(m, d, i);
        let x = d[a.0];
        assert(m.contains_key(x));
        l_one6(m, root, x, a.1);
        assert(s.contains(x));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        let b = l_dst6(m, s, j, a.1);
    }
    assert(among6(m, root, q));
    l_all6_sorted(m, root, d);
    assert forall|a: K6| (#[trigger] get6(m, root, a)) is Some && within6(a, k) && !same6(a, k) implies lst6(q, a) by {
        let b = ms(a.n);
        assert(get64(m, root, a.hi, b) is Some);
        assert(hasit64(m, d, a.hi, b));
        let j = choose|j: int| 0 <= j < d.len() && same64(m[#[trigger] d[j]].Key, m[d[j]].Bits as int, a.hi, b);
        let x = d[j];
        assert(m.contains_key(d[j]));
        l_lvl6(m, root, m[x].Key, m[x].Bits as int);
        if a.n < 64 {
            let i = l_dst6(m, d, j, 0);
            assert(same6(itk(q[i]), a));
        } else {
            l_agree_full(m[x].Key, a.hi);
            let u = sub_of(m[x].Value);
            let w = leaves64(tree64(m, u));
            l_leaves_ok64(m, u);
            assert(get64(m, u, a.lo, a.n - 64) is Some);
            assert(hasit64(m, w, a.lo, a.n - 64));
            let c = choose|c: int| 0 <= c < w.len() && same64(m[#[trigger] w[c]].Key, m[w[c]].Bits as int, a.lo, a.n - 64);
            assert(m.contains_key(w[c]));
            let i = l_dst6(m, d, j, c);
            assert(one6(m, x)[c] == itl(m, m[x].Key, w[c]));
            assert(same6(itk(q[i]), a));
        }
    }
    l_distinct6(m, root, q);
}
// packing eight bytes keeps them
pub proof fn l_unpack64(s: Seq<u8>)
    requires s.len() >= 8,
    ensures bytes8(be64(s)) == s.subrange(0, 8),
{
    let (a, b, c, d, e, f, g, i) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    assert forall|a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, i: u8| true implies ({
        let x = #[trigger] pack8(a, b, c, d, e, f, g, i);
        &&& ((x >> 56u64) & 255u64) as u8 == a
        &&& ((x >> 48u64) & 255u64) as u8 == b
        &&& ((x >> 40u64) & 255u64) as u8 == c
        &&& ((x >> 32u64) & 255u64) as u8 == d
        &&& ((x >> 24u64) & 255u64) as u8 == e
        &&& ((x >> 16u64) & 255u64) as u8 == f
        &&& ((x >> 8u64) & 255u64) as u8 == g
        &&& (x & 255u64) as u8 == i
    }) by {
        let x = pack8(a, b, c, d, e, f, g, i);
        assert(((x >> 56u64) & 255u64) as u8 == a && ((x >> 48u64) & 255u64) as u8 == b && ((x >> 40u64) & 255u64) as u8 == c && ((x >> 32u64) & 255u64) as u8 == d
            && ((x >> 24u64) & 255u64) as u8 == e && ((x >> 16u64) & 255u64) as u8 == f && ((x >> 8u64) & 255u64) as u8 == g && (x & 255u64) as u8 == i) by (bit_vector)
            requires x == (((a as u64) << 56u64) | ((b as u64) << 48u64) | ((c as u64) << 40u64) | ((d as u64) << 32u64) | ((e as u64) << 24u64) | ((f as u64) << 16u64) | ((g as u64) << 8u64) | (i as u64));
    }
    assert(be64(s) == pack8(a, b, c, d, e, f, g, i));
    assert(bytes8(be64(s)) =~= s.subrange(0, 8));
}
pub open spec fn pack8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, i: u8) -> u64 {
    ((a as u64) << 56u64) | ((b as u64) << 48u64) | ((c as u64) << 40u64) | ((d as u64) << 32u64) | ((e as u64) << 24u64) | ((f as u64) << 16u64) | ((g as u64) << 8u64) | (i as u64)
}
// the key behind the first eight bytes
pub proof fn l_be64_of(s: Seq<u8>, k: u64)
    requires s.len() >= 8, forall|i: int| 0 <= i < 8 ==> s[i] == bytes8(k)[i],
    ensures be64(s) == k,
{
    let (a, b, c, d, e, f, g, i) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    let v = be64(s);
    assert(v == k) by (bit_vector)
        requires
            a == ((k >> 56u64) & 255u64) as u8, b == ((k >> 48u64) & 255u64) as u8, c == ((k >> 40u64) & 255u64) as u8, d == ((k >> 32u64) & 255u64) as u8,
            e == ((k >> 24u64) & 255u64) as u8, f == ((k >> 16u64) & 255u64) as u8, g == ((k >> 8u64) & 255u64) as u8, i == (k & 255u64) as u8,
            v == (((a as u64) << 56u64) | ((b as u64) << 48u64) | ((c as u64) << 40u64) | ((d as u64) << 32u64) | ((e as u64) << 24u64) | ((f as u64) << 16u64) | ((g as u64) << 8u64) | (i as u64));
}
