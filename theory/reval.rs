// Trees whose nodes keep their place but get new values.

pub open spec fn shape@X@(a: @S@, b: @S@) -> bool { a.@KEY@ == b.@KEY@ && a.@BITS@ == b.@BITS@ && a.@LEAF@ == b.@LEAF@ && a.chld == b.chld }

// the calls so far answered lg, for the nodes xs; m is m0 with the values they asked for
#[verifier::opaque]
pub open spec fn ustate@X@(m0: Map<Ref, @S@>, m: Map<Ref, @S@>, xs: Seq<Ref>, lg: Seq<(iptree_Pair, Iface, bool)>) -> bool {
    &&& xs.len() == lg.len()
    &&& forall|x: Ref| #[trigger] m0.contains_key(x) <==> m.contains_key(x)
    &&& forall|x: Ref| m0.contains_key(x) ==> shape@X@(m0[x], #[trigger] m[x])
    &&& forall|i: int| 0 <= i < xs.len() ==> m0.contains_key(#[trigger] xs[i]) && m[xs[i]].@VAL@ == if lg[i].2 { lg[i].1 } else { m0[xs[i]].@VAL@ }
    &&& forall|x: Ref| m0.contains_key(x) && !xs.contains(x) ==> (#[trigger] m[x]) == m0[x]
    &&& forall|i: int| 0 <= i < lg.len() ==> !is_sub((#[trigger] lg[i]).1)
}
pub proof fn l_ustart@X@(m: Map<Ref, @S@>)
    ensures ustate@X@(m, m, Seq::empty(), Seq::empty()),
{
    reveal(ustate@X@);
}
pub proof fn l_ustep@X@(m0: Map<Ref, @S@>, m: Map<Ref, @S@>, xs: Seq<Ref>, lg: Seq<(iptree_Pair, Iface, bool)>, x: Ref, e: (iptree_Pair, Iface, bool), m2: Map<Ref, @S@>)
    requires
        ustate@X@(m0, m, xs, lg), m0.contains_key(x), !xs.contains(x), !is_sub(e.1),
        m2 =~= m.insert(x, @S@ { @VAL@: if e.2 { e.1 } else { m[x].@VAL@ }, ..m[x] }),
    ensures ustate@X@(m0, m2, xs.push(x), lg.push(e)),
{
    reveal(ustate@X@);
    let ys = xs.push(x);
    let ls = lg.push(e);
    assert(m[x] == m0[x]);
    assert forall|i: int| 0 <= i < ys.len() implies m0.contains_key(#[trigger] ys[i]) && m2[ys[i]].@VAL@ == if ls[i].2 { ls[i].1 } else { m0[ys[i]].@VAL@ } by {
        if i < xs.len() { assert(ys[i] == xs[i]); assert(xs.contains(xs[i])); }
    }
    assert forall|y: Ref| m0.contains_key(y) && !ys.contains(y) implies (#[trigger] m2[y]) == m0[y] by {
        assert(ys[xs.len() as int] == x);
        if xs.contains(y) { let i = choose|i: int| 0 <= i < xs.len() && xs[i] == y; assert(ys[i] == y); }
    }
}
pub proof fn l_ufresh@X@(m0: Map<Ref, @S@>, m: Map<Ref, @S@>, xs: Seq<Ref>, lg: Seq<(iptree_Pair, Iface, bool)>, x: Ref)
    requires ustate@X@(m0, m, xs, lg), m0.contains_key(x),
    ensures m.contains_key(x), shape@X@(m0[x], m[x]), !xs.contains(x) ==> m[x] == m0[x],
{
    reveal(ustate@X@);
}

pub open spec fn reval@X@(m: Map<Ref, @S@>, t: T@X@) -> T@X@
    decreases t,
{
    match t {
        T@X@::E => T@X@::E,
        T@X@::N { r, key, b, leaf, l, rt, .. } => T@X@::N { r, key, b, leaf, val: m[r].@VAL@, l: Box::new(reval@X@(m, *l)), rt: Box::new(reval@X@(m, *rt)) },
    }
}
pub proof fn l_reval_tree@X@(m0: Map<Ref, @S@>, m: Map<Ref, @S@>, r: Ref, t: T@X@)
    requires repr@X@(m0, r, t), twf@X@(t), forall|x: Ref| #[trigger] fp@X@(t).contains(x) ==> m.contains_key(x) && shape@X@(m0[x], m[x]),
    ensures repr@X@(m, r, reval@X@(m, t)), twf@X@(reval@X@(m, t)), fp@X@(reval@X@(m, t)) == fp@X@(t), leaves@X@(reval@X@(m, t)) == leaves@X@(t),
    decreases t,
{
    if t is N {
        assert(fp@X@(t).contains(r));
        assert(shape@X@(m0[r], m[r]));
        assert forall|x: Ref| #[trigger] fp@X@(*t->l).contains(x) implies m.contains_key(x) && shape@X@(m0[x], m[x]) by { assert(fp@X@(t).contains(x)); }
        assert forall|x: Ref| #[trigger] fp@X@(*t->rt).contains(x) implies m.contains_key(x) && shape@X@(m0[x], m[x]) by { assert(fp@X@(t).contains(x)); }
        l_reval_tree@X@(m0, m, m0[r].chld.a, *t->l);
        l_reval_tree@X@(m0, m, m0[r].chld.b, *t->rt);
        let u = reval@X@(m, t);
        assert(repr@X@(m, m[r].chld.a, *u->l));
        assert(repr@X@(m, m[r].chld.b, *u->rt));
        assert(under@X@(*u->l, t->key, t->b, 0));
        assert(under@X@(*u->rt, t->key, t->b, 1));
    }
}
pub proof fn l_reval@X@(m0: Map<Ref, @S@>, m: Map<Ref, @S@>, xs: Seq<Ref>, lg: Seq<(iptree_Pair, Iface, bool)>, r: Ref)
    requires ustate@X@(m0, m, xs, lg), wf@X@(m0, r),
    ensures wf@X@(m, r), fp@X@(tree@X@(m, r)) == fp@X@(tree@X@(m0, r)), leaves@X@(tree@X@(m, r)) == leaves@X@(tree@X@(m0, r)),
{
    reveal(ustate@X@);
    let t = tree@X@(m0, r);
    l_fp_dom@X@(m0, r, t);
    l_reval_tree@X@(m0, m, r, t);
    l_unique@X@(m, r, reval@X@(m, t));
}

// a leaf of a tree is among its leaves
pub proof fn l_leaf_in@X@(m: Map<Ref, @S@>, r: Ref, t: T@X@, x: Ref) -> (i: int)
    requires repr@X@(m, r, t), fp@X@(t).contains(x), m[x].@LEAF@,
    ensures 0 <= i < leaves@X@(t).len(), leaves@X@(t)[i] == x,
    decreases t,
{
    let a = if t->leaf { 1int } else { 0 };
    if x == r {
        0
    } else if fp@X@(*t->l).contains(x) {
        let i = l_leaf_in@X@(m, m[r].chld.a, *t->l, x);
        assert(leaves@X@(t)[a + i] == leaves@X@(*t->l)[i]);
        a + i
    } else {
        let i = l_leaf_in@X@(m, m[r].chld.b, *t->rt, x);
        let p = a + leaves@X@(*t->l).len() + i;
        assert(leaves@X@(t)[p] == leaves@X@(*t->rt)[i]);
        p
    }
}

// the leaves strictly below a stored prefix
pub proof fn l_under@X@(m: Map<Ref, @S@>, n: Ref, key: @K@, b: int, r: Ref)
    requires wf@X@(m, n), isub@X@(m, n, key, b, r),
    ensures ({
        let s = leaves@X@(tree@X@(m, r));
        let d = s.drop_first();
        &&& s.len() > 0 && s[0] == r && s == seq![r] + d
        &&& sorted@X@(m, d) && stored@X@(m, n, d)
        &&& forall|i: int| 0 <= i < d.len() ==> leaves@X@(tree@X@(m, n)).contains(#[trigger] d[i]) && within@X@(m[d[i]].@KEY@, m[d[i]].@BITS@ as int, key, b) && !same@X@(m[d[i]].@KEY@, m[d[i]].@BITS@ as int, key, b)
        &&& forall|k: @K@, kb: int| (#[trigger] get@X@(m, n, k, kb)) is Some && within@X@(k, kb, key, b) && !same@X@(k, kb, key, b) ==> hasit@X@(m, d, k, kb)
    }),
{
    let t = tree@X@(m, r);
    let s = leaves@X@(t);
    let d = s.drop_first();
    l_open@X@(m, r);
    l_leaves_ok@X@(m, r);
    assert(s[0] == r);
    assert(s =~= seq![r] + d);
    assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i + 1]);
    assert forall|i: int| 0 <= i < d.len() implies d[i] != NIL && m.contains_key(#[trigger] d[i]) && m[d[i]].@LEAF@ && 0 <= m[d[i]].@BITS@ <= @W@
        && get@X@(m, n, m[d[i]].@KEY@, m[d[i]].@BITS@ as int) == Some(m[d[i]].@VAL@) && leaves@X@(tree@X@(m, n)).contains(d[i])
        && within@X@(m[d[i]].@KEY@, m[d[i]].@BITS@ as int, key, b) && !same@X@(m[d[i]].@KEY@, m[d[i]].@BITS@ as int, key, b) by {
        let x = s[i + 1];
        assert(m.contains_key(x));
        assert(find@X@(t, m[x].@KEY@, m[x].@BITS@ as int) == Some(m[x].@VAL@));
        l_leaves_fp@X@(m, r, t, i + 1);
        let j = l_leaf_in@X@(m, n, tree@X@(m, n), x);
        assert(below@B@(m[s[0]].@KEY@, m[s[0]].@BITS@ as int, m[x].@KEY@, m[x].@BITS@ as int));
    }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies below@B@(m[#[trigger] d[i]].@KEY@, m[d[i]].@BITS@ as int, m[#[trigger] d[j]].@KEY@, m[d[j]].@BITS@ as int) by {
        assert(d[i] == s[i + 1] && d[j] == s[j + 1]);
    }
    assert forall|k: @K@, kb: int| (#[trigger] get@X@(m, n, k, kb)) is Some && within@X@(k, kb, key, b) && !same@X@(k, kb, key, b) implies hasit@X@(m, d, k, kb) by {
        assert(find@X@(t, k, kb) is Some);
        assert(get@X@(m, r, k, kb) is Some);
        let i = choose|i: int| 0 <= i < s.len() && same@X@(m[#[trigger] s[i]].@KEY@, m[s[i]].@BITS@ as int, k, kb);
        if i > 0 { assert(d[i - 1] == s[i]); }
    }
}

// the same stored prefix before and after
pub proof fn l_rev_get@X@(m0: Map<Ref, @S@>, m: Map<Ref, @S@>, xs: Seq<Ref>, lg: Seq<(iptree_Pair, Iface, bool)>, r: Ref, k: @K@, b: int) -> (x: Ref)
    requires ustate@X@(m0, m, xs, lg), wf@X@(m0, r),
    ensures
        get@X@(m, r, k, b) is Some <==> get@X@(m0, r, k, b) is Some,
        get@X@(m0, r, k, b) is Some ==> {
            &&& leaves@X@(tree@X@(m0, r)).contains(x) && m0.contains_key(x) && same@X@(m0[x].@KEY@, m0[x].@BITS@ as int, k, b)
            &&& get@X@(m0, r, k, b) == Some(m0[x].@VAL@)
            &&& get@X@(m, r, k, b) == Some(m[x].@VAL@)
        },
{
    let s = leaves@X@(tree@X@(m0, r));
    l_reval@X@(m0, m, xs, lg, r);
    l_leaves_ok@X@(m0, r);
    l_leaves_ok@X@(m, r);
    assert(stored@X@(m0, r, s) && stored@X@(m, r, s));
    let j = if get@X@(m0, r, k, b) is Some {
        assert(hasit@X@(m0, s, k, b));
        choose|j: int| 0 <= j < s.len() && same@X@(m0[#[trigger] s[j]].@KEY@, m0[s[j]].@BITS@ as int, k, b)
    } else if get@X@(m, r, k, b) is Some {
        assert(hasit@X@(m, s, k, b));
        choose|j: int| 0 <= j < s.len() && same@X@(m[#[trigger] s[j]].@KEY@, m[s[j]].@BITS@ as int, k, b)
    } else {
        -1
    };
    if j >= 0 {
        let x = s[j];
        assert(m0.contains_key(x));
        l_ufresh@X@(m0, m, xs, lg, x);
        l_fagree@X@(tree@X@(m0, r), m0[x].@KEY@, k, b);
        l_fagree@X@(tree@X@(m, r), m0[x].@KEY@, k, b);
        x
    } else {
        NIL
    }
}
pub proof fn l_fagree@X@(t: T@X@, k: @K@, j: @K@, b: int)
    requires agree@B@(k, j, b),
    ensures find@X@(t, k, b) == find@X@(t, j, b),
    decreases t,
{
    if t is N {
        l_fagree@X@(*t->l, k, j, b);
        l_fagree@X@(*t->rt, k, j, b);
    }
}
pub proof fn l_newval@X@(m0: Map<Ref, @S@>, m: Map<Ref, @S@>, xs: Seq<Ref>, lg: Seq<(iptree_Pair, Iface, bool)>, x: Ref)
    requires ustate@X@(m0, m, xs, lg), m0.contains_key(x),
    ensures !is_sub(m0[x].@VAL@) ==> !is_sub(m[x].@VAL@),
{
    reveal(ustate@X@);
    if xs.contains(x) { let i = choose|i: int| 0 <= i < xs.len() && xs[i] == x; assert(xs[i] == x); }
}
